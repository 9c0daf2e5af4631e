//: group=full with=heap.cpp lflags=-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
// C20 commands and words of the input line.
#include <core/base.h>
#include <core/settings.h>
#include <core/str.h>
#include <core/os.h>
#include "line_state.h"
#include "word_collector.h"
#include "cmd_tokenisers.h"
#include "heap.h"
using namespace pbt;

static std::set<std::string> s_aliases;
static DWORD WINAPI hook_get(LPWSTR name, LPWSTR out, DWORD bytes, LPWSTR)
{
    std::string n; for (; *name; ++name) n += char(*name < 128 ? *name : '?');
    if (!s_aliases.count(n)) { SetLastError(ERROR_GEN_FAILURE); return 0; }
    if (bytes < 4) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    out[0] = 'x'; out[1] = 0; return 4;
}
extern "C" { void* __imp_GetConsoleAliasW = (void*)&hook_get; }
static bool s_init = [] { pbt::g_init = [] { os::set_shellname(L"shell"); settings::TEST_set_ever_loaded(); is_cmd_command("x"); }; return true; }();

struct W { size_t off, len; bool cmd, redir, quoted, alias, builtin; };
struct C { std::vector<W> words; bool rem = false; };
struct L { std::string s; std::vector<C> cmds; };

static std::string show(const std::string& line, const std::vector<W>& ws)
{
    std::string o;
    for (auto& w : ws)
    {
        o += "{" + std::to_string(w.off) + " [" + (w.off + w.len <= line.size() ? esc(line.substr(w.off, w.len)) : "OUTSIDE") + "]";
        if (w.cmd) o += " first"; if (w.redir) o += " redir"; if (w.quoted) o += " quoted"; if (w.alias) o += " alias"; if (w.builtin) o += " builtin";
        o += "} ";
    }
    return o;
}
static bool operator==(const W& a, const W& b) { return a.off == b.off && a.len == b.len && a.cmd == b.cmd && a.redir == b.redir && a.quoted == b.quoted && a.alias == b.alias; }

struct Res { std::vector<W> words; std::vector<std::vector<W>> states; std::vector<unsigned> offs; commands cmds; unsigned off; };
static W conv(const word& w) { return {w.offset, w.length, w.command_word, w.is_redir_arg, w.quoted, w.is_alias, w.is_cmd_command}; }
static Res collect(const std::string& line, size_t cursor, collect_words_mode mode, bool simple = false)
{
    static cmd_command_tokeniser ct; static cmd_word_tokeniser wt;
    ct.begin_line(); wt.begin_line();
    static word_collector wc(&ct, &wt); static word_collector sc;
    Res r; words ws;
    HeapGuard hg; GuardBuf gb(line.size() + 1); char* buf = gb.p(); memcpy(buf, line.c_str(), line.size() + 1);
    r.off = (simple ? sc : wc).collect_words(buf, unsigned(line.size()), unsigned(cursor), ws, mode, &r.cmds);
    for (auto& w : ws) r.words.push_back(conv(w));
    command_line_states st; st.set(buf, unsigned(line.size()), unsigned(cursor), ws, mode, r.cmds);
    for (auto& ls : st.get_linestates(buf, unsigned(line.size())))
    {
        std::vector<W> v; for (auto& w : ls.get_words()) v.push_back(conv(w));
        r.states.push_back(v); r.offs.push_back(ls.get_command_offset());
    }
    return r;
}

// Adds an argument's text and the words it holds.
struct Arg { const char* text; int n; struct { int off, len; bool q; } w[3]; };
static const std::vector<Arg> c_args = {
    {"abc", 1, {{0, 3, 0}}}, {"x", 1, {{0, 1, 0}}}, {"foo.txt", 1, {{0, 7, 0}}}, {"12", 1, {{0, 2, 0}}}, {"c:\\d\\e", 1, {{0, 6, 0}}}, {"\xc3\xa9\xe4\xb8\xad", 1, {{0, 5, 0}}},
    {"*.?", 1, {{0, 3, 0}}}, {"%v%", 1, {{0, 3, 0}}}, {"a-b", 1, {{0, 3, 0}}}, {"a/b", 1, {{0, 3, 0}}}, {"f!@#$~z", 1, {{0, 7, 0}}}, {"5", 1, {{0, 1, 0}}},
    {"a,b", 2, {{0, 1, 0}, {2, 1, 0}}}, {"a=b", 2, {{0, 1, 0}, {2, 1, 0}}}, {"a;b", 2, {{0, 1, 0}, {2, 1, 0}}}, {"a+b", 2, {{0, 1, 0}, {2, 1, 0}}}, {"a[b]c", 3, {{0, 1, 0}, {2, 1, 0}, {4, 1, 0}}},
    {"a`b'c", 3, {{0, 1, 0}, {2, 1, 0}, {4, 1, 0}}}, {"(a)b", 2, {{1, 1, 0}, {3, 1, 0}}}, {"+x", 1, {{0, 2, 0}}}, {"{a", 1, {{1, 1, 0}}}, {"a=+b", 2, {{0, 1, 0}, {3, 1, 0}}}, {"a,+b", 2, {{0, 1, 0}, {3, 1, 0}}}, {",=;a", 1, {{3, 1, 0}}},
    {"\"q r\"", 1, {{1, 3, 1}}}, {"\"q\"", 1, {{1, 1, 1}}}, {"\"\"", 1, {{1, 0, 1}}}, {"x\"y z\"w", 1, {{0, 7, 0}}}, {"\"a b\"c", 1, {{1, 5, 1}}}, {"\"a & b|c>d\"", 1, {{1, 9, 1}}}, {"a\"=\"b", 1, {{0, 5, 0}}},
    {"\"a\"b\"c d\"", 1, {{1, 7, 1}}}, {"\"a\",\"b\"", 2, {{1, 1, 1}, {5, 1, 1}}}, {"\"^\"", 1, {{1, 1, 1}}}, {"\"\"x", 1, {{1, 2, 1}}}, {"\"a\\\"", 1, {{1, 2, 1}}},
    {"a^&b", 1, {{0, 4, 0}}}, {"^^", 1, {{0, 2, 0}}}, {"^|x", 1, {{0, 3, 0}}}, {"a^>b", 1, {{0, 4, 0}}}, {"^\"a", 1, {{0, 3, 0}}}, {"a^ b", 2, {{0, 1, 0}, {3, 1, 0}}},
    {"-x", 1, {{0, 2, 0}}}, {"/x", 1, {{0, 2, 0}}}, {"--", 1, {{0, 2, 0}}}, {"-", 1, {{0, 1, 0}}}, {"-x=v", 2, {{0, 3, 0}, {3, 1, 0}}}, {"-x==v", 2, {{0, 4, 0}, {4, 1, 0}}}, {"-x:v", 2, {{0, 3, 0}, {3, 1, 0}}},
    {"/x:v:w", 2, {{0, 3, 0}, {3, 3, 0}}}, {"-x:", 2, {{0, 3, 0}, {3, 0, 0}}}, {"/a:\"b c\"", 2, {{0, 3, 0}, {4, 3, 1}}}, {"--a=\"b c\"", 2, {{0, 4, 0}, {5, 3, 1}}}, {"-x=", 1, {{0, 3, 0}}}, {"-\"a b\"", 1, {{0, 6, 0}}},
};
struct CmdW { const char* text; int n; struct { int off, len; bool q; } w[3]; bool builtin; };
static const std::vector<CmdW> c_words = {
    {"foo", 1, {{0, 3, 0}}}, {"foo.exe", 1, {{0, 7, 0}}}, {"c:\\x\\y", 1, {{0, 6, 0}}}, {"..\\foo", 1, {{0, 6, 0}}}, {"a-b", 1, {{0, 3, 0}}}, {"f^oo", 1, {{0, 4, 0}}}, {"\xc3\xbcn", 1, {{0, 3, 0}}}, {"remx", 1, {{0, 4, 0}}}, {"a'b", 1, {{0, 3, 0}}},
    {"\"a b\"", 1, {{1, 3, 1}}}, {"\"a & b\"c", 1, {{1, 7, 1}}}, {"x\"y z\"", 1, {{0, 6, 0}}}, {"a+b", 1, {{0, 3, 0}}}, {"{x}", 1, {{0, 3, 0}}}, {"7z", 1, {{0, 2, 0}}},
    {"foo/x", 2, {{0, 3, 0}, {3, 2, 0}}}, {"foo/x:1", 3, {{0, 3, 0}, {3, 3, 0}, {6, 1, 0}}}, {"foo,b", 2, {{0, 3, 0}, {4, 1, 0}}}, {"foo=b", 2, {{0, 3, 0}, {4, 1, 0}}}, {"\"a\"/x", 2, {{1, 1, 1}, {3, 2, 0}}},
    {"/x/y", 1, {{0, 4, 0}}}, {"/x", 1, {{0, 2, 0}}}, {"endlocal.x", 2, {{0, 8, 0}, {8, 2, 0}}, true}, {"setlocal/x", 2, {{0, 8, 0}, {8, 2, 0}}, true}, {"set.x", 2, {{0, 3, 0}, {3, 2, 0}}, true}, {"verify/x", 2, {{0, 6, 0}, {6, 2, 0}}, true}, {"type\\x", 2, {{0, 4, 0}, {4, 2, 0}}, true}, {"setlocals", 1, {{0, 9, 0}}},
    {"cd", 1, {{0, 2, 0}}, true}, {"CD..", 2, {{0, 2, 0}, {2, 2, 0}}, true}, {"cd\\x", 2, {{0, 2, 0}, {2, 2, 0}}, true}, {"echo.x", 2, {{0, 4, 0}, {4, 2, 0}}, true}, {"dir/w", 2, {{0, 3, 0}, {3, 2, 0}}, true}, {"set", 1, {{0, 3, 0}}, true}, {"eCho", 1, {{0, 4, 0}}, true}, {"setlocal", 1, {{0, 8, 0}}, true}, {"cdx", 1, {{0, 3, 0}}},
};
static const std::vector<const char*> c_alias = {"ali", "a&b", "x|y", "q\"z", "w=v", "(p", "xcopy", "\"z", "^n"};

static void add(C& c, size_t at, int off, int len, bool q, bool redir = false, bool alias = false, bool builtin = false)
{
    c.words.push_back({at + off, size_t(len), c.words.empty(), redir, q, alias, builtin});
}

// What precedes must not join with what follows:  a digit before a redirection names a handle.
static void gen_redir(Gen& g, L& l, C& c, bool attached)
{
    static const std::vector<std::string> ops = {">", ">>", "<", "2>", "1>>", "0<", "3>"};
    std::string op = g.pick(ops);
    if (attached && op[0] >= '0' && op[0] <= '9') op = op.substr(1);
    if (g.chance(25))
    {
        op = g.pick(std::vector<std::string>{"2>&1", "1>&2", ">&2", "0<&1", "2>>&1", "<&3"});
        if (attached && op[0] >= '0' && op[0] <= '9') op = op.substr(1);
        l.s += op; return;
    }
    l.s += op + std::string(g.weighted({5, 3, 1}), ' ');
    struct T { const char* t; int off, len; bool q; };
    const T t = g.pick(std::vector<T>{{"nul", 0, 3, 0}, {"out.txt", 0, 7, 0}, {"\"o p\"", 1, 3, 1}, {"c:\\x/y", 0, 6, 0}, {"a^ b", 0, 4, 0}, {"\xc3\xa9", 0, 2, 0}, {"1", 0, 1, 0}, {"a+b", 0, 3, 0}, {"x'y", 0, 3, 0}});
    add(c, l.s.size(), t.off, t.len, t.q, true);
    l.s += t.t;
}

static L gen_line(Gen& g, bool& rich)
{
    L l; int n = 1 + g.size(3); rich = false; int feats = 0;
    s_aliases.clear(); for (auto a : c_alias) if (g.chance(25)) s_aliases.insert(a);
    for (int i = 0; i < n; ++i)
    {
        C c; int close = 0; bool sup = false;
        if (i)
        {
            // Text right before a separator must not be an escape; a space avoids joining a redirection with '&'.
            l.s += g.pick(std::vector<std::string>{"&", "|", "&&", "||", " & ", " | ", " && ", " || ", "& ", "&  "});
            sup = l.s.size() > 1 && l.s.compare(l.s.size() - 2, 2, "  ") == 0;
            if (n > 1) ++feats;
        }
        else if (g.chance(10)) { sup = true; l.s += " "; }
        if (!sup && g.chance(15)) { std::string p = g.pick(std::vector<std::string>{"(", "( ", "((", "( (", "(@", "(@(", "( @(", "(@ (", "@"}); close = int(std::count(p.begin(), p.end(), '(')); l.s += p; ++feats; if (p == "@") sup = true; }
        if (g.chance(8) && (l.s.empty() || l.s.back() != '@') && !(close && s_aliases.count("(p"))) { gen_redir(g, l, c, false); l.s += " "; if (!c.words.empty() || true) sup = true; ++feats; }

        bool rem = i + 1 == n && !close && g.chance(8);
        bool digit = false; // ends with text that a redirection could take as a handle
        bool alias = false;
        if (rem) { add(c, l.s.size(), 0, 3, false, false, false, true); l.s += g.coin() ? "rem" : "REM"; c.rem = true; }
        else if (!sup && !close && !s_aliases.empty() && g.chance(25))
        {
            std::vector<std::string> v(s_aliases.begin(), s_aliases.end()); std::string a = g.pick(v);
            if (i && a[0] == '(') { a = "ali"; s_aliases.insert(a); } // an alias that begins with a paren is only seen at the start of the line
            add(c, l.s.size(), 0, int(a.size()), false, false, true); l.s += a; alias = true; ++feats;
        }
        else
        {
            const CmdW& w = g.pick(c_words);
            size_t at = l.s.size(); l.s += w.text;
            // An alias must not appear by accident.
            for (int k = 0; k < w.n; ++k) add(c, at, w.w[k].off, w.w[k].len, w.w[k].q, false, false, w.builtin && !k);
        }
        int argc = g.size(6); bool trail = false;
        for (int k = 0; k < argc; ++k)
        {
            l.s += std::string(g.weighted({6, 1, 1}) + 1, ' ');
            if (g.chance(15) && !rem) { gen_redir(g, l, c, false); ++feats; continue; }
            if (rem && g.chance(40)) { const char* t = g.pick(std::vector<const char*>{"&", "|", "a&b", "x||y"}); add(c, l.s.size(), 0, int(strlen(t)), false); l.s += t; continue; }
            const Arg& a = g.pick(c_args);
            size_t at = l.s.size(); l.s += a.text;
            for (int j = 0; j < a.n; ++j) add(c, at, a.w[j].off, a.w[j].len, a.w[j].q);
            digit = isdigit((unsigned char)l.s.back()) && l.s.size() > 1 && !isalnum((unsigned char)l.s[l.s.size() - 2]);
            if (!rem && !digit && g.chance(8) && l.s.back() != '=' && l.s.back() != '^') { gen_redir(g, l, c, true); ++feats; }
        }
        // A quote that isn't closed takes in the rest of the line, parens too.
        if (i + 1 == n && !rem && g.chance(8))
        {
            l.s += " "; size_t at = l.s.size(); std::string t = g.pick(std::vector<std::string>{"\"a", "\"a b", "\"a & b", "\"a)", "\"a b))", "\"a) "}); l.s += t;
            add(c, at, 1, int(t.size()) - 1, true); l.cmds.push_back(c); rich = ++feats >= 2; return l;
        }
        if (alias && argc == 0 && i + 1 < n) { l.s += " "; trail = true; }
        if (g.chance(20)) { l.s += std::string(g.range(1, 2), ' '); trail = true; }
        // "-x:" before a separator has an empty word; text such as "a^" isn't generated at the end.
        if (close) { if (g.chance(25)) l.s += " "; l.s += std::string(close, ')'); if (g.chance(30)) l.s += " "; }
        else if (i + 1 < n && !trail && !l.s.empty() && (l.s.back() == '>' || l.s.back() == '<')) l.s += " ";
        l.cmds.push_back(c);
    }
    rich = feats >= 2;
    return l;
}

PBT_PROP(C20, lines, 250000, 6000000, "two or more of: several commands, redirections, parens, an alias")
{
    settings::find("doskey.enhanced")->set("true");
    bool rich; L l = gen_line(g, rich);
    { std::string a; for (auto& x : s_aliases) a += x + " "; g.note("aliases %s", esc(a).c_str()); }
    g.note("line [%s]", esc(l.s).c_str());
    // First words that happen to be aliases aren't meant to be.
    std::vector<W> want; for (auto& c : l.cmds) for (auto& w : c.words) want.push_back(w);
    if (rich) g.nontrivial();
    Res r = collect(l.s, l.s.size(), collect_words_mode::whole_command);
    bool same = r.words.size() == want.size(); for (size_t i = 0; same && i < want.size(); ++i) same = r.words[i] == want[i];
    g.check(same, "words   %s\nexpected %s", show(l.s, r.words).c_str(), show(l.s, want).c_str());
    g.check(r.cmds.size() == l.cmds.size(), "%d commands, want %d", int(r.cmds.size()), int(l.cmds.size()));
    g.check(r.states.size() == l.cmds.size(), "%d line states, want %d", int(r.states.size()), int(l.cmds.size()));
    for (size_t i = 0; i < l.cmds.size(); ++i)
    {
        same = r.states[i].size() == l.cmds[i].words.size();
        for (size_t k = 0; same && k < l.cmds[i].words.size(); ++k) same = r.states[i][k] == l.cmds[i].words[k];
        g.check(same, "command %d has %s", int(i), show(l.s, r.states[i]).c_str());
        for (size_t k = 0; k < r.states[i].size(); ++k) g.check(r.states[i][k].builtin == l.cmds[i].words[k].builtin, "word %d of command %d is%s marked as a built-in", int(k), int(i), r.states[i][k].builtin ? "" : " not");
    }
}

// Invariants that hold for any line.
static void invariants(Gen& g, const std::string& line, size_t cursor, bool stop, bool simple)
{
    Res r = collect(line, cursor, stop ? collect_words_mode::stop_at_cursor : collect_words_mode::whole_command, simple);
    size_t limit = stop ? cursor : line.size();
    std::string d = show(line, r.words);
    size_t end = 0;
    g.check(!r.words.empty(), "no words");
    for (size_t i = 0; i < r.words.size(); ++i)
    {
        auto& w = r.words[i];
        if (!simple || true) g.check(w.off >= end, "word %d overlaps the one before: %s", int(i), d.c_str());
        g.check(w.off + w.len <= limit, "word %d ends after %d: %s", int(i), int(limit), d.c_str());
        end = w.off + w.len;
    }
    // Nothing but delimiters between words.
    if (!simple)
    {
        size_t at = 0;
        for (size_t i = 0; i <= r.words.size(); ++i)
        {
            size_t to = i < r.words.size() ? r.words[i].off : limit;
            for (; at < to; ++at)
            {
                unsigned char c = line[at];
                bool num = c >= '0' && c <= '9' && (line.find_first_of("<>&", at ? at - 1 : 0) <= at + 1);
                g.check(num || strchr(" \t\n'`=+;,()[]{}@\"<>&|^", c), "[%c] at %d is in no word: %s", c, int(at), d.c_str());
            }
            if (i < r.words.size()) at = std::max(at, r.words[i].off + r.words[i].len);
        }
    }
    size_t cend = 0, n = 0;
    for (auto& c : r.cmds) { g.check(c.offset >= cend && c.offset + c.length <= limit, "command range %d+%d", int(c.offset), int(c.length)); cend = c.offset + c.length; }
    for (size_t i = 0; i < r.states.size(); ++i)
    {
        g.check(!r.states[i].empty() && r.offs[i] <= line.size(), "line state %d", int(i));
        for (auto& w : r.states[i]) { g.check(n < r.words.size() && w == r.words[n], "line states hold other words than %s", d.c_str()); ++n; }
        g.check(r.states[i][0].cmd || i == 0, "command %d starts in the middle of a command", int(i));
        for (size_t k = 1; k < r.states[i].size(); ++k) g.check(!r.states[i][k].cmd, "command %d has two first words", int(i));
    }
    g.check(n == r.words.size(), "words are missing from the line states");
    if (stop)
    {
        // The last word is the one the cursor is in.
        auto& w = r.words.back(); size_t e = w.off + w.len;
        if (e < cursor && w.quoted && line[e] == '"') ++e;
        g.check(e == cursor, "the cursor is at %d but the last word is not there: %s", int(cursor), d.c_str());
    }
    // What is beyond the cursor doesn't matter.
    if (stop && !simple)
    {
        std::string other = line.substr(0, cursor);
        if (g.coin()) other += g.text("ab \"&|^=1>)", 6);
        Res o = collect(other, cursor, collect_words_mode::stop_at_cursor);
        bool same = o.words.size() == r.words.size() && o.off == r.off && o.states.size() == r.states.size();
        for (size_t i = 0; same && i < o.words.size(); ++i) same = o.words[i] == r.words[i];
        g.check(same, "with other text after the cursor ([%s]):\n%s\n%s", esc(other).c_str(), show(other, o.words).c_str(), d.c_str());
        // And the words are those of the text before the cursor.
        Res p = collect(line.substr(0, cursor), cursor, collect_words_mode::whole_command);
        std::vector<W> a = p.words, b = r.words;
        same = a.size() <= b.size() && b.size() <= a.size() + 1; size_t k = a.size();
        bool dot = false; // "./x" as a command is one word for completion
        if (a.size() >= 2 && a[a.size() - 2].cmd && line[a.back().off] == '/' && line[a[a.size() - 2].off] == '.') dot = true;
        if (!dot)
        {
            for (size_t i = 0; same && i < k; ++i) same = a[i] == b[i];
            if (b.size() == k + 1) same = same && b.back().len == 0 && b.back().off == cursor;
            g.check(same, "up to the cursor %d:\n%s\nwhole:\n%s", int(cursor), d.c_str(), show(line, a).c_str());
        }
    }
}

PBT_PROP(C20, cursor, 120000, 3000000, "the cursor is inside of a line with several commands, redirections, parens or an alias")
{
    settings::find("doskey.enhanced")->set(g.chance(80) ? "true" : "false");
    bool rich; L l = gen_line(g, rich); size_t cur = g.below(l.s.size() + 1);
    while (cur && (l.s[cur] & 0xc0) == 0x80) --cur;
    g.note("line [%s] cursor %d", esc(l.s).c_str(), int(cur));
    if (rich && cur > 0 && cur < l.s.size()) g.nontrivial();
    invariants(g, l.s, cur, true, false);
}

PBT_PROP(C20, fuzz, 150000, 4000000, "three or more spaces in the line")
{
    settings::find("doskey.enhanced")->set(g.chance(80) ? "true" : "false");
    s_aliases.clear(); for (auto a : c_alias) if (g.chance(20)) s_aliases.insert(a);
    static const std::vector<std::string> bits = {"foo", "cd", "rem", "set", "rem ", "a", " ", " ", "  ", "(", ")", "&", "&&", "|", "||", "\"", "\"", "^", "^ ", ">", ">>", "<", "2>", ">&", "2>&1", "@", "1", "12", "-x", "/x", ":", "=", "+", ",", ";", "[", "'", "\t", "\xc3\xa9", ".", "..", "./", "../", "/", "\\", "ali", "(p", "%", "{", "}"};
    std::string line; int n = g.size(14); while (n-- > 0) line += g.pick(bits);
    size_t cur = g.below(line.size() + 1); while (cur && (line[cur] & 0xc0) == 0x80) --cur;
    bool stop = g.coin(), simple = g.chance(15);
    g.note("line [%s] cursor %d%s%s", esc(line).c_str(), int(cur), stop ? " stop" : "", simple ? " simple" : "");
    if (std::count(line.begin(), line.end(), ' ') > 2) g.nontrivial();
    invariants(g, line, cur, stop, simple);
}
