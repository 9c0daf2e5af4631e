//: group=full
// C25 doskey aliases.
#include <core/base.h>
#include <core/settings.h>
#include <core/str.h>
#include <core/os.h>
#include <lib/doskey.h>
#include "line_queue.h"
using namespace pbt;

// The test platform has no console aliases:  keep them here.
static std::map<std::wstring, std::wstring> s_aliases;
static std::wstring lower(std::wstring s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static DWORD WINAPI hook_get(LPWSTR name, LPWSTR out, DWORD bytes, LPWSTR)
{
    auto i = s_aliases.find(lower(name));
    if (i == s_aliases.end()) { SetLastError(ERROR_GEN_FAILURE); return 0; }
    DWORD need = DWORD(i->second.size() + 1) * sizeof(wchar_t);
    if (need > bytes) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, i->second.c_str(), need);
    return need;
}
static BOOL WINAPI hook_add(LPWSTR name, LPWSTR text, LPWSTR)
{
    if (text && *text) s_aliases[lower(name)] = text; else s_aliases.erase(lower(name));
    return TRUE;
}
extern "C" { void* __imp_GetConsoleAliasW = (void*)&hook_get; void* __imp_AddConsoleAliasW = (void*)&hook_add; }
static bool s_init = [] { pbt::g_init = [] { os::set_shellname(L"shell"); settings::TEST_set_ever_loaded(); }; return true; }();

enum { p_lit, p_arg, p_star, p_dollar, p_redir, p_split, p_unknown, p_lone };
struct Piece { int kind; int n; std::string s; };
struct Macro { std::vector<Piece> ps; bool quoted = false; int stars = 0; int argn[10] = {}; };
static std::string spell(const Piece& p)
{
    switch (p.kind) { case p_arg: return "$" + std::to_string(p.n); case p_star: return "$*"; case p_dollar: return "$$"; case p_lone: return "$"; case p_lit: return p.s; default: return "$" + p.s; }
}
static Macro gen_macro(Gen& g, std::string& text)
{
    Macro m; text.clear(); int n = 1 + g.size(7); bool q = false;
    static const std::vector<std::string> lits = {"echo ", " ", "x", "dir /b ", "1", "\xc3\xa9", "^&", "a b", "(", "*", "T", "\\"};
    for (int i = 0; i < n; ++i)
    {
        Piece p; int k = int(g.weighted({8, 5, 3, 1, 2, 2, 1, 1, 2}));
        if (k == 0) p = {p_lit, 0, g.pick(lits)};
        else if (k == 1) p = {p_arg, g.range(1, 9) > 5 ? g.range(1, 9) : g.range(1, 3), ""};
        else if (k == 2) p = {p_star, 0, ""};
        else if (k == 3) p = {p_dollar, 0, ""};
        else if (k == 4) p = {p_redir, 0, g.pick(std::vector<std::string>{"g", "G", "l", "L", "b", "B"})};
        else if (k == 5) p = {p_split, 0, g.coin() ? "T" : "t"};
        else if (k == 6) p = {p_unknown, 0, g.pick(std::vector<std::string>{"z", "0", "#", "\xc3\xa9", "x", " "})};
        else if (k == 7) { if (i + 1 < n) continue; p = {p_lone, 0, ""}; }
        else { p = {p_lit, 0, "\""}; q = !q; }
        if (p.kind == p_arg || p.kind == p_star) { m.quoted |= q; if (p.kind == p_star) ++m.stars; else ++m.argn[p.n]; }
        m.ps.push_back(p); text += spell(p);
    }
    // The console removes the alias when its text is empty.
    if (text.empty()) { m.ps.push_back({p_lit, 0, "x"}); text = "x"; }
    return m;
}

struct Pos { size_t at, len; };
struct Line
{
    std::string in, out; bool any = false;
    bool edge = false;                          // a cursor at the end of an expanded command belongs to that command
    std::vector<int> map;                       // input offset -> output offset, or -1 when not specified
    void add(const std::string& s, bool known = true) { if (known) verbatim(s); else { in += s; map.resize(in.size(), -1); } }
    void tail(const std::string& s) { in += s; out += s; map.resize(in.size(), -1); }
    void verbatim(const std::string& s) { for (char c : s) { map.push_back(edge ? -1 : int(out.size())); edge = false; in += c; out += c; } }
};

static void expand(Line& l, const Macro& m, const std::vector<std::string>& args, const std::vector<size_t>& argpos, const std::string& star, size_t starpos)
{
    l.any = true;
    int uses = m.stars; for (int i = 1; i < 10; ++i) uses += m.argn[i];
    for (auto& p : m.ps)
    {
        switch (p.kind)
        {
        case p_lit: l.out += p.s; break;
        case p_arg:
            if (p.n <= int(args.size()))
            {
                if (!m.stars && m.argn[p.n] == 1) for (size_t i = 0; i < args[p.n - 1].size(); ++i) l.map[argpos[p.n - 1] + i] = int(l.out.size() + i);
                l.out += args[p.n - 1];
            }
            break;
        case p_star:
            if (uses == 1) for (size_t i = 0; i < star.size(); ++i) l.map[starpos + i] = int(l.out.size() + i);
            l.out += star; break;
        case p_dollar: l.out += '$'; break;
        case p_redir: l.out += p.s == "g" || p.s == "G" ? '>' : p.s == "l" || p.s == "L" ? '<' : '|'; break;
        case p_split: l.out += '\n'; break;
        case p_unknown: l.out += "$" + p.s; break;
        }
    }
}

struct Names { std::vector<std::string> names; std::map<std::string, Macro> macros; };
static const std::vector<std::string> c_names = {"foo", "ls", "..", "g++", "p&q", "\xc3\xbcn", "f", "ls.", "(x"};
static const std::vector<std::string> c_others = {"bar", "fo", "foo.exe", "\"foo\"", "foo>x", "/foo", "@foo", ";foo", "^foo", "foofoo", "\"a & foo\"", "x^&foo"};

static Names define(Gen& g)
{
    Names n; s_aliases.clear(); std::string text;
    for (auto& name : c_names) if (g.chance(60))
    {
        n.macros[name] = gen_macro(g, text); n.names.push_back(name);
        doskey d("shell"); g.check(d.add_alias(name.c_str(), text.c_str()), "add_alias");
        g.note("alias %s=%s", esc(name).c_str(), esc(text).c_str());
    }
    return n;
}

static void gen_line(Gen& g, Names& nm, bool enhanced, Line& l)
{
    static const std::vector<std::string> toks = {"a", "bc", "\xc3\xa9", "\"q r\"", "x\"y  z\"w", "\"a & foo\"", "a^&b", "2>&1", ">out", "\"\"", "$1", "^^", "-x", "/?", "foo", "\xe4\xb8\xad", "a^|foo", "p)q", "\"|\"", "$*", "%x%"};
    static const std::vector<std::string> legacy = {"a", "bc", "\xc3\xa9", "\"q", "r\"", "|", "&", "a&foo", "2>&1", "foo", ">out", "\"\"", "$1", "b)", "^&"};
    int n = 1 + (enhanced ? g.size(3) : 0);
    for (int i = 0; i < n; ++i)
    {
        bool suppressed = false;
        if (i)
        {
            l.verbatim(g.pick(std::vector<std::string>{"&", "|", "&&", "||", "& ", "| ", "&& ", "& & ", "&|"}));
            if (g.chance(12)) { std::string s(l.in.back() == ' ' ? 1 : 2, ' '); l.verbatim(s); suppressed = true; }
        }
        else if (g.chance(10)) { suppressed = true; l.verbatim(g.coin() ? " " : "  "); }

        bool alias = !nm.names.empty() && g.chance(75);
        std::string name = alias ? g.pick(nm.names) : g.coin() ? g.pick(c_names) : g.pick(c_others);
        if (!alias && nm.macros.count(name)) alias = true;
        int close = 0;
        std::string lead;
        if (name[0] != '(' && name[0] != '@' && g.chance(25))
        {
            lead = g.pick(std::vector<std::string>{"(", "( ", "((", "(@", "@(", "( ("});
            close = int(std::count(lead.begin(), lead.end(), '('));
            if (suppressed) { lead.clear(); close = 0; }
        }
        // An alias with a separator in its name needs a space (or the end) after it to be seen.
        bool sep_name = name.find('&') != std::string::npos;
        int argc = g.chance(30) ? 0 : g.size(12);
        std::vector<std::string> args; std::vector<std::string> gaps;
        bool whole = alias && !suppressed && enhanced && nm.macros[name].quoted;
        for (int k = 0; k < argc; ++k)
        {
            gaps.push_back(std::string(g.weighted({5, 1, 1}) + 1, ' '));
            args.push_back(!enhanced ? g.pick(legacy) : whole && g.chance(30) ? g.pick(std::vector<std::string>{"|", "a|foo", "&", "&&"}) : g.pick(toks));
            if (g.chance(1) && g.chance(30)) args.back() = std::string(100 + g.below(500), 'w') + "e";
        }
        std::string trail(g.chance(25) ? g.range(1, 3) : 0, ' ');
        bool open = enhanced && i + 1 == n && !close && g.chance(8);
        if (open) { gaps.push_back(" "); args.push_back("\"open & foo  x"); trail.clear(); }
        std::string upper = name; if (g.chance(20)) for (auto& c : upper) if (c >= 'a' && c <= 'z') c -= 32;

        // A name that isn't followed by a space runs into what follows:  with an alias named with a separator the whole text up to a space counts.
        bool expands = alias && !suppressed;
        // 'p&q' is one name only when delimited by a space or the end (and so is '(x'); don't generate the other way.
        if ((sep_name || name[0] == '(') && args.empty() && i + 1 < n) trail = " ";
        if (enhanced && sep_name && close && args.empty() && trail.empty()) trail = " ";
        if (sep_name && !expands) { close = 0; lead.clear(); upper = name = "pq"; }
        if (!expands && name[0] == '(') { name = upper = "zz"; }

        if (!expands)
        {
            l.verbatim(lead + upper);
            for (size_t k = 0; k < args.size(); ++k) l.verbatim(gaps[k] + args[k]);
            l.verbatim(trail + std::string(close, ')'));
            if (!enhanced) return;
            continue;
        }
        const Macro& m = nm.macros[name];
        if (whole || !enhanced)
        {
            // Everything up to the end of the line is arguments.
            l.verbatim(lead);
            l.add(upper, false);
            std::vector<size_t> pos; size_t starpos = 0;
            if (!enhanced && close && args.empty()) { std::string t(close, ')'); expand(l, m, {}, {}, "", 0); l.tail(t); return; }
            for (size_t k = 0; k < args.size(); ++k) { l.add(gaps[k], false); if (!k) starpos = l.in.size(); pos.push_back(l.in.size()); l.add(args[k], false); }
            l.add(trail, false);
            std::string star = args.empty() ? "" : l.in.substr(starpos);
            expand(l, m, args, pos, star, starpos);
            if (args.size() > 1) g.nontrivial();
            return;
        }
        l.verbatim(lead);
        l.add(upper, false);
        std::vector<size_t> pos; size_t starpos = 0;
        for (size_t k = 0; k < args.size(); ++k) { l.add(gaps[k], false); if (!k) starpos = l.in.size(); pos.push_back(l.in.size()); l.add(args[k], false); }
        std::string tail(close, ')');
        if (close == 2 && g.coin()) tail = ") )";
        // Space before the closing parens isn't part of an argument.
        l.add(trail, false);
        std::string star = args.empty() ? "" : l.in.substr(starpos);
        expand(l, m, args, pos, star, starpos);
        if (close && !g.chance(15)) { std::string more = g.chance(20) && args.empty() && trail.empty() ? " >out" : ""; l.tail(tail + more); }
        l.edge = true;
        if (!args.empty() && n > 1) g.nontrivial();
    }
    if (l.in.empty()) return;
}

static std::vector<std::string> split_lines(const std::string& s)
{
    std::vector<std::string> v; std::string cur; bool pend = false;
    for (char c : s) { if (c == '\n') { v.push_back(cur); cur.clear(); pend = false; } else { cur += c; pend = true; } }
    if (pend) v.push_back(cur);
    return v;
}

PBT_PROP(C25, expand, 1500000, 15000000, "an alias with two or more arguments, or with arguments among several commands, expands")
{
    bool enhanced = g.chance(70);
    settings::find("doskey.enhanced")->set(enhanced ? "true" : "false");
    Names nm = define(g); Line l; gen_line(g, nm, enhanced, l);
    g.note("%s line [%s]", enhanced ? "enhanced" : "legacy", esc(l.in).c_str());
    if (l.in.empty()) g.discard();
    g.label(!l.any ? "no alias" : enhanced ? "enhanced" : "legacy");
    int pt0 = int(g.below(l.in.size() + 1)), pt = pt0;
    doskey d("shell"); doskey_alias a; d.resolve(l.in.c_str(), a, &pt);
    std::string got(a.UNITTEST_get_stream().c_str()), want = l.any ? l.out : "";
    g.check(got == want, "expanded to [%s] want [%s]", esc(got).c_str(), esc(want).c_str());
    std::vector<std::string> lines = split_lines(want); str<> x; size_t n = 0;
    g.check(bool(a) == !want.empty(), "an expansion is%s reported", want.empty() ? "" : " not");
    while (a.next(x)) { g.check(n < lines.size() && lines[n] == x.c_str(), "line %d is [%s]", int(n), esc(x.c_str()).c_str()); ++n; }
    g.check(n == lines.size(), "%d lines, want %d", int(n), int(lines.size()));
    if (!l.any) g.check(pt == pt0, "the cursor moved from %d to %d in an unchanged line", pt0, pt);
    else
    {
        g.check(pt >= 0 && pt <= int(want.size()), "cursor %d moves to %d outside of the expansion", pt0, pt);
        if (pt0 < int(l.map.size()) && l.map[pt0] >= 0) g.check(pt == l.map[pt0], "cursor %d moves to %d, want %d", pt0, pt, l.map[pt0]);
    }
}

PBT_PROP(C25, queue, 300000, 3000000, "a queued line expands to several lines while further lines are queued")
{
    settings::find("doskey.enhanced")->set("true");
    Names nm = define(g); line_queue q;
    std::deque<std::pair<std::string, bool>> model; // text, expand
    bool open = false;                          // the last line isn't terminated yet
    int ops = 1 + g.size(12);
    for (int i = 0; i < ops; ++i)
    {
        if (model.empty() || g.chance(35))
        {
            std::list<queued_line> add; std::vector<std::pair<std::string, bool>> mine; int n = 1 + g.size(2);
            for (int k = 0; k < n; ++k)
            {
                Line l; gen_line(g, nm, true, l); if (l.in.empty()) continue;
                bool raw = g.chance(15); g.note("queue%s [%s]", raw ? " as is" : "", esc(l.in).c_str());
                add.emplace_back(str_moveable((l.in + (g.coin() ? "\r\n" : "")).c_str()), raw ? dequeue_flags::no_doskey : dequeue_flags::none);
                mine.push_back({l.in, !raw && l.any && !l.out.empty()});
                if (mine.back().second) { std::vector<std::string> v = split_lines(l.out); mine.back().first = l.out; }
            }
            q.enqueue_front(add);
            for (auto k = mine.rbegin(); k != mine.rend(); ++k) model.push_front(*k);
        }
        else if (g.chance(15))
        {
            // What is pasted or typed ahead comes after everything that is queued.
            std::string t = g.pick(std::vector<std::string>{"foo", "ls a", "x"}); bool nl = g.coin();
            g.note("append [%s]%s", t.c_str(), nl ? " and a new line" : "");
            q.enqueue_back((t + (nl ? "\n" : "")).c_str());
            if (open) model.back().first += t; else model.push_back({t, false});
            open = !nl;
        }
        else
        {
            if (model.size() == 1) open = false;
            auto f = model.front(); model.pop_front();
            if (f.second)
            {
                auto v = split_lines(f.first);
                for (size_t k = v.size(); k-- > 1;) model.push_front({v[k], false});
                f.first = v[0];
                if (v.size() > 2 && model.size() > v.size()) g.nontrivial();
            }
            str<> out; dequeue_flags fl;
            g.check(q.dequeue_line(out, fl), "nothing was queued");
            std::string got(out.c_str()), want = f.first;
            while (!want.empty() && (want.back() == '\r' || want.back() == '\n')) want.pop_back();
            g.check(got == want + "\r\n", "dequeued [%s] want [%s]", esc(got).c_str(), esc(want).c_str());
        }
        g.check(q.empty() == model.empty(), "the queue is%s empty", q.empty() ? "" : " not");
    }
}

PBT_PROP(C25, fuzz, 300000, 3000000, "an alias expands")
{
    settings::find("doskey.enhanced")->set(g.chance(80) ? "true" : "false");
    Names nm = define(g); std::string line; int n = g.size(14);
    static const std::vector<std::string> bits = {"foo", "ls", "..", " ", " ", "  ", "(", ")", "&", "|", "\"", "^", ">", ">&", "@", "$1", "a", "\t", "\xc3\xa9", "p&q", "(x", "\xff", "1", "<", "foo ", "ls "};
    while (n-- > 0) line += g.pick(bits);
    if (g.chance(2)) line += " " + std::string(g.range(4000, 8100), 'x');
    if (g.chance(5) && !nm.names.empty())
    {
        std::string big(g.range(4000, 8190), 'm'); doskey("shell").add_alias("foo", big.c_str());
        doskey_alias a; doskey("shell").resolve("foo", a);
        g.check(big == a.UNITTEST_get_stream().c_str(), "an alias with %d characters expands to %d characters", int(big.size()), int(a.UNITTEST_get_stream().length()));
    }
    g.note("line [%s]", esc(line.substr(0, 200)).c_str());
    int pt = int(g.below(line.size() + 1));
    doskey_alias a; doskey("shell").resolve(line.c_str(), a, &pt);
    if (a) g.nontrivial();
    int len = int(strlen(a.UNITTEST_get_stream().c_str()));
    if (a) g.check(pt >= 0 && pt <= len, "cursor at %d of %d", pt, len);
    s_aliases.clear();
    doskey("shell").resolve(line.c_str(), a);
    g.check(!a, "without aliases the line changes to [%s]", esc(a.UNITTEST_get_stream().c_str()).c_str());
}
