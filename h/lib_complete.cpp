//: group=full with=editor.cpp with=crt_utf8.cpp lflags=-Wl,--wrap=_rl_get_screen_size
// C21 completing a word to one of the matches.
#include "editor.h"
#include <core/str_compare.h>
#include <lib/matches.h>
#include <lib/match_generator.h>
#include <lib/line_state.h>
#include <set>
using namespace pbt;
static const char* const c_cmds[] = {
    "complete", "menu-complete", "menu-complete-backward", "old-menu-complete", "old-menu-complete-backward", "insert-completions", "clink-select-complete",
    "clink-popup-complete", "undo", "end-of-line", "backward-char", "abort", "possible-completions",
};
static std::map<std::string, std::string> s_seq;
static void init()
{
    vf_editor_init();
    int n = 0;
    for (auto c : c_cmds)
    {
        if (!rl_named_function(c)) continue;
        int k = 0x23 + n++; if (k >= '\\') ++k;
        char t[16]; sprintf(t, "\\034\\%03o", k); vf_bind(t, c);
        s_seq[c] = std::string("\x1c") + char(k);
    }
}
static struct Init { Init() { g_init = init; } } s_i;
static void N(Gen& g, const std::string& s) { g.note("%s", s.c_str()); }

typedef std::map<std::string, std::vector<std::string>> Tree;     // directory (with its separator) -> entries (directories end with a separator)
struct Files : public match_generator
{
    const Tree* t = nullptr;
    bool generate(const line_states& ls, match_builder& b, bool) override
    {
        const line_state& l = ls.back();
        str<> w; l.get_end_word(w);
        std::string s(w.c_str(), w.length()), pre;
        size_t p = s.find_last_of("/\\"); if (p != std::string::npos) pre = s.substr(0, p + 1);
        std::string key = pre; for (auto& c : key) { if (c == '/') c = '\\'; c = char(tolower((unsigned char)c)); }
        if (getenv("VF_DBG")) fprintf(stdout, "GEN line %s w %s\n", l.get_line(), s.c_str());
        auto it = t->find(key);
        if (it != t->end()) for (auto& e : it->second) b.add_match((pre + e).c_str(), e.back() == '\\' ? match_type::dir : match_type::file);
        return true;
    }
    void get_word_break_info(const line_state& l, word_break_info& i) const override
    {
        i.clear();
        line_state::set_can_strip_quotes(false); str<> w; l.get_end_word(w); line_state::set_can_strip_quotes(true);
        std::string s(w.c_str(), w.length()), d; for (char c : s) if (c != '"') d += c;
        size_t p = d == "." || d == ".." ? s.size() - 1 : s.find_last_of("/\\"); i.keep = p == std::string::npos ? 0 : int(p) + 1;
    }
};
static std::string lower(std::string s) { for (auto& c : s) c = char(tolower((unsigned char)c)); return s; }
static std::string slashes(std::string s) { for (auto& c : s) if (c == '/') c = '\\'; return s; }
static const char c_special[] = " &()^=;,";       // what must be inside quotes to be part of a word
static const char c_break[] = " &()^=;,'`+[]{}";  // what ends a word when typed outside of quotes
static bool breaks(const std::string& t) { return t.find_first_of(c_break) != std::string::npos; }
static std::string name(Gen& g)
{
    std::string s; int n = 1 + int(g.size(7));
    for (int i = 0; i < n; ++i)
    {
        if (g.chance(75)) s += "abcAB1.x"[g.below(8)];
        else if (g.chance(60)) s += " &()^=;,%!'+`~[]{}-_#$"[g.below(22)];
        else s += g.pick({u8"\u00e9", u8"\u8a9e", u8"\U0001f642"});
    }
    while (!s.empty() && (s.back() == ' ' || s.back() == '.')) s.pop_back();
    while (!s.empty() && (s[0] == ' ')) s.erase(0, 1);
    if (!s.empty() && (s[0] == '@' || s[0] == '~')) s[0] = 'a';
    return s.empty() ? "a" : s;
}
// The text denoted by what is typed from a word's start; bare says whether a special character is outside of quotes; open that a quote is left open.
static std::string parse(const std::string& t, bool& bare, bool& open)
{
    std::string r; bare = open = false;
    for (char c : t) { if (c == '"') { open = !open; continue; } if (!open && strchr(c_special, c)) bare = true; r += c; }
    return r;
}
static std::vector<std::string> matching(const Tree& t, const std::string& typed, bool fold)
{
    size_t p = typed.find_last_of('\\'); std::string pre = p == std::string::npos ? "" : typed.substr(0, p + 1), rest = typed.substr(pre.size());
    std::vector<std::string> r;
    auto it = t.find(lower(pre));
    if (it != t.end()) for (auto& e : it->second) if (fold ? lower(e).compare(0, rest.size(), lower(rest)) == 0 : e.compare(0, rest.size(), rest) == 0) r.push_back(pre + e);
    return r;
}
static std::string lcd_of(const std::vector<std::string>& M, bool fold)
{
    std::string lcd = M[0]; for (auto& x : M) { size_t n = 0; while (n < lcd.size() && n < x.size() && (fold ? tolower((unsigned char)lcd[n]) == tolower((unsigned char)x[n]) : lcd[n] == x[n])) ++n; lcd.resize(n); }
    while (lcd.size() < M[0].size() && !lcd.empty() && (M[0][lcd.size()] & 0xc0) == 0x80) lcd.pop_back();
    return lcd;
}
// Whether the text begins with something that the pattern denotes.
static bool globs(const char* p, const char* t, bool fold)
{
    if (!*p) return true;
    if (*p == '*') { for (;; ++t) { if (globs(p + 1, t, fold)) return true; if (!*t) return false; } }
    if (*p == '?' && (!*t || *t == '\\')) return globs(p + 1, t, fold);       // or a missing character
    if (!*t) return false;
    if (*p == '?') { ++t; while ((*t & 0xc0) == 0x80) ++t; return globs(p + 1, t, fold); }
    return (fold ? tolower((unsigned char)*p) == tolower((unsigned char)*t) : *p == *t) && globs(p + 1, t + 1, fold);
}
PBT_PROP(C21, files, 8000, 250000, "at least 3 matches, one of them needing quotes, with text after the cursor or a word already quoted")
{
    bool fold = g.chance(70); str_compare_scope scope(fold ? str_compare_scope::caseless : str_compare_scope::exact, false);
    settings::find("match.ignore_case")->set(fold ? "on" : "off");
    bool wild = g.coin(); settings::find("match.wild")->set(wild ? "on" : "off"); if (wild) N(g, "match.wild on");
    bool mark = g.chance(80); rl_variable_bind("mark-directories", mark ? "on" : "off"); if (!mark) N(g, "mark-directories off");
    settings::find("match.translate_slashes")->set("off");
    rl_variable_bind("completion-ignore-case", fold ? "on" : "off");
    Tree t; std::vector<std::string> all;
    {
        std::set<std::string> seen; auto fill = [&](const std::string& d, int n, bool dirs) {
            std::string stem; if (g.coin()) stem = name(g);
            for (int i = 0; i < n; ++i)
            {
                std::string s = g.chance(40) ? stem + name(g) : name(g);
                while (s.back() == ' ' || s.back() == '.') s.pop_back();
                if (!seen.insert(lower(d + s)).second) continue;
                bool dir = dirs && g.chance(25);
                t[lower(d)].push_back(s + (dir ? "\\" : "")); all.push_back(d + t[lower(d)].back());
            } };
        fill("", 1 + int(g.size(7)), true);
        std::vector<std::string> top = all;
        for (auto& d : top) if (d.back() == '\\') fill(d, 1 + int(g.size(4)), false);
    }
    for (auto& a : all) N(g, "file " + esc(a));
    std::string m = g.pick(all);
    std::string pre = g.pick({"", "cmd ", "cmd arg ", "cmd \"q a\" ", "a & cmd ", "cmd x | y ", "(cmd ", "cmd 2>"});
    std::string post = g.chance(65) ? "" : g.pick({" tail", " \"q t\"", " & x", " "});
    // what is typed of it
    size_t k = 0; { std::vector<size_t> b; for (size_t i = 0; i <= m.size(); ++i) if (i == m.size() || (m[i] & 0xc0) != 0x80) b.push_back(i); k = b[g.below(b.size())]; }
    std::string part = m.substr(0, k), typed = part;
    if (fold) for (auto& c : typed) if (g.chance(30)) c = char(isupper((unsigned char)c) ? tolower(c) : toupper((unsigned char)c) < 0x80 ? toupper((unsigned char)c) : c);
    bool glob = false;
    if (wild && g.chance(20))
    {   // replace parts of the name
        size_t from = typed.find_last_of('\\'); from = from == std::string::npos ? 0 : from + 1;
        std::string r = typed.substr(0, from);
        for (size_t i = from; i < typed.size(); ) { size_t n = 1; while (i + n < typed.size() && (typed[i + n] & 0xc0) == 0x80) ++n; int c = int(g.below(4)); bool w = !r.empty() && (r.back() == '*' || r.back() == '?'); if (c == 0 && !w) r += '?'; else if (c == 1 && !w) r += '*'; else if (c == 2 || r.size() == from) r += typed.substr(i, n); i += n; }
        if (r.find_first_of("*?") != std::string::npos) { glob = true; typed = r; }
    }
    std::string word;
    size_t sep = typed.find_last_of('\\');
    if (breaks(typed) || g.chance(30))
    {
        if (sep != std::string::npos && mark && g.chance(25)) { if (!breaks(typed.substr(sep))) word = "\"" + typed.substr(0, sep) + (g.coin() ? "\\\"" : "\"\\") + typed.substr(sep + 1); }
        if (word.empty()) word = "\"" + typed;
    }
    else word = typed;
    N(g, "line " + esc(pre + word) + " | " + esc(post));
    vf_editor e(200, 50);
    Files gen; gen.t = &t;
    e.ed()->set_generator(gen);
    e.begin();
    rl_insert_mode = RL_IM_INSERT; rl_free_undo_list(); rl_last_func = nullptr;
    struct Finish { vf_editor& e; ~Finish() { try { if (!e.done) { e.feed(s_seq["abort"]); e.feed(s_seq["abort"]); e.feed("\r"); } } catch (...) {} } } finish{e};
    { std::string keys = pre + word + post; for (size_t i = 0; i < post.size(); ++i) keys += s_seq["backward-char"]; e.feed(keys); if (e.line() != pre + word + post || rl_point != int(pre.size() + word.size())) g.fail("typing"); }
    bool b1, o1; std::string text = parse(word, b1, o1);
    std::vector<std::string> M = matching(t, text, fold);
    if (glob)
    {
        size_t p = text.find_last_of('\\'); std::string dir = p == std::string::npos ? "" : text.substr(0, p + 1);
        M.clear(); auto it = t.find(lower(dir)); if (it != t.end()) for (auto& x : it->second) if (globs(text.c_str() + dir.size(), x.c_str(), fold)) M.push_back(dir + x);
    }
    auto show = [&]() { std::string l = e.line(); return esc(l.substr(0, rl_point)) + " | " + esc(l.substr(rl_point)); };
    auto around = [&](const char* what) {
        std::string l = e.line();
        if (rl_point < int(pre.size()) || l.compare(0, pre.size(), pre) != 0) { N(g, show()); g.fail("%s changed the text before the word", what); }
        if (l.substr(rl_point) != post) { N(g, show()); g.fail("%s changed the text after the cursor", what); }
        return l.substr(pre.size(), rl_point - pre.size()); };
    // Checks that the text is the match, quoted as needed.
    auto is_match = [&](std::string T, const std::vector<std::string>& among, const char* what, bool spaced = false) {
        bool bare, open; std::string w;
        bool file_space = false;
        if ((post.empty() || spaced) && !T.empty() && T.back() == ' ') { w = parse(T.substr(0, T.size() - 1), bare, open); if (!open) { file_space = true; T.pop_back(); } }
        w = parse(T, bare, open);
        auto it = std::find(among.begin(), among.end(), w);
        if (it == among.end() && (spaced || !mark)) it = std::find(among.begin(), among.end(), w + "\\");   // a quoted directory that is ended loses its separator
        if (it == among.end()) { N(g, show() + " word " + esc(w)); g.fail("%s inserted something that isn't one of the matches", what); }
        if (bare) { N(g, show()); g.fail("%s inserted a match without the quotes it needs", what); }
        bool dir = it->back() == '\\';
        if (((post.empty() && !dir) || spaced) && (open || !file_space)) { N(g, show()); g.fail("%s didn't end the completed word", what); }
        return w; };
    std::string before = e.line(); int bpoint = rl_point;
    int how = g.weighted({45, 15, 10, 10, 30});
    if (how == 0)
    {
        g.label("complete");
        for (int i = 0; i < 12; ++i)
        {
            before = e.line(); bpoint = rl_point;
            N(g, "complete"); e.feed(s_seq["complete"]);
            if (M.empty()) { if (e.line() != before || rl_point != bpoint) { N(g, show()); g.fail("completing without matches changed the line"); } break; }
            std::string T = around("complete");
            if (M.size() == 1) { is_match(T, M, "complete"); if (g.chance(30)) { N(g, "undo"); e.feed(s_seq["undo"]); if (e.line() != before) { N(g, show()); g.fail("undoing a completion doesn't give the line back"); } } break; }
            if (glob) break;
            // the longest common prefix
            std::string lcd = lcd_of(M, fold);
            bool bare, open; std::string w = parse(T, bare, open);
            if (fold ? lower(w) != lower(lcd) : w != lcd) { N(g, show() + " word " + esc(w) + " instead of " + esc(lcd)); g.fail("complete didn't insert what the matches have in common"); }
            if (bare) { N(g, show()); g.fail("complete inserted a prefix without the quotes it needs"); }
            // type the next character of the wanted match
            if (lower(m).compare(0, w.size(), lower(w)) != 0 || w.size() >= m.size()) break;
            std::string c(1, m[w.size()]); while (w.size() + c.size() < m.size() && (m[w.size() + c.size()] & 0xc0) == 0x80) c += m[w.size() + c.size()];
            if (strchr(c_break, c[0]) && !open) break;
            N(g, "type " + esc(c)); e.feed(c);
            T = around("typing"); text = parse(T, bare, open); M = matching(t, text, fold);
        }
    }
    else if (how == 1 || how == 2)
    {
        std::string cmd = how == 1 ? "menu-complete" : "old-menu-complete"; g.label(cmd);
        std::set<std::string> left(M.begin(), M.end()); bool back = g.chance(30);
        std::string c = cmd + (back ? "-backward" : "");
        int n = int(M.size()); if (g.chance(30)) n = int(g.below(n + 1));
        for (int i = 0; i < n; ++i)
        {
            N(g, c); e.feed(s_seq[c]);
            std::string w = is_match(around(c.c_str()), M, c.c_str());
            if (!left.erase(w) && (mark || !left.erase(w + "\\"))) { N(g, show()); g.fail("%s visits a match twice before it has visited all", c.c_str()); }
            if (M.size() == 1) break;
        }
        if (M.empty()) { N(g, c); e.feed(s_seq[c]); if (e.line() != before || rl_point != bpoint) { N(g, show()); g.fail("completing without matches changed the line"); } }
    }
    else if (how == 4)
    {
        g.label("select");
        N(g, "clink-select-complete"); e.feed(s_seq["clink-select-complete"]);
        if (M.empty()) { if (e.line() != before || rl_point != bpoint) { N(g, show()); g.fail("completing without matches changed the line"); } }
        else if (M.size() == 1) is_match(around("selecting"), M, "selecting");
        else
        {
            std::vector<std::string> S = M; std::string needle = lcd_of(M, fold);
            int n = int(g.below(10)); bool over = false;
            for (int i = 0; ; ++i)
            {
                // the selected match is in the line, as a whole
                std::string l = e.line(); bool bare, open;
                if (l.size() < pre.size() + post.size() || l.compare(0, pre.size(), pre) || l.compare(l.size() - post.size(), post.size(), post)) { N(g, show()); g.fail("selecting changed the text around the word"); }
                std::string T = l.substr(pre.size(), l.size() - pre.size() - post.size()), w = parse(T, bare, open);
                if (over) { if (fold ? lower(w) != lower(needle) : w != needle) { N(g, show() + " word " + esc(w) + " instead of " + esc(needle)); g.fail("typing text that no match has doesn't leave that text"); } break; }
                if (std::find(S.begin(), S.end(), w) == S.end() && (mark || std::find(S.begin(), S.end(), w + "\\") == S.end())) { N(g, show() + " word " + esc(w)); g.fail("the selection isn't one of the matches"); }
                if (bare) { N(g, show()); g.fail("the selection lacks the quotes it needs"); }
                if (i == n) break;
                if (!glob && g.chance(20))
                {
                    std::string c; if (g.chance(70)) { const std::string& x = g.pick(S); if (needle.size() < x.size()) { c = x[needle.size()]; for (size_t z = needle.size() + 1; z < x.size() && (x[z] & 0xc0) == 0x80; ++z) c += x[z]; } }
                    if (c.empty() || (c[0] & 0xc0) == 0x80) c = "a";
                    if (c == "\\" || c == " ") continue;
                    N(g, "type " + esc(c)); if (getenv("VF_DBG")) for (char x : c) { e.feed(std::string(1, x)); N(g, show()); } else e.feed(c); needle += c;
                    std::vector<std::string> R; for (auto& x : S) if (fold ? lower(x).compare(0, needle.size(), lower(needle)) == 0 : x.compare(0, needle.size(), needle) == 0) R.push_back(x);
                    S = R; if (S.empty()) over = true;
                    continue;
                }
                std::string k = g.pick({"\t", "\x1b[Z", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[5~", "\x1b[6~", "\x1b[1;5H", "\x1b[1;5F", "\x1bOP"});
                N(g, "key " + esc(k)); e.feed(k);
            }
            if (!over)
            {
                int end = g.weighted({40, 30, 30});
                std::string was = e.line();
                N(g, end == 0 ? "enter" : end == 1 ? "space" : "abort"); e.feed(end == 0 ? "\r" : end == 1 ? " " : "\x07");
                if (e.done) g.fail("the line ended");
                if (end == 2) { if (e.line() != before || rl_point != bpoint) { N(g, show()); g.fail("leaving the selection doesn't restore the line"); } }
                else is_match(around("selecting"), S, "selecting", end == 1);
            }
        }
    }
    else
    {
        g.label("insert-completions");
        N(g, "insert-completions"); e.feed(s_seq["insert-completions"]);
        if (M.empty()) { if (e.line() != before) g.fail("completing without matches changed the line"); }
        else
        {
            std::string T = around("insert-completions"); std::multiset<std::string> want(M.begin(), M.end());
            std::string w; bool q = false;
            for (char ch : T) { if (ch == '"') q = !q; else if (ch == ' ' && !q) { auto it = want.find(w); if (it == want.end()) { N(g, show() + " word " + esc(w)); g.fail("insert-completions inserted something else"); } want.erase(it); w.clear(); } else w += ch; }
            if (!want.empty() || !w.empty()) { N(g, show()); g.fail("insert-completions didn't insert every match"); }
        }
    }
    bool need = false; for (auto& x : M) { bool bb, oo; parse(x, bb, oo); need |= bb; }
    if (M.size() >= 3 && need && (!post.empty() || word[0] == '"')) g.nontrivial();
}
