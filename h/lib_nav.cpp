//: group=full with=editor.cpp with=crt_utf8.cpp lflags=-Wl,--wrap=_rl_get_screen_size
// C34 moving through and searching the history while editing.
#include "editor.h"
using namespace pbt;
static const char* const c_cmds[] = {
    "previous-history", "next-history", "beginning-of-history", "end-of-history", "end-of-line", "beginning-of-line", "forward-char", "backward-char",
    "history-search-backward", "history-search-forward", "history-substring-search-backward", "history-substring-search-forward",
    "reverse-search-history", "forward-search-history", "abort", "undo", "revert-line", "backward-delete-char", "kill-line", "unix-word-rubout", "delete-char",
};
static std::map<std::string, std::string> s_seq;
static void init()
{
    vf_editor_init();
    int n = 0;
    for (auto c : c_cmds)
    {
        int k = 0x23 + n++; if (k >= '\\') ++k;
        char t[16]; sprintf(t, "\\034\\%03o", k); vf_bind(t, c);
        s_seq[c] = std::string("\x1c") + char(k);
    }
}
static struct Init { Init() { g_init = init; } } s_i;
static void N(Gen& g, const std::string& s) { g.note("%s", s.c_str()); }
static std::string word(Gen& g)
{
    std::string s; int n = 1 + int(g.below(4));
    for (int i = 0; i < n; ++i) s += g.chance(75) ? std::string(1, "abABc "[g.below(6)]) : std::string(g.pick({u8"\u00e9", u8"\u00c9", u8"\u8a9e", u8"\U0001f642", "d", "D"}));
    return s;
}
static bool s_fold;
static uint32_t fold1(uint32_t c) { if (!s_fold) return c; if (c < 0x80) return uint32_t(tolower(int(c))); return c == 0xc9 ? 0xe9 : c; }
// Length in bytes of the text at p that matches s, or -1.
static int match_at(const std::string& l, size_t p, const std::string& s)
{
    size_t a = p, b = 0;
    auto dec = [](const std::string& t, size_t& i) { unsigned char c = t[i]; int w = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; uint32_t v = w == 1 ? c : c & (0xff >> (w + 1)); for (int k = 1; k < w; ++k) v = v << 6 | (t[i + k] & 0x3f); i += w; return v; };
    if (a < l.size() && (l[a] & 0xc0) == 0x80) return -1;
    while (b < s.size()) { if (a >= l.size()) return -1; if (fold1(dec(l, a)) != fold1(dec(s, b))) return -1; }
    return int(a - p);
}

PBT_PROP(C34, walk, 12000, 400000, "at least 3 moves, an edit of a recalled line and a search that finds something")
{
    s_fold = g.coin();
    rl_variable_bind("search-ignore-case", s_fold ? "on" : "off");
    rl_variable_bind("history-preserve-point", "off");
    clear_history(); using_history();
    std::vector<std::string> L, orig;
    int n = int(g.size(9));
    for (int i = 0; i < n; ++i) { std::string s; if (i && g.chance(20)) s = L[g.below(i)]; else { s = word(g); if (g.coin()) s += " " + word(g); if (g.chance(20)) s += word(g) + word(g); } L.push_back(s); add_history(s.c_str()); N(g, "history " + esc(s)); }
    using_history();
    orig = L; L.push_back(""); orig.push_back("");
    int cur = n;
    vf_editor e(300, 25);
    e.begin();
    rl_insert_mode = RL_IM_INSERT; rl_free_undo_list(); rl_last_func = nullptr;
    struct Finish { vf_editor& e; ~Finish() { try { if (!e.done) { e.feed(s_seq["abort"]); e.feed(s_seq["abort"]); e.feed("\r"); } } catch (...) {} } } finish{e};
    int moves = 0, edits = 0, found = 0;
    auto expect = [&](const std::string& what)
    {
        if (e.done) g.fail("the line ended");
        if (e.line() != L[cur]) { N(g, "line is " + esc(e.line()) + " instead of " + esc(L[cur]) + " (line " + std::to_string(cur) + ")"); g.fail("%s", ("wrong line after " + what).c_str()); }
        if (rl_point < 0 || rl_point > rl_end || (rl_line_buffer[rl_point] & 0xc0) == 0x80) g.fail("%s", ("wrong cursor after " + what).c_str());
    };
    // state of the search by prefix or substring
    std::string sfam, sstr, sprev; bool sprev_any = false; int spos = 0;
    int steps = 3 + int(g.below(26));
    for (int i = 0; i < steps; ++i)
    {
        int k = g.weighted({26, 22, 24, 16, 12});
        if (k == 0)
        {   // change the line
            g.label("edit"); sfam.clear();
            std::string what, keys;
            switch (g.weighted({55, 12, 8, 8, 10, 7}))
            {
            case 0: keys = word(g); what = "typing " + esc(keys); break;
            case 1: what = "backward-delete-char"; break; case 2: what = "kill-line"; break; case 3: what = "unix-word-rubout"; break;
            case 4: what = "undo"; break; default: what = "revert-line"; break;
            }
            if (keys.empty()) keys = s_seq[what];
            N(g, what); e.feed(keys);
            if (what == "revert-line") { L[cur] = orig[cur]; expect("revert-line"); }
            if (e.line() != L[cur] && cur < n) ++edits;
            L[cur] = e.line();
            continue;
        }
        if (k == 1 || (k == 2 && n == 0))
        {   // move
            g.label("move"); sfam.clear(); ++moves;
            std::string c = g.pick({"previous-history", "next-history", "previous-history", "next-history", "beginning-of-history", "end-of-history"}), keys = s_seq[c];
            int num = 1; if (c[0] != 'b' && c[0] != 'e' && g.chance(30)) { num = int(g.range(1, 4)); if (g.coin()) keys = "\x1b" + std::to_string(num) + keys; else { std::string one = keys; for (int z = 1; z < num; ++z) keys += one; } }
            N(g, c + " " + std::to_string(num)); e.feed(keys);
            if (c == "previous-history") cur = std::max(0, cur - num); else if (c == "next-history") cur = std::min(n, cur + num); else cur = c[0] == 'b' ? 0 : n;
            expect(c);
            continue;
        }
        if (k == 2)
        {   // search by the text before the cursor
            g.label("search");
            std::string fam = sfam.empty() || g.chance(10) ? g.pick({"history-search-", "history-substring-search-"}) : sfam;
            bool fwd = g.chance(sfam.empty() ? 25 : 40), pre = fam == "history-search-";
            if (fam != sfam)
            {
                if (sfam.empty() && g.coin()) { int b = int(g.below(4)); std::string keys = s_seq["beginning-of-line"]; for (int z = 0; z < b; ++z) keys += s_seq["forward-char"]; e.feed(keys); N(g, "move to " + std::to_string(rl_point)); }
                sfam = fam; sstr = L[cur].substr(0, rl_point); sprev_any = false; spos = cur;
            }
            std::string c = fam + (fwd ? "forward" : "backward");
            N(g, c + " for " + esc(sstr)); e.feed(s_seq[c]);
            ++moves;
            if (sstr.empty()) { cur = fwd ? std::min(n, cur + 1) : std::max(0, cur - 1); spos = cur; expect(c); continue; }
            int at = -1, col = -1; bool shown = false;
            for (int p = spos; ; )
            {
                p += fwd ? 1 : -1; if (p < 0 || p >= n) { if (p == n && !fwd) continue; break; }
                int m = -1;
                if (pre) { if (match_at(L[p], 0, sstr) >= 0) m = 0; }
                else if (fwd) { for (size_t z = 0; z <= L[p].size() && m < 0; ++z) if (match_at(L[p], z, sstr) >= 0) m = int(z); }
                else for (size_t z = L[p].size() + 1; z-- > 0 && m < 0;) if (match_at(L[p], z, sstr) >= 0) m = int(z);
                if (m < 0) continue;
                spos = at = p; col = m;
                if (sprev_any && L[p] == sprev) continue;          // the same text again
                sprev = L[p]; sprev_any = shown = true;
                break;
            }
            if (at >= 0) { cur = at; ++found; }
            expect(c);
            if (shown) { int want = pre ? match_at(L[cur], 0, sstr) : col; if (rl_point != want) { N(g, "cursor at " + std::to_string(rl_point) + " instead of " + std::to_string(want)); g.fail("wrong cursor after %s", c.c_str()); } }
            continue;
        }
        if (k == 3)
        {   // incremental search
            g.label("isearch"); sfam.clear();
            bool rev = g.chance(70);
            int save = cur, savept = rl_point;
            N(g, rev ? "reverse-search-history" : "forward-search-history"); e.feed(s_seq[rev ? "reverse-search-history" : "forward-search-history"]);
            std::string S; int pos = cur, idx = rl_point, fpos = cur; bool failed = false, any = false, first = true; std::string prev;
            int len = 1 + int(g.below(4));
            for (int z = 0; z < len && !failed; ++z)
            {
                if (!S.empty() && g.chance(35)) { N(g, "again"); e.feed(s_seq[rev ? "reverse-search-history" : "forward-search-history"]); idx += rev ? -1 : 1; }
                else { std::string ch = word(g); size_t w = 1; while (w < ch.size() && (ch[w] & 0xc0) == 0x80) ++w; ch.resize(w); S += ch; N(g, "search " + esc(S)); e.feed(ch); }
                bool hit = false;
                for (;;)
                {
                    const std::string& l = L[pos];
                    for (; rev ? idx >= 0 : idx <= int(l.size()); idx += rev ? -1 : 1) if (idx <= int(l.size()) && match_at(l, idx, S) >= 0) { hit = true; break; }
                    if (hit) break;
                    do { pos += rev ? -1 : 1; } while (pos >= 0 && pos <= n && any && L[pos] == prev);
                    if (pos < 0 || pos > n) break;
                    idx = rev ? int(L[pos].size()) : 0;
                }
                if (!hit) { failed = true; break; }
                fpos = pos; prev = L[pos]; any = true; first = false; ++found;
                if (e.line() != L[pos]) { N(g, "shows " + esc(e.line()) + " instead of " + esc(L[pos])); g.fail("the search shows a wrong line"); }
                if (rl_point != idx) { N(g, "cursor at " + std::to_string(rl_point) + " instead of " + std::to_string(idx)); g.fail("the search puts the cursor at a wrong place"); }
            }
            (void)first;
            if (g.coin()) { N(g, "abort"); e.feed(s_seq["abort"]); cur = save; expect("aborting a search"); if (rl_point != savept) { N(g, "cursor at " + std::to_string(rl_point) + " instead of " + std::to_string(savept)); g.fail("aborting a search moved the cursor"); } }
            else { N(g, "end-of-line"); e.feed(s_seq["end-of-line"]); cur = fpos; expect("accepting a search"); }
            ++moves;
            continue;
        }
        {
            sfam.clear();
            std::string c = g.pick({"end-of-line", "beginning-of-line", "forward-char", "backward-char"}); N(g, c); e.feed(s_seq[c]); expect(c);
        }
    }
    // every line is still as it was left
    N(g, "walk"); e.feed(s_seq["beginning-of-history"]); cur = 0; expect("beginning-of-history");
    while (cur < n) { e.feed(s_seq["next-history"]); ++cur; expect("next-history"); }
    if (moves >= 3 && edits && found) g.nontrivial();
}
