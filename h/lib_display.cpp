//: group=full with=editor.cpp with=crt_utf8.cpp lflags=-Wl,--wrap=_rl_get_screen_size
// C26 incremental redisplay.
#include "editor.h"
#include "vt.h"
#include <lib/display_readline.h>
#include <terminal/ecma48_iter.h>
#include "rl/rl_commands.h"
using namespace pbt;
#define CTRL_CHAR_(c) ((c) < 0x20)
extern "C" int32 _rl_vis_botlin;
extern "C" int32 _rl_mark_modified_lines;
extern "C" { extern void (*rl_fwrite_function)(FILE*, const char*, int); }
static std::map<std::string, std::string> s_seq;
static BOOL WINAPI hook_ver(OSVERSIONINFOA* v) { v->dwMajorVersion = 10; v->dwMinorVersion = 0; v->dwBuildNumber = 19045; v->dwPlatformId = VER_PLATFORM_WIN32_NT; return TRUE; }
static BOOL WINAPI hook_verw(OSVERSIONINFOW* v) { v->dwMajorVersion = 10; v->dwMinorVersion = 0; v->dwBuildNumber = 19045; v->dwPlatformId = VER_PLATFORM_WIN32_NT; return TRUE; }
extern "C" { void* __imp_GetVersionExA = (void*)&hook_ver; void* __imp_GetVersionExW = (void*)&hook_verw; }
static const char* const c_cmds[] = {
    "forward-char", "backward-char", "forward-word", "backward-word", "beginning-of-line", "end-of-line",
    "delete-char", "backward-delete-char", "kill-line", "backward-kill-line", "kill-whole-line", "kill-word", "backward-kill-word", "unix-word-rubout",
    "yank", "transpose-chars", "transpose-words", "upcase-word", "undo", "revert-line", "set-mark", "exchange-point-and-mark",
    "clink-paste", "clink-reset-line", "cua-backward-char", "cua-forward-char", "cua-backward-word", "cua-forward-word", "cua-beg-of-line", "cua-end-of-line", "cua-select-all", "cua-cut",
    "previous-history", "next-history", "beginning-of-history", "end-of-history", "reverse-search-history", "digit-argument", "quoted-insert", "overwrite-mode", "universal-argument", "abort", "redraw-current-line", "clear-screen",
};
static void init()
{
    vf_editor_init();
    int n = 0;
    for (auto c : c_cmds)
    {
        int k = 0x23 + n++; if (k >= '\\') ++k;
        char t[16]; sprintf(t, "\\034\\%03o", k); vf_bind(t, c);
        s_seq[c] = std::string("\x1c") + char(k);
    }
}
static struct Init { Init() { g_init = init; } } s_i;
static void N(Gen& g, const std::string& s) { g.note("%s", s.c_str()); }
static void set_setting(const char* n, const char* v) { setting* s = settings::find(n); if (!s || !s->set(v)) throw Fail{std::string("no setting ") + n}; }

extern bool g_color_emoji;
static std::string rchar(Gen& g)
{
    switch (g.weighted({50, 18, 8, 6, 3, 3, 3, 2}))
    {
    case 0: return std::string(1, "abcxyz0.-"[g.below(9)]);
    case 1: return " ";
    case 2: return u8"\u8a9e";
    case 3: return u8"\u00e9";
    case 4: return u8"\u00e8";
    case 5: return u8"\U0001f642";
    case 6: return u8"\U0001f1fa\U0001f1f8";
    default: return g_color_emoji ? u8"\u2764\ufe0f" : u8"\u2764";
    }
}
static std::string rtext(Gen& g, int n) { std::string s; for (int i = 0; i < n; ++i) { if (g.chance(8)) { s += std::string(1 + g.below(4), g.chance(60) ? ' ' : 'q'); } else s += rchar(g); } return s; }

static std::string s_cap;
static void cap(FILE*, const char* s, int n) { s_cap.append(s, n < 0 ? strlen(s) : n); }
static std::string face_sgr(char f)
{
    auto* o = rl_fwrite_function; rl_fwrite_function = (decltype(rl_fwrite_function))cap; s_cap.clear();
    rl_puts_face_func("X", &f, 1);
    rl_fwrite_function = o;
    return s_cap.substr(0, s_cap.find('X'));
}

struct Ref { std::vector<std::vector<vt_cell>> rows; int prow = 0, cx = 0, cy = 0; };      // prow: the row where the input line begins
// Draws the prompt and the line the plain way.
struct Clu { std::string s; int w; int at; bool ctrl; };
static std::vector<Clu> clusters(const char* p, int n)
{
    std::vector<Clu> v; wcwidth_iter it(p, n);
    while (it.next()) v.push_back(Clu{std::string(it.character_pointer(), it.character_length()), it.character_wcwidth_signed(), int(it.character_pointer() - p), it.character_wcwidth_signed() < 0});
    return v;
}
static char face_at(int i)
{
    int b = -1, e = -1;
    if (rl_mark_active_p() && rl_mark >= 0 && rl_mark <= rl_end) { b = std::min(rl_mark, rl_point); e = std::max(rl_mark, rl_point); }
    return rl_get_face_func(i, b, e);
}
struct Naive
{
    vt t; int cx = 0, cy = 0, prow = 0, pcol = 0;
    Naive(int cols) : t(cols, 1) {}
    void w(const std::string& s) { t.write(s.c_str(), int(s.size())); }
    void settle() { if (t.pend) { t.b[t.y].wrapped = true; t.x = 0; t.down(); t.pend = false; } }
    void prompt(const std::string& p) { w(p); settle(); prow = t.y; pcol = t.x; }
    void line()
    {
        bool placed = false;
        for (auto& c : clusters(rl_line_buffer, rl_end))
        {
            char f = face_at(c.at);
            if (c.s == "\n") { if (c.at == rl_point) { cx = t.x; cy = t.y; placed = true; } t.x = 0; t.down(); t.pend = false; continue; }
            std::string s = c.s; int wd = c.w;
            if (c.ctrl) { s = std::string("^") + char(c.s[0] == 0x7f ? '?' : c.s[0] + 64); wd = 1; }
            if (t.pend || t.x + wd > t.cols) { t.pend = true; settle(); }
            if (rl_point >= c.at && rl_point < c.at + int(c.s.size())) { cx = t.x; cy = t.y; placed = true; }
            w(face_sgr(f) + s + "\x1b[m");
        }
        settle();
        if (!placed) { cx = t.x; cy = t.y; }
    }
};
static std::string show(const std::vector<vt_cell>& r)
{
    std::string s, a; for (auto& c : r) { if (c.at != a) { s += "{" + c.at + "}"; a = c.at; } if (!c.tail) s += c.ch.empty() ? " " : c.ch; }
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}
static int s_scrolled;
static bool s_comment;                   // a row with a comment may follow the input line


static bool is_comment(vt& t, int r, int r0) { return s_comment && r == r0 && t.text(r).compare(0, 21, "History expansion for") == 0; }
// Compares the terminal with the reference, from row `base` down.  Returns an error or an empty string.
static std::string compare(Gen& g, vt& t, int base, const std::string& prefix, const std::string& prompt, const std::string& rprompt, int max_rows, bool modmark)
{
    if (!t.bad.empty()) return t.bad;
    for (auto& c : clusters(rl_line_buffer, rl_end))
    {
        if (c.w == 0) return "discard";
        if (c.s.size() == 4 && !c.s.compare(0, 3, "\xf0\x9f\x87")) return "discard";        // half of a flag: terminals join it with what comes next
        for (size_t i = 1; i < c.s.size(); ++i) if (face_at(c.at + int(i)) != face_at(c.at)) return "discard";      // a selection that ends inside a flag
    }
    Naive n(t.cols);
    n.w(prefix);
    int pre = n.t.y;
    if (modmark) n.w(std::string(_rl_display_modmark_color ? _rl_display_modmark_color : "") + "*\x1b[m");
    n.prompt(prompt);
    int h0 = n.prow - pre;                   // rows that the last line of the prompt wraps into, before the one with the input
    std::vector<std::vector<vt_cell>> want; int cx, cy;
    auto blank_row = [&]() { return std::vector<vt_cell>(t.cols); };
    int rw = int(cell_count(rprompt.c_str()));
    const bool horz = max_rows <= 1 || h0 + max_rows > t.rows;
    if (!horz)
    {
        n.line();
        int total = int(n.t.b.size()); while (total > n.t.y + 1) --total;
        int lines = total - n.prow;
        for (int i = 0; i < total; ++i) want.push_back(n.t.b[i].c);
        cx = n.cx; cy = n.cy;
        if (lines > max_rows)
        {   // Only part of the rows is visible: some window of max_rows rows that has the cursor.
            ++s_scrolled;
            std::string err;
            for (int top = 0; top + max_rows <= lines; ++top)
            {
                int c = cy - n.prow - top; if (c < 0 || c >= max_rows) continue;
                std::vector<std::vector<vt_cell>> v(want.begin(), want.begin() + n.prow);
                for (int k = 0; k < max_rows; ++k) v.push_back(want[n.prow + top + k]);
                std::string bad;
                for (size_t k = 0; k < v.size() && bad.empty(); ++k)
                {
                    int r = base + int(k); auto& got = t.b[r].c; auto w = v[k];
                    int line = int(k) - n.prow;
                    if (line == 0 && top > 0)
                    {   // '<' takes the place of the first character
                        if (got[0].ch != "<") { bad = "no scroll marker at the top"; break; }
                        w[0] = got[0]; for (int z = 1; z < t.cols && w[z].tail; ++z) w[z] = vt_cell();
                        if (c == 0 && n.cx < 1) { bad = "the cursor is on a scroll marker"; }
                    }
                    if (line == max_rows - 1 && top + max_rows < lines)
                    {
                        if (got[t.cols - 2].ch == ">") { for (int z = t.cols - 2; z < t.cols; ++z) w[z] = got[z]; if (got[t.cols - 1].ch != "") bad = "text after the scroll marker"; if (t.cols > 3 && n.t.b[n.prow + top + line].c[t.cols - 2].tail) w[t.cols - 3] = vt_cell(); if (c == line && n.cx >= t.cols - 2) bad = "the cursor is on a scroll marker"; }
                        else { int last = 0; for (int z = 0; z < t.cols; ++z) if (!w[z].ch.empty()) last = z + 1; if (last > 2) bad = "no scroll marker at the bottom"; }
                    }
                    for (int z = 0; z < t.cols && bad.empty(); ++z) if (!vt_same(got[z], w[z])) bad = "row " + std::to_string(k) + " shows " + show(got) + " instead of " + show(w);
                }
                if (bad.empty() && (t.y - base != n.prow + c || t.x != cx)) bad = "the cursor is at " + std::to_string(t.x) + "," + std::to_string(t.y - base) + " instead of " + std::to_string(cx) + "," + std::to_string(n.prow + c);
                if (bad.empty()) for (int r0 = base + int(v.size()), r = r0; r < int(t.b.size()); ++r) if (!t.text(r).empty() && !is_comment(t, r, r0)) bad = "leftover below: " + t.text(r);
                if (bad.empty()) return "";
                if (t.y - base == n.prow + c || err.empty()) err = "top " + std::to_string(top) + ": " + bad;
            }
            return err;
        }
    }
    else
    {
        ++s_scrolled;
        const int limit = t.cols - 2;
        auto cl = clusters(rl_line_buffer, rl_end);
        std::string err = "no scroll offset matches";
        for (size_t s = 0; s <= cl.size(); ++s)
        {
            Naive m(t.cols);
            m.w(prefix); if (modmark) m.w(std::string(_rl_display_modmark_color ? _rl_display_modmark_color : "") + "*\x1b[m"); m.prompt(prompt);
            int col = m.pcol;
            if (s) { m.t.x = 0; m.t.erase(m.t.y, 0, t.cols); m.t.write((face_sgr(FACE_SCROLL) + "<\x1b[m").c_str(), -1 + int((face_sgr(FACE_SCROLL) + "<\x1b[m").size() + 1)); col = 1; }
            size_t k = s; bool placed = false, cut = false; int mx = 0;
            for (; k < cl.size(); ++k)
            {
                std::string x = cl[k].s; int w = cl[k].w; if (cl[k].ctrl) { x = std::string("^") + char(x[0] == 0x7f ? '?' : x[0] + 64); w = 2; }
                if (col + w > limit) { cut = true; break; }
                if (rl_point >= cl[k].at && rl_point < cl[k].at + int(cl[k].s.size())) { mx = col; placed = true; }
                m.w(face_sgr(face_at(cl[k].at)) + x + "\x1b[m"); col += w;
            }
            const bool noroom = k == s && k < cl.size() && rl_point >= cl[k].at && rl_point < cl[k].at + int(cl[k].s.size());       // the prompt leaves no room for any text
            if (!placed && noroom) { mx = col; placed = true; }
            if (!placed) { if (cut || rl_point != rl_end) { if (k < cl.size() || rl_point != rl_end) continue; } mx = col; }
            bool more = k < cl.size();
            if (more) { m.w(face_sgr(FACE_SCROLL) + ">\x1b[m"); }
            if (!rprompt.empty() && rl_display_prompt == rl_prompt && h0 == 0 && col + (more ? 1 : 0) + 1 + rw < t.cols) m.w("\x1b[" + std::to_string(t.cols - rw + 1) + "G" + rprompt);
            std::string bad;
            for (int r = 0; r <= m.prow && bad.empty(); ++r) for (int z = 0; z < t.cols && bad.empty(); ++z) if (!vt_same(t.b[base + r].c[z], m.t.b[r].c[z])) bad = "row " + std::to_string(r) + " shows " + show(t.b[base + r].c) + " instead of " + show(m.t.b[r].c);
            if (bad.empty() && (t.y - base != m.prow || t.x != mx)) bad = "the cursor is at " + std::to_string(t.x) + "," + std::to_string(t.y - base) + " instead of " + std::to_string(mx) + "," + std::to_string(m.prow);
            if (bad.empty()) for (int r0 = base + m.prow + 1, r = r0; r < int(t.b.size()); ++r) if (!t.text(r).empty() && !is_comment(t, r, r0)) bad = "leftover below: " + t.text(r);
            if (bad.empty()) return "";
            err += "; offset " + std::to_string(s) + ": " + bad;
        }
        return err;
    }
    // Right side prompt.
    if (!rprompt.empty() && rl_display_prompt == rl_prompt && int(want.size()) == n.prow + 1 && h0 == 0)
    {
        int last = n.t.x;
        if (last + 1 + rw < t.cols) { Naive m(t.cols); m.w("\x1b[" + std::to_string(t.cols - rw + 1) + "G" + rprompt); for (int z = t.cols - rw; z < t.cols; ++z) want[n.prow][z] = m.t.b[0].c[z]; }
    }
    for (size_t k = 0; k < want.size(); ++k)
        for (int z = 0; z < t.cols; ++z)
            if (base + int(k) >= int(t.b.size())) return "rows are missing";
            else if (!vt_same(t.b[base + k].c[z], want[k][z])) return "row " + std::to_string(k) + " shows " + show(t.b[base + k].c) + " instead of " + show(want[k]);
    if (t.y - base != cy || t.x != cx) return "the cursor is at " + std::to_string(t.x) + "," + std::to_string(t.y - base) + " instead of " + std::to_string(cx) + "," + std::to_string(cy);
    for (int r0 = base + int(want.size()), r = r0; r < int(t.b.size()); ++r) if (!t.text(r).empty() && !is_comment(t, r, r0)) return "leftover below: " + t.text(r);
    return "";
}

static void run(Gen& g, bool redraw)
{
    s_comment = redraw;
    int cols = g.chance(30) ? int(g.range(10, 20)) : int(g.range(20, 60)), rows = g.chance(40) ? int(g.range(4, 8)) : int(g.range(8, 25));
    g_color_emoji = g.coin();
    std::string prompt;
    int ph = g.chance(30) ? int(g.range(1, 2)) : 0;
    for (int i = 0; i < ph; ++i) { bool co = g.coin(); if (co) prompt += "\x1b[1;32m"; int n = int(g.below(std::min(cols - 1, 14))); prompt += rtext(g, std::min(n, cols / 2 - 1)); if (co) prompt += "\x1b[m"; prompt += "\n"; }
    bool colored = g.chance(40);
    if (colored) prompt += "\x1b[36m";
    if (g.chance(10)) { int n = cols + int(g.below(6)); prompt += std::string(n - 1, 'P'); } else prompt += std::string(g.below(5), 'p');
    if (colored && g.coin()) prompt += "\x1b[0m";
    prompt += "$ ";
    std::string prefix = prompt.substr(0, prompt.rfind('\n') == std::string::npos ? 0 : prompt.rfind('\n') + 1), last = prompt.substr(prefix.size());
    std::string rprompt; if (g.chance(30)) rprompt = std::string(g.coin() ? "\x1b[35m" : "") + "RP" + rchar(g) + std::string(g.below(4), 'r');
    set_setting("color.input", g.coin() ? "bright cyan" : "");
    set_setting("color.selection", g.coin() ? "black on yellow" : "");
    int irows = g.weighted({60, 10, 10, 20}); irows = irows == 0 ? 0 : irows == 3 ? int(g.range(2, 4)) : irows;
    set_setting("clink.max_input_rows", std::to_string(irows).c_str());
    set_setting("history.show_preview", redraw ? "true" : "false");
    set_setting("history.expand_mode", redraw ? "on" : "off");
    rl_variable_bind("mark-modified-lines", g.chance(30) ? "on" : "off");
    rl_variable_bind("enable-active-region", g.coin() ? "on" : "off");
    g.label(irows == 0 ? "all rows" : irows == 1 ? "one row" : "few rows");
    clear_history(); using_history();
    int nh = int(g.below(4)); for (int i = 0; i < nh; ++i) add_history((rtext(g, int(g.size(cols * 2))) + "h").c_str());

    vt t(cols, rows);
    int startrow = int(g.below(rows));
    for (int i = 0; i < startrow; ++i) { std::string s = "L" + std::to_string(i) + "\r\n"; t.write(s.c_str(), int(s.size())); }
    int base = t.y;
    vf_editor e(cols, rows, nullptr, prompt.c_str(), rprompt.empty() ? nullptr : rprompt.c_str(), g.coin());
    e.out.on_write = [&](const char* s, int n) { if (getenv("VF_SHOWOUT")) N(g, "out " + esc(std::string(s, n))); t.write(s, n); };
    e.out.on_cursor = [&](int16& x, int16& y) { x = int16(t.x); y = int16(t.y); return true; };
    N(g, "terminal " + std::to_string(cols) + "x" + std::to_string(rows) + " prompt " + esc(prompt) + " rprompt " + esc(rprompt) + " rows " + std::to_string(irows));
    for (int i = 0; i < nh; ++i) N(g, "history " + esc(history_get(i + 1)->line));
    s_scrolled = 0; bool wraps = false;
    int cmds = 0, edits = 0, redraws = 0;
    struct Finish { vf_editor& e; ~Finish() { try { if (!e.done) { e.feed(s_seq["abort"]); e.feed(s_seq["abort"]); e.feed("\r"); } } catch (...) {} } } finish{e};
    auto check = [&](const std::string& what)
    {
        int mr = irows ? irows : 999999; mr = std::max(1, std::min(mr, rows - (redraw ? 1 : 0)));
        bool msg = rl_display_prompt != rl_prompt;
        std::string pr = last + "\x1b[m", px = prefix;
        if (msg) { pr = rl_display_prompt; size_t nl = pr.rfind('\n'); if (nl != std::string::npos) { px = pr.substr(0, nl + 1); pr.erase(0, nl + 1); } }
        bool mod = !msg && _rl_mark_modified_lines && current_history() && rl_undo_list;
        std::string err = compare(g, t, base, px, pr, rprompt, mr, mod);
        if (err == "discard") return false;
        if (!err.empty())
        {
            N(g, "line " + esc(e.line()) + " point " + std::to_string(rl_point) + " prompt " + esc(pr));
            for (int r = std::max(0, base - 1); r < int(t.b.size()); ++r) N(g, "screen |" + show(t.b[r].c));
            for (auto& c : clusters(rl_line_buffer, rl_end)) if (c.w != 1) N(g, "cluster " + esc(c.s) + " " + std::to_string(c.w));
            N(g, err);
            g.fail("%s", ("the screen is wrong after " + what).c_str());
        }
        if (startrow && t.text(base - 1) != "L" + std::to_string(startrow - 1)) g.fail("the row above the prompt was changed after %s", what.c_str());
        if (t.y > base) wraps = true;
        return true;
    };
    e.begin();
    rl_insert_mode = RL_IM_INSERT;
    for (int i = 0; i < 10; ++i) { char k[8] = {'k', char('0' + i), ' ', 'w', 'x', 0}; rl_point = 0; rl_insert_text(k); _rl_last_command_was_kill = 0; rl_kill_text(0, 5); rl_point = 0; }
    _rl_last_command_was_kill = 0; rl_mark = 0; rl_free_undo_list(); rl_last_func = nullptr;
    if (!check("starting")) g.discard();
    int n = 4 + int(g.below(24));
    for (int i = 0; i < n; ++i)
    {
        std::string keys, what, before = e.line();
        switch (redraw ? (const int[]){0, 1, 99, 3, 4, 5}[g.weighted({40, 60, 12, 14, 20, 6})] : g.chance(12) ? 99 : g.weighted({40, 60}))
        {
        case 0: keys = rtext(g, 1 + int(g.size(g.chance(30) ? cols : 8))); what = "typing " + esc(keys); break;
        case 1:
            {
                std::string c = g.pick(std::vector<std::string>{"forward-char", "backward-char", "forward-word", "backward-word", "beginning-of-line", "end-of-line", "delete-char", "backward-delete-char", "kill-line", "backward-kill-line", "kill-word", "backward-kill-word", "unix-word-rubout", "yank", "transpose-chars", "transpose-words", "upcase-word", "undo", "revert-line", "set-mark", "exchange-point-and-mark", "clink-paste", "cua-backward-char", "cua-forward-char", "cua-backward-word", "cua-beg-of-line", "cua-end-of-line", "cua-select-all", "cua-cut", "previous-history", "next-history", "beginning-of-history", "end-of-history", "quoted-insert", "overwrite-mode", "redraw-current-line"});
                keys = s_seq[c]; what = c;
                if (c == "quoted-insert") { keys += "\x01\x05\x1a\n\x7f"[g.below(5)]; }
                if (c == "clink-paste") e.clip.text = rtext(g, int(g.size(cols)));
                int rep = g.chance(15) ? int(g.range(2, 12)) : 1;
                if (rep > 1 && c != "quoted-insert" && c != "clink-paste" && c != "undo") { std::string k1 = keys; for (int r = 1; r < rep; ++r) keys += k1; what += " x" + std::to_string(rep); }
                break;
            }
        case 3:
            keys = g.pick({"!!", "!h", "!a", "!$", "!-2", "!1:0", "^a^x", "!nosuch", " !!", "!? ", "!#"}); what = "typing " + esc(keys); break;
        case 4:
            {   // the same screen comes from drawing everything again
                if (rl_display_prompt != rl_prompt) continue;
                N(g, "clear-screen");
                std::vector<std::vector<vt_cell>> a; for (int r = base; r < int(t.b.size()); ++r) a.push_back(t.b[r].c);
                int ax = t.x, ay = t.y - base; int sc0 = s_scrolled; if (!check("nothing")) return;
                const bool scrolled = s_scrolled != sc0, region = rl_mark_active_p() || cua_get_anchor() >= 0;

                e.feed(s_seq["clear-screen"]);
                base = t.home; startrow = 0;
                while (!a.empty()) { bool em = true; for (auto& c : a.back()) if (!c.ch.empty() || c.tail || !c.at.empty()) em = false; if (!em) break; a.pop_back(); }
                const bool metamorphic = !region && !scrolled;     // the region is deactivated, and the scroll offset may change
                bool same = !metamorphic || (ax == t.x && ay == t.y - base); std::string why = same ? "" : "the cursor was at " + std::to_string(ax) + "," + std::to_string(ay) + " and is at " + std::to_string(t.x) + "," + std::to_string(t.y - base);
                for (int r = base; r < int(t.b.size()) || r - base < int(a.size()); ++r) for (int z = 0; z < cols && same && metamorphic; ++z)
                { vt_cell none; auto& x = r - base < int(a.size()) ? a[r - base][z] : none; auto& y = r < int(t.b.size()) ? t.b[r].c[z] : none; if (!vt_same(x, y)) { same = false; why = "row " + std::to_string(r - base) + " was |" + (r - base < int(a.size()) ? show(a[r - base]) : "") + "| and is |" + (r < int(t.b.size()) ? show(t.b[r].c) : "") + "|"; } }
                if (!same) { N(g, "line " + esc(e.line()) + " point " + std::to_string(rl_point)); N(g, why); g.fail("clearing the screen and drawing again gives another screen"); }
                ++redraws;
                if (!check("clear-screen")) return;
                continue;
            }
        case 5:
            {   // after a resize, drawing everything again
                if (rl_display_prompt != rl_prompt) continue;
                int nc = std::max(10, std::min(60, cols + int(g.range(-12, 12)))), nr = std::max(4, std::min(25, rows + int(g.range(-4, 4))));
                Naive np(nc); np.w(prefix); np.prompt("*" + last);
                if (np.prow + 3 > nr) continue;          // no room for the prompt
                cols = nc; rows = nr;
                N(g, "resize to " + std::to_string(cols) + "x" + std::to_string(rows));
                t.resize(cols, rows); e.resize(cols, rows);
                e.feed(s_seq["clear-screen"]);
                base = t.home; startrow = 0;
                if (!check("resizing and clear-screen")) return;
                ++redraws;
                continue;
            }
        default:
            {   // a message in place of the prompt, then away
                what = g.coin() ? "a numeric argument" : "a search";
                if (what == "a search") { keys = s_seq["reverse-search-history"]; for (int z = int(g.below(3)); z-- > 0;) keys += "abxh "[g.below(5)]; N(g, what + " " + esc(keys)); e.feed(keys); if (!check(what)) return; keys = s_seq["abort"]; what = "abort"; }
                else { keys = "\x1b" "1" + std::string(g.below(2), '2'); N(g, what); e.feed(keys); if (!check(what)) return; keys = s_seq["forward-char"]; what = "forward-char"; }
            }
        }
        N(g, what);
        e.feed(keys);
        if (e.done) g.fail("the line ended");
        ++cmds; if (e.line() != before) ++edits;
        if (!check(what)) return;
    }
    if (cmds >= 6 && edits >= 3 && (wraps || s_scrolled) && (!redraw || redraws)) g.nontrivial();
}

PBT_PROP(C26, screen, 12000, 400000, "at least 6 commands with 3 changes of the line, and the text wraps or scrolls at some time") { run(g, false); }
PBT_PROP(C26, redraw, 8000, 300000, "as screen, with previews of history expansion and at least one redraw or resize") { run(g, true); }

