//: group=full lflags=-Wl,--wrap=end_prompt,--wrap=rl_crlf,--wrap=rl_forced_update_display
// C27 layout of the match list.
#include <core/base.h>
#include <core/str.h>
#include <core/os.h>
#include <core/settings.h>
#include <core/str_compare.h>
#include <lib/matches.h>
#include <lib/matches_lookaside.h>
#include <lib/display_matches.h>
#include <lib/ellipsify.h>
#include <lib/match_colors.h>
#include "match_adapter.h"
#include "column_widths.h"
#include <algorithm>
static std::string s_out;
extern "C" {
extern void (*rl_fwrite_function)(FILE*, const char*, int);
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
extern int _rl_completion_columns, rl_filename_display_desired;
void __wrap_end_prompt(int) {}
int __wrap_rl_crlf(void) { s_out += '\n'; return 0; }
int __wrap_rl_forced_update_display(void) { return 0; }
void display_matches(char** matches);
}
using namespace pbt;

static void init()
{
    settings::TEST_set_ever_loaded();
    freopen("NUL", "w", stderr);
    rl_fwrite_function = [](FILE*, const char* s, int n) { s_out.append(s, n); };
    SetCurrentDirectoryW(ref_utf16(scratch()).c_str());
    rl_preferred_path_separator = '\\';
    rl_backslash_path_sep = 1;
    rl_completion_query_items = 0; rl_completion_auto_query_items = 0; _rl_page_completions = 0;
    _rl_screenheight = 25;
}
static struct Init { Init() { g_init = init; } } s_init;
static void setv(const char* name, const std::string& v) { setting* s = settings::find(name); if (!s || !s->set(v.c_str())) throw Fail{std::string("cannot set ") + name}; }

static int cw(uint32_t c) { return c == 0x8a9e || c == 0xac00 ? 2 : c < 32 || c == 127 ? 2 : 1; }
static int width(const std::string& s) { int w = 0; for (uint32_t c : cps_of(s)) w += cw(c); return w; }
static std::string plain(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !isalpha((unsigned char)s[i])) ++i; }
        else r += s[i];
    return r;
}
static std::string shown(const std::string& s)
{
    std::string r; for (char c : s) if (c > 0 && c < 32) { r += '^'; r += char(c | 64); } else if (c == 127) r += "^?"; else r += c;
    return r;
}
static std::string part(const std::string& s, bool fnames)
{
    if (!fnames) return s;
    size_t e = s.size(); while (e && (s[e - 1] == '\\' || s[e - 1] == '/')) --e;
    size_t p = e ? s.find_last_of("\\/", e - 1) : std::string::npos;
    return p == std::string::npos ? s : s.substr(p + 1);
}

struct M { std::string name, disp, desc; int type; bool append; std::vector<std::string> segs; };
enum { T_word = 2, T_arg, T_cmd, T_alias, T_file, T_dir };

PBT_PROP(C27, layout, 500000, 12000000, "several matches of different widths, in several columns or with a match too wide for the screen or with descriptions")
{
    // Configuration.
    bool fnames = g.coin(), horiz = g.coin(), vs = g.chance(20), mark = !g.chance(15), sb = g.chance(30), colors = g.chance(50);
    int pdl = g.chance(35) ? int(g.below(6)) : 0;
    int S = g.chance(70) ? 10 + int(g.below(110)) : 2 + int(g.below(400));
    bool viacols = g.chance(10);
    _rl_screenwidth = viacols ? S + int(g.below(20)) : S; _rl_completion_columns = viacols ? S : -1;
    bool fit = !g.chance(20); int maxfit = g.chance(20) ? int(g.below(30)) : 0;
    setv("match.fit_columns", fit ? "true" : "false");
    char t[64]; sprintf(t, "%d", maxfit); setv("match.max_fitted_matches", t);
    setv("terminal.scrollbars", sb ? "true" : "false");
    bool prefcolor = g.chance(30);
    setv("color.common_match_prefix", prefcolor ? "bright" : "");
    os::set_env("CLINK_MATCH_COLORS", colors ? "di=1:a*=31:fi=2" : nullptr);
    if (!colors) { setv("match.coloring_rules", ""); _rl_colored_stats = 0; }
    parse_match_colors();
    rl_filename_display_desired = fnames; rl_visible_stats = vs; _rl_complete_mark_directories = mark;
    _rl_print_completions_horizontally = horiz; _rl_completion_prefix_display_length = pdl;
    _rl_filtered_color = g.coin() ? "\x1b[0;1m" : nullptr; _rl_arginfo_color = g.coin() ? "\x1b[0;33m" : nullptr;
    _rl_description_color = g.coin() ? "\x1b[0;36m" : nullptr;
    int scope = int(g.below(3)); str_compare_scope _(scope, false);

    // Matches.
    static const std::vector<std::string> chs = {"a", "b", "c", "d", "e", ".", "x", "1", "語", "é", "가", " ", "\x01", "\x7f"};
    auto word = [&](int max) { std::string s; for (int k = 1 + g.size(max - 1); k-- > 0;) s += g.chance(85) ? chs[g.below(8)] : g.pick(chs); return s; };
    std::string dirp = fnames && g.chance(40) ? (g.coin() ? "di\\" : "c:\\z\\") : "";
    std::string common = g.chance(50) ? word(7) : "";
    if (common.find('\x01') != std::string::npos || common.find('\x7f') != std::string::npos) common = "abc";
    int maxlen = g.chance(8) ? 150 : 4 + int(g.below(25));
    int n = 1 + (g.chance(10) ? g.size(400) : g.size(60));
    int dmode = int(g.weighted({55, 15, 20, 10}));    // descriptions: none, short, any, some with aligned columns
    int amode = int(g.weighted({60, 20, 20}));        // display: none, around the match, any
    bool bare = g.chance(10);
    bool same = g.coin(); std::string sym0 = g.pick({"", "\x1b[32mX ", "@ ", "語"}), c10 = g.pick({"", "\x1b[31m"}), c20 = g.pick({"", "\x1b[m", "\x1b[m z", " !"});
    std::vector<M> ms(n);
    for (auto& m : ms)
    {
        m.type = int(g.weighted({30, 20, 20, 5, 5, 5}));
        static const int ty[] = {T_file, T_dir, T_word, T_arg, T_cmd, T_alias}; m.type = ty[m.type];
        m.name = dirp + common + (bare && g.chance(30) && !common.empty() ? "" : word(maxlen));
        if (g.chance(15) && m.type != T_dir) m.name += ".exe";
        if (m.type == T_dir && g.chance(70)) m.name += "\\";
        m.append = false;
        if (amode && g.chance(60))
        {
            std::string p = part(m.name, fnames);
            if (g.chance(20)) { m.append = true; m.disp = g.chance(50) ? " <" + word(4) + ">" : "\x1b[1m=" + word(3); for (char& c : m.disp) if (c == 1 || c == 127) c = 'z'; }
            else if (amode == 1)
            {
                std::string sym = g.pick({"", "\x1b[32mX ", "@ ", "語"}), c1 = g.pick({"", "\x1b[31m"}), c2 = g.pick({"", "\x1b[m", "\x1b[m z", " !"});
                if (same) sym = sym0, c1 = c10, c2 = c20;
                m.disp = sym + c1 + p + c2;
            }
            else m.disp = word(maxlen);
            for (char& c : m.disp) if (c == 1 || c == 127) c = 'z';
        }
        if (dmode && g.chance(80))
        {
            m.desc = word(dmode == 2 ? 80 : 12); for (char& c : m.desc) if (c == 1 || c == 127) c = 'z';
            if (g.chance(20)) m.desc = "\x1b[4m" + m.desc;
            if (dmode == 3 && g.chance(40)) m.desc += "   q";
        }
    }
    bool hasdesc = false, aligned = false, shortdesc = true;
    for (auto& m : ms) { if (!m.desc.empty()) hasdesc = true; if (m.desc.find("   ") != std::string::npos) aligned = true; if (width(plain(m.desc)) > 24) shortdesc = false; }

    // Packed matches.
    std::vector<std::vector<char>> bufs(n); std::vector<char*> v;
    std::string lcd0 = ms[0].name;
    std::vector<char> lcdb(4096, 0);
    v.push_back(lcdb.data());
    for (int i = 0; i < n; ++i)
    {
        const char* d = ms[i].disp.empty() ? nullptr : ms[i].disp.c_str(); const char* ds = ms[i].desc.empty() ? nullptr : ms[i].desc.c_str();
        size_t sz = calc_packed_size(ms[i].name.c_str(), d, ds); bufs[i].resize(sz);
        if (!pack_match(bufs[i].data(), sz, ms[i].name.c_str(), match_type(ms[i].type), d, ds, 0, ms[i].append ? MATCH_FLAG_APPEND_DISPLAY : 0)) throw Fail{"pack"};
        v.push_back(bufs[i].data());
    }
    v.push_back(nullptr);

    // Reference: the text of each cell.
    std::vector<uint32_t> L = cps_of(ms[0].name);
    for (auto& m : ms) { auto c = cps_of(m.name); size_t k = 0; while (k < L.size() && k < c.size() && (L[k] == c[k])) ++k; L.resize(k); }
    std::string lcd, lp; for (uint32_t c : L) lcd += utf8_of(c); bool lsep = !lcd.empty() && (lcd.back() == '\\' || lcd.back() == '/');
    if (!lcd.empty() && !lsep) { lp = part(lcd, fnames); if (fnames && lcd.size() == 2 && lcd[1] == ':') lp = ""; }
    bool cond = pdl > 0 && width(lp) > pdl && width(lp) > 3;
    size_t sind = cond ? lp.size() : 0;
    int lw = width(lp), presuf = 3;
    std::string lcdpart = part(lcd, fnames); if (lsep && fnames) { size_t p = lcd.find_last_of("\\/", lcd.size() - 2); lcdpart = p == std::string::npos ? lcd : lcd.substr(p + 1); }
    auto custom = [&](const M& m) { return !m.append && !m.disp.empty() && m.disp != m.name; };
    if (lcdpart.empty()) presuf = 0;
    else for (auto& m : ms)
    {
        if (!custom(m)) continue;
        std::vector<std::string> seg; std::string cur; 
        for (size_t i = 0; i < m.disp.size(); ++i)
            if (m.disp[i] == '\x1b') { if (!cur.empty()) seg.push_back(cur); cur.clear(); ++i; while (++i < m.disp.size() && m.disp[i] != 'm') {} }
            else cur += m.disp[i];
        if (!cur.empty()) seg.push_back(cur);
        std::string p = part(m.name, fnames); int b = 0;
        if (!seg.empty()) { if (seg[0] == p) b |= 1; auto& l = seg.back(); if (l.size() >= p.size() && l.compare(l.size() - p.size(), p.size(), p) == 0) b |= 2; }
        presuf &= b;
    }
    auto condense = [&](const std::string& p) { if (!cond || p.size() <= sind) return p; return std::string(3, p[sind] == '.' ? '_' : '.') + p.substr(sind); };
    std::vector<std::string> cell(n), desc(n); std::vector<int> need(n), dw(n);
    for (int i = 0; i < n; ++i)
    {
        auto& m = ms[i]; std::string p = part(m.name, fnames); bool slash = m.name.back() == '\\';
        std::string file = shown(condense(p)); int fw = width(file);
        char mark_c = 0; bool desired = fnames || m.type == T_dir;
        if (desired && vs) mark_c = m.type == T_dir ? '\\' : (m.type == T_file || m.type == T_cmd) && p.size() >= 4 && p.compare(p.size() - 4, 4, ".exe") == 0 ? '*' : 0;
        else if (desired && mark && m.type == T_dir) mark_c = '\\';
        if (slash) mark_c = 0;
        if (mark_c) file += mark_c;
        if ((m.type == T_dir && (vs || colors || mark) && !slash) || (mark_c && m.type != T_dir)) ++fw;     // Room for the mark.
        std::string d = plain(m.disp);
        if (m.append) cell[i] = file + d, need[i] = fw + width(d);
        else if (custom(m))
        {
            need[i] = width(d);
            if (presuf && cond && p.size() > sind)
            {
                size_t pos = (presuf & 1) ? 0 : d.size() - p.size();
                d = d.substr(0, pos) + condense(p) + d.substr(pos + p.size());
                need[i] -= lw - 3;
                g.label("condensed display");
            }
            cell[i] = d;
        }
        else cell[i] = file, need[i] = fw;
        if (cond && p.size() > sind) g.label("condensed");
        desc[i] = plain(m.desc); dw[i] = width(desc[i]);
    }

    // Reference: the columns.  (One column of the screen stays free, and one is for a scroll bar.)
    int pad = hasdesc ? 4 : 2, screen = S - (sb && !hasdesc && S > 1), line = screen + pad - 1;
    bool one = hasdesc && n <= 9 && !shortdesc;
    bool just = hasdesc && !aligned;
    int descpad = !hasdesc ? 0 : just ? 2 : 4, parens = just ? 2 : 0;
    int maxm = 0, maxd = 0, maxl = 0; std::vector<int> dl(n);
    for (int i = 0; i < n; ++i) { dl[i] = dw[i] ? dw[i] + descpad + parens : 0; maxm = std::max(maxm, need[i]); maxd = std::max(maxd, dl[i]); maxl = std::max(maxl, need[i] + dl[i]); }
    bool fixed = !fit || (maxfit && n > maxfit) || one;
    auto col_of = [&](int i, int C) { return horiz ? i % C : i / ((n + C - 1) / C); };
    int C = 0; std::vector<int> W, MM;
    if (!fixed)
        for (C = std::min(std::min(n, 50), line / (1 + pad)); C >= 1; --C)
        {
            std::vector<int> a(C, 1), b(C, 0);
            for (int i = 0; i < n; ++i)
            {
                int c = col_of(i, C);
                if (just) a[c] = std::max(a[c], need[i] + dl[i]); else { a[c] = std::max(a[c], need[i]); b[c] = std::max(b[c], dl[i]); }
            }
            int total = 0; for (int c = 0; c < C; ++c) total += a[c] + b[c] + pad;
            if (total < line || (C == 1 && false)) { for (int c = 0; c < C; ++c) W.push_back(a[c] + b[c]), MM.push_back(a[c]); break; }
        }
    if (C < 1) { if (hasdesc && aligned) maxl = maxm + maxd; C = one ? 1 : std::max(line / (maxl + pad), 1); W.assign(C, maxl); MM.assign(C, maxm); fixed = true; }
    bool right = just && (C > 1 || maxm > screen * 4 / 10) && W[0] < screen - 2;
    if (just && !right) { descpad = 4; W.assign(C, maxm + 2 + maxd); MM.assign(C, maxm); }

    g.note("screen %d (scrollbars %d) fit %d/%d horiz %d fnames %d stats %d mark %d colors %d pdl %d lcd '%s' presuf %d", S, sb, fit, maxfit, horiz, fnames, vs, mark, colors, pdl, esc(lcd).c_str(), presuf);
    if (n <= 30) for (int i = 0; i < n; ++i) g.note("%s type %d disp '%s'%s desc '%s' -> '%s' %d", esc(ms[i].name).c_str(), ms[i].type, esc(ms[i].disp).c_str(), ms[i].append ? " append" : "", esc(ms[i].desc).c_str(), esc(cell[i]).c_str(), need[i]);

    if (n > 1) create_matches_lookaside(v.data());
    {
        match_adapter ad; char* two[3] = {v[1], v[1], nullptr};
        if (n == 1) create_matches_lookaside(two);
        ad.set_alt_matches(n == 1 ? two : v.data(), false);
        column_widths w = calculate_columns(ad, fit ? maxfit : -1, one, false, 0, presuf);
        if (n == 1) destroy_matches_lookaside(two);
        std::string got, want; char b[32];
        for (size_t i = 0; i < w.num_columns(); ++i) { sprintf(b, "%d ", w.column_width(i)); got += b; }
        for (int x : W) { sprintf(b, "%d ", x); want += b; }
        // The guarantees.
        int total = 0; for (size_t i = 0; i < w.num_columns(); ++i) total += w.column_width(i) + (i ? w.m_col_padding : 0);
        g.check(w.num_columns() >= 1, "no columns");
        g.check(w.num_columns() == 1 || total < S, "%d columns, %s, do not fit in %d", int(w.num_columns()), got.c_str(), S);
        g.check(got == want, "column widths %s, expected %s", got.c_str(), want.c_str());
        g.check(w.m_right_justify == right, "right justify %d, expected %d", w.m_right_justify, right);
        for (int i = 0; i < C; ++i) g.check(w.max_match_len(i) == MM[i] || right, "match width of column %d is %d, expected %d", i, w.max_match_len(i), MM[i]);
    }

    // Drawn.
    if (n == 1) { v[0] = v[1]; v[1] = nullptr; }
    s_out.clear(); rl_outstream = stdout;
    display_matches(v.data());
    std::string out = s_out;
    if (n > 1) destroy_matches_lookaside(v.data());
    out = plain(out);

    int rows = (n + C - 1) / C; std::string want; std::vector<int> times(n, 0);
    for (int r = 0; r < rows; ++r)
    {
        std::string line; int at = 0, start = 0;
        for (int c = 0; c < C; ++c)
        {
            int i = horiz ? r * C + c : r + c * rows;
            if (i >= n) break;
            ++times[i];
            while (at < start || (c && at < start)) line += ' ', ++at;
            line += cell[i]; int cwid = width(cell[i]); at += cwid;
            if (dw[i])
            {
                int wid = !right && C == 1 ? S - 1 : W[c];
                int from = right ? W[c] - dw[i] - 2 : MM[c] + descpad;
                if (from < S - 1)
                {
                    while (at < start + from) line += ' ', ++at;
                    if (right) { line += '(' + desc[i] + ')'; at += dw[i] + 2; }
                    else { str<> e; int x = ellipsify(ms[i].desc.c_str(), wid - from, e, false); line += plain(e.c_str()); at += x; }
                }
                g.label(right ? "right-justified" : C > 1 ? "columns of descriptions" : "description");
            }
            if (C > 1) g.check(at - start <= W[c], "cell %d is wider than its column", i);
            start += W[c] + pad;
        }
        want += line + "\n";
    }
    for (int i = 0; i < n; ++i) g.check(times[i] == 1, "match %d is drawn %d times by the reference", i, times[i]);
    if (out != want)
    {
        size_t p = 0; while (p < out.size() && p < want.size() && out[p] == want[p]) ++p;
        g.fail("the list differs from expected at %d:\n%s\nexpected:\n%s", int(p), esc(out).c_str(), esc(want).c_str());
    }
    g.label(C > 1 ? fixed ? "equal columns" : "fitted columns" : "one column");
    std::set<int> ws(need.begin(), need.end());
    if (ws.size() > 1 && (C > 1 || maxl >= S || hasdesc)) g.nontrivial();
}
