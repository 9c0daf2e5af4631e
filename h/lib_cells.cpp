//: group=full
// C17 display width, C18 ellipsis.
#include <core/base.h>
#include <core/str.h>
#include <terminal/ecma48_iter.h>
#include <terminal/wcwidth.h>
#include <lib/ellipsify.h>
#include "eaw.h"
using namespace pbt;
extern bool g_color_emoji;

struct Gr { std::string s; int w; int esc; };     // esc: an escape sequence or a control code
static void add_cp(std::string& s, uint32_t c) { s += utf8_of(c); }
// A character with known width in the current mode, that neither joins what precedes it nor what follows it.
static Gr gen_gr(Gen& g, bool color, bool ctrl)
{
    Gr r{ "", 1, 0 };
    switch (g.below(12))
    {
    case 0: case 1: case 2: r.s = g.ch("abcdefXYZ0189 -_.\\/"); break;
    case 3: add_cp(r.s, 0xc0 + g.below(0x180 - 0xc0)); break;
    case 4: add_cp(r.s, g.coin() ? 0x391 + g.below(16) : 0x410 + g.below(64)); break;
    case 5: add_cp(r.s, 0x4e00 + g.below(0x9fa5 - 0x4e00)); r.w = 2; break;
    case 6: add_cp(r.s, g.coin() ? 0x3041 + g.below(0x56) : 0xac00 + g.below(11172)); r.w = 2; break;
    case 7: if (g.coin()) { add_cp(r.s, 0xff01 + g.below(0x60)); r.w = 2; } else { add_cp(r.s, 0xff61 + g.below(0x3f)); r.w = 1; } break;
    case 8: if (ctrl && g.chance(20)) { r.s = "\x7f"; r.w = -1; } else { add_cp(r.s, 0x300 + g.below(0x70)); r.w = 1; } break;      // a combining mark has a cell of its own
    default:
        if (!color) { add_cp(r.s, 0x4e00 + g.below(100)); r.w = 2; break; }
        r.w = 2;
        switch (g.below(7))
        {
        case 0: add_cp(r.s, 0x1f600 + g.below(0x50)); break;
        case 1: add_cp(r.s, 0x1f44a + g.below(4)); add_cp(r.s, 0x1f3fb + g.below(5)); break;
        case 2: { static const uint32_t p[] = { 0x1f468, 0x1f469, 0x1f467, 0x1f466, 0x1f9d1 }; add_cp(r.s, p[g.below(5)]); if (g.coin()) add_cp(r.s, 0x1f3fb + g.below(5)); for (int n = 1 + g.below(3); n-- > 0;) { add_cp(r.s, 0x200d); if (g.chance(30)) { static const uint32_t q[] = { 0x2764, 0x2695, 0x2640, 0x2642 }; int i = g.below(4); add_cp(r.s, q[i]); add_cp(r.s, 0xfe0f); } else { add_cp(r.s, p[g.below(5)]); if (g.chance(30)) add_cp(r.s, 0x1f3fb + g.below(5)); } } break; }
        case 3: add_cp(r.s, 0x1f1e6 + g.below(26)); add_cp(r.s, 0x1f1e6 + g.below(26)); break;
        case 4: { static const uint32_t p[] = { 0x2764, 0x2600, 0x2714, 0x2618, 0xa9, 0x1f321, 0x270c, 0x1f5a5 }; add_cp(r.s, p[g.below(_countof(p))]); if (g.coin()) add_cp(r.s, 0xfe0f); else r.w = 1; break; }
        case 5: { r.s = g.ch("0123456789#*ab"); add_cp(r.s, 0xfe0f); break; }            // a selector widens any character
        default: add_cp(r.s, 0x1f680 + g.below(0x40)); break;
        }
    }
    return r;
}
static Gr gen_esc(Gen& g)
{
    switch (g.below(6)) { case 0: return { g.coin() ? "\x1b]0;title\x07" : "\x1b]8;;u\x1b\\", 0, 1 }; case 1: return { g.pick({ "\x07", "\t", "\n" }), 0, 1 }; case 2: return { "\x1b[K", 0, 1 }; default: return { "\x1b[" + std::string(g.pick({ "", "0", "1", "31", "38;2;1;2;3", "0;1;44" })) + "m", 0, 1 }; }
}
static std::string show(const std::vector<Gr>& v) { std::string s; for (auto& x : v) { s += s.empty() ? "" : "|"; s += esc(x.s) + ":" + std::to_string(x.w); } return s; }

struct Mode { bool old; Mode(bool c) : old(g_color_emoji) { g_color_emoji = c; } ~Mode() { g_color_emoji = old; } };

PBT_PROP(C17, chars, 1500000, 10000000, "texts composed of characters of known width (scripts, wide, combining, emoji with selectors, skin tones, joiners and flags, control), in both emoji modes: iteration gives exactly those characters and widths, whole, from any boundary, stepping back, and with a length limit; totals are the sums; non-trivial: at least two characters of different width or more than one code point")
{
    bool color = g.coin(); Mode m(color);
    std::vector<Gr> v; std::string s;
    for (int n = 1 + g.size(10); n-- > 0;) { v.push_back(gen_gr(g, color, true)); s += v.back().s; }
    g.note("%s: %s", color ? "color" : "plain", show(v).c_str());
    int one = 0, two = 0; bool nt = false;
    for (auto& x : v) { one += x.w < 0 ? 1 : x.w; two += x.w < 0 ? 2 : x.w; if (x.w != v[0].w || cps_of(x.s).size() > 1) nt = true; }
    if (nt) g.nontrivial();
    g.check(clink_wcswidth(s.c_str(), uint32(s.size())) == one, "clink_wcswidth is %u want %d", clink_wcswidth(s.c_str(), uint32(s.size())), one);
    g.check(clink_wcswidth_expandctrl(s.c_str(), uint32(s.size())) == two, "clink_wcswidth_expandctrl is not %d", two);
    // From any start to any end.
    size_t a = g.below(v.size()), b = a + g.below(v.size() - a + 1); std::string pre, mid; for (size_t i = 0; i < b; ++i) (i < a ? pre : mid) += v[i].s;
    int way = g.below(3);
    wcwidth_iter it(way == 1 ? s.c_str() : s.c_str() + pre.size(), way == 0 ? int(mid.size()) : -1);
    size_t end = way == 0 ? b : v.size();
    // (An iterator can be moved back to an earlier boundary.)
    if (way == 1) { for (size_t i = 0, n = a + g.below(v.size() - a + 1); i < n; ++i) it.next(); it.reset_pointer(s.c_str() + pre.size()); }
    const char* p = s.c_str() + pre.size();
    const char* stop = way == 0 ? p + mid.size() : s.c_str() + s.size();
    for (size_t i = a; i < end; ++i)
    {
        g.check(it.more(), "no more at character %u", unsigned(i));
        g.check(it.get_pointer() == p && (way != 0 || it.length() == unsigned(stop - p)), "position before character %u", unsigned(i));
        uint32_t c = it.next();
        if (g.chance(20)) { it.unnext(); g.check(it.get_pointer() == p && it.more(), "position after unnext"); if (g.coin()) { wcwidth_iter copy(it); copy.next(); g.check(copy.character_length() == v[i].s.size(), "copied iterator"); } c = it.next(); }
        g.check(c == cps_of(v[i].s)[0], "character %u is U+%X", unsigned(i), c);
        g.check(it.character_pointer() == p && it.character_length() == v[i].s.size(), "character %u (%s) is %u bytes", unsigned(i), esc(v[i].s).c_str(), it.character_length());
        g.check(it.character_wcwidth_signed() == v[i].w, "character %u (%s) is %d wide", unsigned(i), esc(v[i].s).c_str(), it.character_wcwidth_signed());
        p += v[i].s.size();
    }
    g.check(!it.more() && !it.next() && it.get_pointer() == stop, "does not end");
}

PBT_PROP(C17, codepoints, 1500000, 10000000, "single characters against the documented width rules (general category and East Asian Width from an independent Unicode table), and any sequence of code points: iteration partitions the text and its widths add up, also with escape codes inserted between characters; non-trivial: the text has a wide or zero width code point")
{
    bool color = g.coin(); Mode m(color);
    if (g.chance(40))
    {
        auto& r = c_eaw[g.below(_countof(c_eaw))]; uint32_t c = r.lo + g.below(r.hi - r.lo + 1);
        if (!(r.modes & (color ? 2 : 1))) g.discard();
        combining_mark_width_scope cm(0);
        g.note("U+%X in %s mode", c, color ? "color" : "plain");
        g.check(wcwidth(c) == r.w, "width is %d want %d", wcwidth(c), r.w);
        if (r.w != 1) g.nontrivial();
        return;
    }
    std::vector<uint32_t> cp; bool nt = false;
    for (int n = 1 + g.size(10); n-- > 0;)
    {
        static const uint32_t special[] = { 0x200d, 0xfe0f, 0x1f3fb, 0x1f3ff, 0x1f1e6, 0x1f1ff, 0x2764, 0x1f468, 0x300, 0x20e3, 0x2640, 0x3030, '1', '#', 0xa9, 0x200b, 0x1160, 0xad, 0x9f, 0x7f, 0x1f5ff };
        uint32_t c; switch (g.below(4)) { case 0: c = 'a' + g.below(26); break; case 1: case 2: c = special[g.below(_countof(special))]; break; default: { auto& r = c_eaw[g.below(_countof(c_eaw))]; c = r.lo + g.below(r.hi - r.lo + 1); } }
        cp.push_back(c); if (c >= 0x200b) nt = true;
    }
    if (nt) g.nontrivial();
    std::string s; for (auto c : cp) s += utf8_of(c);
    g.note("%s in %s mode", esc(s).c_str(), color ? "color" : "plain");
    unsigned sum = 0; wcwidth_iter it(s.c_str(), int(s.size())); const char* p = s.c_str(); std::vector<Gr> v;
    while (it.next())
    {
        g.check(it.character_pointer() == p && it.character_length() > 0, "iteration skips or repeats text");
        p += it.character_length(); int w = it.character_wcwidth_signed(); g.check(w >= -1 && w <= 2, "width %d", w);
        if (!color) g.check(cps_of(std::string(it.character_pointer(), it.character_length())).size() == 1, "joined characters");
        v.push_back({ std::string(it.character_pointer(), it.character_length()), w, 0 });
        sum += w < 0 ? 1 : w;
    }
    g.check(p == s.c_str() + s.size(), "iteration stopped early");
    g.check(clink_wcswidth(s.c_str(), uint32(s.size())) == sum, "clink_wcswidth is %u want %u", clink_wcswidth(s.c_str(), uint32(s.size())), sum);
    // A character ends where its joining code points end.
    for (size_t i = 0; color && i + 1 < v.size(); ++i)
    {
        auto a = cps_of(v[i].s), b = cps_of(v[i + 1].s);
        bool emoji0 = a[0] == 0x1f468 || a[0] == 0x2764 || (a[0] >= 0x1f600 && a[0] < 0x1f650);
        if (emoji0 && a.size() == 1) g.check(b[0] != 0xfe0f && b[0] != 0x200d && !(b[0] >= 0x1f3fb && b[0] <= 0x1f3ff), "%s was split from %s", esc(v[i + 1].s).c_str(), esc(v[i].s).c_str());
        if (a.size() == 2 && a[1] == 0x200d && emoji0) g.check(b[0] != 0x1f468 && b[0] != 0x2764 && b[0] != 0x2640, "%s was not joined to %s", esc(v[i + 1].s).c_str(), esc(v[i].s).c_str());
        if (a.size() == 1 && a[0] >= 0x1f1e6 && a[0] <= 0x1f1ff) g.check(b[0] < 0x1f1e6 || b[0] > 0x1f1ff, "a flag was split");
    }
    // Escape codes between characters add nothing.
    for (auto& x : v) if (cps_of(x.s)[0] < 0xa0 && (uint8_t)x.s[0] >= 0x7f) return;
    std::string t; for (auto& x : v) { if (g.chance(40)) t += gen_esc(g).s; t += x.s; }
    if (g.chance(40)) t += gen_esc(g).s;
    int32 end = -1;
    // (Splitting can only matter where the next character would have joined.)
    unsigned w2 = 0; for (auto& x : v) { auto c = cps_of(x.s)[0]; if (c == 0xfe0f || c == 0x200d || (c >= 0x1f3fb && c <= 0x1f3ff) || (c >= 0x1f1e6 && c <= 0x1f1ff)) return; w2 += x.w < 0 ? 1 : x.w; }
    g.check(cell_count(t.c_str()) == w2 && cell_count(t.c_str(), int(t.size()), &end) == w2, "cell_count of %s is %u want %u", esc(t).c_str(), cell_count(t.c_str()), w2);
    g.check(end == int(t.size()), "cell_count ended at %d", end);
}

//---- C18 -------------------------------------------------------------------------------------
static int width(const std::vector<Gr>& v) { int w = 0; for (auto& x : v) w += x.w; return w; }
static std::string bytes(const std::vector<Gr>& v) { std::string s; for (auto& x : v) s += x.s; return s; }
// Keeps what fits of an ellipsis.
static std::vector<Gr> clip(const std::vector<Gr>& e, int limit) { std::vector<Gr> r; int w = 0; for (auto& x : e) { if (w + x.w > limit) break; w += x.w; r.push_back(x); } return r; }
static std::vector<Gr> ref_right(const std::vector<Gr>& v, int limit, const std::vector<Gr>& e)
{
    if (width(v) <= limit) return v;
    std::vector<Gr> r; int w = 0, ew = width(e);
    for (auto& x : v) { if (!x.esc && w + x.w > limit - ew) break; w += x.w; r.push_back(x); }
    for (auto& x : clip(e, limit - w)) r.push_back(x);
    return r;
}
static std::vector<Gr> ref_left(const std::vector<Gr>& v, int limit, const std::vector<Gr>& e)
{
    if (width(v) <= limit) return v;
    size_t i = v.size(); int w = 0, ew = width(e);
    while (i > 0) { auto& x = v[i - 1]; if (!x.esc && w + x.w > limit - ew) break; w += x.w; --i; }
    std::vector<Gr> r; for (size_t k = 0; k < i; ++k) if (v[k].esc) r.push_back(v[k]);
    for (auto& x : clip(e, limit - w)) r.push_back(x);
    for (; i < v.size(); ++i) r.push_back(v[i]);
    return r;
}
static std::vector<Gr> ref_path(const std::vector<Gr>& v, int limit, const std::vector<Gr>& e)
{
    if (width(v) <= limit) return v;
    // A drive, maybe with escape codes inside, if more text follows.
    size_t i = 0, end = 0; int st = 0;
    for (; i < v.size(); ++i)
    {
        if (v[i].esc) { if (st < 2) continue; continue; }
        if (st == 0 && v[i].s.size() == 1 && isalpha((unsigned char)v[i].s[0])) { st = 1; continue; }
        if (st == 1 && v[i].s == ":") { st = 2; continue; }
        if (st == 2) end = i;
        break;
    }
    if (end)
    {
        std::vector<Gr> d(v.begin(), v.begin() + end), rest(v.begin() + end, v.end());
        if (limit >= 2)
        {
            auto r = ref_left(rest, limit - 2, e);
            if (width(r) >= width(e)) { for (auto& x : r) d.push_back(x); return d; }
        }
        return ref_right(v, limit, e);
    }
    auto r = ref_left(v, limit, e);
    if (width(r) >= width(e)) return r;
    return ref_right(v, limit, e);
}

PBT_PROP(C18, ellipsify, 1200000, 8000000, "texts and paths of characters of known width with escape codes anywhere, every limit around the text width, every mode, several ellipsis strings including wide and empty ones: result against a reference that keeps the longest fitting part; non-trivial: the text is truncated and has escapes or wide characters")
{
    bool color = g.coin(); Mode m(color);
    std::vector<Gr> v; bool path = g.chance(40), extra = false;
    if (path) { if (g.chance(20)) v.push_back(gen_esc(g)); if (g.chance(80)) { v.push_back({ std::string(1, g.ch("cdZ")), 1, 0 }); if (g.chance(15)) v.push_back(gen_esc(g)); v.push_back({ ":", 1, 0 }); } }
    for (int n = g.size(14); n-- > 0;)
    {
        if (g.chance(20)) v.push_back(gen_esc(g));
        else if (path && g.chance(25)) v.push_back({ g.coin() ? "\\" : "/", 1, 0 });
        else v.push_back(g.chance(40) ? Gr{ std::string(1, g.ch("abcxyz ")), 1, 0 } : gen_gr(g, color, false));
    }
    for (auto& x : v) if (x.w != 1) extra = true;
    static const std::vector<Gr> ells[] = { { { "\xe2\x80\xa6", 1, 0 } }, { { "!", 1, 0 } }, { { ".", 1, 0 }, { ".", 1, 0 }, { ".", 1, 0 } }, {}, { { "\xe6\xbc\xa2", 2, 0 } }, { { "<", 1, 0 }, { "\xe6\xbc\xa2", 2, 0 }, { ">", 1, 0 } } };
    int ei = g.below(7); const std::vector<Gr>& e = ells[ei == 6 ? 0 : ei]; std::string es = bytes(e);
    int w = width(v), limit = g.chance(75) ? std::max(0, w - g.size(12)) : g.below(w + 4);
    std::string in = bytes(v);
    ellipsify_mode mode = ellipsify_mode(g.below(3));
    g.note("%s limit %d mode %d ellipsis %s", show(v).c_str(), limit, mode, esc(es).c_str());
    auto want = mode == RIGHT ? ref_right(v, limit, e) : mode == LEFT ? ref_left(v, limit, e) : ref_path(v, limit, e);
    std::string ws = bytes(want);
    if (w > limit && extra) g.nontrivial();
    str<> out("junk"); bool trunc = !g.coin();
    int got = ellipsify_ex(in.c_str(), limit, mode, out, ei == 6 ? nullptr : es.c_str(), false, &trunc);
    g.check(out.c_str() == ws, "gave %s want %s", esc(out.c_str()).c_str(), esc(ws).c_str());
    g.check(got == width(want), "returned %d want %d", got, width(want));
    g.check(trunc == (w > limit), "truncated is %d", trunc);
    g.check(cell_count(out.c_str()) <= unsigned(limit), "wider than the limit");
    // The simpler function.
    auto plain = ref_right(v, limit, ells[0]);
    str<> o2; int got2 = ellipsify(in.c_str(), limit, o2, false);
    g.check(o2.c_str() == bytes(plain) && got2 == width(plain), "ellipsify gave %s (%d) want %s (%d)", esc(o2.c_str()).c_str(), got2, esc(bytes(plain)).c_str(), width(plain));
}

PBT_PROP(C18, ctrl, 600000, 6000000, "texts with DEL characters that are shown as two cells, in every mode and with several ellipsis strings, against the same reference; non-trivial: truncated with such a character in the text")
{
    Mode m(false);
    std::vector<Gr> v; bool c = false; int del = g.chance(80) ? 2 : 1;
    if (g.chance(30)) { v.push_back({ "c", 1, 0 }); v.push_back({ ":", 1, 0 }); }
    for (int n = g.size(12); n-- > 0;) { if (g.chance(25)) { v.push_back({ "\x7f", del, 0 }); c = true; } else if (g.chance(15)) v.push_back(gen_esc(g)); else v.push_back({ std::string(1, g.ch("abc")), 1, 0 }); }
    // Control codes that are escape elements here.
    int w = width(v), limit = g.below(w + 2);
    std::vector<Gr> e = { { "\xe2\x80\xa6", 1, 0 } };
    if (g.coin()) e = { { ".", 1, 0 }, { ".", 1, 0 } };
    ellipsify_mode mode = ellipsify_mode(g.below(3));
    g.note("%s limit %d mode %d", show(v).c_str(), limit, mode);
    auto want = mode == RIGHT ? ref_right(v, limit, e) : mode == LEFT ? ref_left(v, limit, e) : ref_path(v, limit, e);
    str<> o; bool trunc = false; int got = ellipsify_ex(bytes(v).c_str(), limit, mode, o, bytes(e).c_str(), del == 2, &trunc);
    g.check(o.c_str() == bytes(want) && got == width(want) && trunc == (w > limit), "ellipsify_ex gave %s (%d) want %s (%d)", esc(o.c_str()).c_str(), got, esc(bytes(want)).c_str(), width(want));
    want = ref_right(v, limit, { { "\xe2\x80\xa6", 1, 0 } });
    got = ellipsify(bytes(v).c_str(), limit, o, del == 2);
    g.check(o.c_str() == bytes(want) && got == width(want), "ellipsify gave %s (%d) want %s (%d)", esc(o.c_str()).c_str(), got, esc(bytes(want)).c_str(), width(want));
    if (c && w > limit) g.nontrivial();
}
