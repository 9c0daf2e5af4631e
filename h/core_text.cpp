//: group=core with=heap.cpp lflags=-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=wcsdup
// C01 UTF conversion, C02 string buffers, C03 tokenising.
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/str_tokeniser.h>
#include "heap.h"
using namespace pbt;

//---- generators ---------------------------------------------------------------------------
static uint32_t gen_cp(Gen& g)
{
    static const uint32_t edges[] = { 'a', 1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };
    switch (g.below(8))
    {
    case 0: case 1: return 'a' + g.below(26);
    case 2: return edges[g.below(_countof(edges))];
    case 3: return 1 + g.below(0x7f);
    case 4: return 0x80 + g.below(0x800 - 0x80);
    case 5: { uint32_t c = 0x800 + g.below(0x10000 - 0x800 - 0x800); return c >= 0xd800 ? c + 0x800 : c; }
    default: return 0x10000 + g.below(0x100000);
    }
}
static std::string gen_utf8(Gen& g, int max = 40) { std::string s; for (int n = g.size(max); n-- > 0;) s += utf8_of(gen_cp(g)); return s; }
static std::wstring gen_w(Gen& g, int max = 40)
{
    // Any UTF-16, including unpaired surrogates.
    std::wstring s;
    for (int n = g.size(max); n-- > 0;)
    {
        uint32_t c;
        switch (g.below(6))
        {
        case 0: c = 0xd800 + (g.coin() ? g.below(0x400) : (g.coin() ? 0x3ff : 0)); s += wchar_t(c); break;
        case 1: c = 0xdc00 + (g.coin() ? g.below(0x400) : (g.coin() ? 0x3ff : 0)); s += wchar_t(c); break;
        default: s += ref_utf16(utf8_of(gen_cp(g)));
        }
    }
    return s;
}
static bool well_formed_utf8(const std::string& s)
{
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        for (int k = 1; k < n; ++k) if ((s[i + k] & 0xc0) != 0x80) return false;
        uint32_t cp = cps_of(s.substr(i, n))[0];
        if ((n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) || (n == 4 && (cp < 0x10000 || cp > 0x10ffff))) return false;
        i += n;
    }
    return true;
}

//---- C01 ----------------------------------------------------------------------------------
PBT_PROP(C01, roundtrip, 1800000, 36000000, "random valid Unicode text (all planes, boundary code points) converted UTF-8 -> UTF-16 -> UTF-8 and compared with an independent converter; non-trivial: has a non-ASCII code point")
{
    std::string s = gen_utf8(g);
    g.note("%s", esc(s).c_str());
    std::vector<uint32_t> cps = cps_of(s);
    bool nonascii = false, astral = false;
    for (uint32_t c : cps) { nonascii |= c > 0x7f; astral |= c > 0xffff; }
    if (nonascii) g.nontrivial();
    if (astral) g.label("astral");
    std::wstring want = ref_utf16(s);
    wstr<16> w;
    int n = to_utf16(w, s.c_str());
    g.check(w.c_str() == want, "to_utf16 gave %s want %s", esc(std::wstring(w.c_str())).c_str(), esc(want).c_str());
    g.check(n == int(want.size()) && w.length() == want.size(), "to_utf16 returned %d, length %u, want %u", n, w.length(), unsigned(want.size()));
    str<16> back;
    n = to_utf8(back, w.c_str());
    g.check(back.c_str() == s && n == int(s.size()) && back.length() == s.size(), "round trip gave %s (returned %d)", esc(back.c_str()).c_str(), n);
    g.check(char_count(s.c_str()) == cps.size(), "char_count %u want %u", char_count(s.c_str()), unsigned(cps.size()));
    g.check(char_count(want.c_str()) == cps.size(), "char_count(wide) %u want %u", char_count(want.c_str()), unsigned(cps.size()));
    // Appending conversions.
    str<8> a("x"); to_utf8(a, w.c_str());
    g.check(a.c_str() == "x" + s, "append to_utf8 gave %s", esc(a.c_str()).c_str());
    wstr<8> b(L"x"); to_utf16(b, s.c_str());
    g.check(b.c_str() == L"x" + want, "append to_utf16 gave %s", esc(std::wstring(b.c_str())).c_str());
    // Explicit lengths on code point boundaries.
    if (!cps.empty())
    {
        size_t k = g.below(cps.size() + 1);
        std::string p; for (size_t i = 0; i < k; ++i) p += utf8_of(cps[i]);
        if (k)
        {
            wstr<> wl; n = to_utf16(wl, s.c_str(), int(p.size()));
            g.check(wl.c_str() == ref_utf16(p), "to_utf16 with length %u gave %s", unsigned(p.size()), esc(std::wstring(wl.c_str())).c_str());
            str<> sl; n = to_utf8(sl, want.c_str(), int(ref_utf16(p).size()));
            g.check(sl.c_str() == p, "to_utf8 with length gave %s", esc(sl.c_str()).c_str());
        }
    }
    str<4> f; f.from_utf16(want.c_str()); g.check(f.c_str() == s, "from_utf16");
    wstr<4> fw; fw.from_utf8(s.c_str()); g.check(fw.c_str() == want, "from_utf8");
}

PBT_PROP(C01, iterate, 1800000, 36000000, "code-point iteration over valid text with peek/next/reset/truncate against the list of code points, input ending at an inaccessible page; non-trivial: text has multi-byte code points and a limit or a reset was used")
{
    std::string s = gen_utf8(g, 20);
    std::vector<uint32_t> cps = cps_of(s);
    bool limited = g.coin();
    size_t lim = limited ? g.below(cps.size() + 1) : cps.size();
    bool wide = g.coin();
    std::vector<size_t> pos;        // unit offset of each code point
    std::wstring w = ref_utf16(s);
    size_t o = 0;
    for (uint32_t c : cps) { pos.push_back(o); o += wide ? (c > 0xffff ? 2 : 1) : utf8_of(c).size(); }
    pos.push_back(o);
    g.note("%s wide=%d limit=%d", esc(s).c_str(), wide, limited ? int(lim) : -1);
    bool moved = false;
    auto drive = [&](auto& it, auto* base) {
        size_t i = 0;
        for (int step = 0; step < 60; ++step)
        {
            bool more = i < lim;
            g.check(it.more() == more, "more() at %u is %d", unsigned(i), it.more());
            g.check(size_t(it.get_pointer() - base) == pos[i], "pointer offset %d want %u", int(it.get_pointer() - base), unsigned(pos[i]));
            g.check(it.length() == pos[lim] - pos[i], "length() %u want %u", it.length(), unsigned(pos[lim] - pos[i]));
            switch (g.below(8))
            {
            default: {
                uint32_t c = it.next();
                g.check(c == (more ? cps[i] : 0), "next() gave %x want %x", c, more ? cps[i] : 0);
                if (more) ++i; else return;
                break; }
            case 5: { uint32_t c = it.peek(); g.check(c == (more ? cps[i] : 0), "peek() gave %x", c); break; }
            case 6: if (more) { g.check(size_t(it.get_next_pointer() - base) == pos[i + 1], "get_next_pointer"); } break;
            case 7: {
                if (g.coin()) { size_t b = g.below(i + 1); it.reset_pointer(base + pos[b]); i = b; }
                else { size_t nl = i + g.below(lim - i + 1); if (pos[nl] == pos[i] && !limited) break; it.truncate(uint32(pos[nl] - pos[i])); lim = nl; limited = true; }
                moved = true;
                break; }
            }
        }
    };
    if (wide)
    {
        GuardBuf b((w.size() + 1) * 2);
        memcpy(b.p(), w.c_str(), (w.size() + 1) * 2);
        wstr_iter it(b.w(), limited ? int(pos[lim]) : -1);
        drive(it, (const wchar_t*)b.w());
    }
    else
    {
        GuardBuf b(s.size() + 1);
        memcpy(b.p(), s.c_str(), s.size() + 1);
        str_iter it(b.p(), limited ? int(pos[lim]) : -1);
        drive(it, (const char*)b.p());
    }
    if (o > cps.size() && (limited || moved)) g.nontrivial();
}

PBT_PROP(C01, illformed, 1200000, 24000000, "arbitrary UTF-16 with unpaired surrogates: result is well-formed UTF-8 in which well-formed runs are kept and each ill-formed run became U+FFFD; non-trivial: has an unpaired surrogate")
{
    std::wstring w = gen_w(g, 20);
    g.note("%s", esc(w).c_str());
    str<16> out;
    int n = to_utf8(out, w.c_str());
    std::string o = out.c_str();
    g.check(well_formed_utf8(o), "ill-formed UTF-8: %s", esc(o).c_str());
    g.check(n == int(o.size()), "returned %d for %u bytes", n, unsigned(o.size()));
    // Split w in well-formed pieces separated by ill-formed surrogates.
    std::vector<std::string> pieces(1); bool bad = false;
    for (size_t i = 0; i < w.size(); ++i)
    {
        uint32_t c = w[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < w.size() && w[i + 1] >= 0xdc00 && w[i + 1] < 0xe000)
        { pieces.back() += ref_utf8(w.substr(i, 2)); ++i; }
        else if (c >= 0xd800 && c < 0xe000) { pieces.push_back(""); bad = true; }
        else pieces.back() += utf8_of(c);
    }
    if (bad) g.nontrivial(); else g.check(o == pieces[0], "well-formed text changed: %s", esc(o).c_str());
    // The pieces appear in order, separated by U+FFFD.
    std::string want;
    for (size_t i = 0; i < pieces.size(); ++i) want += (i ? "\xef\xbf\xbd" : "") + pieces[i];
    g.check(o == want, "gave %s want %s", esc(o).c_str(), esc(want).c_str());
}

PBT_PROP(C01, fixed, 1200000, 24000000, "conversion into fixed buffers of every size with inaccessible memory after and watched memory before them: result is the full conversion when it fits, else a prefix of it, NUL-terminated; non-trivial: truncated, or exactly full")
{
    std::string s = gen_utf8(g, 12);
    std::wstring w = ref_utf16(s);
    bool to8 = g.coin();
    int full = to8 ? int(s.size()) : int(w.size());
    int size = g.chance(50) ? 1 + int(g.below(full + 4)) : std::max(1, full - 1 + int(g.below(4)));
    int via = int(g.below(3));
    g.note("%s to_utf%d size=%d full=%d via=%d", esc(s).c_str(), to8 ? 8 : 16, size, full, via);
    if (size <= full + 1) g.nontrivial();
    g.label(size <= full ? "truncated" : size == full + 1 ? "exact" : "roomy");
    if (to8)
    {
        GuardBuf b(size);
        int n;
        if (via == 0) n = to_utf8(b.p(), size, w.c_str());
        else if (via == 1) { wstr_iter it(w.c_str()); n = to_utf8(b.p(), size, it); }
        else { str_base sb(b.p(), size); sb.clear(); n = to_utf8(sb, w.c_str()); }
        g.check(b.intact(), "wrote before the buffer");
        g.check(memchr(b.p(), 0, size) != nullptr, "not terminated");
        std::string want = s.substr(0, std::min(full, size - 1));
        g.check(b.p() == want && n == int(want.size()), "gave %s (%d)", esc(b.p()).c_str(), n);
        wstr_iter c(w.c_str());
        g.check(to_utf8(nullptr, 0, c) == full, "needed size");
    }
    else
    {
        GuardBuf b(size * 2);
        int n;
        if (via == 0) n = to_utf16(b.w(), size, s.c_str());
        else if (via == 1) { str_iter it(s.c_str()); n = to_utf16(b.w(), size, it); }
        else { wstr_base sb(b.w(), size); sb.clear(); n = to_utf16(sb, s.c_str()); }
        g.check(b.intact(), "wrote before the buffer");
        g.check(wmemchr(b.w(), 0, size) != nullptr, "not terminated");
        std::wstring want = w.substr(0, std::min(full, size - 1));
        g.check(b.w() == want && n == int(want.size()), "gave %s (%d)", esc(std::wstring(b.w())).c_str(), n);
        str_iter c(s.c_str());
        g.check(to_utf16(nullptr, 0, c) == full, "needed size");
    }
}

//---- C02 ----------------------------------------------------------------------------------
template <class T> struct Tr;
template <> struct Tr<char> {
    typedef std::string S; typedef str_base base;
    typedef str<8> G8; typedef str<100> G100; typedef str<9, false> F; typedef str_moveable M;
    static S cv(const std::string& s) { return s; }
};
template <> struct Tr<wchar_t> {
    typedef std::wstring S; typedef wstr_base base;
    typedef wstr<8> G8; typedef wstr<100> G100; typedef wstr<9, false> F; typedef wstr_moveable M;
    static S cv(const std::string& s) { return ref_utf16(s); }
};
template <class S> static std::string short_esc(const S& s) { return s.size() > 200 ? esc(s.substr(0, 60)) + "...(" + std::to_string(s.size()) + ")" : esc(s); }

template <class T> static void c02(Gen& g)
{
    typedef Tr<T> X; typedef typename X::S S; typedef typename X::base B;
    HeapGuard hg;
    {
    typename X::G8 a, b; typename X::G100 c, d; typename X::F f; typename X::M m, n;
    B* obj[7] = { &a, &b, &c, &d, &f, &m, &n };
    static const char* names[7] = { "grow8.0", "grow8.1", "grow100.0", "grow100.1", "fixed9", "mov.0", "mov.1" };
    S model[7];
    bool big = g.chance(4);
    int steps = 1 + g.size(30);
    int grown = 0, trunc = 0;
    auto piece = [&]() -> S {
        std::string s;
        if (big && g.chance(40)) { s.assign(20000 + g.below(45600), char('a' + g.below(3))); return X::cv(s); }
        int k = int(g.weighted({6, 2, 1}));
        if (k == 0) s = g.text("abAB  \t\"\r\n\\/-_%", 12);
        else if (k == 1) s = g.text("xy", 200);
        else s = gen_utf8(g, 6);
        return X::cv(s);
    };
    // Checks an append of 'add' to model i which returned ok.
    auto appended = [&](int i, const S& add, bool ok, bool all_or_nothing, const char* what) {
        S want = model[i] + add;
        uint32_t size = obj[i]->size();
        if (ok) { g.check(want.size() < size, "%s succeeded but the buffer is too small", what); model[i] = want; return; }
        ++trunc;
        g.check(want.size() + 1 > size, "%s reported truncation though it fits (size %u need %u)", what, size, unsigned(want.size()));
        g.check(i == 4 || want.size() + 1 > 65472, "%s did not grow", what);
        if (!all_or_nothing) model[i] = want.substr(0, size - 1);
    };
    for (int k = 0; k < steps; ++k)
    {
        int i = int(g.below(7));
        B& o = *obj[i];
        int op = int(g.below(19));
        uint32_t before = o.size();
        switch (op)
        {
        case 0: case 1: { S p = piece(); g.note("%s concat %s", names[i], short_esc(p).c_str()); appended(i, p, o.concat(p.c_str()), false, "concat"); break; }
        case 2: { S p = piece(); int len = int(g.below(p.size() + 1)); g.note("%s concat %s,%d", names[i], short_esc(p).c_str(), len); appended(i, p.substr(0, len), o.concat(p.c_str(), len), false, "concat n"); break; }
        case 3: { S p = piece(); int len = int(g.below(p.size() + 1)); g.note("%s concat_no_truncate %s,%d", names[i], short_esc(p).c_str(), len); appended(i, p.substr(0, len), o.concat_no_truncate(p.c_str(), len), true, "concat_no_truncate"); break; }
        case 4: { S p = piece(); g.note("%s copy %s", names[i], short_esc(p).c_str()); model[i].clear(); appended(i, p, o.copy(p.c_str()), false, "copy"); break; }
        case 5: { S p = piece(); g.note("%s << %s", names[i], short_esc(p).c_str()); o << p.c_str(); S want = model[i] + p; appended(i, p, want.size() < o.size(), false, "<<"); break; }
        case 6: { int j = int(g.below(7)); g.note("%s << %s", names[i], names[j]); S add = model[j]; if (i == j) { g.note("(skipped)"); break; } o << *obj[j]; S want = model[i] + add; appended(i, add, want.size() < o.size(), true, "<< str"); break; }
        case 7: {   // formatted
            S p = piece(); int v = int(g.below(100000)) - 50000; bool app = g.coin();
            S add; std::string num = std::to_string(v);
            add = X::cv("<") + X::cv(num) + X::cv(":") + p + X::cv(">");
            bool ok;
            g.note("%s %s <%d:%s>", names[i], app ? "format_append" : "format", v, short_esc(p).c_str());
            if (!app) model[i].clear();
            if constexpr (sizeof(T) == 1)
                ok = app ? o.format_append("<%d:%s>", v, p.c_str()) : o.format("<%d:%s>", v, p.c_str());
            else
            {
                if (i == 4 || model[i].size() + add.size() > 60000) { o.clear(); model[i].clear(); break; }  // wide formatting is used on growable strings only
                ok = app ? o.format_append(L"<%d:%ls>", v, p.c_str()) : o.format(L"<%d:%ls>", v, p.c_str());
            }
            appended(i, add, ok, false, "format");
            break; }
        case 8: { int pos = int(g.below(model[i].size() + 1)); if (pos >= int(o.size())) break; g.note("%s truncate %d", names[i], pos); o.truncate(pos); model[i].resize(pos); break; }
        case 9: {
            g.note("%s trim", names[i]); o.trim(); S& s = model[i];
            while (!s.empty() && wcschr(L" \t\r\n", s.back())) s.pop_back();
            while (!s.empty() && (s[0] == ' ' || s[0] == '\t')) s.erase(0, 1);
            break; }
        case 10: g.note("%s clear", names[i]); o.clear(); model[i].clear(); break;
        case 11: { uint32_t r = g.below(300); g.note("%s reserve %u", names[i], r); bool ok = o.reserve(r); g.check(ok == (o.size() > r), "reserve"); break; }
        case 12: {  // move between same kinds
            g.note("move pair %d", i / 2);
            if (i <= 1) { a = std::move(b); model[0] = model[1]; if (g.coin()) { b = S().c_str(); model[1].clear(); } else { model[1] = S(b.c_str()); g.check(model[1].empty() || model[1] == model[0], "moved-from content"); } }
            else if (i <= 3) { d = std::move(c); model[3] = model[2]; c.clear(); model[2].clear(); }
            else if (i >= 5) { m = std::move(n); model[5] = model[6]; model[6].clear(); }
            break; }
        case 13: if (i >= 5 && !model[i].empty()) {   // detach
            g.note("%s detach", names[i]);
            T* p = i == 5 ? m.detach() : n.detach();
            g.check(S(p) == model[i], "detached text differs"); free(p); model[i].clear();
            break; }
            if (i >= 5) { g.note("%s free", names[i]); if (i == 5) m.free(); else n.free(); model[i].clear(); break; }
            break;
        case 14: {  // attach
            S p = piece(); T* q = (T*)malloc((p.size() + 1) * sizeof(T)); memcpy(q, p.c_str(), (p.size() + 1) * sizeof(T));
            if (p.size() + 1 > 65535) { free(q); break; }
            g.note("%s attach %s", names[i], short_esc(p).c_str());
            o.attach(q, uint32_t(p.size() + 1)); model[i].clear();
            if (i == 4) { model[i] = p.substr(0, 8); } else model[i] = p;
            break; }
        case 15: {  // conversion
            std::string p = gen_utf8(g, 20);
            g.note("%s convert %s", names[i], esc(p).c_str());
            S full;
            if constexpr (sizeof(T) == 1) { full = p; o.from_utf16(ref_utf16(p).c_str()); } else { full = ref_utf16(p); o.from_utf8(p.c_str()); }
            model[i] = i == 4 ? full.substr(0, 8) : full;
            break; }
        case 16: {  // direct access, as callers do with data()
            if (model[i].empty()) break;
            size_t pos = g.below(model[i].size()); g.note("%s data()[%u]=z", names[i], unsigned(pos));
            o.data()[pos] = 'z'; model[i][pos] = 'z'; break; }
        case 17: {
            if constexpr (sizeof(T) == 1) {
                if (g.coin()) { unsigned cnt = g.below(80); g.note("%s concat_spaces %u", names[i], cnt); concat_spaces(o, cnt); std::string w2 = model[i] + std::string(cnt, ' '); model[i] = w2.substr(0, std::min<size_t>(w2.size(), o.size() - 1)); }
                else { S p = piece(); g.note("%s concat_strip_quotes %s", names[i], short_esc(p).c_str()); concat_strip_quotes(o, p.c_str(), uint32_t(p.size())); std::string q; for (char ch : p) if (ch != '"') q += ch; std::string w2 = model[i] + q; model[i] = w2.substr(0, std::min<size_t>(w2.size(), o.size() - 1)); g.check(i == 4 || w2.size() < 65472 ? i == 4 || model[i].size() == w2.size() : true, "concat_strip_quotes truncated"); }
            } else {
                o << L"lit"; g.note("%s << lit", names[i]); S w2 = model[i] + S(L"lit"); model[i] = w2.substr(0, std::min<size_t>(w2.size(), o.size() - 1));
            }
            break; }
        case 18: {
            // A char array bigger than its text.
            T buf[10] = {}; buf[0] = 'q'; int len = int(g.below(9)); for (int q = 0; q < len; ++q) buf[q] = T('a' + q); buf[len] = 0;
            g.note("%s << array %d", names[i], len);
            S full = model[i] + S(buf); o << buf; model[i] = full.substr(0, std::min<size_t>(full.size(), o.size() - 1));
            break; }
        }
        if (o.size() > before) ++grown;
        for (int j = 0; j < 7; ++j)
        {
            B& q = *obj[j];
            if (g.coin()) g.check(q.length() == model[j].size(), "%s length() %u want %u", names[j], q.length(), unsigned(model[j].size()));
            g.check(S(q.c_str()) == model[j], "%s is '%s' want '%s'", names[j], short_esc(S(q.c_str())).c_str(), short_esc(model[j]).c_str());
            g.check(q.empty() == model[j].empty(), "%s empty()", names[j]);
            g.check(q.length() == model[j].size(), "%s length() %u want %u", names[j], q.length(), unsigned(model[j].size()));
        }
        B& q = *obj[i];
        size_t at = g.below(model[i].size() + 3);
        g.check(q[uint32_t(at)] == (at < model[i].size() ? model[i][at] : 0), "operator[]");
        T needle = T(g.ch("ab\" z"));
        size_t fo = model[i].find(needle), lo = model[i].rfind(needle);
        g.check(q.first_of(needle) == (fo == S::npos ? -1 : int(fo)) && q.last_of(needle) == (lo == S::npos ? -1 : int(lo)), "first_of/last_of");
        int j = int(g.below(7));
        g.check(q.equals(obj[j]->c_str()) == (model[i] == model[j]), "equals");
    }
    if (steps > 2 && (grown || trunc)) g.nontrivial();
    if (grown) g.label("grew"); if (trunc) g.label("truncated"); if (big) g.label("near 64K limit");
    }
}
PBT_PROP(C02, narrow, 120000, 2500000, "operation sequences over seven narrow string buffers (growable, fixed-size, moveable) against std::string, guarded heap; non-trivial: more than two steps with a growth or a truncation") { c02<char>(g); }
PBT_PROP(C02, wide, 120000, 2500000, "the same over wide strings") { c02<wchar_t>(g); }

//---- C03 ----------------------------------------------------------------------------------
template <class T> static void c03(Gen& g)
{
    typedef Tr<T> X; typedef typename X::S S;
    // Delimiters and quotes from a small alphabet, so that they collide and nest.
    static const char* delimsets[] = { " ", " \t", ",", ",; ", "x", "=;,|", "\\/", "ab", "" };
    std::string delims = delimsets[g.below(_countof(delimsets))];
    static const char* quotepairs[] = { "\"", "'", "()", "[]", "<>", "xx", "||" , "`'" };
    std::vector<std::string> quotes;
    for (int n = int(g.below(6)); n-- > 0;) quotes.push_back(quotepairs[g.below(_countof(quotepairs))]);
    std::string u;
    for (int n = g.coin() ? int(g.below(41)) : g.size(40); n-- > 0;)
        switch (g.below(5))
        {
        case 4:
        case 0: u += delims.empty() ? 'a' : delims[g.below(delims.size())]; break;
        case 1: if (!quotes.empty()) { auto& q = quotes[g.below(quotes.size())]; u += q[g.below(q.size())]; } break;
        case 2: u += 'a' + char(g.below(3)); break;
        default: u += g.chance(30) ? utf8_of(gen_cp(g)) : std::string(1, g.ch("ab \"'()[]x,;=|")); break;
        }
    S s = X::cv(u);
    bool limited = g.chance(30);
    // The limit is on a code point boundary.
    std::vector<uint32_t> cps = cps_of(u);
    if (limited) { std::string p; size_t k = cps.empty() ? 0 : 1 + g.below(cps.size()); for (size_t i = 0; i < k && i < cps.size(); ++i) p += utf8_of(cps[i]); S lim = X::cv(p); if (lim.empty()) limited = false; else { GuardBuf dummy(1); (void)dummy; s = s; u = p; cps = cps_of(u); } }
    S whole = s; s = X::cv(u);
    g.note("'%s' delims='%s' quotes=%u limited=%d wide=%d", esc(u).c_str(), esc(delims).c_str(), unsigned(quotes.size()), limited, int(sizeof(T) > 1));
    for (auto& q : quotes) g.note("  quote %s", q.c_str());
    GuardBuf buf((whole.size() + 1) * sizeof(T));
    memcpy(buf.p(), whole.c_str(), (whole.size() + 1) * sizeof(T));
    const T* base = (const T*)buf.p();
    str_iter_impl<T> it(base, limited ? int(s.size()) : -1);
    str_tokeniser_impl<T> tok(it, delims.c_str());
    std::vector<std::pair<char, char>> accepted;
    for (auto& q : quotes)
    {
        bool ok = tok.add_quote_pair(q.c_str());
        g.check(ok == (accepted.size() < 4), "add_quote_pair");
        if (ok) accepted.push_back({q[0], q.size() > 1 ? q[1] : q[0]});
    }
    // Reference.
    struct Tok { char delim; size_t at; S text; };
    std::vector<Tok> want;
    auto isdelim = [&](T c) { return c && c < 0x80 && delims.find(char(c)) != std::string::npos; };
    size_t i = 0; bool quoted = false;
    while (true)
    {
        char d = 0;
        while (i < s.size() && isdelim(s[i])) d = char(s[i++]);
        size_t st = i; char close = 0;
        for (; i < s.size(); ++i)
        {
            if (close) { if (s[i] == T(close)) close = 0; continue; }
            if (isdelim(s[i])) break;
            for (auto& q : accepted) if (s[i] == T(q.first)) { close = q.second; quoted = true; break; }
        }
        if (i == st) break;
        want.push_back({d, st, s.substr(st, i - st)});
    }
    int mode = int(g.below(3));
    for (size_t k = 0; k < want.size(); ++k)
    {
        str_token t(0);
        if (mode == 0) { typename X::G8 out; t = tok.next(out); g.check(S(out.c_str()) == want[k].text, "token %u is '%s' want '%s'", unsigned(k), esc(S(out.c_str())).c_str(), esc(want[k].text).c_str()); }
        else if (mode == 1) { const T* st; int len; t = tok.next(st, len); g.check(size_t(st - base) == want[k].at && size_t(len) == want[k].text.size(), "token %u at %d+%d want %u+%u", unsigned(k), int(st - base), len, unsigned(want[k].at), unsigned(want[k].text.size())); }
        else { str_iter_impl<T> o; t = tok.next(o); g.check(bool(t) && size_t(o.get_pointer() - base) == want[k].at && o.length() == want[k].text.size(), "token %u iter", unsigned(k)); }
        g.check(bool(t), "token %u missing", unsigned(k));
        g.check(char(t.delim) == want[k].delim, "token %u delim '%c' want '%c'", unsigned(k), t.delim, want[k].delim);
        g.check(size_t(tok.get_pointer() - base) == want[k].at + want[k].text.size(), "pointer after token %u", unsigned(k));
    }
    for (int e = 0; e < 2; ++e) { typename X::G8 out; g.check(!tok.next(out) && out.empty(), "token after the end: '%s'", esc(S(out.c_str())).c_str()); }
    if (want.size() > 1 && quoted) g.nontrivial();
    g.label(want.empty() ? "none" : want.size() == 1 ? "one" : "several"); if (quoted) g.label("quoted");
}
PBT_PROP(C03, narrow, 2400000, 48000000, "strings built from delimiters, quotes, letters and non-ASCII code points, with 0-5 quote pairs and optional length limit, against a reference splitter; non-trivial: several tokens and a quoted region") { c03<char>(g); }
PBT_PROP(C03, wide, 2400000, 48000000, "the same over wide strings") { c03<wchar_t>(g); }
