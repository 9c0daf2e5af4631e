// Reference folding and wildcard matching, shared by C05, C07 and C22.
#pragma once
#include "accents.h"
static bool sepc(int c) { return c == '/' || c == '\\'; }
static const struct { uint32_t up, lo; } c_case[] = { {0xd8,0xf8},{0xc9,0xe9},{0xc4,0xe4},{0xd1,0xf1},{0x100,0x101},{0x141,0x142},{0x3a9,0x3c9},{0x394,0x3b4},{0x414,0x434},{0x416,0x436},{0x1ea2-2,0x1ea1},{0x1ef2,0x1ef3} };
static uint32_t ref_lower(uint32_t c)
{
    if (c >= 'A' && c <= 'Z') return c + 32;
    for (auto& x : c_case) if (x.up == c) return x.lo;
    return c;
}
static uint32_t ref_base(uint32_t c) { for (auto& a : c_accents) if (a.c == c) return a.base; return c; }
static bool eqc(uint32_t a, uint32_t b, int mode, bool fuzzy, bool exact_slash = false)
{
    if (mode > 0) a = ref_lower(a), b = ref_lower(b);
    if (mode > 1) { if (a == '-') a = '_'; if (b == '-') b = '_'; }
    if (!exact_slash) { if (a == '\\') a = '/'; if (b == '\\') b = '/'; }
    return a == b || (fuzzy && ref_base(a) == ref_base(b));
}
// Characters that relate to each other under some folding.
static uint32_t fold_cp(Gen& g)
{
    switch (g.below(10))
    {
    case 0: case 1: case 2: return 'a' + g.below(3);
    case 3: return 'A' + g.below(3);
    case 4: return g.coin() ? '-' : '_';
    case 5: { auto& x = c_case[g.below(_countof(c_case))]; return g.coin() ? x.lo : x.up; }
    case 6: return "eEnNaAlLyYsS"[g.below(12)];
    case 7: return '.';
    case 8: { static const uint32_t v[] = { 0x1f600, 0x1f601, 0x10400, 0x4e00, 0x65e5, 0xdf, 0xd8, 0xf8, 0x131, 0xfb01, '~', ' ', '1' }; return v[g.below(_countof(v))]; }
    default: return 'e';
    }
}
static std::string u8(const std::vector<uint32_t>& v) { std::string s; for (auto c : v) s += utf8_of(c); return s; }
// A variant of c, usually equal to it under some mode.
static uint32_t vary(Gen& g, uint32_t c)
{
    switch (g.below(6))
    {
    case 1: { uint32_t l = ref_lower(c); if (l != c) return l; for (auto& x : c_case) if (x.lo == c) return x.up; return c >= 'a' && c <= 'z' ? c - 32 : c; }
    case 2: return c == '-' ? '_' : c == '_' ? '-' : c == '/' ? '\\' : c == '\\' ? '/' : c;
    case 3: return ref_base(c);
    case 4: { int n = g.below(_countof(c_accents)); for (int i = 0; i < int(_countof(c_accents)); ++i) { auto& a = c_accents[(i + n) % _countof(c_accents)]; if (uint32_t(a.base) == c && ref_lower(a.c) != a.c) return c; if (uint32_t(a.base) == c) { bool plain = false; for (auto& x : c_case) plain |= x.lo == a.c; if (plain || a.base >= 'a') return a.c; } } return c; }
    default: return c;
    }
}

struct WildModel
{
    std::vector<uint32_t> p, f; int mode; bool fuzzy, dot; int star; // 0 no, 1 yes, 2 at_end
    size_t fp = 0, ff = 0; bool final_wild = false;
    std::map<std::pair<size_t, size_t>, bool> memo;
    void init()
    {
        for (size_t i = 0; i < p.size(); ++i) if (sepc(p[i])) fp = i + 1, final_wild = false; else if (p[i] == '?' || p[i] == '*') final_wild = true;
        for (size_t i = 0; i < f.size(); ++i) if (sepc(f[i])) ff = i + 1;
    }
    bool lit(size_t i, size_t j)
    {
        if (j >= f.size()) return false;
        if (dot && final_wild && i == fp && j == ff && p[i] != '.') while (j < f.size() && f[j] == '.') ++j;
        if (j >= f.size() || !eqc(p[i], f[j], mode, fuzzy)) return false;
        bool s = sepc(p[i]);
        ++i; ++j;
        if (s) { while (i < p.size() && sepc(p[i])) ++i; while (j < f.size() && sepc(f[j])) ++j; }
        return m(i, j);
    }
    bool m(size_t i, size_t j)
    {
        auto k = std::make_pair(i, j);
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        bool r = false;
        if (i == p.size()) r = j == f.size();
        else if (p[i] == '?') r = !(j < f.size() && sepc(f[j])) && m(i + 1, j + (j < f.size()));
        else if (p[i] == '*')
        {
            size_t n = i;
            while (n < p.size() && (p[n] == '*' || p[n] == '?')) ++n;
            if (n == p.size() && star) r = true;
            else for (;; ++j)
            {
                if (n == p.size() ? j == f.size() : lit(n, j)) { r = true; break; }
                if (j >= f.size() || (star != 1 && sepc(f[j]))) break;
            }
        }
        else r = lit(i, j);
        return memo[k] = r;
    }
};

