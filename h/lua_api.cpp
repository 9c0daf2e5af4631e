//: group=full
// C30 the string, path and Unicode functions for scripts.
#include <core/base.h>
#include <core/str.h>
#include <core/str_compare.h>
#include <core/str_hash.h>
#include <core/path.h>
#include <core/settings.h>
#include <core/os.h>
#include <lua/lua_state.h>
#include <lib/matches.h>
#include <lib/ellipsify.h>
#include <terminal/ecma48_iter.h>
#include "../wildmatch/wildmatch/wildmatch.h"
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
using namespace pbt;
#include "ref_match.h"
extern bool g_color_emoji;

static lua_state* s_lua;
static void init() { str_compare_scope _(str_compare_scope::exact, false); s_lua = new lua_state; }
static struct Init { Init() { g_init = init; } } s_i;

struct Val
{
    enum K { Nil, Bool, Num, Str, Tab, Fun } k = Nil; bool b = false; double n = 0; std::string s; std::vector<Val> t;
    Val() {} Val(const std::string& x) : k(Str), s(x) {} Val(const char* x) : k(Str), s(x) {} Val(double x) : k(Num), n(x) {} Val(int x) : k(Num), n(x) {} Val(uint32_t x) : k(Num), n(x) {} Val(bool x) : k(Bool), b(x) {}
    std::string show() const
    {
        char z[64];
        switch (k) { case Nil: return "nil"; case Bool: return b ? "true" : "false"; case Num: snprintf(z, 64, "%.14g", n); return z; case Str: return esc(s); case Fun: return "function"; default: { std::string r = "{"; for (auto& x : t) r += x.show() + ","; return r + "}"; } }
    }
    bool operator==(const Val& o) const { return k == o.k && b == o.b && n == o.n && s == o.s && t == o.t; }
};
typedef std::vector<Val> Vals;
static std::string show(const Vals& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : ", ") + x.show(); return "(" + r + ")"; }
static void push(lua_State* L, const Val& v)
{
    switch (v.k)
    {
    case Val::Nil: lua_pushnil(L); break;
    case Val::Bool: lua_pushboolean(L, v.b); break;
    case Val::Num: lua_pushnumber(L, v.n); break;
    case Val::Str: lua_pushlstring(L, v.s.data(), v.s.size()); break;
    case Val::Fun: lua_getglobal(L, "tostring"); break;
    default: lua_createtable(L, 0, 0); for (size_t i = 0; i < v.t.size(); ++i) { push(L, v.t[i]); lua_rawseti(L, -2, int(i + 1)); } break;
    }
}
static Val get(lua_State* L, int i)
{
    Val v; size_t n;
    switch (lua_type(L, i))
    {
    case LUA_TBOOLEAN: v = Val(!!lua_toboolean(L, i)); break;
    case LUA_TNUMBER: v = Val(double(lua_tonumber(L, i))); break;
    case LUA_TSTRING: { const char* s = lua_tolstring(L, i, &n); v = Val(std::string(s, n)); break; }
    case LUA_TFUNCTION: v.k = Val::Fun; break;
    case LUA_TTABLE: v.k = Val::Tab; for (int j = 1; ; ++j) { lua_rawgeti(L, i, j); bool nil = lua_isnil(L, -1); if (!nil) v.t.push_back(get(L, lua_gettop(L))); lua_pop(L, 1); if (nil) break; } break;
    }
    return v;
}
static bool fetch(lua_State* L, const char* fn)
{
    std::string f(fn); size_t d = f.find('.');
    lua_getglobal(L, f.substr(0, d).c_str());
    lua_getfield(L, -1, f.substr(d + 1).c_str());
    lua_remove(L, -2);
    return lua_isfunction(L, -1);
}
static std::string s_err;
// Calls the function; false if it raised an error.
static bool call(Gen& g, const char* fn, const Vals& a, Vals& out)
{
    lua_State* L = s_lua->get_state();
    int top = lua_gettop(L);
    g.check(fetch(L, fn), "%s is not there", fn);
    for (auto& v : a) push(L, v);
    bool ok = lua_pcall(L, int(a.size()), LUA_MULTRET, 0) == 0;
    out.clear();
    for (int i = top + 1; i <= lua_gettop(L); ++i) out.push_back(get(L, i));
    if (!ok) { s_err = out.empty() ? "" : out[0].s; out.clear(); }
    lua_settop(L, top);
    return ok;
}
static Vals want_call(Gen& g, const char* fn, const Vals& a)
{
    Vals r;
    if (!call(g, fn, a, r)) g.fail("%s%s raised an error: %s", fn, show(a).c_str(), s_err.c_str());
    return r;
}
static void want(Gen& g, const char* fn, const Vals& a, const Vals& w)
{
    Vals r = want_call(g, fn, a);
    if (!(r == w)) g.fail("%s%s returned %s, want %s", fn, show(a).c_str(), show(r).c_str(), show(w).c_str());
}
// Runs an iterator to its end.
static std::vector<Vals> iterate(Gen& g, const char* fn, const std::string& text)
{
    lua_State* L = s_lua->get_state();
    int top = lua_gettop(L);
    g.check(fetch(L, fn), "%s is not there", fn);
    push(L, Val(text));
    if (lua_pcall(L, 1, 1, 0)) g.fail("%s raised an error", fn);
    g.check(lua_isfunction(L, -1), "%s did not return a function", fn);
    std::vector<Vals> r;
    for (size_t n = 0; ; ++n)
    {
        g.check(n <= text.size(), "%s does not end", fn);
        lua_pushvalue(L, top + 1);
        int t = lua_gettop(L);
        if (lua_pcall(L, 0, LUA_MULTRET, 0)) g.fail("%s iterator raised an error", fn);
        Vals v; for (int i = t; i <= lua_gettop(L); ++i) v.push_back(get(L, i));
        lua_settop(L, t - 1);
        if (v.empty() || v[0].k == Val::Nil) break;
        r.push_back(v);
    }
    lua_settop(L, top);
    return r;
}
static std::string text(Gen& g, int n = 12) { std::vector<uint32_t> v; for (int i = g.size(n); i-- > 0;) v.push_back(fold_cp(g)); return u8(v); }
static std::string longer(Gen& g, std::string s) { if (g.chance(3)) { std::string pad; for (int n = 300 + g.below(900); n-- > 0;) pad += "ab\xc3\xa9"[g.below(2)]; return pad + s; } return s; }

//---- strings ------------------------------------------------------------------------------
PBT_PROP(C30, strings, 1500000, 40000000, "string.equalsi, matchlen (every case and accent setting), explode (any delimiters and quote pair), hash, comparematches, clink.lower and upper, over related texts, against reference folding, a reference splitter and the native functions; non-trivial: the texts differ but have a common folded beginning, or splitting gives at least two pieces")
{
    int f = g.below(6);
    if (f <= 1)
    {
        std::vector<uint32_t> a, b; for (int i = g.size(10); i-- > 0;) a.push_back(fold_cp(g));
        b = a; for (auto& c : b) if (g.chance(40)) c = vary(g, c);
        if (g.chance(40) && !b.empty()) b[g.below(int(b.size()))] = fold_cp(g);
        if (g.chance(20)) b.push_back(fold_cp(g)); if (g.chance(20) && !b.empty()) b.pop_back();
        int mode = f == 0 ? 1 : g.below(3); bool fuzzy = f == 0 ? false : g.coin();
        str_compare_scope _(f == 0 ? g.below(3) : mode, f == 0 ? g.coin() : fuzzy);
        size_t i = 0, bytes = 0;
        while (i < a.size() && i < b.size() && eqc(a[i], b[i], mode, fuzzy)) bytes += utf8_of(a[i++]).size();
        bool same = i == a.size() && i == b.size();
        if (i && !same) g.nontrivial();
        std::string s = u8(a), t = u8(b);
        g.note("%s %s mode %d fuzzy %d", esc(s).c_str(), esc(t).c_str(), mode, fuzzy);
        if (f == 0) want(g, "string.equalsi", { s, t }, { Val(same) });
        // "How many characters": the length in bytes of the equal beginning of the first text.
        else want(g, "string.matchlen", { s, t }, { Val(same ? -1 : int(bytes)) });
        return;
    }
    if (f <= 3)
    {
        std::string alpha = g.pick({ "ab ,;", "ab \"'()", "a,b;\xc3\xa9 ", "ab |" });
        std::string s; for (int n = g.size(16); n-- > 0;) s += g.chance(10) ? utf8_of(0xe9) : std::string(1, alpha[g.below(int(alpha.size())) & 0x7f]);
        std::string fixed; for (uint32_t c : cps_of(s)) if (c && c != 0xfffd) fixed += utf8_of(c); s = longer(g, fixed);
        bool hd = g.chance(70); std::string d = hd ? g.pick({ " ", ",", ",;", " ,", "|", "ab", "" }) : " ";
        bool hq = hd && g.chance(50); std::string q = hq ? g.pick({ "\"", "()", "'", "\"\"", "" }) : "";
        Vals a{ s }; if (hd) a.push_back(d); if (hq) a.push_back(q);
        Val w; w.k = Val::Tab;
        char ql = q.empty() ? 0 : q[0], qr = q.size() > 1 ? q[1] : ql;
        std::string cur; bool in = false;
        for (char c : s)
        {
            if (in) { cur += c; if (c == qr) in = false; continue; }
            if (d.find(c) != std::string::npos) { if (!cur.empty()) w.t.push_back(cur); cur.clear(); continue; }
            if (ql && c == ql) in = true;
            cur += c;
        }
        if (!cur.empty()) w.t.push_back(cur);
        if (w.t.size() > 1) g.nontrivial();
        g.note("explode%s", show(a).c_str());
        want(g, "string.explode", a, { w });
        return;
    }
    std::string s = longer(g, text(g)), t = longer(g, text(g));
    g.note("%s %s", esc(s).c_str(), esc(t).c_str());
    if (f == 4)
    {
        if (s != t) g.nontrivial();
        want(g, "string.hash", { s }, { Val(double(str_hash(s.c_str()))) });
        const char* ty[] = { "file", "dir", "word", "alias", "arg", "none", "cmd" };
        bool types = g.coin(); const char* ta = ty[g.below(7)]; const char* tb = ty[g.below(7)];
        auto cmp = [&](const std::string& x, const char* xt, const std::string& y, const char* yt) { Vals r = types ? want_call(g, "string.comparematches", { x, xt, y, yt }) : want_call(g, "string.comparematches", { x, y }); if (r.size() != 1 || r[0].k != Val::Bool) g.fail("comparematches returned %s", show(r).c_str()); return r[0].b; };
        bool ab = cmp(s, ta, t, tb), ba = cmp(t, tb, s, ta);
        g.check(!(ab && ba), "each sorts before the other");
        g.check(!cmp(s, ta, s, ta), "a match sorts before itself");
        g.check(ab == compare_matches(s.c_str(), types ? to_match_type(ta) : match_type::none, t.c_str(), types ? to_match_type(tb) : match_type::none), "not the order in which matches are displayed");
        return;
    }
    // Lower and upper: the reference knows these characters.
    std::vector<uint32_t> v, lo, up; for (int i = g.size(12); i-- > 0;) { uint32_t c; do c = fold_cp(g); while (c == 0x131 || c == 0xdf || c == 0xfb01 || c == 0x10400); v.push_back(c); lo.push_back(ref_lower(c)); uint32_t u = c >= 'a' && c <= 'z' ? c - 32 : c; for (auto& x : c_case) if (x.lo == c) u = x.up; up.push_back(u); }
    bool changes = lo != v && up != v; if (changes) g.nontrivial();
    g.note("%s", esc(u8(v)).c_str());
    bool plain = true; for (auto c : v) { bool k = c < 128 || c > 0x3000; for (auto& x : c_case) k |= x.lo == c || x.up == c; plain &= k; }
    if (!plain) g.discard();
    want(g, "clink.lower", { u8(v) }, { Val(u8(lo)) });
    want(g, "clink.upper", { u8(v) }, { Val(u8(up)) });
}

//---- paths --------------------------------------------------------------------------------
static std::string a_path(Gen& g)
{
    std::string s = g.pick({ "", "", "", "c:", "C:\\", "d:/", "\\", "/", "\\\\server\\share", "//server/share", "\\\\?\\c:\\", "\\\\?\\UNC\\srv\\share", "\\\\.\\" });
    for (int n = g.size(5); n-- > 0;)
    {
        s += g.pick({ "a", "foo", "bar.ext", ".", "..", ".hid", "x.y.z", "sp ace", "\xc3\xa9", "e.", "prog.exe", "prog.EXE", "file.doc", "very long name with words", "nul", "con", "a.b c" });
        if (n || g.chance(30)) s += g.pick({ "\\", "/", "\\", "\\\\", "/\\" });
    }
    if (g.chance(2)) { std::string pad; for (int n = 20 + g.below(60); n-- > 0;) pad += g.coin() ? "directory\\" : "long component.name/"; s += pad + "last.extension_that_is_quite_long_indeed_and_longer"; }
    return s;
}
static bool sep(char c) { return c == '/' || c == '\\'; }
PBT_PROP(C30, paths, 1500000, 40000000, "path.* over generated paths (drives, shares, device prefixes, separator runs, dots, long names): same as the native functions (whose semantics C04 decides), nil exactly where documented, and the pieces fit together; non-trivial: at least two components")
{
    std::string p = a_path(g), q = a_path(g);
    g.note("%s %s", esc(p).c_str(), esc(q).c_str());
    int seps = 0; for (size_t i = 1; i < p.size(); ++i) seps += sep(p[i]) && !sep(p[i - 1]);
    if (seps > 1) g.nontrivial();
    str_moveable o;
    auto S = [](const str_base& x) { return Val(std::string(x.c_str(), x.length())); };
    o = p.c_str(); path::normalise(o); want(g, "path.normalise", { p }, { S(o) });
    std::string sp = g.pick({ "/", "\\" }); o = p.c_str(); path::normalise(o, sp[0]); want(g, "path.normalise", { p, sp }, { S(o) });
    o.clear(); path::get_base_name(p.c_str(), o); Val base = S(o); want(g, "path.getbasename", { p }, { base });
    o.clear(); path::get_name(p.c_str(), o); Val name = S(o); want(g, "path.getname", { p }, { name });
    o.clear(); path::get_extension(p.c_str(), o); Val ext = S(o); want(g, "path.getextension", { p }, { ext });
    o = p.c_str(); bool has = o.length() && path::get_directory(o); want(g, "path.getdirectory", { p }, has ? Vals{ S(o) } : Vals{});
    // A name on its own has no directory; anything with a separator or drive has one.
    if (p.find_first_of("/\\:") == std::string::npos) { if (has) { g.check(!o.length(), "getdirectory of a name"); if (!p.empty()) pbt::known("getdirectory-name"); } } else g.check(has, "getdirectory found nothing");
    o = p.c_str(); bool drv = o.length() && path::get_drive(o); want(g, "path.getdrive", { p }, drv ? Vals{ S(o) } : Vals{});
    o.clear(); path::join(p.c_str(), q.c_str(), o); want(g, "path.join", { p, q }, { S(o) });
    want(g, "path.isexecext", { p }, { Val(path::is_executable_extension(p.c_str())) });
    want(g, "path.isdevice", { p }, { Val(path::is_device(p.c_str())) });
    o = p.c_str(); str_moveable child; path::to_parent(o, &child); want(g, "path.toparent", { p }, { S(o), S(child) });
    // Pieces fit together.
    g.check(p.size() >= name.s.size() && p.compare(p.size() - name.s.size(), std::string::npos, name.s) == 0, "the name isn't the end of the path");
    if (ext.s.size() && name.s.size()) g.check(base.s + ext.s == name.s, "base name and extension aren't the name");
    std::string up = ext.s; for (auto& c : up) c = char(toupper((unsigned char)c));
    if (up == ".EXE" || up == ".BAT") g.check(path::is_executable_extension(p.c_str()), "extension not recognised as executable");
    if (up == ".DOC" || up.empty()) g.check(!path::is_executable_extension(p.c_str()), "extension recognised as executable");
}

PBT_PROP(C30, fnmatch, 1500000, 40000000, "path.fnmatch for every combination of flags against the native matcher (whose semantics C06 decides) with the documented flag bits; an unknown flag is an argument error; non-trivial: the pattern has a wildcard or bracket")
{
    std::string p, s, fl; int bits = WM_CASEFOLD | WM_SLASHFOLD; bool bad = false;
    for (int n = 1 + g.size(6); n-- > 0;) p += g.pick({ "a", "B", "*", "?", "**", "/", "\\", "[ab]", "[!a]", "[[:upper:]]", ".", "**/" });
    for (int n = g.size(7); n-- > 0;) s += g.pick({ "a", "b", "A", "B", "/", "\\", ".", "/", "c" });
    if (p.find_first_of("*?[") != std::string::npos) g.nontrivial();
    for (int n = g.size(4); n-- > 0;)
    {
        char c = g.ch("ep.lc*s"); if (g.chance(3)) c = g.ch("xE ,"), bad = true; fl += c;
        switch (c) { case 'e': bits |= WM_NOESCAPE; break; case 'p': bits |= WM_PATHNAME; break; case '.': bits |= WM_PERIOD; break; case 'l': bits |= WM_LEADING_DIR; break; case 'c': bits &= ~WM_CASEFOLD; break; case '*': bits |= WM_WILDSTAR; break; case 's': bits &= ~WM_SLASHFOLD; break; }
    }
    g.note("%s %s %s", esc(p).c_str(), esc(s).c_str(), fl.c_str());
    Vals a{ p, s }; if (!fl.empty() || g.coin()) a.push_back(fl);
    if (bad) { Vals r; g.check(!call(g, "path.fnmatch", a, r), "an unknown flag is accepted"); return; }
    want(g, "path.fnmatch", a, { Val(wildmatch(p.c_str(), s.c_str(), bits) == WM_MATCH) });
}

//---- Unicode ------------------------------------------------------------------------------
static uint32_t any_cp(Gen& g)
{
    uint32_t c;
    do switch (g.below(7)) { case 0: c = 1 + g.below(0x7f); break; case 1: c = 0x80 + g.below(0x780); break; case 2: c = 0x800 + g.below(0xf800); break; case 3: c = 0x10000 + g.below(0x100000); break; case 4: { static const uint32_t e[] = { 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfeff }; c = e[g.below(10)]; break; } case 5: c = 0x300 + g.below(0x70); break; default: c = 'a' + g.below(26); } while (c >= 0xd800 && c < 0xe000);
    return c;
}
// Base letter + combining mark and what they compose to.
static const struct { uint32_t c, b, m; } c_comp[] = { {0xe9,'e',0x301},{0xc9,'E',0x301},{0xe8,'e',0x300},{0xea,'e',0x302},{0xf1,'n',0x303},{0xd1,'N',0x303},{0xc4,'A',0x308},{0xe4,'a',0x308},{0xfc,'u',0x308},{0xe7,'c',0x327},{0x159,'r',0x30c},{0x151,'o',0x30b},{0xe5,'a',0x30a},{0x1fa,0xc5,0x301} };
static const struct { uint32_t c; const char* t; } c_compat[] = { {0xfb01,"fi"},{0x2460,"1"},{0xff21,"A"},{0x2122,"TM"},{0xbd,"1\xe2\x81\x84" "2"} };
PBT_PROP(C30, unicode, 1200000, 30000000, "unicode.char and iter against a reference encoder over every kind of code point; normalize and isnormalized over composed, decomposed, compatibility and plain characters against reference tables; tocodepage and fromcodepage round trips (UTF-8, 1252, 437, 850); console.cellcount, cellcountiter, plaintext and explodeansi against each other and the texts' structure; non-trivial: has a character outside ASCII")
{
    switch (g.below(4))
    {
    case 0:
    {
        std::vector<uint32_t> v; for (int n = g.size(14); n-- > 0;) v.push_back(any_cp(g));
        Vals a; for (auto c : v) { a.push_back(double(c)); if (c > 127) g.nontrivial(); }
        std::string s = u8(v); g.note("%s", show(a).c_str());
        if (g.chance(5)) { a.insert(a.begin() + g.below(int(a.size() + 1)), Val(double(0x110000 + g.below(1000)))); Vals r; g.check(!call(g, "unicode.char", a, r), "out of range accepted"); return; }
        want(g, "unicode.char", a, { Val(s) });
        auto it = iterate(g, "unicode.iter", s);
        g.check(it.size() == v.size(), "iter gave %d characters, not %d", int(it.size()), int(v.size()));
        for (size_t i = 0; i < v.size(); ++i)
        {
            uint32_t c = v[i]; bool comb = (c >= 0x300 && c <= 0x36f) || (c >= 0x20d0 && c <= 0x20ef) || c == 0x3099 || c == 0x309a;
            Vals w; w.push_back(utf8_of(c)); w.push_back(double(c)); w.push_back(comb);
            g.check(it[i] == w, "iter gave %s, want %s", show(it[i]).c_str(), show(w).c_str());
        }
        break;
    }
    case 1:
    {
        int form = 1 + g.below(4); std::vector<uint32_t> src, dst;
        for (int n = g.size(8); n-- > 0;)
        {
            int k = g.below(6);
            if (k <= 1) { auto& x = c_comp[g.below(_countof(c_comp) - 1)]; if (k) src.push_back(x.c); else src.push_back(x.b), src.push_back(x.m); if (form & 1) dst.push_back(x.c); else dst.push_back(x.b), dst.push_back(x.m); g.nontrivial(); }
            else if (k == 2) { auto& x = c_compat[g.below(_countof(c_compat))]; src.push_back(x.c); if (form >= 3) { for (auto c : cps_of(x.t)) dst.push_back(c); } else dst.push_back(x.c); g.nontrivial(); }
            else if (k == 3) { src.push_back(0x1f600); dst.push_back(0x1f600); }
            else { uint32_t c = " .x1Zz"[g.below(6)]; src.push_back(c); dst.push_back(c); }
        }
        std::string s = u8(src), d = u8(dst); g.note("form %d %s", form, esc(s).c_str());
        want(g, "unicode.normalize", { form, s }, { Val(d) });
        want(g, "unicode.normalize", { form, d }, { Val(d) });
        SetLastError(g.coin() ? ERROR_FILE_NOT_FOUND : 0);      // whatever an earlier system call left
        want(g, "unicode.isnormalized", { form, s }, { Val(s == d) });
        SetLastError(g.coin() ? ERROR_INSUFFICIENT_BUFFER : 0);
        want(g, "unicode.isnormalized", { form, d }, { Val(true) });
        break;
    }
    case 2:
    {
        static const int cps[] = { 65001, 1252, 437, 850 };
        int cp = cps[g.below(4)]; std::vector<uint32_t> v;
        for (int n = g.size(10); n-- > 0;) { uint32_t c; if (cp == 65001) c = any_cp(g); else { static const uint32_t l[] = { 0xe9, 0xe8, 0xe4, 0xf6, 0xfc, 0xc4, 0xd6, 0xf1, 0xe7, 0xa3, 0xbf }; c = g.coin() ? 32 + g.below(95) : l[g.below(11)]; } if (c > 127) g.nontrivial(); v.push_back(c); }
        std::string s = longer(g, u8(v)); g.note("cp %d %s", cp, esc(s).c_str());
        Vals r = want_call(g, "unicode.tocodepage", { s, cp });
        g.check(r.size() == 1 && r[0].k == Val::Str, "tocodepage returned %s", show(r).c_str());
        std::string bytes = r[0].s;
        if (cp == 65001) g.check(bytes == s, "tocodepage changed UTF-8 to %s", esc(bytes).c_str());
        else
        {
            g.check(bytes.size() == cps_of(s).size(), "one byte per character expected, got %s", esc(bytes).c_str());
            if (cp == 1252) { std::string w; for (auto c : cps_of(s)) w += char(c); g.check(bytes == w, "1252 gave %s", esc(bytes).c_str()); }
        }
        want(g, "unicode.fromcodepage", { bytes, cp }, { Val(s) });
        break;
    }
    default:
    {
        std::vector<std::string> parts; std::string s, plain; bool wide = true;
        for (int n = g.size(7); n-- > 0;)
        {
            std::string t;
            if (g.chance(35)) t = g.pick({ "\x1b[m", "\x1b[0;31m", "\x1b[K", "\x1b[38;2;1;2;3m", "\x1b]0;ti\x07" });
            else { for (int k = 1 + g.size(4); k-- > 0;) { uint32_t c = g.chance(60) ? 'a' + g.below(26) : g.coin() ? 0x4e00 + g.below(100) : 0xe9; t += utf8_of(c); if (c > 127) g.nontrivial(); } plain += t; }
            bool e = t[0] == 27; if (!e && !parts.empty() && parts.back()[0] != 27) parts.back() += t; else parts.push_back(t);
            s += t;
        }
        g.note("%s", esc(s).c_str());
        int cells = 0; for (auto c : cps_of(plain)) cells += c >= 0x4e00 ? 2 : 1;
        want(g, "console.cellcount", { s }, { Val(cells) });
        want(g, "console.plaintext", { s }, { Val(plain), Val(cells) });
        Val w; w.k = Val::Tab; for (auto& x : parts) w.t.push_back(x); if (parts.empty()) w.t.push_back("");
        want(g, "console.explodeansi", { s }, { w });
        auto it = iterate(g, "console.cellcountiter", plain); std::string cat; int sum = 0;
        for (auto& x : it) { g.check(x.size() == 3 && x[0].k == Val::Str && x[1].k == Val::Num && x[2].k == Val::Bool, "cellcountiter gave %s", show(x).c_str()); cat += x[0].s; sum += int(x[1].n); }
        g.check(cat == plain && sum == cells, "cellcountiter gave %s, %d cells", esc(cat).c_str(), sum);
        int lim = g.below(12) - 1; const char* mode = g.pick({ "right", "left", "path" }); const char* el = g.pick({ "", ".", "...", "\xe2\x80\xa6" });
        if (lim <= 0) want(g, "console.ellipsify", { s, lim, mode, el }, { Val(s), Val(cells) });
        else { str_moveable out; int32 width = ellipsify_ex(s.c_str(), lim, !strcmp(mode, "right") ? RIGHT : !strcmp(mode, "left") ? LEFT : PATH, out, el); want(g, "console.ellipsify", { s, lim, mode, el }, { Val(std::string(out.c_str(), out.length())), Val(int(width)) }); }
        break;
    }
    }
}

//---- invalid arguments --------------------------------------------------------------------
static const struct { const char* fn; const char* sig; } c_fns[] = {
    { "string.equalsi", "ss" }, { "string.explode", "sSS" }, { "string.hash", "s" }, { "string.matchlen", "ss" }, { "string.comparematches", "s*" },
    { "path.normalise", "sS" }, { "path.getbasename", "s" }, { "path.getdirectory", "s" }, { "path.getdrive", "s" }, { "path.getextension", "s" }, { "path.getname", "s" }, { "path.join", "ss" }, { "path.isexecext", "s" }, { "path.toparent", "s" }, { "path.fnmatch", "ssF" },
    { "unicode.normalize", "fs" }, { "unicode.isnormalized", "fs" }, { "unicode.iter", "s" }, { "unicode.fromcodepage", "sN" }, { "unicode.tocodepage", "sN" },
    { "console.cellcount", "s" }, { "console.plaintext", "s" }, { "console.explodeansi", "s" }, { "console.cellcountiter", "s" }, { "console.ellipsify", "snMS" }, { "clink.lower", "s" }, { "clink.upper", "s" },
};
static Val a_val(Gen& g)
{
    switch (g.below(9)) { case 0: return Val(); case 1: return Val(g.coin()); case 2: return Val(int(g.below(7)) - 1); case 3: return Val(1.5); case 4: { Val t; t.k = Val::Tab; if (g.coin()) t.t.push_back("x"); return t; } case 5: { Val t; t.k = Val::Fun; return t; } case 6: return Val(""); default: return Val(std::string(g.pick({ "abc", "c:\\x\\y.z", "\xc3\xa9", "\xff\xfe", "p", "1", "nope", "a*b?[" }))); }
}
static bool strish(const Val& v) { return v.k == Val::Str || v.k == Val::Num; }
PBT_PROP(C30, arguments, 1200000, 30000000, "every function called with any number of values of any type: with a required argument missing or of the wrong type it raises an argument error under lua.strict and otherwise returns nothing, otherwise it returns or raises an argument error for a value out of its documented range; the Lua stack stays balanced; non-trivial: at least one argument isn't a text")
{
    auto& f = c_fns[g.below(_countof(c_fns))];
    Vals a; for (int n = g.below(5); n-- > 0;) a.push_back(a_val(g));
    bool nt = false; for (auto& v : a) nt |= v.k != Val::Str; if (nt) g.nontrivial();
    g.note("%s%s", f.fn, show(a).c_str());
    bool missing = false;       // a required argument isn't usable
    for (size_t i = 0; f.sig[i]; ++i)
    {
        Val v = i < a.size() ? a[i] : Val();
        if (f.sig[i] == 's') missing |= !strish(v);
        if (f.sig[i] == 'n' || f.sig[i] == 'f') missing |= v.k != Val::Num && !(v.k == Val::Str && v.s == "1");
        if (f.sig[i] == '*') missing |= !strish(v) && !(a.size() > 2 && strish(a[2]));
    }
    bool strict = g.coin(); settings::find("lua.strict")->set(strict ? "on" : "off");
    Vals r; bool ok = call(g, f.fn, a, r);
    settings::find("lua.strict")->set("on");
    if (strict && !ok) g.check(s_err.find("bad argument") != std::string::npos, "raised %s", s_err.c_str());
    else if (missing && (!strict || !strncmp(f.fn, "clink.", 6)))
    {
        if (!ok) g.fail("an unusable argument raised an error: %s", s_err.c_str());
        g.check(r.empty() || r[0].k == Val::Nil, "an unusable argument returned %s", show(r).c_str());
    }
    else if (missing) g.fail("an unusable argument is accepted, returning %s", show(r).c_str());
    else if (!ok)
    {
        bool doc = strchr(f.sig, 'F') || strchr(f.sig, 'f') || strchr(f.sig, 'M');
        g.check(doc && s_err.find("bad argument") != std::string::npos, "raised %s", s_err.c_str());
    }
}
