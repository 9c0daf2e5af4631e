//: group=core libs=core with=heap.cpp lflags=-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=wcsdup
// C04 path algebra, C05 match wildcards, C07 string comparison.
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/str_compare.h>
#include <core/path.h>
#include <core/match_wild.h>
#include "heap.h"
using namespace pbt;
#include "ref_match.h"

//---- C04 ----------------------------------------------------------------------------------
// A path is generated from its structure, so the expected answers never have to be parsed out.
enum Kind { rel, drive, drive_root, root, unc, ssqs_drive, ssqs_drive_root, ssqs_unc, ssqs_rel, device, num_kinds };
struct Comp { std::string name; std::string seps; };    // separators before the name
struct Path
{
    Kind kind;
    std::string prefix;         // without the root separator
    std::string prefix1;        // prefix with its inner separator runs collapsed
    std::vector<Comp> comps;
    std::string trail;
    std::string text() const { std::string s = prefix; for (auto& c : comps) s += c.seps + c.name; return s + trail; }
    bool rooted() const { return kind == drive_root || kind == root || kind == ssqs_drive_root; }
};

static std::string seps(Gen& g, bool runs = true)
{
    std::string s(1, g.coin() ? '/' : '\\');
    if (runs) while (g.chance(15) && s.size() < 4) s += g.coin() ? '/' : '\\';
    return s;
}
static std::string nm(Gen& g, bool dots)
{
    switch (g.below(dots ? 12 : 9))
    {
    case 0: case 1: case 2: return std::string(1, g.ch("abcxyz"));
    case 3: return g.pick({"name", "foo.txt", "foo.bar.baz", "a b", "foo.", "x y.z", "a.b c"});
    case 4: return g.pick({".x", "..x", "...", "x..", "....", ".foo.bar", ".a.", ". "});
    case 5: return utf8_of(0xe9) + g.text("ab.", 3);
    case 6: { std::string s = g.text("ab. ~-", 6); return s.empty() || s == "." || s == ".." ? "q" : s; }
    case 7: return "UNC";
    case 8: return g.pick({"c", "?", "x;y", "con", "long name with words.ext"});
    case 9: return ".";
    default: return "..";
    }
}
static Path gen_path(Gen& g, bool dots, int kinds = -1)
{
    Path p;
    do p.kind = Kind(g.below(num_kinds)); while (!(kinds & (1 << p.kind)));
    char drv = g.ch("acZ");
    char lead = g.coin() ? '/' : '\\';
    char lead2 = g.chance(25) ? (lead == '/' ? '\\' : '/') : lead;
    std::string two = { lead, lead2 };
    std::string a, b, s1, s2;
    switch (p.kind)
    {
    case drive: case drive_root: p.prefix = p.prefix1 = std::string(1, drv) + ":"; break;
    case unc:
        a = g.pick({"server", "s", "10.0.0.1", "a b"}); b = g.pick({"share", "h", "c$", "x.y"}); s1 = seps(g);
        p.prefix = two + a + s1 + b; p.prefix1 = two + a + s1[0] + b; break;
    case ssqs_unc:
        a = g.pick({"server", "s"}); b = g.pick({"share", "h"}); s1 = seps(g); s2 = seps(g);
        { std::string s0 = seps(g), u = g.pick({"UNC", "unc", "Unc"});
        p.prefix = two + "?" + s0 + u + s1 + a + s2 + b; p.prefix1 = two + "?" + s0[0] + u + s1[0] + a + s2[0] + b; }
        break;
    case ssqs_drive: case ssqs_drive_root:
        s1 = seps(g); p.prefix = two + "?" + s1 + drv + ":"; p.prefix1 = two + "?" + s1[0] + drv + ":"; break;
    case ssqs_rel:
        s1 = seps(g); p.prefix = two + "?" + s1; p.prefix1 = two + "?" + s1[0]; break;
    case device: p.prefix = p.prefix1 = two + "."; break;
    default: break;
    }
    int n = g.size(6);
    if (p.kind == device && n == 0) n = 1;
    for (int i = 0; i < n; ++i)
    {
        Comp c;
        c.name = nm(g, dots);
        c.seps = seps(g);
        if (i == 0)
        {
            if (p.kind == rel || p.kind == drive || p.kind == ssqs_drive || p.kind == ssqs_rel) c.seps.clear();
            if (p.kind == root) c.seps.resize(1);
            if (p.kind == ssqs_rel && !strnicmp(c.name.c_str(), "unc", 3)) c.name = "v";
        }
        p.comps.push_back(c);
    }
    if (n ? g.chance(25) : p.rooted()) p.trail = seps(g);
    if (n == 0 && p.kind == root) p.trail.resize(1);
    if (n == 0 && (p.kind == unc || p.kind == ssqs_unc) && g.coin()) p.trail = seps(g);
    return p;
}
static std::string strip(std::string s) { while (!s.empty() && sepc(s.back())) s.pop_back(); return s; }
static std::string uniform(std::string s, char sep) { for (auto& c : s) if (sepc(c)) c = sep; return s; }

PBT_PROP(C04, normalise, 4800000, 96000000, "path::normalise against a component-stack model for every prefix kind, plus idempotence and the separator argument; non-trivial: the path has a '.' or '..' component or a separator run")
{
    Path p = gen_path(g, true);
    std::string in = p.text();
    int sep = g.below(3) == 0 ? '\\' : g.coin() ? '/' : 0;
    char s = sep ? char(sep) : '\\';
    g.note("%s sep=%c kind=%d", esc(in).c_str(), s, p.kind);
    std::vector<std::string> st;
    bool dotted = false, run = false;
    for (auto& c : p.comps)
    {
        run |= c.seps.size() > 1;
        if (p.kind == device) { st.push_back(c.name); continue; }
        if (c.name == "." || c.name == "..") dotted = true;
        if (c.name == ".") continue;
        if (c.name == "..")
        {
            if (!st.empty() && st.back() != "..") st.pop_back();
            else if (p.kind == rel || p.kind == drive) st.push_back("..");
            // Rooted paths stay at their root, \\?\ paths drop what cannot be resolved.
            continue;
        }
        st.push_back(c.name);
    }
    if (dotted || run) g.nontrivial();
    if (dotted) g.label("dots");
    // Expected, without a trailing separator.
    std::string want = p.prefix1;
    bool lead = p.kind == drive_root || p.kind == root || p.kind == unc || p.kind == ssqs_unc || p.kind == ssqs_drive_root || p.kind == device;
    for (size_t i = 0; i < st.size(); ++i) { if (i || lead) want += s; want += st[i]; }
    str<> out; out = in.c_str();
    path::normalise(out, sep);
    std::string got = out.c_str();
    // A root keeps its separator.
    if (st.empty() && p.rooted() && got != want + s) g.fail("normalise gave %s want %s%c", esc(got).c_str(), esc(want).c_str(), s);
    g.check(strip(got) == strip(want), "normalise gave %s want %s", esc(got).c_str(), esc(want).c_str());
    g.check(got.size() - strip(got).size() <= size_t(p.kind == ssqs_rel || p.kind == ssqs_drive || p.kind == device || st.size() || lead ? 1 : 0) || (st.empty() && strip(want).empty()), "run of trailing separators in %s", esc(got).c_str());
    // One separator throughout what follows the prefix.
    size_t from = p.prefix1.size();
    for (size_t i = from; i < got.size(); ++i) g.check(!sepc(got[i]) || got[i] == s, "mixed separators in %s", esc(got).c_str());
    for (size_t i = from + 1; i < got.size(); ++i) g.check(!(sepc(got[i]) && sepc(got[i - 1])), "separator run in %s", esc(got).c_str());
    str<> again; again = got.c_str();
    path::normalise(again, sep);
    g.check(got == again.c_str(), "not idempotent: %s then %s", esc(got).c_str(), esc(again.c_str()).c_str());
    str<> ns; ns = in.c_str();
    path::normalise_separators(ns, sep);
    g.check(ns.c_str() == uniform(in, s), "normalise_separators gave %s", esc(ns.c_str()).c_str());
}

PBT_PROP(C04, split, 4800000, 96000000, "get_directory/get_name/get_base_name/get_extension/get_drive/is_rooted/is_root/strip against the structure the path was generated from, narrow and wide; non-trivial: at least two components")
{
    Path p = gen_path(g, false);
    std::string in = p.text();
    g.note("%s kind=%d", esc(in).c_str(), p.kind);
    if (p.comps.size() >= 2) g.nontrivial();
    std::string name = p.trail.empty() && !p.comps.empty() ? p.comps.back().name : "";
    str<> o;
    path::get_name(in.c_str(), o);
    g.check(o.c_str() == name, "get_name gave %s want %s", esc(o.c_str()).c_str(), esc(name).c_str());
    g.check(path::get_name(in.c_str()) == in.c_str() + in.size() - name.size(), "get_name pointer");
    std::wstring win = ref_utf16(in); wstr<> wo;
    path::get_name(win.c_str(), wo);
    g.check(wo.c_str() == ref_utf16(name), "wide get_name gave %s", esc(std::wstring(wo.c_str())).c_str());

    str<> dir;
    path::get_directory(in.c_str(), dir);
    std::string d = dir.c_str();
    g.check(in.compare(0, d.size(), d) == 0 && strip(in.substr(0, in.size() - name.size())) == strip(d),
        "get_directory gave %s", esc(d).c_str());
    if (p.rooted()) g.check(d.size() > p.prefix.size() && sepc(d[p.prefix.size()]), "directory %s lost its root", esc(d).c_str());
    // Only a root keeps a separator.
    if (p.comps.size() > 1) g.check(!d.empty() && !sepc(d.back()), "directory %s has trailing separators", esc(d).c_str());
    str<> inplace; inplace = in.c_str(); path::get_directory(inplace);
    g.check(d == inplace.c_str(), "in-place get_directory gave %s not %s", esc(inplace.c_str()).c_str(), esc(d).c_str());
    if (!name.empty())
    {
        str<> j; path::join(d.c_str(), name.c_str(), j);
        std::string got = j.c_str();
        std::string head = strip(in.substr(0, in.size() - name.size()));
        bool ok = got.size() >= head.size() + name.size() && got.compare(0, head.size(), head) == 0 && got.compare(got.size() - name.size(), name.size(), name) == 0;
        if (ok) { bool had = head.size() + name.size() < in.size(); std::string mid = got.substr(head.size(), got.size() - head.size() - name.size()); for (char c : mid) ok &= sepc(c); ok &= mid.empty() != had; if (mid.size() > 1) ok &= mid.size() <= in.size() - name.size() - head.size(); }
        g.check(ok, "join(%s, %s) gave %s", esc(d).c_str(), esc(name).c_str(), esc(got).c_str());
    }
    // Base name and extension.
    size_t dot = name.rfind('.');
    std::string base = dot == std::string::npos ? name : name.substr(0, dot);
    std::string ext = dot == std::string::npos || dot + 1 == name.size() || name.find(' ', dot) != std::string::npos ? "" : name.substr(dot);
    path::get_base_name(in.c_str(), o);
    g.check(o.c_str() == base, "get_base_name gave %s want %s", esc(o.c_str()).c_str(), esc(base).c_str());
    o.clear();
    bool has = path::get_extension(in.c_str(), o);
    // With no name the extension is looked for in the text of the prefix; nobody relies on that.
    if (!name.empty()) g.check(has == !ext.empty() && ext == o.c_str(), "get_extension gave %s want %s", esc(o.c_str()).c_str(), esc(ext).c_str());
    // Drive.
    bool drv = p.kind == drive || p.kind == drive_root || p.kind == ssqs_drive || p.kind == ssqs_drive_root;
    o.clear();
    has = path::get_drive(in.c_str(), o);
    g.check(has == drv && (!drv || p.prefix.substr(p.prefix.size() - 2) == o.c_str()), "get_drive gave %d %s", has, o.c_str());
    // Rooted, root.
    bool sep_after = p.comps.empty() ? !p.trail.empty() : !p.comps[0].seps.empty();
    if (p.kind != device && p.kind != ssqs_rel)
    {
        g.check(path::is_rooted(in.c_str()) == sep_after, "is_rooted is %d", !sep_after);
        bool isroot = p.comps.empty();
        g.check(path::is_root(in.c_str()) == isroot, "is_root is %d", !isroot);
        // Stripping a trailing separator keeps the root.
        std::string want = in; size_t keep = p.prefix.size() + (sep_after ? 1 : 0);
        if (p.comps.empty() || !p.comps[0].seps.empty() || true) while (want.size() > keep && sepc(want.back())) want.pop_back();
        o = in.c_str(); path::maybe_strip_last_separator(o);
        g.check(o.c_str() == want, "maybe_strip_last_separator gave %s", esc(o.c_str()).c_str());
        wstr<> ws; ws = win.c_str(); path::maybe_strip_last_separator(ws);
        g.check(ws.c_str() == ref_utf16(want), "wide maybe_strip_last_separator gave %s", esc(std::wstring(ws.c_str())).c_str());
    }
    g.check(path::is_unc(in.c_str()) == (p.kind == unc || p.kind == ssqs_unc || p.kind == ssqs_drive || p.kind == ssqs_drive_root || p.kind == ssqs_rel) || p.kind >= ssqs_drive, "is_unc");
    if (p.kind == unc || p.kind == ssqs_unc)
    {
        const char* past; const wchar_t* wpast;
        g.check(path::is_unc(in.c_str(), &past) && past == in.c_str() + p.prefix.size(), "is_unc extent is %d", int(past - in.c_str()));
        g.check(path::is_unc(win.c_str(), &wpast) && size_t(wpast - win.c_str()) == ref_utf16(p.prefix).size(), "wide is_unc extent");
        g.check(path::is_incomplete_unc(in.c_str()) == !sep_after, "is_incomplete_unc is %d", sep_after);
    }
    if (p.kind == rel || p.kind == drive || p.kind == drive_root || p.kind == root)
        g.check(!path::is_unc(in.c_str()) && !path::is_incomplete_unc(in.c_str()), "is_unc of a path with no UNC prefix");
    // A leading dot hides a name.
    if (p.kind != device)
    {
        g.check(path::is_unix_hidden(in.c_str()) == (!name.empty() && name[0] == '.'), "is_unix_hidden");
        if (!p.comps.empty()) g.check(path::is_unix_hidden(in.c_str(), true) == (p.comps.back().name[0] == '.'), "is_unix_hidden ignoring trailing separators");
    }
}

PBT_PROP(C04, join, 4000000, 80000000, "path::join/append of generated left and right paths; non-trivial: both parts have components")
{
    Path l = gen_path(g, false);
    Path r = gen_path(g, false, g.coin() ? (1 << rel) : (1 << rel) | (1 << drive_root) | (1 << root) | (1 << unc) | (1 << ssqs_drive_root) | (1 << ssqs_unc));
    if ((r.kind == unc || r.kind == ssqs_unc) && r.comps.empty() && r.trail.empty()) r.trail = "\\";
    std::string a = l.text(), b = r.text();
    if (g.chance(10)) { a.clear(); l.kind = rel; l.comps.clear(); }
    g.note("%s + %s", esc(a).c_str(), esc(b).c_str());
    if (!l.comps.empty() && !r.comps.empty()) g.nontrivial();
    std::string want;
    bool bare_drive = l.comps.empty() && (l.kind == drive || l.kind == ssqs_drive);
    if (r.kind != rel) { want = b; g.label("rooted rhs"); }
    else if (a.empty() || bare_drive || sepc(a.back())) want = a + b;
    else want = a + "\\" + b;
    str<> o;
    path::join(a.c_str(), b.c_str(), o);
    g.check(o.c_str() == want, "join gave %s want %s", esc(o.c_str()).c_str(), esc(want).c_str());
    str<8> o2; o2 = a.c_str();
    path::append(o2, b.c_str());
    g.check(o2.c_str() == want, "append gave %s want %s", esc(o2.c_str()).c_str(), esc(want).c_str());
    str<> o3; o3 = a.c_str();
    path::join(o3.c_str(), b.c_str(), o3);
    g.check(o3.c_str() == want, "join in place gave %s want %s", esc(o3.c_str()).c_str(), esc(want).c_str());
}

PBT_PROP(C04, parent, 3200000, 64000000, "path::to_parent repeated until it stops: components come back last to first and the root remains; non-trivial: at least two components")
{
    Path p = gen_path(g, false, ~((1 << device) | (1 << ssqs_rel)));
    std::string in = p.text();
    g.note("%s", esc(in).c_str());
    if (p.comps.size() >= 2) g.nontrivial();
    str<> cur; cur = in.c_str();
    std::vector<std::string> got;
    for (int i = 0; ; ++i)
    {
        g.check(i <= int(p.comps.size()) + 2, "to_parent does not terminate: %s", esc(cur.c_str()).c_str());
        str<> child("junk"), nochild; nochild = cur.c_str();
        size_t before = cur.length();
        bool more = path::to_parent(cur, &child);
        bool more2 = path::to_parent(nochild, nullptr);
        g.check(more == more2 && nochild.equals(cur.c_str()), "to_parent differs without a child");
        g.check(more == (cur.length() != before) && cur.length() <= before, "to_parent result");
        if (!more) { g.check(child.empty(), "child %s at the root", esc(child.c_str()).c_str()); break; }
        if (!child.empty()) got.push_back(child.c_str());
        size_t left = p.comps.size() - got.size();
        g.check(got.size() <= p.comps.size(), "more children than components");
        // What remains is the path of the remaining components.
        std::string want = p.prefix; for (size_t k = 0; k < left; ++k) want += p.comps[k].seps + p.comps[k].name;
        g.check(strip(cur.c_str()) == strip(want), "remaining path %s want %s", esc(cur.c_str()).c_str(), esc(want).c_str());
    }
    g.check(got.size() == p.comps.size(), "%u children for %u components", unsigned(got.size()), unsigned(p.comps.size()));
    for (size_t i = 0; i < got.size(); ++i) g.check(got[i] == p.comps[p.comps.size() - 1 - i].name, "child %u is %s", unsigned(i), esc(got[i]).c_str());
    if (p.kind == drive_root || p.kind == ssqs_drive_root) g.check(cur.length() > p.prefix.size(), "the root separator was lost: %s", cur.c_str());
    g.check(path::is_root(cur.c_str()) || (p.kind == drive || p.kind == ssqs_drive || p.kind == rel), "%s is not a root", esc(cur.c_str()).c_str());
}

//---- C05 ----------------------------------------------------------------------------------
PBT_PROP(C05, wild, 12000000, 240000000, "pattern/text pairs, the pattern mostly derived from the text, against a backtracking-free reference matcher in all modes; non-trivial: the pattern has a wildcard and the text is not empty")
{
    WildModel w;
    w.mode = g.below(3); w.fuzzy = g.coin(); w.dot = g.chance(30); w.star = g.weighted({3, 1, 1});
    // Text.
    int n = g.size(14);
    for (int i = 0; i < n; ++i) w.f.push_back(g.chance(15) && (i == 0 || !sepc(w.f.back())) ? (g.coin() ? '/' : '\\') : fold_cp(g));
    // A name with leading periods, that the pattern leaves out.
    size_t skip0 = 0, skip1 = 0;
    if (w.dot && g.coin())
    {
        if (!w.f.empty() && !sepc(w.f.back())) w.f.push_back(g.coin() ? '/' : '\\');
        skip0 = w.f.size();
        for (int k = 1 + g.below(2); k-- > 0;) w.f.push_back('.');
        skip1 = w.f.size();
        for (int k = g.size(4); k-- > 0;) w.f.push_back(fold_cp(g));
    }
    // Pattern: derived or unrelated.
    int stars = 0;
    bool sparse = g.coin();      // few wildcards
    if (g.chance(85))
        for (size_t i = 0; i < w.f.size(); ++i)
        {
            if (i >= skip0 && i < skip1) continue;
            switch (sparse && g.chance(70) ? 0 : g.below(8))
            {
            case 4: w.p.push_back('?'); break;
            case 5: if (stars < 8) { w.p.push_back('*'); ++stars; i += g.below(4); if (g.chance(20)) w.p.push_back('?'); if (g.chance(20)) w.p.push_back('*'); } break;
            case 6: w.p.push_back(vary(g, w.f[i])); break;
            case 7: if (g.chance(15)) { w.p.push_back(fold_cp(g)); break; }  // fallthrough
            default: w.p.push_back(w.f[i]);
            }
        }
    else
        for (int i = g.size(10); i-- > 0;)
            if (g.chance(35) && stars < 8) { w.p.push_back('*'); ++stars; } else w.p.push_back(g.chance(20) ? '?' : g.chance(15) ? '/' : fold_cp(g));
    if (g.chance(15) && stars < 8) w.p.push_back('*'), ++stars;
    // No separator runs in the pattern; text may have them unless a star precedes a separator.
    bool star_sep = false;
    { std::vector<uint32_t> q; for (auto c : w.p) if (!(sepc(c) && !q.empty() && sepc(q.back()))) q.push_back(c); w.p = q; }
    for (size_t i = 1; i < w.p.size(); ++i) if (sepc(w.p[i])) { size_t k = i; while (k > 0 && w.p[k - 1] == '?') --k; if (k > 0 && w.p[k - 1] == '*') star_sep = true; }
    if (!star_sep && g.chance(20))
    {
        auto dbl = [&](std::vector<uint32_t>& v) { std::vector<uint32_t> q; for (auto c : v) { q.push_back(c); if (sepc(c) && g.coin()) q.push_back(g.coin() ? '/' : '\\'); } v = q; };
        dbl(w.f); dbl(w.p);
        g.label("separator runs");
    }
    w.init();
    std::string ps = u8(w.p), fs = u8(w.f);
    bool want = w.m(0, 0);
    bool wild = false; for (auto c : w.p) wild |= c == '*' || c == '?';
    if (wild && !w.f.empty()) g.nontrivial();
    g.label(want ? "matches" : "does not match");
    if (stars > 1) g.label("several stars");
    g.note("pattern %s text %s mode=%d fuzzy=%d dot=%d star=%d", esc(ps).c_str(), esc(fs).c_str(), w.mode, w.fuzzy, w.dot, w.star);
    str_compare_scope scope(w.mode, w.fuzzy);
    auto me = path::star_matches_everything(w.star == 1 ? path::yes : w.star == 2 ? path::at_end : path::no);
    GuardBuf a(ps.size() + 1), b(fs.size() + 1);
    memcpy(a.p(), ps.c_str(), ps.size() + 1); memcpy(b.p(), fs.c_str(), fs.size() + 1);
    bool got = path::match_wild(a.p(), b.p(), w.dot, me);
    g.check(got == want, "match_wild gave %d want %d", got, want);
    // Iterators limited by a length.
    std::string px = ps + "zz*", fx = fs + "qq/";
    got = path::match_wild(str_iter(px.c_str(), int(ps.size())), str_iter(fx.c_str(), int(fs.size())), w.dot, me);
    if (!ps.empty() && !fs.empty() && !w.dot) g.check(got == want, "match_wild with lengths gave %d want %d", got, want);
}

//---- C07 ----------------------------------------------------------------------------------
template <class T, bool LCD, bool EX> static int run_cmp(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b);
template <class T> static std::basic_string<T> enc(const std::vector<uint32_t>& v);
template <> std::string enc<char>(const std::vector<uint32_t>& v) { return u8(v); }
template <> std::wstring enc<wchar_t>(const std::vector<uint32_t>& v) { return ref_utf16(u8(v)); }

template <class T, bool LCD, bool EX> static void cmp_one(Gen& g, const std::vector<uint32_t>& a, const std::vector<uint32_t>& b, int mode, bool fuzzy)
{
    // Model: matched code points of each side.
    auto model = [&](const std::vector<uint32_t>& x, const std::vector<uint32_t>& y) {
        size_t i = 0, j = 0;
        while (i < x.size() && j < y.size() && eqc(x[i], y[j], mode, fuzzy, EX))
        {
            bool s = EX ? x[i] == '/' : sepc(x[i]);
            ++i; ++j;
            if (s) { while (i < x.size() && sepc(x[i])) ++i; while (j < y.size() && sepc(y[j])) ++j; }
        }
        if (!LCD && i == x.size() && j == y.size()) return -1;
        return int(enc<T>(std::vector<uint32_t>(x.begin(), x.begin() + i)).size());
    };
    auto real = [&](const std::vector<uint32_t>& x, const std::vector<uint32_t>& y) {
        auto sx = enc<T>(x), sy = enc<T>(y);
        GuardBuf bx((sx.size() + 1) * sizeof(T)), by((sy.size() + 1) * sizeof(T));
        memcpy(bx.p(), sx.c_str(), (sx.size() + 1) * sizeof(T)); memcpy(by.p(), sy.c_str(), (sy.size() + 1) * sizeof(T));
        return str_compare<T, LCD, EX>((const T*)bx.p(), (const T*)by.p());
    };
    int w1 = model(a, b), g1 = real(a, b);
    g.check(g1 == w1, "str_compare<lcd=%d,exact_slash=%d,wide=%d> gave %d want %d", LCD, EX, int(sizeof(T) > 1), g1, w1);
    int w2 = model(b, a), g2 = real(b, a);
    g.check(g2 == w2, "swapped str_compare<lcd=%d,exact_slash=%d,wide=%d> gave %d want %d", LCD, EX, int(sizeof(T) > 1), g2, w2);
    if (!LCD) { g.check((g1 < 0) == (g2 < 0), "equality depends on the order"); g.check(real(a, a) == -1, "a string differs from itself"); if (g1 < 0) g.label("equal"); }
}

PBT_PROP(C07, compare, 4000000, 80000000, "pairs of strings, the second mostly a folded variant of the first, in every mode, narrow and wide, against a folding reference; non-trivial: the strings share a prefix but are not identical")
{
    int mode = g.below(3); bool fuzzy = g.coin();
    bool runs = g.chance(30);
    std::vector<uint32_t> a, b;
    for (int i = g.size(14); i-- > 0;) a.push_back(g.chance(15) && (a.empty() || !sepc(a.back())) ? (g.coin() ? '/' : '\\') : g.chance(15) ? c_accents[g.below(_countof(c_accents))].c : fold_cp(g));
    // Keep only characters whose case folding the reference knows.
    auto safe = [&](std::vector<uint32_t>& v) { if (mode > 0) for (auto& c : v) for (auto& x : c_accents) if (x.c == c) { bool k = false; for (auto& y : c_case) k |= y.up == c || y.lo == c; if (!k && c != 0xdf && c != 0x131 && c != 0xf8) c = x.base;  } };
    safe(a);
    size_t cut = g.chance(30) ? g.below(a.size() + 1) : a.size();
    for (size_t i = 0; i < cut; ++i) { uint32_t c = g.chance(50) ? vary(g, a[i]) : a[i]; b.push_back(c); }
    if (g.chance(25)) for (int i = g.size(4); i-- > 0;) b.push_back(g.chance(15) && (b.empty() || !sepc(b.back())) ? '/' : fold_cp(g));
    if (g.chance(15) && !b.empty()) { uint32_t c = fold_cp(g); b[g.below(b.size())] = c; }
    safe(b);
    for (auto* v : { &a, &b }) { std::vector<uint32_t> q; for (auto c : *v) if (!(sepc(c) && !q.empty() && sepc(q.back()))) q.push_back(c); *v = q; }
    if (runs) for (auto* v : { &a, &b }) { std::vector<uint32_t> q; for (auto c : *v) { q.push_back(c); if (sepc(c)) while (g.chance(40)) q.push_back(g.coin() ? '/' : '\\'); } *v = q; }
    g.note("%s vs %s mode=%d fuzzy=%d", esc(u8(a)).c_str(), esc(u8(b)).c_str(), mode, fuzzy);
    if (a != b && !a.empty() && !b.empty() && eqc(a[0], b[0], mode, fuzzy)) g.nontrivial();
    str_compare_scope scope(mode, fuzzy);
    cmp_one<char, false, false>(g, a, b, mode, fuzzy);
    cmp_one<char, true, false>(g, a, b, mode, fuzzy);
    cmp_one<wchar_t, false, false>(g, a, b, mode, fuzzy);
    cmp_one<wchar_t, true, false>(g, a, b, mode, fuzzy);
    if (!runs) { cmp_one<char, false, true>(g, a, b, mode, fuzzy); cmp_one<char, true, true>(g, a, b, mode, fuzzy); }
    // Scopes nest.
    { str_compare_scope inner(0, false); g.check(str_compare_scope::current() == 0 && !str_compare_scope::current_fuzzy_accents(), "inner scope"); }
    g.check(str_compare_scope::current() == mode && str_compare_scope::current_fuzzy_accents() == fuzzy, "scope not restored");
}

PBT_PROP(C07, accents, 160000, 3200000, "every code point of the accent table and random others through normalize_accent; non-trivial: an accented letter")
{
    uint32_t c;
    if (g.chance(70)) { c = c_accents[g.below(_countof(c_accents))].c; g.nontrivial(); }
    else { static const uint32_t lo[] = { 0x20, 0x391, 0x410, 0x4e00, 0x1f300, 0x5d0 }; int k = g.below(6); c = lo[k] + g.below(k == 0 ? 0x5f : 0x20); }
    g.note("U+%04x", c);
    g.check(uint32_t(normalize_accent(int32(c))) == ref_base(c), "normalize_accent gave %x want %x", normalize_accent(int32(c)), ref_base(c));
}
