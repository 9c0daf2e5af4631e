//: group=full
// C22 the match list.
#include <core/base.h>
#include <core/str.h>
#include <core/path.h>
#include <core/settings.h>
#include <core/str_compare.h>
#include <lib/matches.h>
#include <lib/line_state.h>
#include <lib/match_generator.h>
#include "match_pipeline.h"
#include "matches_impl.h"
#include "slash_translation.h"
#include <algorithm>
extern "C" {
#include <readline/readline.h>
#include <readline/rlprivate.h>
}
using namespace pbt;
#include "ref_match.h"

struct Cand { std::string name, disp, desc; int type; bool norm, fh, appd; char app; };
struct Entry { std::string name, disp, desc; int type; int ord; char app; bool operator<(const Entry& o) const { return std::tie(name, type, disp, desc, ord) < std::tie(o.name, o.type, o.disp, o.desc, o.ord); } };

enum { T_none = 1, T_word, T_arg, T_cmd, T_alias, T_file, T_dir, T_mask = 7, F_hidden = 0x40, F_readonly = 0x80, F_system = 0x100, F_link = 0x10, F_hist = 0x8000 };

static std::string s_fs;
static void init()
{
    settings::TEST_set_ever_loaded();
    s_fs = scratch() + "\\m";
    CreateDirectoryW(ref_utf16(s_fs).c_str(), nullptr);
    for (auto d : {"da", "Db", "d-c", "d-c\\sub"}) CreateDirectoryW(ref_utf16(s_fs + "\\" + d).c_str(), nullptr);
    for (auto f : {"fa", "ab", "d-c\\a1"}) CloseHandle(CreateFileW(ref_utf16(s_fs + "\\" + f).c_str(), GENERIC_WRITE, 0, nullptr, CREATE_ALWAYS, 0, nullptr));
    SetCurrentDirectoryW(ref_utf16(s_fs).c_str());
    rl_complete_with_tilde_expansion = 0;
    rl_preferred_path_separator = '\\';
    rl_backslash_path_sep = 1;
}
static struct Init { Init() { g_init = init; } } s_init;

static void setv(const char* name, const std::string& v) { setting* s = settings::find(name); if (!s || !s->set(v.c_str())) throw Fail{std::string("cannot set ") + name}; }

struct Env
{
    bool wild, substring, rlhidden, fhidden, fsystem, winb; int dirs, slash, mode; bool fuzzy; int ctype;
    bool dot() const { return ctype == '%' && winb; }
};

static std::vector<uint32_t> cp(const std::string& s) { return cps_of(s); }
static bool wildm(const Env& e, const std::string& pat, std::string name, int type)
{
    while (!name.empty() && sepc(name.back())) name.pop_back();
    WildModel w; w.p = cp(pat); w.f = cp(name); w.mode = e.mode; w.fuzzy = e.fuzzy; w.dot = e.dot();
    int t = type & T_mask; w.star = t == T_file || t == T_dir ? 2 : 1;
    w.init();
    return w.m(0, 0);
}
static std::string last_comp(std::string s, bool trailing)
{
    if (trailing) while (!s.empty() && sepc(s.back())) s.pop_back();
    size_t p = s.find_last_of("/\\"); return p == std::string::npos ? s : s.substr(p + 1);
}
static bool visible(const Env& e, const std::string& needle, const Entry& x)
{
    bool hid = e.rlhidden || (!last_comp(needle, false).empty() && last_comp(needle, false)[0] == '.');
    std::string n = last_comp(x.name, true);
    if (!hid && !n.empty() && n[0] == '.') return false;
    if (x.type & F_system) return e.fsystem;
    if (x.type & F_hidden) return e.rlhidden && e.fhidden;
    return true;
}
static bool can_sub(const Env& e, const std::string& n)
{
    if (n.empty() || n[0] == '~' || n[0] == '*' || !e.substring) return false;
    if (!e.wild)
        for (size_t i = 0; i < n.size(); ++i) if (n[i] == '?' || (n[i] == '*' && i + 1 < n.size() && n[i + 1] != '*')) return false;
    return true;
}
static std::string sub_pat(const std::string& n) { size_t p = n.find_last_of("/\\"); p = p == std::string::npos ? 0 : p + 1; return n.substr(0, p) + "*" + n.substr(p); }
static bool prefix_of(const Env& e, const std::string& needle, const std::string& name)
{
    auto a = cp(needle), b = cp(name);
    if (a.size() > b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!eqc(a[i], b[i], e.mode, e.fuzzy)) return false;
    return true;
}
static std::vector<Entry> ref_select(const Env& e, const std::string& needle, const std::vector<Entry>& all)
{
    std::vector<Entry> r;
    for (auto& x : all) if (visible(e, needle, x) && (e.dot() || e.wild ? wildm(e, needle + "*", x.name, x.type) : prefix_of(e, needle, x.name))) r.push_back(x);
    if (r.empty() && can_sub(e, needle)) for (auto& x : all) if (visible(e, needle[0] ? sub_pat(needle) : needle, x) && wildm(e, sub_pat(needle) + "*", x.name, x.type)) r.push_back(x);
    return r;
}
static std::vector<Entry> ref_restrict(const Env& e, const std::string& needle, const std::vector<Entry>& all)
{
    std::vector<Entry> r;
    for (auto& x : all) if (visible(e, needle, x) && wildm(e, needle, x.name, x.type)) r.push_back(x);
    if (r.empty() && can_sub(e, needle)) for (auto& x : all) if (visible(e, sub_pat(needle), x) && wildm(e, sub_pat(needle), x.name, x.type)) r.push_back(x);
    return r;
}

// Documented order: directories first, mixed or last; by the number of leading minus signs; as text, numbers by value, ignoring case first.
static int ref_order(const Env& e, const Entry& l, const Entry& r)
{
    auto isdir = [](const Entry& x) { return (x.type & T_mask) == T_dir || ((x.type & T_mask) == T_none && !(x.type & F_hist) && sepc(x.name.back())); };
    bool ld = isdir(l), rd = isdir(r);
    if (e.dirs != 1 && ld != rd) return (e.dirs == 0) == ld ? -1 : 1;
    auto strip = [](std::string s, bool d) { if (d) while (s.size() > 1 && sepc(s.back())) s.pop_back(); return s; };
    std::string a = strip(l.name, ld), b = strip(r.name, rd);
    int am = int(a.find_first_not_of('-') == std::string::npos ? a.size() : a.find_first_not_of('-')), bm = int(b.find_first_not_of('-') == std::string::npos ? b.size() : b.find_first_not_of('-'));
    if (am != bm) return am < bm ? -1 : 1;
    std::wstring wa = ref_utf16(a), wb = ref_utf16(b);
    for (DWORD fl : {DWORD(SORT_DIGITSASNUMBERS | NORM_LINGUISTIC_CASING | LINGUISTIC_IGNORECASE), DWORD(SORT_DIGITSASNUMBERS | NORM_LINGUISTIC_CASING)})
        if (int c = CompareStringW(LOCALE_USER_DEFAULT, fl, wa.c_str(), int(wa.size()), wb.c_str(), int(wb.size())) - CSTR_EQUAL) return c;
    return 0;       // the order of types with equal text is not documented
}

struct Genr : match_generator
{
    const std::vector<Cand>* cands; bool nosort; int files; bool dep; std::vector<bool> added;
    bool generate(const line_states&, match_builder& b, bool) override
    {
        if (dep) b.set_deprecated_mode();
        if (files >= 0) b.set_matches_are_files(!!files);
        if (nosort) b.set_no_sort();
        for (auto& c : *cands)
        {
            match_desc d(c.name.c_str(), c.disp.empty() ? nullptr : c.disp.c_str(), c.desc.empty() ? nullptr : c.desc.c_str(), match_type(c.type));
            d.append_char = c.app; d.append_display = c.appd;
            added.push_back(b.add_match(d, c.norm));
        }
        return true;
    }
    void get_word_break_info(const line_state&, word_break_info&) const override {}
};

static Entry entry_of(matches_impl& m, unsigned i)
{
    Entry x; const char* s;
    x.name = (s = m.get_match(i)) ? s : "(null)"; x.disp = (s = m.get_match_display(i)) ? s : ""; x.desc = (s = m.get_match_description(i)) ? s : "";
    x.type = int(m.get_match_type(i)); x.ord = int(m.get_match_ordinal(i)); x.app = m.get_match_append_char(i);
    return x;
}
static std::string show(const std::vector<Entry>& v, bool ords = false) { std::string s; for (auto& x : v) { char t[40]; sprintf(t, ":%x ", x.type); s += esc(x.name) + (x.disp.empty() ? "" : "[" + esc(x.disp) + "]") + t; if (ords) s += "#" + std::to_string(x.ord) + " "; } return s; }

static std::string gen_name(Gen& g)
{
    std::string n;
    if (g.chance(25)) n = g.pick({"da", "Db", "d-c", "fa", "ab", "d-c\\a1", "d-c/sub", "d-c\\sub"});
    else
    {
        if (g.chance(20)) n = g.pick({"d-c\\", "d-c/", "x\\", "C:\\", "a/"});
        if (g.chance(12)) n += '.';
        if (g.chance(8)) n += g.coin() ? "-" : "--";
        int k = 1 + g.size(5);
        while (k-- > 0) n += g.chance(8) ? g.pick({"\xc3\xa9", "\xc3\x89", "e", "\xc3\xa4", "\xe6\x97\xa5", "\xf0\x9f\x98\x80"}) : std::string(1, g.ch("abAB12_-. c"));
    }
    while (!n.empty() && (n.back() == ' ' || n.back() == '.')) n.back() = 'c';     // Windows drops trailing periods and spaces
    if (g.chance(8)) n += g.coin() ? '\\' : '/';
    return n;
}

PBT_PROP(C22, list, 600000, 6000000, "at least two candidates are selected and at least one is not")
{
    Env e;
    e.wild = !g.chance(40); e.substring = g.coin(); e.rlhidden = !g.chance(30); e.fhidden = !g.chance(30); e.fsystem = g.chance(30); e.winb = g.chance(30);
    e.dirs = int(g.below(3)); e.slash = int(g.below(5)); e.mode = int(g.below(3)); e.fuzzy = g.coin(); e.ctype = g.chance(30) ? '%' : '\t';
    setv("match.wild", e.wild ? "1" : "0"); setv("match.substring", e.substring ? "1" : "0"); setv("files.hidden", e.fhidden ? "1" : "0"); setv("files.system", e.fsystem ? "1" : "0");
    setv("clink.default_bindings", e.winb ? "windows" : "bash"); setv("match.sort_dirs", std::to_string(e.dirs)); setv("match.translate_slashes", std::to_string(e.slash));
    _rl_match_hidden_files = e.rlhidden; rl_completion_type = e.ctype;
    str_compare_scope scope(e.mode, e.fuzzy);
    g.note("wild %d substring %d hidden %d/%d system %d windows %d type %c dirs %d slash %d mode %d fuzzy %d\n", e.wild, e.substring, e.rlhidden, e.fhidden, e.fsystem, e.winb, e.ctype == '%' ? '%' : 't', e.dirs, e.slash, e.mode, e.fuzzy);

    // Candidates.
    std::vector<Cand> cs; int n = 1 + g.size(12); bool flags = g.chance(40);
    static const int types[] = {T_file, T_none, T_dir, T_word, T_arg, T_cmd, T_alias};
    for (int i = 0; i < n; ++i)
    {
        Cand c; c.app = 0; c.norm = false; c.appd = false;
        if (!cs.empty() && g.chance(30)) { c.name = cs[g.below(cs.size())].name; if (g.chance(40)) c.name = u8([&] { auto v = cp(c.name); if (!v.empty()) { auto& q = v[g.below(v.size())]; q = vary(g, q); } return v; }()); }
        else c.name = g.chance(2) ? "" : gen_name(g);
        c.type = types[g.chance(70) ? g.below(3) : g.below(7)];
        if (flags) { if (g.chance(20)) c.type |= F_hidden; if (g.chance(15)) c.type |= F_system; if (g.chance(15)) c.type |= F_readonly; if (g.chance(15)) c.type |= F_hist; }
        if (g.chance(15)) c.disp = "D" + std::to_string(i); if (g.chance(15)) c.desc = "about " + std::to_string(i);
        c.norm = g.chance(20); if (g.chance(10)) c.app = '='; c.appd = g.chance(10);
        cs.push_back(c);
    }
    std::string endword = g.pick({"", "a", "d-c/a", "x\\b/c", "/"});
    Genr gen; gen.cands = &cs; gen.nosort = g.chance(20); gen.files = g.chance(30) ? int(g.below(2)) : -1; gen.dep = g.chance(15);
    { std::string s; for (auto& c : cs) { char t[20]; sprintf(t, ":%x%s ", c.type, c.norm ? "n" : ""); s += esc(c.name) + t; } g.note("candidates %s\nendword %s nosort %d files %d deprecated %d\n", s.c_str(), endword.c_str(), gen.nosort, gen.files, gen.dep); }

    // The real thing.
    matches_impl m; match_pipeline p(m); p.reset();
    std::vector<word> words; words.emplace_back(0, uint32(endword.size()), true, false, false, false, false, 0);
    line_states ls; ls.emplace_back(endword.c_str(), uint32(endword.size()), uint32(endword.size()), uint32(endword.size()), 0, 0, uint32(endword.size()), words);
    p.generate(ls, &gen);

    // Model.
    std::vector<Entry> all;
    char sep = 0; for (char c : endword) if (sepc(c)) { sep = c; break; }
    auto same = [](const Entry& a, const std::string& name, int type) { return a.name == name && (a.type == type || ((a.type | type) & F_hist)); };
    bool fcd = gen.files == 1, any_none = false; int ordn = 0;
    for (size_t i = 0; i < cs.size(); ++i)
    {
        auto& c = cs[i]; bool want = !c.name.empty();
        if (want)
        {
            std::string name = c.name; int type = c.type; bool es = sepc(name.back());
            if (es && (type & T_mask) == T_none && !(type & F_hist)) type = (type & ~T_mask) | T_dir;
            int t = type & T_mask;
            bool tr = e.slash && (e.slash > 1 || !c.norm) && (t == T_dir || t == T_file || (t == T_none && fcd && (type & F_hist)));
            if (t == T_dir && !es && !(name.size() == 2 && name[1] == ':')) name += '\\';
            if (tr) { char s = e.slash == 2 ? '/' : e.slash == 3 ? '\\' : e.slash == 4 && sep ? sep : '\\'; for (auto& ch : name) if (sepc(ch)) ch = s; }
            for (auto& x : all) want &= !same(x, name, type);
            if (want) { all.push_back({name, c.disp, c.desc, type, ordn++, c.app}); any_none |= t == T_none; }
        }
        g.check(gen.added[i] == want, "candidate %d added %d want %d", int(i), int(gen.added[i]), want);
    }
    if (any_none && (gen.dep ? gen.files == 1 : gen.files != 0))
    {
        char s = e.slash == 2 ? '/' : e.slash == 3 ? '\\' : e.slash == 4 ? sep : '\\';
        for (int i = int(all.size()); i-- > 0;)
        {
            auto& x = all[i];
            if ((x.type & T_mask) != T_none || (x.type & F_hist)) continue;
            DWORD a = GetFileAttributesW(ref_utf16(x.name).c_str());
            int type = T_file;
            if (a != INVALID_FILE_ATTRIBUTES) { type = a & FILE_ATTRIBUTE_DIRECTORY ? T_dir : T_file; if (a & FILE_ATTRIBUTE_HIDDEN) type |= F_hidden; if (a & FILE_ATTRIBUTE_SYSTEM) type |= F_system; if (a & FILE_ATTRIBUTE_READONLY) type |= F_readonly; }
            x.type = type; if ((type & T_mask) == T_dir) x.name += s ? s : '\\';
            bool dup = false; for (int k = 0; k < int(all.size()); ++k) dup |= k != i && ((all[k].type & T_mask) != T_none || (all[k].type & F_hist) || k > i || true) && same(all[k], x.name, x.type);
            if (dup) all.erase(all.begin() + i);
        }
    }
    auto compare = [&](const char* what, std::vector<Entry> want, bool ordered) {
        std::vector<Entry> got; for (unsigned i = 0; i < m.get_match_count(); ++i) got.push_back(entry_of(m, i));
        std::string sg = show(got, true), sw = show(want, true);
        if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
        bool eq = got.size() == want.size(); for (size_t i = 0; eq && i < got.size(); ++i) eq = !(got[i] < want[i]) && !(want[i] < got[i]) && got[i].app == want[i].app;
        g.check(eq, "%s: %s want %s", what, sg.c_str(), sw.c_str());
    };
    compare("generated", all, true);

    // Selections.
    int steps = 1 + g.size(3); std::vector<Entry> sel = all;
    for (int k = 0; k < steps; ++k)
    {
        std::string needle;
        if (g.chance(80) && !cs.empty())
        {
            auto v = cp(g.pick(cs).name); v.resize(std::min<size_t>(v.size(), g.below(v.size() + 1)));
            if (g.chance(20) && v.size() > 1) v.erase(v.begin());
            for (auto& q : v) if (g.chance(12)) q = vary(g, q); else if (g.chance(6)) q = g.coin() ? '*' : '?';
            needle = u8(v);
        }
        else needle = g.text("abd-c12.*?", 4);
        { std::string q; for (char c : needle) if (!(sepc(c) && !q.empty() && sepc(q.back()))) q += c; needle = q; }
        // A star before a separator is outside the model.
        if (std::count(needle.begin(), needle.end(), '*') > 6) continue;
        bool bad = needle[0] == '~'; for (size_t i = 1; i < needle.size(); ++i) bad |= sepc(needle[i]) && (needle[i - 1] == '*' || needle[i - 1] == '?'); for (size_t i = 1; i < needle.size(); ++i) bad |= needle[i] == '?' && needle[i - 1] == '*';
        if (bad) continue;
        if (g.chance(20))
        {
            g.note("restrict %s\n", esc(needle).c_str());
            str<> nd(needle.c_str()); p.restrict(nd);
            sel = all = ref_restrict(e, needle, all);
            g.check(std::string(nd.c_str()) == needle.substr(0, needle.find_first_of("*?")), "restrict left needle %s", esc(nd.c_str()).c_str());
            compare("restricted", sel, false);
        }
        else
        {
            g.note("select %s\n", esc(needle).c_str());
            p.select(needle.c_str());
            size_t before = all.size();
            sel = ref_select(e, needle, all);
            compare("selected", sel, false);
            if (sel.size() >= 2 && sel.size() < before) g.nontrivial();
        }
        bool any = false, every = true; for (auto& x : sel) { bool pf = (x.type & T_mask) >= T_file; any |= pf; every &= pf; }
        bool wantc = gen.files >= 0 ? gen.files == 1 : any;
        g.check(m.is_filename_completion_desired().get() == wantc, "filename completion %d want %d", m.is_filename_completion_desired().get(), wantc);
        bool wantd = gen.files >= 0 ? gen.files == 1 : any && every;
        g.check(m.is_filename_display_desired().get() == wantd, "filename display %d want %d", m.is_filename_display_desired().get(), wantd);
        if (g.chance(50))
        {
            p.sort();
            std::vector<Entry> got; for (unsigned i = 0; i < m.get_match_count(); ++i) got.push_back(entry_of(m, i));
            for (size_t i = 1; i < got.size(); ++i)
                g.check(gen.nosort ? got[i - 1].ord < got[i].ord : ref_order(e, got[i - 1], got[i]) <= 0, "out of order at %d: %s", int(i), show(got, true).c_str());
            compare("sorted", sel, false);
        }
        // The common prefix.
        if (m.get_match_count())
        {
            str<> lcd; m.get_lcd(lcd);
            auto first = cp(m.get_match(0)); size_t len = first.size();
            for (unsigned i = 1; i < m.get_match_count(); ++i) { auto o = cp(m.get_match(i)); size_t k2 = 0; while (k2 < len && k2 < o.size() && eqc(first[k2], o[k2], e.mode, e.fuzzy)) ++k2; len = k2; }
            first.resize(len);
            g.check(u8(first) == lcd.c_str(), "common prefix %s want %s of %s", esc(lcd.c_str()).c_str(), esc(u8(first)).c_str(), show(sel).c_str());
        }
        // Iteration with a pattern.
        if (g.chance(40))
        {
            std::string pat = needle + (g.coin() ? "*" : "");
            std::vector<std::string> got, want;
            for (matches_iter it = m.get_iter(pat.c_str()); it.next();) got.push_back(it.get_match());
            for (unsigned i = 0; i < m.get_match_count(); ++i) if (wildm(e, pat, m.get_match(i), int(m.get_match_type(i)))) want.push_back(m.get_match(i));
            if (want.empty() && can_sub(e, pat)) for (unsigned i = 0; i < m.get_match_count(); ++i) if (wildm(e, sub_pat(pat), m.get_match(i), int(m.get_match_type(i)))) want.push_back(m.get_match(i));
            std::string a, b; for (auto& x : got) a += esc(x) + " "; for (auto& x : want) b += esc(x) + " ";
            g.check(a == b, "iterating %s: %s want %s", esc(pat).c_str(), a.c_str(), b.c_str());
        }
        if (g.chance(15))
        {
            matches_impl* o = new matches_impl; std::vector<Entry> before; for (unsigned i = 0; i < m.get_match_count(); ++i) before.push_back(entry_of(m, i));
            bool tr = g.coin(); if (tr) { o->transfer(m); m.transfer(*o); } else { o->copy(m); m.copy(*o); }
            delete o;
            if (tr) compare("transferred", before, true);
            else { for (auto& x : all) x.ord = 0; for (auto& x : before) x.ord = 0; g.check(m.get_match_count() == before.size(), "copied count"); for (unsigned i = 0; i < m.get_match_count(); ++i) { auto x = entry_of(m, i); x.ord = 0; g.check(!(x < before[i]) && !(before[i] < x), "copied entry %d differs", int(i)); } break; }
        }
    }
}

PBT_PROP(C22, many, 16, 64, "more candidates than fit 16 bits")
{
    Env e{true, false, true, true, false, false, 1, 0, 1, false, '\t'};
    setv("match.wild", "1"); setv("match.substring", "0"); setv("files.hidden", "1"); setv("files.system", "0"); setv("clink.default_bindings", "bash"); setv("match.sort_dirs", "1"); setv("match.translate_slashes", "0");
    _rl_match_hidden_files = 1; rl_completion_type = '\t';
    str_compare_scope scope(1, false);
    int n = g.coin() ? 65530 + int(g.below(12)) : 66000 + int(g.below(70000)), mod = 2 + int(g.below(8));
    std::vector<Cand> cs(n); for (int i = 0; i < n; ++i) { cs[i].name = std::string(1, char('a' + i % mod)) + std::to_string(i); cs[i].type = T_word; cs[i].app = 0; cs[i].norm = cs[i].appd = false; }
    Genr gen; gen.cands = &cs; gen.nosort = true; gen.files = -1; gen.dep = false;
    matches_impl m; match_pipeline p(m); p.reset();
    std::vector<word> words; words.emplace_back(0, 0, true, false, false, false, false, 0);
    line_states ls; ls.emplace_back("", 0, 0, 0, 0, 0, 0, words);
    p.generate(ls, &gen);
    g.nontrivial(); g.note("%d candidates, %d letters\n", n, mod);
    g.check(int(m.get_match_count()) == n, "%d of %d candidates", int(m.get_match_count()), n);
    p.select(""); p.sort();
    g.check(int(m.get_match_count()) == n, "%d of %d candidates selected", int(m.get_match_count()), n);
    for (int i = 0; i < n; i += 1 + i % 97) g.check(cs[i].name == m.get_match(i), "match %d is %s", i, m.get_match(i));
    int want = 0; for (int i = 0; i < n; ++i) want += i % mod == 1;
    p.select("b");
    g.check(int(m.get_match_count()) == want, "%d matches for b want %d", int(m.get_match_count()), want);
    matches_impl o; o.copy(m); g.check(int(o.get_match_count()) == want, "copied %d", int(o.get_match_count()));
}
