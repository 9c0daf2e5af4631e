//: group=core lflags=-Wl,--wrap=fopen,--wrap=fclose
// C09 settings persistence, C10 setting values.
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <set>
#include <memory>
using namespace pbt;

// Every stream is closed exactly once.
extern "C" { FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); }
static std::set<FILE*> s_open; static int s_bad_close;
extern "C" FILE* __wrap_fopen(const char* n, const char* m) { FILE* f = __real_fopen(n, m); if (f) s_open.insert(f); return f; }
extern "C" int __wrap_fclose(FILE* f) { if (!s_open.erase(f)) { ++s_bad_close; return -1; } return __real_fclose(f); }

static std::string lc(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }

//---- reference value parsers ---------------------------------------------------------------
static bool ref_bool(const std::string& v, std::string& out)
{
    std::string t = lc(trim(v));
    if (t == "true" || t == "on" || t == "yes") { out = "True"; return true; }
    if (t == "false" || t == "off" || t == "no") { out = "False"; return true; }
    if (!t.empty() && t[0] >= '0' && t[0] <= '9') { bool nz = false; for (char c : t) { if (c < '0' || c > '9') break; nz |= c != '0'; } out = nz ? "True" : "False"; return true; }
    return false;
}
static bool ref_int(const std::string& v, std::string& out)
{
    if (v.empty() || !((v[0] >= '0' && v[0] <= '9') || v[0] == '-')) return false;
    long long n = 0; for (size_t i = v[0] == '-'; i < v.size() && v[i] >= '0' && v[i] <= '9' && i < 12; ++i) n = n * 10 + (v[i] - '0');
    out = std::to_string(v[0] == '-' ? -n : n);
    return true;
}
static bool ref_enum(const std::vector<std::string>& opts, const std::string& v, std::string& out)
{
    for (auto& o : opts) if (lc(o) == lc(v)) { out = o; return true; }
    if (v.empty() || v.size() > 6) return false;
    size_t n = 0; for (char c : v) { if (c < '0' || c > '9') return false; n = n * 10 + (c - '0'); }
    if (n >= opts.size()) return false;
    out = opts[n];
    return true;
}
static const char* const c_colors[] = { "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white" };
struct Half { int kind = 0; int n = 0; bool bright = false; };     // kind: 0 none, 1 default, 2 named, 3 hex
static bool ref_color(const std::string& v, std::string& out)
{
    if (v.empty()) { out = ""; return true; }
    std::vector<std::string> t; { std::string w; for (char c : v + " ") if (c == ' ') { if (!w.empty()) t.push_back(lc(w)); w.clear(); } else w += c; }
    if (!t.empty() && (t[0] == "sgr" || t[0] == "ansi"))
    {
        if (t.size() > 2) return false;
        out = ""; if (t.size() == 2) { size_t at = lc(v).find(t[1], lc(v).find(t[0]) + t[0].size()); out = v.substr(at, t[1].size()); }
        return true;
    }
    Half h[2]; int cur = 0; int bold = -1, ul = -1; bool it = false, rev = false; bool brightset[2] = {};
    for (auto& w : t)
    {
        auto is = [&](const char* n) { return w.compare(0, 3, n, 3) == 0; };
        Half& x = h[cur];
        if (w == "on") { if (cur) return false; cur = 1; continue; }
        if (is("normal") || is("default")) { if (x.kind) return false; x.kind = 1; continue; }
        if (is("bold") || is("nobold") || is("dim")) { if (cur || bold >= 0) return false; bold = is("bold"); continue; }
        if (is("bright")) { if (x.kind == 3 || brightset[cur]) return false; brightset[cur] = x.bright = true; continue; }
        if (is("underline") || is("nounderline")) { if (cur || ul >= 0) return false; ul = is("underline"); continue; }
        if (is("italic")) { if (cur || it) return false; it = true; continue; }
        if (is("reverse")) { if (rev) return false; rev = true; continue; }
        if (w[0] == '#' && (w.size() == 4 || w.size() == 7) && w.find_first_not_of("0123456789abcdef", 1) == std::string::npos)
        {
            if (x.kind >= 2 || brightset[cur]) return false;
            x.kind = 3; std::string d = w.substr(1), e; if (d.size() == 3) for (char c : d) { e += c; e += c; } else e = d;
            x.n = int(strtol(e.c_str(), nullptr, 16)); continue;
        }
        int i = 0; while (i < 8 && !is(c_colors[i])) ++i;
        if (i == 8) return false;
        if (x.kind >= 2) return false;
        x.kind = 2; x.n = i;
    }
    out = "0";
    if (rev) out += ";7";
    if (bold >= 0) out += bold ? ";1" : ";22";
    if (it) out += ";3";
    if (ul > 0) out += ";4";
    for (int k = 0; k < 2; ++k)
    {
        char b[40];
        if (h[k].kind == 2) { sprintf(b, ";%d", h[k].n + (h[k].bright ? 90 : 30) + k * 10); out += b; }
        if (h[k].kind == 3) { sprintf(b, ";%d;2;%d;%d;%d", 38 + k * 10, h[k].n >> 16, (h[k].n >> 8) & 255, h[k].n & 255); out += b; }
    }
    return true;
}
// What an SGR string denotes.
struct Sgr { int bold = 0; bool it = false, ul = false, rev = false; long fg = -1, bg = -1; bool operator == (const Sgr& o) const { return bold == o.bold && it == o.it && ul == o.ul && rev == o.rev && fg == o.fg && bg == o.bg; } };
static bool denote(const std::string& s, Sgr& r)
{
    std::vector<int> v; int n = 0; bool any = false;
    for (char c : s + ";") if (c == ';') { v.push_back(n); n = 0; } else if (c >= '0' && c <= '9') { n = n * 10 + c - '0'; if (n > 9999) return false; any = true; } else return false;
    if (!any) return false;
    for (size_t i = 0; i < v.size(); ++i)
    {
        int x = v[i];
        if (x == 0) r = Sgr(); else if (x == 1) r.bold = 1; else if (x == 22) r.bold = 0; else if (x == 3) r.it = true; else if (x == 4) r.ul = true; else if (x == 7) r.rev = true;
        else if (x >= 30 && x < 38) r.fg = x - 30; else if (x >= 90 && x < 98) r.fg = x - 90 + 8; else if (x == 39) r.fg = -1;
        else if (x >= 40 && x < 48) r.bg = x - 40; else if (x >= 100 && x < 108) r.bg = x - 100 + 8; else if (x == 49) r.bg = -1;
        else if ((x == 38 || x == 48) && i + 4 < v.size() && v[i + 1] == 2) { if (v[i + 2] > 255 || v[i + 3] > 255 || v[i + 4] > 255) return false; long c = 0x1000000 + (v[i + 2] << 16) + (v[i + 3] << 8) + v[i + 4]; (x == 38 ? r.fg : r.bg) = c; i += 4; }
        else return false;
    }
    return true;
}

//---- generators ------------------------------------------------------------------------------
static std::string word_case(Gen& g, const char* w) { std::string s = w; int k = g.below(4); if (k == 1) for (auto& c : s) c = toupper(c); else if (k == 2) s[0] = toupper(s[0]); else if (k == 3) for (auto& c : s) if (g.coin()) c = toupper(c); return s; }
static std::string gen_color_half(Gen& g)
{
    std::string s;
    int k = g.below(6);
    if (k != 5 && g.chance(30)) s += word_case(g, "bright").substr(0, 3 + g.below(4)) + " ";
    if (k == 0) return s;
    if (k == 4) return s + g.pick({"default", "normal", "def", "NORMAL"}) + " ";
    if (k == 5) { std::string h = "#"; for (int n = g.coin() ? 3 : 6; n-- > 0;) h += g.ch("0123456789abcdefABCDEF"); return h + " "; }
    std::string c = c_colors[g.below(8)]; c = word_case(g, c.c_str());
    return s + c.substr(0, 3 + g.below(c.size() - 2)) + " ";
}
static std::string gen_color(Gen& g)
{
    switch (g.below(10))
    {
    case 0: return "";
    case 1: { std::string s = g.pick({"sgr ", "ansi ", "SGR ", "sgr  "}); for (int n = g.size(6); n >= 0; --n) { s += std::to_string(g.pick(std::vector<int>{ 0, 1, 3, 4, 7, 22, 30, 31, 37, 38, 39, 40, 47, 48, 49, 90, 97, 100, 107, 2, 255, 5 })); if (n) s += ";"; } return s; }
    case 2: { static const char* w[] = { "red", "on", "bold", "bright", "blue", "#123", "default", "dim", "nobold", "reverse", "italic", "underline", "nounderline", "bogus", "#12", "#12345g", "sgr", "ita", "reddish", "on", "r" }; std::string s; for (int n = g.size(5); n >= 0; --n) { s += w[g.below(_countof(w))]; if (n) s += " "; } return s; }
    default:
    {
        std::vector<std::string> a;
        if (g.chance(30)) a.push_back(word_case(g, g.pick({"bold", "nobold", "dim"})) + " ");
        if (g.chance(25)) a.push_back(word_case(g, g.pick({"underline", "und", "nounderline"})) + " ");
        if (g.chance(20)) a.push_back(word_case(g, "italic") + " ");
        if (g.chance(20)) a.push_back(word_case(g, "reverse") + " ");
        size_t at = g.below(a.size() + 1);
        std::string s; for (size_t i = 0; i < at; ++i) s += a[i];
        s += gen_color_half(g);
        for (size_t i = at; i < a.size(); ++i) s += a[i];
        if (g.coin()) { s += word_case(g, "on") + " "; if (g.chance(10)) s += g.pick({"reverse ", "bold "}); s += gen_color_half(g); }
        while (!s.empty() && s.back() == ' ' && g.chance(90)) s.pop_back();
        return s;
    } }
}
static std::string gen_text(Gen& g, int max) { std::string s; for (int n = g.size(max); n-- > 0;) s += g.chance(10) ? utf8_of(0xa0 + g.below(0x300)) : std::string(1, g.ch("abcXYZ019 =#;:,.[]%\\/\"'^&|-_\t~!")); return s; }

//---- the settings under test -----------------------------------------------------------------
static const std::vector<std::string> c_opts1 = { "off", "prompt", "always", "not_squoted" }, c_opts2 = { "zero", "One", "TWO", "three-3", "four" };
enum Ty { tb, ti, ts, te, tc };
struct Def { const char* name; Ty ty; const char* def; const std::vector<std::string>* opts; };
static const Def c_known[] = {
    { "t.bool_on", tb, "True" }, { "t.bool_off", tb, "False" }, { "t.int", ti, "42" }, { "t.int_neg", ti, "-1" }, { "t.str", ts, "a default" }, { "t.str_empty", ts, "" },
    { "t.enum", te, "prompt", &c_opts1 }, { "T.Enum2", te, "zero", &c_opts2 }, { "t.color", tc, "" }, { "t.color_set", tc, "bold bright red on blue" }, { "t.color_rgb", tc, "#102030 on #fff" } };
static const Def c_script[] = { { "s.flag", tb, "False" }, { "s.count", ti, "7" }, { "s.text", ts, "x" }, { "s.mode", te, "off", &c_opts1 }, { "s.shade", tc, "green" } };
static std::vector<std::unique_ptr<std::string>> s_names;

static bool ref_parse(const Def& d, const std::string& v, std::string& out)
{
    switch (d.ty) { case tb: return ref_bool(v, out); case ti: return ref_int(v, out); case te: return ref_enum(*d.opts, v, out); case tc: return ref_color(v, out); default: out = v; return true; }
}
static std::string canon(const Def& d) { std::string o; if (d.ty == ts) return d.def; ref_parse(d, d.def, o); return o; }
static std::string join_opts(const std::vector<std::string>& v) { std::string s; for (auto& o : v) { if (!s.empty()) s += ','; s += o; } return s; }
static setting* make(const Def& d)
{
    std::string desc = std::string("About ") + d.name;
    switch (d.ty)
    {
    case tb: return new setting_bool(d.name, desc.c_str(), "Long text.", !strcmp(d.def, "True"));
    case ti: return new setting_int(d.name, desc.c_str(), "Long text.", atoi(d.def));
    case ts: return new setting_str(d.name, desc.c_str(), d.def);
    case te: { int i = 0; for (auto& o : *d.opts) { if (o == d.def) break; ++i; } return new setting_enum(d.name, desc.c_str(), join_opts(*d.opts).c_str(), i); }
    default: return new setting_color(d.name, desc.c_str(), d.def);
    }
}
static void deferred(setting* s, Ty ty)
{
    switch (ty) { case tb: ((setting_bool*)s)->deferred_load(); break; case ti: ((setting_int*)s)->deferred_load(); break; case te: ((setting_enum*)s)->deferred_load(); break; case tc: ((setting_color*)s)->deferred_load(); break; default: ((setting_str*)s)->deferred_load(); }
}
static std::string gen_value(Gen& g, const Def& d)
{
    switch (d.ty)
    {
    case tb: return g.chance(20) ? gen_text(g, 4) : word_case(g, g.pick({"true", "false", "on", "off", "yes", "no", "1", "0", "00", "10", "0abc", "true ", " no", "tru", "2"}));
    case ti: return g.chance(20) ? gen_text(g, 4) : g.chance(10) ? g.pick({"2147483647", "-2147483648", "-", "0x10", "7up", "+1", ""}) : std::to_string(g.range(-3000, 3000));
    case te: { auto& o = *d.opts; int k = g.below(8); if (k == 6) return std::to_string(g.below(7)); if (k == 7) return g.coin() ? gen_text(g, 4) : o[g.below(o.size())].substr(0, 2); std::string s = o[g.below(o.size())]; return k < 3 ? s : word_case(g, s.c_str()); }
    case tc: return gen_color(g);
    default: return gen_text(g, g.chance(5) ? 400 : 12);
    }
}
// A value that a "name = value" line can carry.
static std::string line_value(const std::string& v) { size_t a = v.find_first_not_of(" \t"); return a == std::string::npos ? "" : v.substr(a); }

//---- C10 -----------------------------------------------------------------------------------
static setting* s_known[_countof(c_known)];
static void init()
{
    settings::TEST_set_ever_loaded();
    for (size_t i = 0; i < _countof(c_known); ++i) s_known[i] = make(c_known[i]);
}
static bool s_reg = (g_init = init, true);

PBT_PROP(C10, values, 3000000, 60000000, "a value string for a setting of each type (valid in any spelling, near misses, arbitrary text): acceptance and stored value against reference parsers, rejection keeps the old value, the printed form parses back to the same value; non-trivial: the value differs from the previous one or is rejected")
{
    settings::load(nullptr);
    size_t k = g.below(_countof(c_known));
    const Def& d = c_known[k]; setting* s = s_known[k];
    std::string cur = canon(d);
    str<> o; s->get(o);
    g.check(o.c_str() == cur, "%s starts as %s want %s", d.name, esc(o.c_str()).c_str(), esc(cur).c_str());
    g.check(s->is_default(), "not at its default after reset");
    for (int n = 1 + g.size(3); n-- > 0;)
    {
        std::string v = gen_value(g, d), want = cur;
        g.note("%s = %s;", d.name, esc(v).c_str());
        if (d.ty == ti) { std::string x; if (ref_int(v, x) && (x.size() > 11 || std::stoll(x) != (long long)(int)std::stoll(x))) continue; }
        bool ok = ref_parse(d, v, want);
        bool got = s->set(v.c_str());
        g.check(got == ok, "set returned %d want %d", got, ok);
        s->get(o);
        g.check(o.c_str() == want, "value is %s want %s", esc(o.c_str()).c_str(), esc(want).c_str());
        if (!ok || want != cur) g.nontrivial();
        if (!ok) g.label("rejected");
        cur = want;
        if (ok) g.check(s->is_saveable(), "a set value is not saveable");
        // Printed forms.
        for (int compat = 0; compat < 2; ++compat)
        {
            str<> p; s->get_descriptive(p, compat != 0);
            setting* t = s_known[k];
            if (d.ty == tc)
            {
                str<> back;
                g.check(settings::parse_color(p.c_str(), back), "printed form %s is not accepted", esc(p.c_str()).c_str());
                Sgr a, b;
                bool da = denote(cur, a), db = denote(back.c_str(), b);
                if (da) g.check(db && a == b, "printed form %s denotes %s not %s", esc(p.c_str()).c_str(), esc(back.c_str()).c_str(), esc(cur).c_str());
                else if (cur != back.c_str()) g.check(false, "printed form %s parses to %s not %s", esc(p.c_str()).c_str(), esc(back.c_str()).c_str(), esc(cur).c_str());
                std::string lead = lc(line_value(v));
                if (ok && lead.compare(0, 4, "sgr ") && lead.compare(0, 5, "ansi ")) g.check(cur == back.c_str(), "printed form %s parses to %s not %s", esc(p.c_str()).c_str(), esc(back.c_str()).c_str(), esc(cur).c_str());
            }
            else
            {
                g.check(t->set(p.c_str()), "printed form %s is not accepted", esc(p.c_str()).c_str());
                t->get(o); g.check(o.c_str() == cur, "printed form %s parses to %s not %s", esc(p.c_str()).c_str(), esc(o.c_str()).c_str(), esc(cur).c_str());
            }
        }
        g.check(s->is_default() == (cur == canon(d)), "is_default is %d", s->is_default());
    }
    s->set();
    s->get(o); g.check(o.c_str() == canon(d) && !s->is_saveable(), "reset gave %s", esc(o.c_str()).c_str());
    s->get_default(o);
    if (d.ty != tc) g.check(o.c_str() == canon(d), "get_default gave %s", esc(o.c_str()).c_str());
}

PBT_PROP(C10, colors, 3000000, 60000000, "color descriptions (documented grammar in any order and spelling, and near misses) against a reference translation to SGR; formatting any SGR gives a description denoting the same attributes; non-trivial: at least two words")
{
    std::string v = gen_color(g), want;
    g.note("%s", esc(v).c_str());
    if (v.find(' ') != std::string::npos) g.nontrivial();
    bool ok = ref_color(v, want);
    str<> o("old");
    bool got = settings::parse_color(v.c_str(), o);
    g.check(got == ok, "parse_color returned %d want %d", got, ok);
    if (!ok) { g.label("rejected"); g.check(o.equals("old"), "a rejected color changed the output to %s", o.c_str()); return; }
    g.check(o.c_str() == want, "parse_color gave %s want %s", esc(o.c_str()).c_str(), esc(want).c_str());
    for (int compat = 0; compat < 2; ++compat)
    {
        str<> p, back; settings::format_color(want.c_str(), p, compat != 0);
        Sgr a, b;
        g.check(settings::parse_color(p.c_str(), back), "format_color gave %s, which is not accepted", esc(p.c_str()).c_str());
        if (denote(want, a)) g.check(denote(back.c_str(), b) && a == b, "format_color gave %s for %s", esc(p.c_str()).c_str(), esc(want).c_str());
        else g.check(want == back.c_str(), "format_color gave %s for %s", esc(p.c_str()).c_str(), esc(want).c_str());
        if (compat && want.find('#') == std::string::npos) g.check(!strchr(p.c_str(), '#'), "24-bit color in compat form %s", p.c_str());
    }
}

//---- C09 -----------------------------------------------------------------------------------
struct Val { std::string v; bool save; };
struct Unk { std::string comment, value; };
struct Entry { std::string comment, key, value; };
typedef std::map<std::string, std::string> Defaults;
struct Model
{
    std::map<std::string, const Def*> defs;         // by lower-case name
    std::map<std::string, Val> vals;
    std::map<std::string, Unk> unk;
    Defaults custom;                                // by exact name
    const Def* find(const std::string& n) { auto it = defs.find(lc(n)); return it == defs.end() ? nullptr : it->second; }
    void reset(const Def& d)
    {
        std::string c = canon(d), v = c;
        auto it = custom.find(d.name); std::string x;
        if (it != custom.end() && ref_parse(d, it->second, x)) v = x;
        vals[d.name] = { v, v != c };
    }
    bool set(const std::string& n, const std::string& v, const std::string* comment)
    {
        const Def* d = find(n);
        if (!d) { Unk u; u.value = v; if (comment) u.comment = *comment; else if (unk.count(n)) u.comment = unk[n].comment; unk[n] = u; return true; }
        std::string x; if (!ref_parse(*d, v, x)) return false;
        vals[d->name] = { x, true };
        return true;
    }
    void clear(const std::string& n) { const Def* d = find(n); if (d) reset(*d); else unk.erase(n); }
    void load(const std::vector<Entry>& f, const Defaults& c) { custom = c; unk.clear(); for (auto& i : defs) reset(*i.second); for (auto& e : f) set(e.key, e.value, &e.comment); }
    // Entries that saving writes; known ones without comments.
    std::vector<Entry> save()
    {
        std::vector<Entry> o;
        for (auto& i : defs) { auto& v = vals[i.second->name]; if (v.save) o.push_back({ "", i.second->name, v.v }); }
        for (auto& u : unk) if (!defs.count(lc(u.first)) || defs[lc(u.first)]->name != u.first) o.push_back({ u.second.comment, u.first, u.second.value });
        return o;
    }
};
static std::string read_file(const std::string& f) { std::string s; if (FILE* h = __real_fopen(f.c_str(), "rb")) { char b[8192]; size_t n; while ((n = fread(b, 1, sizeof(b), h)) > 0) s.append(b, n); __real_fclose(h); } return s; }
static void write_file(const std::string& f, const std::string& s) { FILE* h = __real_fopen(f.c_str(), "wb"); if (h) { fwrite(s.data(), 1, s.size(), h); __real_fclose(h); } }
// Reference reader of the file format.
static std::vector<Entry> ref_read(const std::string& s)
{
    std::vector<Entry> o; std::string comment, line; bool was = false;
    for (size_t i = 0; i <= s.size(); ++i)
    {
        if (i < s.size() && s[i] != '\n' && s[i] != '\r') { line += s[i]; continue; }
        if (line.empty()) continue;
        if (!was) comment.clear();
        std::string l = line_value(line); line.clear();
        if (!l.empty() && l[0] == '#') { was = true; comment += l + "\n"; continue; }
        was = false;
        size_t eq = l.find('=');
        if (eq == std::string::npos) continue;
        std::string key = l.substr(0, eq); while (!key.empty() && (key.back() == ' ' || key.back() == '\t')) key.pop_back();
        o.push_back({ comment, key, line_value(l.substr(eq + 1)) });
    }
    return o;
}
static std::string gen_key(Gen& g, bool& script)
{
    script = false;
    switch (g.below(4))
    {
    default: { std::string n = c_known[g.below(_countof(c_known))].name; return g.chance(15) ? word_case(g, n.c_str()) : n; }
    case 2: script = true; return c_script[g.below(_countof(c_script))].name;
    case 3: return std::string("u.") + g.pick({"alpha", "beta", "gamma", "Alpha", "with space", "a/b\\c"});
    }
}
static const Def* def_of(const std::string& n) { for (auto& d : c_known) if (lc(d.name) == lc(n)) return &d; for (auto& d : c_script) if (!strcmp(d.name, n.c_str())) return &d; return nullptr; }
static std::string gen_kv(Gen& g, const std::string& key)
{
    for (int tries = 0; ; ++tries)
    {
        const Def* d = def_of(key);
        std::string v = tries > 3 ? "0" : d ? gen_value(g, *d) : gen_text(g, 10);
        if (d && d->ty == ti) { std::string x; if (ref_int(v, x) && x.size() > 6) continue; }
        if (d && d->ty == tc && v.size() > 3 && (lc(v).compare(0, 3, "sgr") == 0 || lc(v).compare(0, 4, "ansi") == 0)) { std::string x; Sgr q; if (!ref_color(v, x) || !denote(x, q)) continue; }
        return v;
    }
}
static std::string gen_file(Gen& g, std::string* desc)
{
    std::string s; const char* nl = g.coin() ? "\r\n" : "\n";
    int n = g.size(8);
    for (int i = 0; i < n; ++i)
    {
        if (g.chance(15)) s += nl;
        if (g.chance(15)) { s += g.pick({"just some words", "[section]", "   ", "; not a comment"}); s += nl; }
        while (g.chance(30)) { s += std::string(g.chance(15) ? "  " : "") + "#" + gen_text(g, 20) + nl; if (g.chance(10)) s += nl; }
        bool script; std::string k = gen_key(g, script), v = line_value(gen_kv(g, k));
        s += std::string(g.chance(15) ? " \t" : "") + k + g.pick({" = ", "=", " =", "=   ", " \t= "}) + v + nl;
    }
    if (n && g.chance(15)) { s += "# trailing comment"; if (g.coin()) s += nl; }
    if (g.chance(2)) { int m = 20 + g.below(120); for (int i = 0; i < m; ++i) { for (int k = 0; k < 10; ++k) s += "# " + std::string(90, char('a' + i % 26)) + nl; s += "big." + std::to_string(i) + " = " + std::string(100, 'v') + nl; } }
    return s;
}
static std::string lookup_text(const std::vector<Entry>& v) { std::string s; for (auto& e : v) s += "\n  " + esc(e.comment.substr(0, 60)) + " " + esc(e.key) + " = " + esc(e.value.substr(0, 80)); return s; }

PBT_PROP(C09, persist, 60000, 1200000, "sequences of load, save, set, clear, overlay, sandboxed set/clear/overlay, declaring and undeclaring script settings, over generated settings and defaults files (unknown settings, comments, malformed lines, large files), against a model of values and file content; every stream closed once; non-trivial: at least one load of a non-empty file followed by a save")
{
    std::string dir = scratch() + "\\set" + std::to_string(GetCurrentProcessId());
    CreateDirectoryA(dir.c_str(), nullptr);
    std::string file = dir + "\\clink_settings", dfile = dir + "\\default_settings", copy = dir + "\\copy_settings";
    DeleteFileA(file.c_str()); DeleteFileA(dfile.c_str()); DeleteFileA(copy.c_str());
    s_bad_close = 0;
    Model m;
    for (auto& d : c_known) m.defs[lc(d.name)] = &d;
    std::map<std::string, setting*> script;
    auto cleanup = [&]() { for (auto& s : script) delete s.second; script.clear(); };
    struct Guard { std::function<void()> f; ~Guard() { f(); } } guard{ cleanup };
    std::vector<Entry> disk; Defaults defs; bool exists = false;
    auto check_all = [&](const char* when) {
        str<> o;
        for (auto& i : m.defs)
        {
            setting* s = settings::find(i.second->name);
            g.check(s != nullptr, "%s not found", i.second->name);
            s->get(o);
            auto& v = m.vals[i.second->name];
            g.check(o.c_str() == v.v, "after %s %s is %s want %s", when, i.second->name, esc(o.c_str()).c_str(), esc(v.v).c_str());
            g.check(s->is_saveable() == v.save, "after %s %s is_saveable is %d", when, i.second->name, s->is_saveable());
        }
        g.check(!s_bad_close, "a stream was closed twice");
        g.check(s_open.empty(), "a stream was left open");
    };
    auto check_file = [&](const std::vector<Entry>& want, const std::string& f) {
        std::vector<Entry> got = ref_read(read_file(f));
        bool ok = got.size() == want.size();
        for (size_t i = 0; ok && i < got.size(); ++i)
        {
            const Def* d = m.find(want[i].key);
            ok = got[i].key == want[i].key;
            if (d && d->name == want[i].key) { std::string x; ok = ok && ref_parse(*d, got[i].value, x) && (x == want[i].value); if (!ok && d->ty == tc) { Sgr a, b; ok = got[i].key == want[i].key && denote(x, a) && denote(want[i].value, b) && a == b; } }
            else ok = ok && got[i].value == want[i].value && got[i].comment == want[i].comment;
        }
        if (!ok) g.fail("saved file has%s\nwant%s", lookup_text(got).c_str(), lookup_text(want).c_str());
        // Loading it again gives the stored text of colors and unknown values.
        return got;
    };
    // Start from a load so that the model knows everything.
    bool loaded = false, triv = true;
    settings::load(file.c_str(), dfile.c_str()); m.load({}, {});
    check_all("first load");
    for (int n = 1 + g.size(9); n-- > 0;)
    {
        switch (g.below(11))
        {
        case 0: { // write a settings file by hand and load it
            std::string t = gen_file(g, nullptr);
            write_file(file, t); disk = ref_read(t); exists = true;
            g.note("file(%s)", t.size() < 600 ? esc(t).c_str() : (esc(t.substr(0, 300)) + "... " + std::to_string(t.size()) + " bytes").c_str());
            if (t.size() > 65000) g.label("large file");
            if (!disk.empty()) loaded = true; } // fallthrough
        case 1:
            g.note("load");
            g.check(settings::load(file.c_str(), dfile.c_str()), "load failed");
            m.load(disk, defs); check_all("load");
            break;
        case 2: {
            g.note("save");
            g.check(settings::save(file.c_str()), "save failed");
            disk = check_file(m.save(), file); exists = true; if (loaded) triv = false;
            // Loading and saving again does not change the file.
            std::string before = read_file(file);
            settings::load(file.c_str(), dfile.c_str()); m.load(disk, defs); check_all("load after save");
            g.check(settings::save(copy.c_str()), "save failed");
            g.check(read_file(copy) == before, "saving again changed the file from\n%s\nto\n%s", before.substr(0, 1500).c_str(), read_file(copy).substr(0, 1500).c_str());
            break; }
        case 3: {
            const Def& d = c_known[g.below(_countof(c_known))];
            std::string v = gen_kv(g, d.name);
            if (d.ty == ts) v = line_value(v);
            g.note("set(%s,%s)", d.name, esc(v).c_str());
            bool r = settings::find(d.name)->set(v.c_str()), w = m.set(d.name, v, nullptr);
            g.check(r == w, "set returned %d", r); check_all("set");
            break; }
        case 4: { const Def& d = c_known[g.below(_countof(c_known))]; g.note("clear(%s)", d.name); settings::find(d.name)->set(); m.reset(d); check_all("clear"); break; }
        case 5: { // defaults file
            std::string t; defs.clear();
            for (int k = g.size(4); k-- > 0;) { bool sc; std::string key = gen_key(g, sc); if (const Def* d = def_of(key)) key = d->name; if (defs.count(key)) continue; std::string v = line_value(gen_kv(g, key)); defs[key] = v; t += key + " = " + v + "\n"; }
            g.note("defaults(%s)", esc(t).c_str());
            if (t.empty() && g.coin()) DeleteFileA(dfile.c_str()); else write_file(dfile, t);
            settings::load(file.c_str(), dfile.c_str()); m.load(disk, defs); check_all("load with defaults");
            break; }
        case 6: { // declare or undeclare a script setting
            const Def& d = c_script[g.below(_countof(c_script))];
            if (script.count(d.name)) { g.note("undeclare(%s)", d.name); delete script[d.name]; script.erase(d.name); m.defs.erase(lc(d.name)); m.vals.erase(d.name); }
            else
            {
                g.note("declare(%s)", d.name);
                setting* s = make(d); deferred(s, d.ty); script[d.name] = s;
                m.defs[lc(d.name)] = &d; m.reset(d);
                if (m.unk.count(d.name)) { std::string x; if (ref_parse(d, m.unk[d.name].value, x)) m.vals[d.name] = { x, true }; }
            }
            check_all("declare");
            break; }
        case 7: case 8: { // overlay, in memory or in the file
            std::vector<settings::setting_name_value> ov; std::vector<Entry> mo; std::string t;
            for (int k = 1 + g.size(3); k-- > 0;)
            {
                bool sc; std::string key = gen_key(g, sc), v = line_value(gen_kv(g, key)); bool clr = g.chance(30);
                if (clr) ov.emplace_back(key.c_str(), "", settings::section::clear); else ov.emplace_back(key.c_str(), v.c_str(), settings::section::set);
                mo.push_back({ clr ? "c" : "s", key, v }); t += (clr ? " -" : " ") + key + "=" + v;
            }
            if (g.coin()) { g.note("overlay(%s)", esc(t).c_str()); settings::overlay(ov); for (auto& e : mo) if (e.comment == "c") m.clear(e.key); else m.set(e.key, e.value, nullptr); check_all("overlay"); break; }
            g.note("sandboxed_overlay(%s)", esc(t).c_str());
            g.check(settings::sandboxed_overlay(ov), "sandboxed_overlay failed");
            Model f = m; f.load(disk, defs); for (auto& e : mo) if (e.comment == "c") f.clear(e.key); else f.set(e.key, e.value, nullptr);
            disk = check_file(f.save(), file); exists = true; if (loaded) triv = false;
            check_all("sandboxed_overlay");
            break; }
        default: { // sandboxed set or clear
            bool sc; std::string key = gen_key(g, sc), v = line_value(gen_kv(g, key)); bool clr = g.chance(30);
            g.note("sandboxed_set(%s,%s)", key.c_str(), clr ? "null" : esc(v).c_str());
            bool r = settings::sandboxed_set_setting(key.c_str(), clr ? nullptr : v.c_str());
            Model f = m; f.load(disk, defs); bool w = true; if (clr) f.clear(key); else w = f.set(key, v, nullptr);
            g.check(r == w, "sandboxed_set_setting returned %d", r);
            if (w) { disk = check_file(f.save(), file); exists = true; if (loaded) triv = false; }
            else if (exists) g.check(lookup_text(ref_read(read_file(file))) == lookup_text(disk), "a rejected value changed the file to%s", lookup_text(ref_read(read_file(file))).c_str());
            check_all("sandboxed_set_setting");
            break; }
        }
    }
    if (!triv) g.nontrivial();
}

PBT_PROP(C09, ini, 200000, 4000000, "theme-style files with [set], [clear], [preferred] and other sections, comments and spacing, parsed against a reference reader; non-trivial: at least two entries in different sections")
{
    std::string dir = scratch() + "\\set" + std::to_string(GetCurrentProcessId());
    CreateDirectoryA(dir.c_str(), nullptr);
    std::string f = dir + "\\theme.ini";
    std::string t; const char* nl = g.coin() ? "\r\n" : "\n";
    struct W { std::string n, v; settings::section s; };
    std::vector<W> want; settings::section cur = settings::section::ignore; bool valid = false, bad = false; int kinds = 0;
    for (int n = g.size(14); n-- > 0;)
    {
        switch (g.below(7))
        {
        case 0: case 1: {
            int k = g.below(5); static const char* names[] = { "[set]", "[clear]", "[preferred]", "[other]", "[SET]" };
            static const settings::section secs[] = { settings::section::set, settings::section::clear, settings::section::preferred, settings::section::ignore, settings::section::set };
            t += std::string(g.chance(20) ? " " : "") + names[k] + nl; cur = secs[k]; if (k != 3) valid = true; break; }
        case 2: t += std::string(g.chance(20) ? " \t" : "") + (g.coin() ? "#" : ";") + gen_text(g, 10) + nl; break;
        case 3: t += nl; break;
        default: {
            std::string k = std::string("color.") + g.text("abc", 3) + "x", v = line_value(gen_text(g, 8));
            std::string l = std::string(g.chance(20) ? "  " : "");
            if (cur == settings::section::clear) { l += k + (g.chance(20) ? "  " : ""); want.push_back({ k, "", cur }); }
            else { if (cur == settings::section::set || cur == settings::section::preferred) want.push_back({ k, v, cur }); l += k + g.pick({"=", " = ", "  =", "=\t"}) + v; }
            t += l + nl; break; }
        }
    }
    for (auto& w : want) if (w.s != want[0].s) kinds = 1;
    if (kinds) g.nontrivial();
    if (g.chance(2)) { t += std::string("[other]") + nl; for (int i = 0; i < 900; ++i) t += "; " + std::string(80, 'x') + nl; g.label("large file"); }
    g.note("%s", t.size() < 800 ? esc(t).c_str() : "(large)");
    write_file(f, t);
    s_bad_close = 0;
    std::vector<settings::setting_name_value> out;
    bool r = settings::parse_ini(f.c_str(), out);
    g.check(r == valid, "parse_ini returned %d want %d", r, valid);
    if (!r) return;
    g.check(out.size() == want.size(), "%u entries want %u", unsigned(out.size()), unsigned(want.size()));
    for (size_t i = 0; i < out.size(); ++i)
        g.check(want[i].n == out[i].name.c_str() && want[i].v == out[i].value.c_str() && want[i].s == out[i].section, "entry %u is %s=%s", unsigned(i), out[i].name.c_str(), out[i].value.c_str());
    g.check(!s_bad_close && s_open.empty(), "stream closed twice or left open");
    (void)bad;
}
