//: group=full
// C28 match coloring rules.
#include <core/base.h>
#include <core/str.h>
#include <core/os.h>
#include <core/settings.h>
#include <lib/matches.h>
#include <algorithm>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/posixstat.h>
#include <readline/rlprivate.h>
#include <readline/colors.h>
}
#include <lib/match_colors.h>
using namespace pbt;

enum { T_zero, T_none, T_word, T_arg, T_cmd, T_alias, T_file, T_dir, T_mask = 7, F_link = 0x10, F_orph = 0x20, F_hidden = 0x40, F_readonly = 0x80, F_system = 0x100 };
enum { NO, FI, DI, RO, HI, LN, EX, MI, OR, SO, ANY, NUM };
static const char* const c_names[] = {"no", "fi", "di", "ro", "hi", "ln", "ex", "mi", "or", "so", "any"};

static std::string s_fs;
static void init()
{
    settings::TEST_set_ever_loaded();
    freopen("NUL", "w", stderr);     // Syntax errors are reported there.
    s_fs = scratch() + "\\c";
    CreateDirectoryW(ref_utf16(s_fs).c_str(), nullptr);
    CreateDirectoryW(ref_utf16(s_fs + "\\abd").c_str(), nullptr);
    for (auto f : {"abf", "abx.exe"}) CloseHandle(CreateFileW(ref_utf16(s_fs + "\\" + f).c_str(), GENERIC_WRITE, 0, nullptr, CREATE_ALWAYS, 0, nullptr));
    SetCurrentDirectoryW(ref_utf16(s_fs).c_str());
}
static struct Init { Init() { g_init = init; } } s_init;

// A pattern is a list of elements: text, '?', '*', or a set.
struct El { int kind; std::string set; };     // 0 one character out of set, 1 any one, 2 any run, 3 one not in set
struct Pat { std::vector<El> els; bool neg; };
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool pmatch(const std::vector<El>& e, size_t i, const std::vector<std::string>& n, size_t j)
{
    if (i == e.size()) return j == n.size();
    if (e[i].kind == 2) { for (size_t k = j; k <= n.size(); ++k) if (pmatch(e, i + 1, n, k)) return true; return false; }
    if (j == n.size()) return false;
    bool in = false;
    if (n[j].size() == 1) for (char c : e[i].set) if (low(c) == low(n[j][0])) in = true;
    if (n[j].size() > 1 && e[i].set == n[j]) in = true;
    if (e[i].kind == 1) in = true;
    if (e[i].kind == 3) in = !in;
    return in && pmatch(e, i + 1, n, j + 1);
}
static std::vector<std::string> chars(const std::string& s)
{
    std::vector<std::string> r;
    for (uint32_t c : cps_of(s)) { std::string x; x = utf8_of({c}); r.push_back(x); }
    return r;
}

struct Rule { uint32_t flags = 0, nots = 0; std::vector<Pat> pats; std::string seq; };

static std::string enc(Gen& g, const std::string& raw)
{
    // Spell the text of one token, unquoted with escapes or (partly) quoted.
    std::string out; bool q = false;
    bool any_quote = g.chance(25);
    for (size_t i = 0; i < raw.size();)
    {
        size_t len = 1; while (i + len < raw.size() && (raw[i + len] & 0xc0) == 0x80) ++len;
        std::string c = raw.substr(i, len); i += len;
        if (any_quote && g.chance(30)) { out += '"'; q = !q; }
        unsigned char b = c[0]; char t[16];
        if (q) { if (c == "\"") { out += "\"\\\"\""; } else out += c; continue; }
        bool special = strchr(" :=\"\\", b) != nullptr;
        if (!special && !g.chance(10)) { out += c; continue; }
        switch (len == 1 ? g.below(b == ' ' ? 6 : strchr("abefnrtv?_01234567xXuU", b) ? 5 : 6) : 0)
        {
        case 0: if (special) sprintf(t, "\\x%02x", b), out += t; else out += c; break;
        case 1: sprintf(t, "\\%03o", b); out += t; break;
        case 2: sprintf(t, "\\u%04X", b); out += t; break;
        case 3: sprintf(t, "\\X%02X", b); out += t; break;
        case 4: sprintf(t, "\\U%04x", b); out += t; break;
        case 5: if (b == ' ' && g.coin()) out += "\\_"; else { out += '\\'; out += c; } break;
        }
    }
    if (q) out += '"';
    return out;
}

static const std::vector<std::string> s_colors = {"1", "31", "0", "00", "1;32", "01;34", "38;5;123", "0;7", "", "38;2;1;22;255"};
// ('?' matches a byte, as in git, so either there are characters of several bytes or there are '?'.)
static const std::vector<std::string> s_chars0 = {"a", "b", "B", "c", ".", " ", "1", "-"}, s_chars1 = {"a", "b", "B", "c", ".", " ", "é", "1", "-", "語"};

PBT_PROP(C28, rules, 500000, 10000000, "at least one rule in order and one default apply to the queried matches, or two rules in order do")
{
    bool wide = g.chance(25); const auto& s_chars = wide ? s_chars1 : s_chars0;
    std::vector<Rule> rules;
    std::string def[NUM]; bool hasdef[NUM] = {};
    auto setdef = [&](int t, const std::string& v) { def[t] = v; hasdef[t] = true; };
    std::string prefix; bool prefix_set = false;
    static std::string hidden, readonly, cmd, alias;
    bool h = g.chance(30), r = g.chance(30);
    hidden = "0;35"; readonly = "0;36"; cmd = "0;1;3"; alias = "0;4";
    _rl_hidden_color = h ? hidden.c_str() : nullptr;
    _rl_readonly_color = r ? readonly.c_str() : nullptr;
    _rl_command_color = cmd.c_str(); _rl_alias_color = alias.c_str();
    setdef(DI, "01;33"); setdef(LN, "target"); setdef(EX, "01;32"); setdef(SO, "01;35");
    if (h) setdef(HI, hidden);
    if (r) setdef(RO, readonly);
    bool active = false;

    std::vector<std::vector<std::string>> names;      // names made to match a pattern
    std::string s; int n = 1 + g.size(7); bool broken = false;
    for (int i = 0; i < n; ++i)
    {
        if (i) s += ':';
        auto sp = [&](bool need) { if (need) s += ' '; while (g.chance(8)) s += ' '; };
        std::string col = g.pick(s_colors);
        int kind = int(g.weighted({30, 50, 3, 3}));
        if (kind == 3 && i + 1 < n) kind = 1;
        if (kind == 0)
        {
            int t = int(g.below(ANY));
            if (t == LN && g.chance(50)) col = "target";
            sp(false);
            if (g.chance(6)) s += g.pick({"any ", "not hi any ", "di any ", "not mi any "});
            std::string nm = c_names[t]; if (g.chance(10)) nm[0] -= 32;
            s += nm; sp(false); s += '='; s += col;
            if (!broken) { setdef(t, col); active = true; if (t == SO) { prefix = col; prefix_set = true; } }
            g.label("default");
        }
        else if (kind == 1)
        {
            Rule ru; ru.seq = col; bool ever_any = false; uint32_t used = 0; int nflags = 0;
            int m = 1 + g.size(3); bool pats = false;
            sp(false);
            std::vector<int> order;
            for (int k = 0; k < m; ++k)
            {
                if (k) sp(true);
                if (g.chance(8) && !(used & 1u << ANY)) { s += "any"; used |= 1u << ANY; ru.flags = ru.nots = 0; nflags = 0; ever_any = true; sp(true); }
                if (g.chance(45))
                {
                    static const int ts[] = {FI, DI, RO, HI, LN, EX};
                    int t = ts[g.below(6)];
                    bool neg = g.chance(35);
                    if (neg) { s += g.chance(10) ? "NOT" : "not"; sp(true); }
                    s += c_names[t];
                    (neg ? ru.nots : ru.flags) |= 1u << t; ++nflags;
                    // Exactly one type is the default rule instead; see below.
                }
                else
                {
                    Pat p; p.neg = g.chance(20); std::string raw; pats = true;
                    std::vector<std::string> nm;
                    if (g.chance(8))
                    {
                        raw = g.pick({"di", "hi", "not", "any", "NO", "fi"});
                        for (char c : raw) { p.els.push_back({0, std::string(1, c)}); nm.push_back(std::string(1, c)); }
                        if (p.neg) { s += "not"; sp(true); }
                        s += '"' + raw + '"';
                        g.label("quoted type");
                    }
                    else
                    {
                        int len = 1 + g.size(5);
                        for (int x = 0; x < len; ++x)
                            switch (g.weighted({40, 25, wide ? 0 : 12, wide ? 0 : 6}))
                            {
                            case 0: { std::string c = g.pick(s_chars); raw += c; p.els.push_back({0, c}); nm.push_back(g.chance(20) && c.size() == 1 ? std::string(1, isupper(c[0]) ? tolower(c[0]) : toupper(c[0])) : c); } break;
                            case 2: raw += '?'; p.els.push_back({1, ""}); nm.push_back(g.pick(s_chars)); break;
                            case 1: if (!raw.empty() && raw.back() == '*') break; raw += '*'; p.els.push_back({2, ""}); for (int y = g.size(2); y-- > 0;) nm.push_back(g.pick(s_chars)); break;
                            case 3: raw += "[abc]"; p.els.push_back({0, "abc"}); nm.push_back(std::string(1, "abc"[g.below(3)])); break;
                            }
                        if (g.chance(25)) { std::string e = g.pick({".exe", ".txt", ".BAT"}); raw += e; for (char c : e) { p.els.push_back({0, std::string(1, c)}); nm.push_back(std::string(1, c)); } }
                        if (p.neg) { s += "not"; sp(true); }
                        s += enc(g, raw);
                    }
                    names.push_back(nm);
                    ru.pats.push_back(p);
                }
            }
            sp(false); s += '='; s += col;
            if (broken) continue;
            int t1 = -1; for (int t = 0; t < ANY; ++t) if (ru.flags == 1u << t) t1 = t;
            if (ru.pats.empty() && nflags == 1 && t1 >= 0 && !ru.nots) { setdef(t1, col); active = true; continue; }
            if (!ru.flags && !ru.nots && ru.pats.empty()) continue;
            if (ru.pats.size() && !ru.flags && !ru.nots && !ever_any) ru.flags = 1u << FI;
            rules.push_back(ru); active = true;
        }
        else if (kind == 2)
        {
            s += "readline-colored-completion-prefix="; s += col;
            if (!broken) { prefix = col; prefix_set = true; active = true; g.label("prefix"); s += ""; }
            // This one wins over "so" wherever it is.
            if (!broken) { def[ANY] = col; hasdef[ANY] = true; }
        }
        else
        {
            s += g.pick({"\"abc=1", "abc\\", "a\"b c=1"}); broken = true; g.label("malformed");
        }
    }
    if (g.chance(10)) s += ':';
    if (hasdef[ANY]) prefix = def[ANY];
    hasdef[ANY] = false;
    // Strip: an empty color for a type is a color too.
    g.note("rules %s", esc(s).c_str());
    os::set_env("CLINK_MATCH_COLORS", s.c_str());
    FILE* old = rl_outstream; static FILE* nul = fopen("NUL", "w"); rl_outstream = nul;
    parse_match_colors();
    rl_outstream = old;

    bool normc = hasdef[NO] && !(def[NO] == "" || def[NO] == "0" || def[NO] == "00");
    auto mk = [&](const std::string& c) { return (normc ? "\x1b[m\x1b[" : "\x1b[") + c + "m"; };
    int inorder = 0, defaults = 0;
    int q = 1 + g.size(6);
    for (int i = 0; i < q; ++i)
    {
        std::string name, base;
        if (names.size() && g.chance(75)) { for (auto& c : g.pick(names)) base += c; if (g.chance(15)) base += g.pick(s_chars); }
        else { for (int k = 1 + g.size(4); k-- > 0;) base += g.pick(s_chars); }
        if (g.chance(25)) base += g.pick({".exe", ".Exe", ".cmd", ".bat", ".com", ".txt", ".exec"});
        static const int bases[] = {T_file, T_dir, T_none, T_word, T_arg, T_cmd, T_alias, T_zero};
        int type = bases[g.weighted({40, 25, 3, 3, 3, 3, 3, 8})];
        bool missing = false, realdir = false;
        if (type == T_file || type == T_dir) for (int f : {F_link, F_hidden, F_readonly, F_system}) if (g.chance(25)) type |= f;
        if ((type & F_link) && g.chance(30)) type |= F_orph;
        if (base.empty()) base = "a";
        if (type == T_zero) { base = g.pick({"abf", "abx.exe", "abd", "abm"}); missing = base == "abm"; realdir = base == "abd"; }
        else if (g.chance(40)) name = g.pick({"abc\\", "a.exe/", "c:\\x\\", "c:", "..\\", "b/b\\"});
        name += base;
        if (((type & T_mask) == T_dir) && g.chance(70)) name += g.pick({"\\", "/"});
        if (realdir && g.chance(30)) name += "\\";
        int bt = type & T_mask;

        // What kind of thing the match is.
        uint32_t is = 0; int dflt;
        bool pathish = bt == T_file || bt == T_dir;
        auto isexe = [&] { size_t d = base.rfind('.'); if (d == std::string::npos) return false; std::string e = base.substr(d); for (char& c : e) c = low(c); return e == ".exe" || e == ".cmd" || e == ".bat" || e == ".com"; };
        bool dir = bt == T_dir || realdir;
        bool exe = !dir && isexe();
        auto by_kind = [&] {
            if (dir) is = 1u << DI, dflt = DI;
            else { is = 1u << FI, dflt = FI; if (exe) is |= 1u << EX, dflt = EX; }
        };
        bool target = def[LN].compare(0, 6, "target") == 0;
        std::string want; bool have;
        if (bt == T_cmd || bt == T_alias) { want = mk(bt == T_cmd ? cmd : alias); have = true; }
        else
        {
            if (type == T_zero)
            {
                if (missing && hasdef[MI]) dflt = MI, g.label("missing");
                else if (missing) is = 1u << FI, dflt = FI;
                else by_kind();
            }
            else if (!pathish) dflt = NO;
            else
            {
                if ((type & F_link) && (type & F_orph))
                {
                    g.label("orphan");
                    // A dangling symlink is none of the other types.
                    if (hasdef[OR] || target) dflt = OR;
                    else is = 1u << LN, dflt = LN;
                }
                else if ((type & F_link) && !target) is = 1u << LN, dflt = LN, g.label("link");
                else by_kind();
                if (is && (type & F_readonly)) { is |= 1u << RO; if (dflt != DI && hasdef[RO]) dflt = RO; }
                if (is && (type & F_hidden)) { is |= 1u << HI; if (hasdef[HI]) dflt = HI; }
            }
            // Defaults come last, and readonly by itself is for files.
            const std::string* seq = nullptr;
            std::vector<std::string> n = chars(base);
            for (auto& ru : rules)
            {
                if ((is & ru.flags) != ru.flags || (is & ru.nots)) continue;
                bool ok = true;
                for (auto& p : ru.pats) if (pmatch(p.els, 0, n, 0) == p.neg) { ok = false; break; }
                if (!ok) continue;
                if (!seq) seq = &ru.seq;
                ++inorder;
                if (!ru.pats.empty()) g.label("pattern applies");
            }
            if (!seq && hasdef[dflt]) { seq = &def[dflt]; ++defaults; }
            have = seq != nullptr;
            if (have) want = mk(*seq);
        }
        if (!active) { have = false; want.clear(); }
        str<> out;
        bool got = get_match_color(name.c_str(), match_type(type), out);
        g.note("%s type %x -> %d %s", esc(name).c_str(), type, got, esc(out.c_str()).c_str());
        g.check(got == have && (!have || want == out.c_str()), "expected %d %s", have, esc(want).c_str());
    }
    if (prefix_set && !prefix.empty())
    {
        const char* p = get_completion_prefix_color();
        g.check(p && prefix == p, "completion prefix color '%s', expected '%s'", p ? p : "(null)", prefix.c_str());
    }
    if ((inorder && defaults) || inorder > 1) g.nontrivial();
}

PBT_PROP(C28, fuzz, 12000, 300000, "the text contains a quote or backslash")
{
    std::string s = g.text("abe*?[]!.-:= \"\\x0127unotdifi_é", 60);
    std::string u; for (uint32_t c : cps_of(s)) if (c != 0xfffd) u += utf8_of({c});
    g.note("rules %s", esc(u).c_str());
    _rl_hidden_color = _rl_readonly_color = nullptr; _rl_command_color = "1"; _rl_alias_color = "2";
    os::set_env("CLINK_MATCH_COLORS", u.c_str());
    FILE* old = rl_outstream; static FILE* nul = fopen("NUL", "w"); rl_outstream = nul;
    parse_match_colors();
    // Appending a whole rule set of defaults only changes defaults, unless the text is malformed.
    str<> a, b;
    bool ra = get_match_color("abc\\ab.x", match_type::file, a);
    parse_match_colors();
    bool rb = get_match_color("abc\\ab.x", match_type::file, b);
    g.check(ra == rb && a.equals(b.c_str()), "not reproducible");
    if (!u.empty())
    {
        // A first rule that applies to everything wins over all others.
        os::set_env("CLINK_MATCH_COLORS", ("any *=7:" + u).c_str());
        parse_match_colors();
        b.clear();
        rb = get_match_color("abc\\ab.x", match_type::file, b);
        g.check(rb && strstr(b.c_str(), "\x1b[7m"), "the first rule does not win: %s", b.c_str());
    }
    rl_outstream = old;
    if (u.find_first_of("\"\\") != std::string::npos) g.nontrivial();
}
