//: group=full
// C33 the command processor's autorun value.
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <getopt.h>
#include <io.h>
using namespace pbt;
int32 autorun(int32 argc, char** argv);
extern str<> g_clink_args; extern int32 g_all_users, g_enum_users;

//---- a registry of just the AutoRun values -------------------------------------------------
struct Val { bool set = false; DWORD type = REG_SZ; std::wstring text; bool raw = false; bool operator==(const Val& o) const { return set == o.set && (!set || text == o.text); } };
struct Key { std::wstring name; bool wow; };
static std::map<std::wstring, Val> s_reg;            // by full key name
static std::map<std::wstring, std::map<std::wstring, Val>> s_other;
static int s_open = 0; static bool s_bad = false;
static std::vector<std::wstring> s_users;
static std::wstring s_denied;
static std::wstring lower(std::wstring s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::wstring full(HKEY h, LPCWSTR k, REGSAM sam) { std::wstring r = h == HKEY_LOCAL_MACHINE ? ((sam & KEY_WOW64_32KEY) ? L"HKLM32\\" : L"HKLM64\\") : h == HKEY_CURRENT_USER ? L"HKCU\\" : h == HKEY_USERS ? L"HKU\\" : L"?\\"; return r + k; }
static const wchar_t c_key[] = L"Software\\Microsoft\\Command Processor";
static LSTATUS WINAPI hook_create(HKEY h, LPCWSTR k, DWORD, LPWSTR, DWORD, REGSAM sam, const LPSECURITY_ATTRIBUTES, PHKEY out, LPDWORD)
{
    auto f = full(h, k, sam);
    if (f == s_denied) return ERROR_ACCESS_DENIED;
    if (!s_reg.count(f)) { s_bad = true; return ERROR_ACCESS_DENIED; }
    *out = HKEY(new std::wstring(f)); ++s_open; return 0;
}
static LSTATUS WINAPI hook_openkey(HKEY h, LPCWSTR k, DWORD, REGSAM sam, PHKEY out)
{
    auto f = full(h, k, sam);
    if (!s_reg.count(f)) return ERROR_FILE_NOT_FOUND;
    *out = HKEY(new std::wstring(f)); ++s_open; return 0;
}
static LSTATUS WINAPI hook_close(HKEY h) { delete (std::wstring*)h; --s_open; return 0; }
static Val& val(HKEY h, LPCWSTR name) { auto& k = *(std::wstring*)h; if (lower(name) == L"autorun") return s_reg[k]; return s_other[k][lower(name)]; }
static LSTATUS WINAPI hook_set(HKEY h, LPCWSTR name, DWORD, DWORD type, const BYTE* p, DWORD n)
{
    Val& v = val(h, name); v.set = true; v.type = type; v.raw = false; v.text.assign((const wchar_t*)p, n / 2); if (!v.text.empty() && !v.text.back()) v.text.pop_back(); else s_bad = true;
    if (v.text.find(L'\0') != std::wstring::npos) s_bad = true;
    return 0;
}
static LSTATUS WINAPI hook_query(HKEY h, LPCWSTR name, LPDWORD, LPDWORD type, LPBYTE p, LPDWORD n)
{
    Val& v = val(h, name); if (!v.set) return ERROR_FILE_NOT_FOUND;
    DWORD need = DWORD(v.text.size() + (v.raw ? 0 : 1)) * 2;         // raw: the value lacks a terminator
    if (type) *type = v.type;
    DWORD have = n ? *n : 0; if (n) *n = need;
    if (p) { if (have < need) return ERROR_MORE_DATA; memcpy(p, v.text.c_str(), need); }
    return 0;
}
static LSTATUS WINAPI hook_delete(HKEY h, LPCWSTR name) { Val& v = val(h, name); if (!v.set) return ERROR_FILE_NOT_FOUND; v = Val(); return 0; }
static LSTATUS WINAPI hook_enum(HKEY, DWORD i, LPWSTR name, LPDWORD n, LPDWORD, LPWSTR, LPDWORD, PFILETIME)
{
    if (i >= s_users.size()) return ERROR_NO_MORE_ITEMS;
    wcscpy(name, s_users[i].c_str()); *n = DWORD(s_users[i].size()); return 0;
}
extern "C" {
void* __imp_RegCreateKeyExW = (void*)&hook_create; void* __imp_RegOpenKeyExW = (void*)&hook_openkey; void* __imp_RegCloseKey = (void*)&hook_close; void* __imp_RegSetValueExW = (void*)&hook_set;
void* __imp_RegQueryValueExW = (void*)&hook_query; void* __imp_RegDeleteValueW = (void*)&hook_delete; void* __imp_RegEnumKeyExW = (void*)&hook_enum;
}
static void init() { settings::TEST_set_ever_loaded(); freopen("NUL", "w", stderr); }
static struct Init { Init() { g_init = init; } } s_i;

//---- the commands of a value ---------------------------------------------------------------
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
// Splits as the command processor does: at & and && outside of quotes.
static std::vector<std::string> split(const std::string& v, bool& empties, std::vector<int>* links = nullptr)
{
    std::vector<std::string> r; std::string c; bool q = false; empties = false; int link = 0;
    auto put = [&] { c = trim(c); if (c.empty()) empties = true; else { r.push_back(c); if (links) links->push_back(link); } c.clear(); };
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (v[i] == '"') q = !q;
        if (v[i] == '^' && !q && i + 1 < v.size()) { c += v[i++]; c += v[i]; continue; }
        if (v[i] == '&' && !q) { put(); link = 1; if (i + 1 < v.size() && v[i + 1] == '&') ++i, link = 2; continue; }
        c += v[i];
    }
    put();
    return r;
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += "[" + x + "]"; return r; }
static const std::vector<std::string> c_dirs = { "c:\\clink", "C:\\Program Files (x86)\\clink", "d:\\a & b\\clink", "c:\\tools\\cl\xc3\xa9nk", "x:\\y" };
static std::string other(Gen& g)
{
    static const std::vector<std::string> c = { "foo.bat", "\"c:\\Program Files\\ansicon\\ansicon.exe\" -p", "echo \"a & b\"", "doskey ls=dir $*", "set X=1", "call \"d:\\x && y\\z.cmd\" /q", "title a^&b", "(if exist \"q r\" echo yes)", "ver >nul", "\"x\"", "echo \xc3\xa9\xe8\xaa\x9e", "cd /d \"%USERPROFILE%\"", "echo clink", "clink.cmd", "a || b", "c:\\clink\\tool.exe inject", "rem", "echo \"" };
    std::string s = g.pick(c);
    if (s == "echo \"") s = "echo \"\"";
    return s;
}
static std::string clink_entry(Gen& g)
{
    std::string d = g.pick(c_dirs), name = g.pick({ "clink", "clink.bat", "clink_x64.exe", "clink_x86.exe", "clink_arm64.exe" });
    bool q = d.find_first_of(" &") != std::string::npos || g.chance(60);
    std::string s = q ? "\"" + d + "\\" + name + "\"" : g.chance(80) ? d + "\\" + name : name;
    s += " inject"; s += g.pick({ "", " --autorun", " --autorun --profile c:\\p", " --profile \"c:\\some where\\p\"", " --autorun --profile \"c:\\this & that\"", " --quiet  " });
    return s;
}
struct Value { std::string text; std::vector<std::string> others; int clinks = 0; };
static Value gen_value(Gen& g)
{
    Value v; int n = g.size(6); bool amp = false;
    for (int i = 0; i < n; ++i)
    {
        bool c = g.chance(30); std::string e = c ? clink_entry(g) : other(g);
        if (i) v.text += g.pick({ "&", " & ", "&&", " && ", "& ", " &" });
        v.text += e;
        if (c) ++v.clinks; else v.others.push_back(e);
        amp |= e.find('&') != std::string::npos;
    }
    if (n && g.chance(10)) v.text = g.pick({ " ", "&", "& " }) + v.text;
    if (n && g.chance(10)) v.text += g.pick({ " ", "&", " & " });
    (void)amp; return v;
}
static int run(Gen& g, const std::vector<std::string>& a)
{
    std::vector<std::string> s = a; s.insert(s.begin(), "autorun");
    std::vector<char*> p; for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr);
    std::string n; for (auto& x : a) n += " <" + x + ">"; g.note("autorun%s", n.c_str());
    optind = 0; g_clink_args.clear(); g_all_users = g_enum_users = 0;
    fflush(stdout); int old = _dup(1); FILE* nul = fopen("NUL", "w"); _dup2(_fileno(nul), 1);
    int r = autorun(int(s.size()), p.data());
    fflush(stdout); _dup2(old, 1); _close(old); fclose(nul);
    return r;
}
static void put(const std::wstring& k, const std::string& t, Gen& g) { Val& v = s_reg[k]; v.set = true; v.text = ref_utf16(t); v.type = g.coin() ? REG_SZ : REG_EXPAND_SZ; v.raw = g.chance(10); }

PBT_PROP(C33, history, 6000, 200000, "an existing value with at least two other commands and a clink entry, installed and uninstalled")
{
    s_reg.clear(); s_other.clear(); s_users.clear(); s_open = 0; s_bad = false; s_denied.clear();
    static std::string pgm; std::string dir = g.pick(c_dirs); if (dir.find('\xc3') != std::string::npos) dir = "c:\\z"; pgm = dir + "\\clink_x64.exe"; _pgmptr = &pgm[0];
    std::wstring cu = L"HKCU\\" + std::wstring(c_key), m64 = L"HKLM64\\" + std::wstring(c_key), m32 = L"HKLM32\\" + std::wstring(c_key);
    std::map<std::wstring, std::vector<std::string>> others;      // of each key
    std::map<std::wstring, std::vector<std::string>> want;        // all the commands of each key; unset when absent
    std::map<std::wstring, bool> has;                             // whether a clink entry is there
    bool rich = false;
    for (auto& k : { cu, m64, m32 })
    {
        s_reg[k]; has[k] = false; others[k];
        if (g.chance(15)) continue;
        Value v = gen_value(g); put(k, v.text, g); others[k] = v.others; has[k] = v.clinks > 0;
        g.note("%s = %s", ref_utf8(k).c_str(), esc(v.text).c_str());
        if (k == cu && v.others.size() >= 2 && v.clinks) rich = true;
    }
    bool did_in = false, did_un = false; int steps = 1 + g.below(4);
    for (int i = 0; i < steps; ++i)
    {
        bool all = g.chance(30);
        auto before = s_reg;
        std::vector<std::wstring> keys; if (all) keys = { m64, m32 }; else keys = { cu };
        int what = int(g.weighted({ 4, 4, 1, 1 }));
        std::vector<std::string> a; if (all && g.coin()) a.push_back(g.coin() ? "-a" : "--allusers");
        bool later = all && a.empty();
        a.push_back(what == 0 ? "install" : what == 1 ? "uninstall" : what == 2 ? "set" : "show");
        if (later) a.push_back("--allusers");
        std::string args;
        if (what == 0)
        {
            if (g.chance(60)) a.push_back("--");
            if (a.back() == "--") for (int k = g.size(4); k-- > 0;) { std::string x = g.pick({ "--profile", "c:\\my profile", "~\\p", "-q", "c:\\x y\\", "--quiet" }); if (k == 0 && g.chance(3)) x = std::string(1000 + g.below(3000), 'x'); a.push_back(x); args += (args.empty() ? "" : " ") + (x.find(' ') != std::string::npos ? "\"" + x + (x.back() == '\\' ? "\\" : "") + "\"" : x); }
        }
        std::string sets;
        if (what == 2 && !later) { Value v = gen_value(g); sets = trim(v.text); if (sets.empty() || sets[0] == '-') sets = "echo"; }
        if (what == 2 && later) { sets = "echo foo"; }
        if (what == 2) { if (g.chance(20)) { for (auto& k : keys) if (!s_reg[k].set) what = -1; sets.clear(); } std::vector<std::string> w; std::string t; if (sets.find('"') != std::string::npos) sets = "cmd1 & cmd2"; for (char c : sets + " ") if (c == ' ') { if (!t.empty()) w.push_back(t); t.clear(); } else t += c; sets.clear(); for (auto& x : w) sets += (sets.empty() ? "" : " ") + x; for (auto& x : w) a.push_back(x); }
        if (what == -1) continue;
        int r = run(g, a);
        if (s_open) return g.fail("%d registry keys are left open", s_open);
        if (s_bad) return g.fail("the registry was used in an unexpected way");
        if (r) return g.fail("it failed with %d", r);
        for (auto& kv : s_reg)
        {
            bool mine = std::find(keys.begin(), keys.end(), kv.first) != keys.end();
            if ((!mine || what == 3) && !(kv.second == before[kv.first])) return g.fail("%s was changed", ref_utf8(kv.first).c_str());
            if (!mine || what == 3) continue;
            const std::wstring& k = kv.first; std::string now = kv.second.set ? ref_utf8(kv.second.text) : "", name = ref_utf8(k);
            if (what == 2)
            {
                if (sets.empty() ? kv.second.set : now != sets) return g.fail("%s is <%s>", name.c_str(), esc(now).c_str());
                bool e; auto c = split(sets, e); others[k].clear(); has[k] = false;
                for (auto& x : c) { static const char* const n[] = { "clink inject", "clink.bat inject", "clink_x64.exe inject", "clink_x86.exe inject", "clink_arm64.exe inject" }; bool is = false; for (auto s : n) is |= x.find(s) != std::string::npos; if (is) has[k] = true; else others[k].push_back(x); }
                continue;
            }
            bool e, e0; std::vector<int> l, l0; auto c = split(now, e, &l); auto w = others[k]; auto c0 = split(before[k].set ? ref_utf8(before[k].text) : "", e0, &l0);
            if (what == 0) { w.push_back("\"" + dir + "\\clink.bat\" inject --autorun" + (args.empty() ? "" : " " + args)); has[k] = true; did_in |= k == cu; }
            else { did_un |= k == cu; if (w.empty() && has[k] && kv.second.set) return g.fail("%s is <%s> though no command is left", name.c_str(), esc(now).c_str()); has[k] = false; }
            if (c != w) return g.fail("%s is <%s>\ncommands %s\nexpected %s", name.c_str(), esc(now).c_str(), join(c).c_str(), join(w).c_str());
            if (what == 0 && !l.empty() && l.back() == 2) return g.fail("%s is <%s>: clink only starts if the command before it succeeds", name.c_str(), esc(now).c_str());
            // No stray separator (a leading one is a syntax error), and commands that followed each other still do in the same way.
            if (!c.empty() && !c0.empty() && e && !e0) return g.fail("%s is <%s>, with an empty command", name.c_str(), esc(now).c_str());
            for (size_t x = 0, y = 0; x + 1 < c0.size() && y + 1 < c.size(); ++x)
            {
                if (c0[x] != c[y]) continue;
                if (c0[x + 1] == c[y + 1] && l0[x + 1] != l[y + 1]) return g.fail("%s is <%s>: '%s' is joined in another way", name.c_str(), esc(now).c_str(), c[y + 1].c_str());
                ++y;
            }
            if (what == 1 && before[k] == kv.second) g.label("nothing to uninstall");
        }
    }
    if (rich && did_in && did_un) g.nontrivial();
}
// Uninstalling for all users of the computer (done by the uninstaller) only removes the entries of this installation.
PBT_PROP(C33, users, 2000, 50000, "at least three users, some with an entry of this installation and some with one of another")
{
    s_reg.clear(); s_other.clear(); s_users.clear(); s_open = 0; s_bad = false; s_denied.clear();
    static std::string pgm; std::string dir = g.pick({ "c:\\clink", "C:\\Program Files (x86)\\clink", "x:\\y" }); pgm = dir + "\\clink_x64.exe"; _pgmptr = &pgm[0];
    std::wstring cu = L"HKCU\\" + std::wstring(c_key); s_reg[cu]; s_reg[L"HKLM64\\" + std::wstring(c_key)]; s_reg[L"HKLM32\\" + std::wstring(c_key)];
    std::map<std::wstring, std::vector<std::string>> want; int mine = 0, theirs = 0;
    int n = 1 + g.below(5);
    for (int u = 0; u < n; ++u)
    {
        std::wstring id = L"S-1-5-21-" + std::to_wstring(u); s_users.push_back(id); if (g.chance(15)) { g.note("%s has no key", ref_utf8(id).c_str()); continue; }
        std::wstring k = L"HKU\\" + id + L"\\" + c_key; s_reg[k]; if (g.chance(15)) continue;
        std::string t; std::vector<std::string> w; int at = g.below(4), m = g.below(4);
        for (int i = 0; i <= m; ++i)
        {
            std::string e;
            if (i == at)
            {
                bool own = g.coin(); std::string d = own ? dir : g.pick({ "c:\\other", "d:\\clink", "c:\\clink\\sub", "c:\\Program Files\\clink" });
                if (own && g.coin()) for (auto& c : d) c = char(toupper((unsigned char)c));
                bool q = d.find(' ') != std::string::npos || g.chance(60); std::string f = d + (g.chance(20) && d.find('/') == std::string::npos ? "/" : "\\") + g.pick({ "clink.bat", "clink_x64.exe", "clink" });
                e = (q ? "\"" + f + "\"" : f) + " inject --autorun";
                if (own) ++mine; else { ++theirs; w.push_back(e); }
            }
            else { e = other(g); w.push_back(e); }
            t += (i ? g.pick({ "&", " & ", "&&" }) : "") + e;
        }
        put(k, t, g); want[k] = w; g.note("%s = %s", ref_utf8(id).c_str(), esc(t).c_str());
    }
    auto before = s_reg;
    int r = run(g, { "uninstall", "--enumusers" });
    if (s_open) return g.fail("%d registry keys are left open", s_open);
    if (s_bad) return g.fail("the registry was used in an unexpected way");
    (void)r;
    for (auto& kv : s_reg)
    {
        if (!want.count(kv.first)) { if (!(kv.second == before[kv.first])) return g.fail("%s was changed", ref_utf8(kv.first).c_str()); continue; }
        bool e; std::string now = kv.second.set ? ref_utf8(kv.second.text) : ""; auto c = split(now, e);
        if (c != want[kv.first]) return g.fail("%s is <%s>\ncommands %s\nexpected %s", ref_utf8(kv.first).c_str(), esc(now).c_str(), join(c).c_str(), join(want[kv.first]).c_str());
    }
    if (n >= 3 && mine && theirs) g.nontrivial();
}
