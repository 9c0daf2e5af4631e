//: group=full
// C32 the history and set commands.
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <lib/history_db.h>
#include "utils/app_context.h"
#include <getopt.h>
#include <io.h>
#include <fcntl.h>
#include <memory>
#include <map>
#include <stdexcept>
extern "C" {
#include <readline/history.h>
}
using namespace pbt;
int32 history(int32 argc, char** argv);

//---- What a process leaves open is closed when it ends -----------------------------------------
template <class F> static F real(const char* n) { static HMODULE m = GetModuleHandleW(L"kernel32.dll"); return (F)GetProcAddress(m, n); }
static std::vector<HANDLE>* s_handles;
extern "C" {
HANDLE WINAPI hook_CreateFileW(LPCWSTR a, DWORD b, DWORD c, LPSECURITY_ATTRIBUTES d, DWORD e, DWORD f, HANDLE h)
{
    static auto r = real<decltype(&CreateFileW)>("CreateFileW");
    HANDLE x = r(a, b, c, d, e, f, h);
    if (x != INVALID_HANDLE_VALUE && s_handles) { DWORD le = GetLastError(); s_handles->push_back(x); SetLastError(le); }
    return x;
}
void* __imp_CreateFileW = (void*)&hook_CreateFileW;
BOOL WINAPI hook_CloseHandle(HANDLE h)
{
    static auto r = real<decltype(&CloseHandle)>("CloseHandle");
    if (s_handles) { auto i = std::find(s_handles->begin(), s_handles->end(), h); if (i != s_handles->end()) s_handles->erase(i); }
    return r(h);
}
void* __imp_CloseHandle = (void*)&hook_CloseHandle;
}

static std::string s_dir;
static std::string slurp(const std::string& n)
{
    std::string s; FILE* f = fopen(n.c_str(), "rb"); if (!f) return s;
    char b[8192]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) s.append(b, k);
    fclose(f); return s;
}
static void spit(const std::string& n, const std::string& s) { FILE* f = fopen(n.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void fresh()
{
    s_dir = scratch() + "\\profile"; CreateDirectoryA(s_dir.c_str(), nullptr);
    WIN32_FIND_DATAA fd; HANDLE h = FindFirstFileA((s_dir + "\\*").c_str(), &fd); std::vector<std::string> v;
    if (h != INVALID_HANDLE_VALUE) { do if (!(fd.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY)) v.push_back(s_dir + "\\" + fd.cFileName); while (FindNextFileA(h, &fd)); FindClose(h); }
    for (auto& n : v) { SetFileAttributesA(n.c_str(), FILE_ATTRIBUTE_NORMAL); if (!DeleteFileA(n.c_str())) throw std::runtime_error("cannot clean the scratch folder: " + n); }
}
static app_context::desc make_desc(int id)
{
    app_context::desc d; d.id = id; d.log = false; d.force = true; strcpy(d.state_dir, s_dir.c_str()); return d;
}

// Runs a command of clink as a process with the given id would.
template <class F> static int run(F&& command, int id, const char* name, const std::vector<std::string>& args, std::string& out)
{
    std::vector<std::string> keep = args; keep.insert(keep.begin(), name);
    std::vector<char*> argv; for (auto& a : keep) argv.push_back(&a[0]); int argc = int(argv.size()); argv.push_back(nullptr); argv.push_back(nullptr);
    std::string file = scratch() + "\\stdout.txt";
    fflush(stdout); int old = _dup(1), to = _open(file.c_str(), _O_WRONLY | _O_CREAT | _O_TRUNC | _O_BINARY, 0600), nul = _open("NUL", _O_WRONLY), olderr = _dup(2); fflush(stderr); _dup2(to, 1); _dup2(nul, 2); _close(to); _close(nul);
    int ret;
    std::vector<HANDLE> handles; s_handles = &handles;
    {
        app_context::desc d = make_desc(id); app_context app(d);
        char* none[] = { (char*)"x", (char*)"y", nullptr }; optind = 0; getopt(2, none, "+"); optind = 1; opterr = 0;
        ret = command(argc, &argv[0]);
    }
    s_handles = nullptr;
    for (HANDLE h : handles) CloseHandle(h);
    fflush(stdout); fflush(stderr); _dup2(old, 1); _dup2(olderr, 2); _close(old); _close(olderr);
    out = slurp(file);
    std::string t; for (char c : out) if (c != '\r') t += c; out = t;
    return ret;
}

//---- history ---------------------------------------------------------------------------------
struct Ent { std::string text; bool time; bool master; bool pending = false; };
static std::string show(const std::vector<Ent>& v) { std::string s; for (auto& e : v) s += (s.empty() ? "" : " | ") + esc(e.text) + (e.time ? "@" : ""); return s; }

static std::string word(Gen& g)
{
    return g.pick({ "git", "log", "a", "b", "dir", "/s", "x y", "\"q r\"", "caf\xc3\xa9", "\xe6\x97\xa5", "-m", "--bare", "--unique", "--help", "-h", "-c", "clear", "1", "2", "%s", "a;b", "--diagx", "|x", "it's", "--" });
}

PBT_PROP(C32, history, 6000, 80000, "sequences of up to 14 history commands (list, last n, add, delete by positive, negative and wrong numbers, clear, compact, expand, in both styles, options anywhere) run as processes inside of a running session (with its own or a shared history) or on their own, over an initial history with time stamps, against a list of lines; the output, the result and what a session then sees are compared; non-trivial: a line is added and one removed")
{
    fresh();
    SetEnvironmentVariableW(L"clink_profile", nullptr); SetEnvironmentVariableW(L"clink_settings", nullptr); SetEnvironmentVariableW(L"clink_history_label", nullptr);
    bool session = g.coin(), shared = g.coin(); int dupe = int(g.below(3)), stamp = int(g.below(2)), max = g.chance(20) ? 2 + int(g.below(5)) : 10000; bool nospace = g.coin();
    std::string cfg = std::string("history.shared = ") + (shared ? "true" : "false") + "\nhistory.dupe_mode = " + (dupe == 0 ? "add" : dupe == 1 ? "ignore" : "erase_prev") + "\nhistory.time_stamp = " + (stamp ? "save" : "off") + "\nhistory.ignore_space = " + (nospace ? "true" : "false") + "\nhistory.max_lines = " + std::to_string(max) + "\n";
    spit(s_dir + "\\clink_settings", cfg);
    g.note("%s %s dupe %d stamp %d max %d nospace %d", session ? "in a session" : "alone", shared ? "shared" : "own", dupe, stamp, max, nospace);
    std::vector<Ent> m; { std::string f; for (int n = g.size(8), i = 0; i < n; ++i) { Ent e; e.text = g.pick({ "git log", "a", "b", "dir /s", "caf\xc3\xa9", "echo \"x  y\"", "one", "two three", "\xf0\x9f\x98\x80" }); e.time = g.chance(30); e.master = true; if (e.time) f += "|\ttime=1000" + std::to_string(i) + "00\n"; f += e.text + "\n"; m.push_back(e); } if (!f.empty()) spit(s_dir + "\\clink_history", f); }
    g.note("initial: %s", show(m).c_str());
    // The running session.
    std::unique_ptr<history_db> db; int id = 1000;
    auto load = [&] { settings::load((s_dir + "\\clink_settings").c_str(), ""); };
    load();
    std::vector<HANDLE> mine;
    if (session) { s_handles = &mine; db.reset(new history_db((s_dir + "\\clink_history").c_str(), id, true)); db->initialise(); s_handles = nullptr; }
    bool removals = session && !shared && dupe == 2; bool pend = false; // removals from the master are only noted until the session ends
    auto erase = [&](size_t i) { if (m[i].master && removals) pend = true; m.erase(m.begin() + i); };
    auto add = [&](const std::string& l) {
        if (l.empty() || (nospace && (l[0] == ' ' || l[0] == '\t'))) return false;
        if (dupe == 1) for (auto& e : m) if (e.text == l) return true;
        if (dupe == 2) for (size_t i = m.size(); i-- > 0;) if (m[i].text == l) erase(i);
        m.push_back({ l, stamp != 0, shared }); return true;
    };
    bool added = false, removed = false;
    for (int ops = 1 + g.size(14); ops-- > 0;)
    {
        if (!session) { ++id; for (auto& e : m) e.master = true; }
        std::vector<std::string> a; std::string want, what; int ret = 0; bool exact = true; bool flags = true;
        auto flag = [&](const char* full) { std::string f = full; if (g.chance(30)) f.resize(3 + g.below(f.size() - 2)); return f; };
        int op = int(g.weighted({ 5, 3, 6, 4, 1, 2, 3 }));
        bool bash = g.chance(35);
        std::vector<std::string> opts;
        switch (op)
        {
        case 0: case 1: {
            size_t from = 0; if (op == 1) { unsigned long long n = g.chance(10) ? g.pick(std::vector<unsigned long long>{ 4294967295ull, 4294967296ull, 4294967298ull, 42949672961ull, 99999999999999999999ull }) : g.below(m.size() + 3); a.push_back(std::to_string(n)); if (n < m.size()) from = m.size() - size_t(n); }
            bool bare = g.chance(30), times = g.chance(30);
            if (bare) opts.push_back(flag("--bare"));
            opts.insert(opts.begin(), "--no-show-time");
            if (times) { if (g.coin()) opts.push_back("--show-time"); opts.push_back(flag("--time-format")); opts.push_back("at %% "); }
            for (size_t i = from; i < m.size(); ++i)
            {
                char b[30]; sprintf(b, "%5u  ", unsigned(i + 1));
                if (!bare) { want += b; if (times) want += m[i].time ? "at % " : "     "; }
                want += m[i].text + "\n";
            }
            break; }
        case 2: {
            std::string line; int n = 1 + int(g.below(3)); std::vector<std::string> ws; for (int i = 0; i < n; ++i) { ws.push_back(g.chance(50) ? g.pick({ "a", "b", "git", "log", "one" }) : word(g)); if (g.chance(5)) ws.back() = (g.coin() ? " " : "\t") + ws.back(); line += (i ? " " : "") + ws.back(); }
            if (line[0] == '|' || line[0] == '-') continue;   // options may still follow the verb
            if (bash) a = { "-s" }; else a = { g.pick({ "add", "ADD" }) };
            a.insert(a.end(), ws.begin(), ws.end()); flags = false;
            bool ok = add(line); added |= ok; ret = !ok;
            want = (ok ? "Added '" : "Unable to add '") + line + "' to history.\n";
            break; }
        case 3: {
            int n = g.chance(80) && !m.empty() ? 1 + int(g.below(m.size())) : int(g.below(m.size() + 4)); if (g.chance(30)) n = -n;
            std::string s = g.chance(4) ? "x" : std::to_string(n); if (s == "x") n = 0;
            if (bash) a = { "-d", s }; else a = { "delete", s };
            int ix = n > 0 ? n - 1 : n < 0 ? int(m.size()) + n : -1;
            if (ix < 0 || ix >= int(m.size())) { ret = 1; if (n <= 0) want = ""; else want = "Unable to delete history item " + std::to_string(n) + ".\n"; }
            else { erase(ix); removed = true; want = "Deleted item " + std::to_string(ix + 1) + ".\n"; }
            break; }
        case 4: a = { bash ? "-c" : "clear" }; m.clear(); want = "History cleared.\n"; pend = false; break;
        case 5: {
            if (pend) continue;             // what is noted as removed still counts
            bool uniq = g.coin(); int lim = g.coin() ? -1 : 1 + int(g.below(8)); a = { "compact" }; if (lim > 0) a.push_back(std::to_string(lim)); if (uniq) opts.push_back(flag("--unique"));
            std::vector<Ent> mas, own; for (auto& e : m) (e.master ? mas : own).push_back(e);
            if (uniq) for (size_t i = mas.size(); i-- > 0;) for (size_t j = 0; j < i; ++j) if (mas[j].text == mas[i].text) { mas.erase(mas.begin() + j); --j; --i; }
            size_t l = lim > 0 ? lim : max; if (mas.size() > l) mas.erase(mas.begin(), mas.end() - l);
            m = mas; m.insert(m.end(), own.begin(), own.end()); want = "History compacted.\n"; break; }
        default: {
            if (m.empty()) continue;
            if (bash) a = { "-p" }; else a = { "expand" };
            flags = false; std::string line; int n = 1 + int(g.below(3));
            for (int i = 0; i < n; ++i)
            {
                std::string w = g.pick({ "x", "echo", "--bare", "-x", "y z" }), e = w;
                switch (g.below(4)) { case 0: w = "!!"; e = m.back().text; break; case 1: { size_t k = g.below(m.size()); w = "!" + std::to_string(k + 1); e = m[k].text; break; } case 2: { size_t k = 1 + g.below(m.size()); w = "!-" + std::to_string(k); e = m[m.size() - k].text; break; } }
                a.push_back(w); want += (i ? " " : "") + e;
            }
            if (a[1][0] == '-') continue;
            if (want.find('\'') != std::string::npos) continue; // an open quote in what was expanded turns off what follows it
            want += "\n"; break; }
        }
        if (flags) for (size_t k = 0; k < opts.size(); ++k)
        {
            // Options are taken anywhere, in order.
            static size_t at; if (!k) at = 0;
            bool arg = opts[k].compare(0, 3, "--t") == 0;
            at += g.below(a.size() - at + 1); a.insert(a.begin() + at++, opts[k]);
            if (arg) { a.insert(a.begin() + at++, opts[++k]); }
        }
        else if (g.chance(20)) a.insert(a.begin(), g.pick({ "--bare", "--unique", "--no-show-time" }));
        std::string cmd; for (auto& x : a) cmd += " [" + esc(x) + "]"; g.note("history%s", cmd.c_str());
        std::string out; int r = run(history, id, "history", a, out);
        if (exact) g.check(out == want, "prints \"%s\" want \"%s\"", esc(out).c_str(), esc(want).c_str());
        g.check((r != 0) == (ret != 0), "returns %d", r);
        g.label(op == 0 ? "list" : op == 1 ? "last" : op == 2 ? "add" : op == 3 ? "delete" : op == 4 ? "clear" : op == 5 ? "compact" : "expand");
    }
    // What a session sees now.
    load();
    history_read_buffer b; std::vector<std::string> got; std::string sg, sm;
    auto look = [&] {
        s_handles = &mine; got.clear(); sg.clear(); sm.clear();
        { history_db::iter it = db->read_lines(b.data(), b.size()); str_iter o; while (it.next(o)) { got.push_back(std::string(o.get_pointer(), o.length())); sg += esc(got.back()) + "|"; } }
        for (auto& e : m) sm += esc(e.text) + "|";
        s_handles = nullptr;
    };
    if (session) { look(); g.check(sg == sm, "the session has %s want %s", sg.c_str(), sm.c_str()); s_handles = &mine; db.reset(); s_handles = nullptr; }
    s_handles = &mine; db.reset(new history_db((s_dir + "\\clink_history").c_str(), 999, true)); db->initialise(); s_handles = nullptr;
    look(); s_handles = &mine; db.reset(); s_handles = nullptr;
    for (HANDLE h : mine) CloseHandle(h);
    g.check(sg == sm, "the next session has %s want %s", sg.c_str(), sm.c_str());
    if (added && removed) g.nontrivial();
}

//---- set -------------------------------------------------------------------------------------
int32 set(int32 argc, char** argv);
struct SDef { std::string name; char ty; std::string def; std::vector<std::string> opts; };
static std::vector<SDef>& sdefs()
{
    static std::vector<SDef> v;
    if (v.empty())
    {
        for (auto it = settings::first(); auto* s = it.next();)
        {
            std::string n = s->get_name(); SDef d; d.name = n;
            if (n == "clink.path" || n == "clink.customprompt" || n == "clink.autoupdate" || n.compare(0, 4, "lua.") == 0 || n.compare(0, 6, "debug.") == 0 || n.compare(0, 5, "exec.") == 0 || n.compare(0, 6, "match.") == 0) continue;   // settings that change what the command itself runs
            s->set(); str<> o; s->get_descriptive(o, false); d.def = o.c_str();
            switch (s->get_type()) { case setting::type_bool: d.ty = 'b'; break; case setting::type_int: d.ty = 'i'; break; case setting::type_string: d.ty = 's'; break; case setting::type_color: d.ty = 'c'; break;
            case setting::type_enum: { d.ty = 'e'; std::string all = ((setting_enum*)s)->get_options(), cur; for (char c : all + ",") if (c == ',') { d.opts.push_back(cur); cur.clear(); } else cur += c; break; } default: continue; }
            v.push_back(d);
        }
        // Declared by scripts.
        for (const char* n : { "exec.enable", "exec.path", "exec.aliases", "exec.commands", "exec.cwd", "exec.dirs", "exec.space_prefix" }) v.push_back({ n, 'b', "True", {} });
        for (const char* n : { "exec.files", "exec.associations" }) v.push_back({ n, 'b', "False", {} });
    }
    return v;
}
static const SDef* sdef(const std::string& n) { for (auto& d : sdefs()) if (d.name == n) return &d; return nullptr; }
// A value as words of the command line, and how it is shown then.
static bool gen_value(Gen& g, const SDef& d, std::vector<std::string>& w, std::string& shown)
{
    switch (d.ty)
    {
    case 'b': { static const char* const v[][2] = { { "true", "True" }, { "false", "False" }, { "1", "True" }, { "0", "False" }, { "on", "True" }, { "OFF", "False" }, { "Yes", "True" }, { "no", "False" }, { "maybe", nullptr }, { "tru", nullptr } }; auto& p = v[g.below(10)]; w = { p[0] }; if (!p[1]) return false; shown = p[1]; return true; }
    case 'i': if (g.chance(15)) { w = { g.pick({ "abc", "x1", "+5" }) }; return false; } { int n = g.pick(std::vector<int>{ 0, 1, 5, 42, 1000, 123456 }); w = { std::to_string(n) }; shown = w[0]; return true; }
    case 'e': if (g.chance(15)) { w = { g.pick({ "nonesuch", "x", "99" }) }; return false; } { size_t i = g.below(d.opts.size()); shown = d.opts[i]; w = { g.chance(20) ? std::to_string(i) : shown }; return true; }
    case 'c': if (g.chance(15)) { w = { g.pick({ "purple", "bold nonesuch" }) }; return false; } shown = g.pick({ "bold red", "green", "bright yellow on blue", "sgr 1;31", "underline cyan", "default on red" }); { std::string cur; for (char c : shown + " ") if (c == ' ') { w.push_back(cur); cur.clear(); } else cur += c; } if (g.chance(20)) w = { shown }; return true;
    default: { int n = 1 + int(g.below(3)); for (int i = 0; i < n; ++i) { w.push_back(g.pick({ "abc", "x y", "a  b", "=x", "caf\xc3\xa9", "#hash", "\"q\"", "\xe6\x97\xa5", "-d", "*", "true", "c:\\dir\\" })); shown += (i ? " " : "") + w.back(); } return true; }
    }
}

PBT_PROP(C32, set, 800, 16000, "sequences of up to 8 set commands (set one or several words, wrong values, unknown names, clear, show one, list all or by prefix, old names) over a settings file with other settings, settings of scripts, entries of unknown settings and custom defaults, or over an old settings file, against a map; the output, the result, the file after a failure and what a session then loads are compared; non-trivial: a value is set and another one is cleared or refused")
{
    fresh(); sdefs();
    for (auto* n : { L"clink_profile", L"clink_settings", L"clink_history_label", L"CLINK_CUSTOMPROMPT", L"CLINK_INPUTRC", L"CLINK_PATH" }) SetEnvironmentVariableW(n, nullptr);
    const std::string file = s_dir + "\\clink_settings", deffile = s_dir + "\\default_settings";
    std::map<std::string, std::string> m, def; for (auto& d : sdefs()) m[d.name] = def[d.name] = d.def;
    if (g.chance(30))
    {
        std::string f; for (int n = 1 + int(g.below(3)); n-- > 0;) { const SDef& d = sdefs()[g.below(sdefs().size())]; std::vector<std::string> w; std::string s; if (d.ty == 's' || d.ty == 'c' || !gen_value(g, d, w, s) || def[d.name] != d.def) continue; f += d.name + " = " + s + "\n"; m[d.name] = def[d.name] = s; }
        spit(deffile, f); g.note("default_settings: %s", esc(f).c_str());
    }
    std::string first, unknown; int start = int(g.below(3));
    if (start == 1)
    {
        for (int n = 1 + int(g.below(4)); n-- > 0;) { const SDef& d = sdefs()[g.below(sdefs().size())]; std::vector<std::string> w; std::string s; if (!gen_value(g, d, w, s) || first.find(d.name + " =") != std::string::npos) continue; first += d.name + " = " + s + "\n"; m[d.name] = s; }
        if (g.coin()) { unknown = "other.script = some text\n"; first += unknown; }
        spit(file, first);
    }
    auto old_name = [&](const std::string& n, int v, std::map<std::string, std::string>& to) {
        if (n == "exec_match_style") { to["exec.enable"] = v >= 0 ? "True" : "False"; if (v >= 0) { to["exec.path"] = "True"; to["exec.cwd"] = v >= 1 ? "True" : "False"; to["exec.dirs"] = v >= 2 ? "True" : "False"; } }
        else if (n == "history_file_lines") { to["history.save"] = v < 0 ? "False" : "True"; if (v >= 0) to["history.max_lines"] = std::to_string(v); }
        else { static const std::map<std::string, std::string> k = { { "ctrld_exits", "cmd.ctrld_exits" }, { "space_prefix_match_files", "exec.space_prefix" }, { "history_ignore_space", "history.ignore_space" }, { "history_io", "history.shared" }, { "use_altgr_substitute", "terminal.use_altgr_substitute" } }; to[k.at(n)] = v ? "True" : "False"; }
    };
    auto pick_old = [&](std::string& n, int& v) { n = g.pick({ "exec_match_style", "history_file_lines", "ctrld_exits", "space_prefix_match_files", "history_ignore_space", "history_io", "use_altgr_substitute" }); v = n == "exec_match_style" ? int(g.below(4)) - 1 : n == "history_file_lines" ? g.pick(std::vector<int>{ -1, 0, 1, 500 }) : int(g.below(2)); };
    if (start == 2)
    {
        // The settings file of an old version is taken over.
        for (int n = 1 + int(g.below(4)); n-- > 0;) { std::string o; int v; pick_old(o, v); if (first.find(o) != std::string::npos) continue; first += o + " = " + std::to_string(v) + "\n"; old_name(o, v, m); }
        spit(s_dir + "\\settings", first);
    }
    g.note("%s: %s", start == 2 ? "old settings" : "settings", esc(first).c_str());
    bool did = false, und = false;
    for (int ops = 1 + g.size(8); ops-- > 0;)
    {
        std::vector<std::string> a; const SDef& d = sdefs()[g.below(sdefs().size())]; std::string want; bool ok = true; std::map<std::string, std::string> next = m; bool changes = false;
        switch (g.weighted({ 6, 2, 1, 2, 1, 1, 2 }))
        {
        case 0: { std::vector<std::string> w; std::string s; ok = gen_value(g, d, w, s); a = { d.name }; a.insert(a.end(), w.begin(), w.end()); std::string j; for (auto& x : w) j += (j.empty() ? "" : " ") + x;
            if (ok) { next[d.name] = s; changes = did = true; want = "Setting '" + d.name + "' set to '" + s + "'.\n"; } else { und = true; want = "ERROR: Failed to set '" + d.name + "' to '" + j + "'.\n"; } break; }
        case 1: a = { d.name, g.pick({ "clear", "CLEAR" }) }; next[d.name] = def[d.name]; changes = und = true; want = "Setting '" + d.name + "' reset to '" + def[d.name] + "'.\n"; break;
        case 2: { std::string n = g.pick({ "nonesuch", "history.nonesuch", "exec", "histor", "x" }); a = { n }; if (g.coin()) a.push_back("1"); ok = false; want = "ERROR: Setting '" + n + "' not found.\n"; break; }
        case 3: a = { d.name }; break;
        case 4: break;
        case 5: a = { g.pick({ "*", "history.*", "exec.*", "EXEC.*", "color.*", "nonesuch*", "t*" }) }; break;
        default: { std::string o; int v; pick_old(o, v); a = { o }; std::map<std::string, std::string> to;
            if (g.chance(30)) { a.push_back("clear"); v = o == "exec_match_style" ? 2 : o == "history_file_lines" ? 2500 : o == "history_ignore_space" || o == "history_io" ? 0 : 1; }
            else a.push_back(std::to_string(v)); old_name(o, v, to); changes = did = true; for (auto& k : to) next[k.first] = k.second;
            // One line for each.
            static const char* const order[] = { "exec.enable", "exec.path", "exec.cwd", "exec.dirs", "history.save", "history.max_lines" };
            if (to.size() == 1) want = "Setting '" + to.begin()->first + "' set to '" + to.begin()->second + "'.\n"; else for (auto* k : order) if (to.count(k)) want += std::string("Setting '") + k + "' set to '" + to[k] + "'.\n"; break; }
        }
        std::string cmd; for (auto& x : a) cmd += " [" + esc(x) + "]"; g.note("set%s", cmd.c_str());
        std::string before = slurp(file), out; int r = run(set, 1000, "set", a, out);
        g.check((r == 0) == ok, "returns %d", r);
        if (!want.empty()) g.check(out == want, "prints \"%s\" want \"%s\"", esc(out).c_str(), esc(want).c_str());
        else if (a.size() == 1 && a[0].back() != '*')
        {
            g.check(out.find("        Name: " + d.name + "\n") == 0, "prints \"%s\"", esc(out).c_str());
            g.check(out.find("\n       Value: " + m[d.name] + "\n") != std::string::npos, "prints \"%s\" want value %s", esc(out).c_str(), esc(m[d.name]).c_str());
            g.check(out.find("\n     Default: " + def[d.name] + "\n") != std::string::npos, "prints \"%s\" want default %s", esc(out).c_str(), esc(def[d.name]).c_str());
        }
        else
        {
            std::string pre = a.empty() ? "" : a[0].substr(0, a[0].size() - 1); for (auto& c : pre) c = char(tolower(c));
            std::map<std::string, std::string> got; std::string cur;
            for (char c : out) if (c == '\n') { size_t p = cur.find("  "), q = cur.find_first_not_of(' ', p); if (p != std::string::npos) { std::string n = cur.substr(0, p); if (n.find(' ') != std::string::npos) n = cur.substr(0, cur.find(' ')); q = cur.find_first_not_of(' ', n.size()); g.check(n.compare(0, pre.size(), pre) == 0, "%s is listed for %s*", n.c_str(), pre.c_str()); got[n] = q == std::string::npos ? "" : cur.substr(q); } cur.clear(); } else cur += c;
            for (auto& k : m) if (k.first.compare(0, pre.size(), pre) == 0) { g.check(got.count(k.first), "%s isn't listed in \"%s\"", k.first.c_str(), esc(out).c_str()); g.check(got[k.first] == k.second, "%s listed as \"%s\" want \"%s\"", k.first.c_str(), esc(got[k.first]).c_str(), esc(k.second).c_str()); }
        }
        std::string after = slurp(file);
        if (!changes && start != 2) g.check(before == after, "the settings file changes to %s", esc(after).c_str());
        if (changes) m = next;
        if (!unknown.empty()) g.check(after.find("other.script = some text") != std::string::npos, "an unknown setting is lost: %s", esc(after).c_str());
        g.label(a.empty() ? "list all" : want.compare(0, 5, "ERROR") == 0 ? "refused" : !changes ? "show" : a.back() == "clear" || a.back() == "CLEAR" ? "clear" : "set");
    }
    settings::load(file.c_str(), deffile.c_str());
    for (auto& k : m) if (auto* s = settings::find(k.first.c_str())) { str<> o; s->get_descriptive(o, false); g.check(k.second == o.c_str(), "a session has %s = %s want %s", k.first.c_str(), esc(o.c_str()).c_str(), esc(k.second).c_str()); }
    if (did && und) g.nontrivial();
}
