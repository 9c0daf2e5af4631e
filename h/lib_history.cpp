//: group=full
// C11 history model, C12 killed sessions, C13 concurrent sessions.
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/settings.h>
#include <lib/history_db.h>
#include <time.h>
#include <stdexcept>
extern "C" {
#include <readline/history.h>
}
using namespace pbt;

//---- Hooks ----------------------------------------------------------------------------------
// The process imports below go through these, so a case controls the clock, can end an operation
// at any write (a killed process) and can switch between sessions at any file operation.
template <class F> static F real(const char* n) { static HMODULE m = GetModuleHandleW(L"kernel32.dll"); return (F)GetProcAddress(m, n); }
static __time64_t s_now = 1000;
static bool s_frozen;                           // the clocks stand still
static std::vector<HANDLE>* s_handles;          // handles opened by the current session
static int s_kill_after = -1;                   // writes until the session is killed
static int s_writes;
static void* s_jmp[5];
static void at_syscall(bool write);
extern "C" {
__time64_t hook_time64(__time64_t* t) { if (t) *t = s_now; return s_now; }
__time64_t _time64(__time64_t* t) { return hook_time64(t); }
void* __imp__time64 = (void*)&hook_time64;
DWORD WINAPI hook_GetTickCount() { return DWORD(s_now) * 1000; }
void* __imp_GetTickCount = (void*)&hook_GetTickCount;

HANDLE WINAPI hook_CreateFileW(LPCWSTR a, DWORD b, DWORD c, LPSECURITY_ATTRIBUTES d, DWORD e, DWORD f, HANDLE h)
{
    at_syscall(false);
    static auto r = real<decltype(&CreateFileW)>("CreateFileW");
    HANDLE x = r(a, b, c, d, e, f, h);
    if (x != INVALID_HANDLE_VALUE && s_handles) { DWORD le = GetLastError(); s_handles->push_back(x); SetLastError(le); }
    return x;
}
void* __imp_CreateFileW = (void*)&hook_CreateFileW;
BOOL WINAPI hook_CloseHandle(HANDLE h)
{
    static auto r = real<decltype(&CloseHandle)>("CloseHandle");
    if (s_handles) { auto i = std::find(s_handles->begin(), s_handles->end(), h); if (i != s_handles->end()) s_handles->erase(i); }
    return r(h);
}
void* __imp_CloseHandle = (void*)&hook_CloseHandle;
BOOL WINAPI hook_WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD w, LPOVERLAPPED o)
{
    static auto r = real<decltype(&WriteFile)>("WriteFile");
    if (s_handles)
    {
        at_syscall(true);
        ++s_writes;
        if (s_kill_after >= 0 && s_kill_after-- == 0) __builtin_longjmp(s_jmp, 1);
    }
    return r(h, p, n, w, o);
}
void* __imp_WriteFile = (void*)&hook_WriteFile;
BOOL WINAPI hook_ReadFile(HANDLE h, LPVOID p, DWORD n, LPDWORD w, LPOVERLAPPED o)
{
    at_syscall(false);
    static auto r = real<decltype(&ReadFile)>("ReadFile");
    return r(h, p, n, w, o);
}
void* __imp_ReadFile = (void*)&hook_ReadFile;
DWORD WINAPI hook_GetFileAttributesW(LPCWSTR p)
{
    at_syscall(false);
    static auto r = real<decltype(&GetFileAttributesW)>("GetFileAttributesW");
    return r(p);
}
void* __imp_GetFileAttributesW = (void*)&hook_GetFileAttributesW;
BOOL WINAPI hook_DeleteFileW(LPCWSTR p)
{
    at_syscall(true);
    static auto r = real<decltype(&DeleteFileW)>("DeleteFileW");
    return r(p);
}
void* __imp_DeleteFileW = (void*)&hook_DeleteFileW;
BOOL WINAPI hook_SetEndOfFile(HANDLE h)
{
    at_syscall(true);
    static auto r = real<decltype(&SetEndOfFile)>("SetEndOfFile");
    return r(h);
}
void* __imp_SetEndOfFile = (void*)&hook_SetEndOfFile;
BOOL WINAPI hook_LockFileEx(HANDLE h, DWORD fl, DWORD res, DWORD lo, DWORD hi, LPOVERLAPPED o);
void* __imp_LockFileEx = (void*)&hook_LockFileEx;
BOOL WINAPI hook_UnlockFileEx(HANDLE h, DWORD res, DWORD lo, DWORD hi, LPOVERLAPPED o)
{
    static auto r = real<decltype(&UnlockFileEx)>("UnlockFileEx");
    BOOL ok = r(h, res, lo, hi, o);
    at_syscall(false);
    return ok;
}
void* __imp_UnlockFileEx = (void*)&hook_UnlockFileEx;
}

//---- Fibers: the sessions of C13 -------------------------------------------------------------
struct Hist { HISTORY_STATE st; };
struct Fiber
{
    void* f = nullptr; bool done = false, blocked = false;
    std::function<void()> body;
    HISTORY_STATE hs = {};
    std::vector<HANDLE> handles;
};
static void* s_main;
static std::vector<Fiber>* s_fibers;
static int s_cur = -1;
static int s_until;                              // file operations before the next switch
static void yield_now()
{
    Fiber& me = (*s_fibers)[s_cur];
    HISTORY_STATE* h = history_get_history_state(); me.hs = *h; free(h);
    auto* keep = s_handles;
    SwitchToFiber(s_main);
    s_handles = keep;
    history_set_history_state(&me.hs);
}
static void at_syscall(bool)
{
    if (s_cur < 0) return;
    DWORD le = GetLastError();
    if (s_until-- <= 0) yield_now();
    SetLastError(le);
}
BOOL WINAPI hook_LockFileEx(HANDLE h, DWORD fl, DWORD res, DWORD lo, DWORD hi, LPOVERLAPPED o)
{
    static auto r = real<decltype(&LockFileEx)>("LockFileEx");
    if (s_cur < 0) return r(h, fl, res, lo, hi, o);
    at_syscall(false);
    if (fl & LOCKFILE_FAIL_IMMEDIATELY) return r(h, fl, res, lo, hi, o);
    for (;;)
    {
        OVERLAPPED ov = {};
        if (r(h, fl | LOCKFILE_FAIL_IMMEDIATELY, res, lo, hi, &ov)) { (*s_fibers)[s_cur].blocked = false; return TRUE; }
        if (GetLastError() != ERROR_LOCK_VIOLATION && GetLastError() != ERROR_IO_PENDING) return FALSE;
        (*s_fibers)[s_cur].blocked = true;
        yield_now();
    }
}
static VOID CALLBACK fiber_main(LPVOID p)
{
    Fiber* f = (Fiber*)p;
    s_handles = &f->handles;
    HISTORY_STATE empty = {}; history_set_history_state(&empty);
    f->body();
    s_handles = nullptr;
    f->done = true;
    HISTORY_STATE* h = history_get_history_state(); f->hs = *h; free(h);
    SwitchToFiber(s_main);
}

//---- Files ----------------------------------------------------------------------------------
static std::string s_dir, s_master;
static std::string slurp(const std::string& n)
{
    std::string s; FILE* f = fopen(n.c_str(), "rb"); if (!f) return s;
    char b[8192]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) s.append(b, k);
    fclose(f); return s;
}
static void spit(const std::string& n, const std::string& s) { FILE* f = fopen(n.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::vector<std::string> list_dir()
{
    std::vector<std::string> v; WIN32_FIND_DATAA fd;
    HANDLE h = FindFirstFileA((s_dir + "\\*").c_str(), &fd);
    if (h != INVALID_HANDLE_VALUE) { do if (!(fd.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY)) v.push_back(fd.cFileName); while (FindNextFileA(h, &fd)); FindClose(h); }
    return v;
}
static void fresh()
{
    s_dir = scratch() + "\\h"; s_master = s_dir + "\\clink_history";
    CreateDirectoryA(s_dir.c_str(), nullptr);
    for (auto& n : list_dir()) { SetFileAttributesA((s_dir + "\\" + n).c_str(), FILE_ATTRIBUTE_NORMAL); DeleteFileA((s_dir + "\\" + n).c_str()); }
    auto left = list_dir();
    if (!left.empty()) throw std::runtime_error("cannot clean the scratch folder: " + left[0]);
}

//---- Model ----------------------------------------------------------------------------------
struct Ent { std::string text; std::string time; bool del = false; };
typedef std::shared_ptr<Ent> EntP;
struct Master { std::vector<EntP> ents; int gen = 0; };
struct Cfg { bool shared = false, save = true; int dupe = 2; int stamp = 0; bool nospace = true; int max = 10000; };
struct Sess
{
    int id; Cfg cfg; std::unique_ptr<history_db> db; std::vector<HANDLE> handles;
    std::vector<EntP> own; bool has_session = false, has_rem = false; std::set<Ent*> rem;
    std::vector<EntP> keep;                      // keeps the pointers in rem valid
    std::vector<EntP> map; size_t map_master = 0; int map_gen = -1; size_t map_deleted = 0;
};
struct World { Master m; std::vector<std::unique_ptr<Sess>> live; std::vector<std::unique_ptr<Sess>> dead; int next_id = 5; };

static std::string show(const EntP& e) { return esc(e->text.size() > 40 ? e->text.substr(0, 8) + "...(" + std::to_string(e->text.size()) + ")" : e->text) + (e->time.empty() ? "" : "@" + e->time); }
static std::string show(const std::vector<EntP>& v) { std::string s; for (auto& e : v) s += (s.empty() ? "" : " | ") + show(e); return s.size() > 2500 ? s.substr(0, 2500) + "..." : s; }

static void set(const char* n, const std::string& v) { setting* s = settings::find(n); if (!s || !s->set(v.c_str())) throw std::runtime_error(std::string("setting ") + n); }
static void apply_cfg(const Cfg& c)
{
    set("history.shared", c.shared ? "true" : "false");
    set("history.dupe_mode", c.dupe == 0 ? "add" : c.dupe == 1 ? "ignore" : "erase_prev");
    set("history.time_stamp", c.stamp == 0 ? "off" : c.stamp == 1 ? "save" : "show");
    set("history.ignore_space", c.nospace ? "true" : "false");
    set("history.max_lines", std::to_string(c.max));
}

static bool pending(const Sess& s, const EntP& e) { return s.rem.count(e.get()) != 0; }
static std::vector<EntP> master_view(const World& w, const Sess& s)
{
    std::vector<EntP> v;
    if (s.cfg.save) for (auto& e : w.m.ents) if (!e->del && !pending(s, e)) v.push_back(e);
    return v;
}
static std::vector<EntP> own_view(const Sess& s) { std::vector<EntP> v; for (auto& e : s.own) if (!e->del) v.push_back(e); return v; }
static std::vector<EntP> view(const World& w, const Sess& s) { auto v = master_view(w, s); for (auto& e : own_view(s)) v.push_back(e); return v; }
static void remove_master(Sess& s, const EntP& e) { if (s.has_rem) { s.rem.insert(e.get()); s.keep.push_back(e); } else e->del = true; }
// Returns the order in which the ended sessions' files are visited.
static std::vector<int> orphan_order()
{
    std::vector<int> v;
    for (auto& n : list_dir()) { int id; char c; if (sscanf(n.c_str(), "clink_history_%d%c", &id, &c) == 1) v.push_back(id); }
    return v;
}
static void absorb(World& w, Sess& s) { for (auto& e : s.own) w.m.ents.push_back(e); for (auto* e : s.rem) e->del = true; }
static void model_reap(World& w, const std::vector<int>& order, bool copies)
{
    for (int id : order)
        for (auto& d : w.dead) if (d && d->id == id)
        {
            if (copies) absorb(w, *d);
            d.reset();
        }
    w.dead.erase(std::remove(w.dead.begin(), w.dead.end(), nullptr), w.dead.end());
}
static void model_rewrite(World& w, size_t limit, bool uniq)
{
    std::vector<EntP> v;
    for (auto& e : w.m.ents)
    {
        if (e->del) continue;
        if (uniq) for (auto& x : v) if (x && x->text == e->text) x = nullptr;
        v.push_back(e);
    }
    v.erase(std::remove(v.begin(), v.end(), nullptr), v.end());
    if (limit && v.size() > limit) v.erase(v.begin(), v.end() - limit);
    w.m.ents = v; ++w.m.gen;
    std::set<Ent*> in; for (auto& e : v) in.insert(e.get());
    auto drop = [&](Sess& s) { for (auto i = s.rem.begin(); i != s.rem.end();) if (!in.count(*i)) i = s.rem.erase(i); else ++i; };
    for (auto& s : w.live) drop(*s);
    for (auto& s : w.dead) drop(*s);
}
static void model_index(World& w, Sess& s)
{
    s.map = master_view(w, s); s.map_master = s.map.size(); s.map_gen = w.m.gen;
    for (auto& e : own_view(s)) s.map.push_back(e);
    s.map_deleted = 0;
    if (s.cfg.save) for (auto& e : w.m.ents) if (e->del || pending(s, e)) ++s.map_deleted;
}
static void model_load(World& w, Sess& s)
{
    model_index(w, s);
    if (!s.cfg.save) return;
    size_t limit = s.cfg.max > 0 && s.cfg.max <= 999999 ? s.cfg.max : 999999;
    while (s.map_master > limit) { remove_master(s, s.map[0]); s.map.erase(s.map.begin()); --s.map_master; ++s.map_deleted; }
    if (s.map_deleted > std::max<size_t>(limit, 200)) { model_rewrite(w, limit, false); model_index(w, s); }
}

//---- Driving ----------------------------------------------------------------------------------
struct Use                              // operations on a session: its settings and its handles
{
    Use(Sess& s) { apply_cfg(s.cfg); s_handles = &s.handles; }
    ~Use() { s_handles = nullptr; }
};
static void check_loaded(Gen& g, Sess& s, const char* what)
{
    std::vector<EntP> got;
    HIST_ENTRY** l = history_list();
    for (int i = 0; i < history_length; ++i) { auto e = std::make_shared<Ent>(); e->text = l[i]->line; if (l[i]->timestamp) e->time = l[i]->timestamp; got.push_back(e); }
    bool same = got.size() == s.map.size() && size_t(history_length) == got.size();
    for (size_t i = 0; same && i < got.size(); ++i) same = got[i]->text == s.map[i]->text && got[i]->time == s.map[i]->time;
    g.check(same, "%s: session %d loaded [%s] want [%s]", what, s.id, show(got).c_str(), show(s.map).c_str());
}
static void check_lines(Gen& g, World& w, Sess& s, size_t bufsize, const char* what)
{
    std::vector<char> buf(bufsize);
    std::vector<EntP> got; std::vector<int> bank;
    { history_db::iter it = s.db->read_lines(buf.data(), uint32(buf.size())); str_iter o; str<32> t;
      while (it.next(o, &t)) { auto e = std::make_shared<Ent>(); e->text = std::string(o.get_pointer(), o.length()); e->time = t.c_str(); got.push_back(e); bank.push_back(it.get_bank()); } }
    auto m = master_view(w, s); size_t nm = m.size(); auto v = view(w, s);
    bool same = got.size() == v.size();
    for (size_t i = 0; same && i < got.size(); ++i) same = got[i]->text == v[i]->text && got[i]->time == v[i]->time && bank[i] == (i < nm ? bank_master : bank_session);
    g.check(same, "%s: session %d reads [%s] want [%s]", what, s.id, show(got).c_str(), show(v).c_str());
}
static void start(Gen& g, World& w, Sess& s)
{
    { Use u(s); s.db.reset(new history_db(s_master.c_str(), s.id, s.cfg.save)); }
    auto order = orphan_order();
    Use u(s);
    s.has_session = !(s.cfg.save && s.cfg.shared);
    s.has_rem = s.has_session && s.cfg.save && s.cfg.dupe == 2;
    s.db->initialise();
    if (s.has_session) model_reap(w, order, s.cfg.save);
}
static void finish(World& w, std::unique_ptr<Sess>& p)
{
    std::unique_ptr<Sess> me = std::move(p);
    w.live.erase(std::remove(w.live.begin(), w.live.end(), nullptr), w.live.end());
    Sess* s = me.get();
    std::unique_ptr<history_db> db = std::move(s->db);
    auto order = orphan_order();
    { Use u(*s); db.reset(); }
    bool save = s->cfg.save;
    if (s->has_session && save) w.dead.push_back(std::move(me));
    model_reap(w, order, save);
}
// The process is terminated: its handles close, nothing else happens.
static void kill(World& w, std::unique_ptr<Sess>& p)
{
    auto hs = p->handles; for (HANDLE h : hs) CloseHandle(h);
    p->handles.clear(); p->db.release();
    if (p->has_session && p->cfg.save) w.dead.push_back(std::move(p)); else p.reset();
    w.live.erase(std::remove(w.live.begin(), w.live.end(), nullptr), w.live.end());
}
static bool model_add(World& w, Sess& s, const std::string& line, bool* stored = nullptr)
{
    if (stored) *stored = false;
    if (line.empty() || (s.cfg.nospace && (line[0] == ' ' || line[0] == '\t'))) return false;
    if (s.cfg.dupe == 1) { for (auto& e : view(w, s)) if (e->text == line) return true; }
    if (s.cfg.dupe == 2)
    {
        for (auto& e : master_view(w, s)) if (e->text == line) remove_master(s, e);
        for (auto& e : own_view(s)) if (e->text == line) e->del = true;
    }
    auto e = std::make_shared<Ent>(); e->text = line; if (s.cfg.stamp) e->time = std::to_string(s_now);
    if (s.cfg.save && s.cfg.shared) w.m.ents.push_back(e); else s.own.push_back(e);
    if (stored) *stored = true;
    return true;
}

static std::string gen_line(Gen& g)
{
    static const char* const pool[] = { "a", "b", "ab", "abc", "cd ..", "A", "dir /s", "echo a | find \"x\"", "git commit -m 'x'", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "set x=1", "1", "12", "120" };
    switch (g.weighted({ 12, 2, 1, 1, 1 }))
    {
    case 0: return pool[g.below(_countof(pool))];
    case 1: { std::string s = g.text("abc 1|_=\t", 20); if (s.empty() || s[0] == '|') s = "z" + s; return s; }
    case 2: return std::string(g.coin() ? " " : "\t") + pool[g.below(_countof(pool))];
    case 3: return std::string(1 + g.below(8000), g.ch("xyz")) + g.ch("123");
    default: return g.chance(30) ? "" : std::string(pool[g.below(_countof(pool))]) + " ";
    }
}
static Cfg gen_cfg(Gen& g, bool save)
{
    Cfg c; c.shared = g.chance(35); c.save = save || !g.chance(10);
    c.dupe = int(g.weighted({ 4, 2, 5 })); c.stamp = g.chance(40) ? 1 + int(g.below(2)) : 0; c.nospace = !g.chance(30);
    c.max = g.chance(30) ? 1 + int(g.below(6)) : g.chance(20) ? 0 : 10000;
    return c;
}
static std::string show(const Cfg& c) { char b[100]; sprintf(b, "%s%s dupe=%d stamp=%d nospace=%d max=%d", c.shared ? "shared" : "own", c.save ? "" : " nosave", c.dupe, c.stamp, c.nospace, c.max); return b; }

// The history there is before the first session.
static void gen_initial(Gen& g, World& w, bool big)
{
    int kind = int(g.weighted({ 6, 4, 2, 1 }));
    if (kind == 0 && !big) return;
    std::string f; int n = big ? 205 + int(g.below(120)) : g.size(12);
    bool crlf = kind == 2 && g.coin();
    const char* nl = crlf ? "\r\n" : "\n";
    if (kind == 1) f = "|CTAG_1_2_3_4\n";
    for (int i = 0; i < n; ++i)
    {
        auto e = std::make_shared<Ent>(); e->text = big ? "seed" + std::to_string(g.below(20) == 0 ? g.below(5) : i) : gen_line(g);
        if (e->text.empty()) e->text = "q";
        e->del = kind == 1 && g.chance(15);
        if (kind == 1 && g.chance(25)) { e->time = std::to_string(100 + i); f += "|\ttime=" + e->time + "\n"; }
        std::string t = e->text; if (e->del) t[0] = '|';
        if (kind == 2 && g.chance(10)) f += nl;                     // blank lines do not count
        if (kind != 3 || t.size() < 8000)
        {
            f += t + nl;
            w.m.ents.push_back(e);
        }
    }
    if (kind == 2 && !f.empty() && g.chance(20)) f.resize(f.size() - strlen(nl));    // no final newline
    if (kind != 1) w.m.ents.erase(std::remove_if(w.m.ents.begin(), w.m.ents.end(), [](const EntP& e) { return e->del; }), w.m.ents.end());
    if (getenv("VF_DBG")) g.note("raw=%s ", esc(f).c_str());
    spit(kind == 3 ? s_dir + "\\.history" : s_master, f);
    g.note("initial(%s): %s; ", kind == 3 ? ".history" : kind == 1 ? "tagged" : crlf ? "crlf" : "plain", show(w.m.ents).c_str());
}
// Reads the master file independently.
static std::vector<EntP> read_master()
{
    std::vector<EntP> v; std::string s = slurp(s_master), time; size_t i = 0;
    while (i < s.size())
    {
        size_t e = s.find_first_of(std::string("\r\n\0", 3), i); if (e == std::string::npos) e = s.size();
        std::string l = s.substr(i, e - i); i = e + 1;
        if (l.empty()) continue;
        if (l.compare(0, 7, "|\ttime=") == 0) { time = l.substr(7); continue; }
        if (l[0] != '|') { auto x = std::make_shared<Ent>(); x->text = l; x->time = time; v.push_back(x); }
        time.clear();
    }
    return v;
}
static void check_file(Gen& g, World& w)
{
    auto got = read_master(); std::vector<EntP> want;
    for (auto& e : w.m.ents) if (!e->del) want.push_back(e);
    bool same = got.size() == want.size();
    for (size_t i = 0; same && i < got.size(); ++i) same = got[i]->text == want[i]->text && got[i]->time == want[i]->time;
    g.check(same, "history file has [%s] want [%s]", show(got).c_str(), show(want).c_str());
}

static void remove_index(Gen& g, World& w, Sess& s, bool reload, std::set<std::string>& kinds)
{
    if (reload || s.map_gen < 0)
    {
        { Use u(s); s.db->load_rl_history(); }
        model_load(w, s); check_loaded(g, s, "load");
    }
    if (s.map.empty()) return;
    int ix = int(g.below(s.map.size())); EntP e = s.map[ix];
    g.note("\n %d remove #%d (%s)", s.id, ix, show(e).c_str());
    bool master = size_t(ix) < s.map_master;
    bool want = !(master && s.map_gen != w.m.gen);
    bool got; { Use u(s); got = s.db->remove(ix, e->text.c_str()); }
    if (!want) kinds.insert("stale removal");
    g.check(got == want, "session %d remove #%d returned %d", s.id, ix, got);
    if (want) { if (master) { remove_master(s, e); --s.map_master; } else e->del = true; s.map.erase(s.map.begin() + ix); }
    kinds.insert("remove");
}

static void run_world(Gen& g, bool kills, int maxops)
{
    fresh(); World w; bool big = g.chance(8);
    gen_initial(g, w, big);
    s_now = 1000 + g.below(100); s_frozen = g.chance(25);
    bool mixed = g.coin(); Cfg common = gen_cfg(g, kills);
    auto fresh_cfg = [&] { return mixed ? gen_cfg(g, kills) : common; };
    int nops = 1 + g.size(maxops), adds = 0, special = 0;
    std::set<std::string> kinds;
    auto begin = [&] {
        auto s = std::make_unique<Sess>(); s->cfg = fresh_cfg(); s->id = w.next_id; w.next_id += 1 + int(g.below(8)) * int(g.below(20));
        // A process id may be that of a session that was killed.
        if (kills && !w.dead.empty() && g.chance(15)) { s->id = w.dead[0]->id; g.discard(); }
        g.note("\n start %d (%s)", s->id, show(s->cfg).c_str());
        Sess* p = s.get(); w.live.push_back(std::move(s)); start(g, w, *p);
    };
    begin();
    for (int i = 0; i < nops; ++i)
    {
        if (!s_frozen) s_now += g.below(3);
        if (w.live.empty()) { begin(); continue; }
        size_t k = g.below(w.live.size());
        Sess& s = *w.live[k];if(getenv("VF_DBG"))g.note("\n[%d]master=%s",i,esc(slurp(s_master)).c_str());
        enum { add_, load_, remove_, list_, find_, end_, begin_, clear_, tool_, cfg_, kill_ };
        switch (g.weighted({ 16, 6, 4, 3, 2, 2, 3, 1, 3, 2, kills ? 3 : 0 }))
        {
        case add_: {
            if (g.chance(2))
            {
                // Enough text that the files are read in several pieces.
                int n = 8 + int(g.below(12)), len = 5000 + int(g.below(3000));
                g.note("\n %d add %d lines of %d", s.id, n, len); kinds.insert("burst");
                for (int j = 0; j < n; ++j)
                {
                    std::string l = "burst" + std::to_string(i) + "-" + std::to_string(j) + "-" + std::string(len - int(g.below(50)), 'x');
                    model_add(w, s, l); Use u(s); g.check(s.db->add(l.c_str()), "session %d add failed", s.id);
                }
                adds += n; break;
            }
            std::string l = gen_line(g); if (!l.empty() && l[0] == '|') break;
            g.note("\n %d add %s", s.id, show(std::make_shared<Ent>(Ent{ l })).c_str());
            if (kills && g.chance(12))
            {
                // Killed while adding (a line there is no duplicate of): all of it or nothing.
                l = "k" + std::to_string(i) + g.pick({ "", " x", "\xc3\xa9" }); s_kill_after = int(g.below(3));
                g.note(" -> add %s killed before write %d", l.c_str(), s_kill_after);
                Use u(s); bool killed = false;
                if (__builtin_setjmp(s_jmp) == 0) { s.db->add(l.c_str()); } else killed = true;
                s_kill_after = -1; kinds.insert("midadd");
                s_handles = nullptr;
                if (!killed) { model_add(w, s, l); ++adds; break; }
                Sess* sp = &s; bool shared = s.cfg.shared;
                std::string file = shared ? s_master : s_master + "_" + std::to_string(s.id);
                if (!(s.cfg.save)) throw std::runtime_error("nosave");
                if (("\n" + slurp(file)).find("\n" + l + "\n") != std::string::npos) model_add(w, *sp, l);
                kill(w, w.live[k]); ++special;
                break;
            }
            bool want = model_add(w, s, l);
            bool got; { Use u(s); time_t t; got = s.db->add(l.c_str(), &t); }
            g.check(got == want, "session %d add %s returned %d", s.id, esc(l).c_str(), got);
            ++adds; break; }
        case load_: {
            g.note("\n %d load", s.id); kinds.insert("load");
            { Use u(s); s.db->load_rl_history(); }
            size_t before = w.m.gen; model_load(w, s); if (int(before) != w.m.gen) g.label("compacted on load");
            check_loaded(g, s, "load"); break; }
        case remove_: {
            if (g.chance(30))
            {
                std::string l = gen_line(g); if (l.empty()) break;
                g.note("\n %d remove %s", s.id, esc(l.substr(0, 40)).c_str());
                int want = 0;
                for (auto& e : master_view(w, s)) if (e->text == l) { remove_master(s, e); ++want; }
                for (auto& e : own_view(s)) if (e->text == l) { e->del = true; ++want; }
                int got; { Use u(s); got = s.db->remove(l.c_str()); }
                g.check(got == want, "session %d remove %s removed %d want %d", s.id, esc(l).c_str(), got, want);
                // (Positions stay those of the loaded list.)
            }
            else
            {
                // As the user sees the list: load, then remove a line of it by its position.
                remove_index(g, w, s, g.chance(70), kinds);
            }
            ++special; break; }
        case list_: g.note("\n %d list", s.id); { apply_cfg(s.cfg); size_t b = g.chance(50) ? 64000 : 9000 + g.below(4000); s_handles = &s.handles; check_lines(g, w, s, b, "list"); s_handles = nullptr; } break;
        case find_: {
            std::string l = gen_line(g); if (l.empty()) break;
            bool want = false; for (auto& e : view(w, s)) want |= e->text == l;
            bool got; { Use u(s); got = s.db->find(l.c_str()) != 0; }
            g.check(got == want, "session %d find %s gives %d", s.id, esc(l).c_str(), got); break; }
        case end_: g.note("\n %d end", s.id); finish(w, w.live[k]); kinds.insert("end"); break;
        case begin_: if (w.live.size() < 4) begin(); kinds.insert("begin"); break;
        case clear_: {
            g.note("\n %d clear", s.id); { Use u(s); s.db->clear(); }
            if (s.cfg.save) { w.m.ents.clear(); ++w.m.gen; }
            s.own.clear(); s.rem.clear(); s.map.clear(); s.map_master = 0; s.map_gen = w.m.gen;
            if (s.cfg.save) { for (auto& x : w.live) x->rem.clear(); for (auto& x : w.dead) x->rem.clear(); }
            ++special; kinds.insert("clear"); break; }
        case tool_: {
            // The history command run inside a session: another process with the session's id.
            Sess t; t.id = s.id; t.cfg = s.cfg; t.has_session = s.has_session;
            kinds.insert("tool"); ++special;
            { Use u(t); t.db.reset(new history_db(s_master.c_str(), t.id, t.cfg.save)); }
            auto order = orphan_order();
            { Use u(t); t.db->initialise(); }
            // The settings of the session may have changed since it began.
            if (s.has_session != !(s.cfg.save && s.cfg.shared)) throw std::runtime_error("shared changed");
            if (s.has_session) model_reap(w, order, s.cfg.save);
            bool t_rem = s.has_session && s.cfg.save && s.cfg.dupe == 2;
            auto rem_master = [&](const EntP& e) { if (t_rem) { s.rem.insert(e.get()); s.keep.push_back(e); } else e->del = true; };
            if (t_rem && !s.has_rem) { }
            switch (g.below(5))
            {
            case 0: {
                auto v = view(w, s);
                if (t_rem == s.has_rem) { Use u(t); t.db.get(); s_handles = &t.handles; Sess* sp = &s; std::swap(sp->db, t.db); check_lines(g, w, s, 64000, "history"); std::swap(sp->db, t.db); }
                break; }
            case 1: {
                if (t_rem != s.has_rem) break;
                auto v = view(w, s); if (v.empty()) break;
                size_t ix = g.below(v.size()); size_t nm = master_view(w, s).size();
                g.note("\n %d history delete %d (%s)", s.id, int(ix) + 1, show(v[ix]).c_str());
                Use u(t); history_read_buffer b; history_db::line_id id = 0;
                { history_db::iter it = t.db->read_lines(b.data(), b.size()); str_iter o; for (size_t j = 0; j <= ix; ++j) id = it.next(o); }
                g.check(t.db->remove(id), "history delete %d failed", int(ix) + 1);
                if (ix < nm) rem_master(v[ix]); else v[ix]->del = true;
                break; }
            case 2: {
                bool uniq = g.coin(); int limit = g.coin() ? -1 : int(g.below(8));
                g.note("\n %d history compact %s%d", s.id, uniq ? "--unique " : "", limit);
                if (!s.cfg.save) break;
                { Use u(t); g.check(t.db->compact(true, uniq, limit), "compact failed"); }
                size_t lim = limit >= 0 ? limit : s.cfg.max > 0 ? s.cfg.max : 999999;
                model_rewrite(w, lim, uniq); kinds.insert("compact"); break; }
            case 3: {
                if (t_rem != s.has_rem) break;
                std::string l = gen_line(g); if (!l.empty() && l[0] == '|') break;
                g.note("\n %d history add %s", s.id, esc(l.substr(0, 40)).c_str());
                bool want = model_add(w, s, l), got; { Use u(t); got = t.db->add(l.c_str()); }
                g.check(got == want, "history add returned %d", got);
                break; }
            default: {
                if (t_rem != s.has_rem) break;
                g.note("\n %d history load", s.id);
                Use u(t); t.db->load_rl_history(false);
                Sess tmp; tmp.cfg = s.cfg; tmp.map = view(w, s); tmp.id = s.id; check_loaded(g, tmp, "history"); break; }
            }
            for (HANDLE h : std::vector<HANDLE>(t.handles)) CloseHandle(h);
            t.handles.clear(); t.db.release();
            break; }
        case cfg_: { Cfg c = gen_cfg(g, true); c.shared = s.cfg.shared; c.save = s.cfg.save; if ((c.dupe == 2) != s.has_rem && s.has_session) c.dupe = s.cfg.dupe; s.cfg = c; g.note("\n %d config %s", s.id, show(c).c_str()); break; }
        case kill_: g.note("\n %d killed", s.id); kill(w, w.live[k]); ++special; kinds.insert("kill"); break;
        }
        // A list that another session's rewriting made out of date.
        for (auto& x : w.live)
            if (x->map_gen >= 0 && x->map_gen != w.m.gen && x->map_master > 0 && g.chance(30)) { remove_index(g, w, *x, g.chance(15), kinds); ++special; }
    }
    while (!w.live.empty()) { g.note("\n %d end", w.live[0]->id); finish(w, w.live[0]); }
    {
        Sess* p; auto s = std::make_unique<Sess>(); s->id = w.next_id; p = s.get(); w.live.push_back(std::move(s)); g.note("\n start %d", p->id);
        start(g, w, *p); { Use u(*p); p->db->load_rl_history(); } model_load(w, *p); check_loaded(g, *p, "next session");
        finish(w, w.live[0]);
    }
    check_file(g, w);
    for (auto& n : list_dir()) g.check(n == "clink_history" || n == ".history", "'%s' is left behind", n.c_str());
    for (auto& k : kinds) g.label(k);
    if (adds >= 2 && special >= 1) g.nontrivial();
}

PBT_PROP(C11, model, 12000, 250000, "interleavings of up to four sessions (each with its own settings, or all with the same) adding, loading, removing by text or position, listing, searching, clearing, compacting, running the history command and ending, over an initial history (none, tagged, old, CRLF, migrated, or hundreds of lines), against a model: what every session loads and lists, results, and the final file with timestamps; non-trivial: at least two lines added and one removal, clear or history command")
{
    run_world(g, false, 30);
}
PBT_PROP(C12, killed, 12000, 250000, "as the history model, with sessions killed between operations or before any write of adding a line; the next sessions must see every accepted line once, nothing else changed and no files left; non-trivial: at least two lines added and one kill or removal")
{
    run_world(g, true, 24);
}

//---- C13 ------------------------------------------------------------------------------------
// Sessions run as fibers; a switch can happen at every file operation.  A case draws where.
PBT_PROP(C13, schedule, 6000, 80000, "2-4 sessions as coroutines that start, add, load, list, compact, clear (some) and end over one history, preempted at up to twelve generated file operations and whenever a lock is taken: no deadlock, every load sees only whole known lines with the session's own lines in order, and in the end every added line is there exactly once (duplicates allowed only by duplicate handling), in order per session; non-trivial: at least two preemptions fell inside an operation")
{
    fresh();
    int n = 2 + int(g.below(3));
    Cfg cfg; cfg.shared = g.coin(); cfg.dupe = g.chance(40) ? 2 : g.chance(20) ? 1 : 0; cfg.stamp = g.chance(25); cfg.max = 10000;
    s_now = 1000; apply_cfg(cfg);
    std::vector<std::string> seeds; int ns = g.size(6);
    int kind = int(g.weighted({ 4, 3, 2, 1 }));
    for (int i = 0; i < ns; ++i) seeds.push_back("seed" + std::to_string(i));
    if (kind && ns) { std::string f = kind == 1 ? "|CTAG_1_2_3_4\n" : ""; for (auto& x : seeds) f += x + "\n"; spit(kind == 3 ? s_dir + "\\.history" : s_master, f); }
    else { seeds.clear(); ns = 0; }
    // Orphan: a session that was killed earlier.
    std::vector<std::string> orphan; if (g.chance(30)) { for (int i = 0, k = 1 + g.below(3); i < k; ++i) orphan.push_back("orphan" + std::to_string(i)); std::string f; for (auto& x : orphan) f += x + "\n"; spit(s_master + "_77", f); }
    enum { add_, load_, compact_, list_, restart_, dup_, del_ };
    std::vector<std::vector<int>> ops(n);
    std::vector<std::vector<std::string>> added(n), views; std::vector<std::string> problems; std::vector<int> viewer; std::vector<size_t> viewed_own;
    std::set<std::string> removed; int dups = 0;
    for (int i = 0; i < n; ++i) for (int k = 1 + g.size(5); k-- > 0;) ops[i].push_back(int(g.weighted({ 6, 3, 1, 1, 2, 2, 1 })));
    g.note("%s dupe=%d stamp=%d seeds=%d(%d) orphans=%d;", cfg.shared ? "shared" : "own", cfg.dupe, cfg.stamp, ns, kind, int(orphan.size()));
    for (auto& o : ops) { g.note(" ["); for (int x : o) g.note("%s ", x == add_ ? "add" : x == load_ ? "load" : x == compact_ ? "compact" : x == list_ ? "list" : x == restart_ ? "restart" : x == dup_ ? "dup" : "delete"); g.note("]"); }
    std::vector<Fiber> fs(n); s_fibers = &fs;
    bool order_matters = true;
    auto look = [&](int i, const std::vector<std::string>& v) { views.push_back(v); viewer.push_back(i); viewed_own.push_back(added[i].size()); };
    for (int i = 0; i < n; ++i)
        fs[i].body = [&, i] {
            int id = 100 + i * 10; history_db* db = nullptr;
            auto begin = [&] { db = new history_db(s_master.c_str(), id++, true); db->initialise(); };
            begin();
            int k = 0;
            for (int op : ops[i])
            {
                switch (op)
                {
                case add_: { std::string l = "s" + std::to_string(i) + "-" + std::to_string(k++); if (!db->add(l.c_str())) problems.push_back("add failed"); added[i].push_back(l); break; }
                case dup_: if (!db->add("dup")) problems.push_back("add failed"); ++dups; break;
                case load_: {
                    db->load_rl_history();
                    std::vector<std::string> v; HIST_ENTRY** l = history_list(); for (int j = 0; j < history_length; ++j) v.push_back(l[j]->line);
                    look(i, v); break; }
                case list_: {
                    history_read_buffer b; std::vector<std::string> v;
                    { history_db::iter it = db->read_lines(b.data(), b.size()); str_iter o; while (it.next(o)) v.push_back(std::string(o.get_pointer(), o.length())); }
                    look(i, v); break; }
                case compact_: db->compact(true, false); break;
                case restart_: delete db; begin(); break;
                case del_: { std::string l = "seed" + std::to_string(i); db->remove(l.c_str()); removed.insert(l); break; }
                }
            }
            delete db;
        };
    s_main = ConvertThreadToFiber(nullptr); if (!s_main) s_main = GetCurrentFiber();
    HISTORY_STATE* mainh = history_get_history_state();
    for (auto& f : fs) f.f = CreateFiber(1 << 20, fiber_main, &f);
    int cur = int(g.below(n)), budget = 12, inside = 0, blocked_run = 0; size_t steps = 0;
    s_until = int(g.below(60));
    bool dead = false;
    for (int left = n; left > 0;)
    {
        while (fs[cur].done) cur = (cur + 1) % n;
        s_cur = cur; SwitchToFiber(fs[cur].f); s_cur = -1; s_handles = nullptr;
        if (++steps > 5000) { dead = true; break; }
        if (fs[cur].done) { --left; blocked_run = 0; continue; }
        if (fs[cur].blocked) { if (++blocked_run > 4 * n) { dead = true; break; } cur = (cur + 1) % n; s_until = 1 << 30; if (budget > 0 && g.coin()) { --budget; s_until = int(g.below(40)); } continue; }
        blocked_run = 0; ++inside;
        if (budget-- > 0) { int to = int(g.below(n)); s_until = int(g.below(40)); g.note(" |%d", to); cur = (cur + 1 + to) % n; } else s_until = 1 << 30;
    }
    for (auto& f : fs) { DeleteFiber(f.f); if (dead) for (HANDLE h : std::vector<HANDLE>(f.handles)) CloseHandle(h); }
    s_fibers = nullptr; history_set_history_state(mainh); free(mainh);
    g.check(!dead, "deadlock: no session can go on");
    for (auto& p : problems) g.fail("%s", p.c_str());
    // A last session collects whatever is left.
    { history_db last(s_master.c_str(), 500, true); last.initialise(); }
    { history_db last(s_master.c_str(), 501, true); last.initialise(); }
    std::vector<EntP> got = read_master(); std::map<std::string, int> count; for (auto& e : got) ++count[e->text];
    auto check_order = [&](const std::vector<std::string>& want, const std::vector<std::string>& in, const char* what) {
        size_t at = 0;
        for (auto& l : in) if (at < want.size() && l == want[at]) ++at;
        if (at != want.size()) g.fail("%s: '%s' is missing or out of order", what, want[at].c_str());
    };
    std::vector<std::string> fin; for (auto& e : got) fin.push_back(e->text);
    std::map<std::string, int> known_lines; for (auto& x : seeds) known_lines[x] = 1; for (auto& x : orphan) known_lines[x] = 1; for (auto& a : added) for (auto& x : a) known_lines[x] = 1;
    std::string all; for (auto& l : fin) all += esc(l) + " | ";
    for (auto& c : count)
    {
        if (c.first == "dup") { g.check(c.second <= (cfg.dupe == 0 ? dups : n * 6), "'dup' is there %d times: %s", c.second, all.c_str()); continue; }
        g.check(known_lines.count(c.first) != 0, "unknown line '%s' in the history: %s", esc(c.first).c_str(), all.c_str());
        g.check(c.second == 1, "'%s' is in the history %d times: %s", c.first.c_str(), c.second, all.c_str());
    }
    if (dups) g.check(cfg.dupe == 0 ? count["dup"] == dups : count["dup"] >= 1, "'dup' was added %d times but is there %d times: %s", dups, count["dup"], all.c_str());
    for (auto& x : seeds) g.check(count.count(x) == (removed.count(x) ? 0u : 1u), "'%s' %s: %s", x.c_str(), removed.count(x) ? "was removed but is there" : "is missing", all.c_str());
    for (auto& x : orphan) g.check(count.count(x), "'%s' of a killed session is missing: %s", x.c_str(), all.c_str());
    for (auto& a : added) check_order(a, fin, ("final history [" + all + "]").c_str());
    for (size_t i = 0; i < views.size(); ++i)
    {
        std::string vs; for (auto& l : views[i]) vs += esc(l) + " | ";
        std::map<std::string, int> c2; for (auto& l : views[i]) ++c2[l];
        for (auto& c : c2) if (c.first != "dup") { g.check(known_lines.count(c.first) != 0, "session %d saw the unknown line '%s': %s", viewer[i], esc(c.first).c_str(), vs.c_str()); }
        if (cfg.shared) for (auto& c : c2) if (c.first != "dup") g.check(c.second == 1, "session %d saw '%s' %d times: %s", viewer[i], c.first.c_str(), c.second, vs.c_str());
        std::vector<std::string> mine(added[viewer[i]].begin(), added[viewer[i]].begin() + viewed_own[i]);
        check_order(mine, views[i], ("view of session " + std::to_string(viewer[i]) + " [" + vs + "]").c_str());
    }
    for (auto& f : list_dir()) g.check(f == "clink_history" || f == ".history", "'%s' is left behind", f.c_str());
    (void)order_matters; if (inside >= 2) g.nontrivial();
}
