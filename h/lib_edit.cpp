//: group=full with=editor.cpp with=crt_utf8.cpp lflags=-Wl,--wrap=_rl_get_screen_size
// C23 line editing.
#include "editor.h"
#include "rl/rl_commands.h"
#include <list>
#include <wctype.h>
using namespace pbt;

static const char* const c_cmds[] = {
    "forward-char", "backward-char", "forward-word", "backward-word", "beginning-of-line", "end-of-line",
    "delete-char", "backward-delete-char", "kill-line", "backward-kill-line", "unix-line-discard", "kill-whole-line",
    "kill-word", "backward-kill-word", "unix-word-rubout", "unix-filename-rubout", "kill-region", "copy-region-as-kill", "copy-backward-word", "copy-forward-word",
    "delete-horizontal-space", "yank", "yank-pop", "transpose-chars", "transpose-words", "upcase-word", "downcase-word", "capitalize-word",
    "set-mark", "exchange-point-and-mark", "undo", "revert-line", "overwrite-mode", "tab-insert", "quoted-insert", "character-search", "character-search-backward",
    "clink-reset-line", "clink-paste", "clink-copy-line", "clink-ctrl-c", "clink-insert-dot-dot", "clink-shift-space", "clink-forward-bigword", "clink-backward-bigword",
    "cua-backward-char", "cua-forward-char", "cua-backward-word", "cua-forward-word", "cua-backward-bigword", "cua-forward-bigword", "cua-select-word", "cua-beg-of-line", "cua-end-of-line", "cua-select-all", "cua-copy", "cua-cut",
    "win-insert-eof", "win-cursor-forward", "win-copy-up-to-end", "win-copy-up-to-char", "win-delete-up-to-char", "clink-expand-env-var", "forward-backward-delete-char",
};
static std::map<std::string, std::string> s_seq;
static LONGLONG s_clock = 1000000;
static BOOL WINAPI hook_qpc(LARGE_INTEGER* p) { p->QuadPart = s_clock; return TRUE; }
static BOOL WINAPI hook_qpf(LARGE_INTEGER* p) { p->QuadPart = 1000; return TRUE; }
extern "C" { void* __imp_QueryPerformanceCounter = (void*)&hook_qpc; void* __imp_QueryPerformanceFrequency = (void*)&hook_qpf; }

static void init()
{
    vf_editor_init();
    int n = 0;
    for (auto c : c_cmds)
    {
        int k = 0x23 + n++; if (k >= '\\') ++k;
        char t[16]; sprintf(t, "\\034\\%03o", k); vf_bind(t, c);
        s_seq[c] = std::string("\x1c") + char(k);
    }
    SetEnvironmentVariableW(L"VFV", L"va lue");
}
static struct Init { Init() { g_init = init; } } s_i;

static void N(Gen& g, const std::string& s) { g.note("%s", s.c_str()); }
typedef std::vector<uint32_t> U;
static std::string enc(const U& u, size_t a = 0, size_t b = size_t(-1)) { std::string s; for (size_t i = a; i < u.size() && i < b; ++i) s += utf8_of(u[i]); return s; }
static bool ws(uint32_t c) { return c == ' ' || c == '\t'; }
static bool wordch(uint32_t c) { return c < 0x80 ? isalnum(int(c)) != 0 : c == 0xe9 || c == 0xc9 || c == 0x8a9e || c == 0x2c65 || c == 0x23a; }
static uint32_t up(uint32_t c) { return c < 0x80 ? uint32_t(toupper(int(c))) : c == 0xe9 ? 0xc9 : c == 0x2c65 ? 0x23a : c; }
static uint32_t low(uint32_t c) { return c < 0x80 ? uint32_t(tolower(int(c))) : c == 0xc9 ? 0xe9 : c == 0x23a ? 0x2c65 : c; }
static uint32_t rchar(Gen& g)
{
    switch (g.weighted({40, 22, 6, 6, 5, 3, 3, 3, 2, 2})) {
    case 0: return g.pick(std::vector<uint32_t>{'a', 'b', 'c', 'X', 'Z', '0'});
    case 1: return ' '; case 2: return g.pick(std::vector<uint32_t>{'-', '.', '&', '"'}); case 3: return g.pick(std::vector<uint32_t>{'\\', '/'});
    case 4: return g.chance(20) ? 0x2c65 : 0xe9; case 5: return g.chance(20) ? 0x23a : 0xc9; case 6: return 0x8a9e; case 7: return 0x1f642; case 8: return 0x2026; default: return 'q'; }
}

struct M
{
    U t; int p = 0, markb = 0, anchor = -1; bool over = false, lastkill = false, kill = false;
    std::deque<U> ring; int ri = 0; std::string last; U prev; bool hasprev = false; std::string clip;
    bool expl = false; int n = 1; uint32_t ch = 0;
    std::vector<U> hist;                         // texts before each edit, oldest first
    int len() const { return int(t.size()); }
    int b(int i) const { return int(enc(t, 0, i).size()); }
int mark() const { int o = 0; for (int i = 0; i < len(); ++i) { if (o >= markb) return i; o += int(utf8_of(t[i]).size()); } return len(); }   // an edit may leave it inside of a character: that character's end
    void fixmark() { markb = std::min(markb, b(len())); }
    void fwd(int c) { if (c < 0) return bwd(-c); p = std::min(p + c, len()); }
    void bwd(int c) { if (c < 0) return fwd(-c); p = std::max(p - c, 0); }
    void fword(int c) { if (c < 0) return bword(-c); while (c--) { while (p < len() && !wordch(t[p])) ++p; while (p < len() && wordch(t[p])) ++p; } }
    void bword(int c) { if (c < 0) return fword(-c); while (c--) { while (p > 0 && !wordch(t[p - 1])) --p; while (p > 0 && wordch(t[p - 1])) --p; } }
    void save() { hist.push_back(t); }
    void del(int a, int c) { if (a > c) std::swap(a, c); a = std::max(a, 0); c = std::min(c, len()); t.erase(t.begin() + a, t.begin() + c); fixmark(); }
    void ins(const U& u) { t.insert(t.begin() + p, u.begin(), u.end()); p += int(u.size()); }
    void toring(const U& u, bool append)
    {
        if (lastkill) { U& r = ring.back(); r.insert(append ? r.end() : r.begin(), u.begin(), u.end()); }
        else { if (ring.size() == 10) ring.pop_front(); ring.push_back(u); }
        ri = int(ring.size()) - 1;
    }
    void killt(int a, int c) { kill = true; if (a == c) return; U u(t.begin() + std::min(a, c), t.begin() + std::max(a, c)); del(a, c); toring(u, a < c); }
    bool seldel() { if (anchor < 0 || anchor == p) return false; int a = std::min(anchor, p); del(anchor, p); p = a; anchor = -1; return true; }
    void del_cmd(int c, bool viaRub = false)
    {
        if (c < 0) { rub_char(-c); return; }
        if (p == len()) return;
        if (c > 1 || expl) { int x = p; fwd(c); killt(x, p); p = x; } else if (c) del(p, p + 1); else del(p, p + 1);
    }
    void rub_char(int c)
    {
        if (c < 0) { if (!seldel()) del_cmd(-c); return; }
        if (!p) return;
        int o = p; if (c > 1 || expl) { bwd(c); killt(o, p); } else { --p; del(p, o); }
    }
    void rub_cmd(int c)
    {
        if (c < 0) { if (!seldel()) del_cmd(-c); return; }
        if (!p) return;
        if (!over) return rub_char(c);
        int o = p; bwd(c); int l = o - p; int at = p;
        int wid = 0; for (int i = p; i < o; ++i) wid += 1; (void)wid; (void)l;
        if (c > 1 || expl) killt(o, p); else del(o, p);
        p = at; if (p < len()) { spaces = true; spn = l; }
    }
    bool spaces = false; int spn = 0;
};

// Types text; the model of self-insert.
static void type(M& m, uint32_t c, int n)
{
    if (n < 0) n = 0;
    bool sel = m.anchor >= 0;
    if (sel) { int a = std::min(m.anchor, m.p); m.del(m.anchor, m.p); m.p = a; m.anchor = -1; }
    if (!m.over) { if (n > 0) m.ins(U(n, c)); }
    else for (int i = 0; i < n; ++i) { m.ins(U(1, c)); if (m.p < m.len()) m.del(m.p, m.p + 1); }
}

static void set_setting(const char* name, const char* v) { setting* s = settings::find(name); if (!s || !s->set(v)) throw Fail{std::string("setting ") + name}; }
extern "C" int _rl_last_command_was_kill;
static void reset_state(M& m)
{
    rl_insert_mode = RL_IM_INSERT;
    for (int i = 0; i < 10; ++i)
    {
        char t[4] = {'k', char('0' + i), 0};
        rl_point = 0; rl_insert_text(t); _rl_last_command_was_kill = 0; rl_kill_text(0, 2); rl_point = 0;
        m.ring.push_back(U{'k', uint32_t('0' + i)});
    }
    _rl_last_command_was_kill = 0; m.ri = 9; rl_mark = 0; rl_free_undo_list();
    rl_last_func = nullptr;
}

PBT_PROP(C23, model, 60000, 1500000, "at least 8 commands of which 3 or more change the text")
{
    s_clock = 1000000;
    set_setting("clink.paste_crlf", "space");
    M m;
    clear_history();
    if (g.chance(70)) { U h; int n = int(g.below(8)); for (int i = 0; i < n; ++i) h.push_back(rchar(g)); std::string s = enc(h); if (!s.empty()) { add_history(s.c_str()); m.prev = h; m.hasprev = true; } }
    using_history();
    vf_editor e(400, 25);
    e.begin();
    reset_state(m);
    int edits = 0, cmds = 0;
    std::string log;
    auto fail = [&](const std::string& why) {
        if (m.hasprev) N(g, "history: " + esc(enc(m.prev)));
        N(g, "keys:" + log); N(g, "expected: " + esc(enc(m.t, 0, m.p)) + "|" + esc(enc(m.t, m.p)) + " mark " + std::to_string(m.mark()) + " anchor " + std::to_string(m.anchor));
        std::string l = e.line(); int p = std::min<int>(rl_point, int(l.size()));
        N(g, "actual:   " + esc(l.substr(0, p)) + "|" + esc(l.substr(p)) + " point " + std::to_string(rl_point));
        g.fail("%s", why.c_str()); };
    auto compare = [&](const std::string& what) {
        std::string l = e.line();
        if (strlen(rl_line_buffer) != size_t(rl_end)) fail("the line's length is wrong after " + what);
        if (rl_point < 0 || rl_point > rl_end) fail("the cursor is outside of the line after " + what);
        if (rl_point < rl_end && (l[rl_point] & 0xc0) == 0x80) fail("the cursor is inside of a character after " + what);
        if (l != enc(m.t)) fail("wrong text after " + what);
        if (rl_point != m.b(m.p)) fail("wrong cursor after " + what);
        int a = cua_get_anchor(); bool ms = m.anchor >= 0 && m.anchor != m.p, rs = a >= 0 && a != rl_point;
        if (ms != rs || (ms && a != m.b(m.anchor))) fail("wrong selection after " + what);
    };
    int steps = 2 + int(g.below(30));
    U before;
    std::string lastcmd; bool undone_ok = false; U undo_target;
    for (int i = 0; i < steps; ++i)
    {
        g.label("step");
        std::string cmd; std::string keys; m.expl = false; m.n = 1;
        if (g.chance(30)) s_clock += g.below(7000);
        bool typed = g.chance(35);
        if (typed)
        {
            int k = 1 + int(g.below(6)); U u; for (int j = 0; j < k; ++j) u.push_back(rchar(g));
            keys = enc(u); log += " [" + esc(keys) + "]";
            U t0 = m.t; bool hadsel = m.anchor >= 0 && m.anchor != m.p;
            if (hadsel || m.over) { for (auto c : u) { m.save(); M x = m; if (hadsel) { x.seldel(); m.hist.push_back(x.t); } type(m, c, 1); hadsel = false; } }
            else for (auto c : u) { m.save(); type(m, c, 1); }
            m.anchor = -1;
            bool chunk = g.coin();
            if (chunk) e.feed(keys); else for (auto c : u) e.feed(utf8_of(c));
            if (e.done) fail("typing ended the line");
            m.lastkill = false; m.last = "self-insert"; edits++; cmds++; undone_ok = false;
            compare("typing");
            continue;
        }
        cmd = c_cmds[g.below(sizeof(c_cmds) / sizeof(*c_cmds))];
        if (g.chance(12)) cmd = g.pick(std::vector<std::string>{"undo", "undo", "yank", "kill-word", "backward-kill-word"});
        if (cmd == "yank-pop" && m.last != "yank" && m.last != "yank-pop") continue;
        if (cmd == "clink-ctrl-c" && m.anchor < 0) continue;
        static const std::set<std::string> s_neg = {"forward-char", "backward-char", "forward-word", "backward-word", "delete-char", "backward-delete-char", "kill-line", "backward-kill-line", "kill-word", "backward-kill-word", "upcase-word", "downcase-word", "capitalize-word", "cua-backward-char", "cua-backward-word", "cua-forward-word", "copy-forward-word", "copy-backward-word"};
        static const std::set<std::string> s_pos = {"unix-word-rubout", "unix-filename-rubout", "transpose-chars", "transpose-words", "tab-insert", "character-search", "character-search-backward", "clink-shift-space", "win-cursor-forward", "cua-forward-char", "undo", "overwrite-mode", "clink-forward-bigword", "clink-backward-bigword"};
        if ((s_neg.count(cmd) || s_pos.count(cmd)) && m.anchor < 0 && !(m.over && cmd == "clink-shift-space") && g.chance(20))
        {
            m.expl = true; m.n = 1 + int(g.below(4));
            if (s_neg.count(cmd) && g.chance(40)) { m.n = -m.n; keys = "\x1b-"; }
            if (m.n > 0) keys += '\x1b'; keys += char('0' + abs(m.n)); log += " M" + std::to_string(m.n);
        }
        keys += s_seq[cmd]; log += " " + cmd;
        uint32_t arg = 0;
        if (cmd == "quoted-insert") { arg = g.pick(std::vector<uint32_t>{1, 5, 'a', ' ', 25}); keys += char(arg); log += " " + esc(std::string(1, char(arg))); }
        else if (cmd == "character-search" || cmd == "character-search-backward" || cmd == "win-copy-up-to-char" || cmd == "win-delete-up-to-char") { arg = rchar(g); keys += utf8_of(arg); log += " " + esc(utf8_of(arg)); }
        if (cmd == "clink-paste" && g.chance(60)) { U u; int k = int(g.below(8)); for (int j = 0; j < k; ++j) u.push_back(rchar(g)); e.clip.text = enc(u); if (g.chance(30)) { const char* nl = g.pick(std::vector<const char*>{"\n", "\r\n", "\r\n\r\n"}); e.clip.text.insert(0, std::string("a") + nl); } m.clip = e.clip.text; log += " (" + esc(m.clip) + ")"; }
        // Model.
        const int n = m.n; const U t0 = m.t; const int p0 = m.p; bool keepsel = cmd.compare(0, 4, "cua-") == 0;
        m.kill = false; m.spaces = false; bool revert = false; int undos = 0; U mid; bool clipfree = false;
        auto cua = [&] { if (m.anchor < 0) m.anchor = m.p; };
        if (cmd == "forward-char") m.fwd(n);
        else if (cmd == "backward-char") m.bwd(n);
        else if (cmd == "forward-word") m.fword(n);
        else if (cmd == "backward-word") m.bword(n);
        else if (cmd == "beginning-of-line") m.p = 0;
        else if (cmd == "end-of-line") m.p = m.len();
        else if (cmd == "delete-char") { if (!m.seldel()) m.del_cmd(n); }
        else if (cmd == "backward-delete-char") { if (!m.seldel()) m.rub_cmd(n); }
        else if (cmd == "forward-backward-delete-char") { if (!m.seldel()) { if (m.p && m.p == m.len()) m.rub_char(n); else m.del_cmd(n); } }
        else if (cmd == "kill-line" || cmd == "backward-kill-line")
        {
            bool f = (cmd == "kill-line") == (n >= 0);
            if (f ? m.p < m.len() : m.p > 0) { int o = m.p; m.killt(o, f ? m.len() : 0); m.p = f ? o : 0; }
            if (f || p0 > 0) m.markb = m.b(m.p);
        }
        else if (cmd == "unix-line-discard") { if (m.p) { m.killt(m.p, 0); m.p = 0; m.markb = 0; } }
        else if (cmd == "kill-whole-line") { m.p = 0; m.killt(0, m.len()); m.markb = 0; }
        else if (cmd == "kill-word" || cmd == "backward-kill-word")
        {
            if (!m.seldel())
            {
                int c = cmd == "kill-word" ? n : -n; int o = m.p; m.fword(c); int q = m.p;
                if (o != q) m.killt(o, q);
                m.p = std::min(o, q); m.markb = m.b(m.p);
            }
        }
        else if (cmd == "unix-word-rubout")
        {
            if (m.p) { int o = m.p; for (int k = 0; k < n; ++k) { while (m.p && ws(m.t[m.p - 1])) --m.p; while (m.p && !ws(m.t[m.p - 1])) --m.p; } int q = m.p; m.killt(o, q); m.p = q; m.markb = m.b(q); }
        }
        else if (cmd == "unix-filename-rubout")
        {
            if (m.p)
            {
                auto sl = [](uint32_t c) { return c == '/' || c == '\\'; };
                int o = m.p;
                for (int k = 0; k < n && m.p; ++k)
                {
                    // A component is what precedes the cursor up to white space or a path separator, with the separators and white space after it;
                    // a run of only separators up to white space is a component of its own.
                    while (m.p && ws(m.t[m.p - 1])) --m.p;
                    if (m.p && sl(m.t[m.p - 1])) { int j = m.p; while (j && sl(m.t[j - 1])) --j; if (j == 0 || ws(m.t[j - 1])) { m.p = j; continue; } }
                    while (m.p && (ws(m.t[m.p - 1]) || sl(m.t[m.p - 1]))) --m.p;
                    while (m.p && !ws(m.t[m.p - 1]) && !sl(m.t[m.p - 1])) --m.p;
                }
                int q = m.p; m.killt(o, q); m.p = q; m.markb = m.b(q);
            }
        }
        else if (cmd == "kill-region" || cmd == "copy-region-as-kill")
        {
            int k = m.mark(); m.markb = m.b(k); int a = std::min(m.p, k), c = std::max(m.p, k);
            if (a != c) { U u(m.t.begin() + a, m.t.begin() + c); bool app = m.p < k; if (cmd == "kill-region") { m.del(a, c); m.p = a; } m.toring(u, app); }
            else m.p = a;
            m.kill = true;
        }
        else if (cmd == "copy-forward-word" || cmd == "copy-backward-word")
        {
            bool f = (cmd == "copy-forward-word") == (n >= 0); int c = abs(n); M x = m;
            if (f) x.fword(c); else x.bword(c);
            int q = x.p; if (f) x.bword(c); else x.fword(c); int r = x.p;
            if (q != r) { U u(m.t.begin() + std::min(q, r), m.t.begin() + std::max(q, r)); m.toring(u, r < q); }
            m.kill = true;
        }
        else if (cmd == "delete-horizontal-space") { int a = m.p, c = m.p; while (a && ws(m.t[a - 1])) --a; while (c < m.len() && ws(m.t[c])) ++c; m.del(a, c); m.p = a; }
        else if (cmd == "yank") { m.markb = m.b(m.p); m.ins(m.ring[m.ri]); }
        else if (cmd == "yank-pop") { int l = int(m.ring[m.ri].size()); int a = m.p - l; m.save(); m.del(a, m.p); m.p = a; mid = m.t;  m.ri = m.ri ? m.ri - 1 : int(m.ring.size()) - 1; m.markb = m.b(m.p); m.ins(m.ring[m.ri]); }
        else if (cmd == "transpose-chars")
        {
            if (m.p && m.b(m.len()) >= 2) { int c = n; if (m.p == m.len()) { --m.p; c = 1; } if (m.p > 0) { uint32_t x = m.t[m.p - 1]; m.del(m.p - 1, m.p); m.p = std::min(m.p - 1 + c, m.len()); m.ins(U(1, x)); } else m.p = std::min(c, m.len()); }
        }
        else if (cmd == "transpose-words")
        {
            M x = m; x.fword(n); int e2 = x.p; x.bword(1); int b2 = x.p; x.bword(n); int b1 = x.p; x.fword(1); int e1 = x.p;
            if (b1 != b2 && b2 >= e1) { U u(m.t.begin(), m.t.begin() + b1); auto app = [&](int a, int c) { u.insert(u.end(), m.t.begin() + a, m.t.begin() + c); }; app(b2, e2); app(e1, b2); app(b1, e1); app(e2, m.len()); m.markb = std::min(m.markb, m.b(m.len()) - int(enc(m.t, b2, e2).size())); m.t = u; m.p = e2; }
        }
        else if (cmd == "upcase-word" || cmd == "downcase-word" || cmd == "capitalize-word")
        {
            int a = m.p; m.fword(n); int c = m.p; if (a > c) std::swap(a, c); bool in = false;
            for (int k = a; k < c; ++k) { if (!wordch(m.t[k])) { in = false; continue; } m.t[k] = cmd[0] == 'u' ? up(m.t[k]) : cmd[0] == 'd' ? low(m.t[k]) : in ? low(m.t[k]) : up(m.t[k]); in = true; }
            m.p = c; m.fixmark();
        }
        else if (cmd == "set-mark") m.markb = m.b(m.p);
        else if (cmd == "exchange-point-and-mark") { int k = m.mark(); m.markb = m.b(m.p); m.p = k; }
        else if (cmd == "undo") undos = n;
        else if (cmd == "revert-line") revert = true;
        else if (cmd == "overwrite-mode") m.over = m.expl ? n > 0 : !m.over;
        else if (cmd == "tab-insert") m.ins(U(n, '\t'));
        else if (cmd == "quoted-insert") { m.ins(U(1, arg)); }
        else if (cmd == "character-search" || cmd == "character-search-backward")
        {
            int q = m.p, c = n; bool f = cmd == "character-search";
            while (c) { if (f) { ++q; while (q < m.len() && m.t[q] != arg) ++q; if (q >= m.len()) break; } else { --q; while (q >= 0 && m.t[q] != arg) --q; if (q < 0) break; } m.p = q; --c; }
        }
        else if (cmd == "clink-reset-line") { m.t.clear(); m.p = 0; m.fixmark(); }
        else if (cmd == "clink-paste")
        {
            if (!m.clip.empty())
            {
                std::string s; bool nl = false; for (char c : m.clip) { if (c == '\n' || c == '\r') { if (!nl) s += ' '; nl = true; } else { s += c; nl = false; } }
                m.seldel(); m.markb = m.b(m.p); m.ins(cps_of(s));
            }
        }
        else if (cmd == "clink-copy-line") m.clip = enc(m.t);
        else if (cmd == "clink-ctrl-c" || cmd == "cua-copy" || cmd == "cua-cut")
        {
            if (m.anchor >= 0 && m.anchor != m.p) m.clip = enc(m.t, std::min(m.anchor, m.p), std::max(m.anchor, m.p)); else clipfree = true;
            if (cmd == "cua-cut") { m.seldel(); m.anchor = -1; }
            if (cmd == "clink-ctrl-c") m.anchor = -1;
        }
        else if (cmd == "clink-insert-dot-dot") { U u; if (m.p && m.t[m.p - 1] != ' ' && m.t[m.p - 1] != '\\' && m.t[m.p - 1] != '/') u.push_back('\\'); u.push_back('.'); u.push_back('.'); u.push_back('\\'); m.ins(u); }
        else if (cmd == "clink-shift-space") type(m, ' ', n);
        else if (cmd == "clink-forward-bigword" || cmd == "cua-forward-bigword") { if (keepsel) cua(); for (int k = 0; k < n && m.b(m.p) < m.b(m.len()) - 1; ++k) { while (m.p < m.len() && !ws(m.t[m.p])) ++m.p; while (m.p < m.len() && ws(m.t[m.p])) ++m.p; } }
        else if (cmd == "clink-backward-bigword" || cmd == "cua-backward-bigword") { if (keepsel) cua(); for (int k = 0; k < n; ++k) { while (m.p && ws(m.t[m.p - 1])) --m.p; while (m.p && !ws(m.t[m.p - 1])) --m.p; if (m.p == 1) m.p = 0; /* a lone first blank belongs to the word after it */ } }
        else if (cmd == "cua-backward-char") { cua(); m.bwd(n); }
        else if (cmd == "cua-forward-char") { cua(); m.fwd(n); }
        else if (cmd == "cua-backward-word") { cua(); m.bword(n); }
        else if (cmd == "cua-forward-word") { cua(); m.fword(n); }
        else if (cmd == "cua-beg-of-line") { cua(); m.p = 0; }
        else if (cmd == "cua-end-of-line") { cua(); m.p = m.len(); }
        else if (cmd == "cua-select-all") { m.anchor = 0; m.p = m.len(); }
        else if (cmd == "cua-select-word")
        {
            int o = m.p; M x = m; x.fword(1); int en = x.p; x.bword(1); int hm = x.p; x.p = o; x.bword(1); int be = x.p; x.fword(1); int lm = x.p;
            if (hm <= o) be = hm; else if (lm > o) en = lm; else { be = lm; en = hm; }
            m.anchor = be; m.p = en;
        }
        else if (cmd == "win-insert-eof") m.ins(U(1, 26));
        else if (cmd == "win-cursor-forward" || cmd == "win-copy-up-to-end")
        {
            int c = cmd == "win-cursor-forward" ? n : 1 << 20; bool sel = m.anchor >= 0; while (c && m.p < m.len()) { ++m.p; --c; }
            if (c && !sel && m.hasprev && m.p < int(m.prev.size())) m.ins(U(m.prev.begin() + m.p, m.prev.begin() + std::min<int>(int(m.prev.size()), m.p + c)));
        }
        else if (cmd == "win-copy-up-to-char")
        {
            if (m.hasprev && m.p < int(m.prev.size())) { int q = m.p; while (q < int(m.prev.size()) && m.prev[q] != arg) ++q; if (q > m.p) { m.del(m.p, std::min(q, m.len())); U u(m.prev.begin() + m.p, m.prev.begin() + q); m.ins(u); } }
        }
        else if (cmd == "win-delete-up-to-char") { int q = m.p; while (q < m.len() && m.t[q] != arg) ++q; m.del(m.p, q); }
        else if (cmd == "clink-expand-env-var") { m.save(); /* no variable in the text */ m.anchor = -1; int a = m.p, c = m.p; int q = 0; for (int k = 0; k < m.p; ++k) q ^= m.t[k] == '"'; uint32_t d = q ? '"' : ' '; while (a && m.t[a - 1] != d) --a; while (c < m.len() && m.t[c] != d) ++c; m.p = a; U w(m.t.begin() + a, m.t.begin() + c); m.del(a, c); m.ins(w); }
        // Execute.
        e.feed(keys);
        if (e.done) fail("the line ended by " + cmd);
        cmds++;
        if (m.spaces)
        {   // Rubbing out in overwrite mode replaces by as many columns of spaces.
            std::string l = e.line(); size_t a = m.b(m.p); size_t k = a; while (k < l.size() && l[k] == ' ') ++k;
            std::string want = enc(m.t, 0, m.p), rest = enc(m.t, m.p);
            bool ok = false; for (size_t c = 1; a + c <= k; ++c) if (l == want + std::string(c, ' ') + rest) { ok = c >= size_t(m.spn); m.t = cps_of(l); break; }
            if (!ok) fail("rubbing out in overwrite mode does not leave spaces");
        }
        if (undos || revert)
        {
            U now = cps_of(e.line());
            if (revert && !m.hist.empty() && now != m.hist[0]) fail("revert-line does not restore the initial text");
            if (revert) { m.hist.clear(); }
            else for (int k = 0; k < undos; ++k)
            {
                if (k + 1 < undos) continue;
                // The text is one that it was before.
                int at = -1; for (int j = int(m.hist.size()); j-- > 0;) if (m.hist[j] == now) { at = j; break; }
                if (at < 0 && now != m.t) fail("undo does not restore an earlier text");
                if (at < 0 && !m.hist.empty() && now == m.t && m.t != m.hist.back()) fail("undo does nothing");
                if (undone_ok && undos == 1 && now != undo_target) { m.t = undo_target; fail("undo does not undo " + lastcmd); }
                if (at >= 0 && now != m.t) m.hist.resize(at);     // an edit that changed nothing may have been undone
            }
            m.t = now; m.fixmark();
            std::string l = e.line(); if (rl_point > rl_end) fail("cursor outside after undo");
            m.p = int(cps_of(l.substr(0, rl_point)).size());
            if (rl_point < rl_end && (l[rl_point] & 0xc0) == 0x80) fail("the cursor is inside of a character after undo");
            m.markb = rl_mark;     // the mark is not part of what undo restores
            undone_ok = false;
        }
        else if (m.t != t0 || enc(m.t) != enc(t0)) { if (cmd == "yank-pop") { m.hist.push_back(mid); } else m.hist.push_back(t0); edits++; undone_ok = enc(m.t).size() != enc(t0).size() + 1 && cmd != "yank-pop"; /* inserting one character joins the insertion before it */ undo_target = t0; lastcmd = cmd; }
        else if (cmd.compare(0, 9, "transpose") == 0 || cmd.find("case-word") != std::string::npos || cmd == "capitalize-word" || cmd == "win-copy-up-to-char" || cmd == "clink-paste" || m.anchor >= 0 || m.over)
        { m.hist.push_back(t0); undone_ok = false; }     // may have recorded an edit that changes nothing
        else if (undone_ok && m.t == t0) { /* a movement: the edit before can still be undone, unless an empty edit was recorded */ undone_ok = false; }
        if (!keepsel) m.anchor = -1;
        m.lastkill = m.kill; m.last = cmd;
        compare(cmd);
        if (clipfree) m.clip = e.clip.text;
        if (e.clip.text != m.clip) { N(g, "clipboard " + esc(e.clip.text) + " expected " + esc(m.clip)); fail("wrong clipboard after " + cmd); }
    }
    // Undoing everything restores the empty line it began with.
    int guard = 0; while (rl_undo_list && ++guard < 5000) e.feed(s_seq["undo"]);
    if (rl_end != 0 || rl_point != 0) fail("undoing everything does not restore the initial line");
    if (cmds >= 8 && edits >= 3) g.nontrivial();
}

// Pasting text with line breaks under each setting: what reaches the line, and what's queued to be run after it.
PBT_PROP(C23, paste, 6000, 100000, "the clipboard has at least 2 line breaks")
{
    const char* mode = g.pick(std::vector<const char*>{"crlf", "delete", "space", "ampersand"});
    set_setting("clink.paste_crlf", mode);
    clear_history(); using_history();
    vf_editor e(200, 25);
    e.begin();
    M m; reset_state(m);
    U t; int n = int(g.below(6)); for (int i = 0; i < n; ++i) t.push_back(rchar(g));
    e.feed(enc(t));
    int p = n;
    while (p > 0 && g.chance(40)) { e.feed(s_seq["backward-char"]); --p; }
    int sel = p;
    while (sel > 0 && g.chance(20)) { e.feed(s_seq["cua-backward-char"]); --sel; }
    std::vector<std::string> lines(1); int brk = 0; std::string clip; bool consecutive = false;
    int k = 1 + int(g.below(14));
    for (int i = 0; i < k; ++i)
        if (g.chance(30)) { clip += g.coin() ? "\r\n" : "\n"; if (i && lines.back().empty()) consecutive = true; lines.push_back(""); ++brk; }
        else { std::string c = utf8_of(rchar(g)); clip += c; lines.back() += c; }
    if (brk >= 2) g.nontrivial();
    e.clip.text = clip;
    N(g, std::string(mode) + " line " + esc(enc(t)) + " point " + std::to_string(sel) + ".." + std::to_string(p) + " clipboard " + esc(clip));
    std::string a = enc(t, 0, sel), b = enc(t, p);
    e.feed(s_seq["clink-paste"]);
    auto check = [&](const std::string& got, const std::string& want, const char* what) { if (got != want) { N(g, "got " + esc(got) + " expected " + esc(want)); g.fail("%s", what); } };
    if (std::string(mode) == "crlf" && brk)
    {
        if (!e.done) g.fail("pasting a line break does not accept the line");
        check(e.take(), a + lines[0] + b, "pasting a line with a line break gives a wrong line");
        for (size_t i = 1; i < lines.size(); ++i)
        {
            bool last = i + 1 == lines.size();
            if (last && lines[i].empty()) break;
            str<> out; dequeue_flags f;
            if (!e.queue.dequeue_line(out, f)) g.fail("pasted line %d is lost", int(i) + 1);
            std::string l(out.c_str()); while (!l.empty() && (l.back() == '\r' || l.back() == '\n')) l.pop_back();
            check(l, lines[i], "a queued pasted line is wrong");
            if (last != ((f & dequeue_flags::edit_line) == dequeue_flags::edit_line)) g.fail("only the unfinished last line may be edited");
        }
        if (!e.queue.empty()) g.fail("more lines are queued than were pasted");
    }
    else
    {
        std::string want; const char* sep = mode[0] == 's' ? " " : mode[0] == 'a' ? "&" : "";
        for (size_t i = 0; i < lines.size(); ++i) { if (i && (i == 1 || !lines[i - 1].empty())) want += sep; want += lines[i]; }   // a run of line breaks is one separator
        if (e.done) g.fail("pasting ended the line");
        check(e.line(), a + want + b, "pasted text is wrong");
        if (rl_point != int((a + want).size())) g.fail("wrong cursor after pasting");
        if (!e.queue.empty()) g.fail("a line was queued");
        e.feed(s_seq["undo"]);
        if (want.size() > 1 && e.line() != enc(t)) { N(g, "got " + esc(e.line())); g.fail("undo does not undo pasting"); }
    }
    (void)consecutive;
}

// Any commands on any text, including combining and wide characters and control characters:
// the cursor stays on the line and on a boundary of a character, and undoing everything restores the empty line.
PBT_PROP(C23, robust, 15000, 400000, "at least 10 commands on a line with a character that is not ASCII")
{
    s_clock = 1000000;
    set_setting("clink.paste_crlf", "space");
    M m; clear_history();
    auto rc = [&]() -> std::string {
        switch (g.weighted({30, 10, 8, 8, 6, 6, 4, 4, 4, 4})) {
        case 0: return utf8_of(rchar(g)); case 1: return " "; case 2: return "\xcc\x81"; case 3: return "\xe8\xaa\x9e";
        case 4: return "\xf0\x9f\x91\xa9\xe2\x80\x8d\xf0\x9f\x92\xbb"; case 5: return "\xe2\x9d\xa4\xef\xb8\x8f"; case 6: return "\xf0\x9f\x87\xab\xf0\x9f\x87\xb7";
        case 7: return "\xe0\xa5\x8d"; case 8: return "e\xcc\x81\xcc\xa7"; default: return "\xf0\x9f\x91\x8d\xf0\x9f\x8f\xbd"; } };
    std::string h; int hn = int(g.below(8)); for (int i = 0; i < hn; ++i) h += rc();
    if (!h.empty()) add_history(h.c_str());
    using_history();
    vf_editor e(600, 25);       // wide enough not to wrap: C26 has the display
    e.begin();
    reset_state(m);
    bool mb = false; int cmds = 0; std::string log; std::string last;
    auto fail = [&](const char* why) { N(g, "keys:" + log); N(g, "line: " + esc(e.line()) + " point " + std::to_string(rl_point)); g.fail("%s", why); };
    int steps = 2 + int(g.below(40));
    for (int i = 0; i < steps; ++i)
    {
        g.label("step");
        std::string keys;
        if (g.chance(40)) { int k = 1 + int(g.below(5)); for (int j = 0; j < k; ++j) keys += rc(); log += " [" + esc(keys) + "]"; last.clear(); }
        else
        {
            std::string cmd = c_cmds[g.below(sizeof(c_cmds) / sizeof(*c_cmds))];
            if (cmd == "clink-ctrl-c" && cua_get_anchor() < 0) continue;
            if (g.chance(12)) { keys = "\x1b"; if (cmd != "quoted-insert" && g.chance(30)) keys += '-'; keys += char('1' + g.below(5)); log += " " + esc(keys); }
            keys += s_seq[cmd]; log += " " + cmd;
            if (cmd == "quoted-insert") { char c = char(1 + g.below(26)); keys += c; log += " " + esc(std::string(1, c)); }
            else if (cmd == "character-search" || cmd == "character-search-backward" || cmd == "win-copy-up-to-char" || cmd == "win-delete-up-to-char") { std::string c = utf8_of(rchar(g)); keys += c; log += " " + esc(c); }
            if (cmd == "clink-paste") { e.clip.text.clear(); int k = int(g.below(6)); for (int j = 0; j < k; ++j) e.clip.text += rc(); log += " (" + esc(e.clip.text) + ")"; }
            last = cmd;
        }
        N(g, log + " on " + esc(e.line()) + " point " + std::to_string(rl_point)); log.clear();      // shown when an assertion fails
        e.feed(keys); ++cmds;
        if (e.done) fail("the line ended");
        if (rl_end < 0 || strlen(rl_line_buffer) != size_t(rl_end)) fail("the line's length is wrong");
        if (rl_point < 0 || rl_point > rl_end) fail("the cursor is outside of the line");
        if ((rl_line_buffer[rl_point] & 0xc0) == 0x80) fail("the cursor is inside of a character");
        { std::string l = e.line(); for (size_t k = 0; k < l.size();) { unsigned char c = l[k]; size_t w = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; if ((c & 0xc0) == 0x80 || k + w > l.size()) fail("a character was split"); for (size_t j = 1; j < w; ++j) if ((l[k + j] & 0xc0) != 0x80) fail("a character was split"); k += w; if (w > 1) mb = true; } }
        int a = cua_get_anchor(); if (a > rl_end) fail("the selection is outside of the line");
    }
    int guard = 0; while (rl_undo_list && ++guard < 5000) e.feed(s_seq["undo"]);
    if (rl_end != 0 || rl_point != 0) fail("undoing everything does not restore the initial line");
    if (cmds >= 10 && mb) g.nontrivial();
}
