//: group=full lflags=-Wl,--wrap=_Z24get_current_ansi_handlerP8str_base
// C19 key input.
#include <core/base.h>
#include <core/settings.h>
#include <core/str.h>
#include <core/os.h>
#include <terminal/terminal.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_helpers.h>
#include <terminal/screen_buffer.h>
#include <terminal/key_tester.h>
#include <terminal/input_idle.h>
#include <lib/rl_integration.h>
#include <utils/app_context.h>
#include "utils/usage.h"
#include <win_terminal_in.h>
#include <deque>
using namespace pbt;

extern "C" {
extern int rl_translate_keyseq(const char*, char*, int*);
extern int _rl_convert_meta_chars_to_ascii;
}
const char* find_key_name(const char* keyseq, int32& len, int32& eqclass, int32& order);
void interrupt_input();
void reset_keyseq_to_name_map();

//---- a console ----------------------------------------------------------------------------
struct Con
{
    std::deque<INPUT_RECORD> in;
    DWORD now = 1000, in_mode = 0x1f8, out_mode = 7;
    short cols = 80, rows = 25;
    bool interrupt = false;
    std::vector<std::pair<int, INPUT_RECORD>> later;        // records that arrive after a number of waits
    int waits = 0, idle_waits = 0;
    std::string written;
    std::function<void()> on_write;
    bool failed_read = false;
};
static Con s_con;
static HANDLE const h_in = HANDLE(0x1111), h_out = HANDLE(0x2222);
static DWORD WINAPI hook_wait(DWORD n, const HANDLE*, BOOL, DWORD timeout)
{
    ++s_con.waits;
    while (!s_con.later.empty() && s_con.later.front().first <= s_con.waits) { s_con.in.push_back(s_con.later.front().second); s_con.later.erase(s_con.later.begin()); }
    if (!s_con.in.empty()) { s_con.idle_waits = 0; return WAIT_OBJECT_0; }
    if (s_con.interrupt && n > 1) { s_con.interrupt = false; return WAIT_OBJECT_0 + 1; }
    if (timeout == INFINITE || ++s_con.idle_waits > 5000) throw Fail{"waits for input forever"};
    s_con.now += timeout ? timeout : 1;
    return WAIT_TIMEOUT;
}
static BOOL WINAPI hook_read(HANDLE, INPUT_RECORD* r, DWORD n, DWORD* got)
{
    DWORD i = 0;
    for (; i < n && !s_con.in.empty(); ++i) { r[i] = s_con.in.front(); s_con.in.pop_front(); }
    *got = i;
    if (!i) s_con.failed_read = true;
    return i > 0;
}
static BOOL WINAPI hook_getmode(HANDLE h, DWORD* m) { *m = h == h_in ? s_con.in_mode : s_con.out_mode; return TRUE; }
static BOOL WINAPI hook_setmode(HANDLE h, DWORD m) { (h == h_in ? s_con.in_mode : s_con.out_mode) = m; return TRUE; }
static BOOL WINAPI hook_csbi(HANDLE, CONSOLE_SCREEN_BUFFER_INFO* c)
{
    memset(c, 0, sizeof(*c)); c->dwSize = {s_con.cols, 1000}; c->srWindow = {0, 0, short(s_con.cols - 1), short(s_con.rows - 1)}; c->dwMaximumWindowSize = {s_con.cols, s_con.rows};
    return TRUE;
}
static BOOL WINAPI hook_setpos(HANDLE, COORD) { return TRUE; }
static BOOL WINAPI hook_write(HANDLE, const void* p, DWORD n, DWORD* w, void*)
{
    for (DWORD i = 0; i < n; ++i) s_con.written += char(((const wchar_t*)p)[i]);
    *w = n; if (s_con.on_write) { auto f = s_con.on_write; s_con.on_write = nullptr; f(); }
    return TRUE;
}
static HANDLE WINAPI hook_std(DWORD n) { return n == STD_INPUT_HANDLE ? h_in : h_out; }
static DWORD WINAPI hook_tick() { return s_con.now; }
static SHORT WINAPI hook_keystate(int) { return 0; }
static BOOL WINAPI hook_cursorinfo(HANDLE, CONSOLE_CURSOR_INFO* c) { c->dwSize = 25; c->bVisible = TRUE; return TRUE; }
static BOOL WINAPI hook_setcursorinfo(HANDLE, const CONSOLE_CURSOR_INFO*) { return TRUE; }
static HWND WINAPI hook_conwnd() { return nullptr; }
static BOOL WINAPI hook_spi(UINT, UINT, void* p, UINT) { *(UINT*)p = 3; return TRUE; }
// A US keyboard.
struct KeyDef { int vk; int sc; char lo, hi; const char* name; };
static const KeyDef c_keys[] = {
    {'A', 0x1e, 'a', 'A', "A"}, {'B', 0x30, 'b', 'B', "B"}, {'C', 0x2e, 'c', 'C', "C"}, {'D', 0x20, 'd', 'D', "D"}, {'E', 0x12, 'e', 'E', "E"}, {'F', 0x21, 'f', 'F', "F"},
    {'G', 0x22, 'g', 'G', "G"}, {'H', 0x23, 'h', 'H', "H"}, {'I', 0x17, 'i', 'I', "I"}, {'J', 0x24, 'j', 'J', "J"}, {'K', 0x25, 'k', 'K', "K"}, {'L', 0x26, 'l', 'L', "L"},
    {'M', 0x32, 'm', 'M', "M"}, {'N', 0x31, 'n', 'N', "N"}, {'O', 0x18, 'o', 'O', "O"}, {'P', 0x19, 'p', 'P', "P"}, {'Q', 0x10, 'q', 'Q', "Q"}, {'R', 0x13, 'r', 'R', "R"},
    {'S', 0x1f, 's', 'S', "S"}, {'T', 0x14, 't', 'T', "T"}, {'U', 0x16, 'u', 'U', "U"}, {'V', 0x2f, 'v', 'V', "V"}, {'W', 0x11, 'w', 'W', "W"}, {'X', 0x2d, 'x', 'X', "X"},
    {'Y', 0x15, 'y', 'Y', "Y"}, {'Z', 0x2c, 'z', 'Z', "Z"},
    {'0', 0x0b, '0', ')', "0"}, {'1', 0x02, '1', '!', "1"}, {'2', 0x03, '2', '@', "2"}, {'3', 0x04, '3', '#', "3"}, {'4', 0x05, '4', '$', "4"}, {'5', 0x06, '5', '%', "5"},
    {'6', 0x07, '6', '^', "6"}, {'7', 0x08, '7', '&', "7"}, {'8', 0x09, '8', '*', "8"}, {'9', 0x0a, '9', '(', "9"},
    {VK_OEM_1, 0x27, ';', ':', ";"}, {VK_OEM_PLUS, 0x0d, '=', '+', "="}, {VK_OEM_COMMA, 0x33, ',', '<', ","}, {VK_OEM_MINUS, 0x0c, '-', '_', "-"}, {VK_OEM_PERIOD, 0x34, '.', '>', "."},
    {VK_OEM_2, 0x35, '/', '?', "/"}, {VK_OEM_3, 0x29, '`', '~', "`"}, {VK_OEM_4, 0x1a, '[', '{', "["}, {VK_OEM_5, 0x2b, '\\', '|', "\\"}, {VK_OEM_6, 0x1b, ']', '}', "]"}, {VK_OEM_7, 0x28, '\'', '"', "'"},
};
static const int n_keys = int(sizeof(c_keys) / sizeof(c_keys[0]));
static int WINAPI hook_keyname(LONG l, LPWSTR out, int n)
{
    int sc = (l >> 16) & 0x1ff;
    for (auto& k : c_keys) if (k.sc == sc) { out[0] = k.name[0]; out[1] = 0; return 1; }
    out[0] = 0; return 0;
}
static UINT WINAPI hook_mapvk(UINT vk, UINT) { for (auto& k : c_keys) if (UINT(k.vk) == vk) return k.sc; return 0; }
extern "C" {
void* __imp_WaitForMultipleObjects = (void*)&hook_wait; void* __imp_ReadConsoleInputW = (void*)&hook_read;
void* __imp_GetConsoleMode = (void*)&hook_getmode; void* __imp_SetConsoleMode = (void*)&hook_setmode;
void* __imp_GetConsoleScreenBufferInfo = (void*)&hook_csbi; void* __imp_SetConsoleCursorPosition = (void*)&hook_setpos;
void* __imp_WriteConsoleW = (void*)&hook_write; void* __imp_GetStdHandle = (void*)&hook_std; void* __imp_GetTickCount = (void*)&hook_tick;
void* __imp_GetKeyState = (void*)&hook_keystate; void* __imp_GetKeyNameTextW = (void*)&hook_keyname; void* __imp_MapVirtualKeyW = (void*)&hook_mapvk;
void* __imp_GetConsoleCursorInfo = (void*)&hook_cursorinfo; void* __imp_SetConsoleCursorInfo = (void*)&hook_setcursorinfo;
void* __imp_GetConsoleWindow = (void*)&hook_conwnd; void* __imp_SystemParametersInfoA = (void*)&hook_spi; void* __imp_SystemParametersInfoW = (void*)&hook_spi;
}
extern "C" int __wrap__Z24get_current_ansi_handlerP8str_base(str_base* name) { return int(ansi_handler::winterminal); }

static bool s_init = [] { pbt::g_init = [] { os::set_shellname(L"shell"); settings::TEST_set_ever_loaded(); _rl_convert_meta_chars_to_ascii = 0; get_bindable_esc(); }; return true; }();

//---- settings -----------------------------------------------------------------------------
struct Cfg { bool raw = false, diff = false, altgr = false, altf4 = true, win = false; };
static Cfg gen_cfg(Gen& g)
{
    Cfg c; c.raw = g.chance(30); c.diff = g.chance(50); c.altgr = g.chance(30); c.altf4 = !g.chance(50); c.win = g.chance(30);
    settings::find("terminal.raw_esc")->set(c.raw ? "1" : "0"); settings::find("terminal.differentiate_keys")->set(c.diff ? "1" : "0");
    settings::find("terminal.use_altgr_substitute")->set(c.altgr ? "1" : "0"); settings::find("cmd.altf4_exits")->set(c.altf4 ? "1" : "0");
    settings::find("clink.default_bindings")->set(c.win ? "windows" : "bash");
    reset_keyseq_to_name_map();
    g.note("raw_esc %d differentiate %d altgr_substitute %d altf4_exits %d windows %d", c.raw, c.diff, c.altgr, c.altf4, c.win);
    return c;
}

//---- key presses and what they produce ------------------------------------------------------
enum { S = 1, C = 2, A = 4 };
static const char* const c_mods[] = {"", "S-", "C-", "C-S-", "A-", "A-S-", "A-C-", "A-C-S-"};
static int xmod(int m) { return 1 + ((m & S) ? 1 : 0) + ((m & A) ? 2 : 0) + ((m & C) ? 4 : 0); }
static std::string csi27(int m, int n) { return "\x1b[27;" + (m ? std::to_string(xmod(m)) + ";" : "") + std::to_string(n) + "~"; }
struct Ev
{
    std::vector<INPUT_RECORD> recs;
    std::string out;                    // bytes
    int special = 0;                    // terminal_in::input_...
    std::string name;                   // friendly name, when it has one
    int eq = -1;
    std::string shown;
    bool mouse = false;
};
static INPUT_RECORD key_rec(bool down, int vk, int sc, wchar_t ch, DWORD flags)
{
    INPUT_RECORD r; memset(&r, 0, sizeof(r)); r.EventType = KEY_EVENT; auto& k = r.Event.KeyEvent;
    k.bKeyDown = down; k.wRepeatCount = 1; k.wVirtualKeyCode = WORD(vk); k.wVirtualScanCode = WORD(sc); k.uChar.UnicodeChar = ch; k.dwControlKeyState = flags;
    return r;
}
static DWORD gen_flags(Gen& g, int m, bool left_alt_ok = true)
{
    DWORD f = 0;
    if (m & S) f |= SHIFT_PRESSED;
    if (m & C) f |= g.coin() ? RIGHT_CTRL_PRESSED : LEFT_CTRL_PRESSED;
    if (m & A) f |= (g.coin() || !left_alt_ok) ? RIGHT_ALT_PRESSED : LEFT_ALT_PRESSED;
    if (g.chance(15)) f |= NUMLOCK_ON;
    return f;
}
static std::string alt(int m, const std::string& s) { return (m & A) ? "\x1b" + s : s; }
static Ev key_nav(Gen& g)
{
    static const struct { int vk; const char* name; char fin; int num; } t[] = {
        {VK_UP, "Up", 'A', 0}, {VK_DOWN, "Down", 'B', 0}, {VK_LEFT, "Left", 'D', 0}, {VK_RIGHT, "Right", 'C', 0}, {VK_HOME, "Home", 'H', 0}, {VK_END, "End", 'F', 0},
        {VK_INSERT, "Ins", 0, 2}, {VK_DELETE, "Del", 0, 3}, {VK_PRIOR, "PgUp", 0, 5}, {VK_NEXT, "PgDn", 0, 6}};
    auto& k = t[g.below(10)]; int m = int(g.below(8)); Ev e;
    DWORD f = gen_flags(g, m) | (g.coin() ? ENHANCED_KEY : 0);
    e.recs = {key_rec(true, k.vk, 0, 0, f)};
    if (k.fin) e.out = m ? "\x1b[1;" + std::to_string(xmod(m)) + k.fin : std::string("\x1b[") + k.fin;
    else e.out = "\x1b[" + std::to_string(k.num) + (m ? ";" + std::to_string(xmod(m)) : "") + "~";
    e.name = std::string(c_mods[m]) + k.name; e.eq = m;
    return e;
}
static Ev key_fn(Gen& g, const Cfg& c)
{
    int i = int(g.below(12)), m = int(g.below(8)); Ev e;
    e.recs = {key_rec(true, VK_F1 + i, 0x3b + i, 0, gen_flags(g, m))};
    if (c.altf4 && i == 3 && m == A) { e.special = terminal_in::input_exit; return e; }
    static const int num[] = {0, 0, 0, 0, 15, 17, 18, 19, 20, 21, 23, 24};
    int x = xmod(m & (S | C)); std::string s;
    if (i < 4) s = x == 1 ? std::string("\x1bO") + char('P' + i) : "\x1b[1;" + std::to_string(x) + char('P' + i);
    else s = "\x1b[" + std::to_string(num[i]) + (x == 1 ? "" : ";" + std::to_string(x)) + "~";
    e.out = alt(m, s); e.name = std::string(c_mods[m]) + "F" + std::to_string(i + 1); e.eq = m;
    return e;
}
static Ev key_edit(Gen& g, const Cfg& c)
{
    Ev e; int m = int(g.below(8)); bool ac = (m & A) && (m & C);
    // The Ctrl-Alt substitute for AltGr applies when the left Alt key is used and a character came with the key.
    DWORD f = gen_flags(g, m, !(ac && c.altgr));
    switch (g.below(5))
    {
    case 0: {   // backspace
        e.recs = {key_rec(true, VK_BACK, 0x0e, (m & C) ? 0x7f : 8, f)};
        std::string s = (m & S) ? "" : (m & C) ? "\x7f" : "\b";
        e.out = (m & S) ? csi27(m, 8) : alt(m, s);
        if (m != A || c.diff) { e.name = std::string(c_mods[m]) + "Bkspc"; e.eq = m; } else { e.name = "A-C-h"; }
        break; }
    case 1: {   // enter
        e.recs = {key_rec(true, VK_RETURN, 0x1c, (m & C) ? 10 : 13, f)};
        e.out = m ? csi27(m, 13) : "\r"; if (m) { e.name = std::string(c_mods[m]) + "Enter"; e.eq = m; } else e.name = (c.diff || c.win) ? "Enter" : "C-m";
        break; }
    case 2: {   // tab
        e.recs = {key_rec(true, VK_TAB, 0x0f, (m & C) ? 0 : 9, f)};
        if (m & A) break;
        e.out = m == 0 ? "\t" : m == S ? "\x1b[Z" : csi27(m, 9); e.name = std::string(c_mods[m]) + "Tab"; e.eq = m;
        break; }
    case 3: {   // space
        e.recs = {key_rec(true, VK_SPACE, 0x39, ' ', f)};
        if (m == A || m == (A | S)) break;
        e.out = m ? csi27(m, 32) : " "; e.name = std::string(c_mods[m]) + "Space"; e.eq = m;
        break; }
    case 4: {   // escape
        if (m & A) m &= ~A;
        e.recs = {key_rec(true, VK_ESCAPE, 1, 0x1b, gen_flags(g, m))};
        if (c.raw) { e.recs.clear(); break; }
        e.out = "\x1b[27;27~"; e.name = "Esc"; e.eq = 0;
        break; }
    }
    return e;
}
static Ev key_char(Gen& g, const Cfg& c)
{
    const KeyDef& k = c_keys[g.below(n_keys)]; int m = int(g.below(8)); Ev e; bool letter = k.vk >= 'A' && k.vk <= 'Z';
    DWORD f = gen_flags(g, m); wchar_t ch; bool caps = false;
    if (letter && !(m & (C | A)) && g.chance(15)) { f |= CAPSLOCK_ON; caps = true; }
    bool upper = !!(m & S) != caps;
    if (!(m & C)) ch = upper ? k.hi : k.lo;
    else if (m & A) ch = 0;
    else if (letter) ch = k.vk & 0x1f;
    else if (k.vk == VK_OEM_4) ch = (m & S) ? 0 : 0x1b;
    else if (k.vk == VK_OEM_5) ch = (m & S) ? 0 : 0x1c;
    else if (k.vk == VK_OEM_6) ch = (m & S) ? 0 : 0x1d;
    else if (k.vk == '6' && (m & S)) ch = 0x1e;
    else if (k.vk == VK_OEM_MINUS && (m & S)) ch = 0x1f;
    else ch = 0;
    e.recs = {key_rec(true, k.vk, k.sc, ch, f)};
    std::string vkseq = csi27(m, k.vk), vkname = std::string(c_mods[m & S ? m : m]) + k.name;
    auto ctrl = [&](char x) { e.out = alt(m, std::string(1, x)); };
    auto ext = [&] { e.out = vkseq; e.name = vkname; e.eq = m; };
    if (!(m & C))
    {
        if ((m & A) && !c.raw && k.vk == 'O' && (m & S)) { e.out = "\x1b[27;4;79~"; e.name = "A-S-O"; }
        else if ((m & A) && !c.raw && k.vk == VK_OEM_4 && !(m & S)) { e.out = "\x1b[27;3;91~"; e.name = "A-["; }
        else { e.out = alt(m, std::string(1, char(ch))); if (!(m & A)) e.name = std::string(1, char(ch)); else e.name = (letter && upper ? "A-S-" : "A-") + std::string(1, char(ch)); if (c.raw && (m & A) && (ch == '[' || ch == 'O')) e.name.clear(); }
        return e;
    }
    if (letter)
    {
        bool ext_hi = (k.vk == 'H' || k.vk == 'I') && c.diff, ext_m = k.vk == 'M' && (c.diff || c.win);
        if (!(m & S)) { if (ext_hi || ext_m) ext(); else ctrl(char(k.vk & 0x1f)); }
        else if (k.vk == 'I' && m == (C | S) && !c.diff) { e.out = "\x1b[Z"; e.name = "S-Tab"; e.eq = S; }
        else if ((k.vk == 'H' || k.vk == 'M') && m == (C | S) && !ext_hi && !ext_m) ctrl(char(k.vk & 0x1f));
        else ext();
    }
    else switch (k.vk)
    {
    case '2': if (!(m & S) && c.diff) ext(); else ctrl(0); break;
    case '6': if (!(m & S) && c.diff) ext(); else ctrl(0x1e); break;
    case VK_OEM_MINUS: if (m & S) ctrl(0x1f); else ext(); break;
    case VK_OEM_5: if (m & S) ext(); else ctrl(0x1c); break;
    case VK_OEM_6: if (m & S) ext(); else ctrl(0x1d); break;
    case VK_OEM_4:
        if (m == C && !c.diff && !c.raw) { e.out = "\x1b[27;27~"; e.name = "Esc"; e.eq = 0; }
        else if (c.raw && !(m & S)) e.recs.clear();          // Not described.
        else ext();
        break;
    default: ext(); break;
    }
    if (e.name.empty() && e.out.size() >= 1)
    {
        unsigned char x = e.out.back(); bool a = (m & A) != 0;
        if (x == 8) e.name = !a ? "Bkspc" : c.diff ? "A-Bkspc" : "A-C-h";
        else if (x == 9) e.name = a ? "" : "Tab";
        else if (x == 13) e.name = (c.diff || c.win) ? (a ? "" : "Enter") : a ? "A-C-m" : "C-m";
        else if (x == 0) e.name = a ? "A-C-@" : "C-@";
        else e.name = std::string(a ? "A-" : "") + "C-" + "@abcdefghijklmnopqrstuvwxyz[\\]^_"[x];
        if (x == 9 && !a) e.eq = 0;
    }
    return e;
}
static uint32_t gen_cp(Gen& g)
{
    switch (g.below(5)) { case 0: return 0xa0 + uint32_t(g.below(0x700)); case 1: return 0x3041 + uint32_t(g.below(80)); case 2: return 0x1f600 + uint32_t(g.below(60)); case 3: return g.coin() ? 0x10000 + uint32_t(g.below(0x100000)) : 0x800 + uint32_t(g.below(0xd000)); default: { static const uint32_t e[] = {0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x20ac}; return e[g.below(9)]; } }
}
static Ev key_text(Gen& g, const Cfg& c)
{
    Ev e; uint32_t cp = gen_cp(g); e.out = utf8_of(cp);
    std::vector<wchar_t> w; if (cp >= 0x10000) { w.push_back(wchar_t(0xd800 + ((cp - 0x10000) >> 10))); w.push_back(wchar_t(0xdc00 + ((cp - 0x10000) & 0x3ff))); } else w.push_back(wchar_t(cp));
    size_t how = g.weighted({4, 2, 2, 2});
    for (wchar_t x : w) switch (how)
    {
    case 0: { int vk = g.coin() ? VK_PACKET : 0; e.recs.push_back(key_rec(true, vk, 0, x, g.chance(20) ? SHIFT_PRESSED : 0)); if (g.coin()) e.recs.push_back(key_rec(false, vk, 0, x, 0)); break; }
    case 1: e.recs.push_back(key_rec(true, 'E', 0x12, x, LEFT_CTRL_PRESSED | RIGHT_ALT_PRESSED | (g.chance(30) ? LEFT_ALT_PRESSED : 0))); break;     // AltGr
    case 2: e.recs.push_back(key_rec(false, VK_MENU, 0x38, x, g.coin() ? NUMLOCK_ON : 0)); break;                                              // Alt + digits
    case 3: if (c.altgr) e.recs.push_back(key_rec(true, 'E', 0x12, x, LEFT_CTRL_PRESSED | LEFT_ALT_PRESSED)); else e.recs.push_back(key_rec(true, VK_PROCESSKEY, 0, x, 0)); break;
    }
    return e;
}
static Ev key_altgr_ascii(Gen& g, const Cfg& c)
{
    Ev e; static const char t[] = "@[]{}\\|~"; char ch = t[g.below(8)]; e.out = std::string(1, ch); e.name = e.out;
    bool sub = c.altgr && g.coin();
    e.recs = {key_rec(true, 'Q', 0x10, ch, LEFT_CTRL_PRESSED | (sub ? LEFT_ALT_PRESSED : RIGHT_ALT_PRESSED))};
    return e;
}
static Ev no_key(Gen& g)
{
    Ev e; INPUT_RECORD r; memset(&r, 0, sizeof(r));
    switch (g.below(5))
    {
    case 0: { static const int vk[] = {VK_SHIFT, VK_CONTROL, VK_MENU, VK_LWIN, VK_RWIN}; r = key_rec(true, vk[g.below(5)], 0x2a, 0, gen_flags(g, int(g.below(8)))); break; }
    case 1: { auto& k = c_keys[g.below(n_keys)]; r = key_rec(false, k.vk, k.sc, k.lo, gen_flags(g, int(g.below(8)))); break; }
    case 2: { static const int vk[] = {VK_SHIFT, VK_CONTROL, VK_MENU, VK_UP, VK_F3, VK_ESCAPE}; r = key_rec(false, vk[g.below(6)], 0x2a, 0, gen_flags(g, int(g.below(8)))); break; }
    case 3: r.EventType = FOCUS_EVENT; r.Event.FocusEvent.bSetFocus = g.coin(); break;
    case 4: r.EventType = MENU_EVENT; r.Event.MenuEvent.dwCommandId = 0x123; break;
    }
    e.recs = {r};
    return e;
}
static std::string show(const Ev& e)
{
    std::string s; char b[120];
    for (auto& r : e.recs)
    {
        if (r.EventType == KEY_EVENT) { auto& k = r.Event.KeyEvent; snprintf(b, sizeof(b), "{%s vk %x sc %x char %x flags %x} ", k.bKeyDown ? "down" : "up", k.wVirtualKeyCode, k.wVirtualScanCode, k.uChar.UnicodeChar, unsigned(k.dwControlKeyState)); s += b; }
        else if (r.EventType == MOUSE_EVENT) { auto& m = r.Event.MouseEvent; snprintf(b, sizeof(b), "{mouse %d,%d buttons %x flags %x} ", m.dwMousePosition.X, m.dwMousePosition.Y, unsigned(m.dwButtonState), unsigned(m.dwEventFlags)); s += b; }
        else { snprintf(b, sizeof(b), "{event %x} ", r.EventType); s += b; }
    }
    return s;
}
static Ev gen_key(Gen& g, const Cfg& c)
{
    Ev e;
    do switch (g.weighted({4, 3, 2, 3, 2, 1})) { case 0: e = key_char(g, c); break; case 1: e = key_nav(g); break; case 2: e = key_fn(g, c); break; case 3: e = key_edit(g, c); break; case 4: e = key_text(g, c); break; default: e = key_altgr_ascii(g, c); break; } while (e.recs.empty());
    e.shown = show(e) + "-> " + (e.special ? "exit" : esc(e.out));
    return e;
}
static std::string show_stream(const std::vector<int>& v)
{
    std::string s; for (int c : v) if (c >= 0) s += esc(std::string(1, char(c))); else s += c == terminal_in::input_exit ? "<exit>" : c == terminal_in::input_abort ? "<abort>" : c == terminal_in::input_terminal_resize ? "<resize>" : "<none>";
    return s;
}
static void expect(std::vector<int>& v, const Ev& e) { if (e.special) v.push_back(e.special); for (unsigned char c : e.out) v.push_back(c); }

struct Term { win_terminal_in in; Term() { s_con = Con(); in.begin(); s_con.written.clear(); } ~Term() { in.end(); } };

PBT_PROP(C19, keys, 1000000, 30000000, "one key press (character, navigation, function and editing keys with every modifier, AltGr, Alt codes, surrogate pairs) under generated settings: the bytes read are those documented for it and its key name is the documented one; non-trivial: a modifier or a character outside ASCII")
{
    Cfg c = gen_cfg(g); Ev e = gen_key(g, c); g.note("%s", e.shown.c_str());
    Term t; for (auto& r : e.recs) s_con.in.push_back(r);
    std::vector<int> got, want; expect(want, e);
    for (int i = 0; i < 40; ++i)
    {
        if (s_con.in.empty() == false || i == 0) { bool av = t.in.available(0); (void)av; }
        t.in.select(nullptr, 0);
        int x; while ((x = t.in.read()) != terminal_in::input_none) { got.push_back(x); g.check(got.size() < 100, "no end of input"); }
        if (s_con.in.empty()) break;
    }
    if (got != want) g.fail("read \"%s\"", show_stream(got).c_str());
    bool ascii = true; for (unsigned char ch : e.out) if (ch >= 0x80) ascii = false;
    DWORD mods = 0; for (auto& r : e.recs) mods |= r.Event.KeyEvent.dwControlKeyState & 0x1f;
    if (mods || !ascii) g.nontrivial();
    if (!e.out.size() || !ascii) return;
    // Its key binding text means the same keys.
    char* text = nullptr; int sort = 0;
    g.check(translate_keyseq(e.out.c_str(), unsigned(e.out.size()), &text, false, sort) && text, "no key sequence text");
    std::string ts = text; free(text);
    g.check(ts.size() > 2 && ts[0] == '"' && ts.back() == '"', "key sequence text %s", ts.c_str());
    char keys[100]; int n = 0;
    rl_translate_keyseq(ts.substr(1, ts.size() - 2).c_str(), keys, &n);
    if (std::string(keys, n) != e.out) g.fail("key sequence text %s means \"%s\"", ts.c_str(), esc(std::string(keys, n)).c_str());
    if (e.name.empty()) return;
    // Its name.
    if (e.out.find('\0') == std::string::npos)
    {
        text = nullptr;
        g.check(translate_keyseq(e.out.c_str(), unsigned(e.out.size()), &text, true, sort) && text, "no key name");
        ts = text; free(text);
        if (ts != e.name) g.fail("key name %s instead of %s", ts.c_str(), e.name.c_str());
        if (e.eq >= 0)
        {
            int len = -1, eq = 0, order = 0; std::string tail = g.coin() ? "" : g.pick({"x", "\x1b[A", "1", "~", "\x1b"});
            const char* nm = find_key_name((e.out + tail).c_str(), len, eq, order);
            g.check(nm && nm == e.name && len == int(e.out.size()) && eq == e.eq, "find_key_name: %s, length %d, modifiers %d", nm ? nm : "none", len, eq);
        }
    }
}

PBT_PROP(C19, chords, 500000, 10000000, "chords of one to four key presses: the text of the key binding sequence, quoted and escaped for the init file, means exactly those keys to Readline's parser; non-trivial: at least two keys")
{
    Cfg c = gen_cfg(g); int n = 1 + g.size(3); std::string s;
    for (int i = 0; i < n; ++i) { Ev e; do e = gen_key(g, c); while (e.out.empty() || e.out.find('\0') != std::string::npos); s += e.out; }
    g.note("%s", esc(s).c_str());
    char* text = nullptr; int sort = 0;
    g.check(translate_keyseq(s.c_str(), unsigned(s.size()), &text, false, sort) && text, "no key sequence text");
    std::string ts = text; free(text);
    g.check(ts.size() > 2 && ts[0] == '"', "key sequence text %s", ts.c_str());
    size_t k = 1; for (; k < ts.size(); ++k) { if (ts[k] == '\\' && k + 1 < ts.size()) { ++k; continue; } if (ts[k] == '"') break; }
    g.check(k + 1 == ts.size(), "%s isn't a quoted key sequence", ts.c_str());
    char keys[200]; int len = 0; rl_translate_keyseq(ts.substr(1, k - 1).c_str(), keys, &len);
    if (std::string(keys, len) != s) g.fail("key sequence text %s means \"%s\"", ts.c_str(), esc(std::string(keys, len)).c_str());
    if (n > 1) g.nontrivial();
}

class Keys : public key_tester
{
public:
    std::vector<std::string> unbound; std::vector<std::pair<std::string, std::string>> trans; bool mouse = false; int seen = 0; std::string bad;
    bool is_bound(const char* seq, int32 len) override { ++seen; if (seq[len]) bad = "not terminated"; for (auto& u : unbound) if (u == std::string(seq, len)) return false; return true; }
    bool accepts_mouse_input(mouse_input_type) override { return mouse; }
    bool translate(const char* seq, int32 len, str_base& out) override { for (auto& t : trans) if (t.first == std::string(seq, len)) { out = t.second.c_str(); return true; } return false; }
};

// Mouse events:  buttons pressed and released, moved, wheels.
static Ev mouse_event(Gen& g, DWORD& buttons)
{
    Ev e; e.mouse = true; INPUT_RECORD r; memset(&r, 0, sizeof(r)); r.EventType = MOUSE_EVENT; auto& m = r.Event.MouseEvent;
    int x = g.chance(5) ? 32767 : int(g.below(200)), y = g.chance(5) ? 32767 : int(g.below(300)); m.dwMousePosition = {short(x), short(y)};
    char b[40]; b[0] = 0;
    switch (g.below(6))
    {
    case 0: m.dwButtonState = buttons | FROM_LEFT_1ST_BUTTON_PRESSED; if (!(buttons & FROM_LEFT_1ST_BUTTON_PRESSED)) { bool d = g.coin(); if (d) m.dwEventFlags = DOUBLE_CLICK; snprintf(b, sizeof(b), "\x1b[$%d;%d%c", x, y, d ? 'D' : 'L'); } buttons = m.dwButtonState; break;
    case 1: m.dwButtonState = buttons | RIGHTMOST_BUTTON_PRESSED; if (!(buttons & RIGHTMOST_BUTTON_PRESSED)) snprintf(b, sizeof(b), "\x1b[$%d;%dR", x, y); buttons = m.dwButtonState; break;
    case 2: m.dwButtonState = buttons & ~FROM_LEFT_1ST_BUTTON_PRESSED; buttons = m.dwButtonState; break;
    case 3: m.dwButtonState = buttons & ~RIGHTMOST_BUTTON_PRESSED; buttons = m.dwButtonState; break;
    case 4: m.dwButtonState = buttons; m.dwEventFlags = MOUSE_MOVED; if (buttons & FROM_LEFT_1ST_BUTTON_PRESSED) snprintf(b, sizeof(b), "\x1b[$%d;%dM", x, y); break;
    case 5: { int n = g.range(1, 3); bool up = g.coin(), h = g.chance(30); m.dwEventFlags = h ? MOUSE_HWHEELED : MOUSE_WHEELED; m.dwButtonState = buttons | (DWORD(WORD(short((up ? 1 : -1) * n * 120))) << 16);
        if (h) { int d = (up ? n : -n) * 120 / 32; snprintf(b, sizeof(b), "\x1b[$%d%c", d < 0 ? -d : d, d < 0 ? '<' : '>'); } else snprintf(b, sizeof(b), "\x1b[$%d%c", n * 3, up ? 'A' : 'B'); break; }
    }
    e.recs = {r}; e.out = b; e.shown = show(e) + "-> " + esc(e.out);
    return e;
}

PBT_PROP(C19, history, 400000, 10000000, "sequences of key presses, key releases, mouse and other console events arriving at arbitrary points among select, available, peek and read calls, with unbound and translated key sequences, interrupts and resizing: the bytes read are those of the events, each once, complete and in order, peek shows the next byte; non-trivial: at least three events with output and a peek or availability test between arrival and reading")
{
    Cfg c = gen_cfg(g); Term t; Keys keys; bool tester = g.coin(); DWORD buttons = 0;
    if (tester)
    {
        if (g.coin()) keys.unbound.push_back("\x1b[A"); if (g.coin()) keys.unbound.push_back("\x1b[27;6;65~"); if (g.coin()) keys.unbound.push_back("\x1bOP"); if (g.coin()) keys.unbound.push_back("a");
        if (g.coin()) keys.trans.push_back({"\x1b[27;27~", "\x1b"}); if (g.coin()) keys.trans.push_back({"\x1b[B", "\x1b[1;5B"}); if (g.coin()) keys.trans.push_back({"\r", "x"});
        keys.mouse = g.coin(); t.in.set_key_tester(&keys);
    }
    std::vector<int> want, got; int steps = 3 + g.size(25), outs = 0, tests = 0; short cols = s_con.cols; int resizes = 0;
    auto rd = [&](const char* what) { int x = t.in.read(); if (x == terminal_in::input_terminal_resize) { ++resizes; g.check(cols != s_con.cols, "resize reported though the size is the same"); cols = s_con.cols; return true; } if (x != terminal_in::input_none) { got.push_back(x); if (got.size() > want.size() || want[got.size() - 1] != x) g.fail("read \"%s\"", show_stream(got).c_str()); } return x != terminal_in::input_none; };
    for (int i = 0; i < steps; ++i)
    {
        switch (g.weighted({6, 2, 2, 3, 2, 2, 1, 1, 1}))
        {
        case 0: case 1: {
            size_t kind = g.weighted({6, 2, 2}); Ev e;
            if (kind == 0) e = gen_key(g, c); else if (kind == 1) { e = no_key(g); e.shown = show(e); } else e = mouse_event(g, buttons);
            for (size_t k = 0; k < e.recs.size(); ++k) s_con.in.push_back(e.recs[k]);
            g.note("event %s", e.shown.c_str());
            if (e.mouse && !(tester && keys.mouse)) break;
            if (tester && !e.mouse && !e.special)
            {
                // Each record of its own is tested;  texts are always bound here.
                for (auto& u : keys.unbound) if (u == e.out) { e.out.clear(); g.label("unbound"); }
                for (auto& u : keys.trans) if (u.first == e.out) { e.out = u.second; g.label("translated"); break; }
            }
            if (!e.out.empty() || e.special) ++outs;
            expect(want, e);
            break; }
        case 2: g.note("select"); t.in.select(nullptr, 0); break;
        case 3: g.note("read"); rd("read"); break;
        case 4: { g.note("available"); ++tests; bool some = got.size() < want.size(); bool av = t.in.available(g.coin() ? 0 : 30); if (some && !av) g.fail("no input available though \"%s\" is to be read", show_stream(std::vector<int>(want.begin() + got.size(), want.end())).c_str()); break; }
        case 5: {
            int p = t.in.peek(); g.note("peek"); ++tests;
            if (p != terminal_in::input_none)
            {
                bool skip = tester && (!keys.unbound.empty() || !keys.trans.empty());
                if (!skip) g.check(got.size() < want.size() && want[got.size()] == p, "peek shows %d", p);
            }
            break; }
        case 6: if (s_con.in.empty() && got.size() == want.size() && !g.chance(60)) { g.note("interrupt"); t.in.select(nullptr, 0); while (rd("drain")); s_con.interrupt = true; t.in.select(nullptr, 1000); want.push_back(terminal_in::input_abort); rd("interrupt"); g.check(got.size() == want.size(), "interrupt not reported"); g.label("interrupt"); } break;
        case 7: { short w = short(20 + g.below(3)); if (w != s_con.cols) { s_con.cols = w; g.note("resize to %d", w); INPUT_RECORD r; memset(&r, 0, sizeof(r)); r.EventType = WINDOW_BUFFER_SIZE_EVENT; r.Event.WindowBufferSizeEvent.dwSize = {w, 1000}; s_con.in.push_back(r); } break; }
        case 8: g.note("read all"); while (rd("all")); break;
        }
    }
    g.note("drain");
    for (int i = 0; i < 2000; ++i)
    {
        bool any = rd("drain");
        if (!any) { if (s_con.in.empty() && !t.in.available(0)) break; t.in.select(nullptr, 0); }
    }
    if (got != want) g.fail("read \"%s\" instead of \"%s\"", show_stream(got).c_str(), show_stream(want).c_str());
    g.check(cols == s_con.cols, "a resize was not reported");
    g.check(keys.bad.empty(), "key tester: %s", keys.bad.c_str());
    if (outs >= 3 && tests) g.nontrivial();
}

PBT_PROP(C19, request, 200000, 8000000, "a terminal request while keys are typed before, around and after the terminal's response (which arrives as key events) or without a response: the response is returned whole and everything typed is then read once and in order; non-trivial: a response and keys before and after it")
{
    Cfg c = gen_cfg(g); Term t; c.raw = false; settings::find("terminal.raw_esc")->set("0");
    std::vector<int> want, got;
    std::vector<INPUT_RECORD> before, mid; int nb = 0, na = 0;
    auto typed = [&](std::vector<INPUT_RECORD>& v) { Ev e; do { e = g.chance(20) ? no_key(g) : gen_key(g, c); } while (e.special || e.out == "\x1b[27;27~" || (e.out.size() == 2 && e.out[0] == 0x1b && e.out[1] >= 0x40 && e.out[1] < 0x60)); e.shown = show(e); g.note("key %s -> %s", e.shown.c_str(), esc(e.out).c_str()); v.insert(v.end(), e.recs.begin(), e.recs.end()); expect(want, e); if (!e.out.empty()) return 1; return 0; };
    int pre = g.size(3);
    for (int i = 0; i < pre; ++i) nb += typed(before);
    for (auto& r : before) s_con.in.push_back(r);
    int touch = int(g.below(4));
    if (touch == 1) t.in.available(0);
    if (touch == 2 && nb) { t.in.select(nullptr, 0); if (g.coin()) { int x = t.in.read(); if (x >= 0) got.push_back(x); } }
    g.note("prepare %d", touch);
    // The request and its response.
    struct { const char* req; const char* prefix; const char* fin; std::string resp; } q;
    switch (g.below(4))
    {
    case 0: q = {"\x1b[?2027$p", "\x1b[?2027;", "y", "\x1b[?2027;" + std::to_string(g.below(5)) + "$y"}; break;
    case 1: q = {"\x1b[6n", "\x1b[", "R", "\x1b[" + std::to_string(1 + g.below(50)) + ";" + std::to_string(1 + g.below(200)) + "R"}; break;
    case 2: q = {"\x1b]11;?\x07", "\x1b]11;", g.coin() ? "\x07" : nullptr, "\x1b]11;rgb:0c0c/0c0c/0c0c" + std::string(g.pick({"\x07", "\x1b\\", "\xc2\x9c"}))}; break;
    default: q = {"\x1b[c", "\x1b[?", "c", "\x1b[?61;4;" + std::to_string(g.below(30)) + "c"}; break;
    }
    bool respond = !g.chance(25);
    for (int i = g.size(2); i-- > 0;) nb += typed(mid);
    if (respond)
    {
        bool vt = g.coin();
        if (q.fin && q.resp.back() != *q.fin && *q.fin == 7) q.resp = q.resp.substr(0, q.resp.find("0c0c/0c0c/0c0c") + 14) + "\x07";
        for (int ch : ref_utf16(q.resp))
        {
            int vk = 0, sc = 0; DWORD f = 0;
            if (vt) { for (auto& k : c_keys) if (k.lo == ch || k.hi == ch) { vk = k.vk; sc = k.sc; if (k.hi == ch && k.hi != k.lo && k.lo != ch) f = SHIFT_PRESSED; } if (ch == 0x1b) vk = VK_ESCAPE, sc = 1; }
            mid.push_back(key_rec(true, vk, sc, wchar_t(ch), f)); if (g.coin()) mid.push_back(key_rec(false, vk, sc, wchar_t(ch), f));
        }
        g.note("response \"%s\"%s", esc(q.resp).c_str(), vt ? " as keys" : "");
    }
    for (int i = g.size(2); i-- > 0;) na += typed(mid);
    int delay = int(g.below(3));
    s_con.on_write = [&] { if (!delay) for (auto& r : mid) s_con.in.push_back(r); else { int w = s_con.waits + delay; for (auto& r : mid) { s_con.later.push_back({w, r}); if (delay > 1) w += int(g.below(2)); } } };
    str<> out;
    bool ok = t.in.send_terminal_request(q.req, q.prefix, q.fin, 500, 500, out);
    g.check(s_con.written.find(q.req) != std::string::npos && s_con.written.rfind(q.req) == s_con.written.find(q.req), "request written as \"%s\"", esc(s_con.written).c_str());
    bool clash = false;                     // typed keys that look like the response
    { std::string all; for (int x : want) all += char(x); if (all.find(q.prefix) != std::string::npos) clash = true; }
    if (clash) g.discard();
    if (respond) { if (!ok || q.resp != out.c_str()) g.fail("response: %s \"%s\"", ok ? "true" : "false", esc(out.c_str(), out.length()).c_str()); }
    else g.check(!ok, "response \"%s\" without one", esc(out.c_str(), out.length()).c_str());
    for (auto& l : s_con.later) s_con.in.push_back(l.second);
    s_con.later.clear();
    bool peeks = g.coin();
    for (int i = 0; i < 3000; ++i)
    {
        int p = peeks ? t.in.peek() : 0;
        int x = t.in.read();
        if (x >= 0) { if (peeks && p != x && p != terminal_in::input_none) g.fail("peek shows %d, read %d", p, x); got.push_back(x); continue; }
        g.check(x == terminal_in::input_none, "reads %d", x);
        if (s_con.in.empty() && !t.in.available(0)) break;
        t.in.select(nullptr, 0);
    }
    if (got != want) g.fail("read \"%s\" instead of \"%s\"", show_stream(got).c_str(), show_stream(want).c_str());
    if (respond && nb && na) g.nontrivial();
}

//---- clink echo ------------------------------------------------------------------------------
static std::string s_printed;
static int echo_printf(const char* fmt, ...) { char b[400]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof(b), fmt, a); va_end(a); s_printed.append(b, n); return n; }
static int echo_puts(const char* s) { s_printed += s; s_printed += "\n"; return 0; }
namespace echo_stub {
struct settings { static bool load(const char*, const char*) { return true; } };
struct ctx { void get_settings_path(str_base&) {} void get_default_settings_file(str_base&) {} };
struct app_context { static ctx* get() { static ctx c; return &c; } };
struct term { terminal_in* in; };
static terminal_in* s_in;
static term terminal_create() { return term{s_in}; }
typedef term terminal;
#define printf echo_printf
#define puts echo_puts
#define _putws(x) 0
#define g_altf4_exits s_dummy_altf4
struct { void set(const char*) {} } s_dummy_altf4;
#define console_config echo_console_config
struct echo_console_config { echo_console_config(void*, bool) {} };
#define setting_bool decltype(s_dummy_altf4)
#include "loader/input_echo.cpp"
#undef printf
#undef puts
#undef _putws
#undef g_altf4_exits
#undef console_config
#undef setting_bool
}

PBT_PROP(C19, echo, 200000, 5000000, "key presses fed to the echo command: every line it prints is a quoted key binding sequence that, given to Readline's parser, yields the bytes of that key; non-trivial: at least two keys")
{
    Cfg c = gen_cfg(g); int n = 1 + g.size(4); std::vector<Ev> evs; settings::find("cmd.altf4_exits")->set("0"); c.altf4 = false;
    win_terminal_in in; s_con = Con(); echo_stub::s_in = &in;
    for (int i = 0; i < n; ++i)
    {
        Ev e; do { e = gen_key(g, c); } while (e.out.empty() || e.out.find('\x03') != std::string::npos || e.out.find('\0') != std::string::npos);
        evs.push_back(e); g.note("%s", e.shown.c_str()); for (auto& r : e.recs) s_con.in.push_back(r);
    }
    s_con.in.push_back(key_rec(true, 'C', 0x2e, 3, LEFT_CTRL_PRESSED));
    s_printed.clear(); char a0[] = "echo"; char* argv[] = {a0, nullptr};
    echo_stub::input_echo(1, argv);
    std::vector<std::string> lines; { std::string cur; for (char ch : s_printed) if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch; }
    size_t at = 0; while (at < lines.size() && lines[at].find("finished") == std::string::npos) ++at; ++at;
    g.note("%s", esc(s_printed).c_str());
    for (auto& e : evs)
    {
        g.check(at < lines.size(), "no line for a key"); std::string s = lines[at++];
        // Readline ends the quoted sequence at the first quote that isn't escaped.
        g.check(s.size() >= 2 && s[0] == '"', "line %s", s.c_str());
        size_t k = 1; for (; k < s.size(); ++k) { if (s[k] == '\\' && k + 1 < s.size()) { ++k; continue; } if (s[k] == '"') break; }
        g.check(k + 1 == s.size(), "%s isn't a quoted key sequence", s.c_str());
        char keys[100]; int len = 0; rl_translate_keyseq(s.substr(1, k - 1).c_str(), keys, &len);
        if (std::string(keys, len) != e.out) g.fail("%s means \"%s\"", s.c_str(), esc(std::string(keys, len)).c_str());
    }
    if (n > 1) g.nontrivial();
}
