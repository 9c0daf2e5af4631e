//: group=core libs=core,wildmatch with=heap.cpp lflags=-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=wcsdup
// C06 gitignore-style patterns, C08 globbing.
#include <core/base.h>
#include <core/str.h>
#include <core/path.h>
#include <core/globber.h>
#include "../wildmatch/wildmatch/wildmatch.h"
#include <set>
#include <sys/stat.h>
#include "heap.h"
using namespace pbt;

//---- C06 ----------------------------------------------------------------------------------
// Patterns are generated as a list of elements, so the reference never parses a pattern.
struct El
{
    enum { lit, any, star, set, dirs, tail } t;     // dirs: "**/"   tail: a final "**"
    char c = 0;
    bool neg = false;
    std::vector<std::pair<char, char>> ranges;
    std::vector<std::string> classes;
};
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int upper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool in_class(const std::string& n, int c)
{
    bool dg = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z';
    if (n == "alnum") return dg || lo || up;
    if (n == "alpha") return lo || up;
    if (n == "blank") return c == ' ' || c == '\t';
    if (n == "cntrl") return c < 0x20 || c == 0x7f;
    if (n == "digit") return dg;
    if (n == "graph") return c > 0x20 && c < 0x7f;
    if (n == "lower") return lo;
    if (n == "print") return c >= 0x20 && c < 0x7f;
    if (n == "punct") return c > 0x20 && c < 0x7f && !(dg || lo || up);
    if (n == "space") return c == ' ' || (c >= 9 && c <= 13);
    if (n == "xdigit") return dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    return up;
}
struct Glob
{
    std::vector<El> p; std::string s; int flags;
    std::map<std::pair<size_t, size_t>, bool> memo;
    bool has(int f) const { return (flags & f) != 0; }
    bool slash(char c) const { return c == '/' || (has(WM_SLASHFOLD) && c == '\\'); }
    bool pathname() const { return has(WM_PATHNAME | WM_WILDSTAR); }
    bool lead_dot(size_t j) const { return has(WM_PERIOD) && j < s.size() && s[j] == '.' && (j == 0 || (pathname() && slash(s[j - 1]))); }
    bool in_set(const El& e, char ch) const
    {
        bool fold = has(WM_CASEFOLD);
        char t = slash(ch) ? '/' : ch;
        bool ok = false;
        for (auto& r : e.ranges)
        {
            char a = fold ? lower(r.first) : r.first, b = fold ? lower(r.second) : r.second, x = fold ? lower(t) : t;
            if (a > b) std::swap(a, b);
            ok |= a <= x && x <= b;
        }
        for (auto& n : e.classes) ok |= in_class(n, t) || (fold && (in_class(n, lower(t)) || (n == "upper" && in_class(n, upper(t)))));
        return ok != e.neg;
    }
    bool m(size_t i, size_t j)
    {
        auto k = std::make_pair(i, j);
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        bool r = false;
        if (i == p.size()) r = j == s.size() || (has(WM_LEADING_DIR) && slash(s[j]));
        else
        {
            const El& e = p[i];
            switch (e.t)
            {
            case El::lit:
                if (j < s.size() && (e.c == s[j] || (has(WM_CASEFOLD) && lower(e.c) == lower(s[j])) || (e.c == '/' && slash(s[j])))) r = m(i + 1, j + 1);
                break;
            case El::any: case El::set:
                if (j < s.size() && !(pathname() && slash(s[j])) && !lead_dot(j) && (e.t == El::any || in_set(e, s[j]))) r = m(i + 1, j + 1);
                break;
            case El::star:
                if (lead_dot(j)) break;
                for (;; ++j) { if (m(i + 1, j)) { r = true; break; } if (j >= s.size() || (pathname() && slash(s[j]))) break; }
                break;
            case El::dirs:
                r = m(i + 1, j);
                for (; !r && j < s.size(); ++j) if (slash(s[j])) r = m(i + 1, j + 1);
                break;
            case El::tail: r = true; break;
            }
        }
        return memo[k] = r;
    }
};
static void put_lit(std::string& o, char c, int flags, bool in_set, Gen* g)
{
    bool special = in_set ? strchr("\\]!^-[", c) != nullptr : strchr("*?[\\", c) != nullptr;
    if (!(flags & WM_NOESCAPE) && (special || (g && c != '/' && !strchr(":", c) && g->chance(6)))) o += '\\';
    o += c;
}

PBT_PROP(C06, glob, 10000000, 120000000, "patterns built from elements ('*', '?', '**' components, brackets with ranges and classes, escapes), text mostly derived from the pattern, random flags, against a reference matcher; text ends at an inaccessible page; non-trivial: has a wildcard or bracket and both outcomes were possible (text not empty)")
{
    Glob m;
    static const int fl[] = { WM_NOESCAPE, WM_PATHNAME, WM_PERIOD, WM_LEADING_DIR, WM_CASEFOLD, WM_WILDSTAR, WM_SLASHFOLD };
    m.flags = 0;
    for (int f : fl) if (g.chance(f == WM_WILDSTAR || f == WM_CASEFOLD || f == WM_SLASHFOLD ? 50 : f == WM_PATHNAME ? 40 : 20)) m.flags |= f;
    bool noesc = m.has(WM_NOESCAPE);
    std::string pat;
    // Characters that may stand unescaped when escapes are off.
    auto litc = [&]() -> char { switch (g.below(10)) { case 0: case 1: case 2: case 3: return 'a' + g.below(3); case 4: return 'A' + g.below(3); case 5: return '.'; case 6: return g.ch("0-_ ]!^"); case 7: return noesc ? 'b' : g.ch("*?[\\"); default: return g.ch("abcde"); } };
    int n = g.size(9), stars = 0; bool wild = false;
    bool comp_start = true;
    for (int i = 0; i < n; ++i)
    {
        El e; e.t = El::lit;
        bool ws = m.has(WM_WILDSTAR);
        switch (g.below(12))
        {
        case 4: e.t = El::any; pat += '?'; wild = true; comp_start = false; break;
        case 5: case 6:
            if (stars >= 6 || (!m.p.empty() && (m.p.back().t == El::star))) continue;
            ++stars; wild = true;
            if (ws && comp_start && g.coin())
            {
                if (!m.p.empty() && m.p.back().t == El::dirs && !g.coin()) continue;
                e.t = El::dirs; pat += "**"; while (g.chance(10)) pat += '*'; pat += "/"; comp_start = true; break;
            }
            e.t = El::star; pat += '*'; if (!ws) while (g.chance(15)) pat += '*'; comp_start = false; break;
        case 7: case 8: e.c = '/'; if (!m.p.empty() && m.p.back().t == El::lit && m.p.back().c == '/' && g.chance(80)) continue; pat += '/'; comp_start = true; break;
        case 9: case 10: {
            e.t = El::set; wild = true; comp_start = false;
            std::string b;
            e.neg = g.chance(30);
            if (e.neg) b += g.coin() ? '!' : '^';
            int items = 1 + g.below(4);
            bool first = true;
            for (int k = 0; k < items; ++k, first = false)
            {
                switch (g.below(6))
                {
                case 3: {
                    static const char* rs[] = { "az", "AZ", "09", "ac", "bC", "ca", "be", "ad", "!/", ":@" };
                    const char* r = rs[g.below(8)];
                    e.ranges.push_back({ r[0], r[1] }); b += r[0]; b += '-'; b += r[1]; break; }
                case 4: {
                    static const char* cs[] = { "alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit" };
                    const char* c = cs[g.below(_countof(cs))];
                    e.classes.push_back(c); b += std::string("[:") + c + ":]"; break; }
                case 5:
                    if (first && g.coin()) { e.ranges.push_back({ ']', ']' }); b += ']'; break; }   // fallthrough
                default: {
                    char c = noesc ? g.ch("abcABC01._ ") : g.ch("abcABC01._ ]-!^[\\");
                    // A slash or what follows as a range would change the meaning.
                    if (c == '\\' && m.has(WM_SLASHFOLD)) c = 'a';
                    e.ranges.push_back({ c, c }); put_lit(b, c, m.flags, true, &g); break; }
                }
            }
            if (g.chance(15)) { e.ranges.push_back({ '-', '-' }); b += '-'; }   // last: literal
            pat += "[" + b + "]";
            break; }
        default: e.c = litc(); put_lit(pat, e.c, m.flags, false, &g); comp_start = false;
        }
        m.p.push_back(e);
    }
    if (m.has(WM_WILDSTAR) && comp_start && g.chance(25)) { El e; e.t = El::tail; m.p.push_back(e); pat += "**"; while (g.chance(10)) pat += '*'; wild = true; }
    // A single star in front of what could be read as a range etc. is fine; text:
    auto rnd = [&](bool sl) -> char { return sl && g.chance(15) ? (g.chance(30) ? '\\' : '/') : g.chance(10) ? '.' : g.ch("abcdeABC01.-_ ]"); };
    if (g.chance(85))
    {
        for (auto& e : m.p)
        {
            if (g.chance(3)) continue;
            switch (e.t)
            {
            case El::lit: { char c = e.c; if (g.chance(8)) c = c == lower(c) ? upper(c) : lower(c); if (c == '/' && m.has(WM_SLASHFOLD) && g.chance(40)) c = '\\'; if (g.chance(3)) c = rnd(true); m.s += c; break; }
            case El::any: m.s += rnd(true); break;
            case El::star: for (int k = g.size(4); k-- > 0;) m.s += rnd(g.chance(20)); break;
            case El::set: { if (!e.neg && !e.ranges.empty() && g.chance(60)) { auto& r = e.ranges[g.below(e.ranges.size())]; m.s += g.coin() ? r.first : r.second; } else m.s += rnd(true); if (g.chance(10)) { char& c = m.s.back(); c = c == lower(c) ? upper(c) : lower(c); } break; }
            case El::dirs: for (int k = g.size(3); k-- > 0;) { m.s += rnd(false); if (g.coin()) m.s += rnd(false); m.s += m.has(WM_SLASHFOLD) && g.chance(40) ? '\\' : '/'; } break;
            case El::tail: for (int k = g.size(5); k-- > 0;) m.s += rnd(true); break;
            }
        }
        if (g.chance(10)) m.s += rnd(true);
        if (m.has(WM_LEADING_DIR) && g.chance(30)) { m.s += "/"; m.s += rnd(true); }
    }
    else for (int k = g.size(10); k-- > 0;) m.s += rnd(true);
    bool want = m.m(0, 0);
    if (wild && !m.s.empty()) g.nontrivial();
    g.label(want ? "matches" : "does not match");
    if (m.has(WM_WILDSTAR)) g.label("wildstar");
    g.note("pattern %s text %s flags=%s%s%s%s%s%s%s", esc(pat).c_str(), esc(m.s).c_str(), m.has(WM_NOESCAPE) ? " noescape" : "", m.has(WM_PATHNAME) ? " pathname" : "", m.has(WM_PERIOD) ? " period" : "", m.has(WM_LEADING_DIR) ? " leadingdir" : "", m.has(WM_CASEFOLD) ? " casefold" : "", m.has(WM_WILDSTAR) ? " wildstar" : "", m.has(WM_SLASHFOLD) ? " slashfold" : "");
    GuardBuf a(pat.size() + 1), b(m.s.size() + 1);
    memcpy(a.p(), pat.c_str(), pat.size() + 1); memcpy(b.p(), m.s.c_str(), m.s.size() + 1);
    int got = wildmatch(a.p(), b.p(), m.flags);
    g.check(got == WM_MATCH || got == WM_NOMATCH, "result %d", got);
    g.check((got == WM_MATCH) == want, "wildmatch gave %d want %d", got == WM_MATCH, want);
}

PBT_PROP(C06, malformed, 1000000, 20000000, "arbitrary text over the special characters as the pattern: terminates, reads nothing outside pattern and text, and the answer does not depend on what surrounds them; non-trivial: the pattern has a wildcard, bracket or backslash")
{
    std::string pat = g.text("*?[]\\!^-:/ab.", 16), s = g.text("ab/\\.[]*-", 16);
    if (g.chance(30)) { size_t at = g.below(pat.size() + 1); pat.insert(at, g.pick({"[[:alpha:]", "[:", "[a-", "**", "**/", "/**", "[!", "[]", "[[:upper", "\\"})); }
    int stars = 0; { std::string q; for (char c : pat) { if (c == '*' && ++stars > 8) continue; q += c; } pat = q; }
    int flags = int(g.below(0x100)) & ~0x20;
    g.note("pattern %s text %s flags=%x", esc(pat).c_str(), esc(s).c_str(), flags);
    if (pat.find_first_of("*?[\\") != std::string::npos && !s.empty()) g.nontrivial();
    GuardBuf a(pat.size() + 2), b(s.size() + 2);
    memcpy(a.p() + 1, pat.c_str(), pat.size() + 1); memcpy(b.p() + 1, s.c_str(), s.size() + 1);
    a.p()[0] = '/'; b.p()[0] = '/';
    int r1 = wildmatch(a.p() + 1, b.p() + 1, flags);
    a.p()[0] = 'x'; b.p()[0] = 'x';
    int r2 = wildmatch(a.p() + 1, b.p() + 1, flags);
    g.check(r1 == WM_MATCH || r1 == WM_NOMATCH, "result %d", r1);
    g.check(r1 == r2, "the result depends on the byte before the pattern or the text: %d, %d", r1, r2);
    std::string pad = pat + std::string(1, 0) + "]*/b\\]**/", sp = s + std::string(1, 0) + "/ab]";
    int r3 = wildmatch(pad.c_str(), sp.c_str(), flags);
    g.check(r1 == r3, "the result depends on what follows the end: %d, %d", r1, r3);
    // An unterminated bracket matches nothing.
    if (pat.find('[') != std::string::npos && pat.find(']') == std::string::npos && pat.find('\\') == std::string::npos && !(flags & (WM_WILDSTAR | WM_LEADING_DIR)))
        { g.label("unterminated bracket"); g.check(r1 == WM_NOMATCH, "an unterminated bracket expression matched"); }
}

PBT_PROP(C06, tail, 500000, 10000000, "a backslash at the very end of the pattern matches nothing; non-trivial: text not empty")
{
    std::string lit = g.text("abc./", 8), s = g.chance(70) ? lit : g.text("abc./\\", 8);
    if (g.chance(50)) s += g.pick({"\\", "a", "\\\\"});
    std::string pat = lit + "\\";
    int flags = (int(g.below(0x100)) & ~(0x20 | WM_NOESCAPE | WM_LEADING_DIR));
    g.note("pattern %s text %s flags=%x", esc(pat).c_str(), esc(s).c_str(), flags);
    if (!s.empty()) g.nontrivial();
    GuardBuf b(s.size() + 1); memcpy(b.p(), s.c_str(), s.size() + 1);
    g.check(wildmatch(pat.c_str(), b.p(), flags) == WM_NOMATCH, "matched");
}

//---- C08 ----------------------------------------------------------------------------------
struct Ent { std::string name; bool dir; DWORD attr; int size; bool old; };
static void remove_tree(const std::wstring& d)
{
    // Only ever called with a folder inside the private scratch folder.
    WIN32_FIND_DATAW fd; HANDLE h = FindFirstFileW((d + L"\\*").c_str(), &fd);
    if (h != INVALID_HANDLE_VALUE)
    {
        do
        {
            std::wstring n = fd.cFileName; if (n == L"." || n == L"..") continue;
            std::wstring p = d + L"\\" + n;
            SetFileAttributesW(p.c_str(), FILE_ATTRIBUTE_NORMAL);
            if (fd.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY) remove_tree(p); else DeleteFileW(p.c_str());
        } while (FindNextFileW(h, &fd));
        FindClose(h);
    }
    RemoveDirectoryW(d.c_str());
}

PBT_PROP(C08, glob, 10000, 200000, "a generated directory (files and folders, hidden, system, back-dated, dotted, spaced and non-ASCII names, any spelling of case), globbed with a pattern in a generated form (relative, absolute, drive-relative, quoted, either slash) and every filter combination, against the operating system's raw listing filtered by the generated attributes; non-trivial: at least one entry returned and one excluded")
{
    static int serial = 0;
    std::string base = scratch() + "\\g" + std::to_string(GetCurrentProcessId()) + "_" + std::to_string(serial++ % 4);
    remove_tree(ref_utf16(base));
    CreateDirectoryW(ref_utf16(base).c_str(), nullptr);
    std::string sub = g.chance(40) ? std::string(g.pick({"sub", "a b", "d.x", "\xc3\xa9"})) : "";
    std::string dir = sub.empty() ? base : base + "\\" + sub;
    if (!sub.empty()) CreateDirectoryW(ref_utf16(dir).c_str(), nullptr);
    std::map<std::string, Ent> ents; std::set<std::string> used;
    std::string desc;
    for (int n = g.size(8); n-- > 0;)
    {
        Ent e;
        switch (g.below(8))
        {
        default: e.name = g.text("abAB", 3) + (g.coin() ? g.pick({".txt", ".c", ".TXT", ""}) : ""); break;
        case 4: e.name = std::string(".") + g.text("ab", 3); break;
        case 5: e.name = g.text("ab ", 4) + "z"; break;
        case 6: e.name = "\xc3\xa9" + g.text("ab.", 2) + "\xe6\x97\xa5"; break;
        case 7: e.name = g.pick({"averylongfilename.extension", "two.dots.txt", "..x", "a~1", "noext", "x'y", "a;b", "%p%"}); break;
        }
        if (e.name.empty() || e.name == "." || e.name == "..") e.name = "f";
        while (e.name.back() == '.' || e.name.back() == ' ') e.name += 'q';
        std::string key = e.name; for (auto& c : key) c = lower(c);
        if (!used.insert(key).second) continue;
        e.dir = g.chance(35); e.attr = 0; e.size = e.dir ? 0 : g.below(4) * 7; e.old = false;
        std::wstring p = ref_utf16(dir + "\\" + e.name);
        if (e.dir) { if (!CreateDirectoryW(p.c_str(), nullptr)) g.discard(); }
        else
        {
            HANDLE h = CreateFileW(p.c_str(), GENERIC_WRITE, 0, nullptr, CREATE_ALWAYS, 0, nullptr); if (h == INVALID_HANDLE_VALUE) g.discard();
            DWORD w; if (e.size) WriteFile(h, "0123456789012345678901234567", e.size, &w, nullptr);
            if (g.chance(30)) { SYSTEMTIME st; GetSystemTime(&st); FILETIME ft; SystemTimeToFileTime(&st, &ft); ULARGE_INTEGER u; u.LowPart = ft.dwLowDateTime; u.HighPart = ft.dwHighDateTime; u.QuadPart -= 7200ull * 10000000; ft.dwLowDateTime = u.LowPart; ft.dwHighDateTime = u.HighPart; SetFileTime(h, nullptr, nullptr, &ft); e.old = true; }
            CloseHandle(h);
        }
        DWORD a = 0; if (g.chance(20)) a |= FILE_ATTRIBUTE_HIDDEN; if (g.chance(15)) a |= FILE_ATTRIBUTE_SYSTEM; if (g.chance(15) && !e.dir) a |= FILE_ATTRIBUTE_READONLY;
        if (a) SetFileAttributesW(p.c_str(), a);
        e.attr = GetFileAttributesW(p.c_str());
        if (e.attr == INVALID_FILE_ATTRIBUTES) g.discard();
        ents[e.name] = e;
        desc += " " + esc(e.name) + (e.dir ? "/" : "") + (e.attr & 2 ? "[h]" : "") + (e.attr & 4 ? "[s]" : "") + (e.old ? "[old]" : "");
    }
    // Pattern.
    std::string namepat;
    switch (g.below(9))
    {
    default: namepat = "*"; break;
    case 3: namepat = g.pick({"a*", "A*", "b*", "*a", "a", "zz*"}); break;
    case 4: namepat = g.pick({"*.txt", "*.*", "*.c", "?", "a?*"}); break;
    case 5: namepat = g.pick({".*", ".*", "..*", ".a*", "..x*"}); break;
    case 6: if (!ents.empty()) { auto it = ents.begin(); std::advance(it, g.below(ents.size())); namepat = it->first; if (g.coin()) namepat += '*'; else if (g.coin()) namepat[0] = upper(namepat[0]); } else namepat = "*"; break;
    case 7: namepat = "\xc3\xa9*"; break;
    }
    char sl = g.coin() ? '\\' : '/';
    std::string root; // what results are rooted at, with backslashes
    std::string pattern;
    SetCurrentDirectoryW(ref_utf16(base).c_str());
    int form = g.below(4);
    if (form == 0) { root = sub; pattern = sub.empty() ? namepat : sub + sl + namepat; }
    else if (form == 1) { root = dir; pattern = dir + sl + namepat; if (sl == '/') for (auto& c : pattern) if (c == '\\') c = '/'; }
    else if (form == 2) { root = dir; char v[] = { '=', base[0], ':', 0 }; SetEnvironmentVariableW(ref_utf16(v).c_str(), ref_utf16(base).c_str()); pattern = base.substr(0, 2) + (sub.empty() ? namepat : sub + sl + namepat); root = dir; }
    else { root = sub.empty() ? "." : ".\\" + sub; pattern = std::string(".") + sl + (sub.empty() ? namepat : sub + sl + namepat); }
    bool quoted = g.chance(25);
    std::string given = quoted ? (g.coin() ? "\"" + pattern + "\"" : "\"" + pattern) : pattern;
    bool files = !g.chance(25), dirs = !g.chance(25), suffix = !g.chance(40), hidden = g.coin(), system = g.coin(), dots = g.chance(25), rooted = g.coin(), older = g.chance(20);
    bool defaults = g.chance(10);
    if (defaults) { files = dirs = suffix = true; hidden = system = dots = older = false; }
    g.note("entries:%s\npattern %s files=%d dirs=%d suffix=%d hidden=%d system=%d dots=%d rooted=%d older=%d", desc.c_str(), esc(given).c_str(), files, dirs, suffix, hidden, system, dots, rooted, older);
    // Raw listing.
    std::multiset<std::string> want; int excluded = 0;
    bool want_dots = dots || namepat == "." || namepat == ".." || namepat == ".*" || namepat == "..*";
    std::map<std::string, const Ent*> by_out;
    {
        WIN32_FIND_DATAW fd; HANDLE h = FindFirstFileW(ref_utf16(dir + "\\" + namepat).c_str(), &fd);
        size_t seen = 0;
        if (h != INVALID_HANDLE_VALUE)
        {
            do
            {
                std::string n = ref_utf8(fd.cFileName);
                bool isdot = n == "." || n == "..";
                const Ent* e = nullptr;
                if (!isdot) { auto it = ents.find(n); g.check(it != ents.end(), "harness: unknown entry %s", n.c_str()); e = &it->second; ++seen; }
                bool d = isdot || e->dir;
                bool ok = d ? dirs : files;
                if (isdot) ok &= want_dots; else { if (e->attr & FILE_ATTRIBUTE_HIDDEN) ok &= hidden; if (e->attr & FILE_ATTRIBUTE_SYSTEM) ok &= system; }
                if (older) ok &= !isdot && e->old;
                if (!ok) { ++excluded; continue; }
                std::string o = (rooted && !root.empty() ? root + "\\" : "") + n + (d && suffix ? "\\" : "");
                want.insert(o); by_out[o] = e;
            } while (FindNextFileW(h, &fd));
            FindClose(h);
        }
        if (namepat == "*") g.check(seen == ents.size(), "harness: listing has %u of %u entries", unsigned(seen), unsigned(ents.size()));
    }
    if (!want.empty() && excluded) g.nontrivial();
    g.label(form == 0 ? "relative" : form == 1 ? "absolute" : form == 2 ? "drive-relative" : "dot-relative");
    globber gl(given.c_str());
    if (!defaults) { gl.files(files); gl.directories(dirs); gl.suffix_dirs(suffix); gl.hidden(hidden); gl.system(system); if (dots) gl.dots(true); }
    if (older) g.check(gl.older_than(3600), "older_than");
    std::multiset<std::string> got;
    str<> out("junk"); globber::extrainfo xi;
    while (gl.next(out, rooted, &xi))
    {
        got.insert(out.c_str());
        auto it = by_out.find(out.c_str());
        if (it != by_out.end() && it->second)
        {
            const Ent* e = it->second;
            g.check(!!(xi.attr & FILE_ATTRIBUTE_DIRECTORY) == e->dir && !!(xi.st_mode & _S_IFDIR) == e->dir, "%s: wrong kind", out.c_str());
            if (!e->dir) g.check(xi.size == uint64(e->size), "%s: size %d want %d", out.c_str(), int(xi.size), e->size);
            g.check((uint32(xi.attr) & 7) == (e->attr & 7), "%s: attributes %x want %x", out.c_str(), xi.attr, e->attr);
        }
        g.check(got.size() < 100, "does not end");
    }
    g.check(!gl.next(out, rooted), "next() after the end");
    gl.close();
    if (got != want)
    {
        std::string a, b; for (auto& s : got) a += " " + esc(s); for (auto& s : want) b += " " + esc(s);
        g.fail("got%s\nwant%s", a.c_str(), b.c_str());
    }
    SetCurrentDirectoryW(ref_utf16(scratch()).c_str());
    remove_tree(ref_utf16(base));
}
