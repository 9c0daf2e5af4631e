#include <unordered_set>
#include <stdarg.h>
#include <io.h>

namespace pbt {

static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Reg::Reg(const char* id, const char* sub, prop_fn fn, int q, int t, const char* rule) { props().push_back({id, sub, fn, q, t, rule}); }
void (*g_init)() = nullptr;
void (*g_exit)() = nullptr;
static std::string s_scratch;
const std::string& scratch() { return s_scratch; }

//---- random numbers (xoshiro256**) ------------------------------------------------------
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next(uint64_t* s) { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { for (size_t i = 0; i < n; ++i) { h ^= ((const uint8_t*)p)[i]; h *= 1099511628211ull; } return h; }

uint64_t Gen::below(uint64_t n)
{
    if (n == 0) n = 1;
    uint64_t v;
    if (m_replay)
    {
        v = m_pos < m_fixed.size() ? m_fixed[m_pos] : 0;
        ++m_pos;
        if (v >= n) v = n - 1;
    }
    else
        v = n == 1 ? 0 : next(m_rng) % n;
    m_rec.push_back(v);
    m_bound.push_back(n);
    return v;
}

int Gen::size(int max)
{
    if (max <= 0) return 0;
    // Mostly small, sometimes anywhere up to max.
    switch (below(8))
    {
    case 0: case 1: case 2: return int(below(uint64_t(std::min(max, 3)) + 1));
    case 3: case 4: case 5: return int(below(uint64_t(std::min(max, 10)) + 1));
    case 6: return int(below(uint64_t(std::min(max, 40)) + 1));
    default: return int(below(uint64_t(max) + 1));
    }
}

size_t Gen::weighted(std::initializer_list<int> w)
{
    int total = 0;
    for (int x : w) total += x;
    int v = int(below(total));
    size_t i = 0;
    for (int x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}

void Gen::label(const std::string& s) { m_labels.push_back(s); }
static std::string vfmt(const char* fmt, va_list ap)
{
    std::string out(1024, 0);
    va_list ap2; va_copy(ap2, ap);
    int n = __mingw_vsnprintf(&out[0], out.size(), fmt, ap);
    if (n >= int(out.size())) { out.resize(n + 1); __mingw_vsnprintf(&out[0], out.size(), fmt, ap2); }
    va_end(ap2);
    out.resize(n < 0 ? 0 : n);
    return out;
}
void Gen::note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); m_notes += vfmt(fmt, ap); va_end(ap); m_notes += "\n"; if (m_notes.size() > 1000000) m_notes.resize(1000000); }
void Gen::fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); Fail f{vfmt(fmt, ap)}; va_end(ap); throw f; }
void Gen::check(bool ok, const char* fmt, ...) { if (ok) return; va_list ap; va_start(ap, fmt); Fail f{vfmt(fmt, ap)}; va_end(ap); throw f; }
uint64_t Gen::hash() const { uint64_t h = fnv(m_rec.data(), m_rec.size() * 8); return fnv(m_notes.data(), m_notes.size(), h); }

//---- text helpers -----------------------------------------------------------------------
std::string esc(const char* s, size_t n)
{
    std::string o;
    char b[16];
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char c = s[i];
        if (c == '\\') o += "\\\\";
        else if (c >= 32 && c < 127) o += c;
        else { sprintf(b, "\\x%02x", c); o += b; }
    }
    return o;
}
std::string esc(const std::string& s) { return esc(s.data(), s.size()); }
std::string esc(const std::wstring& s)
{
    std::string o; char b[16];
    for (wchar_t c : s) if (c >= 32 && c < 127) o += char(c); else { sprintf(b, "\\u%04x", c); o += b; }
    return o;
}
std::string utf8_of(uint32_t c)
{
    std::string o;
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    return o;
}
std::string ref_utf8(const std::wstring& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = s[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000)
            c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00);
        else if (c >= 0xd800 && c < 0xe000)
            c = 0xfffd;
        o += utf8_of(c);
    }
    return o;
}
std::vector<uint32_t> cps_of(const std::string& s)
{
    std::vector<uint32_t> v;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        uint32_t x = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        for (int k = 1; k < n && i + k < s.size(); ++k) x = x << 6 | (s[i + k] & 63);
        v.push_back(x);
        i += n;
    }
    return v;
}
std::wstring ref_utf16(const std::string& s)
{
    std::wstring o;
    for (uint32_t c : cps_of(s))
        if (c >= 0x10000) { o += wchar_t(0xd800 + ((c - 0x10000) >> 10)); o += wchar_t(0xdc00 + ((c - 0x10000) & 0x3ff)); }
        else o += wchar_t(c);
    return o;
}

//---- running ----------------------------------------------------------------------------
static const Prop* s_cur;
static Gen* s_gen;
static std::string s_outbase;
static volatile LONG64 s_progress;
static int s_case_limit_s = 60;
static uint64_t s_shard_case;

static std::string json(const std::string& s)
{
    std::string o = "\""; char b[16];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { sprintf(b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static std::string case_json(const Gen& g, const char* kind, const std::string& msg)
{
    std::string o = "{\"sub\":" + json(s_cur ? s_cur->sub : "") + ",\"kind\":" + json(kind) + ",\"message\":" + json(msg) +
        ",\"case\":" + std::to_string(s_shard_case) + ",\"notes\":" + json(g.m_notes.substr(0, 20000)) + ",\"choices\":[";
    for (size_t i = 0; i < g.m_rec.size(); ++i) { if (i) o += ","; o += std::to_string(g.m_rec[i]); }
    return o + "]}";
}
static void write_file(const std::string& name, const std::string& text)
{
    FILE* f = fopen(name.c_str(), "wb");
    if (!f) return;
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}

static volatile LONG s_dying;
static void die(const char* kind, const std::string& msg, int code)
{
    if (InterlockedExchange(&s_dying, 1)) { Sleep(5000); TerminateProcess(GetCurrentProcess(), code); }
    if (s_gen) write_file(s_outbase + ".fail", case_json(*s_gen, kind, msg));
    else write_file(s_outbase + ".fail", "{\"sub\":\"\",\"kind\":\"startup\",\"message\":" + json(std::string(kind) + " " + msg) + ",\"case\":0,\"notes\":\"\",\"choices\":[]}");
    TerminateProcess(GetCurrentProcess(), code);
}

static LONG WINAPI on_exception(EXCEPTION_POINTERS* p)
{
    static char buf[200];
    auto* r = p->ExceptionRecord;
    sprintf(buf, "exception %08lx at exe+%llx accessing %llx", r->ExceptionCode,
        (unsigned long long)((char*)r->ExceptionAddress - (char*)GetModuleHandle(nullptr)),
        (unsigned long long)(r->NumberParameters > 1 ? r->ExceptionInformation[1] : 0));
    die("crash", buf, 77);
    return EXCEPTION_EXECUTE_HANDLER;
}

static DWORD WINAPI watchdog(void*)
{
    LONG64 last = -1; int same = 0;
    for (;;)
    {
        Sleep(1000);
        LONG64 p = s_progress;
        if (p != last) { last = p; same = 0; }
        else if (++same >= s_case_limit_s) die("hang", "the case did not finish within " + std::to_string(s_case_limit_s) + " s", 78);
    }
}

} // namespace pbt

static void on_assert(const char* expr, const char* file, unsigned line)
{
    pbt::die("assert", std::string("assertion failed: ") + (expr ? expr : "?") + " at " + (file ? file : "?") + ":" + std::to_string(line), 79);
}
static void on_wassert(const wchar_t* e, const wchar_t* f, unsigned line)
{
    on_assert(pbt::ref_utf8(e ? e : L"?").c_str(), pbt::ref_utf8(f ? f : L"?").c_str(), line);
}
extern "C" {
    void _assert(const char* e, const char* f, unsigned l) { on_assert(e, f, l); }
    void _wassert(const wchar_t* e, const wchar_t* f, unsigned l) { on_wassert(e, f, l); }
    void* __imp__assert = (void*)&on_assert;
    void* __imp__wassert = (void*)&on_wassert;
}

namespace pbt {

struct Stats
{
    uint64_t evals = 0, nontrivial = 0, discards = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};
static std::string s_failmsg;
static std::map<std::string, uint64_t> s_known;
void known(const char* key) { ++s_known[key]; }

enum { ok_, fail_, discard_ };
static int run_one(const Prop& p, Gen& g, std::string& msg)
{
    s_cur = &p; s_gen = &g;
    InterlockedIncrement64(&s_progress);
    int r = ok_;
    try { p.fn(g); }
    catch (const Fail& f) { msg = f.msg; r = fail_; }
    catch (const Discard&) { r = discard_; }
    catch (const std::exception& e) { msg = std::string("harness exception ") + e.what(); r = fail_; }
    s_gen = nullptr;
    InterlockedIncrement64(&s_progress);
    return r;
}

// Greedy choice-sequence reduction.
static void shrink(const Prop& p, std::vector<uint64_t>& best, std::string& msg, std::string& notes, int budget_ms)
{
    uint64_t t0 = GetTickCount64();
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (cand.size() > best.size() || (cand.size() == best.size() && !(cand < best))) return false;
        Gen g; g.m_replay = true; g.m_fixed = cand;
        std::string m;
        if (run_one(p, g, m) != fail_) return false;
        std::vector<uint64_t> rec = g.m_rec;
        while (rec.size() > 0 && rec.back() == 0) rec.pop_back();
        if (rec.size() > best.size() || (rec.size() == best.size() && !(rec < best))) return false;
        best = rec; msg = m; notes = g.m_notes;
        return true;
    };
    auto out = [&] { return int(GetTickCount64() - t0) > budget_ms; };
    bool any = true;
    while (any && !out())
    {
        any = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && !out(); k /= 2)
        {
            for (size_t i = 0; i + k <= best.size() && !out();)
            {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) any = true; else i += std::max<size_t>(1, k / 2);
            }
            if (k == 1) break;
        }
        for (size_t k : {8, 4, 2})      // zero blocks
            for (size_t i = 0; i + k <= best.size() && !out(); i += k)
            {
                auto c = best; bool z = false;
                for (size_t j = 0; j < k; ++j) { z |= c[i + j] != 0; c[i + j] = 0; }
                if (z && attempt(c)) any = true;
            }
        // Lower a value by one and delete a following block (shrinks lengths with their elements).
        for (size_t i = 0; i < best.size() && !out(); ++i)
            for (size_t k = 1; k <= 6 && i < best.size() && best[i] > 0 && !out(); ++k)
                for (size_t gap = 1; gap <= 2; ++gap)
                    if (i + gap + k <= best.size())
                    {
                        auto c = best; c[i] -= 1; c.erase(c.begin() + i + gap, c.begin() + i + gap + k);
                        if (attempt(c)) { any = true; break; }
                    }
        for (size_t i = 0; i < best.size() && !out(); ++i)
        {
            if (!best[i]) continue;
            auto c = best; c[i] = 0;
            if (attempt(c)) { any = true; continue; }
            uint64_t lo = 0, hi = best[i];
            while (lo + 1 < hi && !out())
            {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { any = true; hi = i < best.size() ? best[i] : 0; } else lo = mid;
            }
            if (i < best.size() && best[i] > 0) { c = best; --c[i]; if (attempt(c)) any = true; }
        }
    }
}

static std::vector<uint64_t> read_choices(const char* name)
{
    std::vector<uint64_t> v; FILE* f = fopen(name, "rb");
    unsigned long long x;
    if (f) { while (fscanf(f, "%llu", &x) == 1) v.push_back(x); fclose(f); }
    return v;
}

} // namespace pbt
using namespace pbt;

int main(int argc, char** argv)
{
    std::string id, sub, replay, out = "out", only;
    uint64_t seed = 1; int shard = 0, shards = 1, tier = 0, cap_s = 600; uint64_t to = ~0ull; double scale = 1; int verbose = 0;
    int shrink_ms = 20000;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--id") id = val();
        else if (a == "--sub") sub = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shard") shard = atoi(val().c_str());
        else if (a == "--shards") shards = atoi(val().c_str());
        else if (a == "--tier") tier = val() == "thorough";
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--scratch") s_scratch = val();
        else if (a == "--cap") cap_s = atoi(val().c_str());
        else if (a == "--limit") s_case_limit_s = atoi(val().c_str());
        else if (a == "--to") to = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--shrink-ms") shrink_ms = atoi(val().c_str());
        else if (a == "-v") verbose = 1;
    }
    s_outbase = out;
    SetErrorMode(SEM_FAILCRITICALERRORS | SEM_NOGPFAULTERRORBOX | SEM_NOOPENFILEERRORBOX);
    SetUnhandledExceptionFilter(on_exception);
    CreateThread(nullptr, 0, watchdog, nullptr, 0, nullptr);
    if (g_init) g_init();
    SetUnhandledExceptionFilter(on_exception);

    if (!replay.empty())
    {
        for (auto& p : props())
            if (id == p.id && sub == p.sub)
            {
                Gen g; g.m_replay = true; g.m_fixed = read_choices(replay.c_str());
                std::string msg;
                int r = run_one(p, g, msg);
                s_cur = &p;
                write_file(out + ".fail", case_json(g, r == fail_ ? "fail" : "ok", msg));
                if (verbose) printf("%s%s\n%s\n", g.m_notes.c_str(), r == fail_ ? "FAILED" : r == ok_ ? "ok" : "discarded", msg.c_str());
                fflush(stdout);
                TerminateProcess(GetCurrentProcess(), r == fail_ ? 76 : 0);
            }
        TerminateProcess(GetCurrentProcess(), 3);
    }

    uint64_t t0 = GetTickCount64();
    bool capped = false;
    std::string result = "{\"subs\":[";
    bool first = true, failed = false;
    for (auto& p : props())
    {
        if (id != p.id || (!sub.empty() && sub != p.sub)) continue;
        uint64_t total = uint64_t((tier ? p.thorough : p.quick) * scale);
        uint64_t n = (total + shards - 1 - shard) / shards;
        Stats st;
        uint64_t ts = GetTickCount64();
        for (uint64_t i = 0; i < n && i < to && !failed; ++i)
        {
            if (int(GetTickCount64() - t0) > cap_s * 1000) { capped = true; break; }
            s_shard_case = i;
            Gen g;
            uint64_t x = fnv(p.sub, strlen(p.sub), fnv(&seed, 8)) ^ (i * uint64_t(shards) + shard) * 0x9e3779b97f4a7c15ull;
            for (auto& r : g.m_rng) r = splitmix(x);
            std::string msg;
            int r = run_one(p, g, msg);
            if (r == discard_) { ++st.discards; continue; }
            ++st.evals;
            for (auto& l : g.m_labels) ++st.labels[l];
            if (g.m_nontrivial && st.distinct.insert(g.hash()).second)
            {
                ++st.nontrivial;
                if (st.samples.size() < 2 && (i % 37 == 5 || i + 40 > n)) st.samples.push_back(g.m_notes.substr(0, 1500));
            }
            if (verbose > 0 && i < 20) printf("--- %llu\n%s", (unsigned long long)i, g.m_notes.c_str());
            if (r == fail_)
            {
                failed = true;
                std::vector<uint64_t> best = g.m_rec; std::string notes = g.m_notes;
                s_cur = &p; s_shard_case = i;
                write_file(out + ".orig", case_json(g, "fail", msg));
                // Keep the unshrunk case as the failure in case shrinking crashes.
                write_file(out + ".fail", case_json(g, "fail", msg));
                shrink(p, best, msg, notes, shrink_ms);
                Gen b; b.m_rec = best; b.m_notes = notes;
                s_shard_case = i; s_cur = &p;
                write_file(out + ".fail", case_json(b, "fail", msg));
            }
        }
        if (!first) result += ","; first = false;
        result += "{\"sub\":" + json(p.sub) + ",\"rule\":" + json(p.rule) + ",\"evals\":" + std::to_string(st.evals) + ",\"nontrivial\":" + std::to_string(st.nontrivial) +
            ",\"planned\":" + std::to_string(n) + ",\"discards\":" + std::to_string(st.discards) + ",\"ms\":" + std::to_string(GetTickCount64() - ts) + ",\"labels\":{";
        bool f2 = true;
        for (auto& l : st.labels) { if (!f2) result += ","; f2 = false; result += json(l.first) + ":" + std::to_string(l.second); }
        result += "},\"samples\":[";
        for (size_t i = 0; i < st.samples.size(); ++i) { if (i) result += ","; result += json(st.samples[i]); }
        result += "]}";
    }
    result += "],\"known\":{";
    bool f3 = true;
    for (auto& k : s_known) { if (!f3) result += ","; f3 = false; result += json(k.first) + ":" + std::to_string(k.second); }
    result += "},\"capped\":"; result += capped ? "true" : "false"; result += "}";
    write_file(out + ".json", result);
    if (g_exit) g_exit();
    fflush(stdout);
    TerminateProcess(GetCurrentProcess(), failed ? 76 : 0);
}
