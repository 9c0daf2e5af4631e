// A small property-based testing engine.
//
// A case is a pure function of a sequence of bounded integer choices.  Fresh cases draw the
// choices from a seeded generator; replay and shrinking feed a recorded (and reduced) sequence
// back.  0 is always the simplest choice, so reducing the sequence reduces the case.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

class Gen {
public:
    // Choices.
    uint64_t below(uint64_t n);                     // [0,n)
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo) + 1)); }
    bool coin() { return below(2) != 0; }
    bool chance(int pct) { return int(below(100)) >= 100 - pct; }   // 0 => false
    int size(int max);                              // skewed to small values, [0,max]
    size_t weighted(std::initializer_list<int> w);  // index, 0 simplest
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    const char* pick(std::initializer_list<const char*> v) { return *(v.begin() + below(v.size())); }
    char ch(const char* alphabet) { size_t n = strlen(alphabet); return alphabet[below(n)]; }
    std::string text(const char* alphabet, int max) { std::string s; int n = size(max); while (n-- > 0) s += ch(alphabet); return s; }

    // Reporting.
    void label(const std::string& s);               // classification counters
    void nontrivial() { m_nontrivial = true; }
    void note(const char* fmt, ...);                // appended to the rendering of the case
    [[noreturn]] void fail(const char* fmt, ...);
    [[noreturn]] void discard() { throw Discard(); }
    void check(bool ok, const char* fmt, ...);

    uint64_t hash() const;
    bool tail_exhausted() const { return m_pos > m_fixed.size(); }

    // Engine internals.
    std::vector<uint64_t> m_fixed;
    bool m_replay = false;
    uint64_t m_rng[4];
    std::vector<uint64_t> m_rec;
    std::vector<uint64_t> m_bound;
    size_t m_pos = 0;
    bool m_nontrivial = false;
    std::string m_notes;
    std::vector<std::string> m_labels;
    int m_size_scale = 100;
};

typedef void (*prop_fn)(Gen&);
struct Prop { const char* id; const char* sub; prop_fn fn; int quick; int thorough; const char* rule; };
struct Reg { Reg(const char* id, const char* sub, prop_fn fn, int quick, int thorough, const char* rule); };

// quick/thorough: number of cases over all shards.
#define PBT_PROP(id, sub, quick, thorough, rule) \
    static void prop_##id##_##sub(pbt::Gen& g); \
    static pbt::Reg reg_##id##_##sub(#id, #sub, prop_##id##_##sub, quick, thorough, rule); \
    static void prop_##id##_##sub(pbt::Gen& g)

// Called once per process before any case (set by a harness).
extern void (*g_init)();
extern void (*g_exit)();

const std::string& scratch();                       // windows path of a private scratch folder
std::string esc(const char* s, size_t n);
std::string esc(const std::string& s);
std::string esc(const std::wstring& s);

// Reference UTF conversion (independent of the code under test).
std::string ref_utf8(const std::wstring& s);
std::wstring ref_utf16(const std::string& s);
std::string utf8_of(uint32_t cp);
std::vector<uint32_t> cps_of(const std::string& s);

// Heap guards: allocations made while enabled end at an inaccessible page.
void known(const char* key);                        // marks the case as hitting a known finding

} // namespace pbt
