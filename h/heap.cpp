#include <map>
#include <vector>
// Guarded heap: linked with --wrap=malloc etc.  While enabled, allocations end at an inaccessible
// page and freed memory becomes inaccessible (until its slot is reused, oldest first).
#include "heap.h"
#include <errno.h>

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
}

namespace pbt {
static const size_t c_slot = 0x4000;        // 12K usable + 4K guard
static const size_t c_usable = 0x3000;
static const uint32_t c_slots = 24000;
static char* s_base;
static uint32_t* s_sizes;                   // size+1 of live slots, 0 when free
static uint32_t* s_queue; static uint32_t s_head, s_tail, s_count, s_fresh;
static SRWLOCK s_lock = SRWLOCK_INIT;
static volatile bool s_on;
static int s_minfree = 64;
static const char c_can = char(0xa7);

void heap_guard(bool on)
{
    if (on && !s_base)
    {
        s_base = (char*)VirtualAlloc(nullptr, c_slot * c_slots, MEM_RESERVE, PAGE_NOACCESS);
        s_sizes = (uint32_t*)__real_calloc(c_slots, 4);
        s_queue = (uint32_t*)__real_calloc(c_slots, 4);
    }
    s_on = on && s_base;
}

static void corrupt(const char* what) { RaiseException(0xE0C0FFEE, 0, 0, nullptr); }

static void* galloc(size_t n)
{
    if (!s_on || n > c_usable) return nullptr;
    AcquireSRWLockExclusive(&s_lock);
    uint32_t slot = ~0u;
    if (s_count > s_minfree || (s_fresh >= c_slots && s_count)) { slot = s_queue[s_head]; s_head = (s_head + 1) % c_slots; --s_count; }
    else if (s_fresh < c_slots) slot = s_fresh++;
    if (slot == ~0u) { ReleaseSRWLockExclusive(&s_lock); return nullptr; }
    s_sizes[slot] = uint32_t(n) + 1;
    ReleaseSRWLockExclusive(&s_lock);
    size_t r = (n + 15) & ~size_t(15);
    if (!r) r = 16;
    char* end = s_base + size_t(slot) * c_slot + c_usable;
    size_t pages = (r + 16 + 0xfff) & ~size_t(0xfff);
    if (pages > c_usable) pages = c_usable;
    VirtualAlloc(end - pages, pages, MEM_COMMIT, PAGE_READWRITE);
    char* p = end - r;
    memset(p, 0xcd, n);
    memset(p + n, c_can, r - n);
    if (r + 16 <= pages) memset(p - 16, c_can, 16);
    return p;
}
static bool ours(void* p) { return s_base && (char*)p >= s_base && (char*)p < s_base + c_slot * c_slots; }
static size_t gsize(void* p) { size_t slot = ((char*)p - s_base) / c_slot; if (!s_sizes[slot]) corrupt("double free"); return s_sizes[slot] - 1; }
static void gfree(void* p)
{
    uint32_t slot = uint32_t(((char*)p - s_base) / c_slot);
    size_t n = gsize(p);
    size_t r = (n + 15) & ~size_t(15); if (!r) r = 16;
    char* end = s_base + size_t(slot) * c_slot + c_usable;
    if ((char*)p != end - r) corrupt("bad free");
    for (size_t i = n; i < r; ++i) if (((char*)p)[i] != c_can) corrupt("overrun");
    size_t pages = (r + 16 + 0xfff) & ~size_t(0xfff); if (pages > c_usable) pages = c_usable;
    if (r + 16 <= pages) for (int i = 1; i <= 16; ++i) if (((char*)p)[-i] != c_can) corrupt("underrun");
    DWORD old;
    VirtualProtect(end - pages, pages, PAGE_NOACCESS, &old);
    AcquireSRWLockExclusive(&s_lock);
    s_sizes[slot] = 0;
    s_queue[s_tail] = slot; s_tail = (s_tail + 1) % c_slots; ++s_count;
    ReleaseSRWLockExclusive(&s_lock);
}
}
using namespace pbt;

extern "C" {
void* __wrap_malloc(size_t n) { if (void* p = galloc(n)) return p; return __real_malloc(n); }
void __wrap_free(void* p) { if (!p) return; if (ours(p)) gfree(p); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (void* p = galloc(a * b)) { memset(p, 0, a * b); return p; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!ours(p)) return __real_realloc(p, n);
    if (!n) { gfree(p); return nullptr; }
    size_t o = gsize(p);
    void* q = __wrap_malloc(n);
    memcpy(q, p, o < n ? o : n);
    gfree(p);
    return q;
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); memcpy(p, s, n); return p; }
wchar_t* __wrap_wcsdup(const wchar_t* s) { size_t n = (wcslen(s) + 1) * 2; wchar_t* p = (wchar_t*)__wrap_malloc(n); memcpy(p, s, n); return p; }
}

namespace pbt {
static std::map<size_t, std::vector<char*>> s_pool;     // released regions by size, filled with 0x5a
GuardBuf::GuardBuf(size_t n)
{
    m_n = n;
    size_t pages = (n + 64 + 0xfff) & ~size_t(0xfff);
    auto& pool = s_pool[pages];
    if (!pool.empty()) { m_base = pool.back(); pool.pop_back(); }
    else
    {
        m_base = (char*)VirtualAlloc(nullptr, pages + 0x1000, MEM_RESERVE, PAGE_NOACCESS);
        VirtualAlloc(m_base, pages, MEM_COMMIT, PAGE_READWRITE);
        memset(m_base, 0x5a, pages);
    }
    m_p = m_base + pages - n;
}
GuardBuf::~GuardBuf()
{
    size_t pages = size_t(m_p - m_base) + m_n;
    memset(m_base, 0x5a, pages);
    s_pool[pages].push_back(m_base);
}
bool GuardBuf::intact() const { for (char* q = m_base; q < m_p; ++q) if (*q != 0x5a) return false; return true; }
}
