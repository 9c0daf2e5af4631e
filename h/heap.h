#pragma once
namespace pbt {
void heap_guard(bool on);
// A buffer that ends at an inaccessible page; intact(): nothing before it was written.
class GuardBuf
{
public:
    explicit GuardBuf(size_t n);
    ~GuardBuf();
    bool intact() const;
    char* p() { return m_p; }
    wchar_t* w() { return (wchar_t*)m_p; }
private:
    GuardBuf(const GuardBuf&) = delete;
    char* m_base; char* m_p; size_t m_n;
};
struct HeapGuard { HeapGuard() { heap_guard(true); } ~HeapGuard() { heap_guard(false); } };
}
