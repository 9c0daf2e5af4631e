// The shipped program runs under the UCRT with a UTF-8 locale (auto_set_locale_utf8 in os.cpp), where
// these convert UTF-8.  The CRT of this platform has no UTF-8 locale, so harnesses that need multibyte
// editing link these: the UCRT's behaviour, without conversion state (readline resets it anyway).
#define _CRTIMP
#include <stddef.h>
#include <wchar.h>
#include <uchar.h>
#include <errno.h>
#define WIN32_LEAN_AND_MEAN
#include <windows.h>
extern "C" {
size_t mbrtowc(wchar_t* out, const char* s, size_t n, mbstate_t*)
{
    if (!s) return 0;
    if (!n) return (size_t)-2;
    unsigned char c = (unsigned char)*s; unsigned cp; int len;
    if (c < 0x80) { if (out) *out = c; return c != 0; }
    if (c >= 0xc2 && c < 0xe0) { len = 2; cp = c & 0x1f; }
    else if (c >= 0xe0 && c < 0xf0) { len = 3; cp = c & 0x0f; }
    else if (c >= 0xf0 && c < 0xf5) { len = 4; cp = c & 0x07; }
    else { errno = EILSEQ; return (size_t)-1; }
    for (int i = 1; i < len; ++i)
    {
        if (size_t(i) >= n) return (size_t)-2;
        unsigned char d = (unsigned char)s[i];
        if ((d & 0xc0) != 0x80) { errno = EILSEQ; return (size_t)-1; }
        cp = cp << 6 | (d & 0x3f);
    }
    if ((len == 3 && cp < 0x800) || (len == 4 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp < 0xe000)) { errno = EILSEQ; return (size_t)-1; }
    if (out) *out = cp > 0xffff ? 0xfffd : wchar_t(cp);
    return len;
}
size_t mbrtoc32(char32_t* out, const char* s, size_t n, mbstate_t* ps)
{
    size_t r = mbrtowc(nullptr, s, n, ps);
    if (out && s && r <= n)
    {
        unsigned char c = (unsigned char)*s; char32_t cp = r <= 1 ? c : c & (0x7f >> r);
        for (size_t i = 1; i < r; ++i) cp = cp << 6 | ((unsigned char)s[i] & 0x3f);
        *out = cp;
    }
    return r;
}
size_t mbrlen(const char* s, size_t n, mbstate_t* ps) { return mbrtowc(nullptr, s, n, ps); }
size_t wcrtomb(char* s, wchar_t c, mbstate_t*)
{
    if (!s) return 1;
    if (c < 0x80) { *s = char(c); return 1; }
    if (c < 0x800) { s[0] = char(0xc0 | c >> 6); s[1] = char(0x80 | (c & 0x3f)); return 2; }
    if (c >= 0xd800 && c < 0xe000) { errno = EILSEQ; return (size_t)-1; }
    s[0] = char(0xe0 | c >> 12); s[1] = char(0x80 | (c >> 6 & 0x3f)); s[2] = char(0x80 | (c & 0x3f)); return 3;
}
size_t c32rtomb(char* s, char32_t c, mbstate_t* ps)
{
    if (!s || c < 0x10000) return wcrtomb(s, wchar_t(c), ps);
    if (c > 0x10ffff) { errno = EILSEQ; return (size_t)-1; }
    s[0] = char(0xf0 | c >> 18); s[1] = char(0x80 | (c >> 12 & 0x3f)); s[2] = char(0x80 | (c >> 6 & 0x3f)); s[3] = char(0x80 | (c & 0x3f)); return 4;
}
}
// Classification and case of characters beyond ASCII, which the UCRT does by the locale's tables.
static WORD ctype1(wint_t c) { WCHAR w = c; WORD t = 0; GetStringTypeW(CT_CTYPE1, &w, 1, &t); return t; }
extern "C" int iswalnum(wint_t c) { return ctype1(c) & (C1_ALPHA | C1_DIGIT); }
extern "C" int iswalpha(wint_t c) { return ctype1(c) & C1_ALPHA; }
extern "C" int iswlower(wint_t c) { return ctype1(c) & C1_LOWER; }
extern "C" int iswupper(wint_t c) { return ctype1(c) & C1_UPPER; }
extern "C" wint_t towupper(wint_t c) { return wint_t(UINT_PTR(CharUpperW(LPWSTR(UINT_PTR(WCHAR(c)))))); }
extern "C" wint_t towlower(wint_t c) { return wint_t(UINT_PTR(CharLowerW(LPWSTR(UINT_PTR(WCHAR(c)))))); }
extern "C" {
void* __imp_iswalnum = (void*)&iswalnum; void* __imp_iswalpha = (void*)&iswalpha;
void* __imp_iswlower = (void*)&iswlower; void* __imp_iswupper = (void*)&iswupper;
void* __imp_towupper = (void*)&towupper; void* __imp_towlower = (void*)&towlower;
}
