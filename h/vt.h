// A small virtual terminal: an endless buffer of rows whose last `rows` rows are the screen.
// Cells hold one character (a whole cluster as clink measures them) and a normalised attribute.
// Writing the last column leaves the wrap pending, as every VT-like terminal does.
#pragma once
#include <terminal/wcwidth.h>
#include <string>
#include <vector>
struct vt_cell { std::string ch; std::string at; bool tail = false; };
struct vt
{
    struct row { std::vector<vt_cell> c; bool wrapped = false; };
    int cols, rows, top = 0, x = 0, y = 0;      // y is a row of the buffer
    bool pend = false;
    std::vector<row> b;
    std::string at, in, bad;
    int sx = 0, sy = 0, home = 0;       // home: the row where the cursor was last put at the top left corner
    vt(int c, int r) : cols(c), rows(r) { grow(); }
    void grow() { while (int(b.size()) < std::max(y + 1, top + rows)) { b.push_back(row()); b.back().c.resize(cols); } }
    static bool shows_on_blank(const std::string& a) { for (size_t i = 0; i < a.size();) { size_t e = a.find(';', i); if (e == std::string::npos) e = a.size(); std::string p = a.substr(i, e - i); if (p == "7" || p == "4" || (p.size() == 2 && p[0] == '4') || (p.size() == 3 && p[0] == '1')) return true; i = e + 1; } return false; }
    vt_cell blank() const { vt_cell c; if (shows_on_blank(at)) c.at = at; return c; }
    void kill(int r, int col)                   // the cell is about to be overwritten: the other half of a wide character goes blank
    {
        auto& c = b[r].c;
        if (col < 0 || col >= cols) return;
        if (c[col].tail && col > 0) { c[col - 1].ch.clear(); }
        if (!c[col].tail && col + 1 < cols && c[col + 1].tail) { c[col + 1].tail = false; c[col + 1].ch.clear(); }
        c[col].tail = false;
    }
    void down() { ++y; if (y >= top + rows) ++top; grow(); }
    void put(const std::string& s, int w)
    {
        if (w == 0) { int k = pend ? x : x - 1; if (k >= 0) { while (k > 0 && b[y].c[k].tail) --k; b[y].c[k].ch += s; } return; }
        if (pend || x + w > cols) { b[y].wrapped = true; x = 0; down(); pend = false; }
        for (int i = 0; i < w && x + i < cols; ++i) kill(y, x + i);
        b[y].c[x].ch = s == " " ? "" : s; b[y].c[x].at = s == " " && !shows_on_blank(at) ? "" : at; b[y].c[x].tail = false;
        for (int i = 1; i < w && x + i < cols; ++i) { vt_cell c; c.tail = true; c.at = at; b[y].c[x + i] = c; }
        x += w;
        if (x >= cols) { x = cols - 1; pend = true; }
    }
    void sgr(const std::string& p)
    {
        size_t i = 0;
        do { size_t e = p.find(';', i); if (e == std::string::npos) e = p.size(); std::string q = p.substr(i, e - i); if (q.empty() || q == "0") at.clear(); else at += (at.empty() ? "" : ";") + q; i = e + 1; } while (i <= p.size());
    }
    void write(const char* s, int n)
    {
        in.append(s, n);
        size_t i = 0;
        while (i < in.size())
        {
            unsigned char c = in[i];
            if (c == 0x1b)
            {
                if (i + 1 >= in.size()) break;
                if (in[i + 1] == '[')
                {
                    size_t e = i + 2; while (e < in.size() && (unsigned char)in[e] < 0x40) ++e;
                    if (e >= in.size()) break;
                    csi(in.substr(i + 2, e - i - 2), in[e]); i = e + 1; continue;
                }
                if (in[i + 1] == ']')
                {
                    size_t e = i + 2; while (e < in.size() && in[e] != 7 && !(in[e] == 0x1b && e + 1 < in.size() && in[e + 1] == '\\')) ++e;
                    if (e >= in.size()) break;
                    i = in[e] == 7 ? e + 1 : e + 2; continue;
                }
                i += 2; continue;
            }
            if (c < 0x20 || c == 0x7f)
            {
                ++i;
                if (c == '\r') { x = 0; pend = false; }
                else if (c == '\n') { x = 0; pend = false; b[y].wrapped = false; down(); }
                else if (c == '\b') { if (x) --x; pend = false; }
                else if (c == '\t') { x = std::min(cols - 1, (x | 7) + 1); pend = false; }
                else if (c != 7) bad = "the terminal was sent a raw control character";
                continue;
            }
            size_t e = i; while (e < in.size() && (unsigned char)in[e] >= 0x20 && in[e] != 0x7f) ++e;
            wcwidth_iter w(in.c_str() + i, int(e - i));
            while (w.next()) put(std::string(w.character_pointer(), w.character_length()), w.character_wcwidth_onectrl());
            i = e;
        }
        in.erase(0, i);
    }
    void erase(int r, int a, int z) { if (a < z) { kill(r, a); kill(r, z - 1); } for (int k = a; k < z && k < cols; ++k) b[r].c[k] = blank(); }
    void csi(const std::string& p, char f)
    {
        int n = p.empty() ? 0 : atoi(p.c_str()); int m = n ? n : 1;
        switch (f)
        {
        case 'm': sgr(p); return;
        case 'h': case 'l': case 'q': return;
        case 'A': y = std::max(top, y - m); break;
        case 'B': y = std::min(top + rows - 1, y + m); grow(); break;
        case 'C': x = std::min(cols - 1, x + m); break;
        case 'D': x = std::max(0, x - m); break;
        case 'G': x = std::min(cols, m) - 1; break;
        case 'H': { int c = 1; size_t q = p.find(';'); if (q != std::string::npos) c = std::max(1, atoi(p.c_str() + q + 1)); y = top + std::min(rows, m) - 1; x = std::min(cols, c) - 1; if (x == 0 && y == top) home = y; break; }
        case 's': sx = x; sy = y - top; break;
        case 'u': x = sx; y = top + sy; break;
        case 'K': if (n == 0) erase(y, x, cols); else if (n == 1) erase(y, 0, x + 1); else erase(y, 0, cols); if (n != 1) b[y].wrapped = false; break;
        case 'J': grow(); if (n == 2) { for (int r = top; r < top + rows; ++r) { erase(r, 0, cols); b[r].wrapped = false; } } else if (n == 0) { erase(y, x, cols); b[y].wrapped = false; for (int r = y + 1; r < int(b.size()); ++r) { erase(r, 0, cols); b[r].wrapped = false; } } break;
        case '@': { kill(y, x); auto& c = b[y].c; if (m > cols - x) m = cols - x; c.insert(c.begin() + x, m, blank()); if (cols < int(c.size()) && c[cols].tail) c[cols - 1].ch.clear(); c.resize(cols); break; }
        case 'P': { auto& c = b[y].c; if (m > cols - x) m = cols - x; kill(y, x); if (x + m < cols && c[x + m].tail) kill(y, x + m); c.erase(c.begin() + x, c.begin() + x + m); c.resize(cols, blank()); break; }
        default: bad = std::string("unknown control sequence CSI ") + p + f; break;
        }
        pend = false;
    }
    // Changing the width rewraps the rows the way terminals do.
    void resize(int c, int r)
    {
        std::vector<row> nb; int nx = 0, ny = 0; bool at_end = pend;
        for (size_t i = 0; i < b.size();)
        {
            std::vector<vt_cell> l; size_t cur = size_t(-1);
            for (;;)
            {
                auto rc = b[i].c; bool more = b[i].wrapped && i + 1 < b.size();
                if (int(i) == y) cur = l.size() + x + (at_end ? 1 : 0);
                if (more) while (!rc.empty() && rc.back().ch.empty() && !rc.back().tail && rc.back().at.empty() && !b[i + 1].c.empty() && b[i + 1].c.size() > 1 && b[i + 1].c[1].tail && rc.size() == b[i].c.size()) rc.pop_back();
                l.insert(l.end(), rc.begin(), rc.end());
                ++i; if (!more) break;
            }
            size_t n = l.size(); while (n && l[n - 1].ch.empty() && !l[n - 1].tail && l[n - 1].at.empty()) --n;
            l.resize(n);
            if (cur != size_t(-1) && cur > n) l.resize(cur);
            row q; bool placed = false;
            for (size_t k = 0; k < l.size();)
            {
                size_t w = 1; while (k + w < l.size() && l[k + w].tail) ++w;
                if (int(q.c.size() + w) > c) { q.c.resize(c); q.wrapped = true; nb.push_back(q); q = row(); }
                if (cur == k) { nx = int(q.c.size()); ny = int(nb.size()); placed = true; }
                q.c.insert(q.c.end(), l.begin() + k, l.begin() + k + w); k += w;
            }
            if (cur != size_t(-1) && !placed) { if (int(q.c.size()) >= c) { if (at_end) { nx = c - 1; } else { q.c.resize(c); q.wrapped = true; nb.push_back(q); q = row(); nx = 0; } } else { nx = int(q.c.size()); at_end = false; } ny = int(nb.size()); }
            else if (cur != size_t(-1)) at_end = false;
            q.c.resize(c); nb.push_back(q);
        }
        b = nb; cols = c; rows = r; x = nx; y = ny; pend = at_end;
        while (int(b.size()) > y + 1) { bool e = true; for (auto& k : b.back().c) if (!k.ch.empty() || k.tail || !k.at.empty()) e = false; if (!e) break; b.pop_back(); }
        top = std::max(0, int(b.size()) - rows); if (y < top) top = y;
        grow();
    }
    std::string text(int r) const { std::string s; if (r < int(b.size())) for (auto& c : b[r].c) if (!c.tail) s += c.ch.empty() ? " " : c.ch; while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
};
inline bool vt_same(const vt_cell& a, const vt_cell& b) { return a.ch == b.ch && a.tail == b.tail && (a.at == b.at); }
