//: group=full
// C15 escape sequence scanning, C16 text attributes.
#include <core/base.h>
#include <core/str.h>
#include <terminal/ecma48_iter.h>
#include <terminal/attributes.h>
#include <terminal/screen_buffer.h>
#include <ecma48_terminal_out.h>
using namespace pbt;

//---- elements of terminal output -------------------------------------------------------------
struct El { char kind; std::string s; int code; };    // kind: t text, 0 c0, 1 c1, i icf
static const char c_set[] = "abcXYZ 0123;m[]()\\\"?";
static std::string gen_plain(Gen& g, int max)
{
    std::string s;
    for (int n = 1 + g.size(max); n-- > 0;)
        switch (g.below(8)) { case 6: s += utf8_of(0xa0 + g.below(0x700)); break; case 7: s += g.coin() ? utf8_of(0x1f600 + g.below(40)) : utf8_of(0x3041 + g.below(80)); break; default: s += g.ch(c_set); }
    return s;
}
static std::string csi_body(Gen& g)
{
    std::string s;
    if (g.chance(15)) s += g.ch("?<=>");
    for (int n = g.size(4); n-- > 0;) { if (!g.chance(15)) s += std::to_string(g.chance(10) ? g.below(100000) : g.below(110)); if (n) s += ';'; }
    if (g.chance(10)) s += ';';
    if (g.chance(15)) for (int n = 1 + g.below(2); n-- > 0;) s += g.ch(" !#$%'()*+,-./");
    s += g.chance(60) ? g.ch("mHJKABCDGhlsu") : char(0x40 + g.below(0x3f));
    return s;
}
static std::string str_body(Gen& g, bool nest)
{
    std::string s;
    for (int n = g.size(8); n-- > 0;) switch (g.below(9)) { case 7: s += g.pick({ "\t", "\n", "\r", "\x08" }); break; case 8: s += utf8_of(0xa0 + g.below(0x900)); break; default: s += g.ch("abc 012;\"=[m"); }
    if (nest && g.chance(30)) s += "\x1b]" + std::string(g.pick({ "9;8;\"VFVAR\"", "2;x", "" })) + (g.coin() ? "\x07" : "\x1b\\") + g.text("xyz", 3);
    return s;
}
static El gen_el(Gen& g, bool after_text, bool c1_8bit)
{
    switch (g.below(10))
    {
    case 0: case 1: if (!after_text) return { 't', gen_plain(g, g.chance(5) ? 300 : 8), 0 }; // fallthrough
    case 2: { int c = 1 + g.below(0x1f); if (c == 0x1b) c = 0x0a; return { '0', std::string(1, char(c)), c }; }
    case 3: { int c = 0x60 + g.below(0x20); return { 'i', std::string("\x1b") + char(c), c }; }
    default: break;
    }
    bool eight = c1_8bit && !after_text && g.chance(25);
    int code; std::string body;
    switch (g.below(8))
    {
    case 0: { static const char simple[] = "@ABCDEFGHIJKLMNOQRSTUVWYZ\\"; code = simple[g.below(sizeof(simple) - 1)]; break; }
    case 1: case 2: { code = ']'; body = g.pick({ "0;", "2;", "9;8;", "1;", "8;;", "", "4;1;" }) + str_body(g, true); body += g.coin() ? "\x07" : g.chance(70) ? "\x1b\\" : "\xc2\x9c"; break; }
    case 3: { code = g.ch("P^_"); body = str_body(g, false) + (g.chance(30) ? "\x07" : g.chance(70) ? "\x1b\\" : "\xc2\x9c"); break; }
    case 4: { code = 'X'; for (int n = g.size(6); n-- > 0;) body += g.ch("abc\x07\x01\n;[]"); body += g.chance(70) ? "\x1b\\" : "\xc2\x9c"; break; }
    default: code = '['; body = csi_body(g); break;
    }
    std::string intro = eight ? utf8_of(0x80 + (code & 0x1f)) : std::string("\x1b") + char(code);
    return { '1', intro + body, code };
}
static std::vector<El> gen_out(Gen& g, int max, bool eight = true)
{
    std::vector<El> v; bool text = false;
    for (int n = 1 + g.size(max); n-- > 0;) { El e = gen_el(g, text, eight); text = e.kind == 't'; v.push_back(e); }
    return v;
}
static std::string cat(const std::vector<El>& v) { std::string s; for (auto& e : v) s += e.s; return s; }
static std::string render(const std::vector<El>& v) { std::string s; for (auto& e : v) { s += ' '; s += e.kind; s += '<'; s += esc(e.s); s += '>'; } return s; }

static void scan(Gen& g, ecma48_state& st, const char* p, int len, bool with_len, std::vector<El>& out, bool at_start)
{
    ecma48_iter it(p, st, with_len ? len : -1);
    bool first = at_start;
    for (int i = 0;; ++i)
    {
        const ecma48_code& c = it.next();
        if (!c) break;
        g.check(i <= len, "more pieces than input bytes");
        El e; e.kind = '?'; e.s.assign(c.get_pointer(), c.get_length()); e.code = 0;
        switch (c.get_type()) { case ecma48_code::type_chars: e.kind = 't'; break; case ecma48_code::type_c0: e.kind = '0'; e.code = c.get_code(); break; case ecma48_code::type_c1: e.kind = '1'; e.code = c.get_code(); break; case ecma48_code::type_icf: e.kind = 'i'; e.code = c.get_code(); break; default: break; }
        if (first && e.kind == 't' && !out.empty() && out.back().kind == 't') out.back().s += e.s; else out.push_back(e);
        first = false;
    }
    g.check(it.get_pointer() == p + len, "stopped %d bytes before the end", int(p + len - it.get_pointer()));
}
static bool same(const std::vector<El>& a, const std::vector<El>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].kind != b[i].kind || a[i].s != b[i].s || (a[i].kind != 't' && a[i].code != b[i].code)) return false;
    return true;
}

PBT_PROP(C15, scan, 2000000, 80000000, "terminal output composed of text, control codes and complete escape sequences (CSI, OSC incl. nested, DCS/PM/APC/SOS, two-byte, 7 and 8 bit), scanned whole and split into chunks at arbitrary character boundaries: the pieces must be the composed elements with type, code and exact extent; non-trivial: at least two chunks and two elements")
{
    std::vector<El> v = gen_out(g, 10);
    std::string s = cat(v);
    if (g.chance(1) && g.chance(5)) { v.clear(); v.push_back({ 't', std::string(65530 + g.below(12), 'a') + "b", 0 }); v.push_back({ '0', "\n", 10 }); s = cat(v); g.label("long text"); g.note("text of %u bytes", unsigned(v[0].s.size())); }
    else g.note("%s", render(v).c_str());
    std::vector<El> got;
    { ecma48_state st; scan(g, st, s.c_str(), int(s.size()), g.coin(), got, false); }
    if (!same(got, v)) g.fail("scanned%s", s.size() < 3000 ? render(got).c_str() : " wrongly");
    // In chunks.
    std::vector<size_t> cuts;
    for (size_t i = 1; i < s.size(); ++i) if ((s[i] & 0xc0) != 0x80 && g.chance(s.size() > 60 ? 3 : 25)) cuts.push_back(i);
    cuts.push_back(s.size());
    ecma48_state st; got.clear(); size_t from = 0; std::string shown;
    for (size_t c : cuts)
    {
        std::string part = s.substr(from, c - from);                    // each chunk in memory of its own
        if (shown.size() < 2000) shown += " | " + esc(part);
        scan(g, st, part.c_str(), int(part.size()), true, got, true);
        from = c;
    }
    if (!same(got, v)) g.fail("scanned in chunks%s:%s", shown.c_str(), s.size() < 3000 ? render(got).c_str() : " wrongly");
    if (cuts.size() > 1 && v.size() > 1) g.nontrivial();
}

PBT_PROP(C15, params, 3000000, 80000000, "CSI sequences built from a parameter list, private marker, intermediate and final byte: decoding must give those back, limited to the requested number of parameters; title and environment OSC sequences likewise; non-trivial: at least two parameters")
{
    if (g.chance(25))
    {
        // OSC titles: text, optional quotes, nested environment variable.
        std::string t = g.text("abc ;=[m", 8), want, in; bool q = g.coin();
        SetEnvironmentVariableA("VFVAR", "env value");
        in = t; want = t;
        if (g.chance(30)) { in += "\x1b]9;8;\"VFVAR\"" + std::string(g.coin() ? "\x1b\\" : "\x07"); want += "env value"; std::string u = g.text("xyz", 3); in += u; want += u; g.nontrivial(); }
        char cmd = g.ch("012");
        std::string s = std::string("\x1b]") + cmd + ";" + (q ? "\"" + in + "\"" : in) + (g.coin() ? "\x07" : "\x1b\\");
        g.note("%s", esc(s).c_str());
        ecma48_state st; ecma48_iter it(s.c_str(), st); const ecma48_code& c = it.next();
        ecma48_code::osc o;
        g.check(c && c.get_type() == ecma48_code::type_c1 && c.get_length() == s.size() && c.decode_osc(o), "not decoded");
        g.check(o.command == cmd && o.param.c_str() == want, "title is %s want %s", esc(o.param.c_str()).c_str(), esc(want).c_str());
        return;
    }
    bool priv = g.chance(20), eight = g.chance(20); std::vector<int> p; std::string s = eight ? "\xc2\x9b" : "\x1b[", ps; 
    if (priv) s += g.ch("?<=>");
    for (int n = g.size(g.chance(10) ? 20 : 6); n-- > 0;) { int x = g.chance(15) ? 0 : g.chance(5) ? g.below(2000000) : g.below(300); if (!p.empty()) ps += ';'; if (x || g.coin()) ps += std::to_string(x); p.push_back(x); }
    if (p.size() == 1 && ps.empty()) p.clear();
    char inter = g.chance(20) ? g.ch(" !$'") : 0, fin = char(0x40 + g.below(0x3f));
    s += ps; if (inter) s += inter; s += fin;
    g.note("%s", esc(s).c_str());
    // The final byte may not be one that the scanner would see as a different sequence.
    ecma48_state st; ecma48_iter it(s.c_str(), st); const ecma48_code& c = it.next();
    g.check(c && c.get_type() == ecma48_code::type_c1 && c.get_code() == ecma48_code::c1_csi && c.get_length() == s.size(), "not scanned as one CSI sequence");
    ecma48_code::csi<8> csi; g.check(c.decode_csi(csi), "not decoded");
    g.check(csi.private_use == priv && csi.intermediate == inter && csi.final == fin, "private %d intermediate %02x final %02x", csi.private_use, csi.intermediate, csi.final);
    // An empty last parameter is not distinguishable from an absent one.
    size_t n = p.size(); if (n > 8) n = 8;
    g.check(csi.param_count == n, "%u parameters want %u", csi.param_count, unsigned(n));
    for (size_t i = 0; i < n; ++i) g.check(csi.get_param(int(i)) == p[i], "parameter %u is %d", unsigned(i), csi.get_param(int(i)));
    g.check(csi.get_param(int(n), 77) == 77 && csi.get_param(-1, 5) == 5, "fallback not used");
    if (n >= 2) g.nontrivial();
}

PBT_PROP(C15, fuzz, 2000000, 60000000, "arbitrary bytes rich in escape introducers, truncated and malformed: scanning terminates, every piece is non-empty and the pieces appear in the input in order, without and with chunking; non-trivial: the input contains a malformed or truncated sequence")
{
    std::string s;
    for (int n = g.size(24); n-- > 0;) switch (g.below(6)) { case 0: s += "\x1b"; break; case 1: s += g.pick({ "\x1b[", "\x1b]", "\x1bP", "\x1bX", "\x1b\\", "\x07", "\xc2\x9b", "\xc2\x9c", "\x1b(B" }); break; case 2: s += char(1 + g.below(0x1f)); break; case 3: s += g.ch("0123;?:<mH \"\\]"); break; case 4: s += utf8_of(0x80 + g.below(0x200)); break; default: s += g.text("abc", 3); }
    g.note("%s", esc(s).c_str());
    std::vector<size_t> cuts;
    if (g.coin()) for (size_t i = 1; i < s.size(); ++i) if ((s[i] & 0xc0) != 0x80 && g.chance(20)) cuts.push_back(i);
    cuts.push_back(s.size());
    ecma48_state st; size_t from = 0; std::vector<El> got;
    for (size_t c : cuts) { std::string part = s.substr(from, c - from); scan(g, st, part.c_str(), int(part.size()), true, got, false); from = c; }
    size_t at = 0, total = 0;
    for (auto& e : got)
    {
        g.check(!e.s.empty() && e.kind != '?', "piece %c<%s>", e.kind, esc(e.s).c_str());
        size_t f = s.find(e.s, at);
        g.check(f != std::string::npos, "piece <%s> is not in the rest of the input", esc(e.s).c_str());
        at = f + e.s.size(); total += e.s.size();
    }
    if (total < s.size()) g.nontrivial();
}

PBT_PROP(C15, process, 1500000, 40000000, "composed output through the prompt processor in each mode: verbatim, bracketed, plain text and colorless: the result must be the elements, transformed as documented, and the cell count that of the text; non-trivial: output contains at least one escape sequence and text")
{
    std::vector<El> v; bool text = false, e1 = false, t1 = false;
    SetEnvironmentVariableA("VFVAR", "env value");
    for (int n = 1 + g.size(8); n-- > 0;)
    {
        El e = gen_el(g, text, false);
        if (e.kind == 'i' || (e.kind == '0' && e.code != 7)) continue;
        if (e.kind == '1' && e.code == ']') { if (g.coin()) e.s = "\x1b]9;8;\"VFVAR\"" + std::string(g.coin() ? "\x07" : "\x1b\\"); else if (e.s.compare(2, 2, "9;") == 0) continue; }
        if (e.kind == 't') { e.s = g.text("abc 012", 6); if (e.s.empty()) continue; t1 = true; } else e1 = true;
        text = e.kind == 't'; v.push_back(e);
    }
    g.note("%s", render(v).c_str());
    if (e1 && t1) g.nontrivial();
    std::string s = cat(v);
    auto env = [](const El& e) { return e.kind == '1' && e.s.compare(0, 6, "\x1b]9;8;") == 0; };
    unsigned cells = 0; for (auto& e : v) cells += env(e) ? 9 : e.kind == 't' ? e.s.size() : 0;
    for (int mode = 0; mode < 5; ++mode)
    {
        std::string want; bool br = mode == 1 || mode == 4;
        for (auto& e : v)
        {
            if (e.kind == 't') want += e.s;
            else if (e.kind == '0') want += br ? "\x01\x07\x02" : "\x07";
            else if (env(e)) want += "env value";
            else if (mode == 2) {}
            else if (mode >= 3 && e.code == '[')
            {
                // Only styles survive.
                ecma48_state st; ecma48_iter it(e.s.c_str(), st); const ecma48_code& c = it.next(); ecma48_code::csi<32> csi; c.decode_csi(csi);
                const int32* par = csi.params; asm("" : "+r"(par));     // (declared as an array of one)
                if (csi.final != 'm') continue;
                std::string k;
                for (int i = 0; i < csi.param_count; ++i)
                {
                    int p = par[i];
                    if (p == 0) k += ";23;24;29";
                    else if (p == 3 || p == 4 || p == 9 || p == 21 || p == 23 || p == 24 || p == 29 || p == 53 || p == 55 || (p >= 73 && p <= 75)) k += ";" + std::to_string(p);
                    else if ((p == 38 || p == 48 || p == 58) && i + 1 < csi.param_count) i += par[i + 1] == 2 ? 4 : par[i + 1] == 5 ? 2 : 0;
                }
                if (!k.empty()) want += std::string(br ? "\x01" : "") + "\x1b[" + k.substr(1) + "m" + (br ? "\x02" : "");
            }
            else want += br ? "\x01" + e.s + "\x02" : e.s;
        }
        auto f = mode == 0 ? ecma48_processor_flags::none : mode == 1 ? ecma48_processor_flags::bracket : mode == 2 ? ecma48_processor_flags::plaintext : mode == 3 ? ecma48_processor_flags::colorless : (ecma48_processor_flags::colorless | ecma48_processor_flags::bracket);
        str<> out; uint32 n = 0;
        ecma48_processor(s.c_str(), &out, &n, f);
        g.check(out.c_str() == want, "mode %d gave %s want %s", mode, esc(out.c_str()).c_str(), esc(want).c_str());
        g.check(n == cells, "mode %d counts %u cells want %u", mode, n, cells);
    }
    unsigned t = 0; for (auto& e : v) if (e.kind == 't') t += e.s.size();
    g.check(cell_count(s.c_str()) == t, "cell_count is %u want %u", cell_count(s.c_str()), t);
}

//---- C16 -----------------------------------------------------------------------------------
struct Rec : public screen_buffer
{
    std::string log; attributes attr; bool coalesce = false;
    void add(const std::string& s) { log += s + "\n"; }
    void open() override {} void begin() override {} void end() override {} void close() override {}
    void write(const char* d, int32 n) override { std::string s(d, n < 0 ? strlen(d) : n); if (log.size() > 1 && log.compare(0, 1, "W") >= 0 && last_w) { log.pop_back(); log += esc(s) + "\n"; } else log += "W" + esc(s) + "\n"; last_w = true; }
    void flush() override {}
    int32 get_columns() const override { return 80; } int32 get_rows() const override { return 25; } int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16&, int16&) const override { return false; } bool get_line_text(int32, str_base&) const override { return false; }
    bool has_native_vt_processing() const override { return false; }
    void ev(const char* f, int a = 0, int b = 0) { char t[64]; sprintf(t, "%s %d %d\n", f, a, b); log += t; last_w = false; }
    void clear(clear_type t) override { ev("clear", t); } void clear_line(clear_type t) override { ev("clear_line", t); }
    void set_horiz_cursor(int32 c) override { ev("horiz", c); } void set_cursor_pos(int32 c, int32 r) override { ev("pos", c, r); } void move_cursor(int32 x, int32 y) override { ev("move", x, y); }
    void save_cursor() override { ev("save"); } void restore_cursor() override { ev("restore"); } void insert_chars(int32 n) override { ev("ich", n); } void delete_chars(int32 n) override { ev("dch", n); }
    void set_attributes(const attributes a) override;
    bool find_best_palette_match(attributes&) const override { return true; } int32 is_line_default_color(int32) const override { return 0; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return 0; } int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
    bool last_w = false;
};
// A model of an attribute state: -2 unset, -1 default, 0..15 palette, 0x10000 + rgb555.
struct St { int fg = -2, bg = -2, bold = -2, ul = -2, rev = -2; bool operator == (const St& o) const { return fg == o.fg && bg == o.bg && bold == o.bold && ul == o.ul && rev == o.rev; } };
static int r555(int r, int g, int b) { return 0x10000 + ((r >> 3) << 10) + ((g >> 3) << 5) + (b >> 3); }
static St read(const attributes& a)
{
    St s;
    auto col = [](const attributes::attribute<attributes::color>& c) { return !c ? -2 : c.is_default ? -1 : c->is_rgb ? 0x10000 + (c->r << 10) + (c->g << 5) + c->b : int(c->value); };
    s.fg = col(a.get_fg()); s.bg = col(a.get_bg());
    if (a.get_bold()) s.bold = a.get_bold().value; if (a.get_underline()) s.ul = a.get_underline().value; if (a.get_reverse()) s.rev = a.get_reverse().value;
    return s;
}
static std::string show(const St& s) { char b[100]; sprintf(b, "fg %x bg %x bold %d underline %d reverse %d", s.fg, s.bg, s.bold, s.ul, s.rev); return b; }
void Rec::set_attributes(const attributes a) { attr = a; log += "sgr " + show(read(a)) + "\n"; last_w = false; }
static St over(const St& a, const St& b) { St r = a; if (b.fg != -2) r.fg = b.fg; if (b.bg != -2) r.bg = b.bg; if (b.bold != -2) r.bold = b.bold; if (b.ul != -2) r.ul = b.ul; if (b.rev != -2) r.rev = b.rev; return r; }
static attributes gen_attr(Gen& g, St& s, bool full)
{
    attributes a; if (full) { a = attributes(attributes::defaults); s.fg = s.bg = -1; s.bold = s.ul = s.rev = 0; }
    auto col = [&](bool fg) {
        int k = g.below(4), v = -2; if (k == 0) return full ? -1 : -2;
        if (k == 1) { v = -1; fg ? a.reset_fg() : a.reset_bg(); }
        if (k == 2) { v = g.below(16); fg ? a.set_fg(v) : a.set_bg(v); }
        if (k == 3) { int r = g.below(256), gg = g.below(256), b = g.below(256); if (g.chance(20)) { r = 0; gg = 56; b = 56; } fg ? a.set_fg(r, gg, b) : a.set_bg(r, gg, b); v = r555(r, gg, b); }
        return v; };
    s.fg = col(true); s.bg = col(false);
    if (int k = g.below(3)) { a.set_bold(k == 2); s.bold = k == 2; } if (int k = g.below(3)) { a.set_underline(k == 2); s.ul = k == 2; } if (int k = g.below(3)) { a.set_reverse(k == 2); s.rev = k == 2; }
    return a;
}

PBT_PROP(C16, algebra, 4000000, 120000000, "three attribute states built by setter calls (unset, default, palette, RGB, flags) against a model: getters, merge = later overrides earlier, merge is associative with the empty state as identity, merge(from, diff(from, to)) = merge(from, to) for complete from, equality; non-trivial: the states differ in at least two attributes")
{
    St a, b, c, f; attributes A = gen_attr(g, a, false), B = gen_attr(g, b, false), C = gen_attr(g, c, false), F = gen_attr(g, f, true);
    g.note("a %s; b %s; c %s; f %s", show(a).c_str(), show(b).c_str(), show(c).c_str(), show(f).c_str());
    g.check(read(A) == a && read(B) == b && read(F) == f, "getters give %s", show(read(A)).c_str());
    g.check(read(attributes::merge(A, B)) == over(a, b), "merge(a,b) is %s", show(read(attributes::merge(A, B))).c_str());
    g.check(read(attributes::merge(attributes::merge(A, B), C)) == read(attributes::merge(A, attributes::merge(B, C))), "merge is not associative");
    g.check(read(attributes::merge(A, attributes())) == a && read(attributes::merge(attributes(), A)) == a, "the empty state is not neutral");
    St d = read(attributes::diff(F, A));
    g.check(read(attributes::merge(F, attributes::diff(F, A))) == over(f, a), "diff(f,a) is %s", show(d).c_str());
    // A difference only contains what changes.
    St ch = a; if (ch.fg == f.fg) ch.fg = -2; if (ch.bg == f.bg) ch.bg = -2; if (ch.bold == f.bold) ch.bold = -2; if (ch.ul == f.ul) ch.ul = -2; if (ch.rev == f.rev) ch.rev = -2;
    g.check(d == ch, "diff(f,a) is %s want %s", show(d).c_str(), show(ch).c_str());
    auto eq = [](int x, int y) { return x == -2 || y == -2 || x == y; };
    g.check((A == B) == (eq(a.fg, b.fg) && eq(a.bg, b.bg) && eq(a.bold, b.bold) && eq(a.ul, b.ul) && eq(a.rev, b.rev)), "a == b is %d", A == B);
    g.check((A != B) == !(A == B), "!= disagrees with ==");
    int n = (a.fg != b.fg) + (a.bg != b.bg) + (a.bold != b.bold) + (a.ul != b.ul) + (a.rev != b.rev);
    if (n >= 2) g.nontrivial();
}

static const int c_cube[] = { 0, 0x5f, 0x87, 0xaf, 0xd7, 0xff };
static void ref_sgr(const std::vector<int>& p, St& s)
{
    if (p.empty()) { s.fg = s.bg = -1; s.bold = s.ul = s.rev = 0; return; }
    for (size_t i = 0; i < p.size(); ++i)
    {
        int x = p[i];
        if (x == 0) { s.fg = s.bg = -1; s.bold = s.ul = s.rev = 0; }
        else if (x == 1) s.bold = 1; else if (x == 2 || x == 22) s.bold = 0; else if (x == 4) s.ul = 1; else if (x == 24) s.ul = 0; else if (x == 7) s.rev = 1; else if (x == 27) s.rev = 0;
        else if (x == 39) s.fg = -1; else if (x == 49) s.bg = -1;
        else if (x >= 30 && x < 38) s.fg = x - 30; else if (x >= 90 && x < 98) s.fg = x - 90 + 8; else if (x >= 40 && x < 48) s.bg = x - 40; else if (x >= 100 && x < 108) s.bg = x - 100 + 8;
        else if ((x == 38 || x == 48) && i + 1 < p.size())
        {
            int t = p[++i], v = -2;
            if (t == 2) { if (i + 3 < p.size()) v = r555(p[i + 1], p[i + 2], p[i + 3]); i += 3; }
            else if (t == 5)
            {
                if (i + 1 < p.size()) { int n = p[i + 1]; if (n < 16) v = n; else if (n >= 232) { int k = 8 + (n - 232) * 10; v = r555(k, k, k); } else { n -= 16; v = r555(c_cube[n / 36], c_cube[n / 6 % 6], c_cube[n % 6]); } }
                i += 1;
            }
            if (v != -2) (x == 38 ? s.fg : s.bg) = v;
        }
    }
}

PBT_PROP(C16, sgr, 3000000, 80000000, "SGR sequences of every supported parameter kind, incomplete extended colors and unknown parameters, written to the emulating terminal: the attributes it sets must be those the parameters denote in order; non-trivial: at least two parameters take effect")
{
    std::vector<int> p; int eff = 0;
    for (int n = g.size(7); n-- > 0 && p.size() < 24;)
    {
        switch (g.below(9))
        {
        case 0: p.push_back(0); break;
        case 1: { static const int k[] = { 1, 2, 22, 4, 24, 7, 27, 39, 49 }; p.push_back(k[g.below(_countof(k))]); break; }
        case 2: p.push_back(30 + g.below(8)); break; case 3: p.push_back(90 + g.below(8)); break; case 4: p.push_back(40 + g.below(8)); break; case 5: p.push_back(100 + g.below(8)); break;
        case 6: p.push_back(g.coin() ? 38 : 48); p.push_back(5); p.push_back(g.below(256)); break;
        case 7: p.push_back(g.coin() ? 38 : 48); p.push_back(2); for (int i = 0; i < 3; ++i) p.push_back(g.below(256)); break;
        default: { static const int k[] = { 3, 5, 6, 8, 9, 21, 23, 25, 28, 29, 53, 55, 60, 89, 99, 110 }; p.push_back(k[g.below(_countof(k))]); --eff; break; }
        }
        ++eff;
    }
    while (!p.empty() && g.chance(5)) p.pop_back();     // incomplete
    if (eff >= 2) g.nontrivial();
    std::string s = "\x1b["; for (size_t i = 0; i < p.size(); ++i) { if (i) s += ';'; if (p[i] || i + 1 == p.size() || g.coin()) s += std::to_string(p[i]); } s += "m";
    g.note("%s", esc(s).c_str());
    Rec scr; ecma48_terminal_out out(scr);
    out.write(s.c_str(), g.coin() ? int(s.size()) : -1);
    St want; ref_sgr(p, want);
    g.check(read(scr.attr) == want, "attributes are %s want %s", show(read(scr.attr)).c_str(), show(want).c_str());
    g.check(scr.log == "sgr " + show(want) + "\n", "the terminal did %s", scr.log.c_str());
}

PBT_PROP(C15, terminal, 1500000, 40000000, "composed output written to the emulating terminal whole, in chunks and byte by byte: the screen operations must be the same and those the sequences denote; non-trivial: at least two operations")
{
    std::vector<El> v; std::string want; bool text = false, lw = false;
    auto op = [&](const char* f, int a = 0, int b = 0) { char t[64]; sprintf(t, "%s %d %d\n", f, a, b); want += t; lw = false; };
    auto w = [&](const std::string& s) { if (lw) { want.pop_back(); want += esc(s) + "\n"; } else want += "W" + esc(s) + "\n"; lw = true; };
    int ops = 0;
    for (int n = 1 + g.size(8); n-- > 0;)
    {
        int k = g.below(6); std::string s;
        if (k <= 1 && !text) { s = gen_plain(g, 6); w(s); text = true; v.push_back({ 't', s }); continue; }
        text = false; ++ops;
        if (k <= 2) { char c = g.ch("\t\n\r\x08"); s = c; if (c == '\r') op("move", INT_MIN); else if (c == 8) op("move", -1); else w(s); }
        else
        {
            std::vector<int> p; int np = g.below(4); bool q = g.chance(10); char f = g.ch("@GHJKPmsuABCDz");
            for (int i = 0; i < np; ++i) p.push_back(f == 'm' ? int(g.pick(std::vector<int>{ 0, 1, 4, 31, 92, 44, 105, 7, 22 })) : int(g.below(f == 'J' || f == 'K' ? 5 : 30)));
            s = q ? "\x1b[?" : "\x1b["; for (size_t i = 0; i < p.size(); ++i) s += (i ? ";" : "") + std::to_string(p[i]); s += f;
            auto par = [&](size_t i, int d) { return i < p.size() ? p[i] : d; };
            if (!q) switch (f)
            {
            case '@': op("ich", par(0, 1)); break; case 'P': op("dch", par(0, 1)); break; case 'G': op("horiz", par(0, 1) - 1); break; case 'H': op("pos", par(1, 1) - 1, par(0, 1) - 1); break;
            case 'J': { int t = par(0, 0); if (t < 4) op("clear", t == 0 ? screen_buffer::clear_type_after : t == 1 ? screen_buffer::clear_type_before : t == 2 ? screen_buffer::clear_type_all : screen_buffer::clear_type_saved); break; }
            case 'K': { int t = par(0, 0); if (t < 3) op("clear_line", t == 0 ? screen_buffer::clear_type_after : t == 1 ? screen_buffer::clear_type_before : screen_buffer::clear_type_all); break; }
            case 'm': { St st; ref_sgr(p, st); want += "sgr " + show(st) + "\n"; lw = false; break; }
            case 's': op("save"); break; case 'u': op("restore"); break;
            case 'A': op("move", 0, -par(0, 1)); break; case 'B': op("move", 0, par(0, 1)); break; case 'C': op("move", par(0, 1), 0); break; case 'D': op("move", -par(0, 1), 0); break;
            }
        }
        v.push_back({ '1', s });
    }
    if (ops >= 2) g.nontrivial();
    std::string s = cat(v);
    g.note("%s", render(v).c_str());
    for (int mode = 0; mode < 3; ++mode)
    {
        Rec scr; ecma48_terminal_out out(scr);
        if (mode == 0) out.write(s.c_str(), int(s.size()));
        else if (mode == 1) for (char c : s) { char b[2] = { c, 0 }; out.write(b, g.coin() ? 1 : -1); }
        else for (size_t i = 0; i < s.size();) { size_t j = i + 1; while (j < s.size() && ((s[j] & 0xc0) == 0x80 || g.chance(70))) ++j; std::string part = s.substr(i, j - i); out.write(part.c_str(), int(part.size())); i = j; }
        g.check(scr.log == want, "%s: screen operations\n%swant\n%s", mode == 0 ? "whole" : mode == 1 ? "byte by byte" : "in chunks", scr.log.c_str(), want.c_str());
    }
}
