//: group=full with=heap.cpp with=crt_utf8.cpp lflags=-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=wcsdup
// C14 history expansion.
#include "heap.h"
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/settings.h>
#include <lib/history_db.h>
#include <stdexcept>
extern "C" {
#include <readline/history.h>
extern int history_host_backslash_escape;
extern int _rl_utf8locale, rl_backslash_path_sep;
}
using namespace pbt;

static history_db* s_db;
static void set(const char* n, const std::string& v) { setting* s = settings::find(n); if (!s || !s->set(v.c_str())) throw std::runtime_error(std::string("setting ") + n); }
static void init()
{
    settings::TEST_set_ever_loaded();
    SetCurrentDirectoryA(scratch().c_str());
    set("history.shared", "false");
    set("history.ignore_space", "false");
    set("history.time_stamp", "off");
    s_db = new history_db((scratch() + "\\hist").c_str(), 77, false);
    s_db->initialise();
    history_host_backslash_escape = 0;           // as initialise_readline does
    _rl_utf8locale = 1; rl_backslash_path_sep = 1;
}
static struct Init { Init() { g_init = init; } } s_i;

typedef std::vector<std::string> Toks;
struct HLine { std::string text; Toks toks; std::vector<size_t> pos; };

//---- Reference --------------------------------------------------------------------------------
struct Ref
{
    std::vector<HLine> hist;
    int mode = 1;
    // output so far
    std::string out; bool dq = false, sq = false; int changed = 0; bool print = false, error = false;
    // persistent
    std::string lhs, rhs;
    bool has_match = false; std::string match;
    bool suppressed() const
    {
        if (mode == 1) return false;
        int q = 0; for (char c : out) if (c == '\'' || c == '"') q = (c == q) ? 0 : c;
        return mode == 2 ? q == '\'' : mode == 3 ? q == '"' : q != 0;
    }
    // Returns false if a '!' in the text would be an expansion.
    bool literal(const std::string& t, char after)
    {
        for (size_t i = 0; i < t.size(); ++i)
        {
            char c = t[i], n = i + 1 < t.size() ? t[i + 1] : after;
            if (c == '!' && !(n == 0 || strchr(" \t\n\r=", n) || (dq && n == '"')) && !suppressed()) return false;
            if (c == '"') dq = !dq;
            if (c == '\'') { if (sq) sq = false; else if (!dq) sq = true; }
            out += c;
        }
        return true;
    }
};
static std::string join(const Toks& t, int a, int b) { std::string s; for (int i = a; i <= b; ++i) s += (i > a ? " " : "") + t[i]; return s; }

//---- Generators --------------------------------------------------------------------------------
static std::string gen_word(Gen& g)
{
    static const std::vector<std::string> parts = {"a", "b", "foo", "ba", "git", "x1", "/", "\\", ".", ".txt", "-", "--", "=", ",", "\xc3\xa9", "\xf0\x9f\x98\x80", "%", "7", "12", "c:", "_", "~", "#", "^"};
    std::string s; int n = 1 + g.size(4);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({16, 1, 1, 1}))
        {
        case 0: s += g.pick(parts); break;
        case 1: s += "\"" + g.text("a b;&|x(>'", 5) + "\""; break;
        case 2: s += "'" + g.text("a b;&|x(>\"", 5) + "'"; break;
        case 3: s += "!"; if (g.coin()) s += "z"; break;
        }
    }
    return s;
}
static HLine gen_line(Gen& g)
{
    HLine l; int n = 1 + g.size(5);
    auto put = [&](const std::string& t) { l.pos.push_back(l.text.size()); l.text += t; l.toks.push_back(t); };
    auto ws = [&](int lo) { int k = lo + (g.chance(15) ? 1 : 0); for (int i = 0; i < k; ++i) l.text += g.chance(20) ? '\t' : ' '; };
    bool word_before = false;
    for (int i = 0; i < n; ++i)
    {
        if (i && g.chance(20))
        {
            static const std::vector<std::string> ops = {"&", "&&", "|", "||", ";", ">", ">>", "<", "2>", "2>>", "2>&1", ">&2", "(", ")", ">|", "&>"};
            std::string op = g.pick(ops);
            // an operator directly after a word only where nothing joins (digits, '$(' and so on are not generated)
            bool glue = word_before && !isdigit((unsigned char)l.text.back()) && op != "(" && !isdigit((unsigned char)op[0]) && g.chance(40);
            if (!glue) ws(1);
            put(op); word_before = false;
            bool tail = op == "(" || op == ")" || op == ";" ? false : true;
            ws(tail || g.coin() ? 1 : 0);
            if (!strchr(" \t", l.text.back()) && op == ">") l.text += ' ';
        }
        else if (i) ws(1);
        std::string w = gen_word(g);
        if (i && g.chance(8) && isdigit((unsigned char)w[0])) w = "n" + w;
        put(w); word_before = true;
    }
    return l;
}
static std::string utf8_cut(const std::string& s, size_t n) { while (n < s.size() && (s[n] & 0xc0) == 0x80) ++n; return s.substr(0, n); }

struct Spec { std::string text; std::string value; bool err = false, print = false, plain = true; };
static const char* const c_subdelims = "/,;|#@.";

// One designator, its text and what it denotes.
static Spec gen_spec(Gen& g, Ref& r, bool& last_only)
{
    Spec s; last_only = false;
    HLine cur; bool have = true, search = false, shorthand = false, curline = false;
    int n = int(r.hist.size());
    s.text = "!";
    switch (g.weighted({3, 3, 3, 4, 4, 2, 3}))
    {
    case 0: s.text += "!"; have = n > 0; if (have) cur = r.hist[n - 1]; break;
    case 1: { int k = g.chance(12) ? (g.coin() ? 0 : n + 1) : g.range(std::min(1, n), n); if (g.chance(3)) k = 2000000000; s.text += std::to_string(k); have = k >= 1 && k <= n; if (have) cur = r.hist[k - 1]; s.plain = false; break; }
    case 2: { int k = g.chance(12) ? (g.coin() ? 0 : n + 1) : g.range(std::min(1, n), n); s.text += "-" + std::to_string(k); have = k >= 1 && k <= n; if (have) cur = r.hist[n - k]; s.plain = false; break; }
    case 3:
        {
            search = true;
            std::string t = n && g.chance(85) ? g.pick(r.hist).text : gen_word(g);
            size_t e = 0; char qc = r.sq ? '\'' : r.dq ? '"' : 0;
            while (e < t.size() && !strchr(" \t:^$*%?\"'!", t[e]) && !(e && t[e] == '-')) ++e;
            if (e) { e = 1 + g.below(e); }
            t = utf8_cut(t, e);
            for (size_t i = 1; i < t.size(); ++i) if (t[i] == '-' || strchr(" \t:^$*%?\"'!", t[i])) { t.resize(i); break; }
            if (t.empty() || isdigit((unsigned char)t[0]) || strchr("=#", t[0]) || (t[0] == '-' && t.size() > 1 && isdigit((unsigned char)t[1])) || strchr(" \t:^$*%?\"'!", t[0])) t = "foo";
            (void)qc;
            s.text += t; have = false;
            for (int i = n - 1; i >= 0 && !have; --i) if (r.hist[i].text.compare(0, t.size(), t) == 0) { cur = r.hist[i]; have = true; }
            s.plain = false;
            break;
        }
    case 4:
        {
            std::string t;
            if (n && g.chance(85)) { t = g.pick(r.hist).text; size_t b = g.below(t.size()); while (b && (t[b] & 0xc0) == 0x80) --b; t = utf8_cut(t.substr(b), 1 + g.size(8)); }
            else t = gen_word(g);
            size_t q = t.find_first_of("?\"'"); if (q != std::string::npos) t.resize(q);
            if (t.empty()) t = "a";
            s.text += "?" + t; have = false;
            if (g.chance(10)) last_only = true; else s.text += "?";
            for (int i = n - 1; i >= 0 && !have; --i)
            {
                size_t p = r.hist[i].text.rfind(t);
                if (p == std::string::npos) continue;
                cur = r.hist[i]; have = true; r.has_match = false; r.match.clear();
                if (r.hist[i].text.find(t) != p) { r.match = "\x01"; }
                else for (size_t k = 0; k < cur.toks.size(); ++k) if (p >= cur.pos[k] && p < cur.pos[k] + cur.toks[k].size()) { r.has_match = true; r.match = cur.toks[k]; }
            }
            break;
        }
    case 5:
        curline = true; s.text += "#"; cur.text = r.out;
        {   // words of the line so far, where they are plainly delimited
            size_t i = 0; std::string& t = cur.text; bool simple = t.find_first_not_of("abcdefghijklmnopqrstuvwxyz./\\-_=, 0123456789") == std::string::npos;
            while (simple && i < t.size()) { while (i < t.size() && t[i] == ' ') ++i; size_t b = i; while (i < t.size() && t[i] != ' ') ++i; if (i > b) { cur.toks.push_back(t.substr(b, i - b)); cur.pos.push_back(b); } }
        }
        break;
    case 6: shorthand = true; have = n > 0; if (have) cur = r.hist[n - 1]; break;
    }
    if (last_only) { s.value = cur.text; s.err = !have; s.plain = false; return s; }
    s.value = cur.text; s.err = !have;

    // word designator
    int len = int(cur.toks.size());
    if (shorthand || (!(curline && len == 0) && g.chance(50)))
    {
        static const std::vector<std::string> plain = {"^", "$", "*", "%"};
        std::string d; bool colon;
        int a = -1, b = -1; bool bad = false, star = false; std::string direct; bool use_direct = false;
        auto num = [&](int lo) { return g.range(lo, std::min(std::max(0, len + (g.chance(12) ? 1 : -1)), 9)); };
        switch (g.weighted({2, 2, 2, 1, 3, 3, 2, 2, 1}))
        {
        case 0: d = "$"; a = b = len - 1; break;
        case 1: d = "^"; a = b = 1; if (g.chance(20)) { d = "^^"; } break;
        case 2: d = "*"; a = 1; b = len - 1; star = true; break;
        case 3: d = "%"; use_direct = true; if (r.match == "\x01") g.discard(); direct = r.has_match ? r.match : ""; break;
        case 4: a = b = num(0); d = std::to_string(a); break;
        case 5: a = num(0); b = num(0); if (b < a && !g.chance(15)) std::swap(a, b); d = std::to_string(a) + "-" + std::to_string(b); break;
        case 6: a = num(0); b = len - 1; d = std::to_string(a) + (g.coin() ? "*" : "-$"); break;
        case 7: a = num(0); b = len - 2; d = std::to_string(a) + "-"; break;
        case 8: a = 0; if (g.coin()) { b = num(0); d = "-" + std::to_string(b); } else { b = len - 1; d = "-$"; } break;
        }
        colon = isdigit((unsigned char)d[0]) ? true : shorthand ? d[0] == '-' || g.coin() : g.chance(60);
        if (!colon && s.text == "!" && d[0] == '-') colon = true;
        if (!colon && !s.plain && d[0] == '-' && search) colon = true;
        if (d == "^^" ) { d = "^"; }
        s.text += (colon ? ":" : "") + d;
        if (use_direct) s.value = direct;
        else if (star) { s.value = len > 1 ? join(cur.toks, 1, len - 1) : ""; }
        else
        {
            if (len == 0 || a >= len || b >= len) bad = true;
            else if (d.back() == '-' ) { if (b < a) { if (b == a - 1) { s.value = ""; } else bad = true; } else s.value = join(cur.toks, a, b); }
            else if (b < a) bad = true;
            else s.value = join(cur.toks, a, b);
        }
        if (bad) s.err = true;
        s.plain = false;
    }
    // modifiers
    int quote = 0;
    if (!shorthand || s.text.size() > 1)
    while (g.chance(35))
    {
        std::string& v = s.value;
        switch (g.weighted({2, 2, 2, 2, 1, 1, 1, 5, 2}))
        {
        case 0: { s.text += ":h"; size_t p = v.find_last_of("/\\"); if (p != std::string::npos) v.resize(p); break; }
        case 1: { s.text += ":t"; size_t p = v.find_last_of("/\\"); if (p != std::string::npos) v.erase(0, p + 1); break; }
        case 2: { s.text += ":r"; size_t p = v.rfind('.'); if (p != std::string::npos) v.resize(p); break; }
        case 3: { s.text += ":e"; size_t p = v.rfind('.'); if (p != std::string::npos) v.erase(0, p); break; }
        case 4: s.text += ":p"; s.print = true; break;
        case 5: s.text += ":q"; quote = 'q'; break;
        case 6: s.text += ":x"; quote = 'x'; break;
        case 7: case 8:
            {
                bool amp = false;
                std::string how = g.pick({"", "", "g", "a", "G"});
                if (g.chance(25)) { amp = true; s.text += ":" + how + "&"; }
                else
                {
                    char dl = g.ch(c_subdelims);
                    std::string lhs, rhs, rlit;
                    if (!v.empty() && g.chance(85)) { size_t b = g.below(v.size()); while (b && (v[b] & 0xc0) == 0x80) --b; lhs = utf8_cut(v.substr(b), 1 + g.size(3)); }
                    else lhs = g.text("abfo ", 3);
                    if (how == "G") { size_t q = lhs.find_first_of(" \t;&()|<>"); if (q != std::string::npos) lhs.resize(q); }
                    { size_t q = lhs.find_first_of("\"'!:\\"); if (q != std::string::npos) lhs.resize(q); }
                    if (lhs.empty() && g.chance(80)) lhs = "a";
                    auto put = [&](const std::string& t) { for (char c : t) { if (c == dl) s.text += '\\'; s.text += c; } };
                    s.text += ":" + how + "s"; s.text += dl; put(lhs); s.text += dl;
                    int k = g.size(4);
                    std::string eff = lhs.empty() ? r.lhs : lhs;
                    for (int i = 0; i < k; ++i)
                        switch (g.weighted({6, 2, 1, 1}))
                        {
                        case 0: { std::string t(1, g.ch("abfx ./,")); put(t); rlit += t; break; }
                        case 1: s.text += "&"; rlit += eff; break;
                        case 2: s.text += "\\&"; rlit += "&"; break;
                        case 3: put("\xc3\xa9"); rlit += "\xc3\xa9"; break;
                        }
                    s.text += dl;
                    if (!lhs.empty()) r.lhs = lhs;
                    r.rhs = rlit;
                }
                if (s.err) break;
                if (r.lhs.empty()) { s.err = true; break; }
                if (how == "G" )
                {
                    // each word: only where words are plainly delimited by single spaces
                    if (v.find_first_not_of("abcdefghijklmnopqrstuvwxyz./\\-_=, 0123456789") != std::string::npos || r.lhs.find_first_of(" \t;&()|<>") != std::string::npos) g.discard();
                    if (v.find("  ") != std::string::npos || v.empty() || v[0] == ' ' || v.back() == ' ') g.discard();
                    std::string o; size_t i = 0; bool any = false;
                    while (i <= v.size())
                    {
                        size_t e = v.find(' ', i); if (e == std::string::npos) e = v.size();
                        std::string w = v.substr(i, e - i); size_t p = w.find(r.lhs);
                        if (p != std::string::npos) { w.replace(p, r.lhs.size(), r.rhs); any = true; }
                        o += (i ? " " : "") + w; i = e + 1;
                    }
                    if (!any) { s.err = true; break; }
                    v = o;
                }
                else
                {
                    size_t p = v.find(r.lhs);
                    if (p == std::string::npos) { s.err = true; break; }
                    bool glob = how == "g" || how == "a";
                    while (p != std::string::npos) { v.replace(p, r.lhs.size(), r.rhs); if (!glob) break; p = v.find(r.lhs, p + r.rhs.size()); }
                }
                if (how == "G") goto no_more;   // the flag stays for later substitutions of the same designator
                break;
            }
        }
        s.plain = false;
    }
no_more:
    if (quote && !s.err)
    {
        std::string o = "'";
        for (char c : s.value) { if (c == '\'') o += "'\\''"; else if (quote == 'x' && strchr(" \t\n", c)) { o += '\''; o += c; o += '\''; } else o += c; }
        s.value = o + "'";
    }
    return s;
}

static std::vector<std::string> raw_history() { std::vector<std::string> v; HIST_ENTRY** l = history_list(); for (int i = 0; i < history_length; ++i) v.push_back(l[i]->line); return v; }
static std::string show(const std::vector<HLine>& h) { std::string s; for (auto& l : h) s += (s.empty() ? "[" : " | ") + esc(l.text); return s + "]"; }
static const char* const c_modes[] = {"on", "not_squoted", "not_dquoted", "not_quoted"};

static void reset_subst(Ref& r)
{
    str<> out;
    s_db->clear(); s_db->load_rl_history(false);
    s_db->add("x"); s_db->load_rl_history(false);
    set("history.expand_mode", "on");
    s_db->expand("!!:s/x/y/", out);
    s_db->clear(); s_db->load_rl_history(false);
    r.lhs = "x"; r.rhs = "y";
}

PBT_PROP(C14, designators, 300000, 3000000, "the line has an expansion that is performed, with a word designator, a modifier or a search")
{
    Ref r; reset_subst(r);
    static const char* dupes[] = {"add", "ignore", "erase_prev"};
    int dupe = g.range(0, 2); set("history.dupe_mode", dupes[dupe]);
    auto add = [&]{
        HLine l = !r.hist.empty() && g.chance(25) ? g.pick(r.hist) : gen_line(g);
        if (l.text[0] == '|') return;
        auto it = std::find_if(r.hist.begin(), r.hist.end(), [&](const HLine& x) { return x.text == l.text; });
        if (it != r.hist.end()) { if (dupe == 1) return; if (dupe == 2) r.hist.erase(it); }
        r.hist.push_back(l); s_db->add(l.text.c_str());
    };
    for (int n = g.chance(5) ? 0 : 1 + g.size(5); n-- > 0;) add();
    int rounds = 1 + g.size(2);
    for (int round = 0; round < rounds; ++round)
    {
        if (round) { int k = g.range(0, 2); while (k-- > 0) add(); if (g.chance(20) && !r.hist.empty()) { size_t i = g.below(r.hist.size()); r.hist.erase(r.hist.begin() + i); s_db->load_rl_history(false); s_db->remove(int(i), ""); s_db->load_rl_history(false); } }
        // As before every edited line.
        if (!round || g.chance(70)) s_db->load_rl_history(false);
        else { auto raw = raw_history(); bool same = raw.size() == r.hist.size(); for (size_t i = 0; same && i < raw.size(); ++i) same = raw[i] == r.hist[i].text; if (!same) s_db->load_rl_history(false); }
        { auto raw = raw_history(); bool same = raw.size() == r.hist.size(); for (size_t i = 0; same && i < raw.size(); ++i) same = raw[i] == r.hist[i].text; g.check(same, "history is not as added: %s", show(r.hist).c_str()); }
        r.mode = g.range(1, 4); set("history.expand_mode", c_modes[r.mode - 1]);
        r.out.clear(); r.dq = r.sq = false; r.changed = 0; r.print = r.error = false; r.has_match = false; r.match.clear();
        std::string line; bool nt = false;
        int segs = 1 + g.size(4); std::string qlhs, qrhs;
        struct Part { std::string text; bool spec; };
        std::string pending; bool end = false;
        if (g.chance(8))
        {   // quick substitution
            if (r.hist.empty()) { r.error = true; }
            std::string v = r.hist.empty() ? "a" : r.hist.back().text;
            size_t b = g.below(v.size()); while (b && (v[b] & 0xc0) == 0x80) --b; std::string lhs = utf8_cut(v.substr(b), 1 + g.size(3));
            size_t q = lhs.find_first_of("^\"'!\\"); if (q != std::string::npos) lhs.resize(q);
            if (lhs.empty()) lhs = "zz";
            if (g.chance(10)) lhs += "q";
            std::string rhs = g.text("abx .", 3);
            line = "^" + lhs + "^" + rhs; if (segs > 1 || g.coin()) line += "^"; else end = true;
            r.lhs = lhs; r.rhs = rhs;
            size_t p = v.find(lhs);
            if (p == std::string::npos) r.error = true; else if (!r.error) { r.out = v.replace(p, lhs.size(), rhs); r.changed = 1; nt = true; }
            if (!end) { if (!r.error && !r.literal(" ", 'x')) g.discard(); line += " "; }
            g.label("quick");
        }
        bool need_space = false, after_spec = false;
        for (int i = 0; i < segs && !end; ++i)
        {
            if (g.chance(45))
            {
                if (need_space) { if (!r.error && !r.literal(" ", '!')) g.discard(); line += " "; need_space = false; }
                bool supp = !r.error && (r.suppressed());
                Ref save = r; bool last = false;
                Spec s = gen_spec(g, r, last);
                if (r.dq && s.text.size() > 1 && s.text[1] == '"') g.discard();
                if (last) { end = true; }
                line += s.text;
                if (!r.error)
                {
                    if (supp) { r = save; if (!r.literal(s.text, end || i + 1 == segs ? 0 : ' ')) g.discard(); g.label("suppressed"); if (!end) need_space = true; }
                    else if (s.err) { r.error = true; g.label("error"); }
                    else { r.out += s.value; ++r.changed; r.print |= s.print; if (s.text.size() > 2) nt = true; }
                }
                need_space = need_space || !(s.plain && g.coin());
                if (r.error) need_space = true;
                after_spec = true;
            }
            else
            {
                std::string t; int k = 1 + g.size(6);
                for (int j = 0; j < k; ++j)
                    switch (g.weighted({12, 2, 2, 2, 1, 1}))
                    {
                    case 0: t += g.ch("abfo xyz/.-"); break;
                    case 1: t += g.ch("'\""); break;
                    case 2: t += g.pick({"! ", "!=", "!\t"}); break;
                    case 3: t += g.pick({"&", "|", ">", "\\", "^", "%", "$", "(", ")"}); break;
                    case 4: t += g.pick({"\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"}); break;
                    case 5: if (r.dq) t += "!\""; break;
                    }
                if (t.empty()) t = "a";
                if (line.empty() && t[0] == '^') t = "a" + t;
                if (need_space || (after_spec && strchr("-^$%*:", t[0]))) t = " " + t;
                after_spec = false;
                need_space = false;
                if (!r.error && !r.literal(t, '!')) g.discard();
                line += t;
            }
        }
        if (g.chance(5) && !end) { line += need_space ? " !" : "!"; if (!r.error && !r.literal(need_space ? " !" : "!", 0)) g.discard(); }
        if (line[0] == '^' && r.changed == 0 && !r.error) g.discard();
        g.note("history %s mode %s line [%s] want %s[%s]\n", show(r.hist).c_str(), c_modes[r.mode - 1], esc(line).c_str(), r.error ? "error " : r.print ? "print " : "", esc(r.out).c_str());
        if (nt && !r.error && r.changed) g.nontrivial();

        str<> out; out = "stale";
        int ho = where_history();
        auto got = s_db->expand(line.c_str(), out);
        g.check(where_history() == ho, "the history position changed");
        { auto raw = raw_history(); bool same = raw.size() == r.hist.size(); for (size_t i = 0; same && i < raw.size(); ++i) same = raw[i] == r.hist[i].text; g.check(same, "expanding changed the history"); }
        int want = r.error ? -1 : r.print ? 2 : r.changed ? 1 : 0;
        g.check(int(got) == want, "[%s]: expand returned %d want %d, output [%s]", esc(line).c_str(), int(got), want, esc(out.c_str()).c_str());
        if (!r.error) g.check(r.out == out.c_str(), "[%s]: [%s] want [%s]", esc(line).c_str(), esc(out.c_str()).c_str(), esc(r.out).c_str());
        if (r.error && round + 1 < rounds)          // what was substituted before the error is not modelled
        {
            reset_subst(r); set("history.dupe_mode", "add");
            for (auto& l : r.hist) s_db->add(l.text.c_str());
            set("history.dupe_mode", dupes[dupe]); s_db->load_rl_history(false);
        }
    }
}

// Any text: no crash, no read or write outside, no change to the history, same result again.
PBT_PROP(C14, anyline, 300000, 4000000, "the line has an expansion")
{
    Ref r; reset_subst(r); set("history.dupe_mode", "add");
    for (int n = g.size(5); n-- > 0;) { HLine l = gen_line(g); if (l.text[0] == '|') continue; r.hist.push_back(l); s_db->add(l.text.c_str()); }
    s_db->load_rl_history(false);
    int mode = g.range(1, 4); set("history.expand_mode", c_modes[mode - 1]);
    std::string line; int k = g.size(14);
    if (g.chance(25)) { line = g.pick({"!!:s", "!!:gs", "!!:Gs", "!!:as", "!$:s"}); line += g.pick({"/", ",", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\", "&"}); k = g.size(5); }
    for (int i = 0; i < k; ++i)
        switch (g.weighted({6, 3, 3, 4, 1}))
        {
        case 0: line += g.ch("!:^$*%-?#sgGahtrepqx&/\\\"' ()<>|;0123456789"); break;
        case 1: line += g.pick({"!!", "!?", ":s/", ":s\xc3\xa9", ":gs/", ":p", "!#", ":h", ":0-", "$(", "`", "\\", "!!:G&", "^a^"}); break;
        case 2: if (!r.hist.empty()) { auto& t = g.pick(r.hist).text; size_t b = g.below(t.size()); while (b && (t[b] & 0xc0) == 0x80) --b; line += utf8_cut(t.substr(b), 1 + g.size(5)); break; }
        case 3: line += g.ch("abfo xyz."); break;
        case 4: line += g.pick({"\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"}); break;
        }
    bool ill = g.chance(5); if (ill) line.insert(g.below(line.size() + 1), g.pick({"\xc3", "\x80", "\xf0\x9f"}));
    g.note("history %s mode %s line [%s]\n", show(r.hist).c_str(), c_modes[mode - 1], esc(line).c_str());
    str<> out, out2; int ret;
    {
        GuardBuf b(line.size() + 1); memcpy(b.p(), line.c_str(), line.size() + 1);
        HeapGuard hg;
        ret = s_db->expand(b.p(), out);
        g.check(b.intact() && line == b.p(), "the input line was changed");
    }
    g.check(ret >= -1 && ret <= 2, "returned %d", ret);
    auto raw = raw_history(); bool same = raw.size() == r.hist.size(); for (size_t i = 0; same && i < raw.size(); ++i) same = raw[i] == r.hist[i].text; g.check(same, "expanding changed the history");
    if (ill) return;                             // not text: only that nothing breaks
    if (ret == 0) g.check(line == out.c_str(), "[%s] not expanded but became [%s]", esc(line).c_str(), esc(out.c_str()).c_str());
    if (line.find('!') == std::string::npos && line[0] != '^') g.check(ret == 0, "no designator but returned %d", ret);
    if (ret) g.nontrivial();
    bool subst = line.find('s') != std::string::npos || line.find('&') != std::string::npos || line[0] == '^';
    if (!subst) { int ret2 = s_db->expand(line.c_str(), out2); g.check(ret == ret2 && (ret < 0 || out.equals(out2.c_str())), "[%s]: again gave %d [%s], first %d [%s]", esc(line).c_str(), ret2, out2.c_str(), ret, out.c_str()); }
    // The reported pieces are those of the line that were replaced.
    if (!subst)
    {
        char* o = nullptr;
        save_history_expansion_state(); using_history(); history_return_expansions = 1;
        int ret3 = history_expand(line.c_str(), &o);
        restore_history_expansion_state();
        std::string whole = o ? o : ""; free(o);
        g.check(ret3 == ret, "asking for the pieces gave %d not %d", ret3, ret);
        std::string built; size_t at = 0; bool ok = true; int n = 0;
        for (history_expansion* p = history_expansions; p; p = p->next, ++n)
        {
            if (p->start < int(at) || p->len < 1 || size_t(p->start + p->len) > line.size()) { ok = false; break; }
            built += line.substr(at, p->start - at) + (p->result ? p->result : ""); at = p->start + p->len;
        }
        if (ok && ret >= 0) { built += line.substr(at); g.check(built == whole, "[%s]: pieces give [%s] want [%s]", esc(line).c_str(), esc(built).c_str(), esc(whole).c_str()); }
        g.check(ok, "[%s]: bad piece", esc(line).c_str());
        if (ret < 0) g.check(n == 0, "pieces after an error");
    }
}
