//: group=full with=editor.cpp with=crt_utf8.cpp lflags=-Wl,--wrap=_rl_get_screen_size
// C29 argument matchers.
#include "editor.h"
#include <core/str_compare.h>
#include <core/path.h>
#include <lib/matches.h>
#include <lib/word_classifier.h>
#include <lib/word_classifications.h>
#include <lua/lua_state.h>
#include <lua/lua_match_generator.h>
#include <lua/lua_word_classifier.h>
#include <set>
#include <memory>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
using namespace pbt;
extern bool g_direct_lua_fwrite; void set_test_harness();

static lua_state* s_lua; static lua_match_generator* s_gen; static lua_word_classifier* s_cls;
static void init()
{
    set_test_harness(); vf_editor_init();
    g_direct_lua_fwrite = true;
    s_lua = new lua_state; s_gen = new lua_match_generator(*s_lua); s_cls = new lua_word_classifier(*s_lua);
    settings::find("clink.colorize_input")->set("true");
    // Stands for everything that comes after the argument matchers (files and so on).
    s_lua->do_string("local g = clink.generator(25) function g:generate(ls, mb) vf_fallback = true return true end "
        "clink.argmatcher('vfchain'):addarg('red', 'green'..clink.argmatcher():addarg('light', 'dark')):addflags('-q'):nofiles()");
}
static struct Init { Init() { g_init = init; } } s_i;

struct Catch : public editor_module
{
    const matches* m = nullptr; const word_classifications* c = nullptr;
    void bind_input(binder&) override {} void on_begin_line(const context& x) override { m = &x.matches; c = &x.classifications; } void on_end_line() override {} void on_need_input(int32&) override {} void on_input(const input&, result&, const context&) override {} void on_matches_changed(const context&, const line_state&, const char*) override {} void on_terminal_resize(int32, int32, const context&) override {} void on_signal(int32) override {}
};

//---- definitions --------------------------------------------------------------------------
struct Entry { std::string text; int link = -1; bool table = false; };
struct Slot { std::vector<Entry> e; std::vector<std::string> fn; std::set<std::string> hidden; bool delay = false; };   // fn: what a function returns
struct M { std::vector<Slot> args; bool has_flags = false; Slot flags; int loop = 0; bool nofiles = false, anywhere = true, chain = false; std::string eof; std::set<char> prefix; };
static const char* const c_words[] = { "add", "abc", "app", "bee", "bar", "be", "cat", "cut", "Dog", "do", "spa ce", "x1", "2", "zed", "a-b", "na.me" };
static const char* const c_flags[] = { "-a", "-b", "--all", "--bee", "-x", "/x", "/yy", "--abc", "-1" };
// The argument matcher that commands can be chained to, declared in init().
static std::vector<M>& chained()
{
    static std::vector<M> v;
    if (v.empty()) { v.resize(2); M& a = v[0]; Entry r, n; r.text = "red"; n.text = "green"; n.link = 1; a.args.resize(1); a.args[0].e = { r, n }; Entry q; q.text = "-q"; a.flags.e = { q }; a.has_flags = true; a.prefix.insert('-'); a.nofiles = true; v[1].args.resize(1); Entry l, d; l.text = "light"; d.text = "dark"; v[1].args[0].e = { l, d }; }
    return v;
}
static const Entry* find(const Slot& s, const std::string& w) { for (auto& e : s.e) if (e.text == w) return &e; return nullptr; }
static Slot gen_slot(Gen& g, const char* const* pool, int npool, int self, int total, int maxn)
{
    Slot s; std::set<std::string> used;
    for (int n = g.size(maxn); n-- > 0;)
    {
        Entry e; e.text = pool[g.below(npool)];
        if (!used.insert(e.text).second) continue;
        if (g.chance(30) && self + 1 < total) e.link = self + 1 + g.below(total - self - 1);
        else if (g.chance(2)) e.link = self;
        else if (g.chance(15)) e.table = true;
        s.e.push_back(e);
    }
    for (auto& e : s.e) if (g.chance(8)) s.hidden.insert(e.text);
    return s;
}
static std::vector<M> gen_defs(Gen& g)
{
    int n = 1 + g.below(5); std::vector<M> v(n);
    for (int i = 0; i < n; ++i)
    {
        M& m = v[i];
        for (int k = g.below(4); k-- > 0;) { Slot s = gen_slot(g, c_words, _countof(c_words), i, n, 5); if (g.chance(15)) for (int q = 1 + g.below(3); q-- > 0;) { std::string w = c_words[g.below(_countof(c_words))]; if (!find(s, w) && !s.hidden.count(w)) s.fn.push_back(w); } if (g.chance(10) && s.fn.empty()) s.delay = true; m.args.push_back(s); }
        if (g.chance(50)) { m.flags = gen_slot(g, c_flags, _countof(c_flags), i, n, 4); m.has_flags = true; for (auto& e : m.flags.e) m.prefix.insert(e.text[0]); }
        if (!m.args.empty() && g.chance(15)) m.loop = g.coin() ? -1 : 1 + g.below(int(m.args.size()));
        m.nofiles = g.chance(20);
        if (i == 0 && !m.loop && g.chance(15)) m.chain = m.nofiles = true;
        if (m.has_flags && g.chance(15)) m.anywhere = false;
        if (m.has_flags && g.chance(15)) { m.eof = g.coin() ? "--" : "-end"; m.prefix.insert('-'); }
    }
    return v;
}
static std::string lq(const std::string& s) { return "'" + s + "'"; }
static std::string entry(Gen& g, const Entry& e) { if (e.link >= 0) return lq(e.text) + "..m" + std::to_string(e.link); return e.table ? "{ match=" + lq(e.text) + (g.coin() ? ", type='word' }" : " }") : lq(e.text); }
static std::string list(Gen& g, const Slot& s, bool opts)
{
    std::string r; bool nest = false;
    for (auto& e : s.e)
    {
        r += r.empty() ? "" : ", ";
        bool t = g.chance(12);
        if (e.link >= 0 && e.link != -2 && t) r += "{" + lq(e.text) + "}..m" + std::to_string(e.link);
        else r += t ? "{ " + entry(g, e) + " }" : entry(g, e);
        nest |= t;
    }
    if (!s.fn.empty()) { std::string f; for (auto& w : s.fn) f += (f.empty() ? "" : ", ") + lq(w); r += (r.empty() ? "" : ", ") + std::string("function() return { " + f + " } end"); }
    if (opts && !s.hidden.empty()) { std::string h; for (auto& w : s.hidden) h += (h.empty() ? "" : ", ") + lq(w); r = "{ " + r + (r.empty() ? "" : ", ") + "hide={ " + h + " } }"; }
    return r;
}
static std::string script(Gen& g, const std::vector<M>& v, const std::string& cmd)
{
    std::string s;
    for (int i = int(v.size()) - 1; i >= 0; --i)
    {
        const M& m = v[i]; std::string me = "m" + std::to_string(i);
        s += "local " + me + " = clink.argmatcher(" + (i ? "" : lq(cmd)) + ")\n";
        auto flags = [&] {
            if (!m.has_flags) return;
            bool hidef = !m.flags.hidden.empty() && g.coin();
            bool early = hidef && g.coin();
            auto hide = [&] { std::string h; for (auto& w : m.flags.hidden) h += (h.empty() ? "" : ", ") + lq(w); s += me + ":hideflags(" + h + ")\n"; };
            if (early) hide();
            size_t half = g.chance(25) ? m.flags.e.size() / 2 : 0;
            if (half) { Slot a, b; a.e.assign(m.flags.e.begin(), m.flags.e.begin() + half); b = m.flags; b.e.erase(b.e.begin(), b.e.begin() + half); s += me + ":addflags(" + list(g, a, false) + ")\n" + me + ":addflags(" + list(g, b, !hidef) + ")\n"; }
            else s += me + ":addflags(" + list(g, m.flags, !hidef) + ")\n";
            if (hidef && !early) hide();
        };
        bool first = g.coin(), parts = i == 0 && g.chance(20);
        std::string more;
        if (first) flags();
        for (auto& whole : m.args)
        {
            Slot a = whole;
            if (parts)
            {
                // The rest of the choices are added by a second declaration.
                Slot b; size_t half = a.e.size() / 2; if (a.delay) half = a.e.size();
                b.e.assign(a.e.begin() + half, a.e.end()); a.e.resize(half);
                more += ":addarg(" + list(g, b, false) + ")";
            }
            if (a.delay) s += me + ":addarg({ delayinit=function() return { " + list(g, a, false) + " } end" + [&] { std::string h; if (!a.hidden.empty()) { for (auto& w : a.hidden) h += (h.empty() ? "" : ", ") + lq(w); h = ", hide={ " + h + " }"; } return h; }() + " })\n";
            else if (!a.e.empty() && a.fn.empty() && a.hidden.empty() && g.chance(20)) s += me + "({ " + list(g, a, false) + " })\n";      // shorthand
            else if (g.chance(20)) s += me + ":addargunsorted(" + list(g, a, true) + ")\n";
            else s += me + ":addarg(" + list(g, a, true) + ")\n";
        }
        if (!first) flags();
        if (m.loop) s += me + ":loop(" + (m.loop > 0 ? std::to_string(m.loop) : "") + ")\n";
        if (m.nofiles && !m.chain) s += me + ":nofiles()\n";
        if (m.chain) s += me + ":chaincommand(" + g.pick({ "", "", "'cmd'", "'start'", "'run'" }) + ")\n";
        if (!m.anywhere) s += me + ":setflagsanywhere(false)\n";
        if (parts) { std::string t = cmd; if (g.coin()) t[0] = 'K'; s += "clink.argmatcher(" + lq(t) + ")" + more + "\n"; }
        if (!m.eof.empty()) s += me + ":setendofflags(" + (m.eof == "--" ? g.pick({ "", "true", "'--'" }) : lq(m.eof).c_str()) + ")\n";
    }
    return s;
}

static std::string lower(std::string s) { for (auto& c : s) c = char(tolower((unsigned char)c)); return s; }

//---- the model ----------------------------------------------------------------------------
// A frame is a matcher and the position of the next argument in it.
struct Frame { const M* m; int idx; bool noflags; };
struct Model
{
    const std::vector<M>* v; std::vector<Frame> st;
    Model(const std::vector<M>& x) : v(&x) { st.push_back({ &x[0], 0, false }); }
    bool none = false;      // in a chained command that has no argument matcher
    Frame& cur() { return st.back(); }
    bool flagish(const std::string& w) { return !w.empty() && cur().m->prefix.count(w[0]); }
    // Leaves linked matchers that have nothing left for the next word.
    void leave(bool next_flag, bool always)
    {
        // A matcher with :nofiles() is a dead end.
        if (always) { if (st.size() == 1 || cur().m->nofiles) return; st.pop_back(); }
        while (st.size() > 1)
        {
            const Frame& f = cur();
            if (f.m->loop || (next_flag && f.m->has_flags) || f.idx < int(f.m->args.size())) return;
            if (f.m->args.empty() && f.m->has_flags && f.idx == 0) return;
            if (f.m->nofiles) return;
            st.pop_back();
        }
    }
    // Consumes a word; returns its class.
    char word(const std::string& w, const std::string& next, bool last, bool next_last)
    {
        if (none) return 0;
        bool flag = !cur().noflags && cur().m->has_flags && flagish(w) && (w.size() > 1 || last);
        if (flag)
        {
            const Entry* e = find(cur().m->flags, w); char c = e ? 'f' : 'o';
            bool nf = next_flag(next, next_last);
            if (!cur().m->eof.empty() && w == cur().m->eof) { cur().noflags = true; c = 'f'; }
            if (e && e->link >= 0) st.push_back({ &(*v)[e->link], 0, false });
            else leave(nf, false);
            return c;
        }
        if (!cur().m->anywhere) cur().noflags = true;
        Frame& f = cur(); const M* m = f.m;
        bool nf = next_flag(next, next_last);
        const Slot* slot = f.idx < int(m->args.size()) ? &m->args[f.idx] : nullptr;
        ++f.idx;
        if (f.idx >= int(m->args.size()))
        {
            if (m->loop) f.idx = std::min(std::max(m->loop, 1), int(m->args.size())) - 1;
            else if (!nf) leave(nf, true);
        }
        if (!slot && m->chain)
        {
            // The word is a command.
            st.clear(); if (lower(w) == "vfchain") { v = &chained(); } else none = true;
            st.push_back({ &(*v)[0], 0, false });
            return '?';
        }
        if (!slot) return m->nofiles ? 'n' : 'o';
        const Entry* e = find(*slot, w);
        if (e && e->link >= 0) st.push_back({ &(*v)[e->link], 0, false });
        return e ? 'a' : 'o';
    }
    bool next_flag(const std::string& next, bool next_last) { return !cur().noflags && !next.empty() && cur().m->prefix.count(next[0]) && (next.size() > 1 || next_last); }
};

//---- lines --------------------------------------------------------------------------------
struct W { std::string text; bool quoted = false, redir = false; int cls = 0; };
// Candidates for the next word, as the model has it (hidden ones too).
static std::vector<std::string> likely(Gen& g, Model& md)
{
    std::vector<std::string> r; Frame& f = md.cur(); const M* m = f.m;
    if (m->chain && f.idx >= int(m->args.size()) && g.chance(80)) return { "vfchain", "vfchain", "Vfchain", "other" };
    if (f.idx < int(m->args.size())) { for (auto& e : m->args[f.idx].e) for (int k = e.link >= 0 ? 2 : 1; k--;) r.push_back(e.text); for (auto& s : m->args[f.idx].fn) r.push_back(s); }
    if (m->has_flags && (r.empty() || g.chance(40))) { if (g.coin()) r.clear(); for (auto& e : m->flags.e) r.push_back(e.text); if (!m->eof.empty()) r.push_back(m->eof); }
    return r;
}
static std::string pick_word(Gen& g, Model& md)
{
    auto c = likely(g, md);
    if (!c.empty() && g.chance(85)) return c[g.below(int(c.size()))];
    return g.chance(35) ? c_flags[g.below(_countof(c_flags))] : g.chance(85) ? c_words[g.below(_countof(c_words))] : g.pick({ "garbage", "-", "--", "/", "-q" });
}
static int s_ncmd = 0;
static const char c_cls[] = "ouxcdafn";
static bool run_case(Gen& g, const std::vector<M>& v, const std::string& cmd)
{
    // The words; the last one is what is being typed.
    Model md(v); std::vector<W> ws; int n = g.size(7); bool links = false; size_t depth = 0;
    std::string ahead; bool have = false;
    for (int i = 0; i < n; ++i)
    {
        // The word after this one can matter, so it's chosen first; what the model expects for it is only a guess then.
        W w; w.text = have ? ahead : pick_word(g, md); have = false;
        ws.push_back(w); Model t = md; t.word(w.text, "", false, false);
        ahead = pick_word(g, t); have = true;
        md.word(w.text, ahead, false, false);
        depth = std::max(depth, md.st.size());
    }
    std::string last = have && g.chance(50) ? ahead : pick_word(g, md);
    int how = g.below(4);
    if (how < 2) last = ""; else if (how == 2) last.resize(g.below(int(last.size()) + 1));
    for (int k = int(last.size()); k-- > 0;) if (last[k] == ' ') { last.resize(k); break; }
    // The same words again now that all are known.
    md = Model(v);
    for (size_t i = 0; i < ws.size(); ++i)
    {
        bool nl = i + 1 == ws.size(); std::string next = nl ? last : ws[i + 1].text;
        size_t before = md.st.size();
        md.word(ws[i].text, next, false, nl);
        if (md.st.size() < before || md.st.size() > 1) links = true;
    }
    // For colors there is no empty word at the end.
    Model mc(v); std::vector<std::string> cw; for (auto& w : ws) cw.push_back(w.text); if (!last.empty()) cw.push_back(last);
    std::string want_c; for (size_t i = 0; i < cw.size(); ++i) { char k = mc.word(cw[i], i + 1 < cw.size() ? cw[i + 1] : "", i + 1 == cw.size(), i + 2 == cw.size()); if (k) want_c += k; }
    std::string line = g.chance(15) ? g.pick({ "x & ", "echo foo&", "dir | ", "abc -a && ", ">out ", "2>&1 " }) : "";
    { std::string t = cmd; if (g.chance(10)) for (auto& c : t) c = char(toupper((unsigned char)c)); switch (g.below(12)) { case 0: t += ".exe"; break; case 1: t = "\"" + t + "\""; break; case 2: t = "sub\\" + t; break; case 3: t = "c:\\some\\" + t + ".EXE"; break; } line += t; }
    for (size_t i = 0; i < ws.size(); ++i)
    {
        line += g.chance(10) ? "  " : " ";
        if (g.chance(4)) line += g.pick({ ">out ", "2>nul ", "<in ", "> out ", "2>&1 " });
        bool q = ws[i].text.find(' ') != std::string::npos || g.chance(12);
        line += q ? "\"" + ws[i].text + "\"" : ws[i].text;
    }
    line += " ";
    bool oq = !last.empty() && g.chance(8); if (oq) line += "\"";
    line += last;
    g.note("%s", line.c_str());

    // What is expected.
    std::set<std::string> want; bool fallback = false;
    Frame f = md.cur(); const M* m = f.m;
    bool at_cmd = m->chain && f.idx >= int(m->args.size());        // a chained command is being typed
    if (md.none) fallback = true;
    else if (!f.noflags && m->has_flags && md.flagish(last)) { for (auto& e : m->flags.e) if (!m->flags.hidden.count(e.text)) want.insert(e.text); }
    else if (f.idx < int(m->args.size())) { auto& s = m->args[f.idx]; for (auto& e : s.e) if (!s.hidden.count(e.text)) want.insert(e.text); for (auto& w : s.fn) want.insert(w); }
    else fallback = !(m->nofiles || (m->args.empty() && !m->has_flags));
    for (auto it = want.begin(); it != want.end();) if (lower(*it).compare(0, last.size(), lower(last)) != 0) it = want.erase(it); else ++it;

    str_compare_scope cs(str_compare_scope::caseless, false);
    vf_editor e; Catch c;
    e.ed()->set_generator(*s_gen); e.ed()->set_classifier(*s_cls); e.ed()->add_module(c);
    e.begin(); e.feed(line);
    s_lua->do_string("vf_fallback = nil");
    e.ed()->update_matches();
    lua_State* L = s_lua->get_state(); lua_getglobal(L, "vf_fallback"); bool fb = lua_toboolean(L, -1); lua_pop(L, 1);
    std::set<std::string> got; if (c.m) for (matches_iter it = c.m->get_iter(); it.next();) got.insert(it.get_match());
    auto show = [](const std::set<std::string>& s) { std::string r; for (auto& x : s) r += " <" + x + ">"; return r; };
    if (at_cmd && want.empty()) ;
    else if (got != want) return g.fail("matches:%s expected:%s", show(got).c_str(), show(want).c_str()), false;
    else if (fb != fallback) return g.fail(fb ? "files are offered though the argument matcher has an answer" : "files are not offered though the argument matcher has no answer"), false;
    // Colors.
    const word_class_infos* infos = nullptr; auto* all = c.c ? c.c->get_test_infos() : nullptr;
    if (!all) return g.fail("no classifications"), false;
    infos = all;
    std::string got_c;
    
    bool started = false;
    for (auto& i : *infos) { if (i.word_class == word_class::invalid) continue; if (i.argmatcher && !started) { got_c.clear(); started = true; continue; } got_c += c_cls[int(i.word_class)]; }
    if (last.empty() && got_c.size() == want_c.size() + 1) got_c.pop_back();
    for (size_t i = 0; i < want_c.size() && i < got_c.size(); ++i) if (want_c[i] == '?') got_c[i] = '?';
    if (got_c != want_c) return g.fail("words are classified %s expected %s", got_c.c_str(), want_c.c_str()), false;
    if (links && ws.size() >= 3 && (!want.empty() || fallback)) g.nontrivial();
    g.label(want.empty() ? fallback ? "files" : "nothing" : "matches");
    if (md.st.size() > 1) g.label("in a linked matcher");
    return true;
}
PBT_PROP(C29, walk, 6000, 150000, "at least 3 words before the one being typed, through a linked argument matcher, with matches or files offered")
{
    auto v = gen_defs(g);
    std::string cmd = "kcmd" + std::to_string(++s_ncmd);
    std::string s = script(g, v, cmd);
    g.note("%s", s.c_str());
    std::string err; 
    { lua_State* L = s_lua->get_state(); int top = lua_gettop(L); if (luaL_dostring(L, s.c_str())) { std::string t = lua_tostring(L, -1) ? lua_tostring(L, -1) : "?"; lua_settop(L, top); return g.fail("the declaration failed: %s", t.c_str()); } lua_settop(L, top); }
    for (int k = 1 + g.below(3); k--;) if (!run_case(g, v, cmd)) return;
}
