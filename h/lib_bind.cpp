//: group=full
// C24 key bindings.
#include <core/base.h>
#include <core/str.h>
#include <lib/editor_module.h>
#include "binder.h"
#include "bind_resolver.h"
using namespace pbt;

// A chord is a sequence of keys; c_num stands for a number (one or more digits).
static const char c_num = '\x01';
struct Bind { int group; std::string chord; int module, id; int order; };
enum { act_claim, act_pass };
struct Act { int what; int group; };

static std::string key_name(char c) { return c == '\x1b' ? "\\e" : c == c_num ? "*" : std::string(1, c); }

struct Model
{
    std::vector<Bind> binds;
    std::map<int, std::set<std::string>> pre;          // prefixes of the chords of each group
    void index() { for (auto& b : binds) for (size_t i = 0; i <= b.chord.size(); ++i) pre[b.group].insert(b.chord.substr(0, i)); }
    bool has_child(int g, const std::string& p) { auto& s = pre[g]; auto i = s.upper_bound(p); return i != s.end() && i->compare(0, p.size(), p) == 0; }
    // Follows keys; path holds the consumed key count of each depth; returns whether it stopped (a leaf or a mismatch).
    bool walk(int g, const std::string& keys, std::string& at, std::vector<size_t>& used, std::vector<unsigned>& nums)
    {
        at.clear(); used.assign(1, 0); nums.clear(); bool num = false; unsigned n = 0;
        for (size_t i = 0; i < keys.size(); ++i)
        {
            char k = keys[i]; bool dig = k >= '0' && k <= '9';
            if (num && dig) { n = (n * 10 + (k - '0')) & 0xffff; used.back() = i + 1; continue; }
            std::string nx = at + k;
            if (pre[g].count(nx)) { if (num) nums.push_back(n); num = false; n = 0; at = nx; used.push_back(i + 1); }
            else if (dig && pre[g].count(at + c_num)) { at += c_num; num = true; n = k - '0'; used.push_back(i + 1); }
            else return true;
            if (!has_child(g, at)) return true;
        }
        return false;
    }
};

// Known finding: a handler bound to the same chord again is invoked again (the intended check for it never runs).
static bool dup_invokes_twice()
{
    static int r = -1;
    if (r < 0)
    {
        static int mod; std::unique_ptr<binder> b(new binder); int n = 0;
        for (int i = 0; i < 2; ++i) b->bind(b->get_group(), "a", *(editor_module*)&mod, 1);
        bind_resolver br(*b); br.step('a');
        while (auto bd = br.next()) ++n;
        r = n == 2;
    }
    return r == 1;
}

PBT_PROP(C24, chords, 400000, 4000000, "a chord of two or more keys is invoked and another handler ran before or after it in the same stream")
{
    auto* bp = new binder; std::unique_ptr<binder> hold(bp);
    binder& b = *bp; Model m;
    static int mods[6];
    int ng = 1 + g.size(2);
    std::vector<int> groups = {b.get_group()};
    for (int i = 1; i < ng; ++i) { std::string n = "grp" + std::to_string(i); groups.push_back(b.create_group(n.c_str())); g.check(groups.back() > 0 && b.get_group(n.c_str()) == groups.back(), "group %d", i); }
    std::map<std::pair<int,int>, Act> acts;
    int nb = 1 + g.size(9); std::string desc;
    static const std::vector<std::string> param_tails = {std::string("$\x01;\x01L", 5), std::string("$\x01;\x01M", 5), std::string("$\x01" "A", 3), std::string("$\x01;\x01", 4) + "b", std::string("$\x01" "c", 3)};
    for (int i = 0; i < nb; ++i)
    {
        Bind x; x.group = int(g.below(groups.size())); x.module = int(g.below(4)); x.id = int(g.below(6)); x.order = i;
        if (!m.binds.empty() && g.chance(20)) x.chord = g.pick(m.binds).chord;
        else if (g.chance(12)) x.chord = "";
        else if (g.chance(20)) x.chord = (g.coin() ? "\x1b[" : "") + g.pick(param_tails);
        else
        {
            if (!m.binds.empty() && g.chance(35)) { x.chord = g.pick(m.binds).chord; size_t c = x.chord.find(c_num); if (c != std::string::npos) x.chord.resize(c); x.chord.resize(std::min<size_t>(x.chord.size(), g.below(x.chord.size() + 1))); }
            int n = 1 + g.size(4); while (n-- > 0) x.chord += g.ch("abc\x1b[");
            if (x.chord.size() > 14) x.chord.resize(14);
        }
        if (x.chord == "\x1b") x.chord = "\x1b[";       // a lone Esc denotes the configured Esc sequence
        bool param = x.chord.find(c_num) != std::string::npos;
        // As a bind string: control characters in one of their notations.
        std::string spec;
        for (char c : x.chord)
            if (c == c_num) spec += '*';
            else if (c == '\x1b') spec += g.pick({"\\e", "\x1b", "\\C-[", "^["});
            else if (c == 'a' && g.chance(10)) spec += "\\a";
            else spec += c;
        bool dup = false; for (auto& y : m.binds) dup |= y.group == x.group && y.chord == x.chord && y.module == x.module && y.id == x.id;
        bool ok = b.bind(groups[x.group], spec.c_str(), *(editor_module*)&mods[x.module], uint8(x.id), param);
        g.check(ok, "bind [%s] failed", esc(spec).c_str());
        desc += "g" + std::to_string(x.group) + " "; for (char c : x.chord) desc += key_name(c); desc += "=" + std::to_string(x.module) + "/" + std::to_string(x.id) + (dup ? " again" : "") + "  ";
        if (dup && dup_invokes_twice()) { pbt::known("bound-twice"); dup = false; }
        if (!dup) m.binds.push_back(x);
        auto key = std::make_pair(x.module, x.id);
        if (!acts.count(key))
        {
            Act a = {g.chance(25) ? act_pass : act_claim, -1};
            if (ng > 1 && g.chance(25)) a.group = int(g.below(ng));
            acts[key] = a; desc += a.what == act_pass ? "(pass" : "("; if (a.group >= 0) desc += ">g" + std::to_string(a.group); desc += ") ";
        }
    }
    m.index();
    // The stream.
    std::string keys; int parts = 1 + g.size(6);
    for (int i = 0; i < parts; ++i)
    {
        if (g.chance(65))
        {
            std::string c = g.pick(m.binds).chord;
            for (char k : c) if (k == c_num) keys += std::to_string(g.coin() ? g.below(10) : g.below(1000)); else keys += k;
            if (g.chance(15) && !keys.empty()) keys.pop_back();
        }
        else { int n = 1 + g.size(3); while (n-- > 0) keys += g.ch("abc\x1b[x$1;L5A"); }
    }
    g.note("bindings %s\nkeys %s\n", desc.c_str(), esc(keys).c_str());

    bind_resolver r(b);
    std::string P; int G = 0; int calls = 0, longc = 0;
    std::vector<std::string> got, want;
    for (size_t ki = 0; ki < keys.size(); ++ki)
    {
        char k = keys[ki];
        // Model.
        want.clear(); bool stop;
        if (P.size() >= 16) { P.clear(); stop = false; }
        else
        {
            P += k; std::string at; std::vector<size_t> used; std::vector<unsigned> nums;
            stop = m.walk(G, P, at, used, nums);
        }
        int G0 = G; int budget = 40; bool endless = false;
        if (stop)
        {
            size_t tail = 0;
            while (tail < P.size())
            {
                std::string rem = P.substr(tail), at; std::vector<size_t> used; std::vector<unsigned> nums;
                m.walk(G, rem, at, used, nums);
                bool again = false, any = false;
                for (int d = int(at.size()); d >= 0 && !again; --d)
                    for (auto& x : m.binds)
                    {
                        if (x.group != G || x.chord != at.substr(0, d)) continue;
                        if (--budget < 0) { endless = true; break; }
                        size_t len = d ? used[d] : 1;
                        std::string w = std::to_string(x.module) + "/" + std::to_string(x.id) + " " + esc(rem.substr(0, len));
                        std::vector<unsigned> ps; { size_t want_n = std::count(x.chord.begin(), x.chord.end(), c_num); for (size_t i = 0; i < want_n && i < nums.size(); ++i) ps.push_back(nums[i]); }
                        for (unsigned v : ps) w += " " + std::to_string(v);
                        w += rem.size() > len ? " more" : "";
                        want.push_back(w); any = true; ++calls; if (len > 1) ++longc;
                        Act a = acts[{x.module, x.id}];
                        if (a.what == act_claim) { if (a.group >= 0) G = a.group; tail += len; again = true; break; }
                        if (a.group >= 0 && a.group != G) { G = a.group; again = true; break; }
                    }
                if (endless || !again) break;
                (void)any;
            }
            P.clear();
        }
        if (endless) g.discard();                    // handlers that hand a key back and forth
        // The real thing, as line_editor_impl::update_input() does it.
        got.clear();
        g.check(r.get_group() == groups[G0], "key %d: group %d want %d", int(ki), r.get_group(), groups[G0]);
        bool s = r.step(uint8(k));
        g.check(s == stop, "key %d [%s]: step returned %d want %d", int(ki), key_name(k).c_str(), s, stop);
        if (s) while (auto bd = r.next())
        {
            str<16> chord; int group = r.get_group();
            bd.get_chord(chord);
            int mod = int((int*)bd.get_module() - mods), id = bd.get_id();
            std::string w = std::to_string(mod) + "/" + std::to_string(id) + " " + esc(std::string(chord.c_str(), chord.length()));
            for (uint32 i = 0, v; bd.get_params().get(i, v); ++i) w += " " + std::to_string(v);
            w += r.more_than(chord.length()) ? " more" : "";
            got.push_back(w);
            if (got.size() > want.size() + 3) break;
            Act a = acts[{mod, id}];
            if (a.group >= 0) group = groups[a.group];
            r.set_group(group);
            if (a.what == act_pass) continue;
            bd.claim();
        }
        std::string sg, sw; for (auto& x : got) sg += "(" + x + ")"; for (auto& x : want) sw += "(" + x + ")";
        g.check(sg == sw, "key %d [%s]: invoked %s want %s", int(ki), key_name(k).c_str(), sg.c_str(), sw.c_str());
    }
    if (longc && calls > longc) g.nontrivial();

    // What is bound.
    for (int gi = 0; gi < ng; ++gi)
    {
        bool root = false; int rid = 0; for (auto& x : m.binds) if (x.group == gi && x.chord.empty()) { if (!root) rid = x.id; root = true; }
        r.set_group(groups[gi]);
        for (auto& x : m.binds)
            if (x.group == gi && !x.chord.empty() && x.chord.find(c_num) == std::string::npos && !m.has_child(gi, x.chord))
                g.check(r.is_bound(x.chord.c_str(), int(x.chord.size())) == 1, "bound chord not reported");
        if (m.pre.count(gi)) for (const char* s : {"x", "\x1bOz", "\x7f", "\x05"})
            if (!m.pre[gi].count(std::string(s, 1)))
            {
                bool ctrl = s[0] != 'x'; int want1 = !root ? 0 : ctrl ? 0 : 1;
                (void)rid;
                g.check(r.is_bound(s, int(strlen(s))) == want1, "unbound keys [%s] reported %d", esc(s).c_str(), r.is_bound(s, int(strlen(s))));
            }
    }
}
