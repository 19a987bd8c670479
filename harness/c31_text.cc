// C31: the text view of a causal tree, asked for from a replica.
#include "visx.hpp"
#include "replx.hpp"
using mc::Gen;
using px::Rep;
using rdtref::Ops;
using ref::Op;
using ref::U;
namespace ref { using Cps = decltype(ref::A().s); }

static const uint64_t A_ = rdtref::event(0, "A").o, B_ = rdtref::event(0, "B").o;
struct Host {
    sx::Dir dir;
    unique_ptr<Rep> rep;
    uint64_t base{64};  // ids are given out from here
    string open() { rep.reset(new Rep); ron::Status ok = rep->Open(); mc::transition(); return ok ? "" : "the replica does not open: " + ok.str(); }
    string init() {
        ron::Status ok = Rep::CreateReplica();
        if (!ok) return "no replica: " + ok.str();
        string e = open();
        if (!e.empty()) return e;
        ok = rep->CreateBranch(yarn(), true);
        if (!ok) return "no branch: " + ok.str();
        string got;
        return receive("@0000000001+A :yarn;\n@0000000001+B :yarn;\n", got);
    }
    static ron::Word yarn() { return ron::Word{rdtref::event(0, "test").o & ref::M60}; }
    string receive(const string& s, string& got) {
        rx::Builder resp;
        ron::Status ok = rep->ReceiveFrame(resp, rx::Frame{s}, yarn());
        mc::transition();
        got = resp.Release().data();
        return ok ? "" : "refused: " + ok.str() + ": " + s;
    }
};
static U derived(U u) { u.o = (u.o & ref::M60) | (uint64_t(3) << 60); return u; }
static string ask(U root) { return "@" + ref::text(derived(root)) + " :txt ?\n"; }
// the answers to these roots' queries
static string judge(const vector<pair<U, ref::Cps>>& want, const string& got, const string& what) {
    string bad;
    Ops ops = sx::ops_of(got, bad), w;
    for (auto& p : want) w.push_back(sx::op(derived(p.first), rdtref::name("txt"), {S("")})), w.back().a[0].s = p.second;
    if (bad.empty()) bad = rx::diff(w, ops, false);
    return bad.empty() ? "" : what + ": the text: " + bad + " in " + got;
}
// a tree: its ops in the order of their ids
struct Tree {
    vector<int> par;
    string kind;
    Ops ops;
    U root() const { return ops[0].id; }
    void make(uint64_t base, int scheme) {
        for (size_t i = 0; i < kind.size(); i++) {
            Op o = make_op(kind[i], int(i), scheme);
            o.id.v += base;
            o.ref = i ? ops[size_t(par[i])].id : rdtref::name("rga");
            ops.push_back(o);
        }
    }
    // of the first n ops
    ref::Cps text(size_t n) const {
        Ops some(ops.begin(), ops.begin() + long(n));
        vector<bool> hide = hidden(vector<int>(par.begin(), par.begin() + long(n)), kind.substr(0, n));
        map<U, size_t> idx;
        for (size_t i = 0; i < n; i++) idx[some[i].id] = i;
        ref::Cps s;
        for (auto& o : rdtref::weave(some)) {
            size_t i = idx[o.id];
            if (!hide[i] && !o.a.empty() && o.a[0].t == ref::STR) s.insert(s.end(), o.a[0].s.begin(), o.a[0].s.end());
        }
        return s;
    }
    string show() const { return rdtx::plain(ops).data(); }
};
// writes of one op each in a frame, asked between; or all in one
static string run(Host& h, const Tree& t, int how) {
    string got, e, all;
    vector<pair<U, ref::Cps>> want;
    for (size_t i = 0; i < t.ops.size(); i++) {
        string one = rdtx::plain({t.ops[i]}, true).data();
        bool last = i + 1 == t.ops.size();
        if (how == 0) {                                     // one frame, asked at the end
            all += one;
            if (!last) continue;
            e = h.receive(all, got);
            if (e.empty()) e = got.empty() ? h.receive(ask(t.root()), got) : "an answer to no query";
            if (e.empty()) e = judge({{t.root(), t.text(i + 1)}}, got, "after " + t.show());
        } else if (how == 1) {                              // asked after each
            e = h.receive(one, got);
            if (e.empty()) e = h.receive(ask(t.root()), got);
            if (e.empty()) e = judge({{t.root(), t.text(i + 1)}}, got, "after " + to_string(i + 1) + " of " + t.show());
        } else {                                            // asked after each, all in one frame
            all += one + ask(t.root());
            want.push_back({t.root(), t.text(i + 1)});
            if (!last) continue;
            e = h.receive(all, got);
            if (e.empty()) e = judge(want, got, "in the frame of " + t.show());
        }
        if (!e.empty()) return e;
    }
    return "";
}
// "parents kinds scheme how": all words of these kinds
static string check_trees(const string& c) {
    auto w = mc::split(c, ' ');
    int n = int(w[0].size()) + 1, scheme = stoi(w[2]), how = stoi(w[3]);
    Host h;
    string e = h.init();
    vector<pair<U, ref::Cps>> all;
    mc::words(int(w[1].size()), n - 1, [&](const vector<int>& v) {
        if (!e.empty()) return;
        Tree t;
        t.kind = "!";
        t.par = {-1};
        for (int i = 1; i < n; i++) { t.kind += w[1][size_t(v[size_t(i - 1)])]; t.par.push_back(w[0][size_t(i - 1)] - '0'); }
        t.make(h.base, scheme);
        h.base += 64 * uint64_t(n + 2);
        all.push_back({t.root(), t.text(size_t(n))});
        mc::trace(); mc::state(w[0] + t.kind + w[2]);
        if (t.kind.find('r') != string::npos) mc::nontrivial();
        e = run(h, t, how);
    });
    if (!e.empty()) return e;
    // all again, after a reopening, one hundred in a frame
    h.rep->Close();
    e = h.open();
    for (size_t i = 0; i < all.size() && e.empty(); i += 100) {
        vector<pair<U, ref::Cps>> some(all.begin() + long(i), all.begin() + long(min(all.size(), i + 100)));
        string q, got;
        for (auto& p : some) q += ask(p.first);
        e = h.receive(q, got);
        if (e.empty()) e = judge(some, got, "after a reopening");
    }
    return e;
}
static const vector<ref::Cps>& strings() {
    static vector<ref::Cps> v{{}, {'a'}, {'b', 'c'}, {'\''}, {'\\'}, {'\n'}, {'\t', 'x'}, {'"'}, {0x7f}, {0x80}, {0x7ff}, {0x800}, {0xffff}, {0x10000}, {0x10ffff}, {0x20ac, '\'', 0x1f600}, {'u'}, {'\\', 'n'}, {' '}, {1}, ref::Cps(70, 'z'), ref::Cps(300, 0x20ac)};
    return v;
}
// "i j k": three elements of these values
static string check_values(const string& c) {
    auto w = mc::split(c, ' ');
    Host h;
    string e = h.init();
    for (size_t k = 0; k < strings().size() + 4 && e.empty(); k++) for (int how = 0; how < 3 && e.empty(); how++) {
        Tree t;
        t.kind = "!eee";
        t.par = {-1, 0, 1, how == 1 ? 1 : 2};
        t.make(h.base, 0);
        h.base += 256;
        size_t x[] = {size_t(stoi(w[0])), size_t(stoi(w[1])), k};
        for (int i = 0; i < 3; i++) {
            auto& a = t.ops[size_t(i + 1)].a;
            size_t n = strings().size();
            if (x[i] < n) a[0].s = strings()[x[i]];
            else if (x[i] == n) a = {I(7)};
            else if (x[i] == n + 1) a = {ref::F(0.5)};
            else if (x[i] == n + 2) a = {Q(rdtref::name("abc"))};
            else a.clear();
        }
        mc::trace(); mc::state(c + " " + to_string(k)); mc::nontrivial();
        e = run(h, t, how);
    }
    return e;
}
// "n shape kinds scheme": a big one
static string check_scale(const string& c) {
    auto w = mc::split(c, ' ');
    int n = stoi(w[0]);
    Tree t;
    big_tree(n, stoi(w[1]), w[2], t.par, t.kind);
    Host h;
    string e = h.init();
    if (!e.empty()) return e;
    t.make(h.base, stoi(w[3]));
    mc::trace(); mc::state(c); mc::nontrivial();
    return run(h, t, 0);
}
int main(int argc, char** argv) {
    mc::Driver d("C31");
    bool deep = mc::thorough();
    d.add({"trees", [=](Gen& g) {
        auto all = [&](int n, const string& kinds, int schemes, int hows) {
            trees(n, [&](const string& par) { for (int s = 0; s < schemes; s++) for (int how = 0; how < hows; how++) g.add(par + " " + kinds + " " + to_string(s) + " " + to_string(how)); });
        };
        for (int n = 2; n <= 5; n++) all(n, "erumb", 4, 3);
        all(6, "eru", deep ? 4 : 2, deep ? 3 : 1);
        if (deep) { all(6, "erum", 4, 1); all(7, "eru", 2, 1); }
    }, check_trees, "every tree of up to 5 (thorough 6) ops of inserts, removals, undos and marks in every mix, up to 6 (7) without marks, in one frame, in a frame each with the text asked after each, or with the queries in the same frame; and all again after a reopening", 300});
    d.add({"values", [=](Gen& g) {
        size_t n = strings().size() + 4;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) g.add(to_string(i) + " " + to_string(j));
    }, check_values, "three elements of every combination of 26 values: strings empty, of one, two and many characters of all kinds, other types, none", 120});
    d.add({"scale", [=](Gen& g) {
        for (int n = 2; n <= (deep ? 300 : 130); n += n < 40 || deep ? 1 : 3) for (int shape = 0; shape < 6; shape++) for (auto k : {"e", "eru", "eeerru", "3"}) for (int s = 0; s < 4; s += 3)
            g.add(to_string(n) + " " + to_string(shape) + " " + k + " " + to_string(s));
    }, check_scale, "every number of ops up to 40, every third to 130 (thorough every to 300) in trees of 6 shapes", 120});
    return d.main(argc, argv);
}
