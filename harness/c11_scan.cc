// C11: visibility of causal tree elements.
#include "visx.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;

static string bits(const vector<bool>& v) { string s; for (bool b : v) s += b ? '1' : '0'; return s; }

static string scan_tree(const string& t, const vector<int>& par, const string& kind, int scheme);
// "parents kinds scheme"
static string check_tree(const string& t) {
    auto w = mc::split(t, ' ');
    string kind = "!" + w[1];
    int n = kind.size(), scheme = stoi(w[2]);
    vector<int> par(n, -1);
    for (int i = 1; i < n; i++) par[i] = w[0][i - 1] - '0';
    return scan_tree(t, par, kind, scheme);
}
// "n shape kinds scheme": a big tree, the kinds in turn
static string check_scale(const string& t) {
    auto w = mc::split(t, ' ');
    int n = stoi(w[0]), shape = stoi(w[1]);
    vector<int> par;
    string kind;
    big_tree(n, shape, w[2], par, kind);
    return scan_tree(w[0] + " " + w[1], par, kind, stoi(w[3]));
}
static string scan_tree(const string& t, const vector<int>& par, const string& kind, int scheme) {
    int n = kind.size();
    Ops ops;
    map<ref::U, int> idx;
    for (int i = 0; i < n; i++) {
        ref::Op o = make_op(kind[i], i, scheme);
        o.ref = i ? ops[par[i]].id : rdtref::name("rga");
        idx[o.id] = i;
        ops.push_back(o);
    }
    Ops dfs = rdtref::weave(ops);
    auto hide = hidden(par, kind);
    vector<bool> want;
    for (auto& o : dfs) want.push_back(hide[idx[o.id]]);
    mc::state(t); mc::trace();
    if (kind.find('r') != string::npos) mc::nontrivial();
    for (int sp = 0; sp < 2; sp++) {
        rx::Frame f = sp ? rdtx::plain(dfs) : rdtx::frame(dfs);
        ron::Booleans got;
        ron::Status ok = ron::ScanRGA<rx::Frame>(got, f);
        mc::transition(n);
        if (!ok) return "scan of " + f.data() + ": " + ok.str();
        if (got != want) return "scan of " + f.data() + ": expected " + bits(want) + " got " + bits(got);
    }
    return "";
}
// any op sequence: "id ref kind" triples as digits
static string check_seq(const string& t) {
    auto w = mc::split(t, ' ');
    int scheme = stoi(w[1]);
    Ops ops;
    for (size_t i = 0; i + 2 < w[0].size(); i += 3) {
        int id = w[0][i] - '0', rf = w[0][i + 1] - '0';
        ref::Op o = make_op(w[0][i + 2], id, scheme);
        if (id == 9) o.id = rdtref::name("lww");
        o.ref = rf == 8 ? rdtref::name("rga") : rf == 9 ? rdtref::name("lww") : make_op('e', rf, scheme).id;
        ops.push_back(o);
    }
    // what the scan should say
    bool good = rdtref::is_time(ops[0].id) && ops[0].ref == rdtref::name("rga");
    vector<int> par(ops.size(), -1), path{0};
    string kind = "!";
    for (size_t i = 1; i < ops.size() && good; i++) {
        if (!rdtref::is_time(ops[i].id) || !rdtref::is_time(ops[i].ref) || !(ops[i].ref < ops[i].id)) { good = false; break; }
        while (!path.empty() && ops[path.back()].id != ops[i].ref) path.pop_back();
        if (path.empty()) { good = false; break; }
        par[i] = path.back();
        path.push_back(i);
        kind += w[0][3 * i + 2];
    }
    rx::Frame f = rdtx::plain(ops);
    ron::Booleans got;
    ron::Status ok = ron::ScanRGA<rx::Frame>(got, f);
    mc::transition(ops.size()); mc::state(t); mc::trace();
    if (!good) mc::nontrivial();
    if (!!ok != good) return "scan of " + f.data() + " says " + ok.str();
    if (good) {
        auto want = hidden(par, kind);
        if (got != want) return "scan of " + f.data() + ": expected " + bits(want) + " got " + bits(got);
    }
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C11");
    bool deep = mc::thorough();
    d.add({"trees", [=](Gen& g) {
        auto all = [&](int n, const string& kinds, int schemes) {
            trees(n, [&](const string& par) {
                mc::words(kinds.size(), n - 1, [&](const vector<int>& w) {
                    for (int s = 0; s < schemes; s++) {
                        if (!g.mine()) continue;
                        string k;
                        for (int i : w) k += kinds[i];
                        g.run(par + " " + k + " " + to_string(s));
                    }
                });
            });
        };
        for (int n = 2; n <= 5; n++) all(n, "erumxb", 4);
        all(6, "erum", deep ? 4 : 1); all(6, "eru", 4); all(7, "eru", deep ? 4 : 1);
        if (deep) all(8, "eru", 1);
    }, check_tree, "every tree of up to 7 (thorough 8) ops of inserts, removals and undos in every mix, up to 6 with foreign marks and odd removals, 4 id schemes"});
    d.add({"chains", [=](Gen& g) {
        // one chain: elements, then removals, undos, removals
        int n = deep ? 8 : 6;
        for (int e = 0; e <= n; e++) for (int r = 0; r <= n; r++) for (int u = 0; u <= n; u++) for (int z = 0; z <= 3; z++) for (int b = -1; b <= 2; b++) for (int s = 0; s < 2; s++) {
            if (!g.mine()) continue;
            string k = string(e, 'e') + string(r, 'r') + string(u, 'u') + string(z, b < 1 ? 'e' : 'r');
            string par;
            for (size_t i = 0; i < k.size(); i++) par += char('0' + i);
            // the tail starts at a branching point
            size_t at = e + r + u;
            if (b >= 0 && z && at > 0) par[at] = char('0' + min<size_t>(at, b == 0 ? e : b == 1 ? e + r : e / 2));
            g.run(par + " " + k + " " + to_string(s));
        }
    }, check_tree, "chains of up to 6 (8) elements, removals and undos, also longer than what they apply to, with a branch"});
    d.add({"sequences", [=](Gen& g) {
        // any ids, refs and kinds, in any order
        string first[] = {"08!", "09!", "00!", "98!", "18!"};
        vector<string> rest;
        for (int id : {0, 1, 2, 3, 9}) for (int rf : {0, 1, 2, 3, 8}) for (char k : string("er")) rest.push_back(string(1, '0' + id) + char('0' + rf) + k);
        for (auto& f : first) {
            if (g.mine()) g.run(f + " 0");
            for (int n = 1; n <= 3; n++) mc::words(rest.size(), n, [&](const vector<int>& w) {
                if (n == 3 && f != "08!") return;
                if (!g.mine()) return;
                string s = f;
                for (int i : w) s += rest[i];
                g.run(s + " 0");
            });
            if (deep && f == "08!") mc::words(rest.size(), 4, [&](const vector<int>& w) {
                if (!g.mine()) return;
                string s = f;
                for (int i : w) s += rest[i];
                g.run(s + " 2");
            });
        }
    }, check_seq, "every sequence of 4 (thorough 5) ops over 5 ids, 5 refs and 2 kinds: order and reference faults"});
    d.add({"scale", [=](Gen& g) {
        for (int n = 2; n <= (deep ? 300 : 130); n++) for (int shape = 0; shape < 6; shape++) for (auto k : {"e", "er", "eru", "eeerru", "eeeeer", "eeeeeerrruum", "2", "3", "4"}) for (int s = 0; s < 4; s += deep ? 1 : 3)
            g.add(to_string(n) + " " + to_string(shape) + " " + k + " " + to_string(s));
        for (int n : {257, 300, 400, 511, 512, 513, 514, 600, 800, 1025, 1100, 2100}) for (int shape : {1, 3}) for (auto k : {"e", "er", "eeerru", "2", "3", "4"}) g.add(to_string(n) + " " + to_string(shape) + " " + k + " 0");
    }, check_scale, "every number of ops up to 130 (thorough 300), and up to 2100 in chains, in trees of 6 shapes, inserts, removals and undos in turn or one after another"});
    return d.main(argc, argv);
}
