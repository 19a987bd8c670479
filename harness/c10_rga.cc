// C10: merges of causal tree (RGA) pieces.
#include "rdtx.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;
using ref::Q; using ref::S;

// A tree: parent[i] < i. Ids by scheme: how each next event's id follows.
static Ops make_tree(const string& par, const string& ids) {
    Ops t;
    uint64_t v = 64;
    for (size_t i = 0; i <= par.size(); i++) {
        // + one step, same writer A; B one step, writer B; = same time, writer B after A; J a jump of A
        char c = ids[i];
        ref::Op o;
        if (c == 'J') v += 1 << 12;
        else if (c != '=' && i) v += 1;
        o.id = rdtref::event(v, c == 'B' || c == '=' ? "B" : "A");
        if (i == 0) { o.ref = rdtref::name("rga"); }
        else {
            o.ref = t[par[i - 1] - '0'].id;
            if (i % 4 == 3) o.a = {Q(rdtref::name(i % 8 == 3 ? "rm" : "un"))};
            else o.a = {S(i == 5 ? "\xE2\x82\xAC" : string(1, 'a' + i))};
        }
        t.push_back(o);
    }
    return t;
}
// "parents ids spelling mask,mask,.." (hex masks)
struct Case { Ops t; string par; int sp; vector<int> m; };
static Case parse(const string& s) {
    auto w = mc::split(s, ' ');
    Case c;
    c.par = w[0] == "-" ? "" : w[0];
    c.t = make_tree(c.par, w[1]);
    c.sp = stoi(w[2]);
    for (auto& x : mc::split(w[3], ',')) c.m.push_back(stoi(x));
    return c;
}
static Ops piece(const Ops& t, int mask) {
    Ops o;
    for (size_t i = 0; i < t.size(); i++) if (mask >> i & 1) o.push_back(t[i]);
    return rdtref::weave(o);
}
static string check(const string& s) {
    Case c = parse(s);
    vector<Ops> in;
    vector<rx::Frame> fr;
    int all = 0;
    for (int m : c.m) {
        in.push_back(piece(c.t, m));
        fr.push_back(c.sp == 0 || (c.sp == 2 && in.size() % 2) ? rdtx::frame(in.back()) : rdtx::plain(in.back()));
        all |= m;
    }
    mc::trace();
    auto want = rdtref::rga_merge(in);
    if (want.st == rdtref::OK && c.m.size() > 1) mc::nontrivial();
    mc::state(c.par + " " + to_string(all));
    string r = rdtx::judge(want, rdtx::merge(14, fr));
    if (!r.empty()) return "merge of " + rdtx::show(fr) + ": " + r;
    if (rdtref::form_of(in) == 14) {
        r = rdtx::judge(want, rdtx::merge(-1, fr));
        if (!r.empty()) return "merge of " + rdtx::show(fr) + " with no form given: " + r;
    }
    if (c.m.size() == 3) for (int k = 0; k < 3; k++) {
        // two of them first, if they make one piece
        vector<Ops> two;
        vector<rx::Frame> ftwo;
        for (int i = 0; i < 3; i++) if (i != k) { two.push_back(in[i]); ftwo.push_back(fr[i]); }
        auto w2 = rdtref::rga_merge(two);
        if (w2.st != rdtref::OK) continue;
        rx::Frame m;
        rx::Frame::Cursors cs;
        for (auto& f : ftwo) { cs.emplace_back(f); if (!cs.back().Next()) cs.pop_back(); }
        if (!ron::MergeCursors<rx::Frame>(m, ron::RGA_RDT_FORM, cs)) return "two of " + rdtx::show(fr) + " do not merge";
        two = {w2.ops, in[k]};
        auto w3 = rdtref::rga_merge(two);
        for (int swap = 0; swap < 2; swap++) {
            vector<rx::Frame> v = swap ? vector<rx::Frame>{fr[k], m} : vector<rx::Frame>{m, fr[k]};
            r = rdtx::judge(w3, rdtx::merge(14, v));
            if (!r.empty()) return "merge of merged " + rdtx::show(v) + ": " + r;
        }
    }
    return "";
}
// "N shape cut order": a tree of N events cut at every cut-th edge
static string check_scale(const string& s) {
    auto w = mc::split(s, ' ');
    int n = stoi(w[0]), shape = stoi(w[1]), cut = stoi(w[2]), order = stoi(w[3]);
    Ops t;
    vector<int> own;
    for (int i = 0; i < n; i++) {
        int p = shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : shape == 3 ? max(0, i - 2) : shape == 4 ? (i % 4 ? i - 1 : 0) : (i % 4 ? i / 4 * 4 : max(0, i - 4));
        ref::Op o;
        o.id = rdtref::event(i % 50 < 30 ? 100 + i : 100 + i + (i << 12), i % 20 < 14 ? "A" : i % 2 ? "B" : "A");
        if (i && !(t.back().id < o.id)) o.id = t.back().id, o.id.v++;
        if (!i) o.ref = rdtref::name("rga");
        else {
            o.ref = t[p].id;
            if (i % 16 == 15) o.a = {Q(rdtref::name(i % 32 == 15 ? "rm" : "un"))};
            else o.a = {S(i % 11 == 10 ? "\xE2\x82\xAC" : string(1, 'a' + i % 26))};
        }
        own.push_back(i == 0 ? 0 : cut && i % cut == 0 ? i : own[p]);
        t.push_back(o);
    }
    map<int, Ops> by;
    for (int i = 0; i < n; i++) by[own[i]].push_back(t[i]);
    vector<Ops> in;
    for (auto& b : by) in.push_back(rdtref::weave(b.second));
    if (order == 1) reverse(in.begin(), in.end());
    if (order == 2) { vector<Ops> v; for (size_t i = 0; i < in.size(); i += 2) v.push_back(in[i]); for (size_t i = 1; i < in.size(); i += 2) v.insert(v.begin(), in[i]); in = v; }
    if (order == 3) { in.push_back(rdtref::weave(t)); in.insert(in.begin(), in.back()); }
    vector<rx::Frame> fr;
    for (auto& o : in) fr.push_back(fr.size() % 2 ? rdtx::plain(o) : rdtx::frame(o));
    mc::trace();
    mc::nontrivial();
    mc::state(w[0] + " " + w[1]);
    auto want = rdtref::rga_merge(in);
    string r = rdtx::judge(want, rdtx::merge(14, fr));
    if (!r.empty()) return "merge of a tree of " + to_string(n) + " in " + to_string(fr.size()) + " pieces: " + r.substr(0, 600);
    if (rdtref::form_of(in) == 14) {
        r = rdtx::judge(want, rdtx::merge(-1, fr));
        if (!r.empty()) return "merge of a tree of " + to_string(n) + " in " + to_string(fr.size()) + " pieces with no form given: " + r.substr(0, 600);
    }
    return "";
}
static vector<string> trees(int n) {
    vector<string> r{""};
    for (int i = 1; i < n; i++) {
        vector<string> q;
        for (auto& s : r) for (int p = 0; p < i; p++) q.push_back(s + char('0' + p));
        r = q;
    }
    return r;
}
static vector<string> schemes(int n) {
    // all schemes of + B = where = follows + only
    vector<string> r;
    mc::words(3, n - 1, [&](const vector<int>& w) {
        string s = "+";
        for (int i : w) { char c = "+B="[i]; if (c == '=' && s.back() != '+') return; s += c; }
        r.push_back(s);
    });
    return r;
}
// connected subsets of the tree
static vector<int> pieces(const string& par) {
    int n = par.size() + 1;
    vector<int> r;
    for (int m = 1; m < (1 << n); m++) {
        int roots = 0;
        for (int i = 0; i < n; i++) if (m >> i & 1) if (i == 0 || !(m >> (par[i - 1] - '0') & 1)) roots++;
        if (roots == 1) r.push_back(m);
    }
    return r;
}
static string case_of(const string& par, const string& ids, int sp, const vector<int>& m) {
    string s = (par.empty() ? "-" : par) + " " + ids + " " + to_string(sp) + " ";
    for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + to_string(m[i]);
    return s;
}
static void families(Gen& g, const string& par, const string& ids, int k, int sp) {
    auto p = pieces(par);
    mc::words(p.size(), k, [&](const vector<int>& w) {
        if (!g.mine()) return;
        vector<int> m;
        for (int i : w) m.push_back(p[i]);
        g.run(case_of(par, ids, sp, m));
    });
}
int main(int argc, char** argv) {
    mc::Driver d("C10");
    bool deep = mc::thorough();
    auto some = [](int n) {
        vector<string> r = {string(n, '+'), string("+") + string(n - 1, 'B'), "", "", ""};
        for (int i = 0; i < n; i++) { r[2] += i % 2 ? 'B' : '+'; r[3] += i % 2 ? '=' : '+'; r[4] += i ? 'J' : '+'; }
        return r;
    };
    d.add({"pairs", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 7 : 6); n++) for (auto& t : trees(n)) for (auto& ids : some(n)) { if (n >= 6 && !deep && ids.find('B') == string::npos) continue; families(g, t, ids, 2, 2); }
        for (int n = 1; n <= (deep ? 5 : 4); n++) for (auto& t : trees(n)) for (auto& ids : schemes(n)) for (int sp = 0; sp < 2; sp++) families(g, t, ids, 2, sp);
    }, check, "all ordered pairs of connected pieces of every tree of up to 6 (thorough 7) events under 5 id schemes (all of two writers for 4 (5) events)"});
    d.add({"triples", [=](Gen& g) {
        for (int n = 1; n <= 4; n++) for (auto& t : trees(n)) for (auto& ids : schemes(n)) families(g, t, ids, 3, 2);
        if (deep) for (auto& t : trees(5)) for (auto& ids : some(5)) families(g, t, ids, 3, 2);
        else for (auto& t : trees(5)) families(g, t, some(5)[2], 3, 2);
    }, check, "all ordered triples of connected pieces of every tree of up to 5 events, all pairwise groupings"});
    d.add({"more", [=](Gen& g) {
        for (int n = 1; n <= 3; n++) for (auto& t : trees(n)) for (auto& ids : schemes(n)) { families(g, t, ids, 4, 2); if (n < 3 || deep) families(g, t, ids, 5, 0); }
        for (auto& t : trees(4)) if (deep) for (auto& ids : some(4)) families(g, t, ids, 4, 2);
        else families(g, t, some(4)[2], 4, 2);
    }, check, "all ordered 4-tuples of pieces of trees of up to 4 events, 5-tuples for fewer"});
    d.add({"partitions", [=](Gen& g) {
        // cut edges of the tree, all orders of the pieces
        for (int n = 2; n <= (deep ? 7 : 6); n++) for (auto& par : trees(n)) for (auto& ids : some(n)) {
            if (ids.find('B') == string::npos && n > 5) continue;
            for (int cut = 0; cut < (1 << (n - 1)); cut++) {
                vector<int> own(n, 0), ms;
                for (int i = 1; i < n; i++) own[i] = cut >> (i - 1) & 1 ? i : own[par[i - 1] - '0'];
                for (int i = 0; i < n; i++) { int m = 0; for (int j = 0; j < n; j++) if (own[j] == i) m |= 1 << j; if (m) ms.push_back(m); }
                sort(ms.begin(), ms.end());
                do { if (g.mine()) g.run(case_of(par, ids, 2, ms)); } while (next_permutation(ms.begin(), ms.end()));
            }
        }
    }, check, "every partition of every tree of up to 6 (thorough 7) events into connected pieces, in every order"});
    d.add({"detached", [=](Gen& g) {
        // one piece missing: the merge must say so
        for (int n = 3; n <= 5; n++) for (auto& par : trees(n)) for (int cut = 0; cut < (1 << (n - 1)); cut++) {
            vector<int> own(n, 0), ms;
            for (int i = 1; i < n; i++) own[i] = cut >> (i - 1) & 1 ? i : own[par[i - 1] - '0'];
            for (int i = 0; i < n; i++) { int m = 0; for (int j = 0; j < n; j++) if (own[j] == i) m |= 1 << j; if (m) ms.push_back(m); }
            for (size_t k = 0; k < ms.size(); k++) {
                vector<int> left = ms;
                left.erase(left.begin() + k);
                if (left.empty()) continue;
                sort(left.begin(), left.end());
                do { if (g.mine()) g.run(case_of(par, some(n)[2], 0, left)); } while (next_permutation(left.begin(), left.end()));
            }
        }
    }, check, "every partition of trees of up to 5 events less one piece, in every order"});
    d.add({"scale", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 400 : 130); n++) for (int shape = 0; shape < 6; shape++) for (int cut : {0, 1, 2, 3, 7, 16, 33}) for (int order = 0; order < 4; order++)
            g.add(to_string(n) + " " + to_string(shape) + " " + to_string(cut) + " " + to_string(order));
    }, check_scale, "every number of events up to 130 (thorough 400) in trees of 6 shapes, cut at every edge, every second, third ... or none, the pieces in 4 orders or with the whole"});
    return d.main(argc, argv);
}
