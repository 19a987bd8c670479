// Causal trees of inserts, removals and undos, and the rules of what is hidden.
#ifndef VERIF_VISX_HPP
#define VERIF_VISX_HPP
#include "rdtx.hpp"
namespace {
using namespace std;
using ref::I; using ref::Q; using ref::S;

// entry kinds: e insert, r removal, u undo, m a foreign mark, b bare op
static ref::Op make_op(char kind, int i, int scheme) {
    ref::Op o;
    uint64_t v = 64 + i;
    string org = "A";
    if (scheme == 1) v = 64 * (i + 1);
    if (scheme == 2) org = i % 2 ? "B" : "A";
    if (scheme == 3) { v = 64 + i / 2; org = i % 2 ? "B" : "A"; }
    o.id = rdtref::event(v, org.c_str());
    if (kind == 'e') o.a = {S(string(1, char('a' + i % 26)))};
    if (kind == 'r') o.a = {Q(rdtref::name("rm"))};
    if (kind == 'u') o.a = {Q(rdtref::name("un"))};
    if (kind == 'm') o.a = {Q(rdtref::name("eq"))};
    if (kind == 'x') o.a = {Q(rdtref::name("rm")), I(1)};
    return o;
}
// the rules, on the tree: parent[i] < i, kind[0] is the root
static vector<bool> hidden(const vector<int>& par, const string& kind) {
    int n = kind.size();
    vector<bool> hide(n, false);
    vector<int> st(n, 0);      // 0 root, 1 live element, 2 removal, 3 undo, 4 void
    vector<int> len(n, 0);     // position in its chain of removals / undos
    vector<int> base(n, -1);   // the op the chain is attached to
    for (int i = 0; i < n; i++) {
        if (!i) { hide[0] = true; continue; }
        int p = par[i];
        char k = kind[i];
        int s = st[p];
        if (k == 'r' && (s == 1 || s == 2)) { st[i] = 2; base[i] = s == 1 ? p : base[p]; len[i] = s == 1 ? 1 : len[p] + 1; }
        else if (k == 'u' && (s == 2 || s == 3)) { st[i] = 3; base[i] = s == 2 ? p : base[p]; len[i] = s == 2 ? 1 : len[p] + 1; }
        else if (k != 'r' && k != 'u' && s <= 1) st[i] = 1;
        else st[i] = 4;
        if (st[i] != 1) hide[i] = true;
    }
    vector<bool> undone(n, false);
    for (int i = 0; i < n; i++) if (st[i] == 3) {
        int at = base[i];
        for (int k = 1; k < len[i] && at >= 0 && st[at] == 2; k++) at = par[at];
        if (at >= 0 && st[at] == 2) undone[at] = true;
    }
    for (int i = 0; i < n; i++) if (st[i] == 2 && !undone[i]) {
        int at = base[i];
        for (int k = 1; k < len[i] && at > 0; k++) at = par[at];
        if (at > 0) hide[at] = true;
    }
    return hide;
}
static void trees(int n, const function<void(const string&)>& f) {
    string s;
    function<void(int)> rec = [&](int i) {
        if (i == n) { f(s); return; }
        for (int p = 0; p < i; p++) { s.push_back('0' + p); rec(i + 1); s.pop_back(); }
    };
    rec(1);
}
// n ops in a shape, the kinds in turn or one after another
inline void big_tree(int n, int shape, const string& kinds, vector<int>& par, string& kind) {
    par.assign(size_t(n), -1);
    kind = "!";
    for (int i = 1; i < n; i++) {
        par[i] = shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : shape == 3 ? max(0, i - 2) : shape == 4 ? (i % 4 ? i - 1 : 0) : (i % 4 ? i / 4 * 4 : max(0, i - 4));
        kind += isdigit(kinds[0]) ? (i <= n / 2 ? 'e' : i <= n / 2 + (n / 2) * (kinds[0] - '0') / 6 ? 'r' : 'u') : kinds[i % kinds.size()];
    }
}
}  // namespace
#endif
