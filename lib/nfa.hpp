// The RON open text grammar as a finite automaton, built independently of the
// repository (regular expression -> NFA -> minimal DFA over bytes), and the
// test sets of the W-method: access string . symbols . distinguishing suffix.
#ifndef VERIF_NFA_HPP
#define VERIF_NFA_HPP
#include <algorithm>
#include <bitset>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace nfa {
using std::string;
using std::vector;
using Set = std::bitset<256>;

struct Net {
    vector<vector<int>> eps;
    vector<vector<std::pair<Set, int>>> tr;
    int add() { eps.emplace_back(); tr.emplace_back(); return int(eps.size()) - 1; }
};
struct Node;
using P = std::shared_ptr<Node>;
struct Node { int k; Set s; vector<P> c; };  // 0 set, 1 seq, 2 alt, 3 star
inline P mk(int k, vector<P> c) { auto n = std::make_shared<Node>(); n->k = k; n->c = std::move(c); return n; }
inline P set(const Set& s) { auto n = std::make_shared<Node>(); n->k = 0; n->s = s; return n; }
inline Set chars(const string& s) { Set r; for (unsigned char c : s) r.set(c); return r; }
inline Set range(int a, int b) { Set r; for (int i = a; i <= b; i++) r.set(i); return r; }
inline P any(const string& s) { return set(chars(s)); }
inline P lit(const string& s) { vector<P> v; for (char c : s) v.push_back(any(string(1, c))); return mk(1, v); }
inline P seq(vector<P> v) { return mk(1, std::move(v)); }
inline P alt(vector<P> v) { return mk(2, std::move(v)); }
inline P star(P p) { return mk(3, {p}); }
inline P opt(P p) { return alt({p, seq({})}); }
inline P plus(P p) { return seq({p, star(p)}); }
inline std::pair<int, int> build(Net& n, const P& p) {
    int a = n.add(), b = n.add();
    switch (p->k) {
        case 0: n.tr[a].push_back({p->s, b}); break;
        case 1: {
            int at = a;
            for (auto& c : p->c) { auto f = build(n, c); n.eps[at].push_back(f.first); at = f.second; }
            n.eps[at].push_back(b);
            break;
        }
        case 2:
            for (auto& c : p->c) { auto f = build(n, c); n.eps[a].push_back(f.first); n.eps[f.second].push_back(b); }
            break;
        case 3: {
            auto f = build(n, p->c[0]);
            n.eps[a].push_back(f.first); n.eps[a].push_back(b);
            n.eps[f.second].push_back(f.first); n.eps[f.second].push_back(b);
        }
    }
    return {a, b};
}
struct Dfa {
    vector<vector<int>> to;  // [state][byte]
    vector<bool> fin;
    int start{0};
};
inline Dfa determinize(const P& p) {
    Net n;
    auto f = build(n, p);
    auto close = [&](std::set<int> s) {
        vector<int> st(s.begin(), s.end());
        while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : n.eps[x]) if (s.insert(y).second) st.push_back(y); }
        return s;
    };
    std::map<std::set<int>, int> id;
    vector<std::set<int>> list;
    Dfa d;
    auto get = [&](const std::set<int>& s) {
        auto it = id.find(s);
        if (it != id.end()) return it->second;
        int k = int(list.size());
        id[s] = k; list.push_back(s);
        d.to.emplace_back(256, -1); d.fin.push_back(s.count(f.second) > 0);
        return k;
    };
    d.start = get(close({f.first}));
    for (size_t i = 0; i < list.size(); i++) {
        auto cur = list[i];
        for (int b = 0; b < 256; b++) {
            std::set<int> nx;
            for (int x : cur) for (auto& t : n.tr[x]) if (t.first[b]) nx.insert(t.second);
            int k = get(close(nx));
            d.to[i][b] = k;
        }
    }
    // Moore minimization
    size_t N = d.to.size();
    vector<int> cls(N);
    for (size_t i = 0; i < N; i++) cls[i] = d.fin[i];
    for (size_t count = 0;;) {
        std::map<vector<int>, int> sig;
        vector<int> nc(N);
        for (size_t i = 0; i < N; i++) {
            vector<int> s{cls[i]};
            for (int b = 0; b < 256; b++) s.push_back(cls[d.to[i][b]]);
            nc[i] = sig.emplace(s, int(sig.size())).first->second;
        }
        bool same = sig.size() == count;
        count = sig.size();
        cls = nc;
        if (same) break;
    }
    int m = *std::max_element(cls.begin(), cls.end()) + 1;
    Dfa r;
    r.to.assign(m, vector<int>(256)); r.fin.assign(m, false); r.start = cls[d.start];
    for (size_t i = 0; i < N; i++) { r.fin[cls[i]] = d.fin[i]; for (int b = 0; b < 256; b++) r.to[cls[i]][b] = cls[d.to[i][b]]; }
    return r;
}
// shortest access string of every state
inline vector<string> access(const Dfa& d, const string& order) {
    vector<string> a(d.to.size());
    vector<bool> seen(d.to.size(), false);
    vector<int> q{d.start};
    seen[d.start] = true;
    for (size_t i = 0; i < q.size(); i++)
        for (unsigned char b : order) {
            int t = d.to[q[i]][b];
            if (!seen[t]) { seen[t] = true; a[t] = a[q[i]] + char(b); q.push_back(t); }
        }
    return a;
}
// a set of suffixes that tells every two states apart
inline vector<string> distinguish(const Dfa& d, const string& order) {
    size_t n = d.to.size();
    vector<vector<string>> w(n, vector<string>(n));
    vector<vector<char>> k(n, vector<char>(n, 0));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (d.fin[i] != d.fin[j]) k[i][j] = 1;
    for (bool more = true; more;) {
        more = false;
        auto kk = k; auto ww = w;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (!k[i][j] && i != j)
            for (unsigned char b : order) {
                int x = d.to[i][b], y = d.to[j][b];
                if (k[x][y]) { kk[i][j] = 1; ww[i][j] = char(b) + w[x][y]; more = true; break; }
            }
        k = kk; w = ww;
    }
    // greedy cover of all pairs
    std::set<string> cand;
    for (auto& r : w) for (auto& s : r) cand.insert(s);
    auto accepts = [&](int s, const string& t) { for (unsigned char b : t) s = d.to[s][b]; return bool(d.fin[s]); };
    vector<string> out;
    std::map<string, vector<bool>> acc;
    for (auto& s : cand) { vector<bool> v(n); for (size_t i = 0; i < n; i++) v[i] = accepts(int(i), s); acc[s] = v; }
    vector<int> cls(n, 0);
    size_t classes = 1;
    while (classes < n) {
        string best; size_t bc = classes;
        for (auto& c : acc) {
            std::set<std::pair<int, bool>> x;
            for (size_t i = 0; i < n; i++) x.insert({cls[i], c.second[i]});
            if (x.size() > bc) { bc = x.size(); best = c.first; }
        }
        if (bc == classes) break;
        std::map<std::pair<int, bool>, int> x;
        for (size_t i = 0; i < n; i++) cls[i] = x.emplace(std::make_pair(cls[i], bool(acc[best][i])), int(x.size())).first->second;
        classes = bc;
        out.push_back(best);
    }
    return out;
}

// --- the grammar of RON 2.1 open text
inline P uuid() {
    P dg = any("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~");
    return seq({opt(seq({any("0123456789ABCDEF"), lit("/")})), plus(dg), opt(seq({any("$%+-"), plus(dg)}))});
}
inline P frame() {
    P ws = any(" \r\n\t"), sgn = opt(any("+-")), dig = plus(set(range('0', '9')));
    P integer = seq({sgn, dig});
    P ex = seq({any("eE"), sgn, dig});
    P flt = seq({sgn, dig, alt({seq({lit("."), dig, opt(ex)}), ex})});
    P hex = any("0123456789abcdefABCDEF"), cont = set(range(0x80, 0xbf));
    Set plain = range(1, 0x7f);
    for (char c : string("\n\r\\'")) plain.reset((unsigned char)c);
    P cp = alt({set(plain), seq({set(range(0xc2, 0xdf)), cont}),
                seq({set(range(0xe0, 0xe0)), set(range(0xa0, 0xbf)), cont}),
                seq({set(range(0xe1, 0xec) | range(0xee, 0xef)), cont, cont}),
                seq({set(range(0xed, 0xed)), set(range(0x80, 0x9f)), cont}),
                seq({set(range(0xf0, 0xf0)), set(range(0x90, 0xbf)), cont, cont}),
                seq({set(range(0xf1, 0xf3)), cont, cont, cont}),
                seq({set(range(0xf4, 0xf4)), set(range(0x80, 0x8f)), cont, cont}),
                seq({lit("\\"), any("nrtb\\'/\"")}), seq({lit("\\u"), hex, hex, hex, hex})});
    P str = seq({lit("'"), star(cp), lit("'")});
    P spread = seq({lit("'"), plus(cp), lit("'")});
    P bare = alt({integer, flt, uuid()}), wss = star(ws);
    P quoted = alt({seq({lit("="), wss, integer}), seq({lit("^"), wss, flt}), str, seq({lit(">"), wss, uuid()})});
    P atom = alt({quoted, seq({ws, bare})});
    P spec = seq({lit("@"), uuid(), wss, opt(seq({lit(":"), uuid()}))});
    P atoms = seq({atom, star(seq({wss, atom}))});
    P span = seq({lit("("), wss, alt({dig, spread}), wss, lit(")")});
    P op = seq({opt(alt({spec, bare})), wss, opt(atoms), wss, opt(span), wss, any(";,!?")});
    return seq({star(seq({wss, op})), wss, opt(lit(".\n"))});
}
}  // namespace nfa
#endif
