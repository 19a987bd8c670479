// Reference semantics of the replicated data types, on plain op vectors; it
// shares no code with the repository.
#ifndef VERIF_RDTREF_HPP
#define VERIF_RDTREF_HPP
#include <algorithm>
#include <map>
#include <set>
#include "ref.hpp"

namespace rdtref {
using ref::Op;
using ref::U;
using std::string;
using std::vector;
using Ops = vector<Op>;

inline U name(const char* s) { U u; ref::parse_uuid(s, u); return u; }
inline bool is_name(U u) { return ((u.o >> 60) & 3) == 0; }
inline bool is_time(U u) { return ((u.o >> 60) & 3) == 2; }
inline U event(uint64_t v, const char* org) { U u; ref::parse_uuid(string("0+") + org, u); u.v = v; return u; }

// forms by name, with the codes kept in databases
struct FormInfo { const char* name; int code; };
static const FormInfo FORMS[] = {
    {"zero", 0}, {"yarn", 1}, {"log", 2}, {"tail", 3}, {"patch", 4}, {"span", 5}, {"chain", 6}, {"graph", 7}, {"meta", 8}, {"prev", 9},
    {"obj", 10}, {"sha3", 11}, {"vv", 12}, {"lww", 13}, {"rga", 14}, {"mx", 15}, {"json", 16}, {"csv", 17}, {"txt", 18}, {"max", 19}};

enum St { OK, BREAK, REFUSED, NOTIMPL };
struct Out { St st{OK}; Ops ops; };

// a set of events: sorted, no repetitions
inline Out set_merge(const vector<Ops>& in) {
    Out o;
    std::map<U, Op> m;
    for (auto& f : in) for (auto& op : f) m.emplace(op.id, op);
    for (auto& p : m) o.ops.push_back(p.second);
    return o;
}
inline Out log_merge(const vector<Ops>& in) {
    Out o;
    for (auto& f : in) o.ops.insert(o.ops.end(), f.begin(), f.end());
    return o;
}
inline Out last(const vector<Ops>& in) {
    Out o;
    if (!in.empty()) o.ops = in.back();
    return o;
}
// depth-first, children newest first
inline Ops weave(const Ops& any) {
    std::map<U, Op> m;
    for (auto& op : any) m.emplace(op.id, op);
    std::map<U, vector<U>> kids;
    vector<U> roots;
    for (auto& p : m) (m.count(p.second.ref) ? kids[p.second.ref] : roots).push_back(p.first);
    Ops o;
    vector<U> todo(roots.rbegin(), roots.rend());
    while (!todo.empty()) {
        U id = todo.back();
        todo.pop_back();
        o.push_back(m[id]);
        for (U k : kids[id]) todo.push_back(k);  // ascending: the newest is on top
    }
    return o;
}
// pieces are connected and depth-first ordered
inline Out rga_merge(const vector<Ops>& in) {
    Out o;
    vector<const Ops*> p;
    for (auto& f : in) if (!f.empty()) p.push_back(&f);
    if (p.empty()) return o;
    U base = (*p[0])[0].id;
    for (auto f : p) if ((*f)[0].id < base) base = (*f)[0].id;
    std::set<U> have;
    vector<bool> in_tree(p.size(), false);
    Ops all;
    for (bool more = true; more;) {
        more = false;
        for (size_t i = 0; i < p.size(); i++) {
            if (in_tree[i]) continue;
            const Op& h = (*p[i])[0];
            if (!(h.id == base) && !have.count(h.ref)) continue;
            in_tree[i] = more = true;
            for (auto& op : *p[i]) { have.insert(op.id); all.push_back(op); }
        }
    }
    for (bool b : in_tree) if (!b) { o.st = BREAK; return o; }
    o.ops = weave(all);
    return o;
}
inline int cmp_value(const ref::A& a, const ref::A& b) {
    // the order of types: ids, integers, strings, floats
    if (a.t != b.t) return a.t < b.t ? -1 : 1;
    switch (a.t) {
        case ref::INT: return a.i < b.i ? -1 : a.i > b.i;
        case ref::FLT: return a.f < b.f ? -1 : a.f > b.f;
        case ref::UUID: return a.u < b.u ? -1 : b.u < a.u;
        case ref::STR: { string x = ref::utf8(a.s), y = ref::utf8(b.s); int c = x.compare(y); return c < 0 ? -1 : c > 0; }
    }
    return 0;
}
inline Out max_merge(const vector<Ops>& in) {
    Out o;
    const Op *root = nullptr, *max = nullptr;
    U form = name("max");
    for (auto& f : in) for (auto& op : f) {
        if (op.ref == form) { if (!root || op.id < root->id) root = &op; continue; }
        if (!max) { max = &op; continue; }
        if (op.a.empty() != max->a.empty()) { if (max->a.empty()) max = &op; continue; }
        int c = op.a.empty() ? 0 : cmp_value(max->a[0], op.a[0]);
        if (c < 0 || (c == 0 && max->id < op.id)) max = &op;
    }
    if (root) o.ops.push_back(*root);
    if (max) o.ops.push_back(*max);
    return o;
}
inline Out merge(int form, const vector<Ops>& in) {
    switch (form) {
        case 13: case 1: case 8: case 15: return set_merge(in);
        case 2: return log_merge(in);
        case 0: case 255: return last(in);
        case 14: return rga_merge(in);
        case 19: return max_merge(in);
    }
    Out o;
    o.st = NOTIMPL;
    return o;
}
// the form a list of frames names by the refs of their first ops; -1 on a conflict
inline int form_of(const vector<Ops>& in) {
    U form;
    for (auto& f : in) {
        if (f.empty()) continue;
        U r = f[0].ref;
        if (!is_name(r) || r == U{}) continue;
        if (form == U{}) form = r;
        else if (form != r) return -1;
    }
    for (auto& i : FORMS) if (name(i.name) == form) return i.code;
    return form == ref::FATAL ? 255 : 0;
}
}  // namespace rdtref
#endif
