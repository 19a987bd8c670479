// Bridges the repository's public API to the reference model.
#ifndef VERIF_RONX_HPP
#define VERIF_RONX_HPP
#include <memory>
#include "mc.hpp"
#include "ref.hpp"
#include "ron/ron.hpp"

namespace rx {
using std::string;
using std::vector;
using Frame = ron::TextFrame;
using Cursor = Frame::Cursor;
using Builder = Frame::Builder;

inline ref::U u(const ron::Uuid& x) { return ref::U{x.value.as_u64, x.origin.as_u64}; }
inline ron::Uuid uuid(const ref::U& x) { return ron::Uuid{ron::Word{x.v}, ron::Word{x.o}}; }

// text in a heap buffer of exactly its size, so that an over-read is caught
struct Exact {
    std::unique_ptr<char[]> b;
    size_t n;
    explicit Exact(const string& s) : b{new char[s.size()]}, n{s.size()} { memcpy(b.get(), s.data(), n); }
    ron::Slice slice() const { return ron::Slice{(const char*)b.get(), n}; }
};

struct Read {
    vector<ref::Op> ops;
    bool clean{false};   // ended with ENDOFFRAME
    bool capped{false};
    string bad;          // a fault while reading values
    string status;
};

template <class C>
inline bool read_str(const C& c, unsigned i, vector<uint32_t>& to, string& bad) {
    string s;
    ron::Result r = ron::ReadString(s, c, (ron::fsize_t)i);
    if (r != ron::OK) { bad = "string value unreadable: " + r.str(); return false; }
    size_t p = 0;
    while (p < s.size()) {
        uint32_t cp;
        size_t n = ref::utf8_read(s, p, cp);
        if (!n) { bad = "string value is not UTF-8: " + mc::hex(s); return false; }
        to.push_back(cp);
        p += n;
    }
    return true;
}

template <class C>
inline ref::Op read_op(const C& c, string& bad) {
    ref::Op o;
    o.id = u(c.id());
    o.ref = u(c.ref());
    for (unsigned i = 2; i < c.op().size(); i++) {
        ron::Atom a = c.atom(i);
        ref::A x;
        switch (a.type()) {
            case ron::INT: x = ref::I(a.value.as_integer); break;
            case ron::FLOAT: x = ref::F(a.value.as_float); break;
            case ron::UUID: x = ref::Q(u(ron::Uuid{a})); break;
            case ron::STRING: x.t = ref::STR; read_str(c, i, x.s, bad); break;
        }
        o.a.push_back(x);
    }
    return o;
}

inline Read read(Cursor c, size_t cap = 100000) {
    Read r;
    for (;;) {
        ron::Status ok = c.Next();
        if (!ok) {
            r.clean = ok == ron::Status::ENDOFFRAME;
            r.status = ok.str();
            break;
        }
        if (r.ops.size() >= cap) { r.capped = true; break; }
        ref::Op o = read_op(c, r.bad);
        o.term = c.term();
        r.ops.push_back(o);
        mc::transition();
        if (!r.bad.empty()) break;
    }
    return r;
}
inline Read read(const string& text, size_t cap = 100000) { return read(Cursor{ron::Slice{text}}, cap); }

// builds the op as the API user would: one of the fixed-arity constructors
inline ron::Op make(const ref::Op& o) {
    ron::Op r{uuid(o.id), uuid(o.ref)};
    for (auto& a : o.a) switch (a.t) {
        case ref::INT: r.WriteAtoms((ron::Integer)a.i); break;
        case ref::FLT: r.WriteAtoms((ron::Float)a.f); break;
        case ref::UUID: r.WriteAtoms(uuid(a.u)); break;
        case ref::STR: r.WriteAtoms(ref::utf8(a.s)); break;
    }
    return r;
}

inline string diff(const vector<ref::Op>& want, const vector<ref::Op>& got, bool terms = true) {
    size_t n = std::min(want.size(), got.size());
    for (size_t i = 0; i < n; i++) {
        bool same = want[i].id == got[i].id && want[i].ref == got[i].ref && want[i].a == got[i].a && (!terms || want[i].term == got[i].term);
        if (!same) return "op " + std::to_string(i) + ": expected " + ref::show(want[i], terms) + " got " + ref::show(got[i], terms);
    }
    if (want.size() != got.size()) return "expected " + std::to_string(want.size()) + " ops, got " + std::to_string(got.size()) + " (expected:\n" + ref::show(want, terms) + "got:\n" + ref::show(got, terms) + ")";
    return "";
}
}  // namespace rx
#endif
