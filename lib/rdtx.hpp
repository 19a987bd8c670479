// Runs the repository's merges on reference op vectors.
#ifndef VERIF_RDTX_HPP
#define VERIF_RDTX_HPP
#include "rdtref.hpp"
#include "ronx.hpp"
#include "rdt/rdt.hpp"

namespace rdtx {
using rdtref::Ops;
using rdtref::Out;
using std::string;
using std::vector;

// one frame in one chunk, by the repository's builder (so with spans)
inline rx::Frame frame(const Ops& ops) {
    rx::Builder b;
    for (auto& o : ops) b.AppendOp(rx::make(o));
    return b.Release();
}
// the same ops, spelled in full: no spans, all ids and refs, a chunk per op if asked
inline rx::Frame plain(const Ops& ops, bool chunks = false) {
    string s;
    for (size_t i = 0; i < ops.size(); i++) {
        ref::Op o = ops[i];
        string v;
        for (auto& a : o.a) {
            if (a.t == ref::FLT) {
                char b[64];
                snprintf(b, 64, " ^%.17g", a.f);
                v += b;
                if (v.find_first_of(".e", v.rfind('^')) == string::npos) v += ".0";
                continue;
            }
            if (a.t != ref::STR) { v += " " + ref::show(a); continue; }
            v += " '";
            for (auto c : a.s) {
                char b[16];
                if (c < 32 || c == '\'' || c == '\\') { snprintf(b, 16, "\\u%04x", c); v += b; }
                else ref::utf8(v, c);
            }
            v += "'";
        }
        s += "@" + ref::text(o.id) + " :" + ref::text(o.ref) + v + (chunks || i + 1 == ops.size() ? " ;\n" : " ,\n");
    }
    return rx::Frame{s};
}
struct Got { rdtref::St st; Ops ops; string text, status, bad; };
inline Got result(ron::Status ok, const rx::Frame& f) {
    Got g;
    mc::transition();
    g.status = ok.str();
    g.text = f.data();
    if (!ok) {
        g.st = ok == ron::Status::CAUSEBREAK ? rdtref::BREAK : ok == ron::Status::NOT_IMPLEMENTED ? rdtref::NOTIMPL : rdtref::REFUSED;
        return g;
    }
    g.st = rdtref::OK;
    rx::Read r = rx::read(g.text);
    if (!r.clean || !r.bad.empty()) g.bad = "the result is no valid frame: " + r.status + " " + r.bad + " in " + g.text;
    g.ops = r.ops;
    return g;
}
// form < 0: let the code find it
inline Got merge(int form, const vector<rx::Frame>& in) {
    rx::Frame ret;
    if (form < 0) { ron::Status ok = ron::MergeFrames<rx::Frame>(ret, in); return result(ok, ret); }
    rx::Frame::Cursors cs;
    for (auto& f : in) { cs.emplace_back(f); if (!cs.back().Next()) cs.pop_back(); }
    ron::Status ok = ron::MergeCursors<rx::Frame>(ret, (ron::FORM)form, cs);
    return result(ok, ret);
}
inline string judge(const Out& want, const Got& got) {
    if (!got.bad.empty()) return got.bad;
    if (want.st != got.st) return "expected status " + std::to_string(want.st) + ", got " + got.status + " " + got.text;
    if (want.st != rdtref::OK) return "";
    return rx::diff(want.ops, got.ops, false);
}
inline string show(const vector<rx::Frame>& v) { string s; for (auto& f : v) s += "{" + f.data() + "}"; return s; }
}  // namespace rdtx
#endif
