// The real database in a scratch directory of its own, its controls (flush,
// compaction, reopening), and the frames written to it.
#ifndef VERIF_STOREX_HPP
#define VERIF_STOREX_HPP
#include <ftw.h>
#include <rocksdb/db.h>
#include <rocksdb/version.h>
#include "rdtx.hpp"
#include "db/rocks_store.hpp"

// Preallocation takes no part in what is checked, but on a memory file system
// it costs a log's full size in zeroed pages for every database opened.
extern "C" {
__attribute__((weak, visibility("default"))) int fallocate(int, int, off_t, off_t) { return 0; }
__attribute__((weak, visibility("default"))) int fallocate64(int, int, off64_t, off64_t) { return 0; }
}

namespace sx {
using rdtref::Ops;
using rdtref::Out;
using std::string;
using std::vector;
using Store = ron::RocksDBStore<rx::Frame>;
using ron::Key;

inline int rm_one(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
inline void rm_tree(const string& d) { nftw(d.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT); }

// a scratch database directory
struct Dir {
    string path;
    Dir() {
        static int n = 0;
        path = mc::work_dir() + "/db." + std::to_string(getpid()) + "." + std::to_string(n++);
        rm_tree(path);
        ron::ROCKSDB_STORE_DIR = path;
    }
    ~Dir() { rm_tree(path); }
};
inline std::shared_ptr<rocksdb::DB> db(Store& s) { return std::static_pointer_cast<rocksdb::DB>(s.db()); }
inline string flush(Store& s) {
    auto d = db(s);
    auto r = d->Flush(rocksdb::FlushOptions(), d->DefaultColumnFamily());
    mc::transition();
    return r.ok() ? "" : "flush fails: " + r.ToString();
}
inline string compact(Store& s) {
    auto d = db(s);
    rocksdb::CompactRangeOptions o;
    o.bottommost_level_compaction = rocksdb::BottommostLevelCompaction::kForce;
    auto r = d->CompactRange(o, nullptr, nullptr);
    mc::transition();
    return r.ok() ? "" : "compaction fails: " + r.ToString();
}
inline string reopen(Store& s) {
    s.Close();
    Store::Branches b;
    ron::Status ok = Store::OpenAll(b);
    mc::transition();
    if (!ok) return "the database does not reopen: " + ok.str();
    auto i = b.find(ron::Uuid::NIL);
    if (i == b.end()) return "the default store is gone";
    s = i->second;
    return "";
}
inline Ops ops_of(const string& text, string& bad) {
    if (text.empty()) return {};
    rx::Read r = rx::read(text);
    if (!r.clean || !r.bad.empty()) bad = "no valid frame: " + r.status + " " + r.bad + " in " + text;
    return r.ops;
}
inline string judge(const Out& want, const ron::Status& ok, const string& text) {
    if (want.st != rdtref::OK) return ok ? "read as " + text + ", though the frames do not merge" : "";
    if (!ok) return "read fails: " + ok.str();
    string bad;
    Ops got = ops_of(text, bad);
    if (!bad.empty()) return bad;
    return rx::diff(want.ops, got, false);
}
inline string read(Store& s, Key k, const Out& want) {
    rx::Frame f;
    ron::Status ok = s.Read(k, f);
    mc::transition();
    return judge(want, ok, f.data());
}

// frames by form: 0..2 are the main ones, 3 is empty, 4 and 5 are more
struct Source { int form; vector<Ops> ops; vector<rx::Frame> frames; };
inline ref::Op op(ref::U id, ref::U r, vector<ref::A> a = {}) { ref::Op o; o.id = id; o.ref = r; o.a = a; return o; }
inline const vector<Source>& sources() {
    static vector<Source> all;
    if (!all.empty()) return all;
    using namespace ref;
    auto e = [](uint64_t v, const char* o) { return rdtref::event(v, o); };
    auto n = [](const char* s) { return rdtref::name(s); };
    auto put = [&](int form, vector<Ops> v) {
        Source s;
        s.form = form;
        s.ops = v;
        for (auto& o : v) s.frames.push_back(o.empty() ? rx::Frame{} : s.frames.size() == 1 ? rdtx::plain(o) : rdtx::frame(o));
        all.push_back(s);
    };
    U a1 = e(1, "A"), a2 = e(2, "A"), a3 = e(3, "A"), a4 = e(4, "A"), b3 = e(3, "B"), b5 = e(5, "B"), b6 = e(6, "B");
    // sets of events
    Op l1 = op(a1, n("lww")), l2 = op(a2, a1, {Q(n("key")), S("it's \\ \xE2\x82\xAC")}), l3 = op(b3, a1, {Q(n("key")), I(-7)}), l4 = op(a3, a2, {Q(n("other")), F(0.5)});
    put(13, {{l1, l2}, {l3}, {l2, l4, l3}, {}, {l4}, {l1}});
    Op y1 = op(a1, n("yarn"), {Q(n("name")), S("x")}), y2 = op(a2, a1, {S("a")}), y3 = op(a3, a2, {S("b")}), y4 = op(a4, a3, {S("c")});
    put(1, {{y1, y2}, {y2, y3, y4}, {y4}, {}, {y1}, {y3}});
    Op m1 = op(a1, n("meta"), {Q(a1), Q(n("rga")), S("abc")}), m2 = op(b3, n("meta"), {Q(a1), Q(n("rga")), S("def")}), m3 = op(a4, n("meta"), {Q(a4), Q(n("lww")), S("")});
    put(8, {{m1}, {m2, m3}, {m1, m3}, {}, {m2}, {m3}});
    Op x1 = op(a1, n("mx")), x2 = op(a2, a1, {I(0), I(1), S("v")}), x3 = op(b3, a2, {I(0), I(1), F(1)}), x4 = op(b5, b3, {I(2), I(2), I(9)});
    put(15, {{x1, x3}, {x2, x4}, {x4}, {}, {x2}, {x1}});
    // causal trees; some orders of the pieces do not attach until more is written
    Op r1 = op(a1, n("rga")), r2 = op(a2, a1, {S("a")}), r3 = op(a3, a2, {S("b")}), r4 = op(b3, a1, {S("c")}), r5 = op(b5, a2, {S("d")}), r6 = op(b6, b5, {Q(n("rm"))});
    put(14, {{r1, r2}, {r4}, {r5, r6}, {}, {r3}, {r1, r4, r2, r5, r3}});
    // logs: repeated writes stay repeated
    Op g1 = op(a1, n("lww")), g2 = op(a2, a1, {Q(n("k")), I(1)}), g3 = op(b3, a2, {Q(n("k")), I(2)}), g4 = op(a4, b3, {Q(n("k")), I(3)});
    put(2, {{g1}, {g2, g3}, {g4}, {}, {g3}, {g2}});
    Op p1 = op(a1, n("max")), p2 = op(a2, a1, {I(5)}), p3 = op(b3, a1, {I(-6)}), p4 = op(b5, a1, {I(500)}), p5 = op(b6, a1, {I(500)});
    put(19, {{p1, p2}, {p4}, {p3}, {}, {p5}, {p1}});
    // the last one stands
    put(0, {{op(a1, n("zero"))}, {op(a2, n("zero"), {I(1)})}, {op(b3, n("0"), {S("x")})}, {}, {op(a4, n("zero"))}, {op(b5, n("zero"))}});
    return all;
}
}  // namespace sx
#endif
