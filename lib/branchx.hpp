// Histories of branch operations on the real database, against a map of lists.
#ifndef VERIF_BRANCHX_HPP
#define VERIF_BRANCHX_HPP
#include "storex.hpp"
namespace bx {
using namespace std;
using sx::Key;
using sx::Store;
using ref::U;

// the private handle of a branch, to flush it
struct CfTag { typedef Store::SharedPtr Store::*type; friend type member(CfTag); };
template <typename T, typename T::type M> struct Rob { friend typename T::type member(T) { return M; } };
template struct Rob<CfTag, &Store::cf_>;

static const Key K1{rx::uuid(rdtref::event(5, "K")), (ron::FORM)2}, K2{rx::uuid(rdtref::event(6, "K")), (ron::FORM)2}, K0{rx::uuid(rdtref::event(7, "K")), (ron::FORM)2};

inline U uu(const char* s) { U u; if (!ref::parse_uuid(s, u)) abort(); return u; }
struct Branch { bool alive{false}, handle{false}; vector<rdtref::Ops> one, two; };
// the database as it is to be
struct World {
    sx::Dir dir;
    vector<U> ids;
    vector<Branch> b;        // 0 is the default one
    vector<unique_ptr<Store>> h;
    int clock{0}, batches{0};

    explicit World(vector<U> i) : ids(std::move(i)), b(ids.size()), h(ids.size()) {}
    string name(size_t i) const { return "branch " + to_string(i) + " (" + rx::uuid(ids[i]).str() + ")"; }
    string init() {
        h[0].reset(new Store);
        ron::Status ok = h[0]->Create(ron::Uuid::NIL);
        if (!ok) return "no database: " + ok.str();
        b[0].alive = b[0].handle = true;
        return "";
    }
    bool others() const { for (size_t i = 1; i < b.size(); i++) if (b[i].alive) return true; return false; }
    Store* any() { for (size_t i = 0; i < b.size(); i++) if (b[i].handle) return h[i].get(); return nullptr; }
    string create(size_t i) {
        Store* live = any();
        bool fine = !b[i].alive && (live || !others());
        unique_ptr<Store> s(live ? new Store{live->db()} : new Store);
        ron::Status ok = s->Create(rx::uuid(ids[i]));
        mc::transition();
        if (bool(ok) != fine) return ok ? "created " + name(i) + ", which is there already or beside unopened ones" : "create of " + name(i) + " fails: " + ok.str();
        if (!ok) {
            string r = refuses(*s, "a store not created");
            return r;
        }
        b[i] = Branch{};
        b[i].alive = b[i].handle = true;
        h[i] = std::move(s);
        return "";
    }
    rx::Frame frame(size_t i, rdtref::Ops& o) {
        U id = rdtref::event(++clock, "W");
        o = {sx::op(id, rdtref::name("lww"), {ref::I(int64_t(i))})};
        return rdtx::frame(o);
    }
    string write(size_t i) {
        rdtref::Ops o;
        rx::Frame f = frame(i, o);
        ron::Status ok = h[i]->Write(K1, f);
        mc::transition();
        if (!ok) return "write to " + name(i) + " fails: " + ok.str();
        b[i].one.push_back(o);
        // a batch of one, two or three records
        int kind = ++batches % 3;
        Store::Records rec;
        if (kind != 0) { rec.emplace_back(K1, frame(i, o)); b[i].one.push_back(o); }
        rec.emplace_back(K2, frame(i, o));
        b[i].two.push_back(o);
        if (kind == 2) { rec.emplace_back(K1, frame(i, o)); b[i].one.push_back(o); }
        ok = h[i]->Write(rec);
        mc::transition();
        if (ok) ok = h[i]->Write(Store::Records{});
        return ok ? "" : "batch to " + name(i) + " fails: " + ok.str();
    }
    string drop(size_t i) {
        ron::Status ok = h[i]->Drop();
        mc::transition();
        if (i == 0) return ok ? "the default store is dropped" : "";
        if (!ok) return "drop of " + name(i) + " fails: " + ok.str();
        b[i] = Branch{};
        return "";
    }
    string flush(size_t i, bool compact) {
        auto d = sx::db(*h[i]);
        auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>((*h[i]).*member(CfTag()));
        rocksdb::CompactRangeOptions o;
        o.bottommost_level_compaction = rocksdb::BottommostLevelCompaction::kForce;
        auto ok = compact ? d->CompactRange(o, cf.get(), nullptr, nullptr) : d->Flush(rocksdb::FlushOptions(), cf.get());
        mc::transition();
        return ok.ok() ? "" : "flush of " + name(i) + " fails: " + ok.ToString();
    }
    string close(size_t i) {
        ron::Status ok = h[i]->Close();
        mc::transition();
        if (!ok) return "close of " + name(i) + " fails: " + ok.str();
        b[i].handle = false;
        return "";
    }
    string reopen() {
        for (auto& s : h) { if (s) s->Close(); s.reset(); }
        Store::Branches all;
        // what was in the map is no branch
        all.emplace(rx::uuid(uu("gone")), Store{});
        all.emplace(rx::uuid(ids.back()), Store{});
        ron::Status ok = Store::OpenAll(all);
        mc::transition();
        if (!ok) return "the database does not reopen: " + ok.str();
        for (size_t i = 0; i < b.size(); i++) {
            auto f = all.find(rx::uuid(ids[i]));
            b[i].handle = f != all.end();
            if (b[i].handle != b[i].alive) return name(i) + (b[i].alive ? " is gone" : " is there") + " after a reopening";
            if (!b[i].handle) continue;
            h[i].reset(new Store(f->second));
            all.erase(f);
        }
        if (!all.empty()) return "a branch never created: " + all.begin()->first.str();
        return "";
    }
    // offline, then everything is to be as it was
    string repair() {
        for (auto& s : h) { if (s) s->Close(); s.reset(); }
        ron::Status ok = Store::Repair();
        mc::transition();
        if (!ok) return "the repair fails: " + ok.str();
        return reopen();
    }
    // all of it is refused
    string refuses(Store& s, const string& what) {
        rx::Frame f;
        rdtref::Ops o;
        rx::Frame w = frame(9, o);
        string was = "garbage";
        if (s.Write(K1, w)) return what + " takes a write";
        Store::Records rec;
        rec.emplace_back(K1, w);
        if (s.Write(rec)) return what + " takes a batch";
        if (s.Read(K1, f)) return what + " is read";
        if (s.Drop()) return what + " is dropped";
        Store::Iterator i{s};
        if (i.SeekTo(Key::ZERO) || i.key() != Key::END || i.Next()) return what + " is iterated";
        mc::transition(5);
        return "";
    }
    string contents(size_t i, Store& s) {
        rdtref::Out none;
        for (auto& p : {make_pair(K1, &b[i].one), make_pair(K2, &b[i].two)}) {
            string r = sx::read(s, p.first, p.second->empty() ? none : rdtref::log_merge(*p.second));
            if (!r.empty()) return name(i) + ": " + r;
        }
        string r = sx::read(s, K0, none);
        if (!r.empty()) return name(i) + ": a key never written: " + r;
        // nothing else is in it but the zero record
        Store::Iterator it{s};
        if (!it.SeekTo(Key::ZERO)) return name(i) + ": no seek";
        vector<Key> want{Key::ZERO}, got;
        if (!b[i].one.empty()) { want.push_back(K1); want.push_back(K2); }
        for (; it.key() != Key::END && got.size() < 9; it.Next()) got.push_back(it.key());
        if (got != want) return name(i) + ": the keys are not the ones written";
        mc::transition(3);
        return "";
    }
    string verify() {
        string st;
        for (size_t i = 0; i < b.size(); i++) {
            st += (b[i].alive ? b[i].handle ? "o" : "c" : "-") + to_string(b[i].one.size());
            if (!h[i]) continue;
            string r = b[i].handle ? contents(i, *h[i]) : refuses(*h[i], "the closed " + name(i));
            if (!r.empty()) return r;
        }
        mc::state(st);
        return "";
    }
};

// history letters: 1 2 create; a b c write to 0 1 2; y z drop 1 2; p q r close 0 1 2; R reopen
inline string run(World& w, const string& word) {
    string r = w.init();
    for (size_t k = 0; k < word.size() && r.empty(); k++) {
        char c = word[k];
        if (c >= '1' && c <= '3') r = w.create(size_t(c - '0'));
        else if (c >= 'a' && c <= 'd') r = w.write(size_t(c - 'a'));
        else if (c >= 'x' && c <= 'z') r = w.drop(size_t(c - 'x'));
        else if (c >= 'p' && c <= 's') r = w.close(size_t(c - 'p'));
        else if (c == 'f') { auto* s = w.any(); if (s) { auto d = sx::db(*s); d->Flush(rocksdb::FlushOptions(), d->DefaultColumnFamily()); } }
        else if (c == 'k') { for (size_t i = 0; i < w.b.size(); i++) if (w.b[i].handle && r.empty()) r = w.flush(i, true); }
        else if (c >= 'A' && c <= 'C') r = w.flush(size_t(c - 'A'), false);
        else if (c == 'P') r = w.repair();
        else r = w.reopen();
        if (r.empty()) r = w.verify();
        if (!r.empty()) return "after " + word.substr(0, k + 1) + ": " + r;
    }
    if (r.empty()) r = w.reopen();
    if (r.empty()) r = w.verify();
    mc::trace();
    return r.empty() ? "" : "at the end of " + word + ": " + r;
}
// does each letter make sense where it stands?
inline bool sane(const string& word, int n) {
    vector<int> st(size_t(n), 0);  // 0 none, 1 open, 2 closed
    st[0] = 1;
    for (char c : word) {
        size_t i;
        if (c >= '1' && c <= '3') {
            i = size_t(c - '0');
            bool open = false, others = false;
            for (int k = 0; k < n; k++) { open |= st[size_t(k)] == 1; others |= k && st[size_t(k)]; }
            if (i > 1 && word.find(char(c - 1)) > word.find(c)) return false;  // first the first
            if (!st[i] && (open || !others)) st[i] = 1;
        } else if (c >= 'a' && c <= 'd') { i = size_t(c - 'a'); if (st[i] != 1) return false; }
        else if (c >= 'x' && c <= 'z') { i = size_t(c - 'x'); if (st[i] != 1) return false; if (i) st[i] = 0; }
        else if (c >= 'p' && c <= 's') { i = size_t(c - 'p'); if (st[i] != 1) return false; st[i] = 2; }
        else if (c >= 'A' && c <= 'C') { i = size_t(c - 'A'); if (st[i] != 1) return false; }
        else if (c == 'R' || c == 'P') { for (auto& s : st) if (s) s = 1; }
    }
    return true;
}
inline const vector<string>& idset() {
    static vector<string> v{"~+A", "1gABC+A", "1gABC+B", "1gABC-A", "lww", "test", "abc%def", "name$scope", "0+A", "1+A", "~~~~~~~~~~+A", "1gABC0000A+A",
                            "~+~~~~~~~~~~", "A+1gABC", "0-A", "error", "lww$A", "0000000001+A", "~", "~$~", "abc%def0000001", "Default", "defaulT", "default1", "rocksdb", "d$efault"};
    return v;
}
// "n step": many branches; every step-th is dropped, and comes again
// the database is closed and opened in between, or repaired
inline string many(const string& t, bool mend = false) {
    auto p = mc::split(t, ' ');
    size_t n = size_t(stoi(p[0])), step = size_t(stoi(p[1]));
    vector<U> ids{U{0, 0}};
    for (size_t i = 1; i <= n; i++) ids.push_back(i % 4 == 3 ? U{i, uu("0+B").o} : i % 4 == 2 ? U{uu("~+A").v, uu("0+A").o + i} : i % 4 == 1 ? U{uu("name").v + i, 0} : U{i << 20, uu("0-A").o});
    World w(ids);
    mc::nontrivial(); mc::trace();
    auto again = [&] { return mend ? w.repair() : w.reopen(); };
    string r = w.init();
    auto all = [&](const char* when) { if (r.empty()) r = w.verify(); if (!r.empty() && r.find("branches, ") == string::npos) r = "of " + to_string(n) + " branches, " + when + ": " + r; return r.empty(); };
    for (size_t i = 1; i <= n && r.empty(); i++) { r = w.create(i); if (r.empty() && i % 2) r = w.write(i); if (r.empty() && i % 5 == 0) r = w.write(i / 2); }
    if (!all("created") || !(r = again()).empty() || !all("reopened")) return r;
    for (size_t i = 1; i <= n && r.empty(); i += step) r = w.drop(i);
    for (size_t i = 0; i <= n && r.empty(); i += 3) if (w.b[i].handle) r = w.write(i);
    if (!all("some dropped") || !(r = again()).empty() || !all("some dropped, reopened")) return r;
    for (size_t i = 1; i <= n && r.empty(); i += step) { r = w.create(i); if (r.empty() && i % 3 == 0) r = w.write(i); }
    if (!all("created again") || !(r = again()).empty()) return r;
    all("created again, reopened");
    return r;
}
}  // namespace bx
#endif
