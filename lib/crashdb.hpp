// Histories of steps on the real database, killed at every file system call of
// the last one, reopened and compared to what was acknowledged.
#ifndef VERIF_CRASHDB_HPP
#define VERIF_CRASHDB_HPP
#include "crashx.hpp"
namespace {
using namespace std;
using mc::Gen;
using sx::Key;
using sx::Store;
using ref::U;

static const ron::Uuid BRANCH = rx::uuid(rdtref::event(0xFFFFFFFFFFFFFFFULL >> 0, "A"));
static Key key(int k) { return Key{rx::uuid(rdtref::event(uint64_t(5 + k), "K")), (ron::FORM)(k == 1 ? 13 : 2)}; }
// the op that step i writes to key k of branch b
static rdtref::Ops op_of(int step, int k, int b, bool big) {
    ref::Op o = sx::op(rdtref::event(uint64_t(1 + step * 8 + k), b ? "B" : "A"), rdtref::name("lww"), {ref::I(step)});
    if (big) { string s(270000, char('a' + k)); o.a.push_back(ref::S(s)); }
    return {o};
}
struct Model {
    bool alive[2]{false, false};
    vector<rdtref::Ops> at[2][3];
    void put(int b, int k, const rdtref::Ops& o) { at[b][k].push_back(o); }
    void step(char c, int i) {
        switch (c) {
            case 'C': alive[0] = true; break;
            case 'w': put(0, 0, op_of(i, 0, 0, false)); break;
            case 'l': put(0, 1, op_of(i, 1, 0, false)); break;
            case 'b': case 'B':
                for (int k : {0, 1, 2, 0}) put(0, k, op_of(i, k, 0, c == 'B'));
                break;
            case 'n': alive[1] = true; break;
            case 's': put(1, 0, op_of(i, 0, 1, false)); break;
            case 't': for (int k : {0, 1, 2}) put(1, k, op_of(i, k, 1, false)); break;
            case 'd': alive[1] = false; for (auto& v : at[1]) v.clear(); break;
        }
    }
    rdtref::Out want(int b, int k) const {
        auto& v = at[b][k];
        if (v.empty()) return {};
        return k == 1 ? rdtref::set_merge(v) : rdtref::log_merge(v);
    }
};
struct Db {
    unique_ptr<Store> h[2];
    string open_all() {
        Store::Branches all;
        ron::Status ok = Store::OpenAll(all);
        if (!ok) return "the database does not reopen: " + ok.str();
        h[0].reset(); h[1].reset();
        for (auto& p : all) {
            if (p.first == ron::Uuid::NIL) h[0].reset(new Store(p.second));
            else if (p.first == BRANCH) h[1].reset(new Store(p.second));
            else return "a branch never created: " + p.first.str();
        }
        if (!h[0]) return "the default store is gone";
        return "";
    }
    void close() { for (auto& s : h) if (s) { s->Close(); s.reset(); } }
    string step(char c, int i) {
        ron::Status ok;
        switch (c) {
            case 'C': h[0].reset(new Store); ok = h[0]->Create(ron::Uuid::NIL); break;
            case 'w': ok = h[0]->Write(key(0), rdtx::frame(op_of(i, 0, 0, false))); break;
            case 'l': ok = h[0]->Write(key(1), rdtx::frame(op_of(i, 1, 0, false))); break;
            case 's': ok = h[1]->Write(key(0), rdtx::frame(op_of(i, 0, 1, false))); break;
            case 'b': case 'B': case 't': {
                Store::Records rec;
                int b = c == 't' ? 1 : 0;
                for (int k : {0, 1, 2}) rec.emplace_back(key(k), rdtx::frame(op_of(i, k, b, c == 'B')));
                if (!b) rec.push_back(rec[0]);
                ok = h[b]->Write(rec);
                break;
            }
            case 'f': return sx::flush(*h[0]);
            case 'c': { string r = sx::flush(*h[0]); return r.empty() ? sx::compact(*h[0]) : r; }
            case 'o': close(); return open_all();
            case 'P': { close(); ron::Status r = Store::Repair(); return r ? open_all() : "the repair fails: " + r.str(); }
            case 'n': h[1].reset(new Store{h[0]->db()}); ok = h[1]->Create(BRANCH); break;
            case 'd': ok = h[1]->Drop(); h[1].reset(); break;
        }
        return ok ? "" : string("step ") + c + " fails: " + ok.str();
    }
};
static string run(Db& db, const string& word) {
    for (size_t i = 0; i < word.size(); i++) {
        if (i + 1 == word.size()) cx::fire();
        string r = db.step(word[i], int(i));
        if (!r.empty()) return "step " + to_string(i + 1) + ": " + r;
        cx::sh()->acked = int(i + 1);
    }
    return "";
}
static string same(Db& db, const Model& m) {
    for (int b = 0; b < 2; b++) {
        if (bool(db.h[b]) != m.alive[b]) return string(b ? "the branch" : "the store") + (m.alive[b] ? " is gone" : " is there");
        if (!m.alive[b]) continue;
        for (int k = 0; k < 3; k++) {
            string r = sx::read(*db.h[b], key(k), m.want(b, k));
            if (!r.empty()) return string(b ? "branch" : "default store") + ", key " + to_string(k) + ": " + r.substr(0, 600);
        }
        Store::Iterator i{*db.h[b]};
        ron::Status ok = i.SeekTo(Key::ZERO);
        if (!ok) return "no seek: " + ok.str();
        for (; i.key() != Key::END; i.Next()) {
            bool known = i.key() == Key::ZERO;
            for (int k = 0; k < 3; k++) known |= i.key() == key(k) && !m.at[b][k].empty();
            if (!known) return "a key never written: " + i.key().str();
        }
    }
    return "";
}
static string zero_there(Db& db, int b) {
    rx::Frame f;
    if (!db.h[b]->Read(Key::ZERO, f) || f.empty()) return "the tip record is gone";
    return "";
}
// in a process of its own: reopen, compare to one of the two, go on, reopen again
static bool& mend() { static bool m = false; return m; }  // a repair comes before the reopening
static string verify(const string& word, int acked, bool died) {
    Model before, after;
    for (int i = 0; i < acked; i++) before.step(word[size_t(i)], i);
    after = before;
    if (died && acked < int(word.size())) after.step(word[size_t(acked)], acked);
    Db db;
    string r;
    if (mend()) { ron::Status ok = Store::Repair(); if (!ok && before.alive[0]) return "the repair fails: " + ok.str(); }
    if (!before.alive[0]) {
        // it died while the database was made: making it again gets there
        r = db.step('C', 0);
        if (!r.empty()) return "not created a second time: " + r;
        before.alive[0] = after.alive[0] = true;
    } else r = db.open_all();
    if (!r.empty()) return r;
    Model* now = &before;
    r = same(db, before);
    if (!r.empty()) {
        string r2 = same(db, after);
        if (!r2.empty()) return "neither without the last step (" + r + ") nor with it (" + r2 + ")";
        now = &after;
    }
    if (r.empty() || word[size_t(acked)] != 'n') for (int b = 0; b < 2; b++) if (now->alive[b] && (b == 0 || before.alive[1])) { string z = zero_there(db, b); if (!z.empty()) return z; }
    // and it goes on
    string more = now->alive[1] ? "wtbof" : "wbofn";
    for (int i = 0; i < int(more.size()); i++) {
        r = db.step(more[size_t(i)], int(word.size()) + i);
        if (!r.empty()) return "going on after the crash: " + r;
        now->step(more[size_t(i)], int(word.size()) + i);
        r = same(db, *now);
        if (!r.empty()) return string("going on after the crash, ") + more[size_t(i)] + ": " + r;
    }
    db.close();
    r = db.open_all();
    if (r.empty()) r = same(db, *now);
    return r.empty() ? "" : "reopened once more: " + r;
}
static vector<long> parts(long n) {
    if (n < 0) return {};
    set<long> s{1, 6, 7, n / 2, n - 1, n};  // none of it was the first try
    if (mc::thorough() && n <= 300) for (long k = 1; k <= n; k++) s.insert(k);
    if (n > 40000) { s.insert(32768); s.insert(32768 - 7); s.insert(65536); s.insert(40000); }
    vector<long> v;
    for (long k : s) if (k > 0 && k <= n) v.push_back(k);
    return v;
}
struct Point { long at, bytes; };
// f(point) runs it and returns a violation or "", having set the number of bytes of the call
// one in n calls is taken, from the m-th on
static string everywhere(const function<string(Point, bool&, long&)>& f, long m = 0, long n = 1) {
    for (long at = 1 + m; at < 5000; at += n) {
        bool died = false;
        long size = -1;
        string r = f({at, 0}, died, size);
        if (!r.empty()) return r;
        if (!died) return "";  // there are no more
        for (long k : parts(size)) {
            bool d2 = false;
            long s2 = -1;
            r = f({at, k}, d2, s2);
            if (!r.empty()) return r;
        }
    }
    return "more calls than expected";
}
static string crash(const string& word, Point p, const string& path, bool& died, long& size, int& acked, string& where) {
    int sig = 0;
    sx::rm_tree(path);
    cx::arm(p.at, p.bytes, path);
    int rc = cx::child([&] { Db* db = new Db; return run(*db, word); }, &sig);
    died = cx::sh()->died;
    size = cx::sh()->size;
    acked = cx::sh()->acked;
    where = died ? "killed at call " + to_string(p.at) + ", " + string(cx::sh()->what) + (size >= 0 ? ", " + to_string(p.bytes) + " bytes of " + to_string(size) + " done" : "") : "killed after the last step";
    mc::transition();
    if (!died && rc != 0) return "history " + word + " dies by itself, signal " + to_string(sig);
    if (!died && cx::sh()->verdict[0]) return "history " + word + ": " + cx::sh()->verdict;
    return "";
}
static string judge(const string& word, int acked, bool died, const string& where) {
    int sig = 0;
    cx::arm(0, 0, "");
    int rc = cx::child([&] { return verify(word, acked, died); }, &sig);
    mc::transition();
    mc::trace();
    if (rc) return "history " + word + " " + where + ": reopening dies of signal " + to_string(sig);
    if (cx::sh()->verdict[0]) return "history " + word + " " + where + ": " + string(cx::sh()->verdict);
    return "";
}
static string check_once(const string& t) {
    auto parts = mc::split(t, ' ');
    string word = parts[0];
    long sm = parts.size() > 1 ? stol(parts[1]) : 0, sn = parts.size() > 1 ? stol(parts[2]) : 1;
    cx::init();
    sx::Dir dir;
    long n = 0;
    string out = everywhere([&](Point p, bool& died, long& size) -> string {
        int acked;
        string where, r = crash(word, p, dir.path, died, size, acked, where);
        if (!r.empty()) return r;
        n++;
        mc::state(word + to_string(p.at) + "." + to_string(p.bytes));
        return judge(word, acked, died, where);
    }, sm, sn);
    if (n > 1) mc::nontrivial();
    return out;
}
// the recovery is killed, too
static string check_again(const string& t) {
    auto parts = mc::split(t, ' ');
    string word = parts[0];
    cx::init();
    sx::Dir dir;
    mc::nontrivial();
    return everywhere([&](Point p, bool& died, long& size) -> string {
        return everywhere([&](Point q, bool& died2, long& size2) -> string {
            int acked;
            string where;
            string r = crash(word, p, dir.path, died, size, acked, where);
            if (!r.empty()) return r;
            if (!died) return "";
            bool made = acked > 0;
            cx::arm(q.at, q.bytes, dir.path);
            int a2 = acked;
            int rc = cx::child([&]() -> string { Db* db = new Db; cx::fire(); return made ? db->open_all() : db->step('C', 0); });
            died2 = cx::sh()->died;
            size2 = cx::sh()->size;
            string w2 = where + ", then again on reopening at call " + to_string(q.at) + ", " + string(cx::sh()->what) + (size2 >= 0 ? ", " + to_string(q.bytes) + " bytes of " + to_string(size2) + " done" : "");
            mc::transition();
            if (!died2 && (rc || cx::sh()->verdict[0])) return "history " + word + " " + where + ": it does not reopen: " + cx::sh()->verdict;
            if (!made) a2 = 0;
            mc::state(word + to_string(p.at) + "." + to_string(p.bytes) + "," + to_string(q.at) + "." + to_string(q.bytes));
            return judge(word, a2, true, w2);
        });
    }, stol(parts[1]), stol(parts[2]));
}
static bool sane(const string& w) {
    bool open = false;
    for (char c : w) {
        if (c == 'n') { if (open) return false; open = true; }
        else if (c == 'd') { if (!open) return false; open = false; }
        else if ((c == 's' || c == 't') && !open) return false;
    }
    return true;
}
static void words(Gen& g, const string& abc, int n, const string& pre = "", const string& must = "", int shards = 1) {
    mc::words(int(abc.size()), n, [&](const vector<int>& v) {
        string w = "C" + pre;
        for (int i : v) w += abc[size_t(i)];
        if (sane(w) && (must.empty() || w.find_first_of(must) != string::npos)) for (int m = 0; m < shards; m++) g.add(w + (shards > 1 ? " " + to_string(m) + " " + to_string(shards) : ""));
    });
}
}  // namespace
#endif
