// C21: the in-memory overlay over a base store: all histories of writes to
// both, reads and walks in between, draining, against lists of what was written.
#include "scalex.hpp"
using namespace std;
using mc::Gen;
using sx::Key;

// one history over one key; B is the base store's class
template <class B>
struct Run {
    using Join = ron::JoinedStore<B, sx::Mem>;
    B& base;
    sx::Mem over;
    Join join;
    Key key, near;
    const sx::Source& src;
    const vector<int>& pick;
    vector<rdtref::Ops> inA, inB, inN;

    Run(B& b, Key k, Key n, const sx::Source& s, const vector<int>& p) : base(b), over(), join(base, over), key(k), near(n), src(s), pick(p) {}
    rdtref::Out part(const vector<rdtref::Ops>& in) const { return in.empty() ? rdtref::Out{} : rdtref::merge(src.form, in); }
    rdtref::Out both() const {
        rdtref::Out a = part(inA), b = part(inB);
        if (a.st != rdtref::OK) return a;
        if (b.st != rdtref::OK) return b;
        if (a.ops.empty()) return b;
        if (b.ops.empty()) return a;
        return rdtref::merge(src.form, {a.ops, b.ops});
    }
    void put(vector<rdtref::Ops>& in, int f) { if (!src.ops[f].empty()) in.push_back(src.ops[f]); }
    template <class S>
    string read(S& s, Key k, const rdtref::Out& want, const char* what, bool dirty) {
        rx::Frame f;
        // what the result held before must not matter
        if (dirty) f = src.frames[5];
        ron::Status ok = s.Read(k, f);
        mc::transition();
        string r = sx::judge(want, ok, f.data());
        return r.empty() ? "" : string(what) + ": " + r;
    }
    // an iterator's value is the read's; what does not merge has no value or an error in its place
    template <class S>
    string walk(S& s, const rdtref::Out& want, bool some, const char* what) {
        typename S::Iterator i{s};
        ron::Status ok = i.SeekTo(key);
        mc::transition();
        if (!ok) return want.st == rdtref::OK ? string(what) + ": seek fails: " + ok.str() : "";
        if (!some) return i.key() == key ? string(what) + ": it stands on a key never written" : "";
        if (i.key() != key) return want.st == rdtref::OK ? string(what) + ": it does not stand on the key" : "";
        string bad;
        auto ops = sx::ops_at(i.value(), bad);
        if (!bad.empty()) return string(what) + ": " + bad;
        if (want.st == rdtref::OK) {
            string r = rx::diff(want.ops, ops, false);
            if (!r.empty()) return string(what) + ": " + r;
        } else if (!ops.empty() && ops[0].ref != rx::u(ron::Uuid::FATAL)) return string(what) + ": a value, though it does not merge";
        i.Next();
        if (i.key() == key) return string(what) + ": the key again";
        return "";
    }
    bool someA{false}, someB{false};
    string op(char o, bool dirty) {
        ron::Status ok;
        if (o >= 'a' && o < 'e') {
            int f = pick[o - 'a'];
            ok = base.Write(key, src.frames[f]);
            put(inA, f);
            someA = true;
        } else if (o >= 'A' && o < 'E') {
            int f = pick[o - 'A'];
            ok = join.Write(key, src.frames[f]);
            put(inB, f);
            someB = true;
        } else if (o == 'w') {
            typename Join::Records rec;
            rec.emplace_back(key, src.frames[pick[0]]);
            rec.emplace_back(near, src.frames[pick[0]]);
            rec.emplace_back(key, src.frames[pick[1]]);
            ok = join.Write(rec);
            put(inB, pick[0]);
            put(inB, pick[1]);
            if (!src.ops[pick[0]].empty()) inN.push_back(src.ops[pick[0]]);
            someB = true;
        }
        mc::transition();
        if (!ok) return "a write fails: " + ok.str();
        switch (o) {
            case 'r': return read(join, key, both(), "joined read", dirty);
            case 'i': return walk(join, both(), someA || someB, "joined walk");
            case 'm': return read(over, key, part(inB), "read of the overlay", dirty);
            case 'n': return walk(over, part(inB), someB, "walk of the overlay");
            case 's': return read(base, key, part(inA), "read of the base", dirty);
            case 'v': {
                typename sx::Mem::Records rec;
                over.Release(rec);
                ok = base.Write(rec);
                if (!ok) return "the overlay does not drain: " + ok.str();
                over.Close();
                inA.insert(inA.end(), inB.begin(), inB.end());
                inB.clear();
                someA = someA || someB;
                someB = false;
                return read(base, key, part(inA), "read of the base, drained into", dirty);
            }
        }
        return "";
    }
    string go(const string& word) {
        string r;
        for (size_t i = 0; i < word.size() && r.empty(); i++) {
            r = op(word[i], i & 1);
            if (!r.empty()) return "at step " + to_string(i + 1) + " of " + word + ": " + r;
        }
        mc::trace();
        // a write where nothing may be written changes nothing
        if (join.Write(Key::END, src.frames[0])) return word + ": a write past all the keys";
        for (char o : string("smrinirmsvrs")) {
            r = op(o, o == 'r');
            if (!r.empty()) return "after " + word + ", " + o + ": " + r;
        }
        string r2 = read(join, near, part(inN), "the neighbour key", false);
        if (!r2.empty()) return "after " + word + ": " + r2;
        mc::state(ref::show(part(inA).ops, false) + (part(inA).st == rdtref::OK ? "" : "!"));
        return "";
    }
};
static string describe(const sx::Source& src, const vector<int>& pick) {
    string s = " (a-d, A-D write to base and overlay:";
    for (int f : pick) s += " " + src.frames[f].data();
    return s + ")";
}
// "store src alphabet depth prefix"
static string check(const string& t) {
    auto p = mc::split(t, ' ');
    auto& src = sx::sources()[stoi(p[1])];
    string abc = p[2];
    int depth = stoi(p[3]);
    string prefix = p.size() > 4 ? p[4] : "";
    vector<int> pick{0, 1, 2, 4};
    if (abc.find('D') == string::npos) pick = {0, 1, 2};
    if (p[0].size() > 1 && p[0][1] == 'e') pick = {0, 3, 1};  // with an empty frame
    unique_ptr<sx::Dir> dir;
    sx::Store disk;
    if (p[0][0] == 'd') {
        dir.reset(new sx::Dir);
        ron::Status ok = disk.Create(ron::Uuid::NIL);
        if (!ok) return "no database: " + ok.str();
    }
    string out;
    uint64_t at = 10;
    mc::nontrivial();
    mc::words(int(abc.size()), depth - int(prefix.size()), [&](const vector<int>& w) {
        if (!out.empty()) return;
        string word = prefix;
        for (int i : w) word += abc[i];
        // reads after reads, and reads first, tell nothing new
        if (word.find("ii") != string::npos || word.find("rr") != string::npos || word.find("vv") != string::npos) return;
        at += 2;
        Key k{rx::uuid(rdtref::event(at, "K")), (ron::FORM)src.form}, n{rx::uuid(rdtref::event(at + 1, "K")), (ron::FORM)src.form};
        if (p[0][0] == 'd') {
            Run<sx::Store> r(disk, k, n, src, pick);
            out = r.go(word);
        } else {
            sx::Mem m;
            Run<sx::Mem> r(m, k, n, src, pick);
            out = r.go(word);
        }
        if (!out.empty()) out += describe(src, pick);
    });
    return out;
}
static void histories(Gen& g, const string& store, const string& abc, int depth, bool split) {
    for (size_t s = 0; s < sx::sources().size(); s++) {
        string head = store + " " + to_string(s) + " " + abc + " " + to_string(depth);
        if (!split) { g.add(head); continue; }
        for (char c : abc) for (char d : abc) g.add(head + " " + c + d);
    }
}
// scans of several keys that look at some of the values only
template <class B>
static string scans(B* shared, const sx::Source& src, const string& ca, const string& cb, uint64_t at, int depth) {
    using Join = ron::JoinedStore<B, sx::Mem>;
    string out;
    int round = 0;
    mc::words(5, depth, [&](const vector<int>& w) {
        if (!out.empty()) return;
        // a memory base is new each time; the disk is written once, no scan may change it
        B own;
        B& base = shared ? *shared : own;
        sx::Mem over;
        Join join{base, over};
        vector<Key> keys;
        vector<vector<rdtref::Ops>> in[2];
        static const vector<int> PA{0, 1, 5}, PB{1, 5, 0};
        for (size_t i = 0; i < ca.size(); i++) {
            keys.push_back(Key{rx::uuid(rdtref::event(at + i, "K")), (ron::FORM)src.form});
            for (auto& v : in) v.push_back({});
            for (int k = 0; k < ca[i] - '0'; k++) { if ((shared && round > 0) || base.Write(keys[i], src.frames[PA[k]])) in[0][i].push_back(src.ops[PA[k]]); else out = "a write fails"; }
            for (int k = 0; k < cb[i] - '0'; k++) { if (join.Write(keys[i], src.frames[PB[k]])) in[1][i].push_back(src.ops[PB[k]]); else out = "a write fails"; }
        }
        auto want = [&](size_t i, int which) {
            vector<rdtref::Ops> f;
            for (int s = 0; s < 2; s++) if (which >> s & 1) f.insert(f.end(), in[s][i].begin(), in[s][i].end());
            return f.empty() ? rdtref::Out{} : rdtref::merge(src.form, f);
        };
        round++;
        string hist;
        auto run = [&](auto& s, int which) -> string {
            typename std::remove_reference<decltype(s)>::type::Iterator i{s};
            if (!i.SeekTo(keys[0])) return "seek fails";
            auto live = [&](size_t n) { while (n < keys.size() && want(n, which).ops.empty()) n++; return n; };
            size_t n = live(0);
            for (size_t st = 0; st < w.size() && n < keys.size(); st++) {
                if (i.key() != keys[n]) return "it stands on " + sx::showk(i.key()) + ", not on " + sx::showk(keys[n]);
                int o = w[st];
                if (o == 4) { if (!i.SeekTo(keys[0])) return "seek fails"; n = live(0); hist += " first"; continue; }
                // look not at all, once or twice, or look and seek the same key again
                for (int k = 0; k < (o == 2 ? 2 : o ? 1 : 0); k++) {
                    string bad;
                    auto ops = sx::ops_at(i.value(), bad);
                    mc::transition();
                    if (bad.empty()) bad = rx::diff(want(n, which).ops, ops, false);
                    if (!bad.empty()) return "value at " + sx::showk(keys[n]) + ": " + bad;
                }
                hist += o == 3 ? " value seek" : o == 2 ? " value value step" : o ? " value step" : " step";
                if (o == 3) { if (!i.SeekTo(keys[n])) return "seek fails"; continue; }
                n = live(n + 1);
                ron::Status ok = i.Next();
                mc::transition();
                if (!ok && n < keys.size()) return "a step fails: " + ok.str();
            }
            return "";
        };
        auto all = [&](auto& s, int which) -> string {
            for (size_t i = 0; i < keys.size(); i++) {
                rx::Frame f;
                ron::Status ok = s.Read(keys[i], f);
                string r = sx::judge(want(i, which), ok, f.data());
                mc::transition();
                if (!r.empty()) return "read of " + sx::showk(keys[i]) + ": " + r;
            }
            return "";
        };
        auto also = [&](const string& r) { if (out.empty() && !r.empty()) out = r + " (after" + hist + ", writes to the base " + ca + ", to the overlay " + cb + " of " + src.frames[1].data() + ")"; };
        also(run(over, 2));
        also(run(join, 3));
        also(run(base, 1));
        also(all(over, 2));
        also(all(join, 3));
        also(all(base, 1));
        mc::trace();
    });
    return out;
}
static string check_scan(const string& t) {
    auto p = mc::split(t, ' ');
    auto& src = sx::sources()[stoi(p[1])];
    mc::nontrivial();
    mc::state(p[2] + p[3]);
    if (p[0] == "d") {
        sx::Dir dir;
        sx::Store disk;
        if (!disk.Create(ron::Uuid::NIL)) return "no database";
        return scans(&disk, src, p[2], p[3], 10, stoi(p[4]));
    }
    return scans<sx::Mem>(nullptr, src, p[2], p[3], 10, stoi(p[4]));
}
// "store form writes keys": long histories of several keys
template <class B>
static string long_run(B& base, int form, int n, int nk) {
    using Join = ron::JoinedStore<B, sx::Mem>;
    sx::Mem over;
    Join join{base, over};
    auto ser = sc::series(form, n, n % 8 == 0);
    auto key = [&](int k) { return Key{rx::uuid(rdtref::event(50 + k, k % 4 == 3 ? "B" : "A")), (ron::FORM)form}; };
    vector<vector<rdtref::Ops>> in[2];
    in[0].resize(nk); in[1].resize(nk);
    typename Join::Records rec;
    string r;
    auto want = [&](int k, int which) {
        vector<rdtref::Ops> f;
        for (int s = 0; s < 2; s++) if (which >> s & 1) f.insert(f.end(), in[s][k].begin(), in[s][k].end());
        return f.empty() ? rdtref::Out{} : rdtref::merge(form, f);
    };
    auto reads = [&](auto& s, int which, const char* what) -> string {
        for (int k = 0; k < nk; k++) {
            rx::Frame f;
            ron::Status ok = s.Read(key(k), f);
            mc::transition();
            string e = sx::judge(want(k, which), ok, f.data());
            if (!e.empty()) return string(what) + ", key " + to_string(k) + ": " + e.substr(0, 600);
        }
        typename std::remove_reference<decltype(s)>::type::Iterator i{s};
        map<pair<uint64_t, uint64_t>, int> order;
        for (int k = 0; k < nk; k++) if (!want(k, which).ops.empty()) order[{key(k).bits.first, key(k).bits.second}] = k;
        if (!order.empty() && !i.SeekTo(key(order.begin()->second))) return "seek fails";
        for (auto& o : order) {
            if (i.key() != key(o.second)) return string(what) + ", it stands at " + sx::showk(i.key()) + ", not at " + sx::showk(key(o.second));
            string bad;
            auto ops = sx::ops_at(i.value(), bad);
            if (bad.empty()) bad = rx::diff(want(o.second, which).ops, ops, false);
            if (!bad.empty()) return string(what) + ", value of key " + to_string(o.second) + ": " + bad;
            i.Next();
            mc::transition();
        }
        return "";
    };
    for (int i = 0; i < n && r.empty(); i++) {
        for (int k = 0; k < nk; k++) {
            // below and above by turns; the creation is below, but for some keys
            int to = i == 0 ? k % 5 == 4 : k % 2 ? i >= n / 2 : i % 3 != 0;
            if (form == 0 || form == 2) to = i >= n / 2 + k % 3;  // the order counts
            rx::Frame f = sc::frame(ser[i], i);
            ron::Status ok;
            if (!to) ok = base.Write(key(k), f);
            else if (i % 4 == 1) { rec.emplace_back(key(k), f); }
            else ok = join.Write(key(k), f);
            mc::transition();
            if (!ok) return "a write fails: " + ok.str();
            in[to][k].push_back(ser[i]);
        }
        if (rec.size()) { if (!join.Write(rec)) return "a batch fails"; rec.clear(); }
        if (i % 16 == 15) r = reads(join, 3, "joined, between writes");
    }
    if (r.empty()) r = reads(base, 1, "base");
    if (r.empty()) r = reads(over, 2, "overlay");
    if (r.empty()) r = reads(join, 3, "joined");
    if (r.empty()) r = reads(join, 3, "joined, again");
    if (r.empty()) {
        typename sx::Mem::Records out;
        over.Release(out);
        if (!base.Write(out)) return "the overlay does not drain";
        over.Close();
        for (int k = 0; k < nk; k++) { in[0][k].insert(in[0][k].end(), in[1][k].begin(), in[1][k].end()); in[1][k].clear(); }
        r = reads(base, 1, "base, drained into");
    }
    if (r.empty()) r = reads(join, 3, "joined after the draining");
    mc::trace();
    return r;
}
static string check_long(const string& t) {
    auto p = mc::split(t, ' ');
    mc::nontrivial();
    mc::state(p[1] + " " + p[2] + " " + p[3]);
    string r;
    if (p[0] == "d") {
        sx::Dir dir;
        sx::Store disk;
        if (!disk.Create(ron::Uuid::NIL)) return "no database";
        r = long_run(disk, stoi(p[1]), stoi(p[2]), stoi(p[3]));
    } else {
        sx::Mem m;
        r = long_run(m, stoi(p[1]), stoi(p[2]), stoi(p[3]));
    }
    return r.empty() ? "" : p[2] + " writes of form " + p[1] + " to each of " + p[3] + " keys: " + r;
}
int main(int argc, char** argv) {
    mc::Driver d("C21");
    bool deep = mc::thorough();
    d.add({"memory", [=](Gen& g) {
               for (int n = 0; n < 4; n++) histories(g, "m", "abcABCwrimnv", n, false);
               histories(g, "m", "abcABCwrimnv", deep ? 6 : 5, true);
               histories(g, "m", "abcdABCDriv", deep ? 6 : 5, true);
               histories(g, "me", "abcABCrv", deep ? 6 : 5, true);
           }, check,
           "all histories of 5 (thorough 6) writes of 3 and 4 frames to base and overlay, joined and separate reads and walks, and drains, both in memory, for 8 forms", 600});
    d.add({"disk", [=](Gen& g) {
               for (int n = 0; n < 4; n++) histories(g, "d", "abcABCwrimnv", n, false);
               histories(g, "d", "abcABCwriv", deep ? 5 : 4, true);
               histories(g, "d", "abABrv", deep ? 6 : 5, true);
               histories(g, "de", "abcABCrv", deep ? 5 : 4, true);
           }, check,
           "the same with the base on disk, up to 5 (thorough 6) steps", 600});
    d.add({"scans", [=](Gen& g) {
               auto& src = sx::sources();
               for (size_t s = 0; s < src.size(); s++) {
                   if (src[s].form != 13 && src[s].form != 19) continue;
                   for (const char* st : {"m", "d"}) mc::words(*st == 'd' ? 2 : 3, 3, [&](const vector<int>& a) { mc::words(*st == 'd' ? 3 : 4, 3, [&](const vector<int>& b) {
                       string sa, sb;
                       for (int i : a) sa += char('0' + i);
                       for (int i : b) sb += char('0' + i);
                       g.add(string(st) + " " + to_string(s) + " " + sa + " " + sb + " " + (deep ? "5" : *st == 'd' ? "3" : "4"));
                   }); });
               }
           }, check_scan,
           "all scans of up to 4 (base on disk 3, thorough 5) steps over all contents of 3 keys (up to 2 writes below, 3 above, one less each with the base on disk) that look at each value not at all, once or twice or seek again, then reads of everything", 600});
    d.add({"scale", [=](Gen& g) {
               for (const char* st : {"m", "d"}) for (int form : {13, 1, 8, 15, 2, 19, 0}) {
                   for (int n = 4; n <= (deep ? 150 : 60); n += n < 36 || deep ? 1 : 4) g.add(string(st) + " " + to_string(form) + " " + to_string(n) + " 7");
                   for (int k : {1, 9, 16, 17, 33, 64, 65, 130, 300}) g.add(string(st) + " " + to_string(form) + " 5 " + to_string(k));
               }
           }, check_long,
           "4 to 60 (thorough 150) writes to each of 7 keys, 5 writes to each of up to 300 keys, below and above by turns, reads and walks of all in between, then drained", 600});
    return d.main(argc, argv);
}
