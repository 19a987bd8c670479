// C18: iterators of the disk, in-memory and joined stores, over all contents
// of a few keys, from all places in both directions, against a sorted map.
#include "scalex.hpp"
using namespace std;
using mc::Gen;
using sx::Key;
using sx::showk;

struct Rec { Key key; int src; };
static int src_of(int form) {
    auto& s = sx::sources();
    for (size_t i = 0; i < s.size(); i++) if (s[i].form == form) return int(i);
    abort();
}
static Key key(int form, uint64_t v, const char* o) { return Key{rx::uuid(rdtref::event(v, o)), (ron::FORM)form}; }
// in key order: by form, then origin, then time
static const vector<Rec>& universe() {
    static vector<Rec> u{{key(2, 5, "A"), src_of(2)}, {key(13, 5, "A"), src_of(13)}, {key(13, 6, "A"), src_of(13)}, {key(13, 1, "B"), src_of(13)}, {key(14, 5, "A"), src_of(14)}};
    return u;
}
static const vector<Key>& targets() {
    static vector<Key> t;
    if (!t.empty()) return t;
    t.push_back(Key::ZERO);
    t.push_back(Key{ron::Uuid::NIL, (ron::FORM)2});
    t.push_back(key(2, 4, "A"));
    for (auto& r : universe()) t.push_back(r.key);
    t.push_back(key(2, 6, "A"));
    t.push_back(key(13, 5, "AB"));
    t.push_back(key(13, 2, "B"));
    t.push_back(key(14, 6, "~"));
    t.push_back(Key::END);
    return t;
}
// what is to be found: key -> frames
using Model = map<pair<uint64_t, uint64_t>, pair<Key, rdtref::Ops>>;
static pair<uint64_t, uint64_t> bits(Key k) { return {k.bits.first, k.bits.second}; }

struct Content { string store; char layout; string a, b; };
struct World {
    Content c;
    sx::Dir dir;
    sx::Store disk;
    sx::Mem ma, mb;
    unique_ptr<sx::DiskMem> dm;
    unique_ptr<sx::MemMem> mm;
    Model model;
    bool end{false};  // END is a record, too
    // it is in one of two stores only: a backward seek of END may then find it
    // or not, the repository does not say
    bool mixed() const { return c.store == "mo" || c.store == "om" || c.store == "do"; }
    string bad;

    void step(char at) {
        if (c.layout == at && bad.empty()) bad = sx::flush(disk);
        if (c.layout == 'x' && at == '1' && bad.empty()) bad = sx::flush(disk);
    }
    template <class S>
    void write(S& s, const string& what, const vector<int>& pick, int round) {
        for (size_t i = 0; i < what.size(); i++) {
            int n = what[i] - '0';
            if (n <= round) continue;
            auto& r = universe()[i];
            ron::Status ok = s.Write(r.key, sx::sources()[r.src].frames[pick[round]]);
            mc::transition();
            if (!ok) bad = "write fails: " + ok.str();
        }
    }
    explicit World(const Content& c_) : c(c_) {
        bool d = c.store[0] == 'd';
        static const vector<int> PA{0, 1, 5}, PB{1, 5, 0};
        if (d) {
            ron::Status ok = disk.Create(ron::Uuid::NIL);
            if (!ok) bad = "no database: " + ok.str();
        }
        ron::Uuid any = rx::uuid(rdtref::event(7, "Z"));
        if (c.store == "o" || c.store == "oo") { ma.Open(any); end = true; }
        if (c.store == "oo") mb.Open(any);
        if (c.store == "do" || c.store == "mo") { mb.Open(any); }
        if (c.store == "om") ma.Open(any);
        for (int round = 0; round < 3; round++) {
            if (d) { write(disk, c.a, PA, round); step(char('1' + round)); }
            else write(ma, c.a, PA, round);
        }
        for (int round = 0; round < 3; round++) write(mb, c.b, PB, round);
        if (bad.empty() && c.layout == 'c') { bad = sx::flush(disk); if (bad.empty()) bad = sx::compact(disk); }
        if (bad.empty() && c.layout == 'p') bad = sx::reopen(disk);
        if (c.store.size() == 2) {
            if (d) dm.reset(new sx::DiskMem(disk, mb));
            else mm.reset(new sx::MemMem(ma, mb));
        }
        rdtref::Ops zero;
        if (c.store == "o" || c.store == "oo" || c.store == "mo" || c.store == "om" || c.store == "do") zero = {sx::op(rdtref::event(7, "Z"), rdtref::name("yarn"))};
        else if (d) zero = {sx::op(ref::U{0, 0}, rdtref::name("zero"))};
        if (!zero.empty()) model[bits(Key::ZERO)] = {Key::ZERO, zero};
        for (size_t i = 0; i < universe().size(); i++) {
            auto& r = universe()[i];
            vector<rdtref::Ops> in;
            auto take = [&](const string& w, const vector<int>& pick) {
                if (i < w.size()) for (int k = 0; k < w[i] - '0'; k++) in.push_back(sx::sources()[r.src].ops[pick[k]]);
            };
            take(c.a, PA);
            take(c.b, PB);
            if (in.empty()) continue;
            rdtref::Out o = rdtref::merge(sx::sources()[r.src].form, in);
            if (o.st != rdtref::OK) abort();
            model[bits(r.key)] = {r.key, o.ops};
        }
    }
    Key seek(Key k, bool prev) const {
        if (prev) {
            if (k == Key::END && end) return Key::END;
            auto i = model.upper_bound(bits(k));
            return i == model.begin() ? Key::END : (--i)->second.first;
        }
        auto i = model.lower_bound(bits(k));
        return i == model.end() ? Key::END : i->second.first;
    }
    Key next(Key k) const {
        if (k == Key::END) return k;
        auto i = model.upper_bound(bits(k));
        return i == model.end() ? Key::END : i->second.first;
    }
    template <class It>
    string value(It& i, Key at) {
        string b;
        auto ops = sx::ops_at(i.value(), b);
        mc::transition();
        if (!b.empty()) return b + " at " + showk(at);
        string d;
        if (at == Key::END) d = ops.empty() ? "" : "a value past the end";
        else d = rx::diff(model.at(bits(at)).second, ops, false);
        return d.empty() ? "" : "value at " + showk(at) + ": " + d;
    }
    template <class It>
    string stand(It& i, Key want, const string& when) {
        mc::transition();
        Key k = i.key();
        return k == want ? "" : when + " stands at " + showk(k) + ", not at " + showk(want);
    }
    template <class It>
    string sought(It& i, Key k, bool prev, Key& at) {
        ron::Status ok = i.SeekTo(k, prev);
        at = seek(k, prev);
        string when = string(prev ? "a backward" : "a forward") + " seek of " + showk(k);
        if (!ok) return when + " fails: " + ok.str();
        return stand(i, at, when);
    }
    template <class It>
    string stepped(It& i, Key& at) {
        ron::Status ok = i.Next();
        Key was = at;
        at = next(was);
        // at the end, any status says so, but a step between two records is no error
        if (!ok && at != Key::END) return "a step from " + showk(was) + " fails: " + ok.str();
        if (!ok && was != Key::END && ok != ron::Status::ENDOFINPUT) return "the step to the end fails: " + ok.str();
        return stand(i, at, "a step from " + showk(was));
    }
};
static Content parse(const string& t) {
    auto p = mc::split(t, ' ');
    Content c{p[0], p[1][0], p[2], p.size() > 3 ? p[3] : ""};
    if (c.b == "-") c.b = "";
    return c;
}
// values: 0 not looked at, 1 once, 2 twice
template <class S>
static string walks(World& w, S& s, int look, Key from, bool prev) {
    using It = typename S::Iterator;
    It i{s};
    string r = w.stand(i, Key::END, "a new iterator");
    if (r.empty()) r = w.value(i, Key::END);
    if (!r.empty()) return r;
    for (int again = 0; again < 2; again++) {
        Key at;
        r = w.sought(i, from, prev, at);
        if (!r.empty()) return r;
        vector<Key> seen;
        for (int steps = 0; steps < 20; steps++) {
            for (int v = 0; v < look; v++) { r = w.value(i, at); if (!r.empty()) return r; }
            if (at == Key::END) {
                // it stays there
                for (int k = 0; k < 2; k++) { r = w.stepped(i, at); if (!r.empty()) return r; }
                r = w.value(i, at);
                if (!r.empty()) return r;
                break;
            }
            r = w.stepped(i, at);
            if (!r.empty()) return r;
        }
        mc::trace();
    }
    return "";
}
template <class S>
static string reads(World& w, S& s) {
    for (auto& t : universe()) {
        rdtref::Out want;
        auto i = w.model.find(bits(t.key));
        if (i != w.model.end()) want.ops = i->second.second;
        rx::Frame f;
        ron::Status ok = s.Read(t.key, f);
        mc::transition();
        string r = sx::judge(want, ok, f.data());
        if (!r.empty()) return "read of " + showk(t.key) + ": " + r;
    }
    return "";
}
template <class F>
static string on(World& w, F f) {
    if (w.c.store == "d") return f(w.disk);
    if (w.c.store.size() == 1) return f(w.ma);
    if (w.c.store[0] == 'd') return f(*w.dm);
    return f(*w.mm);
}
static string check_walk(const string& t) {
    Content c = parse(t);
    unique_ptr<World> w;
    auto fresh = [&]() -> string {
        w.reset();
        w.reset(new World(c));
        return w->bad;
    };
    string r = fresh();
    if (!r.empty()) return r;
    if (w->model.size() > 1) mc::nontrivial();
    for (auto& m : w->model) mc::state(showk(m.second.first) + ref::show(m.second.second, false));
    for (int look = 0; look < 3; look++)
        for (auto& k : targets()) for (int prev = 0; prev < 2; prev++) {
            if (w->mixed() && prev && k == Key::END) continue;
            // the memory stores merge in passing: from a new one each time
            if (c.store[0] != 'd') r = fresh();
            if (r.empty()) r = on(*w, [&](auto& s) { return walks(*w, s, look, k, prev); });
            if (r.empty()) r = on(*w, [&](auto& s) { return reads(*w, s); });
            if (!r.empty()) return "values looked at " + to_string(look) + " times: " + r;
        }
    return "";
}
// any order of seeks, steps and looks on one iterator
static string check_mix(const string& t) {
    auto p = mc::split(t, ' ');
    int depth = stoi(p[4]);
    Content c = parse(t);
    unique_ptr<World> w;
    string out;
    auto& tg = targets();
    vector<pair<Key, bool>> seeks;
    for (int k : {0, 4, 6, 8, int(tg.size()) - 1}) for (int prev = 0; prev < 2; prev++) seeks.push_back({tg[k], prev});
    mc::nontrivial();
    mc::words(int(seeks.size()) + 2, depth, [&](const vector<int>& word) {
        if (!out.empty()) return;
        if (c.store[0] != 'd' || !w) { w.reset(); w.reset(new World(c)); }
        out = w->bad;
        if (!out.empty()) return;
        mc::trace();
        out = on(*w, [&](auto& s) -> string {
            typename std::remove_reference<decltype(s)>::type::Iterator i{s};
            Key at = Key::END;
            string hist, r;
            for (int o : word) {
                if (o == 0) { r = w->value(i, at); hist += " value"; }
                else if (o == 1) { r = w->stepped(i, at); hist += " step"; }
                else { r = w->sought(i, seeks[o - 2].first, seeks[o - 2].second, at); hist += string(" seek(") + showk(seeks[o - 2].first) + (seeks[o - 2].second ? ",back)" : ")"); }
                if (!r.empty()) return "after" + hist + ": " + r;
            }
            r = w->value(i, at);
            if (!r.empty()) return "after" + hist + ": " + r;
            // and the rest of the way
            while (at != Key::END) { r = w->stepped(i, at); if (!r.empty()) return "after" + hist + ", going on: " + r; r = w->value(i, at); if (!r.empty()) return "after" + hist + ", going on: " + r; }
            r = reads(*w, s);  // the walk left everything as it was
            return r.empty() ? "" : "after" + hist + " and the rest of the way: " + r;
        });
    });
    return out;
}
// one record in the midst does not merge (its cause is not there yet)
static string check_broken(const string& t) {
    auto p = mc::split(t, ' ');
    Content c = parse(t);
    World w(c);
    if (!w.bad.empty()) return w.bad;
    Key hole = key(14, 3, "A"), past = key(19, 5, "A");
    auto& rga = sx::sources()[src_of(14)];
    auto& mx = sx::sources()[src_of(19)];
    for (int f : {2, 4}) if (!w.disk.Write(hole, rga.frames[f])) return "write fails";
    if (!w.disk.Write(past, mx.frames[0])) return "write fails";
    string r;
    if (c.layout == '2' || c.layout == 'x') r = sx::flush(w.disk);
    if (c.layout == 'c') { r = sx::flush(w.disk); if (r.empty()) r = sx::compact(w.disk); }
    if (c.layout == 'p') r = sx::reopen(w.disk);
    if (!r.empty()) return r;
    w.model[bits(hole)] = {hole, {}};
    w.model[bits(past)] = {past, mx.ops[0]};
    mc::nontrivial();
    auto run = [&](auto& s) -> string {
        using It = typename std::remove_reference<decltype(s)>::type::Iterator;
        vector<Key> from = targets();
        for (Key k : {hole, past, key(14, 2, "A"), key(14, 4, "A"), key(19, 9, "A")}) from.push_back(k);
        It kept{s};
        for (int fresh = 0; fresh < 2; fresh++)
            for (auto& k : from) for (int prev = 0; prev < 2; prev++) {
                It mine{s};
                It& i = fresh ? mine : kept;
                mc::trace();
                Key at = w.seek(k, prev);
                string start = string("from a ") + (prev ? "backward" : "forward") + " seek of " + showk(k) + ": ";
                if (at == hole) {
                    if (i.SeekTo(k, prev)) return start + "an unmergeable record is no error, the iterator stands at " + showk(i.key());
                    continue;
                }
                string r = w.sought(i, k, prev, at);
                while (r.empty() && at != Key::END) {
                    r = w.value(i, at);
                    if (!r.empty()) break;
                    if (w.next(at) == hole) {
                        if (i.Next()) r = "an unmergeable record is no error, the iterator goes on to " + showk(i.key());
                        break;
                    }
                    r = w.stepped(i, at);
                }
                if (!r.empty()) return start + r;
            }
        return "";
    };
    return on(w, run);
}
// "store n layout": many keys of three forms and three yarns, some below, some above, some in both
static string check_scale(const string& t) {
    auto p = mc::split(t, ' ');
    string kind = p[0];
    int n = stoi(p[1]);
    char layout = p[2][0];
    sx::Dir dir;
    sx::Store disk;
    sx::Mem ma, mb;
    string r;
    if (kind[0] == 'd' && !disk.Create(ron::Uuid::NIL)) return "no database";
    Model model;
    if (kind[0] == 'd') model[bits(Key::ZERO)] = {Key::ZERO, {sx::op(ref::U{0, 0}, rdtref::name("zero"))}};
    vector<Key> gaps{Key::ZERO, Key::END};
    vector<rdtref::Ops> ser[3] = {sc::series(13, 4, n % 7 == 0), sc::series(14, 4, n % 7 == 0), sc::series(2, 4, n % 7 == 0)};
    int forms[] = {13, 14, 2};
    for (int j = 0; j < n; j++) {
        int i = (j * 7) % n;  // not in their order, nor all of them
        int f = i % 3;
        Key k = key(forms[f], 50 + 2 * i, i % 5 < 2 ? "A" : i % 5 < 4 ? "B" : "AB");
        gaps.push_back(k);
        gaps.push_back(key(forms[f], 51 + 2 * i, i % 5 < 2 ? "A" : i % 5 < 4 ? "B" : "AB"));
        if (model.count(bits(k))) continue;
        vector<rdtref::Ops> in[2];
        int where = kind.size() < 2 ? 1 : 1 + (i * 5 + n) % 3;
        for (int s = 0; s < 2; s++) if (where >> s & 1) for (int w = 0; w <= (i + s) % 3; w++) {
            if (f == 1 && s && w) break;  // two pieces of a tree without their root
            in[s].push_back(ser[f][s + w]);
            rx::Frame fr = sc::frame(ser[f][s + w], w);
            ron::Status ok = s ? mb.Write(k, fr) : kind[0] == 'd' ? disk.Write(k, fr) : ma.Write(k, fr);
            if (!ok) return "a write fails: " + ok.str();
        }
        if (kind[0] == 'd' && layout == 'f' && j % 10 == 9) r = sx::flush(disk);
        if (!r.empty()) return r;
        in[0].insert(in[0].end(), in[1].begin(), in[1].end());
        rdtref::Out o = rdtref::merge(forms[f], in[0]);
        if (o.st != rdtref::OK) abort();
        model[bits(k)] = {k, o.ops};
    }
    if (layout == 'c') { r = sx::flush(disk); if (r.empty()) r = sx::compact(disk); }
    if (layout == 'p') r = sx::reopen(disk);
    if (!r.empty()) return r;
    sx::DiskMem dm{disk, mb};
    sx::MemMem mm{ma, mb};
    mc::nontrivial(); mc::trace(); mc::state(t);
    auto run = [&](auto& s) -> string {
        using It = typename std::remove_reference<decltype(s)>::type::Iterator;
        auto look = [&](It& i, Model::iterator m) -> string {
            mc::transition();
            if (m == model.end()) return i.key() == Key::END ? "" : "it stands at " + showk(i.key()) + ", not at the end";
            if (i.key() != m->second.first) return "it stands at " + showk(i.key()) + ", not at " + showk(m->second.first);
            string b;
            auto ops = sx::ops_at(i.value(), b);
            if (b.empty()) b = rx::diff(m->second.second, ops, false);
            return b.empty() ? "" : "value at " + showk(m->second.first) + ": " + b;
        };
        // all of it, the values looked at or not
        for (int every : {1, 1000, 3}) {
            It i{s};
            ron::Status ok = i.SeekTo(Key::ZERO);
            int at = 0;
            for (auto m = model.begin();; ++m, ++at) {
                string e = at % every == every - 1 || m == model.end() ? look(i, m) : i.key() == m->second.first ? "" : "it stands at " + showk(i.key()) + ", not at " + showk(m->second.first);
                if (!e.empty()) return "at step " + to_string(at) + " of a walk: " + e;
                if (m == model.end()) break;
                ok = i.Next();
                mc::transition();
                if (!ok && next(m) != model.end()) return "step " + to_string(at) + " fails: " + ok.str();
            }
        }
        It kept{s};
        for (auto& k : gaps) for (int prev = 0; prev < 2; prev++) {
            ron::Status ok = kept.SeekTo(k, prev);
            mc::transition();
            if (!ok) return string("a seek of ") + showk(k) + " fails: " + ok.str();
            auto m = model.lower_bound(bits(k));
            if (prev) { m = model.upper_bound(bits(k)); m = m == model.begin() ? model.end() : std::prev(m); }
            string e = look(kept, m);
            if (e.empty() && m != model.end()) { kept.Next(); e = look(kept, std::next(m)); }
            if (!e.empty()) return string(prev ? "a backward" : "a forward") + " seek of " + showk(k) + ": " + e;
        }
        for (auto& m : model) {
            rx::Frame f;
            ron::Status ok = s.Read(m.second.first, f);
            string e = sx::judge(rdtref::Out{rdtref::OK, m.second.second}, ok, f.data());
            if (!e.empty()) return "read of " + showk(m.second.first) + ": " + e;
        }
        return "";
    };
    if (kind == "d") return run(disk);
    if (kind == "m") return run(ma);
    if (kind == "dm") return run(dm);
    return run(mm);
}
static void contents(Gen& g, const string& store, char layout, int k, int na, int nb, const string& tail = "") {
    mc::words(na + 1, k, [&](const vector<int>& a) {
        string sa, sb;
        for (int i : a) sa += char('0' + i);
        auto put = [&](const string& b) { g.add(store + " " + layout + " " + sa + " " + b + tail); };
        if (!nb) { put("-"); return; }
        mc::words(nb + 1, k, [&](const vector<int>& b) {
            string sb;
            for (int i : b) sb += char('0' + i);
            put(sb);
        });
    });
}
int main(int argc, char** argv) {
    mc::Driver d("C18");
    bool deep = mc::thorough();
    d.add({"disk", [=](Gen& g) {
               for (char l : string("-12xcp")) contents(g, "d", l, 5, 2, 0);
           }, check_walk,
           "all contents of 5 keys (none, one, two or (in memory) three writes each) in all layouts (unflushed, flushed after either write or both, compacted, reopened), from 12 places in both directions", 200});
    d.add({"mem", [=](Gen& g) { contents(g, "m", '-', 5, 3, 0); contents(g, "o", '-', 5, 3, 0); }, check_walk,
           "the same of the in-memory store, newly built for every walk, with and without its own end records", 200});
    d.add({"joined", [=](Gen& g) {
               contents(g, "mm", '-', 3, 2, 2);
               contents(g, "oo", '-', 3, 2, 2);
               contents(g, "mo", '-', 3, 2, 2);
               contents(g, "om", '-', 3, 2, 2);
               contents(g, "dm", 'x', 3, 2, 2);
               contents(g, "do", '-', 3, 2, 1);
               contents(g, "mm", '-', 5, 1, 1);
               contents(g, "dm", '-', 5, 1, 1);
               contents(g, "dm", 'c', 3, 2, 2);
               if (deep) { contents(g, "mm", '-', 4, 2, 2); contents(g, "dm", 'p', 4, 2, 2); contents(g, "mm", '-', 3, 3, 3); }
           }, check_walk,
           "the same of the joined store over all pairs of contents of base (on disk and in memory) and overlay", 300});
    d.add({"broken", [=](Gen& g) {
               for (char l : string("-2xcp")) { contents(g, "d", l, 5, deep ? 2 : 1, 0); contents(g, "dm", l, 4, deep ? 2 : 1, 0); }
           }, check_broken,
           "contents with one record that does not merge in their midst: it is an error to come to it, and no other record is skipped", 200});
    d.add({"mix", [=](Gen& g) {
               int k = 4;
               string tail = " " + to_string(deep ? 5 : 4);
               contents(g, "d", 'x', 3, 2, 0, tail);
               tail = " " + to_string(deep ? 4 : 3);
               contents(g, "m", '-', 3, 2, 0, " " + to_string(deep ? 5 : 4));
               contents(g, "o", '-', 3, 2, 0, tail);
               contents(g, "dm", '-', 3, 1, 1, tail);
               contents(g, "mm", '-', 3, 1, 1, tail);
               (void)k;
           }, check_mix,
           "all sequences of seeks, steps and looks at the value on one iterator, up to 3 (disk 4, thorough one more), over all contents of 3 keys", 600});
    d.add({"scale", [=](Gen& g) {
        for (auto k : {"d", "m", "dm", "mm"}) for (int n = 4; n <= (deep ? 400 : 140); n += n < 40 || deep ? 1 : 5) for (char l : string(k[0] == 'd' ? "-fcp" : "-")) g.add(string(k) + " " + to_string(n) + " " + l);
    }, check_scale, "4 to 140 (thorough 400) keys of three forms and three yarns with one to three writes each, walked through and sought from every key and next to it", 400});
    return d.main(argc, argv);
}
