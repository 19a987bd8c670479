// C15: the object view of last-write-wins states.
#include <cmath>
#include "rdtx.hpp"
#include "rdt/lww_obj.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;
using ref::I; using ref::F; using ref::Q; using ref::S;

static vector<ref::A> VALS;
static vector<ref::U> KEYS;
static void prepare() {
    VALS = {I(5), S("hello"), F(1.0), Q(rdtref::event(77, "C")), S("a"), I(INT64_MIN), F(-0.5), S(""),
            S("it's \\ \n\xE2\x82\xAC\xF0\x9F\x98\x80"), Q(rdtref::name("1e5")), F(0.0), I(0), F(1e300), Q(ref::U{}), S("\xD1\x8F")};
    KEYS = {rdtref::name("key"), rdtref::event(78, "K"), rdtref::name("none"), rdtref::name("1e5")};
}
// "spelling writes": a write is key, value, rank of its id; | starts the next frame
static string check(const string& t) {
    auto w = mc::split(t, ' ');
    int sp = w[0][0] - '0';
    vector<Ops> frames(1);
    int nw = 0;
    for (size_t i = 0; i < w[1].size();) {
        char c = w[1][i];
        if (c == '|') { frames.emplace_back(); i++; continue; }
        ref::Op o;
        if (c == '!') { o.id = rdtref::event(64, "A"); o.ref = rdtref::name("lww"); i++; }
        else if (c == '?') {  // ops that set no field
            o.id = rdtref::event(200 + i, "A"); o.ref = rdtref::event(64, "A");
            if (w[1][i + 1] == '1') o.a = {Q(KEYS[0])};
            if (w[1][i + 1] == '2') o.a = {S("key"), S("x")};
            if (w[1][i + 1] == '3') o.a = {I(1), I(2)};
            i += 2;
        } else {
            int r = w[1][i + 2] - '0';
            o.id = rdtref::event(65 + r / 2, r % 2 ? "B" : "A");
            o.ref = rdtref::event(64, "A");
            o.a = {Q(KEYS[c - '0']), VALS[w[1][i + 1] - 'a']};
            nw++;
            i += 3;
        }
        frames.back().push_back(o);
    }
    mc::state(t); mc::trace();
    if (nw > 1) mc::nontrivial();
    map<ref::U, ref::Op> best;
    ref::U last{};
    std::unique_ptr<ron::LWWObject<rx::Frame>> obj;
    for (auto& f : frames) {
        {
            // the frame is gone once it is read
            std::unique_ptr<rx::Frame> tmp{new rx::Frame{sp == 0 ? rdtx::frame(f) : rdtx::plain(f, sp == 2)}};
            if (!obj) obj.reset(new ron::LWWObject<rx::Frame>{*tmp});
            else obj->Update(*tmp);
            mc::transition();
        }
        for (auto& o : f) {
            if (last < o.id) last = o.id;
            if (o.a.size() < 2 || o.a[0].t != ref::UUID) continue;
            auto i = best.find(o.a[0].u);
            if (i == best.end()) best.emplace(o.a[0].u, o);
            else if (!(o.id < i->second.id)) i->second = o;
        }
        for (auto& k : KEYS) {
            auto i = best.find(k);
            ref::A want, none;
            bool has = i != best.end();
            if (has) want = i->second.a[1];
            ron::Uuid key = rx::uuid(k);
            mc::transition(6);
            string at = "field " + ref::text(k) + " of " + t + ": ";
            string s = obj->string(key), ws = has && want.t == ref::STR ? ref::utf8(want.s) : "";
            if (s != ws) return at + "string() is '" + s + "', not '" + ws + "'";
            double n = obj->number(key);
            if (has && want.t == ref::FLT) { if (memcmp(&n, &want.f, 8)) return at + "number() is " + to_string(n); }
            else if (!std::isnan(n)) return at + "number() is " + to_string(n) + ", not nothing";
            ref::U u = rx::u(obj->uuid(key)), wu = has && want.t == ref::UUID ? want.u : ref::U{};
            if (u != wu) return at + "uuid() is " + ref::text(u);
            ron::Atom a = obj->atom(key, ron::INT);
            if (has && want.t == ref::INT) { if (a.type() != ron::INT || a.value.as_integer != want.i) return at + "the integer is lost"; }
            else if (a.type() == ron::INT || !(ron::Uuid{a} == ron::Uuid::NIL)) return at + "an integer out of nowhere";
        }
    }
    // a write through the view refers to the latest event
    ref::U id = rdtref::event(999, "W");
    rx::Frame wr = obj->Write(rx::uuid(id), rx::uuid(KEYS[0]), ron::Integer{42});
    rx::Read r = rx::read(wr.data());
    mc::transition();
    if (r.ops.size() != 1 || r.ops[0].id != id || r.ops[0].ref != last || r.ops[0].a.size() != 2 || r.ops[0].a[0] != Q(KEYS[0]) || r.ops[0].a[1] != I(42))
        return "Write() makes " + wr.data() + " after " + ref::text(last);
    wr = obj->Write(rx::uuid(id), rx::uuid(KEYS[0]), ron::String{"x"});
    r = rx::read(wr.data());
    if (r.ops.size() != 1 || r.ops[0].ref != id) return "the second Write() makes " + wr.data();
    return "";
}
// "writes keys per spelling": many writes to many fields
static string check_scale(const string& t) {
    auto w = mc::split(t, ' ');
    int n = stoi(w[0]), nk = stoi(w[1]), per = stoi(w[2]), sp = stoi(w[3]);
    auto key = [](int k) { string s = "k"; s += char('a' + k / 26); s += char('a' + k % 26); return k % 5 == 4 ? rdtref::event(1000 + k, "K") : rdtref::name(s.c_str()); };
    Ops all;
    ref::Op o;
    o.id = rdtref::event(64, "A"); o.ref = rdtref::name("lww");
    all.push_back(o);
    for (int i = 0; i < n; i++) {
        o.id = rdtref::event(65 + i, i % 2 ? "B" : "A");
        o.ref = rdtref::event(64, "A");
        ref::A v = VALS[(i * 7 + i / 15) % VALS.size()];
        if (v.t == ref::INT) v = I(i);
        if (v.t == ref::STR && i % 3) v = S(string(i, char('a' + i % 26)));
        o.a = {Q(key((i * 11) % nk)), v};
        all.push_back(o);
    }
    mc::state(t); mc::trace(); mc::nontrivial();
    std::unique_ptr<ron::LWWObject<rx::Frame>> obj;
    map<ref::U, ref::Op> best;
    // the frames come in the given order, or the last one first
    vector<Ops> frames;
    for (size_t i = 0; i < all.size(); i++) { if (i % per == 0) frames.emplace_back(); frames.back().push_back(all[i]); }
    if (sp == 2) reverse(frames.begin() + 1, frames.end());
    for (auto& f : frames) {
        std::unique_ptr<rx::Frame> tmp{new rx::Frame{sp ? rdtx::plain(f) : rdtx::frame(f)}};
        if (!obj) obj.reset(new ron::LWWObject<rx::Frame>{*tmp});
        else obj->Update(*tmp);
        mc::transition();
        for (auto& o : f) if (o.a.size() == 2) { auto i = best.find(o.a[0].u); if (i == best.end() || i->second.id < o.id) best[o.a[0].u] = o; }
    }
    for (int k = 0; k <= nk; k++) {
        auto i = best.find(key(k));
        ref::A want;
        bool has = i != best.end();
        if (has) want = i->second.a[1];
        ron::Uuid uk = rx::uuid(key(k));
        mc::transition(4);
        string at = "field " + to_string(k) + " of " + t + ": ";
        if (obj->string(uk) != (has && want.t == ref::STR ? ref::utf8(want.s) : "")) return at + "string() is '" + obj->string(uk) + "'";
        double d = obj->number(uk);
        if (has && want.t == ref::FLT ? memcmp(&d, &want.f, 8) != 0 : !std::isnan(d)) return at + "number() is " + to_string(d);
        if (rx::u(obj->uuid(uk)) != (has && want.t == ref::UUID ? want.u : ref::U{})) return at + "uuid() is " + obj->uuid(uk).str();
        ron::Atom a = obj->atom(uk, ron::INT);
        if (has && want.t == ref::INT ? a.type() != ron::INT || a.value.as_integer != want.i : a.type() == ron::INT) return at + "the integer";
    }
    ref::U id = rdtref::event(99999, "W");
    rx::Frame wr = obj->Write(rx::uuid(id), rx::uuid(key(0)), ron::Integer{42});
    rx::Read r = rx::read(wr.data());
    if (r.ops.size() != 1 || r.ops[0].ref != all.back().id) return "Write() makes " + wr.data() + " after " + ref::text(all.back().id);
    return "";
}
int main(int argc, char** argv) {
    prepare();
    mc::Driver d("C15");
    bool deep = mc::thorough();
    auto histories = [](Gen& g, int n, int keys, int vals, const vector<int>& sps) {
        // n writes in every id order, frames started anywhere
        vector<int> rank(n);
        for (int i = 0; i < n; i++) rank[i] = i;
        do mc::words(keys * vals, n, [&](const vector<int>& w) {
            for (int cut = 0; cut < (1 << n); cut++) for (int sp : sps) {
                // within a frame ops go in the order of ids
                bool ok = true;
                for (int i = 1; i < n; i++) if (!(cut >> i & 1) && rank[i] < rank[i - 1]) ok = false;
                if (!ok) continue;
                if (!g.mine()) continue;
                string s = to_string(sp) + " !";
                for (int i = 0; i < n; i++) { if (cut >> i & 1) s += '|'; s += char('0' + w[i] / vals); s += char('a' + w[i] % vals); s += char('0' + rank[i]); }
                g.run(s);
            }
        }); while (next_permutation(rank.begin(), rank.end()));
    };
    d.add({"writes", [=](Gen& g) {
        histories(g, 1, 4, 15, {0, 1, 2});
        histories(g, 2, 2, 15, {0, 1, 2});
        histories(g, 3, 2, deep ? 9 : 5, {0, 1});
        histories(g, 4, 2, deep ? 4 : 2, {0});
        if (deep) histories(g, 5, 2, 2, {1});
    }, check, "every history of up to 4 (thorough 5) writes to two fields of 15 (for two), 5 (9) (for three), 2 (4) values of all types, in every id order and division into frames"});
    d.add({"odd", [=](Gen& g) {
        // repeated events, ops that set no field, no creation
        vector<string> ops{"!", "?0", "?1", "?2", "?3", "0a1", "0b1", "0b3", "1c2", "|"};
        for (int k = 0; k <= (deep ? 6 : 5); k++) mc::words(ops.size(), k, [&](const vector<int>& w) {
            if (!g.mine()) return;
            string s = "1 ";
            for (int i : w) s += ops[i];
            g.run(s);
        });
    }, check, "every sequence of up to 5 (6) of: creation, ops that set no field, repeated and conflicting events, frame ends"});
    d.add({"scale", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 400 : 150); n++) for (int nk : {1, 2, 3, 7, 30, 100, 300}) for (int per : {1, 2, 10, 1000}) for (int sp = 0; sp < 3; sp++)
            g.add(to_string(n) + " " + to_string(nk) + " " + to_string(per) + " " + to_string(sp));
    }, check_scale, "every number of writes up to 150 (thorough 400) to 1 to 300 fields, in frames of 1, 2, 10 or all, in order or the latest first"});
    return d.main(argc, argv);
}
