// C09: merges of sorted event sets: LWW, yarn, meta, matrix.
#include "rdtx.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;
using ref::I; using ref::F; using ref::Q; using ref::S;

// universes: all events of an object, in ascending order
static const int FORMS[] = {13, 1, 8, 15};
static Ops make_universe(int form) {
    Ops u;
    auto e = [](uint64_t v, const char* o) { return rdtref::event(v << 6, o); };
    auto add = [&](ref::U id, ref::U r, vector<ref::A> a) { ref::Op o; o.id = id; o.ref = r; o.a = a; u.push_back(o); };
    auto name = [](const char* n) { return rdtref::name(n); };
    auto next = [](ref::U x, int n) { x.v += n; return x; };
    if (form == 13) {
        add(e(1, "A"), name("lww"), {});
        add(next(e(1, "A"), 1), e(1, "A"), {Q(name("key")), S("a")});
        add(e(2, "A"), e(1, "A"), {Q(name("key")), S("it's \\ \n\xE2\x82\xAC\xF0\x9F\x98\x80")});
        add(e(2, "B"), e(1, "A"), {Q(name("key")), I(INT64_MIN)});
        add(e(3, "A"), e(2, "B"), {Q(name("1e5")), F(1.0)});
        add(e(3, "AB"), e(3, "A"), {Q(e(3, "A"))});
        add(e(4, "B"), e(3, "A"), {S(""), I(0), F(-0.0), Q(ref::U{})});
        add(e(5, "B"), e(4, "B"), {});
    } else if (form == 1) {
        // one yarn: consecutive ids and char runs make spans
        for (int i = 0; i < 8; i++) add(next(e(1, "A"), i == 7 ? 9 : i), i ? u.back().id : name("rga"), i ? vector<ref::A>{S(i == 3 ? "\xD1\x8F" : string(1, 'a' + i))} : vector<ref::A>{});
    } else if (form == 8) {
        for (int i = 0; i < 8; i++) add(e(1 + i / 2, i % 2 ? "B" : "A"), i % 3 ? name("meta") : e(1, "A"), {Q(e(1, "A")), Q(name("rga")), S("abc" + to_string(i))});
    } else {
        add(e(1, "A"), name("mx"), {});
        for (int i = 1; i < 8; i++) add(e(i, i % 2 ? "B" : "A"), u.back().id, {I(i % 3), I(i % 2), i % 2 ? F(0.5 * i) : S("v")});
        // keep ascending order
    }
    sort(u.begin(), u.end(), [](const ref::Op& a, const ref::Op& b) { return a.id < b.id; });
    return u;
}
static map<int, Ops> UNI;
static map<pair<int, int>, array<rx::Frame, 3>> FR;
static map<pair<int, int>, Ops> SUB;
static void prepare() {
    for (int f : FORMS) {
        UNI[f] = make_universe(f);
        for (int m = 0; m < 256; m++) {
            Ops o;
            for (int i = 0; i < 8; i++) if (m >> i & 1) o.push_back(UNI[f][i]);
            SUB[{f, m}] = o;
            auto& a = FR[{f, m}];
            a[0] = rdtx::frame(o); a[1] = rdtx::plain(o); a[2] = rdtx::plain(o, true);
        }
    }
}
// "form spelling mask,mask,..."
static string check(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[0]), sp = stoi(w[1]);
    vector<Ops> in;
    vector<rx::Frame> fr;
    int all = 0, overlap = 0;
    for (auto& x : mc::split(w[2], ',')) {
        int m = stoi(x);
        overlap |= all & m;
        all |= m;
        in.push_back(SUB[{form, m}]);
        fr.push_back(FR[{form, m}][sp == 3 ? in.size() % 3 : sp]);
    }
    mc::state(to_string(form) + ":" + to_string(all));
    if (overlap || fr.size() > 1) mc::nontrivial();
    mc::trace();
    auto want = rdtref::set_merge(in);
    auto got = rdtx::merge(form, fr);
    string r = rdtx::judge(want, got);
    if (!r.empty()) return "merge of " + rdtx::show(fr) + " as form " + to_string(form) + ": " + r;
    // the form is found by the creation op, if it is there at the head of a frame
    int f = rdtref::form_of(in);
    if (f == form) {
        r = rdtx::judge(want, rdtx::merge(-1, fr));
        if (!r.empty()) return "merge of " + rdtx::show(fr) + " with no form given: " + r;
    }
    // groupings: every split in two, each half merged on its own, in both orders
    if (fr.size() <= 4) for (int s = 1; s + 1 < (1 << fr.size()); s++) {
        vector<rx::Frame> h[2], m(2);
        for (size_t i = 0; i < fr.size(); i++) h[s >> i & 1].push_back(fr[i]);
        for (int k = 0; k < 2; k++) {
            rx::Frame::Cursors cs;
            for (auto& x : h[k]) { cs.emplace_back(x); if (!cs.back().Next()) cs.pop_back(); }
            if (!ron::MergeCursors<rx::Frame>(m[k], (ron::FORM)form, cs)) return "a half of " + rdtx::show(fr) + " does not merge";
        }
        r = rdtx::judge(want, rdtx::merge(form, m));
        if (!r.empty()) return "merge of merged " + rdtx::show(m) + " as form " + to_string(form) + ": " + r;
    }
    return "";
}
// "form sp counts,counts,..": every event of a frame there as many times as its digit says
static string check_repeat(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[0]), sp = stoi(w[1]);
    vector<Ops> in;
    vector<rx::Frame> fr;
    for (auto& x : mc::split(w[2], ',')) {
        Ops o;
        for (size_t i = 0; i < x.size(); i++) for (int k = '0'; k < x[i]; k++) o.push_back(UNI[form][i]);
        in.push_back(o);
        fr.push_back(sp ? rdtx::plain(o) : rdtx::frame(o));
    }
    mc::state(t); mc::trace(); mc::nontrivial();
    string r = rdtx::judge(rdtref::set_merge(in), rdtx::merge(form, fr));
    return r.empty() ? "" : "merge of " + rdtx::show(fr) + " as form " + to_string(form) + ": " + r;
}
// "form N k shape": N events, dealt to k frames in one of the shapes
static string check_scale(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[0]), n = stoi(w[1]), k = stoi(w[2]), shape = stoi(w[3]);
    Ops u;
    for (int i = 0; i < n; i++) {
        ref::Op o;
        // runs of one writer, of two in turn, and jumps
        o.id = rdtref::event(i % 50 < 30 ? 100 + i : ((100 + i) << 12), i % 20 < 14 ? "A" : i % 2 ? "B" : "A");
        o.ref = i == 0 ? rdtref::name(form == 13 ? "lww" : form == 1 ? "rga" : form == 8 ? "meta" : "mx") : i % 3 ? u.back().id : u[0].id;
        if (i) o.a = i % 5 ? vector<ref::A>{S(string(1, 'a' + i % 26))} : vector<ref::A>{I(i), Q(u.back().id)};
        u.push_back(o);
    }
    sort(u.begin(), u.end(), [](const ref::Op& a, const ref::Op& b) { return a.id < b.id; });
    vector<Ops> in(k);
    for (int i = 0; i < n; i++) switch (shape) {
        case 0: in[i % k].push_back(u[i]); break;
        case 1: in[k - 1 - i * k / n].push_back(u[i]); break;
        case 2: in[i % k].push_back(u[i]); if ((i * 7 + 3) % k != i % k) in[(i * 7 + 3) % k].push_back(u[i]); break;
        case 3: for (int j = 0; j < k; j++) if (i % (k + 1) != j) in[j].push_back(u[i]); break;
    }
    vector<rx::Frame> fr;
    for (size_t i = 0; i < in.size(); i++) fr.push_back(i % 2 ? rdtx::plain(in[i], i % 4 == 3) : rdtx::frame(in[i]));
    mc::state(t.substr(0, t.rfind(' ')));
    mc::nontrivial();
    mc::trace();
    auto want = rdtref::set_merge(in);
    string r = rdtx::judge(want, rdtx::merge(form, fr));
    if (!r.empty()) return "merge of " + to_string(n) + " events in " + to_string(k) + " frames as form " + to_string(form) + ": " + r.substr(0, 600);
    if (rdtref::form_of(in) == form) {
        r = rdtx::judge(want, rdtx::merge(-1, fr));
        if (!r.empty()) return "merge of " + to_string(n) + " events in " + to_string(k) + " frames with no form given: " + r.substr(0, 600);
    }
    return "";
}
static string case_of(int form, int sp, const vector<int>& masks) {
    string s = to_string(form) + " " + to_string(sp) + " ";
    for (size_t i = 0; i < masks.size(); i++) s += (i ? "," : "") + to_string(masks[i]);
    return s;
}
// every k-tuple of subsets of the first n events
static void families(Gen& g, int n, int k, int sp) {
    for (int form : FORMS) mc::words(1 << n, k, [&](const vector<int>& w) { if (g.mine()) g.run(case_of(form, sp, w)); });
}
int main(int argc, char** argv) {
    prepare();
    mc::Driver d("C09");
    bool deep = mc::thorough();
    d.add({"pairs", [=](Gen& g) { for (int sp = 0; sp < (deep ? 4 : 1); sp++) families(g, deep ? 8 : 7, 2, sp); for (int sp = 1; sp < 4; sp++) families(g, 5, 2, sp); }, check,
           "all ordered pairs of subsets of 7 (thorough 8) events, 4 forms, spellings with and without spans, one chunk or many"});
    d.add({"triples", [=](Gen& g) { families(g, deep ? 6 : 5, 3, 0); families(g, 4, 3, 3); }, check, "all ordered triples of subsets of 5 (thorough 6) events, all groupings"});
    d.add({"many", [=](Gen& g) {
        families(g, 3, 4, 0); families(g, 3, 5, 0); families(g, 2, 6, 0); families(g, 2, 7, 3);
        if (deep) { families(g, 4, 4, 0); families(g, 3, 6, 0); families(g, 2, 8, 0); families(g, 2, 9, 3); }
    }, check, "all 4- and 5-tuples of subsets of 3 events, 6- and 7-tuples of subsets of 2 (thorough: 4-tuples of 4 events, 6-tuples of 3, 8- and 9-tuples of 2)"});
    d.add({"heap", [=](Gen& g) {
        // one event per frame in every order; every way to deal events to replicas
        int n = deep ? 8 : 7;
        for (int form : FORMS) {
            vector<int> p(n);
            for (int i = 0; i < n; i++) p[i] = i;
            do { if (g.mine()) { vector<int> m; for (int i : p) m.push_back(1 << i); g.run(case_of(form, 0, m)); } } while (next_permutation(p.begin(), p.end()));
            int k = deep ? 5 : 4;
            mc::words(k, 8, [&](const vector<int>& w) {
                if (!g.mine()) return;
                vector<int> m(k, 0);
                for (int i = 0; i < 8; i++) m[w[i]] |= 1 << i;
                g.run(case_of(form, 3, m));
            });
        }
    }, check, "7 (8) one-event frames in every order; every deal of 8 events to 4 (5) replicas"});
    d.add({"repeats", [=](Gen& g) {
        auto all = [&](int base, int n, int k) {
            for (int form : FORMS) for (int sp = 0; sp < 2; sp++) mc::words(base, n * k, [&](const vector<int>& w) {
                if (!g.mine()) return;
                string s = to_string(form) + " " + to_string(sp) + " ";
                for (int i = 0; i < n * k; i++) s += (i && i % n == 0 ? "," : "") + string(1, char('0' + w[i]));
                g.run(s);
            });
        };
        all(4, 5, 1); all(3, 4, 2); all(4, 3, 2); all(3, 3, 3); all(4, 2, 3); all(3, 2, 4);
        if (deep) { all(3, 5, 2); all(4, 3, 3); all(3, 2, 5); }
    }, check_repeat, "ops repeated up to 3 times in a frame: one frame of 5 events, pairs of frames of up to 4, triples of 3, four of 2 (thorough: more)"});
    d.add({"scale", [=](Gen& g) {
        for (int form : FORMS) for (int n = 1; n <= (deep ? 500 : 150); n++) for (int k : {1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65}) for (int shape = 0; shape < 4; shape++) {
            if (k > n || (shape == 3 && k > 9)) continue;
            g.add(to_string(form) + " " + to_string(n) + " " + to_string(k) + " " + to_string(shape));
        }
    }, check_scale, "every number of events up to 150 (thorough 500), in 1 to 65 frames: in turn, in blocks, with overlaps, nearly all in each"});
    return d.main(argc, argv);
}
