// C12: merges of max objects.
#include "rdtx.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;
using ref::I; using ref::F; using ref::Q; using ref::S;

// universes of values: integers, floats, strings, ids, all types mixed
static vector<vector<ref::A>> VALS;
static const string LONG(70, 'x');
static void prepare() {
    auto e = [](uint64_t v, const char* o) { return rdtref::event(v << 6, o); };
    VALS = {
        {I(0), I(-1), I(1), I(INT64_MAX), I(INT64_MIN), I(1), I(-2)},
        {F(0.5), F(-0.5), F(1e300), F(-1e300), F(1e-300), F(0.5), F(1.0)},
        {S(""), S("a"), S("b"), S("ab"), S("\xD1\x8F"), S("a"), S("'\\")},
        {Q(e(1, "A")), Q(e(1, "B")), Q(e(2, "A")), Q(rdtref::name("max")), Q(rdtref::name("a")), Q(e(1, "A")), Q(ref::U{})},
        {I(1L << 53), I((1L << 53) + 1), I(INT64_MAX), I(INT64_MAX - 1), I(-(1L << 53) - 1), I(1L << 32), I(-(1L << 53))},
        {F(1.0), F(1.0 + 2.3e-16), F(0.1), F(0.1f), F(16777217.0), F(16777216.0), F(4e-320)},
        {S(LONG + "a"), S(LONG + "b"), S(LONG), S(LONG + "\xD1\x8F"), S(LONG + "\xF0\x9F\x98\x80"), S(LONG + "\xEF\xBF\xBD"), S("xx")},
        {I(5), F(-1.0), S("z"), Q(e(9, "Z")), I(5), S("z"), F(2.0)},
    };
}
// op k of universe n: 0 is the root, k is the k-th value; ids are not in value order
static ref::Op op(int n, int k) {
    static const int ID[] = {1, 4, 3, 7, 2, 6, 5, 8};
    ref::Op o;
    o.id = rdtref::event(64 * ID[k], k % 2 ? "B" : "A");
    o.ref = k ? rdtref::event(64 * (k % 3 ? 1 : 2), "A") : rdtref::name("max");
    if (k) o.a = {VALS[n][k - 1]};
    if (k == 3) o.a.push_back(S("more"));
    return o;
}
// "universe form spelling frame,frame,..", a frame is a run of op digits
static string check(const string& t) {
    auto w = mc::split(t, ' ');
    int n = stoi(w[0]), sp = stoi(w[2]);
    bool found = w[1] == "?";
    vector<Ops> in;
    vector<rx::Frame> fr;
    for (auto& x : mc::split(w[3], ',')) {
        Ops f;
        for (char c : x) if (c != '-') f.push_back(op(n, c - '0'));
        in.push_back(f);
        fr.push_back(sp == 0 ? rdtx::frame(f) : rdtx::plain(f, sp == 2));
    }
    auto want = rdtref::max_merge(in);
    mc::state(w[0] + rdtx::show({rdtx::plain(want.ops)})); mc::trace();
    if (want.ops.size() > 1 || (fr.size() > 1 && !want.ops.empty())) mc::nontrivial();
    if (found && rdtref::form_of(in) != 19) return "";
    string r = rdtx::judge(want, rdtx::merge(found ? -1 : 19, fr));
    if (!r.empty()) return "merge of " + rdtx::show(fr) + ": " + r;
    if (fr.size() >= 2 && fr.size() <= 4) for (int s = 1; s + 1 < (1 << fr.size()); s++) {
        vector<rx::Frame> h[2], m(2);
        for (size_t i = 0; i < fr.size(); i++) h[s >> i & 1].push_back(fr[i]);
        for (int k = 0; k < 2; k++) {
            rx::Frame::Cursors cs;
            for (auto& x : h[k]) { cs.emplace_back(x); if (!cs.back().Next()) cs.pop_back(); }
            if (!ron::MergeCursors<rx::Frame>(m[k], ron::MAX_RDT_FORM, cs)) return "a half of " + rdtx::show(fr) + " does not merge";
        }
        r = rdtx::judge(want, rdtx::merge(19, m));
        if (!r.empty()) return "merge of merged " + rdtx::show(m) + ": " + r;
    }
    return "";
}
// "n ops universe shape": n values, the greatest anywhere
static string check_scale(const string& t) {
    auto w = mc::split(t, ' ');
    int n = stoi(w[0]), per = stoi(w[1]), uni = stoi(w[2]), at = stoi(w[3]), root = stoi(w[4]);
    Ops all;
    for (int i = 0; i < n; i++) {
        ref::Op o;
        o.id = rdtref::event(64 * (1 + (i * 37 + 11) % 1009), i % 2 ? "B" : "A");
        o.ref = rdtref::event(64, "A");
        int v = i == at ? 5000 : (i * 29) % 1000;
        o.a = {uni == 0 ? I(v) : uni == 1 ? F(v / 4.0 - 100) : uni == 2 ? S(string(1 + v / 700, char('a' + v / 250))) : Q(rdtref::event(64 * v, "A"))};
        all.push_back(o);
    }
    ref::Op r;
    r.id = rdtref::event(64, "A");
    r.ref = rdtref::name("max");
    all.insert(all.begin() + (root ? n : 0), r);
    vector<Ops> in;
    for (size_t i = 0; i < all.size(); i++) { if (i % per == 0) in.emplace_back(); in.back().push_back(all[i]); }
    vector<rx::Frame> fr;
    for (auto& o : in) fr.push_back(fr.size() % 2 ? rdtx::plain(o) : rdtx::frame(o));
    mc::state(t); mc::trace(); mc::nontrivial();
    auto want = rdtref::max_merge(in);
    string e = rdtx::judge(want, rdtx::merge(19, fr));
    if (!e.empty()) return "merge of " + to_string(n) + " values in " + to_string(fr.size()) + " frames: " + e;
    if (rdtref::form_of(in) == 19) { e = rdtx::judge(want, rdtx::merge(-1, fr)); if (!e.empty()) return "merge of " + to_string(n) + " values in " + to_string(fr.size()) + " frames, no form given: " + e; }
    return "";
}
// "n shape turn": two texts that differ after n chars
static string check_text(const string& t) {
    auto w = mc::split(t, ' ');
    int n = stoi(w[0]), shape = stoi(w[1]), turn = stoi(w[2]);
    string x;
    while ((int)x.size() < n) x += shape == 3 ? "\xE2\x82\xAC" : shape == 1 ? string(1, char('a' + x.size() % 26)) : "z";
    string a = x + (shape == 2 ? "" : "p"), b = x + (shape == 2 ? "p" : shape == 1 ? "\xD1\x8F" : "q");
    Ops in[2];
    for (int i = 0; i < 2; i++) {
        ref::Op o;
        o.id = rdtref::event(64 * (5 - i), "A");
        o.ref = rdtref::event(64, "A");
        o.a = {S(i ^ turn ? b : a)};
        in[i].push_back(o);
    }
    mc::state(t); mc::trace(); mc::nontrivial();
    vector<Ops> all{in[0], in[1]};
    string e = rdtx::judge(rdtref::max_merge(all), rdtx::merge(19, {rdtx::plain(in[0]), rdtx::frame(in[1])}));
    return e.empty() ? "" : "merge of two texts that differ after " + to_string(x.size()) + " bytes: " + e.substr(0, 300);
}
int main(int argc, char** argv) {
    prepare();
    mc::Driver d("C12");
    bool deep = mc::thorough();
    d.add({"families", [=](Gen& g) {
        // single-op patches, root-op states, empty frames
        vector<string> atoms{"-", "0"};
        for (int k = 1; k <= 7; k++) { atoms.push_back(string(1, '0' + k)); atoms.push_back("0" + string(1, '0' + k)); }
        for (int n = 0; n < (int)VALS.size(); n++) for (int k = 1; k <= (deep ? 4 : 3); k++) mc::words(atoms.size(), k, [&](const vector<int>& w) {
            for (int sp = 0; sp < 3; sp++) {
                if (!g.mine()) continue;
                string s = to_string(n) + " 19 " + to_string(sp) + " ";
                for (size_t i = 0; i < w.size(); i++) s += (i ? "," : "") + atoms[w[i]];
                g.run(s);
            }
        });
    }, check, "all ordered families of up to 3 (thorough 4) patches and states over 5 value universes of 7 values, all groupings, 3 spellings"});
    d.add({"long", [=](Gen& g) {
        // frames with several ops, the root anywhere; the form named or found
        vector<string> fr;
        for (int k = 1; k <= 3; k++) mc::words(4, k, [&](const vector<int>& w) { string s; for (int i : w) s += char('0' + i); fr.push_back(s); });
        // one frame alone, reduced
        for (int n = 0; n < (int)VALS.size(); n++) for (int k = 1; k <= (deep ? 5 : 4); k++) mc::words(8, k, [&](const vector<int>& w) {
            for (const char* f : {"19 0", "? 1", "19 2"}) if (g.mine()) { string s; for (int i : w) s += char('0' + i); g.run(to_string(n) + " " + f + " " + s); }
        });
        for (int n = 0; n < (int)VALS.size(); n++) for (auto& a : fr) for (auto& b : fr) for (const char* f : {"19", "?"}) if (g.mine()) g.run(to_string(n) + " " + f + " 1 " + a + "," + b);
        for (int n = 0; n < (int)VALS.size(); n++) for (int k = 5; k <= (deep ? 7 : 6); k++) mc::words(deep ? 4 : 3, k, [&](const vector<int>& w) {
            if (!g.mine()) return;
            string s = to_string(n) + " 19 0 ";
            for (size_t i = 0; i < w.size(); i++) s += (i ? "," : "") + string(1, '0' + (w[i] ? w[i] + 3 : 0));
            g.run(s);
        });
    }, check, "all frames of up to 4 (5) ops, alone; all pairs of frames of up to 3 ops with the root anywhere, the form given or found; up to 6 (7) one-op frames"});
    d.add({"scale", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 150 : 70); n++) for (int per : {1, 2, 3, 10, 1000}) for (int uni = 0; uni < 4; uni++) for (int at = 0; at < n; at += deep || n < 10 ? 1 : 7) for (int root = 0; root < 2; root++)
            g.add(to_string(n) + " " + to_string(per) + " " + to_string(uni) + " " + to_string(at) + " " + to_string(root));
    }, check_scale, "every number of values up to 70 (thorough 150) of each type, in frames of 1, 2, 3, 10 or all, the greatest anywhere, the creation first or last"});
    d.add({"texts", [=](Gen& g) {
        vector<int> ns;
        for (int i = 0; i <= (deep ? 1100 : 300); i++) ns.push_back(i);
        for (int i : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000}) ns.push_back(i);
        for (int i : ns) for (int shape = 0; shape < 4; shape++) for (int turn = 0; turn < 2; turn++) g.add(to_string(i) + " " + to_string(shape) + " " + to_string(turn));
    }, check_text, "texts that differ after a common start of every length up to 300 (thorough 1100) and around powers of two"});
    return d.main(argc, argv);
}
