// C17: write histories of the disk store, with flushes, compactions and
// reopenings in every place, against the merge of all that was written.
#include "scalex.hpp"
using namespace std;
using mc::Gen;

// all histories of n writes over the first k frames of each form
struct Hist { int form, src; vector<int> w; vector<rdtref::Out> want; sx::Key key; };
static vector<Hist>& histories(int n, int k) {
    static map<pair<int, int>, vector<Hist>> all;
    auto& v = all[{n, k}];
    if (!v.empty()) return v;
    auto& src = sx::sources();
    for (size_t s = 0; s < src.size(); s++) {
        uint64_t at = 0;
        mc::words(k, n, [&](const vector<int>& w) {
            Hist h;
            h.form = src[s].form; h.src = int(s); h.w = w;
            vector<rdtref::Ops> in;
            for (int i = 0; i <= n; i++) {
                // an unmerged empty frame is as good as none
                h.want.push_back(in.empty() ? rdtref::Out{} : rdtref::merge(h.form, in));
                if (i < n && !src[s].ops[w[i]].empty()) in.push_back(src[s].ops[w[i]]);
            }
            // neighbours differ in the last bits; the same ids under all the forms
            h.key = sx::Key{rx::uuid(rdtref::event(1000 + at++, "A")), (ron::FORM)h.form};
            v.push_back(h);
        });
    }
    return v;
}
static string name_of(const Hist& h) {
    string s = "form " + to_string(h.form) + " writes";
    for (int i : h.w) s += " " + (sx::sources()[h.src].frames[i].empty() ? string("(empty)") : sx::sources()[h.src].frames[i].data());
    return s;
}
// "n k mode controls": mode s(ingle) b(atch) d(ouble batch: two writes of each key in one), r: reads in between
static string check(const string& t) {
    auto p = mc::split(t, ' ');
    int n = stoi(p[0]), k = stoi(p[1]);
    string mode = p[2], ctl = p[3];
    bool reads = mode.find('r') != string::npos;
    auto& src = sx::sources();
    auto& hs = histories(n, k);
    sx::Dir dir;
    sx::Store st;
    ron::Status ok = st.Create(ron::Uuid::NIL);
    if (!ok) return "no database: " + ok.str();
    auto verify = [&](int done, const string& when) -> string {
        for (auto& h : hs) {
            string r = sx::read(st, h.key, h.want[done]);
            if (!r.empty()) return when + ", after " + to_string(done) + " of " + name_of(h) + ": " + r;
            mc::state(to_string(h.form) + ":" + to_string(done) + ":" + ref::show(h.want[done].ops, false));
        }
        // nothing where nothing was written
        for (auto& s : src) for (uint64_t v : {999ULL, 1000ULL + hs.size()}) {
            rdtref::Out none;
            string r = sx::read(st, sx::Key{rx::uuid(rdtref::event(v, "A")), (ron::FORM)s.form}, none);
            if (!r.empty()) return "a key never written: " + r;
        }
        return "";
    };
    for (int i = 0; i < n; i++) {
        if (mode[0] == 's') {
            for (auto& h : hs) {
                ok = st.Write(h.key, src[h.src].frames[h.w[i]]);
                mc::transition();
                if (!ok) return "write fails: " + ok.str() + " for " + name_of(h);
            }
        } else if (mode[0] == 'b' || i % 2 || i + 1 == n) {
            sx::Store::Records rec;
            for (auto& h : hs) {
                if (mode[0] == 'd' && i % 2) rec.emplace_back(h.key, src[h.src].frames[h.w[i - 1]]);
                rec.emplace_back(h.key, src[h.src].frames[h.w[i]]);
            }
            ok = st.Write(rec);
            mc::transition(rec.size());
            if (!ok) return "batch fails: " + ok.str();
        }
        string r;
        string where = "with controls " + ctl + ", mode " + mode;
        bool pending = mode[0] == 'd' && i % 2 == 0 && i + 1 < n;
        if (reads && !pending) r = verify(i + 1, where);
        if (r.empty()) switch (ctl[i]) {
            case 'f': r = sx::flush(st); break;
            case 'c': r = sx::flush(st); if (r.empty()) r = sx::compact(st); break;
            case 'o': r = sx::reopen(st); break;
        }
        if (r.empty() && reads && !pending && ctl[i] != '-') r = verify(i + 1, where);
        if (!r.empty()) return r;
    }
    mc::nontrivial();
    mc::trace();
    string r = verify(n, "with controls " + ctl + ", mode " + mode);
    if (r.empty()) r = sx::flush(st);
    if (r.empty()) r = sx::compact(st);
    if (r.empty()) r = verify(n, "with controls " + ctl + " and a last compaction, mode " + mode);
    if (r.empty()) r = sx::reopen(st);
    if (r.empty()) r = verify(n, "with controls " + ctl + " and a last reopening, mode " + mode);
    return r;
}
// "form writes keys controls big": long histories of one key or of many
static string check_scale(const string& t) {
    auto p = mc::split(t, ' ');
    int form = stoi(p[0]), n = stoi(p[1]), nk = stoi(p[2]), big = stoi(p[4]);
    char ctl = p[3][0];
    auto ser = sc::series(form, n, big);
    sx::Dir dir;
    sx::Store st;
    ron::Status ok = st.Create(ron::Uuid::NIL);
    if (!ok) return "no database: " + ok.str();
    auto key = [&](int k) { return sx::Key{rx::uuid(rdtref::event(50 + k, k % 4 == 3 ? "B" : "A")), (ron::FORM)form}; };
    // each key takes the events in an order of its own
    auto pick = [&](int k, int i) { return k % 3 == 0 ? i : k % 3 == 1 ? n - 1 - i : (i * 2) % n + (n % 2 == 0 && i >= n / 2); };
    vector<vector<rdtref::Ops>> in(nk);
    sx::Store::Records rec;
    string r;
    for (int i = 0; i < n && r.empty(); i++) {
        for (int k = 0; k < nk; k++) {
            int e = pick(k, i);
            in[k].push_back(ser[e]);
            mc::transition();
            if (ctl == 'b' || ctl == 'B') rec.emplace_back(key(k), sc::frame(ser[e], e));
            else if (!(ok = st.Write(key(k), sc::frame(ser[e], e)))) return "write " + to_string(i) + " fails: " + ok.str();
        }
        if (rec.size() && (i + 1 == n || (ctl == 'B' && i % 16 == 15))) { if (!(ok = st.Write(rec))) return "batch of " + to_string(rec.size()) + " fails: " + ok.str(); rec.clear(); }
        if (ctl == 'f' && i % 7 == 6) r = sx::flush(st);
        if (ctl == 'c' && i % 25 == 24) { r = sx::flush(st); if (r.empty()) r = sx::compact(st); }
        if (ctl == 'o' && i % 20 == 19) r = sx::reopen(st);
    }
    vector<rdtref::Out> want;
    for (auto& v : in) want.push_back(rdtref::merge(form, v));
    mc::nontrivial(); mc::trace(); mc::state(p[0] + " " + p[1] + " " + p[2]);
    auto all = [&](const char* when) -> string {
        for (int k = 0; k < nk; k++) {
            string e = sx::read(st, key(k), want[k]);
            if (!e.empty()) return "key " + to_string(k) + " of " + to_string(nk) + " after " + to_string(n) + " writes of form " + p[0] + ", " + when + ": " + e.substr(0, 700);
        }
        return "";
    };
    if (r.empty()) r = all("at once");
    if (r.empty()) r = sx::flush(st);
    if (r.empty()) r = all("flushed");
    if (r.empty()) r = sx::compact(st);
    if (r.empty()) r = all("compacted");
    if (r.empty()) r = sx::reopen(st);
    if (r.empty()) r = all("reopened");
    return r;
}
static void shapes(Gen& g, int n, int k, const string& mode, const string& abc = "-fco") {
    mc::words(int(abc.size()), n, [&](const vector<int>& w) {
        string c;
        for (int i : w) c += abc[i];
        g.add(to_string(n) + " " + to_string(k) + " " + mode + " " + c);
    });
}
int main(int argc, char** argv) {
    mc::Driver d("C17");
    bool deep = mc::thorough();
    for (auto p : {pair<int, int>{3, 4}, {4, 3}, {5, 3}, {3, 6}, {2, 6}, {4, 4}}) histories(p.first, p.second);
    if (deep) { histories(6, 2); histories(5, 4); histories(6, 3); }
    d.add({"single", [=](Gen& g) { shapes(g, 4, 3, "s"); shapes(g, 5, 3, "s"); shapes(g, 4, 4, "s"); if (deep) { shapes(g, 6, 2, "s"); shapes(g, 5, 4, "s"); shapes(g, 6, 3, "s", "-co"); } }, check,
           "all histories of 5 (thorough 6) single writes of 3 frames and of 4 writes of 4 frames (thorough 5) of each of 8 forms, with nothing, a flush, a compaction or a reopening after each, read at the end, after a compaction and after a reopening", 400});
    d.add({"reads", [=](Gen& g) { shapes(g, 3, 4, "sr"); shapes(g, 3, 4, "br"); shapes(g, 4, 3, "sr"); shapes(g, 3, 6, "sr"); shapes(g, 4, 3, "br"); if (deep) { shapes(g, 5, 3, "sr"); shapes(g, 4, 4, "br"); } }, check,
           "all histories of 4 writes (thorough 5) of 3 frames and of 3 writes of 6 frames, an empty one among them, read after every step", 400});
    d.add({"batch", [=](Gen& g) { shapes(g, 3, 4, "d"); shapes(g, 4, 3, "d"); shapes(g, 4, 3, "b"); shapes(g, 5, 3, "d", "-co"); if (deep) { shapes(g, 5, 3, "b"); shapes(g, 6, 2, "d"); } }, check,
           "all histories of 3 to 5 (thorough 6) writes, in batches that hold two writes of every key", 400});
    d.add({"scale", [=](Gen& g) {
        for (auto& s : sx::sources()) {
            for (int n = 6; n <= (deep ? 150 : 70); n += n < 40 || deep ? 1 : 5) for (char c : string("-fcobB")) if (deep || n < 20 || n % 6 == string("-fcobB").find(c)) g.add(to_string(s.form) + " " + to_string(n) + " 3 " + c + " " + to_string(n % 4 == 1));
            for (int k : {17, 33, 64, 65, 130, 300}) for (char c : string("-fobB")) g.add(to_string(s.form) + " 4 " + to_string(k) + " " + c + " " + to_string(k % 2));
        }
        for (auto c : {"-", "b", "f"}) g.add(string("13 600 2 ") + c + " 1");
    }, check_scale, "6 to 70 (thorough 150) writes of single events to each key, in three orders, singly, with flushes, compactions or reopenings now and then, in batches of 16 or all in one; the same with up to 300 keys", 400});
    return d.main(argc, argv);
}
