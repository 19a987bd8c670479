// C13: object logs to states, at any version.
#include "rdtx.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;
using ref::I; using ref::F; using ref::Q; using ref::S;

static string check_log(const string& t, int form, int sp, const Ops& log, const vector<int>& cuts);
// "form parents ids spelling": the log's i-th op refs its par[i]-th op; ids is
// the rank of each op's id among all (so the log may be in any causal order)
static string check(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[0]), sp = stoi(w[3]), sc = stoi(w[4]);
    string par = w[1] == "-" ? "" : w[1];
    int n = par.size() + 1;
    Ops log;
    for (int i = 0; i < n; i++) {
        ref::Op o;
        int rank = w[2][i] - '0';
        uint64_t v = 64 + rank;
        string org = "A";
        if (sc == 1) org = rank % 2 ? "B" : "A";
        if (sc == 2) { v = 64 + rank / 2; org = rank % 2 ? "B" : "A"; }
        if (sc == 3) v = 64 * (1 + rank);
        o.id = rdtref::event(v, org.c_str());
        o.ref = i ? log[par[i - 1] - '0'].id : rdtref::name(form == 13 ? "lww" : form == 14 ? "rga" : form == 15 ? "mx" : "max");
        if (i) switch (form) {
            case 14: if (i % 5 == 3) o.a = {Q(rdtref::name("rm"))}; else o.a = {S(i == 2 ? "\xE2\x82\xAC" : string(1, 'a' + i))}; break;
            case 13: if (i % 3 == 2) o.a = {Q(rdtref::name("key")), S("v" + to_string(i))}; else o.a = {Q(rdtref::name("mark"))}; break;
            case 15: o.a = {I(i), I(0), F(i / 2.0)}; break;
            case 19: o.a = {I((i * 5) % 7)}; break;
        }
        log.push_back(o);
    }
    vector<int> cuts;
    for (int cut = 0; cut <= n; cut++) cuts.push_back(cut);
    return check_log(t, form, sp, log, cuts);
}
// "form n shape spelling": a long log
static string check_scale(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[0]), n = stoi(w[1]), shape = stoi(w[2]), sp = stoi(w[3]);
    Ops log;
    vector<int> cuts;
    for (int i = 0; i < n; i++) {
        int p = shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : shape == 3 ? max(0, i - 2) : shape == 4 ? (i % 4 ? i - 1 : 0) : (i % 20 ? i - 1 : max(0, i - 40));
        ref::Op o;
        o.id = rdtref::event(64 + i + (i >= 50 ? i << 12 : 0), i % 20 < 14 ? "A" : i % 2 ? "B" : "A");
        o.ref = i ? log[p].id : rdtref::name(form == 13 ? "lww" : form == 14 ? "rga" : form == 15 ? "mx" : "max");
        if (i) switch (form) {
            case 14: if (i % 16 == 15) o.a = {Q(rdtref::name("rm"))}; else o.a = {S(i % 11 == 10 ? "\xE2\x82\xAC" : string(1, 'a' + i % 26))}; break;
            case 13: o.a = {Q(rdtref::name(i % 3 ? "key" : "other")), S("v" + to_string(i))}; break;
            case 15: o.a = {I(i), I(0), F(i / 2.0)}; break;
            case 19: o.a = {I((i * 37) % 101)}; break;
        }
        log.push_back(o);
        if (i % 9 == 0 || i > n - 3) cuts.push_back(i);
    }
    cuts.push_back(n);
    return check_log(t, form, sp, log, cuts);
}
static string check_log(const string& t, int form, int sp, const Ops& log, const vector<int>& cuts) {
    int n = log.size();
    rx::Frame f = sp == 0 ? rdtx::frame(log) : rdtx::plain(log, sp == 2);
    mc::state(t); mc::trace();
    if (n > 2) mc::nontrivial();
    for (int cut : cuts) {
        // every op as the version, then none
        Ops want(log.begin(), log.begin() + (cut == n ? n : cut + 1));
        ron::Uuid version = cut == n ? ron::Uuid::FATAL : rx::uuid(log[cut].id);
        auto out = form == 14 ? rdtref::Out{rdtref::OK, rdtref::weave(want)} : rdtref::merge(form, {want});
        rx::Frame st;
        ron::Status ok = ron::ObjectLogToState<rx::Frame>(st, f, version);
        string r = rdtx::judge(out, rdtx::result(ok, st));
        string at = cut == n ? "" : " at " + ref::text(log[cut].id);
        if (!r.empty()) return "state of log " + f.data() + at + ": " + r;
        // the chains: together they are the log up to the version, each one is a chain
        rx::Frame::Cursors chains;
        if (!ron::SplitLogIntoChains<rx::Frame>(chains, f, version)) return "no chains for " + f.data();
        Ops all;
        for (auto c : chains) {
            bool first = true;
            while (c.valid()) {
                string bad;
                ref::Op o = rx::read_op(c, bad);
                if (!bad.empty()) return bad;
                if (!first && o.ref != all.back().id) return "not a chain in " + f.data() + at + ": " + ref::show(o);
                if (first && !all.empty() && o.ref == all.back().id) return "a chain cut in two in " + f.data() + at + ": " + ref::show(o);
                first = false;
                all.push_back(o);
                c.Next();
                mc::transition();
            }
            if (first) return "an empty chain";
        }
        r = rx::diff(want, all, false);
        if (!r.empty()) return "chains of log " + f.data() + at + ": " + r;
        // a merge of the chains as frames is the state, too (what a store does with them)
        if (form == 14 || form == 13) {
            rx::Frame st2;
            ok = ron::MergeCursors<rx::Frame>(st2, chains);
            r = rdtx::judge(out, rdtx::result(ok, st2));
            if (!r.empty()) return "merge of chains of " + f.data() + at + ": " + r;
        }
    }
    return "";
}
static void logs(int n, const function<void(const string&, const string&)>& f) {
    string par;
    function<void(int)> rec = [&](int i) {
        if (i == n) {
            string ids;
            for (int k = 0; k < n; k++) ids += '0' + k;
            do {
                bool causal = true;
                for (int k = 1; k < n && causal; k++) causal = ids[k] > ids[par[k - 1] - '0'];
                if (causal) f(par.empty() ? "-" : par, ids);
            } while (next_permutation(ids.begin(), ids.end()));
            return;
        }
        for (int p = 0; p < i; p++) { par.push_back('0' + p); rec(i + 1); par.pop_back(); }
    };
    rec(1);
}
int main(int argc, char** argv) {
    mc::Driver d("C13");
    bool deep = mc::thorough();
    d.add({"logs", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 7 : 6); n++) logs(n, [&](const string& par, const string& ids) {
            for (int form : {13, 14, 15, 19}) for (int sp = 0; sp < 3; sp++) for (int sc = 0; sc < 4; sc++) {
                if (n >= 6 && (!deep || n == 7) && (sp == 2 || sc == 2 || (form > 14 && (sp || sc)))) continue;
                if (g.mine()) g.run(to_string(form) + " " + par + " " + ids + " " + to_string(sp) + " " + to_string(sc));
            }
        });
    }, check, "every causally ordered log of up to 6 (thorough 7) ops: every reference tree, every id order, 4 types, 3 spellings, 4 id schemes; every op as the version"});
    d.add({"chains", [=](Gen& g) {
        // long runs, cut anywhere, with a second branch
        for (int n = 2; n <= 9; n++) for (int b = 0; b <= n; b++) for (int at = 0; at < max(1, b); at++) for (int form : {13, 14, 15, 19}) for (int sp = 0; sp < 3; sp++) for (int sc = 0; sc < 4; sc++) {
            if (!g.mine()) continue;
            string par, ids;
            for (int i = 1; i < n; i++) par += char('0' + (i == b ? at : i - 1));
            for (int i = 0; i < n; i++) ids += char('0' + i);
            g.run(to_string(form) + " " + par + " " + ids + " " + to_string(sp) + " " + to_string(sc));
        }
    }, check, "logs of up to 9 ops of two runs, the second starting anywhere"});
    d.add({"scale", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 300 : 100); n += n < 40 ? 1 : deep ? 1 : 3) for (int shape = 0; shape < 6; shape++) for (int form : {13, 14, 15, 19}) for (int sp = 0; sp < 2; sp++)
            g.add(to_string(form) + " " + to_string(n) + " " + to_string(shape) + " " + to_string(sp));
    }, check_scale, "logs of up to 100 (thorough 300) ops of 4 types in trees of 6 shapes, every ninth op and the last ones as the version"});
    return d.main(argc, argv);
}
