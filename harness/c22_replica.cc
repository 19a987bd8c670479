// C22: what a replica accepts, and what it then holds.
#include "crashx.hpp"
#include "replx.hpp"
using namespace std;
using mc::Gen;
using ref::I; using ref::Op; using ref::Q; using ref::S; using ref::U;
using rdtref::Ops;
using px::Model;
using px::Rep;

static uint64_t yid(const char* s) { return rdtref::event(0, s).o; }
static ron::Word yarn(uint64_t o) { return ron::Word{o & ref::M60}; }

struct World {
    unique_ptr<sx::Dir> dir;  // its own, or the one that is set
    unique_ptr<Rep> rep;
    explicit World(bool set = false) { if (!set) dir.reset(new sx::Dir); }
    string open() {
        rep.reset(new Rep);
        ron::Status ok = rep->Open();
        mc::transition();
        return ok ? "" : "the replica does not open: " + ok.str();
    }
    string reopen() { rep->Close(); return open(); }
    string init() {
        ron::Status ok = Rep::CreateReplica();
        mc::transition();
        return ok ? open() : "no replica: " + ok.str();
    }
};
// makes the events the letters stand for
struct Maker {
    Model m;
    int sc;
    uint64_t own, oth;
    uint64_t clock{64};
    explicit Maker(int s) : sc{s}, own{yid("test")}, oth{yid("other")} {
        m.yarn = own;
        m.add(sx::op(U{0, own}, rdtref::name("yarn")));
    }
    U at(uint64_t y, U r) {
        uint64_t v;
        if (sc == 0) v = ++clock;                       // one clock for all
        else {                                          // a clock of each yarn
            uint64_t l = m.last.count(y) ? m.last[y].v : 0;
            if (rdtref::is_time(r) && r.v > l) l = r.v;
            v = max<uint64_t>(l + 1, 64);
            if (sc == 2) v = (v | 63) + 1;
            if (sc == 1 && y == oth) v += 32;  // theirs is ahead
        }
        return U{v, y};
    }
    vector<ref::A> value(U r, size_t n) {
        U rdt = m.ev.count(r) ? m.ev[r].rdt : U{};
        string ch(1, char('a' + n % 26));
        if (rdt == rdtref::name("lww")) return {Q(rdtref::name(n % 2 ? "x" : "y")), I(int64_t(n))};
        if (rdt == rdtref::name("max")) return {I(int64_t(n * 7 % 5))};
        if (rdt == rdtref::name("mx")) return {I(int64_t(n % 2)), I(0), S(ch)};
        return {S(ch)};
    }
    U last_object(bool rga_only = false) { for (size_t i = m.objects.size(); i-- > 0;) if (!rga_only || m.ev[m.objects[i]].rdt == rdtref::name("rga")) return m.objects[i]; return U{}; }
    // a good event; false if it can not be made now
    bool good(char c, Op& o) {
        bool other = isupper(c) ? c == 'E' || c == 'D' || c == 'C' || c == 'Y' || c == 'G' : false;
        uint64_t y = other ? oth : own;
        if (other && c != 'Y' && !m.last.count(oth)) return false;
        U r;
        switch (c) {
            case 'L': r = rdtref::name("lww"); break;
            case 'R': case 'C': r = rdtref::name("rga"); break;
            case 'M': r = rdtref::name("mx"); break;
            case 'X': r = rdtref::name("max"); break;
            case 'Y': if (m.last.count(oth)) return false; r = rdtref::name("yarn"); break;
            case 'e': case 'm': r = m.last[own]; break;
            case 'E': r = m.last[oth]; break;
            case 'D': r = m.last[own]; break;
            case 'k': if (!m.last.count(oth)) return false; r = m.last[oth]; break;
            case 'r': case 'G': r = last_object(); break;
            default: return false;
        }
        o = sx::op(at(y, r), r);
        if (!rdtref::is_time(r)) { if (c == 'Y') o.a = {Q(rdtref::name("nick")), S("o")}; }
        else o.a = value(r, m.order.size());
        if (c == 'm') o.a = m.ev[r].rdt == rdtref::name("rga") ? vector<ref::A>{Q(rdtref::name("rm"))} : vector<ref::A>{};
        return true;
    }
    // an event to be refused
    bool bad(char c, Op& o) {
        U tip = m.last[own], r = tip;
        U id = at(own, r);
        switch (c) {
            case 'd': r = U{tip.v + 1, own}; id = U{tip.v + 64, own}; break;                       // nothing has this id
            case 'D': r = U{tip.v + 1, yid("nobody")}; id = U{tip.v + 64, own}; break;              // nor this one
            case 'b': { r = U{}; for (auto& p : m.ev) if (p.first.o == own) { U n = p.first; n.v += n.v ? 0 : 1; if (!m.ev.count(n)) r = n; } if (r == U{}) return false; break; }  // between the first two
            case 'f': r = id; break;
            case 'g': r = id; r.v++; break;
            case 'G': r = id; r.v += 5; r.o = oth; break;
            case 'p': id = tip; r = m.objects[0]; if (r == tip) return false; break;
            case 'q': id = tip; r = m.ev[tip].op.ref; break;                                          // repeats
            case 'v': if (tip.v < 65) return false; id.v = tip.v - 1; r = m.objects[0]; break;       // goes back
            case 'V': { if (!m.last.count(oth)) return false; U l = m.last[oth]; id = l; r = m.last[oth]; if (l.v > 64) { id.v--; } r = m.objects[0]; break; }
            case 'u': id.o = yid("nobody"); break;
            case 'U': id.o = yid("nobody"); r = rdtref::name("lww"); break;
            case 'O': if (m.last.count(oth)) return false; id.o = oth; r = rdtref::name("rga"); break;
            case 'y': r = rdtref::name("yarn"); break;
            case 'w': id = U{0, own}; r = rdtref::name("yarn"); break;
            case 'W': id = U{1, own}; r = rdtref::name("yarn"); break;
            case '1': r = rdtref::name("log"); break;
            case '2': r = rdtref::name("meta"); break;
            case '3': r = rdtref::name("zero"); break;
            case '4': r = rdtref::name("zzz"); break;
            case '5': r = rdtref::name("txt"); break;
            case '6': r = U{}; break;
            case '7': r = rdtref::name("chain"); break;
            case '8': r = tip; r.o ^= 1UL << 60; break;  // not an event
            default: return false;
        }
        o = sx::op(id, r);
        if (rdtref::is_time(r)) o.a = {S("z")};
        return true;
    }
};
static const string BAD = "dDbfgGpqvVuUOywW12345678";

static rx::Frame text(const Ops& ops, int form) {
    if (form) return rdtx::frame(ops);
    return rdtx::plain(ops, true);
}
// "clocks form history": letters of good events, | ends a frame, / ends it and reopens the replica
static string check(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[1]);
    Maker k(stoi(w[0]));
    World x;
    string e = x.init();
    if (!e.empty()) return e;
    ron::Status ok = x.rep->CreateBranch(yarn(k.own), true);
    if (!ok) return "no branch: " + ok.str();
    ok = x.rep->CreateBranch(yarn(yid("side")), true);
    if (!ok) return "no second branch: " + ok.str();
    string side = px::dump(x.rep->GetBranch(yarn(yid("side"))));
    Ops f;
    vector<U> unknown;
    string h = w[2] + "|";
    for (char c : h) {
        if (c != '|' && c != '/') {
            Op o;
            if (!k.good(c, o)) return "";  // no such history
            f.push_back(o);
            if (!k.m.add(o)) return "a bad case";
            unknown.push_back(U{o.id.v + 1, o.id.o});
            unknown.push_back(U{o.id.v - 1, o.id.o});
            continue;
        }
        if (!f.empty()) {
            rx::Builder resp;
            rx::Frame fr = text(f, form);
            ok = x.rep->ReceiveFrame(resp, fr, yarn(k.own));
            mc::transition();
            if (!ok) return "refused: " + ok.str() + ": " + fr.data();
            if (!resp.data().empty()) return "a response to no query: " + resp.data();
            if (f.size() > 1) mc::nontrivial();
        }
        f.clear();
        if (c == '/') { e = x.reopen(); if (!e.empty()) return e; }
    }
    unknown.push_back(U{3, k.own});
    unknown.push_back(U{64, yid("nobody")});
    mc::trace();
    mc::state(t);
    e = px::compare(*x.rep, k.m, unknown, "after all");
    if (!e.empty()) return e;
    if (px::dump(x.rep->GetBranch(yarn(yid("side")))) != side) return "another branch changed";
    // everything that is to be refused, alone and after and before good events, leaves no trace
    string before = px::dump(*x.rep);
    U obj = k.last_object();
    string query = "@" + ref::text(obj) + " :" + ref::text(k.m.ev[obj].rdt) + " ?";
    if (k.m.ev[obj].rdt == rdtref::name("max")) query = "";
    auto refuse = [&](const string& txt, const string& what) -> string {
        rx::Builder resp;
        ron::Status ok = x.rep->ReceiveFrame(resp, rx::Frame{txt}, yarn(k.own));
        mc::transition();
        if (ok) return what + " is accepted: " + txt;
        if (px::dump(*x.rep) != before) return what + " is refused but leaves a trace: " + txt;
        return "";
    };
    for (char c : BAD) {
        Op o, g, g2;
        if (k.bad(c, o)) {
            if (e = refuse(text({o}, form).data(), string("bad event ") + c); !e.empty()) return e;
            if (!query.empty()) { if (e = refuse(query + text({o}, 0).data(), string("a query and bad event ") + c); !e.empty()) return e; }
            // a good one after it does not help
            Maker k2 = k;
            if (k2.good('e', g)) { g.id.v += 4096; if (e = refuse(text({o, g}, form).data(), string("before a good one, bad event ") + c); !e.empty()) return e; }
        }
        for (char gc : string("erLECY")) {
            Maker k2 = k;
            if (!k2.good(gc, g) || !k2.m.add(g)) continue;
            if (!k2.bad(c, o)) continue;
            if (e = refuse(text({g, o}, form).data(), string("after ") + gc + ", bad event " + c); !e.empty()) return e;
        }
    }
    {
        Op g;
        Maker k2 = k;
        k2.good('e', g);
        string good = text({g}, form).data();
        for (string s : {"sdf", "@", "@1A+x :", "@1A+x :lww 'abc", "'x", "@1A+x :lww =", "((", ", ^ ;"}) {
            if (e = refuse(good + s, "a frame with a syntax error"); !e.empty()) return e;
            if (!query.empty()) { if (e = refuse(good + query + s, "a frame with a syntax error after a query"); !e.empty()) return e; }
            if (e = refuse(s + good, "a frame that starts with a syntax error"); !e.empty()) return e;
        }
        rx::Builder resp;
        ok = x.rep->ReceiveFrame(resp, rx::Frame{good}, yarn(yid("nobody")));
        if (ok || px::dump(*x.rep) != before) return "a frame to an unknown branch is " + string(ok ? "accepted" : "refused but leaves a trace");
    }
    // and nothing of all that lingers
    e = px::compare(*x.rep, k.m, unknown, "after the refusals");
    if (!e.empty()) return e;
    e = x.reopen();
    if (!e.empty()) return e;
    if (px::dump(*x.rep) != before) return "a reopening changes the data";
    e = px::compare(*x.rep, k.m, unknown, "after a reopening");
    if (!e.empty()) return e;
    // it goes on
    Op g;
    k.good('e', g);
    k.m.add(g);
    rx::Builder resp;
    ok = x.rep->ReceiveFrame(resp, text({g}, form), yarn(k.own));
    mc::transition();
    if (!ok) return "an event after the reopening is refused: " + ok.str();
    return px::compare(*x.rep, k.m, unknown, "after one more");
}
#include "c22_more.hpp"
int main(int argc, char** argv) {
    mc::Driver d("C22");
    bool deep = mc::thorough();
    d.add({"frames", [=](Gen& g) {
        string a = "LReErkYCDmGMX";
        for (int n = 1; n <= (deep ? 4 : 3); n++) mc::words(a.size(), n, [&](const vector<int>& w) {
            // foreign events need their yarn
            bool y = false;
            for (int i : w) { char c = a[i]; if (c == 'Y') { if (y) return; y = true; } else if (string("ECDGk").find(c) != string::npos && !y) return; }
            for (int cut = 0; cut < (1 << (n - 1)); cut++) for (int f = 0; f < 2; f++) {
                int sc = (cut + f) % 3;
                if (!g.mine()) continue;
                string s;
                for (int i = 0; i < n; i++) { s += a[w[i]]; if (i + 1 < n && (cut >> i & 1)) s += i % 2 ? '/' : '|'; }
                g.run(to_string(sc) + " " + to_string(f) + " " + s);
            }
        });
    }, check, "every history of up to 3 (thorough 4) events of two yarns and four types, cut into frames in every way, in full and shortened spelling; at its end every bad event alone, before and after good ones", 120});
    d.add({"writes", [=](Gen& g) {
        string a = "abtuofOFnNqgGcXYZVWUTS", sep[] = {"", "|", "/", "+", "|>", "|<"};
        for (int n = 1; n <= (deep ? 4 : 3); n++) mc::words(a.size(), n, [&](const vector<int>& w) {
            int k = 6;
            // a bad one counts in the last place, or before a good one in its frame
            int bads = 0;
            for (int i = 0; i < n; i++) bads += w[i] >= 14;
            if (bads > 1) return;
            mc::words(k, n - 1, [&](const vector<int>& v) {
                static const set<string> some{"00", "01", "12", "20", "30"};
                if (n == 3 && !deep && !some.count(to_string(v[0]) + to_string(v[1]))) return;
                if (!g.mine()) return;
                string s;
                for (int i = 0; i < n; i++) { s += a[w[i]]; if (i + 1 < n) s += sep[v[i]]; }
                g.run(s);
            });
        });
    }, more::check_writes, "every history of up to 3 (thorough 4) chunks to be stamped by the replica or stamped, names, queries and bad ones, in one frame or several, with reopenings and jumps of the clock between them", 120});
    d.add({"long", [=](Gen& g) {
        string a = "lmpaonqg", sep[] = {"", "|", "/"};
        for (int n = 1; n <= (deep ? 4 : 3); n++) mc::words(a.size(), n, [&](const vector<int>& w) {
            if (none_of(w.begin(), w.end(), [](int i) { return i < 3; })) return;
            mc::words(3, n - 1, [&](const vector<int>& v) {
                if (!g.mine()) return;
                string s;
                for (int i = 0; i < n; i++) { s += a[w[i]]; if (i + 1 < n) s += sep[v[i]]; }
                g.run(s);
            });
        });
    }, more::check_writes, "every history of up to 3 (thorough 4) chunks with a chain of 40 events, a tree of 100 or 35 objects among them, in one frame or several, with reopenings between them", 120});
    d.add({"branches", [=](Gen& g) {
        vector<string> A{"c1", "c2", "f12", "f21", "f23", "d1", "d2", "s1", "s2", "w1", "w2", "w0", "n1", "/"};
        if (deep) for (auto x : {"c3", "f13", ">"}) A.push_back(x);
        vector<string> pre{"", "c1 w1", "c1 w1 f12", "c2 s2 w0", "c1 w1 / c2"};
        for (auto& p : pre) for (int n = 1; n <= (deep ? 4 : 3); n++) mc::words(A.size(), n, [&](const vector<int>& w) {
            if (!g.mine()) return;
            string s = p;
            for (int i : w) s += (s.empty() ? "" : " ") + A[i];
            g.run(s);
        });
    }, more::check_branches, "every history of up to 3 (thorough 4) operations after 5 beginnings: create, fork, drop, choose the active branch, write to a branch or to the active one, name, reopen", 120});
    d.add({"edits", [=](Gen& g) {
        for (size_t i = 0; i < more::edited().size(); i++) for (size_t k = 0; k <= more::edited()[i].size(); k++) g.add(to_string(i) + " " + to_string(k));
    }, more::check_edit, "6 frames cut at every byte, and with every byte left out, replaced by or preceded by each of 19 characters", 120});
    d.add({"crashes", [=](Gen& g) {
        g.add("R");
        vector<string> A{"c1", "c2", "f12", "d1", "s1", "w1", "w2", "n1", "/"};
        for (char c : string("CWDSO")) for (int n = 0; n <= (deep ? 3 : 2); n++) mc::words(A.size(), n, [&](const vector<int>& w) {
            int c1 = 0, d1 = 0, c2 = 0;
            string s;
            for (int i : w) {
                string o = A[i];
                if (o == "c1") { if (c1) return; c1 = 1; }
                else if (o == "c2" || o == "f12") { if (c2 || (o == "f12" && !c1)) return; c2 = 1; }
                else if (o == "w2") { if (!c2) return; }
                else if (o != "/" && !c1) return;
                if (o == "d1") { c1 = 0; d1 = 1; }
                s += o + " ";
            }
            if (string("WDS").find(c) != string::npos && !c1) return;
            g.add(s + c);
        });
    }, more::check_crash, "the making of a replica, a branch, a frame with 3 objects and a name, a drop, a choice of the active branch and a reopening after every history of up to 2 (thorough 3) steps, killed at every file system call, writes done in parts; reopened, compared, gone on with", 300});
    return d.main(argc, argv);
}
