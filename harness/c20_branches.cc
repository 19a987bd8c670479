// C20: histories of creating, writing, dropping, closing and reopening
// branches, against a map of lists; and everything that must be refused.
#include "branchx.hpp"
using namespace std;
using mc::Gen;
using namespace bx;

static string check_many(const string& t) { return many(t); }
static string check_hist(const string& t) {
    auto p = mc::split(t, ' ');
    auto& s = idset();
    World w({U{0, 0}, uu(s[size_t(stoi(p[1]))].c_str()), uu(s[size_t(stoi(p[2]))].c_str())});
    if (p[0].size() > 2) mc::nontrivial();
    return run(w, p[0]);
}
static string check_ids(const string& t) {
    auto p = mc::split(t, ' ');
    World w({U{0, 0}, uu(p[0].c_str()), uu(p[1].c_str())});
    mc::nontrivial();
    return run(w, p[2]);
}
// what is refused, one case each
static string check_refused(const string& t) {
    auto p = mc::split(t, ' ');
    World w({U{0, 0}, uu("~+A"), uu("~+B")});
    mc::nontrivial();
    mc::trace();
    if (p[0] == "never") {
        Store s;
        string r = w.refuses(s, "a store never opened");
        if (r.empty() && s.Close()) r = "a store never opened is closed";
        if (r.empty() && s.Open(ron::Uuid::NIL)) r = "a database that is not there is opened";
        if (r.empty()) r = w.refuses(s, "a store that did not open");
        Store::Branches all;
        if (r.empty() && Store::OpenAll(all)) r = "a database that is not there is opened, with all its branches";
        return r;
    }
    string r = w.init();
    if (!r.empty()) return r;
    for (char c : p[1]) {
        if (c == '1' || c == '2') r = w.create(size_t(c - '0'));
        if (c == 'a' || c == 'b' || c == 'c') r = w.write(size_t(c - 'a'));
        if (!r.empty()) return r;
    }
    auto wrap = [&](const string& why) -> string {
        string x = why.empty() ? w.verify() : why;
        if (x.empty()) x = w.reopen();
        if (x.empty()) x = w.verify();
        return x;
    };
    rdtref::Ops o;
    if (p[0] == "closed") {
        size_t i = size_t(stoi(p[2]));
        if (!w.b[i].handle) return "";
        Store copy(*w.h[i]);
        r = w.close(i);
        if (r.empty()) r = w.refuses(*w.h[i], "a closed store");
        if (r.empty() && w.h[i]->Close()) r = "a store closes twice";
        // the copy is a handle of its own
        if (r.empty()) r = w.contents(i, copy);
        if (r.empty() && copy.open() != true) r = "a copy closes with the store";
        copy.Close();
        return wrap(r);
    }
    if (p[0] == "end") {
        // Key::END in a batch, in any place
        size_t i = size_t(stoi(p[2])), at = size_t(stoi(p[3]));
        if (!w.b[i].handle) return "";
        Store::Records rec;
        for (size_t k = 0; k < 3; k++) rec.emplace_back(k == at ? Key::END : k & 1 ? K1 : K0, w.frame(i, o));
        if (w.h[i]->Write(rec)) r = "a batch writes past all the keys";
        if (r.empty() && w.h[i]->Write(Key::END, w.frame(i, o))) r = "a write past all the keys";
        rx::Frame f = w.frame(i, o);
        if (r.empty() && (!w.h[i]->Read(Key::END, f) || !f.empty())) r = "something past all the keys";
        return wrap(r);
    }
    if (p[0] == "twice") {
        size_t i = size_t(stoi(p[2]));
        if (i == 0) {
            if (w.drop(0) != "") r = "the default store is dropped";
            if (r.empty() && w.h[0]->Open(ron::Uuid::NIL)) r = "an open store is opened";
            Store s;
            if (r.empty() && s.Open(rx::uuid(w.ids[1]))) r = "a branch is opened by Open";
            if (r.empty()) r = w.refuses(s, "a store that did not open");
            Store::Branches all;
            if (r.empty() && Store::OpenAll(all)) r = "an open database is opened again";
            return wrap(r);
        }
        if (!w.b[i].alive) return "";
        r = w.create(i);  // again
        if (r.empty() && w.h[i]->Create(rx::uuid(w.ids[i]))) r = "created twice";
        return wrap(r);
    }
    if (p[0] == "default") {
        // the one name that is the storage engine's own
        Store s{w.h[0]->db()};
        if (s.Create(ron::Uuid{"default"})) r = "a branch of the default store's name";
        if (r.empty()) r = w.refuses(s, "a store not created");
        s.Close();
        Store fresh;
        if (r.empty() && fresh.Create(ron::Uuid{"default"})) r = "a branch of the default store's name";
        if (r.empty()) r = w.refuses(fresh, "a store not created");
        fresh.Close();
        return wrap(r);
    }
    if (p[0] == "dropped") {
        size_t i = size_t(stoi(p[2]));
        if (!i || !w.b[i].handle) return "";
        Store copy(*w.h[i]);
        Store::Iterator it{copy};
        it.SeekTo(Key::ZERO);
        r = w.drop(i);
        if (r.empty()) r = w.refuses(*w.h[i], "a dropped store");
        // writes through a copy come to nothing
        copy.Write(K1, w.frame(i, o));
        Store::Records rec;
        rec.emplace_back(K2, w.frame(i, o));
        copy.Write(rec);
        if (r.empty() && p[3] == "1") {
            // the same name again is a new branch
            r = w.create(i);
            if (r.empty()) r = w.verify();
            if (r.empty()) r = w.write(i);
        }
        it.Close();
        copy.Close();
        return wrap(r);
    }
    if (p[0] == "open") {
        // Open, on a database with the default store only
        w.h[0]->Close();
        Store s;
        ron::Status ok = s.Open(ron::Uuid::NIL);
        bool fine = !w.others();
        if (bool(ok) != fine) r = "open: " + ok.str();
        if (r.empty()) r = ok ? w.contents(0, s) : w.refuses(s, "a store that did not open");
        if (r.empty() && ok) {
            if (!s.Write(K1, w.frame(0, o))) r = "no write";
            w.b[0].one.push_back(o);
            Store::Records rec;
            rec.emplace_back(K2, w.frame(0, o));
            w.b[0].two.push_back(o);
            if (!s.Write(rec)) r = "no batch";
            if (r.empty()) r = w.contents(0, s);
            s.Close();
        }
        w.b[0].handle = false;
        return wrap(r);
    }
    return "?";
}
int main(int argc, char** argv) {
    mc::Driver d("C20");
    bool deep = mc::thorough();
    auto words = [](Gen& g, const string& abc, int n, const string& pre, const string& tail) {
        mc::words(int(abc.size()), n, [&](const vector<int>& v) {
            string w = pre;
            for (int i : v) w += abc[size_t(i)];
            if (sane(w, 3)) g.add(w + tail);
        });
    };
    d.add({"histories", [=](Gen& g) {
               for (int n = 1; n <= (deep ? 6 : 5); n++) words(g, "12abcyzpqrR", n, "", " 0 2");
               words(g, "12abcxyzpqrRf", deep ? 5 : 4, "1b2c", " 0 2");
               words(g, "12abcyzR", deep ? 6 : 4, "1b", " 1 3");
           }, check_hist,
           "all histories of up to 5 steps (thorough 6; after two created and written branches, 4 more, thorough 5): create, write, drop, close, flush, reopen, over the default store and two branches; everything is read after every step", 300});
    d.add({"ids", [=](Gen& g) {
               for (auto& a : idset()) for (auto& b : idset()) if (a != b) { g.add(a + " " + b + " 1b2caRbcyR2cR"); g.add(a + " " + b + " 12caRcyzR1bR"); }
           }, check_ids,
           "all pairs of branch names of all kinds and near each other", 200});
    d.add({"refused", [=](Gen& g) {
               g.add("never -");
               for (string pre : {"a", "1", "ab1", "1b2c", "a1b2c"}) {
                   if (pre == "ab1") pre = "a1b";
                   for (string i : {"0", "1", "2"}) {
                       g.add("closed " + pre + " " + i);
                       for (string k : {"0", "1", "2"}) g.add("end " + pre + " " + i + " " + k);
                       g.add("twice " + pre + " " + i);
                       for (string k : {"0", "1"}) g.add("dropped " + pre + " " + i + " " + k);
                   }
                   g.add("default " + pre);
                   g.add("open " + pre);
               }
           }, check_refused,
           "every operation on closed, dropped, never opened and not created stores and at the reserved key, in five databases", 60});
    d.add({"many", [=](Gen& g) {
               for (int n = 3; n <= (deep ? 70 : 34); n += n < 10 || deep ? 1 : 4) for (int step : {1, 2, 3, 7}) g.add(to_string(n) + " " + to_string(step));
           }, check_many,
           "3 to 34 (thorough 70) branches created, written to, dropped in part, created again, with reopenings", 300});
    return d.main(argc, argv);
}
