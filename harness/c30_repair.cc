// C30: a repair of a sound database, and of one that a process died on, keeps
// every branch and every record.
#include "branchx.hpp"
#include "crashdb.hpp"

static string check_hist(const string& t) {
    auto p = mc::split(t, ' ');
    bx::World w({U{0, 0}, bx::uu(p[1].c_str()), bx::uu(p[2].c_str())});
    if (p[0].size() > 2) mc::nontrivial();
    return bx::run(w, p[0]);
}
static string check_many(const string& t) { return bx::many(t, true); }
static string check_crash(const string& t) { mend() = true; return check_once(t); }
static string check_none(const string& t) {
    sx::Dir dir;
    mc::trace();
    if (t == "absent") { if (Store::Repair()) return "a database that is not there is repaired"; }
    else {
        bx::World w({U{0, 0}, bx::uu("~+A"), bx::uu("~+B")});
        string r = w.init();
        if (r.empty() && t == "open") {
            // while it is open, it is not touched
            r = w.create(1);
            if (r.empty()) r = w.write(1);
            if (r.empty() && Store::Repair()) r = "an open database is repaired";
            if (r.empty()) r = w.verify();
            if (r.empty()) r = w.reopen();
            if (r.empty()) r = w.verify();
        }
        return r;
    }
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C30");
    bool deep = mc::thorough();
    auto hist = [](Gen& g, const string& abc, int n, const string& pre, const string& ids) {
        mc::words(int(abc.size()), n, [&](const vector<int>& v) {
            string w = pre;
            for (int i : v) w += abc[size_t(i)];
            w += 'P';
            if (bx::sane(w, 3)) g.add(w + " " + ids);
        });
    };
    d.add({"histories", [=](Gen& g) {
               for (int n = 1; n <= (deep ? 5 : 4); n++) hist(g, "1abyRPAB", n, "", "~+A 1gABC+A");
               for (int n = 1; n <= (deep ? 4 : 3); n++) hist(g, "abcyzBRPkp", n, "1b2", "lww abc%def");
               hist(g, "1abyP", deep ? 7 : 5, "a", "1gABC-A name$scope");
           }, check_hist,
           "all histories of up to 5 steps (thorough 8) ending in a repair: create, write, drop, flush and compact branches, reopen, repair; everything is read after every step", 300});
    d.add({"ids", [=](Gen& g) {
               auto& s = bx::idset();
               for (size_t i = 0; i < s.size(); i++) for (size_t k = 0; k < s.size(); k++) if (i != k) for (string w : {"1b2cPbcyP", "1b2cBaPzRP", "12RbCcPcyP2P"}) if (deep || (i + k) % 3 == 1) g.add(w + " " + s[i] + " " + s[k]);
           }, check_hist,
           "every third pair (thorough all pairs) of branch names of all kinds and near each other", 200});
    d.add({"many", [=](Gen& g) {
               for (int n = 3; n <= (deep ? 40 : 22); n += n < 10 || deep ? 1 : 4) for (int step : {1, 2, 7}) g.add(to_string(n) + " " + to_string(step));
           }, check_many,
           "3 to 22 (thorough 40) branches created, written to, dropped in part, created again, with repairs between", 300});
    // a repair that is killed itself is another matter: the engine's is not atomic
    auto crash = [](Gen& g, const string& abc, int n, const string& must) {
        mc::words(int(abc.size()), n, [&](const vector<int>& v) {
            string w = "C";
            for (int i : v) w += abc[size_t(i)];
            if (sane(w) && w.back() != 'P' && (must.empty() || w.find(must) != string::npos)) g.add(w);
        });
    };
    d.add({"crashes", [=](Gen& g) {
               for (int n = 1; n <= (deep ? 4 : 3); n++) crash(g, deep ? "wsfondP" : "wsfndP", n, "n");
               for (int n = 0; n <= (deep ? 4 : 2); n++) crash(g, "wbcP", n, "");
           }, check_crash,
           "all histories of up to 3 steps (thorough 4), killed at every file system call of the last one, repaired, compared and gone on with", 300});
    d.add({"none", [=](Gen& g) { g.add("absent"); g.add("open"); }, check_none, "a database that is open, and none at all", 60});
    return d.main(argc, argv);
}
