// C14: the registry of forms and the dispatch of merges.
#include "rdtx.hpp"
#include "db/const.hpp"
using namespace std;
using mc::Gen;
using rdtref::Ops;
using ref::I; using ref::Q; using ref::S;

static ref::U form_id(int code) {
    for (auto& f : rdtref::FORMS) if (f.code == code) return rdtref::name(f.name);
    return ref::FATAL;
}
static string check_code(const string& t) {
    int code = stoi(t);
    mc::state(t); mc::trace(); mc::transition(2);
    ref::U want = form_id(code);
    if (want != ref::FATAL) mc::nontrivial();
    if (rx::u(ron::form2uuid((ron::FORM)code)) != want) return "form2uuid(" + t + ") is " + ron::form2uuid((ron::FORM)code).str();
    if (want == ref::FATAL) return ron::uuid2form(ron::Uuid::FATAL) == ron::ERROR_NO_FORM ? "" : "the error id has a form";
    if (ron::uuid2form(rx::uuid(want)) != code) return "uuid2form of " + ref::text(want);
    for (int v = 1; v < 4; v++) {
        // the same word as an event or other id names no form
        ref::U u = want;
        u.o |= uint64_t(v) << 60;
        if (ron::uuid2form(rx::uuid(u)) != ron::ZERO_RAW_FORM) return ref::text(u) + " is taken for a form";
        u = want;
        u.o |= uint64_t(v);
        if (ron::uuid2form(rx::uuid(u)) != ron::ZERO_RAW_FORM) return ref::text(u) + " is taken for a form";
    }
    for (int b = 0; b < 64; b++) {
        ref::U u = want;
        u.v ^= uint64_t(1) << b;
        bool known = false;
        for (auto& f : rdtref::FORMS) known |= rdtref::name(f.name) == u;
        if (!known && ron::uuid2form(rx::uuid(u)) != ron::ZERO_RAW_FORM) return ref::text(u) + " is taken for a form";
        u.v ^= uint64_t(1) << b;
    }
    return "";
}
static string check_map(const string& t) {
    static const char* NAMES[] = {"chain", "meta", "op", "yarn", "sha2", "prev", "head", "obj", "csv", "txt", "json"};
    int i = stoi(t);
    mc::nontrivial(); mc::state("m" + t); mc::trace(); mc::transition(2);
    if (ron::MAP_COUNT != 11) return "there are " + to_string(int(ron::MAP_COUNT)) + " mappers";
    ref::U u = rdtref::name(NAMES[i]);
    if (rx::u(ron::map2uuid((ron::MAP)i)) != u) return string("the name of mapper ") + NAMES[i];
    if (ron::uuid2map(rx::uuid(u)) != i) return string("the code of mapper ") + NAMES[i];
    for (int b = 0; b < 128; b++) {
        ref::U x = u;
        (b < 64 ? x.v : x.o) ^= uint64_t(1) << (b & 63);
        if (ron::uuid2map(rx::uuid(x)) != ron::MAP_COUNT) return ref::text(x) + " is taken for a mapper";
    }
    return "";
}
// heads: form codes, "u" unknown name, "f" the error name, "p" a patch, "n" a zero ref, "-" an empty frame
static Ops head(const string& h, int at) {
    ref::Op o;
    uint64_t v = 64 + at;
    o.id = rdtref::event(v, "A");
    if (h == "-") return {};
    if (h == "u") o.ref = rdtref::name("unknown");
    else if (h == "f") o.ref = ref::FATAL;
    else if (h == "p") o.ref = rdtref::event(63 + at, "A");
    else if (h == "n") o.ref = ref::U{};
    else o.ref = form_id(stoi(h));
    if (h == "p") o.a = {S("x")};
    Ops f{o};
    if (h != "p" && at == 0) { ref::Op p; p.id = rdtref::event(64 + 32, "B"); p.ref = o.id; p.a = {I(1)}; f.push_back(p); }
    return f;
}
static string check_heads(const string& t) {
    vector<Ops> in;
    vector<rx::Frame> fr;
    int at = 0;
    for (auto& h : mc::split(t, ',')) { in.push_back(head(h, at++)); fr.push_back(rdtx::plain(in.back())); }
    mc::state(t); mc::trace();
    int form = rdtref::form_of(in);
    if (form < 0 || (form != 0 && form != 255)) mc::nontrivial();
    auto got = rdtx::merge(-1, fr);
    if (form < 0) {
        if (got.st != rdtref::REFUSED) return "different forms are merged in " + rdtx::show(fr) + ": " + got.status + " " + got.text;
        return "";
    }
    // unnamed, or named but unknown: nothing is merged, the last one stands
    vector<Ops> live;
    for (auto& f : in) if (!f.empty()) live.push_back(f);
    auto want = rdtref::merge(form, live);
    string r = rdtx::judge(want, got);
    if (!r.empty()) return "merge of " + rdtx::show(fr) + " (form " + to_string(form) + "): " + r;
    // the form alone decides: the same list under each given form
    return "";
}
// "form heads": the form is given, whatever the heads say
static string check_given(const string& t) {
    auto w = mc::split(t, ' ');
    int form = stoi(w[0]);
    vector<Ops> in;
    vector<rx::Frame> fr;
    int at = 0;
    for (auto& h : mc::split(w[1], ',')) { in.push_back(head(h, at++)); fr.push_back(rdtx::plain(in.back())); }
    vector<Ops> live;
    for (auto& f : in) if (!f.empty()) live.push_back(f);
    mc::state(t); mc::trace();
    auto want = rdtref::merge(form, live);
    if (want.st == rdtref::NOTIMPL) mc::nontrivial();
    auto got = rdtx::merge(form, fr);
    string r = rdtx::judge(want, got);
    if (!r.empty()) return "merge of " + rdtx::show(fr) + " as form " + to_string(form) + ": " + r;
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C14");
    bool deep = mc::thorough();
    d.add({"codes", [](Gen& g) { for (int i = 0; i < 256; i++) g.add(to_string(i)); }, check_code, "all 256 form codes, every single-bit variation and version of every form's name"});
    d.add({"mappers", [](Gen& g) { for (int i = 0; i < 11; i++) g.add(to_string(i)); }, check_map, "all mapper codes, every single-bit variation of their names"});
    d.add({"heads", [=](Gen& g) {
        vector<string> all;
        for (int i = 0; i < 20; i++) all.push_back(to_string(i));
        for (const char* x : {"u", "f", "p", "n", "-"}) all.push_back(x);
        vector<string> some{"13", "14", "2", "19", "0", "16", "u", "f", "p", "n", "-"};
        auto put = [&](const vector<string>& a, int k) {
            mc::words(a.size(), k, [&](const vector<int>& w) {
                if (!g.mine()) return;
                string s;
                for (size_t i = 0; i < w.size(); i++) s += (i ? "," : "") + a[w[i]];
                g.run(s);
            });
        };
        for (int k = 1; k <= 3; k++) put(all, k);
        put(some, 4);
        if (deep) { put(all, 4); put(some, 5); }
        // long lists, the name anywhere, and another one after it
        for (int n = 5; n <= (deep ? 70 : 40); n++) for (int a = 0; a < n; a++) for (int b = a; b < n; b += 1 + (n > 12 ? 5 : 0)) for (const char* x : {"13", "2", "15"}) for (const char* y : {"13", "2", "u", "n", "-"}) {
            string s;
            for (int i = 0; i < n; i++) s += string(i ? "," : "") + (i == a ? x : i == b ? y : "p");
            g.add(s);
        }
    }, check_heads, "all lists of up to 3 (thorough 4) frame heads over all forms, an unknown name, the error name, a patch, a zero ref and an empty frame; lists of up to 40 (70) with names at any two places"});
    d.add({"given", [=](Gen& g) {
        vector<string> some{"13", "14", "19", "u", "p", "-"};
        for (int form = 0; form < 256; form++) for (int k = 1; k <= 3; k++) mc::words(some.size(), k, [&](const vector<int>& w) {
            if (!g.mine()) return;
            string s = to_string(form) + " ";
            for (size_t i = 0; i < w.size(); i++) s += (i ? "," : "") + some[w[i]];
            g.run(s);
        });
    }, check_given, "all 256 form codes given for all lists of up to 3 frames"});
    return d.main(argc, argv);
}
