// C08: streams of frames, split and read; frames written one after another.
#include "ronx.hpp"
using namespace std;
using mc::Gen;

// pieces separated by 0x1e; reference: cut after every ".\n"
static string check_split(const string& t) {
    vector<string> want;
    size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find(".\n", p);
        size_t q = e == string::npos ? t.size() : e + 2;
        string f = t.substr(p, q - p);
        if (e != string::npos || f.find_first_not_of(" \r\n\t") != string::npos) want.push_back(f);
        p = q;
    }
    // whole ops only: every piece must be a frame
    for (auto& f : want) if (!ref::parse(f).ok) return "";
    if (want.size() > 1) mc::nontrivial();
    mc::state(t); mc::trace(); mc::transition(want.size());
    ron::TextFrame f{t};
    vector<ron::TextFrame> got;
    ron::Status ok = f.Split(got);
    if (!ok) return "Split fails: " + ok.str();
    if (f.data() != t) return "Split changes its source";
    if (want.empty()) {
        for (auto& x : got) if (!rx::read(x.data()).ops.empty()) return "ops out of nothing";
        return got.size() > 1 ? "frames out of nothing" : "";
    }
    if (got.size() != want.size()) return "expected " + to_string(want.size()) + " frames, got " + to_string(got.size());
    for (size_t i = 0; i < want.size(); i++) {
        rx::Read r = rx::read(got[i].data());
        if (!r.clean) return "frame " + to_string(i) + " does not parse: " + got[i].data();
        string d = rx::diff(ref::parse(want[i]).ops, r.ops);
        if (!d.empty()) return "frame " + to_string(i) + ": " + d;
        bool term = want[i].size() > 1 && want[i].compare(want[i].size() - 2, 2, ".\n") == 0;
        bool has = got[i].data().size() > 1 && got[i].data().compare(got[i].data().size() - 2, 2, ".\n") == 0;
        if (term != has) return "frame " + to_string(i) + " loses or gains its terminator";
    }
    return "";
}
// builder calls: a..e append an op, ';' '!' '?' end the chunk, '.' end the frame, 'R' release
static string check_build(const string& t) {
    static const vector<ref::Op> O = [] {
        vector<ref::Op> o(5);
        ref::U a; ref::parse_uuid("1ABC+user", a);
        ref::U rga; ref::parse_uuid("rga", rga);
        o[0].id = a; o[0].ref = rga;
        o[1].id = ref::U{a.v + 1, a.o}; o[1].ref = a; o[1].a = {ref::S("b")};
        o[2].id = ref::U{a.v + 2, a.o}; o[2].ref = o[1].id; o[2].a = {ref::S("c")};
        o[3].id = ref::U{1, 0}; o[3].ref = ref::U{}; o[3].a = {ref::S("d.\n.")};
        o[4].id = ref::U{2, 0}; o[4].ref = ref::U{1, 0}; o[4].a = {ref::F(1), ref::S(".")};
        return o;
    }();
    rx::Builder b;
    vector<vector<ref::Op>> frames(1);
    vector<string> released;
    vector<size_t> cut;
    bool open = false;
    string text;
    for (char c : t) {
        mc::transition();
        if (c >= 'a' && c <= 'e') { b.AppendOp(rx::make(O[c - 'a'])); frames.back().push_back(O[c - 'a']); frames.back().back().term = 1; open = true; }
        else if (c == '.') { b.EndFrame(); if (open) frames.back().back().term = 0; open = false; frames.emplace_back(); }
        else if (c == 'R') { string s; b.Release(s); if (open) frames.back().back().term = 0; open = false; text += s; if (!frames.back().empty()) text += ".\n", frames.emplace_back(); }
        else { int term = string(";,!?").find(c); b.EndChunk((ron::TERM)term); if (open) frames.back().back().term = term; open = false; }
    }
    string s;
    b.Release(s);
    text += s;
    if (open) frames.back().back().term = 0;
    if (frames.back().empty()) frames.pop_back();
    if (frames.size() > 1) mc::nontrivial();
    mc::state(text); mc::trace();
    vector<ron::TextFrame> got;
    ron::TextFrame f{text};
    f.Split(got);
    if (text.empty()) return frames.empty() ? "" : "nothing is written";
    if (got.size() != frames.size()) return "expected " + to_string(frames.size()) + " frames, got " + to_string(got.size()) + " of " + text;
    for (size_t i = 0; i < frames.size(); i++) {
        rx::Read r = rx::read(got[i].data());
        string d = rx::diff(frames[i], r.ops);
        if (d.empty() && !r.clean) d = "no clean end";
        if (!d.empty()) return "frame " + to_string(i) + " of\n" + text + "\n" + d;
    }
    return "";
}

int main(int argc, char** argv) {
    mc::Driver d("C08");
    bool deep = mc::thorough();
    d.add({"split", [=](Gen& g) {
        vector<string> T{"@1ABC+user :0 'x';", "1.5,", "('a.b')!\n", "@2+B :lww! 'k' '.';", ".\n", " ", "\n", "\r\n\t", ".", "'\\n.\\n';", "@1+A :0 2.5e1 'y'", ";", "@~ '..' ;"};
        for (int n = 0; n <= (deep ? 7 : 6); n++) mc::words((int)T.size() - (n == 7 ? 4 : 0), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += T[i]; g.run(s); } });
        for (int n = 8; n <= (deep ? 14 : 12); n++) mc::words(3, n, [&](const vector<int>& w) { if (g.mine()) { static const char* S[] = {"'a';", ".\n", "\n"}; string s; for (int i : w) s += S[i]; g.run(s); } });
    }, check_split, "every sequence of at most 6 (thorough 7) of 13 pieces: ops with dots in every place, terminators, blanks; up to 12 (14) of 3 pieces; those that are frames at every cut count"});
    d.add({"scale", [=](Gen& g) {
        vector<string> F{"'a';.\n", "@1ABC+user :0 'x';\n.\n", ".\n", "@1+A :0 2.5e1 'y.\\n';\n1;\n2.0!\n.\n", "('a.b');\n\n.\n"};
        for (int n = 1; n <= (deep ? 600 : 200); n++) for (int k = 0; k < 12; k++) {
            string s;
            for (int i = 0; i < n; i++) s += k < 5 ? F[k] : k == 5 ? F[i % 5] : k == 6 ? F[i * i % 5] : k == 7 ? string(i ? "1;" : "@1+A:0 0;") + (i % 50 == 49 ? ".\n" : "") : k == 8 ? "@1ABC+user :0 '" + string(i, 'x') + ".';\n.\n" : k == 9 ? (i + 1 == n ? ".\n" : "@2+B :lww! 'k' '.';\n") : k == 10 ? (i == n / 2 ? "'" + string(5000, '.') + "';.\n" : F[1]) : (i + 1 == n ? string("'tail';") : F[3]);
            if (n < 120 || k != 8) g.add(s);
        }
    }, check_split, "1 to 200 (thorough 600) frames, of one kind and mixed, growing, with many ops, the last one without its end"});
    d.add({"builds", [=](Gen& g) {
        for (int n = 1; n <= (deep ? 400 : 150); n++) for (auto p : {"a.", "ab;.", "d!.e?.", "abc.R", "dR", "a;b!c", "..a", "ab;c.d"}) { string s; for (int i = 0; i < n; i++) s += p; g.add(s); g.add(s + "e"); }
    }, check_build, "8 patterns of calls repeated 1 to 150 (thorough 400) times"});
    d.add({"build", [=](Gen& g) {
        string A = "abcde;!?.R";
        for (int n = 0; n <= (deep ? 7 : 6); n++) mc::words((int)A.size() - (n == 7), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += A[i]; g.run(s); } });
    }, check_build, "every sequence of at most 6 (thorough 7) builder calls: 5 ops, 3 chunk ends, frame end, release"});
    return d.main(argc, argv);
}
