// C03/C04: the parser against the reference parser: all token sequences, all
// short texts, the W-method test set of the grammar's automaton, number and
// word limits, byte edits of a corpus.
#include "corpus.hpp"
#include "nfa.hpp"
#include "ronx.hpp"
#include "ron/hash.hpp"
using namespace std;
using mc::Gen;

#ifdef C04
static const char* ID = "C04";
#else
static const char* ID = "C03";
#endif

static string cmp(const rx::Read& got, const ref::Parsed& want) {
    if (!got.bad.empty()) return got.bad;
    string d = rx::diff(want.ops, got.ops);
    if (!d.empty()) return d;
    if (got.capped != want.capped) return "a different number of ops than the " + to_string(want.ops.size()) + " expected";
    if (!got.capped && got.clean != want.ok)
        return want.ok ? "a valid frame ends with " + got.status : "the frame is malformed, yet the parser reports its clean end after op " + to_string(got.ops.size());
    return "";
}

static const size_t CAP = 64;

// every reading of a text: plain, and with an independent copy of the cursor
static string check(const string& t) {
    rx::Exact e{t};
    ref::Parsed want = ref::parse(t, CAP);
    rx::Cursor c{e.slice()};
    rx::Read got = rx::read(c, CAP);
    mc::state(t);
    mc::transition();
    if (!want.ops.empty()) mc::nontrivial();
    mc::trace();
    string d = cmp(got, want);
    if (!d.empty()) return d;
    // a copy taken between two ops goes on alike; the end stays the end
    rx::Cursor a{e.slice()};
    for (size_t i = 0; i < want.ops.size() && i < 3; i++) {
        if (!a.Next()) return "a second reading ends at op " + to_string(i);
        if (!a.valid()) return "not valid() on a good op";
        rx::Read rest = rx::read(a, CAP);
        string bad;
        ref::Op again = rx::read_op(a, bad);
        ref::Op here = want.ops[i];
        again.term = here.term;
        if (!(again == here)) return "the op under the cursor changes when a copy moves on: " + ref::show(again);
        vector<ref::Op> tail(want.ops.begin() + i + 1, want.ops.end());
        if (!want.capped) {
            d = rx::diff(tail, rest.ops);
            if (!d.empty()) return "from a copied cursor: " + d;
        }
    }
    if (!want.capped) {
        rx::Cursor b{e.slice()};
        size_t n = 0;
        while (b.Next()) n++;
        for (int i = 0; i < 2; i++) if (b.Next()) return "Next() succeeds after the end";
    }
#ifdef C04
    // the frame by value; chunks; splitting; every value by every reader
    ron::TextFrame f{t};
    rx::Read own = rx::read(f.cursor(), CAP);
    if (own.ops.size() != got.ops.size()) return "the owned frame reads differently";
    vector<ron::TextFrame> parts;
    f.Split(parts);
    size_t sum = 0;
    for (auto& p : parts) { sum += p.data().size(); rx::read(p.data(), CAP); }
    if (sum > t.size()) return "Split() makes up bytes";
    { ron::Uuid u{e.slice()}; u.str(); }
    { ron::SHA2::ParseHex(t); ron::SHA2::ParseBase64(t); ron::SHA2::valid(e.slice()); }
    { ron::Codepoints to; ron::ParseUtf8(to, t); }
    { ron::TextFrame::decode_hex_cp(e.slice()); }
    {
        auto b = t.begin();
        size_t steps = 0;
        while (b != t.end()) { auto was = b; ron::utf8read(b, t.end()); if (b <= was) return "utf8read does not advance"; if (++steps > t.size()) return "utf8read takes too many steps"; }
    }
    // re-serialization of whatever was readable
    rx::Builder bld;
    rx::Cursor w{e.slice()};
    for (size_t n = 0; n < CAP && w.Next(); n++) { bld.AppendOp(w); if (w.term() != ron::REDUCED) bld.EndChunk(w.term()); }
#endif
    return "";
}

int main(int c, char** v) {
    mc::Driver d(ID);
    bool deep = mc::thorough();
#ifdef C04
    const bool asan = true;
#else
    const bool asan = false;
#endif
    d.add({"tokens", [=](Gen& g) {
        static const vector<string> T{"@a", "@1+B", ":c", ":0", " ", "\n", "1", "-5", "abc", "1e5", "1.5", "a+b", "=", "^", ">", "'", "'x'", "''", "'\\u0416\xd0\xb6'",
                                      "(", ")", "(3)", "('ab')", ";", ",", "!", "?", ".\n", "A/", "\\", "+", "9999999999999999999", "abcdefghijk", "''(2)", "(0)", "('')", "\xc0\x80", "\\ud800"};
        int len = asan ? (deep ? 4 : 3) : 4;
        vector<string> heads{""};
        if (!asan || deep) heads.push_back("@1+A :0 'x' 7,\n");
        for (auto& h : heads)
            for (int n = 0; n <= len; n++)
                mc::words((int)T.size(), n, [&](const vector<int>& w) { if (g.mine()) { string s = h; for (int i : w) s += T[i]; g.run(s); } });
        // closed by a term, so that deeper words are whole ops
        for (int n = 3; n <= (asan ? 3 : deep ? 5 : 4); n++)
            mc::words(n == 5 ? 26 : (int)T.size(), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += T[i]; g.run(s + ";"); } });
    }, check, "every sequence of at most 4 (C04: 3, thorough 4) of 38 grammar tokens, bare and after a first op, and those of 4 (thorough 5) closed by a terminator", 40});
    d.add({"chars", [=](Gen& g) {
        static const string A("0a-.'\\u@: \n=^>(),;e/+\xd0\x96\x7f", 25);
        int len = asan ? (deep ? 5 : 4) : (deep ? 6 : 5);
        for (int n = 0; n <= len; n++)
            mc::words((int)A.size() - (n == 6 ? 5 : 0), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += A[i]; g.run(s); } });
    }, check, "every text of at most 5 (C04: 4; thorough one more) characters of a 25-letter alphabet with a representative of each grammar class", 40});
    d.add({"automaton", [=](Gen& g) {
        static const string order = [] { string o = "0a;'\\u@: \n.=^>(),1e+-/A~$"; for (int i = 1; i < 256; i++) o += char(i); return o; }();
        static const nfa::Dfa dfa = nfa::determinize(nfa::frame());
        static const vector<string> acc = nfa::access(dfa, order), suf = nfa::distinguish(dfa, order);
        string cls = "0a5-+.'\\un@: \n=^>(),;!e/A$~_GZgF";
        cls += "\x80\x90\xa0\xbf\xc1\xc2\xdf\xe0\xe1\xed\xef\xf0\xf1\xf4\xf5\xff";
        cls += '\0';
        auto put = [&](const string& p) { for (auto& s : suf) if (g.mine()) g.run(p + s); if (g.mine()) g.run(p); };
        for (auto& a : acc) {
            put(a);
            for (int b = 0; b < 256; b++) put(a + char(b));
            if (!asan || deep) for (char x : cls) for (char y : cls) put(a + x + y);
            if (!asan && deep) for (char x : cls) for (char y : cls) for (char z : string("0a'\\; @:(=+/\x80\xe0")) put(a + x + y + z);
        }
    }, check, "W-method: access strings of the 64 states of the grammar's minimal automaton x every byte (and every two, thorough three, class representatives) x the 41 suffixes that tell its states apart", 40});
    d.add({"limits", [=](Gen& g) {
        vector<string> heads{"", " ", "1 ", "@1+A :0 ", "'x' ", "@1+A "}, tails{";", " ;", ",", "(2);", " 'x'!", " 1;", "\n.\n", ""};
        auto put = [&](const string& x) { for (auto& h : heads) for (auto& t : tails) if (g.mine()) g.run(h + x + t); };
        for (string q : {"", "=", "= "}) for (string s : {"", "-", "+"}) {
            for (int n = 1; n <= 24; n++) for (string dg : {"0", "1", "9", "10", "01", "5"}) { string x; while ((int)x.size() < n) x += dg; put(q + s + x.substr(0, n)); }
            for (string base : {"9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775806", "922337203685477580", "9223372036854775799", "9223372036854775810", "18446744073709551615", "9999999999999999999", "8999999999999999999", "0922337203685477580", "00009223372036854775807", "4611686018427387904", "999999999999999999", "2147483648", "4294967296"}) put(q + s + base);
        }
        for (string q : {"", "^", "^ "}) for (string s : {"", "-", "+"})
            for (string m : {"0", "1", "12", "1234567890123456", "99999999999999999"}) for (string f : {"", ".0", ".5", ".25", ".1234567", ".00000000000000001"})
                for (string x : {"", "e0", "E5", "e+5", "E-5", "e308", "e-308", "E310", "e-400", "e0000000001"}) put(q + s + m + f + x);
        for (string q : {"", ">", "> "}) for (string var : {"", "1/", "F/"}) for (int n = 1; n <= 12; n++) for (string sep : {"", "+", "-", "%", "$"}) for (int m : {1, 2, 9, 10, 11, 12}) for (char dg : {'1', 'z'}) put(q + var + string(n, dg) + (sep.empty() ? "" : sep + string(m, 'y')));
        for (string sp : {"@", "@1 :", "@1+A:"}) for (string var : {"", "B/"}) for (int n = 0; n <= 12; n++) for (string sep : {"", "+", "-", "%", "$"}) for (int m : {0, 1, 9, 10, 11, 12}) for (string t : {";", " 1;", " :0;", ":0;", "'x'!", ""})
            if (g.mine()) g.run(sp + var + string(n, 'x') + (sep.empty() ? "" : sep + string(m, '9')) + t);
        for (string s : {"0", "00", "1", "01", "2", "9", "10", "64", "65", "100", "255", "256", "257", "0000000000003", "107374182", "1073741823", "1073741824", "1073741825", "1073741829", "1073741830", "4294967295", "4294967296", "4294967297", "4294967299", "42949672970", "10000000000000000000000000003", "18446744073709551619"})
            for (string h : {"", "@1+A :0", "@1+A :0 5", "'a'", "'ab' 1", ">x", " 7"}) for (string t : {";", ",1;", "!'x'?", " 1;", ""}) g.add(h + "(" + s + ")" + t);
        for (int n = 0; n <= 70; n++) for (string h : {"", "@1+A :0", "@1+A :0 5"}) { g.add(h + "('" + string(n, 'q') + "');1;"); string x; for (int i = 0; i < n; i++) x += i % 3 ? "\xd0\x96" : "\\u0041"; g.add(h + "('" + x + "');1;"); }
        for (int n = 0; n <= 70; n++) { string x; for (int i = 0; i < n; i++) x += "'" + string(i % 4, 'k') + "' " + to_string(i) + " a" + to_string(i) + " "; g.add("@1+A :0 " + x + ";2;"); }
    }, check, "numbers, words, spans and strings of every length around their limits, in every value position", 40});
    d.add({"edits", [=](Gen& g) {
        auto& C = corpus();
        for (auto& t : C) for (size_t i = 0; i <= t.size(); i++) {
            g.add(t.substr(0, i));
            if (i) g.add(t.substr(i));
            for (int b = 0; b < 256; b++) {
                if (g.mine()) { string s = t; s.insert(i, 1, char(b)); g.run(s); }
                if (i < t.size() && g.mine()) { string s = t; s[i] = char(b); g.run(s); }
            }
            for (size_t j = i + 1; j <= t.size(); j++) if (g.mine()) { string s = t; s.erase(i, j - i); g.run(s); }
        }
        for (auto& a : C) for (auto& b : C) { g.add(a + b); for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j += asan ? 3 : 1) if (g.mine()) g.run(a.substr(0, i) + b.substr(j)); }
        if (deep) for (auto& t : C) for (size_t i = 0; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) for (char a : string("0a'\\; @:(=+/.\n\x80")) for (char b : string("0a'\\; @:(=+/.\n\x80"))
            if (g.mine()) { string s = t; s[i] = a; s[j] = b; g.run(s); }
    }, check, "14 frames using every construct: every prefix, suffix, deletion of a segment, insertion and substitution of any byte at any place, and every splice of two", 40});
    return d.main(c, v);
}
