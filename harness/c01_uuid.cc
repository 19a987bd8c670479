// C01: UUID text coding, every word pattern x flag and every text up to a bound.
#include "ronx.hpp"
using namespace std;
using mc::Gen;

static string num(uint64_t x) { char b[32]; snprintf(b, 32, "%016llx", (unsigned long long)x); return b; }

static string check_write(const string& t) {
    ref::U x{strtoull(t.substr(0, 16).c_str(), nullptr, 16), strtoull(t.substr(17, 16).c_str(), nullptr, 16)};
    ron::Uuid u = rx::uuid(x);
    string want = ref::text(x);
    mc::transition(4);
    if (u.str() != want) return "written as " + u.str() + ", the canonical text is " + want;
    string app = "x";
    u.write_base64(app);
    if (app != "x" + want) return "write_base64 appends " + app;
    rx::Exact e{want};
    ron::Uuid back{e.slice()};
    if (back != u || !(back == u)) return want + " reads back as " + back.str();
    if (!(u == want.c_str()) || !(u == want)) return want + " does not equal its own text";
    mc::state(want);
    mc::nontrivial();
    // a bare word in a frame that would be read as a number needs a quote
    ref::Parsed p = ref::parse(" " + want + ";");
    bool number = p.ok && p.ops.size() == 1 && p.ops[0].a.size() == 1 && p.ops[0].a[0].t != ref::UUID;
    if (number && !u.is_ambiguous()) return want + " reads as a number but is not called ambiguous";
    // versions and neighbours
    auto plus = rx::u(u.event()), minus = rx::u(u.derived());
    uint64_t org = x.o & ref::M60;
    if (plus != ref::U{x.v, org | (2ULL << 60)}) return "event() gives " + ref::text(plus);
    if (minus != ref::U{x.v, org | (3ULL << 60)}) return "derived() gives " + ref::text(minus);
    if (x.v < UINT64_MAX - 8 && (rx::u(u.inc()) != ref::U{x.v + 1, x.o} || rx::u(u.inc(7)) != ref::U{x.v + 7, x.o} || rx::u(u + 3) != ref::U{x.v + 3, x.o})) return "inc() is off";
    if (x.v && rx::u(u.dec()) != ref::U{x.v - 1, x.o}) return "dec() is off";
    if ((u.variety() != (x.v >> 60)) || (int(u.version()) != int((x.o >> 60) & 3))) return "variety or version misread";
    return "";
}

static string check_read(const string& t) {
    ref::U want;
    bool ok = ref::parse_uuid(t, want);
    if (!ok) want = ref::FATAL;
    rx::Exact e{t};
    mc::transition(2);
    ron::Uuid got{e.slice()};
    if (rx::u(got) != want) return "reads as " + got.str() + ", " + (ok ? "the grammar gives " + ref::text(want) : "although it is no UUID");
    if (ok) { mc::nontrivial(); mc::state(t); }
    // the same bytes as a part of a longer buffer
    string pad = "9/A+" + t + "0z-B";
    ron::Slice part{(ron::CharRef)pad.data(), ron::Range{4, ron::fsize_t(4 + t.size())}};
    ron::Uuid in{part};
    if (rx::u(in) != want) return "inside a longer buffer it reads as " + in.str();
    if (t.find('\0') == string::npos) {
        ron::Uuid c{t.c_str()};
        if (rx::u(c) != want) return "as a C string it reads as " + c.str();
    }
    return "";
}

static string check_order(const string& t) {
    auto p = mc::split(t, ' ');
    ref::U a{strtoull(p[0].c_str(), nullptr, 16), strtoull(p[1].c_str(), nullptr, 16)}, b{strtoull(p[2].c_str(), nullptr, 16), strtoull(p[3].c_str(), nullptr, 16)};
    ron::Uuid x = rx::uuid(a), y = rx::uuid(b);
    mc::transition(6);
    if (a != b) mc::nontrivial();
    mc::state(t);
    if ((x < y) != (a < b) || (x > y) != (b < a) || (x == y) != (a == b) || (x != y) != (a != b) || (x <= y) != !(b < a) || (x >= y) != !(a < b))
        return "compared wrongly: " + x.str() + " and " + y.str();
    if (a == b && std::hash<ron::Uuid>{}(x) != std::hash<ron::Uuid>{}(y)) return "equal ids hash differently";
    if ((x.str() == y.str()) != (a == b)) return "texts " + x.str() + " and " + y.str();
    return "";
}

static vector<uint64_t> word_set(bool deep) {
    set<uint64_t> w{0, 1, ref::M60, ref::M60 - 1, 1ULL << 59};
    for (int pos = 0; pos < 10; pos++)
        for (uint64_t c = 0; c < 64; c++) w.insert(c << (54 - 6 * pos));
    for (int bit = 0; bit < 60; bit++) { w.insert(1ULL << bit); w.insert((1ULL << bit) - 1); }
    if (deep)
        for (int p = 0; p < 10; p++) for (int q = p + 1; q < 10; q++)
            for (uint64_t a : {1, 9, 10, 35, 36, 41, 62, 63}) for (uint64_t b : {1, 9, 10, 35, 36, 41, 62, 63}) w.insert((a << (54 - 6 * p)) | (b << (54 - 6 * q)));
    for (const char* s : {"1e5", "12E3", "5e", "e5", "1E", "0e0", "1e1e1", "123456789e", "1234567e89", "0000000001", "lww", "A", "9999999999", "1e0000000", "10", "05", "1a", "0E1", "1e00000001", "NEVER", "inf", "nan"}) {
        uint64_t x; if (ref::parse_word(s, x)) w.insert(x);
    }
    return {w.begin(), w.end()};
}

int main(int c, char** v) {
    mc::Driver d("C01");
    bool deep = mc::thorough();
    auto big = word_set(true), few = word_set(false);
    vector<uint64_t> tiny;
    for (const char* s : {"0", "1", "A", "z", "~", "1e", "12E", "5", "05", "9999999999", "~~~~~~~~~~", "0000000001", "1e5"}) { uint64_t x; ref::parse_word(s, x); tiny.push_back(x); }
    d.add({"write", [=](Gen& g) {
        auto put = [&](uint64_t a, uint64_t b) { if (g.mine()) g.run(num(a) + " " + num(b)); };
        for (auto a : big) for (auto b : tiny) for (uint64_t s = 0; s < 4; s++) put(a, b | (s << 60));
        for (auto a : tiny) for (auto b : big) for (uint64_t s = 0; s < 4; s++) put(a, b | (s << 60));
        for (auto a : few) for (auto b : deep ? few : tiny) for (uint64_t y = 0; y < 16; y++) for (uint64_t s = 0; s < 4; s++) put(a | (y << 60), b | (s << 60));
    }, check_write, "every 60-bit word with one nonzero digit at each place, all bit prefixes and two-digit patterns, as value and as origin, under all 16 varieties and 4 versions", 40});
    d.add({"read", [=](Gen& g) {
        static const string abc("019AFGZ_aez~/+-$% @\x80\0", 21);
        for (int n = 0; n <= (deep ? 5 : 4); n++)
            mc::words((int)abc.size(), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += abc[i]; g.run(s); } });
        for (int a = 0; a < 256; a++) { g.add(string(1, char(a))); for (int b = 0; b < 256; b++) if (g.mine()) g.run(string{char(a), char(b)}); }
        // every byte put at, and over, every place of a template
        for (string t : {"A/Ab12+Cd34", "0/~", "lww", "1-2", "F/0123456789$zyxwvutsrq", "abc%~"})
            for (size_t i = 0; i <= t.size(); i++) for (int a = 0; a < 256; a++) {
                string s = t; s.insert(i, 1, char(a)); g.add(s);
                if (i < t.size()) { s = t; s[i] = char(a); g.add(s); }
            }
        // two places at once
        if (deep) for (string t : {"A/Ab1+Cd34", "F/0123456789$zyxwvutsrq"})
            for (size_t i = 0; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) for (char a : abc) for (char b : abc) if (g.mine()) { string s = t; s[i] = a; s[j] = b; g.run(s); }
        // word lengths around the limit of 10, with and without the other parts
        for (string var : {"", "0/", "5/", "A/", "F/", "G/", "a/", "/", "00/"})
            for (int n = 0; n <= 13; n++) for (string sep : {"", "+", "-", "$", "%", "++", "/", " "}) for (int m = 0; m <= 13; m++)
                for (string tail : {"", "+", "0", "~", " ", "/A", "\n"}) for (char dg : {'0', 'z'})
                    if (g.mine()) g.run(var + string(n, dg) + sep + string(m, dg == '0' ? '1' : '~') + tail);
        for (int n : {30, 100, 1000}) { g.add(string(n, 'a')); g.add("a+" + string(n, 'a')); g.add("A/" + string(n, '0')); }
    }, check_read, "every text of at most 4 (thorough: 5) symbols of a 21-letter alphabet, all pairs of bytes, every byte at every place of 6 templates, all word lengths 0..13 in every part", 40});
    d.add({"order", [=](Gen& g) {
        vector<uint64_t> w;
        for (unsigned long long f : {0ULL, 1ULL, 2ULL, 3ULL}) for (unsigned long long x : {0ULL, 1ULL, 2ULL, 1ULL << 31, 1ULL << 32, (1ULL << 32) + 1, 1ULL << 59, (unsigned long long)ref::M60}) w.push_back(x | (f << 60));
        auto v = w;
        for (unsigned long long f : {7ULL, 8ULL, 15ULL}) for (unsigned long long x : {0ULL, 1ULL, (unsigned long long)ref::M60}) v.push_back(x | (f << 60));
        for (auto a : v) for (auto b : w) for (auto x : v) for (auto y : w) if (g.mine()) g.run(num(a) + " " + num(b) + " " + num(x) + " " + num(y));
    }, check_order, "all pairs over 41 values x 32 origins at the borders of words, halves and flags", 40});
    return d.main(c, v);
}
