// C02/C05/C06: writing ops and reading them back - every value in every
// neighbourhood, every run of ops, every valid frame re-serialized.
#include "corpus.hpp"
#include "ronx.hpp"
using namespace std;
using mc::Gen;
using ref::A;
using ref::U;

static const ref::U P(const char* t) { ref::U u; if (!ref::parse_uuid(t, u)) abort(); return u; }
static const u_int64_t NEVER60 = u_int64_t(63) << 54;

static const vector<A>& values() {
    static vector<A> v;
    if (v.empty()) {
        for (int64_t i : {0LL, 1LL, -1LL, 10LL, -7LL, 2147483648LL, -4294967297LL, 999999999999999999LL, -999999999999999999LL, 1000000000000000000LL, (long long)INT64_MAX, (long long)INT64_MIN}) v.push_back(ref::I(i));
        for (double f : {0.0, -0.0, 1.0, -1.0, 0.1, 1e5, 1e20, 1e-7, 5e-324, 1.7976931348623157e308, -3.141592653589793, 123456789012345680.0, 12.0}) v.push_back(ref::F(f));
        for (const char* t : {"0", "1", "abc", "12", "1e5", "1E+5", "12+34", "0+A", "1+0000001", "lww", "A/b%c", "1/2$d", "123-4", "~~~~~~~~~~-~~~~~~~~~~", "~", "1ABC+user", "5e0000001", "F/1-2", "9e9+9", "1234567890"}) v.push_back(ref::Q(P(t)));
        for (const char* s : {"", "'", "\\", "\"", "\n", "\r\t", "\b", "\f", "a", "abc", "\\u0041", "\\'", "x'y", "\xd0\x96", "\xe2\x82\xac\xf0\x9f\x98\x80", "\x01\x7f", "1", ";", ".\n", " ", "@1:2", "('x')"}) v.push_back(ref::S(s));
    }
    return v;
}
// atoms of an op as the index of values(), "-" for none
static string enc(const vector<int>& w) { string s; for (int i : w) { if (!s.empty()) s += ','; s += to_string(i); } return s; }

// writes ops, ending chunks where asked (end: -1 none, else the TERM)
struct Item { ref::Op op; int end; };
static string write(const vector<Item>& items, vector<ref::Op>& want) {
    rx::Builder b;
    for (size_t i = 0; i < items.size(); i++) {
        b.AppendOp(rx::make(items[i].op));
        if (items[i].end >= 0) b.EndChunk((ron::TERM)items[i].end);
        want.push_back(items[i].op);
        want.back().term = items[i].end >= 0 ? items[i].end : i + 1 == items.size() ? 0 : 1;
        mc::transition();
    }
    string text;
    b.Release(text);
    return text;
}
// the frame read by the repository's parser and by the reference one
static string back(const string& text, const vector<ref::Op>& want) {
    rx::Exact e{text};
    rx::Read got = rx::read(rx::Cursor{e.slice()});
    mc::trace();
    mc::state(text);
    string d = got.bad;
    if (d.empty()) d = rx::diff(want, got.ops);
    if (d.empty() && !got.clean) d = "the written frame does not end cleanly: " + got.status;
    if (d.empty()) {
        ref::Parsed p = ref::parse(text);
        if (!p.ok) d = "the written text is outside the grammar";
        else d = rx::diff(want, p.ops);
        if (!d.empty()) d = "by the grammar, " + d;
    }
    if (!d.empty()) d += "\nframe: " + text;
    return d;
}
// the same ops once more, now from the parsed frame
static string again(const string& text, const vector<ref::Op>& want, bool exact) {
    string t = text;
    for (int round = 0; round < 3; round++) {
        rx::Builder b;
        ron::TextFrame f{t};
        ron::AppendFrame<ron::TextFrame>(b, f);
        string r;
        b.Release(r);
        vector<ref::Op> w = want;
        if (!w.empty() && w.back().term == 1) w.back().term = 0;
        string d = back(r, w);
        if (!d.empty()) return "rewritten (round " + to_string(round + 1) + " from " + t + "): " + d;
        if ((exact || round == 2) && r != t) return "not a fixpoint: " + t + " is rewritten as " + r;
        t = r;
    }
    return "";
}

// ---- C02
static string check_values(const string& c) {
    auto f = mc::split(c, ' ');  // prefix kind, id, atoms
    vector<Item> items;
    int pre = atoi(f[0].c_str());
    U id = P("1ABC+user"), rf = P("0");
    if (pre) { Item h; h.op.id = P("1ABB+user"); h.op.ref = P("lww"); h.op.a.push_back(values()[pre]); h.end = pre % 3 == 0 ? 2 : -1; rf = h.op.id; id = U{h.op.id.v + (pre % 2), h.op.id.o}; items.push_back(h); }
    Item it;
    it.op.id = id; it.op.ref = rf; it.end = -1;
    if (f[1] != "-") for (auto& x : mc::split(f[1], ',')) it.op.a.push_back(values()[atoi(x.c_str())]);
    items.push_back(it);
    Item last = it;
    last.op.ref = it.op.id; last.op.id.v++;
    if (f.size() > 2) items.push_back(last);
    vector<ref::Op> want;
    string text = write(items, want);
    mc::nontrivial();
    return back(text, want);
}
static string one(const A& a, int at) {
    vector<Item> items(1);
    Item& it = items[0];
    it.op.id = P("1ABC+user"); it.op.ref = P("0"); it.end = -1;
    if (at == 1) it.op.a.push_back(ref::Q(P("key")));
    if (at == 2) it.op.a.push_back(ref::S(""));
    it.op.a.push_back(a);
    if (at == 2) it.op.a.push_back(ref::I(1));
    vector<ref::Op> want;
    string text = write(items, want);
    mc::nontrivial();
    return back(text, want);
}
static string check_ints(const string& c) {
    auto f = mc::split(c, ' ');
    return one(ref::I(strtoll(f[1].c_str(), nullptr, 10)), atoi(f[0].c_str()));
}
static string check_floats(const string& c) {
    auto f = mc::split(c, ' ');
    u_int64_t top = strtoull(f[0].c_str(), nullptr, 16);
    int bits = atoi(f[1].c_str());
    for (u_int64_t m : {u_int64_t(0), u_int64_t(1), (u_int64_t(1) << bits), (u_int64_t(1) << bits) - 1, ((u_int64_t(1) << 52) - 1) ^ (u_int64_t(1) << bits), u_int64_t(0x5555555555555) >> (bits % 7), u_int64_t(0xAAAAAAAAAAAAA) ^ (u_int64_t(7) << (bits % 48))}) {
        u_int64_t x = (top << 52) | (m & ((u_int64_t(1) << 52) - 1));
        double d;
        memcpy(&d, &x, 8);
        string re = one(ref::F(d), bits % 3);
        if (!re.empty()) return re;
    }
    return "";
}
static string check_decimal(const string& c) { return one(ref::F(strtod(c.c_str(), nullptr)), 1); }
static string check_uuids(const string& c) {
    U u;
    if (!ref::parse_uuid(c, u)) return "";
    for (int at = 0; at < 3; at++) { string re = one(ref::Q(u), at); if (!re.empty()) return re; }
    return "";
}
static string check_strings(const string& c) {
    for (int at = 0; at < 3; at++) { string re = one(ref::S(c), at); if (!re.empty()) return re; }
    return "";
}

// op sequences: kinds of id, ref, value, end
static U pick_id(int k, const U& prev) {
    switch (k) {
        case 0: return U{prev.v + 1, prev.o};
        case 1: return P("1ABC+user");
        case 2: return U{prev.v + 1, P("0+other").o};
        case 3: return prev;
        case 4: return U{NEVER60 - 1, prev.o};
        case 5: return P("key");
        case 6: return U{prev.v + 2, prev.o};
        case 7: return P("0");
    }
    return prev;
}
static U pick_ref(int k, const U& prev, const U& id) {
    switch (k) {
        case 0: return prev;
        case 1: return P("0");
        case 2: return P("1ABC+user");
        case 3: return P("rga");
        case 4: return id;
        case 5: return U{prev.v, prev.o ^ 1};
    }
    return prev;
}
static const vector<vector<A>>& seq_values() {
    static vector<vector<A>> v{{}, {ref::S("a")}, {ref::Q(P("1ABD+u"))}, {ref::I(5)}, {ref::S("")}, {ref::S("ab")}, {ref::S("\xd0\x96")}, {ref::S("'")}, {ref::S("a"), ref::I(1)}, {ref::F(1.5)}, {ref::Q(P("0"))}, {ref::Q(P("12"))}};
    return v;
}
static string judge_items(const vector<Item>& items);
static string check_seq(const string& c) {
    vector<Item> items;
    U prev;
    for (auto& x : mc::split(c, ' ')) {
        auto f = mc::split(x, '.');
        Item it;
        it.op.id = pick_id(atoi(f[0].c_str()), prev);
        it.op.ref = pick_ref(atoi(f[1].c_str()), prev, it.op.id);
        it.op.a = seq_values()[atoi(f[2].c_str())];
        it.end = atoi(f[3].c_str());
        prev = it.op.id;
        items.push_back(it);
    }
    return judge_items(items);
}
// "n kind at what": a run of n ops, broken in one way at one place
static string check_run(const string& c) {
    auto w = mc::split(c, ' ');
    int n = stoi(w[0]), kind = stoi(w[1]), at = stoi(w[2]), what = stoi(w[3]);
    static const vector<A> V{ref::S("a"), ref::S("\xd0\x96"), ref::S("\xf0\x9f\x98\x80"), ref::S("'"), ref::S("\n"), ref::Q(P("1ABD+u")), ref::I(7), ref::S("ab"), ref::F(0.5)};
    vector<Item> items;
    U prev = P("1ABC+user");
    for (int i = 0; i < n; i++) {
        Item it;
        it.op.id = i ? U{prev.v + 1, prev.o} : prev;
        it.op.ref = i ? prev : P("rga");
        it.end = -1;
        // one kind of value, all in turn, or different ones of one kind
        A v = kind < 9 ? V[kind] : kind == 9 ? V[i % 5] : kind == 10 ? ref::S(string(1, char('!' + i % 90))) : kind == 11 ? ref::I(i) : kind == 12 ? V[i / 40 % 6] : ref::Q(U{P("1+A").v + i, P("1+A").o});
        it.op.a = {v};
        if (i == at) switch (what) {
            case 0: it.op.a = {ref::S("xyz")}; break;
            case 1: it.op.a = {}; break;
            case 2: it.op.id.v++; break;
            case 3: it.op.ref = P("rga"); break;
            case 4: it.end = 0; break;
            case 5: it.op.a.push_back(v); break;
            case 6: it.op.id.o = P("0+other").o; break;
            case 7: it.end = 3; break;
        }
        prev = it.op.id;
        items.push_back(it);
    }
    return judge_items(items);
}
// ops of many values, long strings: "atoms n kind" or "string length kind"
static string check_wide(const string& c) {
    auto w = mc::split(c, ' ');
    int n = stoi(w[1]), kind = stoi(w[2]);
    vector<Item> items(3);
    items[0].op.id = P("1ABC+user"); items[0].op.ref = P("0"); items[0].end = -1;
    auto& a = items[0].op.a;
    if (w[0] == "atoms") for (int i = 0; i < n; i++) a.push_back(kind < 4 ? (kind == 0 ? ref::I(i - 3) : kind == 1 ? ref::S(string(i % 7, 'x')) : kind == 2 ? ref::Q(U{P("1+A").v + i, P("1+A").o}) : ref::F(i / 8.0)) : values()[(i * 5 + kind) % values().size()]);
    else {
        static const char* unit[] = {"a", "\xd0\x96", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "'", "\n", "ab\\cd", "x'"};
        string s;
        while ((int)s.size() < n) s += unit[kind];
        if (kind == 0) s.resize(n);
        a = {ref::S(s), ref::I(1)};
    }
    items[1] = items[0];
    items[1].op.id.v++; items[1].op.ref = items[0].op.id;
    items[2] = items[1];
    items[2].op.id.v += 5; items[2].op.ref = P("lww"); items[2].end = 2;
    return judge_items(items);
}
static void scale(Gen& g, bool deep) {
    for (int n = 1; n <= (deep ? 400 : 140); n++) for (int kind = 0; kind < 14; kind++) {
        set<int> at{n + 1, 1, n / 2, n - 2, n - 1};
        for (int k : {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128}) if (k < n && (deep || n % 8 < 3)) at.insert(k);
        for (int k : at) for (int what = 0; what < (k > n ? 1 : 8); what++) if (k >= 0) g.add(to_string(n) + " " + to_string(kind) + " " + to_string(k) + " " + to_string(what));
    }
}
static void wide(Gen& g, bool deep) {
    for (int n = 0; n <= (deep ? 600 : 300); n++) for (int kind = 0; kind < 6; kind++) g.add("atoms " + to_string(n) + " " + to_string(kind));
    for (int n = 5; n <= (deep ? 1200 : 300); n++) for (int kind = 0; kind < 8; kind++) g.add("string " + to_string(n) + " " + to_string(kind));
    for (int n : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20}) for (int kind = 0; kind < 8; kind++) g.add("string " + to_string(n) + " " + to_string(kind));
}
static string judge_items(const vector<Item>& items) {
    vector<ref::Op> want;
    string text = write(items, want);
    mc::nontrivial();
    string d = back(text, want);
#ifdef C05
    // consecutive single chars or equal UUIDs within one chunk share a span
    if (d.empty()) {
        size_t runs = 0, terms = 0;
        for (size_t i = 0; i < items.size(); i++) {
            bool join = i && items[i - 1].end < 0;
            if (join) {
                const ref::Op &a = items[i - 1].op, &b = items[i].op;
                join = b.id == U{a.id.v + 1, a.id.o} && b.ref == a.id && a.a.size() == 1 && b.a.size() == 1 && a.a[0].t == b.a[0].t;
                if (join) join = b.a[0].t == ref::STR ? a.a[0].s.size() == 1 && b.a[0].s.size() == 1 : b.a[0].t == ref::UUID && a.a[0] == b.a[0] && b.a[0].u != P("0");
            }
            if (!join) runs++;
        }
        for (char x : text) terms += x == '\n';
        if (terms != runs) d = to_string(runs) + " runs are written as " + to_string(terms) + " spans: " + text;
    }
#endif
#ifndef C02
    if (d.empty()) d = again(text, want, true);
#endif
    return d;
}
// all op sequences of n items over the given numbers of kinds
static void seqs(Gen& g, int n, const vector<int>& ids, const vector<int>& refs, const vector<int>& vals, const vector<int>& ends) {
    vector<string> it;
    for (int i : ids) for (int r : refs) for (int v : vals) for (int e : ends) it.push_back(to_string(i) + "." + to_string(r) + "." + to_string(v) + "." + to_string(e));
    mc::words((int)it.size(), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) { if (!s.empty()) s += ' '; s += it[i]; } g.run(s); } });
}

// ---- C05: texts with spans
static string check_spans(const string& t) {
    ref::Parsed want = ref::parse(t);
    if (!want.ok) return "the case is outside the grammar";
    rx::Exact e{t};
    rx::Read got = rx::read(rx::Cursor{e.slice()});
    mc::trace(); mc::nontrivial(); mc::state(t);
    string d = got.bad;
    if (d.empty()) d = rx::diff(want.ops, got.ops);
    if (d.empty() && !got.clean) d = "not a clean end: " + got.status;
    if (!d.empty()) return d + "\nframe: " + t;
    d = again(t, want.ops, false);
    if (!d.empty()) return d;
    // op by op, through the in-memory form
    rx::Builder b;
    rx::Cursor c{e.slice()};
    while (c.Next()) {
        ron::Op op = ron::Op::Amend(c.id(), c.ref(), c);
        b.AppendOp(op);
        if (c.term() != ron::REDUCED) b.EndChunk(c.term());
    }
    string r;
    b.Release(r);
    vector<ref::Op> w = want.ops;
    if (!w.empty() && w.back().term == 1) w.back().term = 0;
    return back(r, w);
}

// ---- C06
static string check_rewrite(const string& t) {
    ref::Parsed want = ref::parse(t, 64);
    if (!want.ok || want.capped) return "";
    if (!want.ops.empty()) mc::nontrivial();
    rx::Read got = rx::read(t);
    if (!got.clean) return "a valid frame does not read: " + got.status;
    string d = again(t, want.ops, false);
    if (!d.empty()) return d;
    // Reserialize() keeps the ops, not the chunks
    if (!want.ops.empty()) {
        vector<rx::Cursor> cs;
        cs.emplace_back(ron::Slice{t});
        cs.back().Next();
        vector<ron::TextFrame> out;
        ron::Status ok = ron::Reserialize<ron::TextFrame>(out, cs);
        if (!ok) return "Reserialize fails: " + ok.str();
        if (out.size() != 1) return "Reserialize makes " + to_string(out.size()) + " frames";
        rx::Read re = rx::read(out[0].data());
        d = rx::diff(want.ops, re.ops, false);
        if (!d.empty() || !re.clean) return "Reserialize of " + t + " yields " + out[0].data() + ": " + d;
        // comparison: a frame is equal to its other spelling
        ron::TextFrame f{t};
        if (!(ok = ron::CompareFrames(f, out[0]))) return "a frame and its rewriting compare as different: " + ok.str() + "\n" + t + "\n" + out[0].data();
    }
    return "";
}
static string check_concat(const string& c) {
    rx::Builder b;
    vector<ref::Op> want;
    for (auto& t : mc::split(c, '\x1e')) {
        ref::Parsed p = ref::parse(t);
        if (!p.ok) return "";
        ron::TextFrame f{t};
        ron::AppendFrame<ron::TextFrame>(b, f);
        want.insert(want.end(), p.ops.begin(), p.ops.end());
        mc::transition();
    }
    if (!want.empty() && want.back().term == 1) want.back().term = 0;
    mc::nontrivial();
    string r;
    b.Release(r);
    string d = back(r, want);
    if (!d.empty()) return d;
    // a reused builder writes a frame of its own
    ref::Parsed p = ref::parse(mc::split(c, '\x1e')[0]);
    ron::TextFrame f{mc::split(c, '\x1e')[0]};
    ron::AppendFrame<ron::TextFrame>(b, f);
    b.Release(r);
    if (!p.ops.empty() && p.ops.back().term == 1) p.ops.back().term = 0;
    d = back(r, p.ops);
    return d.empty() ? "" : "by a reused builder: " + d;
}
static string check_compare(const string& c) {
    auto f = mc::split(c, '\x1e');
    ref::Parsed a = ref::parse(f[0]), b = ref::parse(f[1]);
    if (!a.ok || !b.ok) return "the case is outside the grammar";
    if (a.ops.empty() != b.ops.empty()) return "";
    auto strip = [](vector<ref::Op> v) {
        vector<ref::Op> r;
        for (auto& o : v) if (o.id != P("~")) { r.push_back(o); r.back().term = 0; for (auto& x : r.back().a) if (x.t == ref::FLT && x.f == 0) x.f = 0; }
        return r;
    };
    bool want = strip(a.ops) == strip(b.ops);
    if (want != (f[0] == f[1])) mc::nontrivial();
    mc::trace(); mc::transition(); mc::state(c);
    ron::TextFrame x{f[0]}, y{f[1]};
    ron::Status ok = ron::CompareFrames(x, y);
    if (bool(ok) != want) return string(want ? "equal frames compare as different (" + ok.str() + "): " : "different frames compare as equal: ") + f[0] + " and " + f[1];
    return "";
}

int main(int argc, char** argv) {
    bool deep = mc::thorough();
    int n = (int)values().size();
#if defined(C02)
    mc::Driver d("C02");
    d.add({"values", [=](Gen& g) {
        for (int len = 0; len <= 3; len++)
            mc::words(n, len, [&](const vector<int>& w) {
                string s = len ? enc(w) : "-";
                if (g.mine()) g.run("0 " + s);
                if (len < 3) { if (g.mine()) g.run("0 " + s + " +"); if (len < 2 || deep) for (int p = 1; p < n; p++) { if (g.mine()) g.run(to_string(p) + " " + s); if (g.mine()) g.run(to_string(p) + " " + s + " +"); } }
            });
    }, check_values, "every tuple of at most 3 of 67 values of all types, incl. every look-alike of another type, alone, after and before other ops"});
    d.add({"ints", [=](Gen& g) {
        set<int64_t> v;
        for (int k = 0; k < 64; k++) for (int j = -2; j <= 2; j++) { v.insert(int64_t((uint64_t(1) << k) + j)); v.insert(int64_t(0 - (uint64_t(1) << k) + j)); }
        uint64_t p = 1;
        for (int k = 0; k < 19; k++, p *= 10) for (int m = 1; m <= 9; m++) for (int j = -2; j <= 2; j++) { v.insert(int64_t(p * m + j)); v.insert(int64_t(0 - p * m + j)); }
        for (int i = -5000; i <= 5000; i++) v.insert(i);
        for (auto x : v) for (int at = 0; at < 3; at++) g.add(to_string(at) + " " + to_string(x));
    }, check_ints, "integers next to every power of two, every m*10^k, and -5000..5000, in first, middle and last position"});
    d.add({"floats", [=](Gen& g) {
        char b[64];
        for (int e = 0; e < 2047; e++) for (int s = 0; s < 2; s++) for (int bit = 0; bit < 52; bit += deep ? 1 : 5) { snprintf(b, 64, "%x %d", e | (s << 11), bit); g.add(b); }
    }, check_floats, "every sign and exponent x 7 mantissa patterns per bit position"});
    d.add({"decimals", [=](Gen& g) {
        for (int e = -330; e <= 308; e++) for (const char* m : {"1", "2", "5", "9", "1.5", "1.1", "9.9", "1.7", "9007199254740993", "1.0000000000000002", "9.999999999999999", "123456.789"}) for (const char* s : {"", "-"}) { string t = string(s) + m + "e" + to_string(e); if (isfinite(strtod(t.c_str(), nullptr))) g.add(t); }
        for (int i = 0; i <= 3000; i++) for (const char* q : {"", ".5", ".25", ".1"}) g.add(to_string(i) + q);
    }, check_decimal, "m*10^k for every k and 12 mantissas, integral and near-integral floats"});
    d.add({"uuids", [=](Gen& g) {
        static const string A = "01eE+-%$/A~";
        int len = deep ? 7 : 6;
        for (int k = 1; k <= len; k++) mc::words((int)A.size() - (k == 7), k, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += A[i]; g.run(s); } });
        for (int k = 1; k <= 10; k++) for (char a : string("19")) for (char sep : string("+-%$")) for (int m = 0; m <= 10; m++) for (string mid : {"", "e", "E", "e1", "E9", "0", "~"}) for (string last : {"", "e5", "0", "a"}) { string w1 = (string(k, a) + mid).substr(0, 10), w2 = (string(m, '7') + last).substr(0, 10); g.add(w2.empty() ? w1 : w1 + sep + w2); }
    }, check_uuids, "every UUID text of at most 6 (thorough 7) characters of an alphabet that makes number look-alikes, and longer look-alikes, as values in three positions"});
    d.add({"strings", [=](Gen& g) {
        static const vector<string> A{"a", "'", "\\", "\"", "\n", "\t", "/", "u", "0", ".", "\x01", "\xd0\x96", "\xf0\x9f\x98\x80", ";", "\b"};
        for (int k = 0; k <= (deep ? 5 : 4); k++) mc::words((int)A.size(), k, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += A[i]; g.run(s); } });
    }, check_strings, "every string of at most 4 (thorough 5) of 15 characters that need escaping or several bytes"});
    d.add({"specs", [=](Gen& g) {
        vector<int> I{0, 1, 2, 3, 4, 5, 7}, R{0, 1, 2, 3}, V{0, 1}, E{-1, 0, 2};
        seqs(g, 1, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 8}, {-1, 0, 2, 3});
        seqs(g, 2, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 8}, {-1, 0, 2, 3});
        seqs(g, 3, I, R, V, E);
        if (deep) seqs(g, 4, {0, 1, 4, 5}, {0, 1, 2}, {0, 1}, {-1, 0});
    }, check_seq, "every sequence of 3 (thorough 4) ops over kinds of id (next, jump, other yarn, same, near never, name, nil) x ref x value x chunk end"});
    d.add({"wide", [=](Gen& g) { wide(g, deep); }, check_wide, "ops of up to 300 (thorough 600) values, strings of every length up to 300 (1200) and next to powers of two up to 1 MB"});
    d.add({"scale", [=](Gen& g) { scale(g, deep); }, check_run, "runs of every length up to 140 (thorough 400) of 14 kinds of values, broken in 8 ways at the ends, in the middle and next to powers of two"});
#elif defined(C05)
    mc::Driver d("C05");
    d.add({"scale", [=](Gen& g) { scale(g, deep); }, check_run, "runs of every length up to 140 (thorough 400) of 14 kinds of values, broken in 8 ways at the ends, in the middle and next to powers of two"});
    d.add({"runs", [=](Gen& g) {
        seqs(g, 3, {0, 6, 4}, {0, 2}, {1, 2, 3, 4, 5, 6, 7, 10}, {-1, 0});
        seqs(g, 4, {0, 6}, {0}, {1, 2, 6, 7}, {-1, 0});
        seqs(g, 5, {0}, {0}, {1, 2, 6, 7, 0}, {-1, 0});
        seqs(g, deep ? 7 : 6, {0}, {0}, {1, 6, 7}, {-1, 0});
        if (deep) { seqs(g, 4, {0, 6}, {0, 1}, {1, 2, 3, 4, 6, 7, 10, 11}, {-1, 0}); seqs(g, 4, {0, 2}, {0}, {0, 1, 5, 6, 7, 8, 9}, {-1, 0, 2}); }
    }, check_seq, "every run of up to 6 (thorough 7) ops over id/ref continuation or jump, values of every kind, and chunk ends anywhere"});
    d.add({"texts", [=](Gen& g) {
        vector<string> C{"a", "\\n", "\\u0041", "\\u20ac", "\xd0\x96", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\'", "\\\\", "0"};
        vector<string> H{"@1ABC+user :0", "@1ABC+user :1AB+u", "", "@1ABC+user :0 5", "@1ABC+user :0 'ab'", "'x';", "@1+A :rga! ", "@1ABC+user 1 2", "@1ABC+user :0 'x'"};
        vector<string> T{";", ",", "!", "?", ";'t';", ",'t';", ";@1+B:1+A 'z';", ",('yz');.\n", ", 1(2);"};
        for (int k = 1; k <= (deep ? 5 : 4); k++) mc::words((int)C.size(), k, [&](const vector<int>& w) {
            string s;
            for (int i : w) s += C[i];
            for (size_t h = 0; h < H.size(); h++) for (size_t t = 0; t < T.size(); t++) { if (k > 3 && !(h < 2 && t < 6)) continue; if (g.mine()) g.run(H[h] + "('" + s + "')" + T[t]); }
        });
        for (auto& h : H) for (string v : {"", " 1", " x", " 'a'", " 'abc'", " ''", " 1.5", " >12+34", "'\\n'", " 'a' 1", " 1 'a'", "'\xd0\x96'"}) for (int k = 1; k <= 40; k++) for (auto& t : T) g.add((v == " x" && h.empty() ? h + " " : h) + v + "(" + to_string(k) + ")" + t);
    }, check_spans, "every spread of at most 4 (thorough 5) characters of every encoding class, and counted spans of 1..40 of every value kind, after and before other ops"});
#else
    mc::Driver d("C06");
    d.add({"wide", [=](Gen& g) { wide(g, deep); }, check_wide, "frames with ops of up to 300 (thorough 600) values, strings of every length up to 300 (1200) and next to powers of two up to 1 MB, rewritten"});
    d.add({"scale", [=](Gen& g) {
        // frames of n ops that differ in one, or are cut
        for (int n = 1; n <= (deep ? 300 : 120); n++) for (int k : {0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, n / 2, n - 2, n - 1}) {
            if (k < 0 || k >= n) continue;
            for (int v = 0; v < 5; v++) {
                string s[2];
                for (int f = 0; f < 2; f++) for (int i = 0; i < n; i++) {
                    string val = v == 0 ? "'" + string(1, char('a' + i % 26)) + "'" : v == 1 ? to_string(i) : v == 2 ? "'" + string(n, 'x') + "'" : v == 3 ? "1+A" : "";
                    if (f && i == k) val = v == 0 ? "'?'" : v == 1 ? "-1" : v == 2 ? "'" + string(i, 'x') + "y" + string(n - i - 1, 'x') + "'" : v == 3 ? "1+B" : "0";
                    if (v == 4 && f && i == k) val = "";
                    char b[32];
                    snprintf(b, 32, "@1ABC%05d+user", v == 4 && f && i == k ? i + 20000 : i);
                    s[f] += string(b) + " :lww " + val + (i % 3 ? ";\n" : ",\n");
                }
                g.add(s[0] + "\x1e" + s[1]);
                if (k == n - 1) { g.add(s[0] + "\x1e" + s[0].substr(0, s[0].rfind('@'))); g.add(s[0].substr(0, s[0].rfind('@')) + "\x1e" + s[0]); g.add(s[0] + "\x1e" + s[0]); }
            }
        }
    }, check_compare, "pairs of frames of every length up to 120 (thorough 300) that differ in one op, or in one character of a long string, or by the last op"});
    d.add({"tokens", [=](Gen& g) {
        static const vector<string> T{"@a", "@1+B", ":c", ":0", " ", "1", "-5", "+05", "abc", "1e5", "1.5", "a+b", "=", "^", ">", "'x'", "''", "'\\u0416\xd0\xb6'", "'\\n'", "(3)", "('ab')", "('\\u0041\\'')", ";", ",", "!", "?", ".\n", ">1+1"};
        for (int k = 0; k <= (deep ? 5 : 4); k++) mc::words((int)T.size(), k, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) s += T[i]; g.run(s); } });
        for (string h : {"@1+A :0 'x' 7,\n", "@1+A :0 'x'"}) for (int k = 2; k <= (deep ? 4 : 3); k++) mc::words((int)T.size(), k, [&](const vector<int>& w) { if (g.mine()) { string s = h; for (int i : w) s += T[i]; g.run(s + ";"); } });
        for (auto& a : corpus()) { g.add(a); for (auto& b : corpus()) g.add(a + b); }
    }, check_rewrite, "every valid frame among the sequences of at most 4 (thorough 5) of 28 tokens, bare and after another op; 14 frames with every construct and their pairs"});
    d.add({"ops", [=](Gen& g) {
        seqs(g, 2, {0, 1, 2, 4, 5, 6, 7}, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {-1, 0, 2});
        if (deep) seqs(g, 3, {0, 1, 5}, {0, 1, 2}, {0, 1, 2, 3, 4, 5, 6, 7}, {-1, 0, 3});
        else seqs(g, 3, {0, 1}, {0, 1}, {0, 1, 2, 3, 5, 6, 7}, {-1, 0});
    }, check_seq, "frames written from ops: rewriting is byte-identical"});
    static const vector<string> S{"", "@1+A :0 'a';", "@1+A :0 'a',", "@1+A :lww!", "@10001+A :lww! 'a' 1, 2;", "@1+A :0 ('ab');", "@1000000001+A :1+A 'b';", "@1000000001+A :1+A 'b',", ":0 ;", "1, 2;", "'x' ;", "@~ 'comment';", "@2+B :1+A ('cd')?", "@1+A :0 'a'(3);", "\n.\n", "@1+A :0 ('\\u0041\xd0\x96'),"};
    d.add({"concat", [=](Gen& g) {
        for (auto& a : S) for (auto& b : S) { g.add(a + "\x1e" + b); for (auto& x : S) g.add(a + "\x1e" + b + "\x1e" + x); }
        for (auto& a : corpus()) for (auto& b : corpus()) { g.add(a + "\x1e" + b); if (deep) for (auto& x : corpus()) g.add(a + "\x1e" + b + "\x1e" + x); }
    }, check_concat, "all pairs and triples of 16 small frames, pairs of 14 frames with every construct; builder reuse"});
    d.add({"compare", [=](Gen& g) {
        vector<string> P;
        for (string id : {"@1+A :0", "@1+B :0", "@2+A :0", "@1+A :1", "@1+A"})
            for (string v : {"", " 1", " 01", " +1", " 2", " 1.0", " 1e0", " 0.0", " -0.0", " 'a'", " '\\u0061'", " 'b'", " ''", " 'ab'", " 'a' 1", " 1 'a'", " x", " >x", " >1", " x y", " x 'a'", " 'a' 'b'", "('ab')", " 'a';'b'", " 'a','b'", "(2)", " ;", " 'a'(2)", "('aa')"})
                P.push_back(id + v + ";");
        size_t base = P.size();
        for (size_t i = 0; i < base; i += 7) { P.push_back("@~ 'c';" + P[i]); P.push_back(P[i] + "@~ 'c';"); P.push_back(P[i] + "@~ 'c'; 'd';"); P.push_back(P[i] + "@5+C :0 7;"); P.push_back("@5+C :0 7;" + P[i]); P.push_back("@5+C :0 7;@~!" + P[i]); P.push_back("@5+C :0 7,@~!@~," + P[i] + "\n.\n"); }
        for (string x : {"", ".\n", "@~;", "@~ 1;@~ 2;", "\n"}) P.push_back(x);
        for (auto& a : P) for (auto& b : P) g.add(a + "\x1e" + b);
    }, check_compare, "all pairs of 150 one-op frames differing in each component or in spelling only, and 150 longer ones with comments"});
#endif
    return d.main(argc, argv);
}
