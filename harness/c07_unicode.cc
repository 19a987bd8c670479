// C07: every Unicode scalar value through every conversion and position.
#include "ronx.hpp"
using namespace std;
using mc::Gen;

static u16string utf16(uint32_t c) {
    u16string r;
    if (c < 0x10000) r += char16_t(c);
    else { c -= 0x10000; r += char16_t(0xd800 | (c >> 10)); r += char16_t(0xdc00 | (c & 0x3ff)); }
    return r;
}
static u16string utf16(const vector<uint32_t>& v) { u16string r; for (auto c : v) r += utf16(c); return r; }

// reads the value of the only op in every way
static string read_value(const string& frame, const vector<uint32_t>& want, unsigned idx = 2) {
    rx::Exact e{frame};
    rx::Cursor c{e.slice()};
    mc::trace();
    if (!c.Next()) return "frame unreadable: " + mc::hex(frame);
    if (c.op().size() <= idx || c.op()[idx].type() != ron::STRING) return "not a string: " + mc::hex(frame);
    string s, why;
    if (ron::ReadString(s, c, ron::fsize_t(idx)) != ron::OK || s != ref::utf8(want)) return "read as " + mc::hex(s) + " from " + mc::hex(frame);
    ron::String16 w;
    if (ron::ReadString16(w, c, c.atom(idx)) != ron::OK || w != utf16(want)) return "read as UTF-16 wrongly from " + mc::hex(frame);
    if (ron::GetString(c, idx) != s) return "GetString differs";
    // code point by code point
    ron::Atom a = c.atom(idx);
    size_t n = 0;
    if (a.value.cp) { if (n >= want.size() || a.value.cp != want[n]) return "first code point differs"; n++; }
    while (c.NextCodepoint(a) == ron::OK) { if (n >= want.size() || a.value.cp != want[n]) return "code point " + to_string(n) + " differs in " + mc::hex(frame); n++; mc::transition(); }
    if (n != want.size()) return "the string has " + to_string(n) + " code points: " + mc::hex(frame);
    // and in the op's own memory
    ron::Op op = ron::Op::Amend(c.id(), c.ref(), c);
    string t;
    if (ron::ReadString(t, op, op.atom(idx)) != ron::OK || t != s) return "amended op reads " + mc::hex(t) + " for " + mc::hex(frame);
    ron::String16 w2;
    if (ron::ReadString16(w2, op, op.atom(idx)) != ron::OK || w2 != w) return "amended op reads UTF-16 wrongly for " + mc::hex(frame);
    if (!(c.Next() == ron::Status::ENDOFFRAME)) return "no clean end: " + mc::hex(frame);
    return "";
}
// a string in memory, written by the builder
static string write_value(const vector<uint32_t>& v) {
    string s = ref::utf8(v);
    ron::Codepoints cps;
    if (ron::ParseUtf8(cps, s) != ron::OK || vector<uint32_t>(cps.begin(), cps.end()) != v) return "ParseUtf8 of " + mc::hex(s);
    rx::Builder b;
    b.AppendOp(ron::Op{ron::Uuid{"1+A"}, ron::Uuid{"0"}, s});
    string t;
    b.Release(t);
    string r = read_value(t, v);
    return r.empty() ? "" : "written: " + r;
}
static string esc(uint32_t c, bool upper) { char b[16]; snprintf(b, 16, upper ? "\\u%04X" : "\\u%04x", c); return b; }
static vector<string> spellings(uint32_t c) {
    vector<string> r;
    if (c == '\n') r.push_back("\\n"); else if (c == '\r') r.push_back("\\r"); else if (c == '\t') { r.push_back("\\t"); r.push_back("\t"); }
    else if (c == '\b') { r.push_back("\\b"); r.push_back("\b"); } else if (c == '\\' || c == '\'') r.push_back(string("\\") + char(c));
    else if (c == '/' || c == '"') { r.push_back(string("\\") + char(c)); r.push_back(string(1, char(c))); }
    else r.push_back(ref::utf8({c}));
    if (c < 0x10000) { r.push_back(esc(c, false)); r.push_back(esc(c, true)); }
    return r;
}
static string one(uint32_t c) {
    mc::nontrivial();
    mc::state(to_string(c));
    mc::transition(20);
    string u8;
    ron::utf8append(u8, c);
    if (u8 != ref::utf8({c})) return "utf8append yields " + mc::hex(u8);
    string::const_iterator i = u8.begin();
    if (ron::utf8read(i, u8.end()) != c || i != u8.end()) return "utf8read of " + mc::hex(u8);
    u16string u16;
    ron::utf16append(u16, c);
    if (u16 != utf16(c)) return "utf16append yields the wrong code units";
    u16string::const_iterator j = u16.begin();
    if (ron::utf16read(j, u16.end()) != c || j != u16.end()) return "utf16read yields another code point";
    string e;
    ron::utf8esc_append(e, c);
    string r = read_value("@1+A :0 '" + e + "';", {c});
    if (!r.empty()) return "escaped: " + r;
    for (auto v : {vector<uint32_t>{c}, {c, 'a'}, {'a', c}, {'a', c, 'b'}, {c, c}, {0x416, c, 0x1f600}}) { r = write_value(v); if (!r.empty()) return r; }
    for (auto& s : spellings(c)) {
        r = read_value("@1+A :0 '" + s + "';", {c});
        if (r.empty()) r = read_value("@1+A :0 '" + s + "z';", {c, 'z'});
        if (r.empty()) r = read_value("@1+A :0 'z" + s + "',", {'z', c});
        if (r.empty()) r = read_value("@1+A :0 1 '\xd0\x96" + s + s + "\\u20ac' 'q'!", {0x416, c, c, 0x20ac}, 3);
        if (!r.empty()) return "spelled: " + r;
        // as a spread
        string f = "@1+A :0 ('" + s + "x" + s + "');";
        rx::Read got = rx::read(f);
        ref::Parsed want = ref::parse(f);
        if (!want.ok) return "reference rejects " + mc::hex(f);
        r = rx::diff(want.ops, got.ops);
        if (!r.empty() || !got.clean) return "in a spread: " + r;
    }
    return "";
}
static string check_block(const string& t) {
    uint32_t b = strtoul(t.c_str(), nullptr, 16);
    for (uint32_t c = b; c < b + 64; c++) {
        if (c == 0 || (c >= 0xd800 && c < 0xe000) || c > 0x10ffff) continue;
        string r = one(c);
        if (!r.empty()) { char m[16]; snprintf(m, 16, "U+%04X ", c); return m + r; }
    }
    return "";
}
static string check_string(const string& t) {
    vector<uint32_t> v = ref::cps(t);
    mc::nontrivial(); mc::state(t); mc::transition();
    string r = write_value(v);
    if (!r.empty()) return r;
    u16string w;
    for (auto c : v) ron::utf16append(w, c);
    if (w != utf16(v)) return "UTF-16 of a string differs";
    u16string::const_iterator j = w.begin();
    for (auto c : v) if (ron::utf16read(j, w.end()) != c) return "UTF-16 string reads differently";
    string::const_iterator i = t.begin();
    for (auto c : v) if (ron::utf8read(i, t.end()) != c) return "UTF-8 string reads differently";
    return "";
}
static string check_bytes(const string& t) {
    // strict UTF-8 or nothing; 0 is left out
    if (t.find('\0') != string::npos) return "";
    size_t p = 0;
    vector<uint32_t> want;
    bool ok = true;
    while (ok && p < t.size()) { uint32_t c; size_t n = ref::utf8_read(t, p, c); if (!n) ok = false; else { want.push_back(c); p += n; } }
    if (!ok || want.size() != t.size()) mc::nontrivial();
    mc::state(t); mc::transition();
    ron::Codepoints got;
    bool is = ron::ParseUtf8(got, t) == ron::OK;
    if (is != ok) return string("ParseUtf8 ") + (is ? "accepts " : "rejects ") + mc::hex(t);
    if (ok && vector<uint32_t>(got.begin(), got.end()) != want) return "ParseUtf8 reads " + mc::hex(t) + " as something else";
    // in a frame
    if (t.find_first_of("'\\\n\r") != string::npos) return "";
    rx::Exact e{"@1+A :0 '" + t + "';"};
    rx::Cursor c{e.slice()};
    bool fr = bool(c.Next());
    if (fr != ok) return string("a frame ") + (fr ? "accepts " : "rejects ") + mc::hex(t);
    return ok ? read_value("@1+A :0 '" + t + "';", want) : "";
}

int main(int argc, char** argv) {
    mc::Driver d("C07");
    bool deep = mc::thorough();
    d.add({"scalars", [](Gen& g) { char b[16]; for (uint32_t c = 0; c <= 0x10ffff; c += 64) { snprintf(b, 16, "%x", c); g.add(b); } }, check_block,
        "all 1112063 scalar values but 0: UTF-8, UTF-16, 6 written and 4 x 1..4 spelled positions, spreads (a case is a block of 64)"});
    d.add({"strings", [=](Gen& g) {
        vector<uint32_t> C{1, 'a', '\'', '\\', '"', '\n', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0x103ff, 0x10400, 'u', '/'};
        for (int n = 0; n <= (deep ? 5 : 4); n++) mc::words((int)C.size(), n, [&](const vector<int>& w) { if (g.mine()) { string s; for (int i : w) ref::utf8(s, C[i]); g.run(s); } });
    }, check_string, "every string of at most 4 (thorough 5) of 20 boundary code points, written and read back"});
    d.add({"long", [=](Gen& g) {
        vector<uint32_t> C{1, '\'', '\\', '\n', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff};
        for (int n = 5; n <= (deep ? 300 : 140); n++) for (auto c : C) for (int at = 0; at < n; at += deep || n < 36 ? 1 : 9) for (uint32_t rest : {uint32_t('x'), uint32_t(0x416), uint32_t(0x1f600)}) {
            if (!g.mine()) continue;
            string s;
            for (int i = 0; i < n; i++) ref::utf8(s, i == at ? c : rest);
            g.run(s);
        }
    }, check_string, "strings of 5 to 140 (thorough 300) code points, one of 13 others anywhere among those of one, two or four bytes"});
    d.add({"bytes", [=](Gen& g) {
        string B = "a\x01\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf7\xf8\xfc\xfe\xff";
        for (int n = 0; n <= (deep ? 5 : 4); n++) mc::words((int)B.size(), n, [&](const vector<int>& w) { if (n == 5 && B[w[0]] != 'a' && B[w[4]] != 'a') return; if (g.mine()) { string s; for (int i : w) s += B[i]; g.run(s); } });
        for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { string s{char(a), char(b)}; g.add(s); g.add(s + "\x80"); g.add(s + "\xbf\x80"); if (deep) for (int c = 0; c < 256; c++) if (g.mine()) g.run(s + char(c)); }
    }, check_bytes, "every sequence of at most 4 of 29 boundary bytes, every pair of bytes, alone and continued: strict UTF-8 or rejection, in memory and in a frame"});
    return d.main(argc, argv);
}
