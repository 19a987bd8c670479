// Independent reference model of RON 2.1 open text: UUIDs, atoms, ops and the
// grammar, written from the grammar file and the documentation, sharing no
// code with the repository.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
using std::string;
using std::vector;
using u64 = uint64_t;

static const string B64 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
static const u64 M60 = (u64(1) << 60) - 1;

struct U {
    u64 v{0}, o{0};
    bool operator==(const U& b) const { return v == b.v && o == b.o; }
    bool operator!=(const U& b) const { return !(*this == b); }
    bool operator<(const U& b) const { return v != b.v ? v < b.v : o < b.o; }
};
static const U FATAL{M60, M60};

inline string word_text(u64 w) {
    string s;
    for (int i = 0; i < 10; i++) s += B64[(w >> (54 - 6 * i)) & 63];
    size_t n = s.size();
    while (n > 1 && s[n - 1] == '0') n--;
    return s.substr(0, n);
}
inline string text(U u) {
    string s;
    int variety = int(u.v >> 60);
    if (variety) { s += B64[variety]; s += '/'; }
    s += word_text(u.v & M60);
    int version = int((u.o >> 60) & 3);
    u64 org = u.o & M60;
    if (version || org) { s += "$%+-"[version]; s += word_text(org); }
    return s;
}
inline bool is_b64(char c) { return B64.find(c) != string::npos && c != 0; }
inline bool parse_word(const string& s, u64& w) {
    if (s.empty() || s.size() > 10) return false;
    w = 0;
    for (char c : s) w = (w << 6) | B64.find(c);
    for (size_t i = s.size(); i < 10; i++) w <<= 6;
    return true;
}
// RON UUID grammar: ( [0-9A-F] "/" )? WORD ( [$%+-] WORD )?
inline bool parse_uuid(const string& s, U& u) {
    size_t p = 0;
    u64 variety = 0, version = 0, v = 0, o = 0;
    if (s.size() > 1 && s[1] == '/') {
        size_t k = string("0123456789ABCDEF").find(s[0]);
        if (k == string::npos || s[0] == 0) return false;
        variety = k;
        p = 2;
    }
    size_t b = p;
    while (p < s.size() && is_b64(s[p])) p++;
    if (!parse_word(s.substr(b, p - b), v)) return false;
    if (p < s.size()) {
        size_t k = string("$%+-").find(s[p]);
        if (k == string::npos || s[p] == 0) return false;
        version = k;
        p++;
        b = p;
        while (p < s.size() && is_b64(s[p])) p++;
        if (!parse_word(s.substr(b, p - b), o)) return false;
    }
    if (p != s.size()) return false;
    u.v = v | (variety << 60);
    u.o = o | (version << 60);
    return true;
}

enum Type { UUID = 0, INT = 1, STR = 2, FLT = 3 };
struct A {
    Type t{INT};
    int64_t i{0};
    double f{0};
    U u;
    vector<uint32_t> s;
    bool operator==(const A& b) const {
        if (t != b.t) return false;
        switch (t) {
            case UUID: return u == b.u;
            case INT: return i == b.i;
            case STR: return s == b.s;
            case FLT: return memcmp(&f, &b.f, 8) == 0;
        }
        return false;
    }
    bool operator!=(const A& b) const { return !(*this == b); }
};
inline A I(int64_t i) { A a; a.t = INT; a.i = i; return a; }
inline A F(double f) { A a; a.t = FLT; a.f = f; return a; }
inline A Q(U u) { A a; a.t = UUID; a.u = u; return a; }
inline void utf8(string& to, uint32_t cp) {
    if (cp < 0x80) to += char(cp);
    else if (cp < 0x800) { to += char(0xc0 + (cp >> 6)); to += char(0x80 + (cp & 63)); }
    else if (cp < 0x10000) { to += char(0xe0 + (cp >> 12)); to += char(0x80 + ((cp >> 6) & 63)); to += char(0x80 + (cp & 63)); }
    else { to += char(0xf0 + (cp >> 18)); to += char(0x80 + ((cp >> 12) & 63)); to += char(0x80 + ((cp >> 6) & 63)); to += char(0x80 + (cp & 63)); }
}
inline string utf8(const vector<uint32_t>& s) { string r; for (auto c : s) utf8(r, c); return r; }
// strict UTF-8 decoding of one scalar value; 0 length on error
inline size_t utf8_read(const string& s, size_t p, uint32_t& cp) {
    auto at = [&](size_t i) -> int { return i < s.size() ? (unsigned char)s[i] : -1; };
    auto cont = [&](size_t i) { int c = at(i); return c >= 0x80 && c <= 0xbf; };
    int c = at(p);
    if (c < 0) return 0;
    if (c < 0x80) { cp = c; return 1; }
    if (c >= 0xc2 && c <= 0xdf) { if (!cont(p + 1)) return 0; cp = ((c & 31) << 6) | (at(p + 1) & 63); return 2; }
    if (c >= 0xe0 && c <= 0xef) {
        if (!cont(p + 1) || !cont(p + 2)) return 0;
        cp = ((c & 15) << 12) | ((at(p + 1) & 63) << 6) | (at(p + 2) & 63);
        if (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000)) return 0;
        return 3;
    }
    if (c >= 0xf0 && c <= 0xf4) {
        if (!cont(p + 1) || !cont(p + 2) || !cont(p + 3)) return 0;
        cp = ((c & 7) << 18) | ((at(p + 1) & 63) << 12) | ((at(p + 2) & 63) << 6) | (at(p + 3) & 63);
        if (cp < 0x10000 || cp > 0x10ffff) return 0;
        return 4;
    }
    return 0;
}
inline vector<uint32_t> cps(const string& s) {
    vector<uint32_t> r;
    size_t p = 0;
    while (p < s.size()) { uint32_t c; size_t n = utf8_read(s, p, c); if (!n) break; r.push_back(c); p += n; }
    return r;
}
inline A S(const string& s) { A a; a.t = STR; a.s = cps(s); return a; }

// terms: ";" raw 0, "," reduced 1, "!" header 2, "?" query 3
struct Op {
    U id, ref;
    vector<A> a;
    int term{1};
    bool operator==(const Op& b) const { return id == b.id && ref == b.ref && a == b.a && term == b.term; }
};
inline string show(const A& a) {
    char b[64];
    switch (a.t) {
        case UUID: return ">" + text(a.u);
        case INT: snprintf(b, 64, "=%lld", (long long)a.i); return b;
        case FLT: snprintf(b, 64, "^%a", a.f); return b;
        case STR: return "'" + utf8(a.s) + "'";
    }
    return "?";
}
inline string show(const Op& o, bool term = true) {
    string s = "@" + text(o.id) + " :" + text(o.ref);
    for (auto& a : o.a) s += " " + show(a);
    if (term) s += ";,!?"[o.term & 3];
    return s;
}
inline string show(const vector<Op>& v, bool term = true) {
    string s;
    for (auto& o : v) s += show(o, term) + "\n";
    return s;
}

struct Parsed {
    vector<Op> ops;
    bool ok{false};      // the whole input is a valid frame
    bool capped{false};  // more ops than the cap
};

class Parser {
    const string& t;
    size_t p{0};
    Parsed out;
    size_t cap;
    int at() const { return p < t.size() ? (unsigned char)t[p] : -1; }
    static bool ws(int c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
    size_t skip() { size_t n = 0; while (ws(at())) { p++; n++; } return n; }
    static bool runc(int c) { return c > 0 && (is_b64(char(c)) || strchr("+-./$%", c)); }
    string run() { size_t b = p; while (runc(at())) p++; return t.substr(b, p - b); }
    static bool digits(const string& s, size_t& i) { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; return i > b; }
    static bool is_int(const string& s) { size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; return digits(s, i) && i == s.size(); }
    static bool is_float(const string& s) {
        size_t i = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
        if (!digits(s, i)) return false;
        bool frac = false, ex = false;
        if (i < s.size() && s[i] == '.') { i++; if (!digits(s, i)) return false; frac = true; }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            i++;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
            if (!digits(s, i)) return false;
            ex = true;
        }
        return (frac || ex) && i == s.size();
    }
    static bool to_int(const string& s, int64_t& v) {
        size_t i = 0;
        bool neg = false;
        if (s[0] == '+' || s[0] == '-') { neg = s[0] == '-'; i++; }
        if (s.size() - i > 19) return false;
        unsigned __int128 x = 0;
        for (; i < s.size(); i++) x = x * 10 + (s[i] - '0');
        unsigned __int128 max = (unsigned __int128)INT64_MAX + (neg ? 1 : 0);
        if (x > max) return false;
        v = neg ? (int64_t)(0 - (u64)x) : (int64_t)x;
        return true;
    }
    bool put_int(Op& o, const string& s) { int64_t v; if (!is_int(s) || !to_int(s, v)) return false; o.a.push_back(I(v)); return true; }
    bool put_float(Op& o, const string& s) { if (!is_float(s) || s.size() > 24) return false; o.a.push_back(F(strtod(s.c_str(), nullptr))); return true; }
    bool put_uuid(Op& o, const string& s) { U u; if (!parse_uuid(s, u)) return false; o.a.push_back(Q(u)); return true; }
    bool bare(Op& o) {
        string s = run();
        if (is_int(s)) return put_int(o, s);
        if (is_float(s)) return put_float(o, s);
        return put_uuid(o, s);
    }
    static bool hexd(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    bool str(vector<uint32_t>& s) {  // at the opening quote
        p++;
        for (;;) {
            int c = at();
            if (c < 0) return false;
            if (c == '\'') { p++; return true; }
            if (c == '\n' || c == '\r' || c == 0) return false;
            if (c == '\\') {
                p++;
                c = at();
                switch (c) {
                    case 'n': s.push_back('\n'); p++; break;
                    case 'r': s.push_back('\r'); p++; break;
                    case 't': s.push_back('\t'); p++; break;
                    case 'b': s.push_back('\b'); p++; break;
                    case '\\': case '\'': case '/': case '"': s.push_back(c); p++; break;
                    case 'u': {
                        uint32_t cp = 0;
                        for (int i = 1; i <= 4; i++) {
                            int h = p + i < t.size() ? (unsigned char)t[p + i] : -1;
                            if (!hexd(h)) return false;
                            cp = cp * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                        }
                        p += 5;
                        if (cp == 0 || (cp >= 0xd800 && cp < 0xe000)) return false;
                        s.push_back(cp);
                        break;
                    }
                    default: return false;
                }
                continue;
            }
            uint32_t cp;
            size_t n = utf8_read(t, p, cp);
            if (!n) return false;
            s.push_back(cp);
            p += n;
        }
    }
    bool op(U& prev) {
        Op o;
        o.id = U{prev.v + 1, prev.o};
        o.ref = prev;
        u64 span = 1;
        vector<uint32_t> spread;
        bool spreads = false;
        if (at() == '@') {
            p++;
            if (!parse_uuid(run(), o.id)) return false;
            size_t back = p;
            skip();
            if (at() == ':') { p++; if (!parse_uuid(run(), o.ref)) return false; }
            else p = back;
        } else if (runc(at())) {
            if (!bare(o)) return false;
        }
        for (;;) {
            bool w = skip() > 0;
            int c = at();
            if (c == '=') { p++; skip(); if (!put_int(o, run())) return false; }
            else if (c == '^') { p++; skip(); if (!put_float(o, run())) return false; }
            else if (c == '>') { p++; skip(); if (!put_uuid(o, run())) return false; }
            else if (c == '\'') { A a; a.t = STR; if (!str(a.s)) return false; o.a.push_back(a); }
            else if (w && runc(c)) { if (!bare(o)) return false; }
            else break;
        }
        if (at() == '(') {
            p++;
            skip();
            if (at() == '\'') {
                if (!str(spread) || spread.empty()) return false;
                spreads = true;
                span = spread.size();
            } else {
                size_t b = p;
                span = 0;
                while (at() >= '0' && at() <= '9') { span = span * 10 + (at() - '0'); p++; if (span > (u64(1) << 40)) span = u64(1) << 40; }
                if (p == b || span == 0 || span > (u64(1) << 30)) return false;
            }
            skip();
            if (at() != ')') return false;
            p++;
            skip();
        }
        switch (at()) {
            case ';': o.term = 0; break;
            case ',': o.term = 1; break;
            case '!': o.term = 2; break;
            case '?': o.term = 3; break;
            default: return false;
        }
        p++;
        if (spreads) { A a; a.t = STR; o.a.push_back(a); }
        for (u64 i = 0; i < span; i++) {
            if (out.ops.size() >= cap) { out.capped = true; return true; }
            if (i) { o.ref = o.id; o.id.v++; }
            if (spreads) o.a.back().s.assign(1, spread[i]);
            out.ops.push_back(o);
            if (i + 1 < span) out.ops.back().term = 1;  // the last op ends the chunk
        }
        prev = o.id;
        return true;
    }
   public:
    explicit Parser(const string& text, size_t cap_ = 100000) : t{text}, cap{cap_} {}
    Parsed parse() {
        U prev;
        for (;;) {
            skip();
            if (p == t.size() || t.compare(p, string::npos, ".\n") == 0) { out.ok = true; return out; }
            if (!op(prev)) return out;
            if (out.capped) return out;
        }
    }
};
inline Parsed parse(const string& s, size_t cap = 100000) { return Parser{s, cap}.parse(); }

}  // namespace ref
#endif
