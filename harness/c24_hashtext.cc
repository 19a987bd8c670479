// C24: hash texts and prefix matching.
#include "ronx.hpp"
#include "ron/hash.hpp"
using namespace std;
using mc::Gen;
using ron::SHA2;

static const string HEXD = "0123456789abcdef";
struct Bits {
    bool b[258] = {};
};
static Bits pattern(int p) {
    Bits r;
    uint64_t x = 0x9E3779B97F4A7C15ULL * (p + 1);
    for (int i = 0; i < 256; i++) switch (p) {
        case 0: r.b[i] = 0; break;
        case 1: r.b[i] = 1; break;
        case 2: r.b[i] = i & 1; break;
        case 3: r.b[i] = !(i & 1); break;
        default: x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.b[i] = (x >> 33) & 1;
    }
    return r;
}
static string hex(const Bits& b, int n) { string s; for (int i = 0; i < n; i++) { int d = 0; for (int k = 0; k < 4; k++) d = d * 2 + b.b[i * 4 + k]; s += HEXD[d]; } return s; }
static string b64(const Bits& b, int n) { string s; for (int i = 0; i < n; i++) { int d = 0; for (int k = 0; k < 6; k++) d = d * 2 + b.b[i * 6 + k]; s += ref::B64[d]; } return s; }
static string bytes(const Bits& b, int bits) { string s(32, 0); for (int i = 0; i < bits && i < 256; i++) if (b.b[i]) s[i / 8] |= 128 >> (i % 8); return s; }

static string check_prefix(const string& t) {
    auto f = mc::split(t, ' ');
    Bits b = pattern(atoi(f[0].c_str()));
    mc::nontrivial(); mc::state(t);
    for (int n = 0; n <= 64; n++) for (int up = 0; up < 2; up++) {
        mc::transition();
        string x = hex(b, n);
        if (up) for (auto& c : x) c = toupper(c);
        SHA2 h = SHA2::ParseHex(x);
        if (h.known_bits() != uint32_t(n * 4)) return "hex of " + to_string(n) + " digits: " + to_string(h.known_bits()) + " bits known";
        if (h.bits_ != bytes(b, n * 4)) return "hex " + x + " read as other bits";
        if (h.hex() != hex(b, n)) return "hex " + x + " is written as " + h.hex();
        if (h.base64() != b64(b, n == 64 ? 43 : n * 4 / 6)) return "hex " + x + " is written in base64 as " + h.base64();
        if (h.defined() != (n > 0)) return "defined()";
    }
    for (int n = 0; n <= 43; n++) {
        mc::transition();
        string x = b64(b, n);
        SHA2 h = SHA2::ParseBase64(x);
        int k = min(256, n * 6);
        if (h.known_bits() != uint32_t(k)) return "base64 of " + to_string(n) + " digits: " + to_string(h.known_bits()) + " bits known";
        if (h.bits_ != bytes(b, k)) return "base64 " + x + " read as other bits";
        if (h.base64() != x) return "base64 " + x + " is written as " + h.base64();
        if (h.hex() != hex(b, k / 4)) return "base64 " + x + " is written in hex as " + h.hex();
        if (SHA2::valid(x) != (n == 43)) return "valid(" + x + ")";
    }
    return "";
}
static string check_match(const string& t) {
    auto f = mc::split(t, ' ');
    Bits a = pattern(atoi(f[0].c_str())), b = a;
    int flip = atoi(f[1].c_str()), flip2 = atoi(f[2].c_str());
    if (flip >= 0) b.b[flip] ^= 1;
    if (flip2 >= 0 && flip2 != flip) b.b[flip2] ^= 1;
    int first = flip < 0 ? (flip2 < 0 ? 999 : flip2) : flip2 < 0 ? flip : min(flip, flip2);
    if (flip == flip2) first = flip < 0 ? 999 : flip;
    vector<pair<SHA2, int>> A, B;
    for (int n = 0; n <= 64; n++) { A.emplace_back(SHA2::ParseHex(hex(a, n)), n * 4); B.emplace_back(SHA2::ParseHex(hex(b, n)), n * 4); }
    for (int n = 0; n <= 43; n++) { A.emplace_back(SHA2::ParseBase64(b64(a, n)), min(256, n * 6)); B.emplace_back(SHA2::ParseBase64(b64(b, n)), min(256, n * 6)); }
    mc::nontrivial(); mc::state(t);
    for (auto& x : A) for (auto& y : B) {
        mc::transition();
        bool want = min(x.second, y.second) <= first;
        if (x.first.matches(y.first) != want || y.first.matches(x.first) != want) return "matches() of " + to_string(x.second) + " and " + to_string(y.second) + " known bits differing at bit " + to_string(first);
        bool eq = bytes(a, x.second) == bytes(b, y.second);
        if ((x.first == y.first) != eq || (x.first != y.first) == eq) return "operator== disagrees with the bits";
    }
    return "";
}
static string check_bad(const string& t) {
    bool hx = t[0] == 'h';
    string x = t.substr(1);
    bool ok = true;
    for (char c : x) if (hx ? !isxdigit((unsigned char)c) : !ref::is_b64(c)) ok = false;
    if (x.size() > (hx ? 64 : 43)) ok = false;
    if (!hx && ok && x.size() == 43 && (ref::B64.find(x[42]) & 3)) ok = false;
    mc::transition(); mc::state(t);
    if (!ok) mc::nontrivial();
    rx::Exact e{x};
    SHA2 h = hx ? SHA2::ParseHex(x) : SHA2::ParseBase64(x);
    if (!hx && SHA2::valid(e.slice()) != (ok && x.size() == 43)) return "valid() of " + x;
    uint32_t want = !ok ? 0 : min<uint32_t>(256, x.size() * (hx ? 4 : 6));
    if (h.known_bits() != want) return to_string(h.known_bits()) + " bits known of " + mc::hex(x) + ", expected " + to_string(want);
    if (!ok && h.bits_ != string(32, 0)) return "a malformed text leaves bits behind";
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C24");
    bool deep = mc::thorough();
    int P = deep ? 60 : 12;
    d.add({"prefixes", [=](Gen& g) { for (int p = 0; p < 20 * P; p++) g.add(to_string(p)); }, check_prefix, "240 (thorough 1200) bit patterns x every length of hex (both cases) and Base64 text"});
    d.add({"matches", [=](Gen& g) {
        for (int p = 0; p < (deep ? 12 : 5); p++) { g.add(to_string(p) + " -1 -1"); for (int i = 0; i < 256; i++) g.add(to_string(p) + " " + to_string(i) + " -1"); }
        for (int i = 0; i < 256; i += deep ? 3 : 17) for (int j = i + 1; j < 256; j += deep ? 7 : 13) g.add("4 " + to_string(i) + " " + to_string(j));
    }, check_match, "5 (thorough 12) patterns x every single-bit difference (and some double ones) x every pair of known lengths in both codings"});
    d.add({"malformed", [=](Gen& g) {
        for (int n = 0; n <= 66; n++) { string h(n, '5'); g.add("h" + h); g.add("b" + h); if (n <= 45) g.add("b" + string(n, 'W'));
            if (n) for (int at = 0; at < n; at++) { if (!deep && at > 2 && at < n - 3 && at % 7) continue; for (int c = 0; c < 256; c++) { h[at] = char(c); g.add("h" + h); if (n <= 45) g.add("b" + h); } h[at] = '5'; } }
        for (char c : ref::B64) g.add("b" + string(42, 'x') + c);
        for (char c : ref::B64) g.add("b" + string(41, 'x') + c);
        for (char c : ref::B64) g.add("b" + string(43, '0') + c);
    }, check_bad, "every byte at (nearly, thorough: exactly) every position of hex and Base64 texts of every length up to beyond the limit"});
    return d.main(argc, argv);
}
