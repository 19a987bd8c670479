// C26: calendar times to event timestamps, over the whole supported range.
#include "ronx.hpp"
using namespace std;
using mc::Gen;
using ll = long long;

// civil date <-> days, independent of libc
static ll days(int y, int m, int d) {
    y -= m <= 2;
    ll era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = unsigned(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + ll(doe) - 719468;
}
static bool leap(int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static int dim(int y, int m) { static int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : n[m - 1]; }
static uint64_t want(int y, int m, int d, int sec, ll nanos) {
    uint64_t r = (y - 2010) * 12 + (m - 1);
    r = (r << 6) | (d - 1);
    r = (r << 6) | (sec / 3600);
    r = (r << 6) | (sec / 60 % 60);
    r = (r << 6) | (sec % 60);
    return (r << 24) | (nanos / 100);
}
static uint64_t ts(ll sec, ll nanos) { mc::transition(); return ron::Uuid::HybridTime(time_t(sec), nanos).as_u64; }
static const ll NS[] = {0, 1, 99, 100, 101, 199, 200, 999, 1000, 123456700, 499999999, 500000000, 999999800, 999999899, 999999900, 999999999};

static string judge(ll sec, ll nanos, ll sec2, ll nanos2) {
    uint64_t a = ts(sec, nanos), b = ts(sec2, nanos2);
    ll x = nanos / 100, y = nanos2 / 100;
    int w = sec != sec2 ? (sec < sec2 ? -1 : 1) : x != y ? (x < y ? -1 : 1) : 0;
    int g = a < b ? -1 : a > b;
    if (w != g) return "times " + to_string(sec) + "." + to_string(nanos) + " and " + to_string(sec2) + "." + to_string(nanos2) + " get timestamps " + to_string(a) + " and " + to_string(b);
    if (a > ref::M60 || b > ref::M60) return "a timestamp exceeds 60 bits: " + to_string(a);
    return "";
}
static string check_day(const string& t) {
    int y, m, d, step;
    if (sscanf(t.c_str(), "%d-%d-%d %d", &y, &m, &d, &step) != 4) return "bad case";
    ll day = days(y, m, d);
    mc::nontrivial(); mc::state(t); mc::trace();
    // the clock of the day, second by second (or the boundaries)
    string r;
    for (int s = 0; s < 86400; s += (step == 1 ? 1 : s % 3600 < 2 || s % 3600 >= 3597 || s % 600 >= 597 || s % 600 < 2 ? 1 : 7)) {
        ll now = day * 86400 + s;
        if (now + 1 < days(2351, 1, 1) * 86400) r = judge(now, 999999999, now + 1, 0);
        if (r.empty()) r = judge(now, 0, now, 100);
        if (r.empty() && ts(now, 0) != want(y, m, d, s, 0)) r = "layout of " + to_string(now);
        if (!r.empty()) return r;
    }
    // sub-second steps at the ends of the day, against each other and against neighbours
    for (int s : {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399}) for (ll a : NS) for (ll b : NS) {
        ll now = day * 86400 + s;
        r = judge(now, a, now, b);
        if (r.empty() && now + 1 < days(2351, 1, 1) * 86400) r = judge(now, a, now + 1, b);
        if (r.empty() && now > days(2010, 1, 1) * 86400) r = judge(now, a, now - 1, b);
        if (r.empty() && ts(now, a) != want(y, m, d, s, a)) r = "layout of " + to_string(now);
        if (!r.empty()) return r;
    }
    // days, months and years apart
    for (ll k : {1, 27, 28, 29, 30, 31, 32, 365, 366, 1461, 36524}) for (int s : {0, 86399}) {
        ll now = day * 86400 + s, then = now + k * 86400;
        if (then >= days(2351, 1, 1) * 86400) continue;
        r = judge(now, 999999999, then, 0);
        if (!r.empty()) return r;
    }
    return "";
}
static string check_now(const string& t) {
    timespec a, b, ma, mb;
    uint64_t last = 0;
    ll was = 0;
    auto ns = [](const timespec& x) { return ll(x.tv_sec) * 1000000000 + x.tv_nsec; };
    for (int i = 0; i < 2000; i++) {
        clock_gettime(CLOCK_MONOTONIC, &ma);
        clock_gettime(CLOCK_REALTIME, &a);
        uint64_t n = ron::Uuid::Now().as_u64;
        clock_gettime(CLOCK_REALTIME, &b);
        clock_gettime(CLOCK_MONOTONIC, &mb);
        mc::transition();
        // someone set the clock: nothing to judge
        if (ns(a) < was || ns(b) < ns(a) || ns(b) - ns(a) > ns(mb) - ns(ma) + 1000) { was = ns(b); last = 0; continue; }
        was = ns(b);
        if (n + 20 < ts(a.tv_sec, a.tv_nsec) || n > ts(b.tv_sec, b.tv_nsec)) return "Now() is not between the times before and after it";
        if (n < last) return "Now() went back";
        last = n;
    }
    mc::nontrivial();
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C26");
    // event time is universal: a local time with jumps must not show through
    setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1);
    tzset();
    bool deep = mc::thorough();
    d.add({"days", [=](Gen& g) {
        char b[64];
        for (int y = 2010; y <= 2350; y++) for (int m = 1; m <= 12; m++) for (int dd = 1; dd <= dim(y, m); dd++) {
            bool edge = dd == 1 || dd == dim(y, m) || (m == 2 && dd >= 28);
            bool fine = deep ? edge || y < 2040 : (y == 2010 || y == 2016 || y == 2100 || y == 2351 - 1 || y == 2026) && edge;
            // quick: all days by their boundaries, every second of the edges of chosen years
            snprintf(b, 64, "%d-%d-%d %d", y, m, dd, fine ? 1 : 7);
            if (!deep && !edge && y % 4 != 2) { if (dd % 5) continue; }
            g.add(b);
        }
    }, check_day, "days of 2010..2350 (thorough: all), every minute boundary of each (every second of chosen days), 16 sub-second offsets at 10 boundaries, all against each other and their neighbours", 60});
    d.add({"now", [](Gen& g) { for (int i = 0; i < 8; i++) g.add(to_string(i)); }, check_now, "the clock itself, 16000 readings"});
    return d.main(argc, argv);
}
