// C27: the run-length stack against a plain vector.
#include "ronx.hpp"
#include "ron/inc_stack.hpp"
using namespace std;
using mc::Gen;

template <class V>
static string compare(const inc_stack<V>& s, const vector<V>& m) {
    size_t spans = 0;
    for (size_t i = 0; i < m.size(); i++) if (!i || m[i - 1] + 1u != m[i]) spans++;
    if (s.size() != m.size()) return "size";
    if (s.empty() != m.empty()) return "empty()";
    if (s.span_size() != spans) return to_string(s.span_size()) + " spans for " + to_string(spans) + " runs";
    if (m.empty()) return s.begin() == s.end() ? "" : "begin() of an empty stack";
    if (!(s.back() == m.back())) return "back()";
    if (!(s.front() == m.front())) return "front()";
    if (!(s.front_span().value == m.front())) return "front_span()";
    auto& bs = s.back_span();
    if (!(bs.value + (bs.size - 1) == m.back())) return "back_span()";
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) { if (i >= m.size()) return "iterates past the end"; if (!(*it == m[i])) return "element " + to_string(i); }
    if (i != m.size()) return "iterates over " + to_string(i) + " of " + to_string(m.size());
    // jumps from everywhere to everywhere
    for (size_t a = 0; a < m.size(); a++) for (size_t b = a; b <= m.size(); b++) {
        auto it = s.begin();
        for (size_t k = 0; k < a; k++) ++it;
        it += uint32_t(b - a);
        mc::transition();
        if (b == m.size()) { if (it != s.end() || !(it == s.end())) return "a jump of " + to_string(b - a) + " from " + to_string(a) + " misses the end"; }
        else {
            if (it == s.end()) return "a jump ends early";
            if (!(*it == m[b])) return "a jump of " + to_string(b - a) + " from " + to_string(a) + " lands elsewhere";
            auto step = s.begin();
            for (size_t k = 0; k < b; k++) ++step;
            if (!(step == it)) return "iterators at one place differ";
        }
    }
    // span skips
    for (size_t a = 0; a < m.size(); a++) for (uint32_t max = 1; max <= 4; max++) {
        auto it = s.begin();
        for (size_t k = 0; k < a; k++) ++it;
        size_t at = a;
        while (it != s.end()) {
            size_t run = 1;
            while (at + run < m.size() && m[at + run - 1] + 1u == m[at + run]) run++;
            uint32_t got = it.skip_span(max);
            mc::transition();
            if (got != min<size_t>(run, max)) return "skip_span(" + to_string(max) + ") at " + to_string(at) + " skips " + to_string(got);
            at += got;
            if (at > m.size()) return "skip_span() passes the end";
            if (at == m.size()) { if (it != s.end()) return "skip_span() misses the end"; break; }
            if (!(*it == m[at])) return "skip_span() lands elsewhere";
        }
        if (at != m.size()) return "skip_span() ends early";
    }
    return "";
}
template <class V, class F>
static string run(const string& t, F val) {
    inc_stack<V> s;
    vector<V> m;
    string text;
    for (size_t i = 0; i < t.size(); i++) {
        char c = t[i];
        if (c == '-') { if (m.empty()) return ""; s.pop_back(); m.pop_back(); }
        else if (c == '+') { if (m.empty()) return ""; V v = m.back() + 1u; s.push_back(v); m.push_back(v); }
        else { V v = val(c - 'a'); s.push_back(v); m.push_back(v); }
        mc::transition();
    }
    string r = compare(s, m);
    return r;
}
static string check(const string& t) {
    mc::state(t); mc::trace();
    if (t.find('-') != string::npos && t.find_first_of("+b") != string::npos) mc::nontrivial();
    string r = run<uint32_t>(t, [](int i) { return uint32_t(i * 1 + 5); });
    if (!r.empty()) return "integers: " + r;
    r = run<ron::Uuid>(t, [](int i) { return ron::Uuid{ron::Word{uint64_t(i) + 100}, ron::Word{uint64_t(i == 3 ? 7 : 9)}}; });
    if (!r.empty()) return "event ids: " + r;
    return "";
}

// "runs length gap pops": many runs or long ones
template <class V, class F>
static string run_scale(int runs, int len, int pops, F val) {
    inc_stack<V> s;
    vector<V> m;
    for (int r = 0; r < runs; r++) { V v = val(r); for (int i = 0; i < len; i++) { s.push_back(v); m.push_back(v); v = v + 1u; } }
    for (int p = 0; p < pops && !m.empty(); p++) { s.pop_back(); m.pop_back(); }
    for (int again = 0; again < 2; again++) {
        mc::transition(m.size());
        if (s.size() != m.size() || s.empty() != m.empty()) return "size " + to_string(s.size()) + " not " + to_string(m.size());
        size_t spans = 0, i = 0;
        for (size_t k = 0; k < m.size(); k++) if (!k || m[k - 1] + 1u != m[k]) spans++;
        if (s.span_size() != spans) return to_string(s.span_size()) + " spans for " + to_string(spans) + " runs";
        if (m.empty()) return s.begin() == s.end() ? "" : "begin() of an empty stack";
        if (!(s.back() == m.back()) || !(s.front() == m.front())) return "an end";
        for (auto it = s.begin(); it != s.end(); ++it, ++i) if (i >= m.size() || !(*it == m[i])) return "element " + to_string(i);
        if (i != m.size()) return "iterates over " + to_string(i) + " of " + to_string(m.size());
        for (size_t step : {size_t(1), size_t(len), size_t(len + 1), size_t(2 * len - 1), m.size() / 2 + 1, m.size() - 1, m.size()}) {
            if (!step) continue;
            auto it = s.begin();
            for (size_t at = 0; at <= m.size(); at += step) {
                if (at == m.size()) { if (it != s.end()) return "a jump misses the end"; break; }
                if (!(*it == m[at])) return "a jump by " + to_string(step) + " to " + to_string(at) + " lands elsewhere";
                if (at + step > m.size()) break;
                it += uint32_t(step);
            }
        }
        for (uint32_t max : {1u, uint32_t(len - 1), uint32_t(len), uint32_t(len + 1), 1u << 30}) {
            if (!max) continue;
            auto it = s.begin();
            size_t at = 0;
            while (it != s.end()) {
                size_t run = 1;
                while (at + run < m.size() && run < max && m[at + run - 1] + 1u == m[at + run]) run++;
                uint32_t got = it.skip_span(max);
                if (got != run) return "skip_span(" + to_string(max) + ") at " + to_string(at) + " skips " + to_string(got);
                at += got;
                if (at < m.size() ? !(it != s.end()) || !(*it == m[at]) : it != s.end()) return "skip_span() lands elsewhere";
            }
            if (at != m.size()) return "skip_span() ends early";
        }
        // and on
        for (int k = 0; k < 3; k++) { V v = m.back() + 1u; s.push_back(v); m.push_back(v); }
    }
    return "";
}
static string check_scale(const string& t) {
    mc::state(t); mc::trace(); mc::nontrivial();
    auto w = mc::split(t, ' ');
    int runs = stoi(w[0]), len = stoi(w[1]), pops = stoi(w[2]);
    string r = run_scale<uint32_t>(runs, len, pops, [&](int i) { return uint32_t(5 + i * (len + 2)); });
    if (!r.empty()) return "integers: " + r;
    r = run_scale<ron::Uuid>(runs, len, pops, [&](int i) { return ron::Uuid{ron::Word{uint64_t(100 + i * (len + 2))}, ron::Word{uint64_t(9)}}; });
    if (!r.empty()) return "event ids: " + r;
    return "";
}
int main(int argc, char** argv) {
    mc::Driver d("C27");
    bool deep = mc::thorough();
    d.add({"histories", [=](Gen& g) {
        string A = "abc+-d";
        int n = deep ? 9 : 8;
        for (int k = 0; k <= n; k++) mc::words(k == 9 ? 5 : 6, k, [&](const vector<int>& w) {
            int h = 0;
            for (int i : w) { h += A[i] == '-' ? -1 : 1; if (h < 0 || (h == 0 && A[i] == '+')) return; }
            if (w.size() && A[w[0]] == '+') return;
            if (g.mine()) { string s; for (int i : w) s += A[i]; g.run(s); }
        });
        for (int k = 9; k <= (deep ? 14 : 12); k++) mc::words(3, k, [&](const vector<int>& w) { if (g.mine()) { string s = "a"; for (int i : w) s += "a+-"[i]; g.run(s); } });
    }, check, "every history of at most 8 (thorough 9) pushes of 4 values, continuing pushes and pops, up to 13 (15) with one value; integers and event ids; then every jump and every span skip from every element"});
    d.add({"scale", [=](Gen& g) {
        for (int len = 1; len <= (deep ? 600 : 280); len++) for (int runs : {1, 2, 5}) for (int pops : {0, 1, len, len + 1}) g.add(to_string(runs) + " " + to_string(len) + " " + to_string(pops));
        for (int runs = 1; runs <= (deep ? 600 : 280); runs++) for (int len : {1, 2, 3}) for (int pops : {0, 1, 2, 20}) g.add(to_string(runs) + " " + to_string(len) + " " + to_string(pops));
        for (int len : {65535, 65536, 65537}) for (int pops : {0, 1, 2}) g.add("2 " + to_string(len) + " " + to_string(pops));
    }, check_scale, "runs of every length up to 280 (thorough 600) and of 65536, every number of runs up to 280 (600), some popped"});
    return d.main(argc, argv);
}
