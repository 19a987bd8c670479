// Bounded-exhaustive exploration driver: a "space" is a finite set of cases
// (inputs, histories, crash points) enumerated completely and in a fixed
// order; every case is executed against the real code and judged by an
// oracle. Cases run in forked shards so that an abort, a sanitizer report or a
// hang is attributed to the one case that caused it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

using std::string;
using std::vector;

inline bool thorough() {
    const char* t = getenv("VERIF_TIER");
    return t && string(t) == "thorough";
}
template <class T>
T tier(T quick, T deep) { return thorough() ? deep : quick; }

inline double now_s() {
    timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec / 1e6;
}

struct Stats {
    uint64_t cases{0}, nontrivial{0}, transitions{0}, traces{0};
};
inline Stats& stats() { static Stats s; return s; }
inline std::unordered_set<uint64_t>& states() {
    static std::unordered_set<uint64_t> s;
    return s;
}
inline uint64_t fnv(const string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 31; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
    return h;
}
// what a check reports about the case it runs
static constexpr size_t STATE_CAP = 4000000;
inline void state(const string& canon) {
    if (states().size() < STATE_CAP) states().insert(fnv(canon));
}
inline void transition(uint64_t n = 1) { stats().transitions += n; }
inline void nontrivial() { stats().nontrivial++; }
inline void trace() { stats().traces++; }

struct Shared {
    volatile uint64_t seq;       // cases started in this worker
    volatile uint64_t idx;       // index of the running case
    volatile uint64_t len;
    volatile uint64_t busy;
    volatile uint64_t done;
    Stats st;
    uint64_t nstates;
    char text[1 << 16];
};

class Gen {
   public:
    uint64_t idx{0};             // index of the next case
    uint64_t first{0}, shard{0}, nshards{1}, stop{UINT64_MAX};
    Shared* sh{nullptr};
    FILE* viol{nullptr};
    const std::function<string(const string&)>* check{nullptr};
    uint64_t reported{0};
    vector<string> samples;
    bool counting{false};

    // whether the next case belongs to this worker; call it before building
    // the text, and run() right after it returned true
    bool mine() {
        uint64_t i = idx++;
        if (counting) return false;
        return i % nshards == shard && i >= first && i <= stop;
    }
    void run(const string& text) {
        uint64_t i = idx - 1;
        sh->idx = i;
        size_t n = std::min(text.size(), sizeof(sh->text));
        memcpy(sh->text, text.data(), n);
        sh->len = n;
        sh->busy = 1;
        sh->seq = sh->seq + 1;
        string re = (*check)(text);
        sh->busy = 0;
        stats().cases++;
        if (samples.size() < 2 || (stats().cases & (stats().cases - 1)) == 0) {
            if (samples.size() < 24) samples.push_back(text);
        }
        if (!re.empty() && reported < 50) {
            reported++;
            fprintf(viol, "%llu %zu %zu\n", (unsigned long long)i, text.size(), re.size());
            fwrite(text.data(), 1, text.size(), viol);
            fwrite(re.data(), 1, re.size(), viol);
            fputc('\n', viol);
            fflush(viol);
        }
    }
    void add(const string& text) { if (mine()) run(text); }
};

struct Space {
    string name;
    std::function<void(Gen&)> gen;
    std::function<string(const string&)> check;
    string rule;
    int timeout_s{40};
    int shards{0};  // 0: all cores
};

inline string json(const string& s) {
    string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
inline string hex(const string& s) {
    string o; char b[4];
    for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; }
    return o;
}
inline string unhex(const string& s) {
    string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += char(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return o;
}
inline string slurp(const string& path, size_t max = 1 << 26) {
    string o;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return o;
    char b[65536]; size_t n;
    while (o.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    fclose(f);
    return o;
}

struct Violation { string space, text, msg; bool confirmed{false}; string how; uint64_t idx, shard, nshards; };

inline string crash_text(int st, const string& err) {
    string m;
    if (WIFSIGNALED(st)) m = "the process died of signal " + std::to_string(WTERMSIG(st));
    else m = "the process exited with code " + std::to_string(WEXITSTATUS(st));
    // the telling line
    string key;
    for (const char* k : {"Assertion", "ERROR: AddressSanitizer", "runtime error", "terminate called", "Error: "}) {
        size_t p = err.find(k);
        if (p != string::npos) {
            size_t b = err.rfind('\n', p), e = err.find('\n', p);
            b = b == string::npos ? 0 : b + 1;
            key = err.substr(b, (e == string::npos ? err.size() : e) - b);
            break;
        }
    }
    if (!key.empty()) m += ": " + key.substr(0, 300);
    return m;
}

// the directory where this run keeps its working files
inline string& work_dir() { static string d; return d; }

class Driver {
    string prop_;
    vector<Space> spaces_;
    vector<Violation> viol_;
    struct Total { string name, rule; Stats st; uint64_t states, total; vector<string> samples; uint64_t crashes; bool complete; };
    vector<Total> totals_;

    // a case that eats memory without end fails by itself, before the sandbox does
    static void limit() {
#ifndef MC_ASAN
        rlimit l{2UL << 30, 2UL << 30};
        setrlimit(RLIMIT_DATA, &l);
#endif
    }

    // runs one case alone in a child; "" if it passes
    string alone(const Space& sp, const string& text, int timeout) {
        string err = work_dir() + "/alone.err";
        int pfd[2];
        if (pipe(pfd)) abort();
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            close(pfd[0]);
            limit();
            if (!freopen(err.c_str(), "w", stderr)) _exit(99);
            string re = sp.check(text);
            if (re.size() > 60000) re.resize(60000);
            if (!re.empty() && write(pfd[1], re.data(), re.size()) < 0) _exit(98);
            _exit(0);
        }
        close(pfd[1]);
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        double t0 = now_s();
        int st = 0; bool dead = false, killed = false;
        string out;
        while (!dead) {
            char b[4096]; ssize_t n;
            while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n);
            if (waitpid(pid, &st, WNOHANG) == pid) dead = true;
            else if (now_s() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); dead = killed = true; }
            else usleep(2000);
        }
        char b[4096]; ssize_t n;
        while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n);
        close(pfd[0]);
        kill(-pid, SIGKILL);
        if (killed) return "no end after " + std::to_string(timeout) + " s";
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return crash_text(st, slurp(err, 1 << 20));
        return out;
    }

    struct Worker { pid_t pid{0}; Shared* sh{nullptr}; uint64_t last_seq{0}; double last_t{0}; uint64_t first{0}; int restarts{0}; bool done{false}; };

    void child(const Space& sp, Worker& w, int k, int n, uint64_t stop) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        limit();
        string base = work_dir() + "/" + sp.name + "." + std::to_string(k);
        if (!freopen((base + ".err").c_str(), "w", stderr)) _exit(99);
        Gen g;
        g.first = w.first; g.shard = k; g.nshards = n; g.sh = w.sh; g.stop = stop;
        g.check = &sp.check;
        g.viol = fopen((base + ".viol").c_str(), "ab");
        stats() = Stats{};
        states().clear();
        sp.gen(g);
        fclose(g.viol);
        auto& s = stats();
        w.sh->st.cases += s.cases; w.sh->st.nontrivial += s.nontrivial;
        w.sh->st.transitions += s.transitions; w.sh->st.traces += s.traces;
        FILE* f = fopen((base + ".states").c_str(), "ab");
        for (auto x : states()) fwrite(&x, 8, 1, f);
        fclose(f);
        f = fopen((base + ".samples").c_str(), "ab");
        for (auto& x : g.samples) fprintf(f, "%s\n", hex(x).c_str());
        fclose(f);
        w.sh->nstates = g.idx;
        w.sh->done = 1;
        fflush(nullptr);
        _exit(0);
    }

    void read_viol(const Space& sp, const string& path, int k, int n, vector<Violation>& into) {
        string d = slurp(path);
        size_t p = 0;
        while (p < d.size()) {
            unsigned long long i; size_t a, b; int used = 0;
            if (sscanf(d.c_str() + p, "%llu %zu %zu\n%n", &i, &a, &b, &used) < 3) break;
            // %n eats whitespace; recompute
            size_t nl = d.find('\n', p);
            p = nl + 1;
            Violation v;
            v.space = sp.name; v.text = d.substr(p, a); v.msg = d.substr(p + a, b);
            v.idx = i; v.shard = k; v.nshards = n;
            into.push_back(v);
            p += a + b + 1;
        }
    }

    void explore(const Space& sp) {
        int n = sp.shards ? sp.shards : 8;
        if (const char* j = getenv("MC_JOBS")) n = std::min(n, std::max(1, atoi(j)));
        vector<Worker> ws(n);
        auto spawn = [&](int k) {
            Worker& w = ws[k];
            w.last_seq = w.sh->seq;
            w.last_t = now_s();
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) child(sp, w, k, n, UINT64_MAX);
            w.pid = pid;
        };
        vector<Violation> found;
        uint64_t crashes = 0;
        bool complete = true;
        for (int k = 0; k < n; k++) {
            ws[k].sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            string base = work_dir() + "/" + sp.name + "." + std::to_string(k);
            for (const char* e : {".viol", ".states", ".samples", ".err"}) unlink((base + e).c_str());
            spawn(k);
        }
        int live = n, hangs = 0;
        while (live) {
            usleep(10000);
            for (int k = 0; k < n; k++) {
                Worker& w = ws[k];
                if (w.done) continue;
                int st;
                pid_t r = waitpid(w.pid, &st, WNOHANG);
                bool hang = false;
                if (r != w.pid) {
                    if (w.sh->seq != w.last_seq || !w.sh->busy) { w.last_seq = w.sh->seq; w.last_t = now_s(); continue; }
                    if (now_s() - w.last_t < sp.timeout_s) continue;
                    kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL);
                    waitpid(w.pid, &st, 0);
                    hang = true;
                }
                kill(-w.pid, SIGKILL);
                if (!hang && w.sh->done) { w.done = true; live--; continue; }
                // died in a case
                crashes++;
                Violation v;
                v.space = sp.name;
                v.text.assign(w.sh->text, w.sh->len);
                string base = work_dir() + "/" + sp.name + "." + std::to_string(k);
                v.msg = hang ? "no end after " + std::to_string(sp.timeout_s) + " s" : crash_text(st, slurp(base + ".err", 1 << 20));
                v.idx = w.sh->idx; v.shard = k; v.nshards = n;
                if (!w.sh->busy) v.msg = "outside a case: " + v.msg;
                found.push_back(v);
                w.first = w.sh->idx + 1;
                w.sh->busy = 0;
                hangs += hang;
                if (++w.restarts > (hang ? 2 : 12) || hangs > 8) { w.done = true; live--; complete = false; }
                else spawn(k);
            }
        }
        Total t;
        t.name = sp.name; t.rule = sp.rule; t.crashes = crashes; t.total = 0; t.complete = complete;
        std::unordered_set<uint64_t> all;
        for (int k = 0; k < n; k++) {
            string base = work_dir() + "/" + sp.name + "." + std::to_string(k);
            read_viol(sp, base + ".viol", k, n, found);
            auto& s = ws[k].sh->st;
            t.st.cases += s.cases; t.st.nontrivial += s.nontrivial; t.st.transitions += s.transitions; t.st.traces += s.traces;
            t.total = std::max<uint64_t>(t.total, ws[k].sh->nstates);
            string d = slurp(base + ".states", 1UL << 32);
            for (size_t i = 0; i + 8 <= d.size(); i += 8) { uint64_t x; memcpy(&x, d.data() + i, 8); all.insert(x); }
            string smp = slurp(base + ".samples");
            size_t p = 0;
            while (p < smp.size()) {
                size_t e = smp.find('\n', p);
                if (e == string::npos) break;
                if (t.samples.size() < 60) t.samples.push_back(unhex(smp.substr(p, e - p)));
                p = e + 1;
            }
            munmap(ws[k].sh, sizeof(Shared));
            for (const char* e : {".viol", ".states", ".samples", ".err"}) unlink((base + e).c_str());
        }
        t.states = all.size();
        t.st.cases += crashes;
        totals_.push_back(t);
        std::sort(found.begin(), found.end(), [](const Violation& a, const Violation& b) {
            return a.text.size() != b.text.size() ? a.text.size() < b.text.size() : a.idx < b.idx; });
        // replay before report
        int confirmed = 0, tried = 0;
        double c0 = now_s();
        for (auto& v : found) {
            // a hang takes long to confirm: one of them is enough
            bool few = tried < 200 && now_s() - c0 < 30;
            if (!few && confirmed) break;
            tried++;
            string re = alone(sp, v.text, sp.timeout_s * 3);
            if (!re.empty()) { v.msg = re; v.confirmed = true; v.how = "alone"; confirmed++; }
            if (tried > 400 || now_s() - c0 > 300) break;
        }
        if (!confirmed && !found.empty()) {
            // state carried over between cases: replay the whole shard prefix
            Violation* v = &*std::min_element(found.begin(), found.end(), [](const Violation& a, const Violation& b) { return a.idx < b.idx; });
            string re = prefix(sp, *v);
            if (!re.empty()) { v->msg = re; v->confirmed = true; v->how = "after the preceding cases of its shard"; }
        }
        for (auto& v : found) viol_.push_back(v);
    }

    string prefix(const Space& sp, const Violation& v) {
        Worker w;
        w.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) child(sp, w, (int)v.shard, (int)v.nshards, v.idx);
        int st = 0;
        double t0 = now_s(); bool killed = false;
        while (waitpid(pid, &st, WNOHANG) != pid) {
            if (now_s() - t0 > 240) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
            usleep(10000);
        }
        string base = work_dir() + "/" + sp.name + "." + std::to_string(v.shard);
        string re;
        vector<Violation> f;
        read_viol(sp, base + ".viol", (int)v.shard, (int)v.nshards, f);
        for (auto& x : f) if (x.idx == v.idx) re = x.msg;
        if (!killed && !w.sh->done && w.sh->idx == v.idx) re = crash_text(st, slurp(base + ".err", 1 << 20));
        munmap(w.sh, sizeof(Shared));
        for (const char* e : {".viol", ".states", ".samples", ".err"}) unlink((base + e).c_str());
        return re;
    }

   public:
    Driver(string prop) : prop_{std::move(prop)} {}
    void add(Space s) { spaces_.push_back(std::move(s)); }

    int main(int argc, char** argv) {
        setvbuf(stdout, nullptr, _IOLBF, 0);
        string out = "/dev/stdout", only, rspace, rcase;
        bool replay = false;
        for (int i = 1; i < argc; i++) {
            string a = argv[i];
            if (a == "--out") out = argv[++i];
            else if (a == "--work") work_dir() = argv[++i];
            else if (a == "--space") only = argv[++i];
            else if (a == "--replay") { replay = true; rspace = argv[++i]; rcase = unhex(argv[++i]); }
            else if (a == "--case") { replay = true; rspace = argv[++i]; rcase = argv[++i]; }
            else if (a == "--count") {
                for (auto& s : spaces_) { Gen g; g.counting = true; s.gen(g); printf("%s %llu\n", s.name.c_str(), (unsigned long long)g.idx); }
                return 0;
            }
        }
        if (work_dir().empty()) { fprintf(stderr, "--work needed\n"); return 3; }
        if (replay) {
            for (auto& s : spaces_) if (s.name == rspace) {
                string re = alone(s, rcase, s.timeout_s * 3);
                printf("%s\n", re.empty() ? "passes" : re.c_str());
                return re.empty() ? 0 : 1;
            }
            fprintf(stderr, "no such space\n");
            return 3;
        }
        double t0 = now_s();
        for (auto& s : spaces_) if (only.empty() || s.name == only) {
            double t = now_s();
            bool bad = false;
            for (auto& v : viol_) bad |= v.confirmed;
            if (bad && t - t0 > 300) { fprintf(stderr, "%s/%s: not explored, the verdict is known\n", prop_.c_str(), s.name.c_str()); continue; }
            explore(s);
            auto& q = totals_.back();
            fprintf(stderr, "%s/%s: %llu cases, %llu states, %llu transitions, %llu crashes, %.1f s\n", prop_.c_str(), s.name.c_str(),
                    (unsigned long long)q.st.cases, (unsigned long long)q.states, (unsigned long long)q.st.transitions, (unsigned long long)q.crashes, now_s() - t);
        }
        FILE* f = fopen(out.c_str(), "w");
        if (!f) return 3;
        fprintf(f, "{\"property\":\"%s\",\"wall_s\":%.3f,\"spaces\":[", prop_.c_str(), now_s() - t0);
        bool first = true;
        for (auto& t : totals_) {
            fprintf(f, "%s{\"name\":%s,\"rule\":%s,\"cases\":%llu,\"size\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"crashes\":%llu,\"complete\":%s,\"samples\":[",
                    first ? "" : ",", json(t.name).c_str(), json(t.rule).c_str(), (unsigned long long)t.st.cases, (unsigned long long)t.total,
                    (unsigned long long)t.st.nontrivial, (unsigned long long)t.states, (unsigned long long)t.st.transitions, (unsigned long long)t.st.traces,
                    (unsigned long long)t.crashes, t.complete ? "true" : "false");
            first = false;
            size_t step = std::max<size_t>(1, t.samples.size() / 6);
            bool fs = true; int ns = 0;
            for (size_t i = 0; i < t.samples.size() && ns < 6; i += step, ns++) { fprintf(f, "%s%s", fs ? "" : ",", json(t.samples[i].substr(0, 400)).c_str()); fs = false; }
            fprintf(f, "]}");
        }
        fprintf(f, "],\"violations\":[");
        first = true;
        for (auto& v : viol_) {
            fprintf(f, "%s{\"space\":%s,\"case\":%s,\"case_hex\":\"%s\",\"msg\":%s,\"confirmed\":%s,\"how\":%s}", first ? "" : ",",
                    json(v.space).c_str(), json(v.text).c_str(), hex(v.text).c_str(), json(v.msg.substr(0, 2000)).c_str(), v.confirmed ? "true" : "false", json(v.how).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        return 0;
    }
};

// all sequences over {0..k-1} of exactly length n
template <class F>
void words(int k, int n, F f) {
    vector<int> w(n, 0);
    if (k <= 0 && n > 0) return;
    for (;;) {
        f(w);
        int i = n - 1;
        while (i >= 0 && ++w[i] == k) w[i--] = 0;
        if (i < 0) return;
    }
}
inline vector<string> split(const string& s, char c) {
    vector<string> r(1);
    for (char x : s) if (x == c) r.emplace_back(); else r.back() += x;
    return r;
}

}  // namespace mc

#ifdef MC_ASAN
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=1:quarantine_size_mb=4:malloc_context_size=4:allocator_may_return_null=1:handle_abort=0:symbolize=0:max_allocation_size_mb=4096:hard_rss_limit_mb=3000";
}
#endif
#endif
