// Kills a forked child of the harness at a chosen call of the storage engine's
// to the file system, with the call done in full, in part or not at all.
#ifndef VERIF_CRASHX_HPP
#define VERIF_CRASHX_HPP
#include <stdarg.h>
#include <sys/syscall.h>
#include <atomic>
#include <cerrno>
#include <mutex>
#include "storex.hpp"

namespace cx {
using std::string;
// what parent and child share
struct Shared {
    std::atomic<int> acked;    // operations that returned
    std::atomic<long> calls;   // file system calls since armed
    std::atomic<long> size;    // of the write the child died at, -1 for other calls
    std::atomic<int> died;     // at the chosen call
    char what[256];            // the call, for the report
    char verdict[4096];
};
inline Shared*& sh() { static Shared* s = nullptr; return s; }
struct Plan {
    std::atomic<bool> on{false};
    long at{0};        // the call to die at, from 1
    long bytes{0};     // how much of a write gets done
    char dir[512]{0};  // only calls on files in here count
};
inline Plan& plan() { static Plan p; return p; }
inline char* tracked() { static char t[65536]; return t; }  // by fd

inline bool ours(const char* path) {
    size_t n = strlen(plan().dir);
    if (!n || strncmp(path, plan().dir, n)) return false;
    // the engine's own text log decides nothing
    const char* b = strrchr(path, '/');
    return !(b && !strncmp(b, "/LOG", 4) && strncmp(b, "/LOCK", 5));
}
[[noreturn]] inline void die(const char* call, const char* path, long size) {
    Shared* s = sh();
    snprintf(s->what, sizeof s->what, "%s %s", call, path ? path : "");
    s->size = size;
    s->died = 1;
    syscall(SYS_exit_group, 137);
    abort();
}
inline std::mutex& mu() { static std::mutex* m = new std::mutex; return *m; }
// true: die here
inline bool here() {
    if (!plan().on.load(std::memory_order_acquire)) return false;
    return ++sh()->calls == plan().at;
}
inline const char* name_of(int fd, char* buf, size_t n) {
    char p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(p, buf, n - 1);
    buf[k < 0 ? 0 : k] = 0;
    return buf;
}
}  // namespace cx

extern "C" {
__attribute__((visibility("default"))) int open(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }
    bool mine = cx::ours(path);
    bool dead = mine && (flags & (O_CREAT | O_TRUNC)) && cx::here();
    if (dead) cx::die("open", path, -1);
    int fd = int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (fd >= 0 && fd < 65536) cx::tracked()[fd] = mine;
    return fd;
}
__attribute__((visibility("default"))) int close(int fd) {
    if (fd >= 0 && fd < 65536) cx::tracked()[fd] = 0;
    return int(syscall(SYS_close, fd));
}
__attribute__((visibility("default"))) ssize_t write(int fd, const void* b, size_t n) {
    if (fd >= 0 && fd < 65536 && cx::tracked()[fd] && cx::here()) {
        size_t part = cx::plan().bytes < 0 ? n : std::min(n, size_t(cx::plan().bytes));
        size_t done = 0;
        while (done < part) { long k = syscall(SYS_write, fd, (const char*)b + done, part - done); if (k <= 0) break; done += size_t(k); }
        char buf[256];
        cx::die("write", cx::name_of(fd, buf, sizeof buf), long(n));
    }
    return syscall(SYS_write, fd, b, n);
}
__attribute__((visibility("default"))) ssize_t pwrite(int fd, const void* b, size_t n, off_t at) {
    if (fd >= 0 && fd < 65536 && cx::tracked()[fd] && cx::here()) {
        size_t part = cx::plan().bytes < 0 ? n : std::min(n, size_t(cx::plan().bytes));
        if (part) syscall(SYS_pwrite64, fd, b, part, at);
        char buf[256];
        cx::die("pwrite", cx::name_of(fd, buf, sizeof buf), long(n));
    }
    return syscall(SYS_pwrite64, fd, b, n, at);
}
__attribute__((visibility("default"))) int rename(const char* a, const char* b) {
    if (cx::ours(b) && cx::here()) cx::die("rename to", b, -1);
    return int(syscall(SYS_rename, a, b));
}
__attribute__((visibility("default"))) int unlink(const char* a) {
    if (cx::ours(a) && cx::here()) cx::die("unlink", a, -1);
    return int(syscall(SYS_unlink, a));
}
__attribute__((visibility("default"))) int link(const char* a, const char* b) {
    if (cx::ours(b) && cx::here()) cx::die("link", b, -1);
    return int(syscall(SYS_link, a, b));
}
__attribute__((visibility("default"))) int mkdir(const char* a, mode_t m) {
    if (cx::ours(a) && cx::here()) cx::die("mkdir", a, -1);
    return int(syscall(SYS_mkdir, a, m));
}
__attribute__((visibility("default"))) int rmdir(const char* a) {
    if (cx::ours(a) && cx::here()) cx::die("rmdir", a, -1);
    return int(syscall(SYS_rmdir, a));
}
__attribute__((visibility("default"))) int ftruncate(int fd, off_t n) {
    if (fd >= 0 && fd < 65536 && cx::tracked()[fd] && cx::here()) { char buf[256]; cx::die("ftruncate", cx::name_of(fd, buf, sizeof buf), -1); }
    return int(syscall(SYS_ftruncate, fd, n));
}
__attribute__((visibility("default"))) int fsync(int) { return 0; }
__attribute__((visibility("default"))) int fdatasync(int) { return 0; }
}

namespace cx {
inline void init() {
    if (sh()) return;
    sh() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
inline void arm(long at, long bytes, const string& dir) {
    Plan& p = plan();
    p.at = at;
    p.bytes = bytes;
    snprintf(p.dir, sizeof p.dir, "%s", dir.c_str());
}
inline void fire() { sh()->calls = 0; plan().on.store(true, std::memory_order_release); }
// runs f in a child; its return value is the verdict. Exit codes: 0 done, 137 died as planned
inline int child(const std::function<string()>& f, int* sig = nullptr) {
    Shared* s = sh();
    s->acked = 0; s->calls = 0; s->size = 0; s->died = 0; s->what[0] = 0; s->verdict[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        string v = f();
        snprintf(s->verdict, sizeof s->verdict, "%s", v.c_str());
        syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sig) *sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000;
}
}  // namespace cx
#endif
