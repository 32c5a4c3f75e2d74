// Native side of the harness interface: runs the same harness, compiled from the same sources, on concrete input vectors.
// usage: prog entry vectors-file seconds-per-vector ; output: one JSON line per vector
#include "sx.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <vector>
#include "sx_sched.h"

static std::map<std::string, int64_t> g_in;
static std::map<std::string, int> g_cnt;
static std::string g_outText;
static int g_fd = 1;
static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static void emit(const std::string &status) {
    std::string l = "{\"status\":\"" + esc(status) + "\",\"out\":[" + g_outText + "]}\n";
    size_t off = 0;
    while (off < l.size()) { ssize_t n = write(g_fd, l.data() + off, l.size() - off); if (n <= 0) break; off += n; }
}
[[noreturn]] static void stop(const std::string &status) { emit(status); _exit(0); }
void sx_native_stop(const char *status) { stop(status); }
int64_t sx_native_input(const std::string &n) {
    auto it = g_in.find(n);
    if (it == g_in.end()) stop("diverged: input " + n + " not in the vector");
    return it->second;
}
static int64_t input(const char *name) {
    int k = g_cnt[name]++;
    return sx_native_input(k ? std::string(name) + "#" + std::to_string(k) : std::string(name));
}
extern "C" {
int64_t sx_int(const char *n, int64_t, int64_t) { return input(n); }
int64_t sx_pick(const char *n, int64_t, int64_t) { return input(n); }
bool sx_bool(const char *n) { return input(n) != 0; }
double sx_dyadic(const char *n, int64_t, int64_t, int sh) { return std::ldexp((double)input(n), -sh); }
void sx_assume(bool c) { if (!c) stop("assume"); }
void sx_assert(bool c, const char *w) { if (!c) stop(std::string("assert: ") + w); }
void sx_reach(const char *) {}
static std::string outsep() { return g_outText.empty() ? "" : ","; }
void sx_out(const char *n, int64_t v) { g_outText += outsep() + "[\"" + esc(n) + "\",\"" + std::to_string(v) + "\"]"; }
void sx_outd(const char *n, double v) { char b[64]; snprintf(b, 64, "%a", v); g_outText += outsep() + "[\"" + esc(n) + "\",\"" + b + "\"]"; }
static std::map<std::string, int64_t> g_cfgN;
int64_t sx_cfg(const char *n, int64_t v) { int64_t o = g_cfgN[n]; g_cfgN[n] = v; return o; }
int64_t sx_native_cfg(const char *n, int64_t d) { return g_cfgN.count(n) ? g_cfgN[n] : d; }
struct Blk { void *base; size_t len; };
static std::map<void *, Blk> g_blk;
void *sx_alloc(size_t n) { // the byte after the last one is in an inaccessible page
    size_t pg = 4096, len = (n + pg - 1) / pg * pg;
    char *b = (char *)mmap(nullptr, len + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return nullptr;
    if (len) mprotect(b + pg, len, PROT_READ | PROT_WRITE);
    void *p = b + pg + (len - n);
    g_blk[p] = {b, len + 2 * pg};
    return p;
}
void sx_free(void *p) { auto it = g_blk.find(p); if (it == g_blk.end()) return; mprotect(it->second.base, it->second.len, PROT_NONE); g_blk.erase(it); }
bool sx_symbolic(int64_t) { return false; }
void sx_done(void) { sx_sched_finish(); stop("ok"); }
}
static void onTerm() {
    std::string n = "?";
    if (auto *t = abi::__cxa_current_exception_type()) { int st; char *d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st); n = d ? d : t->name(); }
    stop("uncaught exception " + n);
}
int main(int argc, char **argv) {
    if (argc < 4) return 3;
    void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!entry) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
    std::ifstream f(argv[2]);
    int secs = atoi(argv[3]);
    std::string line;
    std::vector<std::map<std::string, int64_t>> vecs;
    while (std::getline(f, line)) {
        if (line == "VEC") vecs.emplace_back();
        else if (!line.empty()) { size_t q = line.rfind(' '); vecs.back()[line.substr(0, q)] = strtoll(line.c_str() + q + 1, nullptr, 10); }
    }
    int null = open("/dev/null", O_WRONLY);
    int outfd = dup(1);
    for (auto &v : vecs) {
        int p[2];
        if (pipe(p)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            g_fd = p[1];
            dup2(null, 1);
            if (!getenv("SX_VERBOSE")) dup2(null, 2);
            struct rlimit rl = {(rlim_t)secs, (rlim_t)secs + 1};
            setrlimit(RLIMIT_CPU, &rl);
            alarm(secs * 3);
            g_in = v;
            std::set_terminate(onTerm);
            sx_sched_begin();
            entry();
            sx_sched_finish();
            stop("ok");
        }
        close(p[1]);
        std::string buf;
        char tmp[65536];
        ssize_t n;
        while ((n = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (buf.empty()) {
            std::string s;
            if (WIFSIGNALED(st)) s = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) ? "timeout" : "signal " + std::to_string(WTERMSIG(st));
            else s = "exit " + std::to_string(WEXITSTATUS(st));
            buf = "{\"status\":\"" + s + "\",\"out\":[]}\n";
        }
        if (buf.back() != '\n') buf += "\n";
        ssize_t w = write(outfd, buf.data(), buf.size()); (void)w;
    }
    return 0;
}
