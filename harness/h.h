// Shared machinery of the replay harnesses.  A harness runs the real code of
// /repo on generated cases and compares it with an oracle written from the
// property.  Every case is determined by (seed, index) alone, so a failing one
// is replayed with  --only INDEX.
#ifndef GSBV_H
#define GSBV_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <atomic>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <omp.h>

#if defined(__SANITIZE_ADDRESS__)
#define GSBV_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define GSBV_ASAN 1
#endif
#endif
#include <dlfcn.h>
#include <ucontext.h>
extern "C" void __sanitizer_print_stack_trace(void);
extern "C" void __sanitizer_set_death_callback(void (*)(void));
// bytes in use, counted exactly (the sanitizer's own statistic is a sum of counters that other threads are updating)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
extern "C" int __sanitizer_get_ownership(const volatile void *);
static std::atomic<long> g_live{0};
static void on_malloc(const volatile void *p, size_t) { if (p && __sanitizer_get_ownership(p)) g_live += (long) __sanitizer_get_allocated_size(p); }
static void on_free(const volatile void *p) { if (p && __sanitizer_get_ownership(p)) g_live -= (long) __sanitizer_get_allocated_size(p); }
static long live_bytes() { return g_live; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < (uint64_t) num; }
    template <class C> auto pick(const C &c) -> decltype(c[0]) { return c[below(c.size())]; }
};

// ---- reporting
static std::string g_desc;          // the case being run
static uint64_t g_idx = 0;
static std::string g_out;           // report file
static int g_null = -1;
static uint64_t g_evals = 0;
static std::set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::string g_tag;           // classifies the failure (known findings are matched on it)

static inline void emit(const char *kind, const char *msg)
{
    FILE *f = g_out.empty() ? stderr : fopen(g_out.c_str(), "w");
    if (!f) f = stderr;
    fprintf(f, "%s index=%llu tag=%s\n%s\n--- case\n%s\n", kind, (unsigned long long) g_idx, g_tag.c_str(), msg, g_desc.c_str());
    fflush(f);
    if (f != stderr) fclose(f);
}
static bool g_dying = false;
static void on_death() { if (!g_dying) { g_dying = true; emit("FAIL", "the run was stopped by a sanitizer report (see the log)"); } }
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define GSBV_TSAN 1
extern "C" int __tsan_get_report_data(void *, const char **, int *, int *, int *, int *, int *, int *, int *, void **, unsigned long);
extern "C" int __tsan_get_report_loc(void *, unsigned long, const char **, void **, unsigned long *, unsigned long *, int *, int *, int *, void **, unsigned long);
static volatile bool g_race = false;
// the OpenMP runtime recycles the memory of its task records without telling the
// sanitizer: a report about memory the runtime itself allocated is not about the program
extern "C" void __tsan_on_report(void *rep)
{
    const char *d; int cnt, stacks, mops, locs, mut, thr, tids; void *tr[8];
    __tsan_get_report_data(rep, &d, &cnt, &stacks, &mops, &locs, &mut, &thr, &tids, tr, 8);
    for (int i = 0; i < locs; i++) {
        const char *type = 0; void *addr = 0, *trace[8] = {0}; unsigned long st = 0, sz = 0; int tid = 0, fd = 0, sup = 0;
        __tsan_get_report_loc(rep, i, &type, &addr, &st, &sz, &tid, &fd, &sup, trace, 8);
        if (type && !strcmp(type, "heap"))
            for (int k = 0; k < 2; k++) {
                Dl_info in;
                if (trace[k] && dladdr(trace[k], &in) && in.dli_fname && strstr(in.dli_fname, "libomp")) return;
            }
    }
    if (!g_race) { g_race = true; emit("FAIL", "the thread sanitizer reports a data race (see the log)"); }
}
#endif
#endif
static void on_signal(int s)
{
    if (!g_dying) { g_dying = true; emit("FAIL", s == SIGALRM ? "the call did not return in time" : s == SIGABRT ? "assertion failed or abort() called" : "the run crashed with a signal"); }
    _exit(77);
}
// a crash inside the OpenMP runtime itself says nothing about the program (LLVM 18's runtime
// has a rare one when nested regions start while tasks of the enclosing one are stolen)
static void on_crash(int s, siginfo_t *, void *uc)
{
    Dl_info in;
    void *pc = (void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP];
    if (!g_dying && dladdr(pc, &in) && in.dli_fname && (strstr(in.dli_fname, "libomp") || strstr(in.dli_fname, "libgomp"))) _exit(78);
    if (!g_dying) { fprintf(stderr, "signal %d\n", s); __sanitizer_print_stack_trace(); }
    on_signal(s);
}
static void failf(const char *fmt, ...)
{
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (!g_dying) { g_dying = true; emit("FAIL", buf); }
    _exit(77);
}
#define CHECK(c, ...) do { if (!(c)) failf(__VA_ARGS__); } while (0)

static std::string strf(const char *fmt, ...)
{
    char buf[8192];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    return buf;
}
static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

// begin a case: text goes to the report if it fails
static void begin_case(const std::string &d) { g_desc = d; }
// count the case; nontrivial by the harness's own rule
static void count_case(bool nontrivial = true)
{
    g_evals++;
    if (nontrivial && g_distinct.size() < 4000000) {
        if (g_distinct.insert(hash_str(g_desc)).second && g_samples.size() < 3 && g_desc.size() < 400) g_samples.push_back(g_desc);
    }
}

// ---- matrices
struct Ent { uint32_t r, c; float v; };
struct Mat { uint32_t rows, cols; std::vector<Ent> e; };

static std::string show(const Mat &m)
{
    std::string s = strf("%u x %u, %zu entries (row,col,val):", m.rows, m.cols, m.e.size());
    for (size_t i = 0; i < m.e.size(); i++) {
        if (i == 60) { s += " ..."; break; }
        s += strf(" (%u,%u,%g)", m.e[i].r, m.e[i].c, m.e[i].v);
    }
    return s;
}
// FNV over the whole matrix so long ones stay distinct
static std::string key(const Mat &m) { uint64_t h = 7; for (auto &x : m.e) { h = h * 1000003 + x.r; h = h * 1000003 + x.c; h = h * 1000003 + (int64_t) (x.v * 8); } return strf(" #%016llx", (unsigned long long) h); }

static float rval(Rng &g) { float v = (float) (int) g.range(0, 15) - 7; return v == 0 ? 8 : v; }

// shapes: 0 tiny, 1 small, 2 skewed, 3 medium, 4 tall, 5 wide
static Mat gen(Rng &g, int kind, bool dups = true)
{
    Mat m;
    uint64_t n;
    switch (kind) {
    case 0: m.rows = g.range(1, 4); m.cols = g.range(1, 4); n = g.range(0, 6); break;
    case 1: m.rows = g.range(1, 24); m.cols = g.range(1, 24); n = g.range(0, 60); break;
    case 2: m.rows = g.range(1, 40); m.cols = g.range(1, 40); n = g.range(1, 120); break;
    case 3: m.rows = g.range(20, 300); m.cols = g.range(20, 300); n = g.range(0, 1500); break;
    case 4: m.rows = g.range(200, 3000); m.cols = g.range(1, 5); n = g.range(0, 900); break;
    default: m.rows = g.range(1, 5); m.cols = g.range(200, 3000); n = g.range(0, 900); break;
    }
    std::set<std::pair<uint32_t, uint32_t>> seen;
    uint32_t hotr = g.below(m.rows), hotc = g.below(m.cols);
    int style = g.below(4);
    for (uint64_t i = 0; i < n; i++) {
        Ent x;
        x.r = g.below(m.rows); x.c = g.below(m.cols);
        if (kind == 2 || style == 1) { if (g.chance(1, 2)) x.r = hotr; if (g.chance(1, 3)) x.c = hotc; }
        if (style == 2 && m.rows > 2) x.r = m.rows - 1 - g.below(std::min<uint32_t>(m.rows, 3));
        if (style == 3 && g.chance(1, 3)) { x.r = g.chance(1, 2) ? 0 : m.rows - 1; x.c = g.chance(1, 2) ? 0 : m.cols - 1; }
        x.v = rval(g);
        if (!dups && !seen.insert({x.r, x.c}).second) continue;
        m.e.push_back(x);
    }
    return m;
}
static int pick_kind(Rng &g, bool big) { static const int k[] = {0, 0, 1, 1, 1, 2, 2, 3, 4, 5}; int x = k[g.below(10)]; return (!big && x > 2) ? 1 : x; }

static bool by_row(const Ent &a, const Ent &b) { return a.r < b.r; }
static std::vector<double> ref_spmv(const Mat &m, const std::vector<float> &x, const std::vector<float> &y0)
{
    std::vector<double> y(y0.begin(), y0.end());
    for (auto &e : m.e) y[e.r] += (double) e.v * x[e.c];
    return y;
}
static std::vector<float> rvec(Rng &g, size_t n) { std::vector<float> x(n); for (auto &v : x) v = rval(g); return x; }

// exact-size heap array, so that the sanitizer sees any access outside it
template <class T> struct Buf {
    T *p; size_t n;
    explicit Buf(size_t n_) : p((T *) malloc(n_ * sizeof(T) ? n_ * sizeof(T) : 1)), n(n_) {}
    Buf(const std::vector<T> &v) : Buf(v.size()) { if (n) memcpy((void *) p, v.data(), n * sizeof(T)); }
    ~Buf() { free(p); }
    Buf(const Buf &) = delete;
    T &operator[](size_t i) { return p[i]; }
    operator T *() { return p; }
    std::vector<T> vec() const { return std::vector<T>(p, p + n); }
};
static void cmp_vec(const std::vector<double> &want, const float *y, const char *what)
{
    for (size_t i = 0; i < want.size(); i++)
        CHECK(want[i] == (double) y[i], "%s: y[%zu] is %g, A x + y gives %g", what, i, (double) y[i], want[i]);
}

// silence the code under test
struct Quiet {
    int o;
    Quiet() { fflush(stdout); o = dup(1); int d = open("/dev/null", O_WRONLY); dup2(d, 1); close(d); }
    ~Quiet() { fflush(stdout); dup2(o, 1); close(o); }
};

// ---- driver
void run_case(uint64_t idx, Rng &g, bool thorough);     // each harness
const char *rule_text();
static int64_t g_cases_quick = 4000, g_cases_thorough = 60000;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

#ifndef GSBV_NO_MAIN
int main(int argc, char **argv)
{
    uint64_t seed = 1;
    int64_t only = -1, cases = -1;
    double budget = 60;
    bool thorough = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--only") only = atoll(argv[++i]);
        else if (a == "--cases") cases = atoll(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--report") g_out = argv[++i];
        else if (a == "--thorough") thorough = true;
    }
    if (cases < 0) cases = thorough ? g_cases_thorough : g_cases_quick;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGFPE, on_signal);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0);
    double t0 = now();
    for (int64_t i = only >= 0 ? only : 0; i < cases || only >= 0; i++) {
        if (only < 0 && now() - t0 > budget) break;
        g_idx = i;
        Rng g(seed * 1000003 + i);
        alarm(60);
        run_case(i, g, thorough);
        alarm(0);
#ifdef GSBV_TSAN
        if (g_race) { fflush(0); _exit(1); }
#endif
        if (only >= 0) break;
    }
    printf("{\"evaluations\": %llu, \"distinct\": %zu, \"seconds\": %.2f, \"rule\": \"%s\", \"samples\": [", (unsigned long long) g_evals, g_distinct.size(), now() - t0, rule_text());
    for (size_t i = 0; i < g_samples.size(); i++) {
        printf("%s\"", i ? ", " : "");
        for (char c : g_samples[i]) { if (c == '"' || c == '\\') putchar('\\'); if (c == '\n') { printf("\\n"); continue; } putchar(c); }
        printf("\"");
    }
    printf("]}\n");
    return 0;
}
#endif
#endif
