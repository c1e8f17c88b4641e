// scratch files and byte-level access for the file harnesses
#ifndef GSBV_IO_H
#define GSBV_IO_H
#include "build.h"
#include <sys/wait.h>
#include <sys/stat.h>
static std::string scratch(const char *name)
{
    static std::string dir;
    if (dir.empty()) {
        const char *t = getenv("GSBV_TMP");
        std::string s = std::string(t ? t : ".") + "/ioXXXXXX";
        if (!mkdtemp(&s[0])) { perror("mkdtemp"); _exit(3); }
        dir = s;
    }
    return dir + "/" + name;
}
static std::string slurp(const std::string &p)
{
    std::string s; char b[65536]; size_t k;
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return s;
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    return s;
}
static void spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror("fopen"); _exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
template <class X> static void app(std::string &s, X v) { s.append((const char *) &v, sizeof v); }
static float anyfloat(Rng &g) { uint32_t b = g.next(); if (g.chance(1, 4)) { static const uint32_t sp[] = {0, 0x80000000u, 1, 0x7f800000u, 0xff800000u, 0x00800000u, 0x7f7fffffu, 0x3f800000u}; b = sp[g.below(8)]; } if ((b & 0x7f800000u) == 0x7f800000u && (b & 0x7fffff)) b |= 0x400000; float f; memcpy(&f, &b, 4); return f; }
template <class X> static bool same(X a, X b) { return memcmp(&a, &b, sizeof a) == 0; }
// a call that may end the process by itself
template <class F> static int in_child(F f)
{
    fflush(0);
    pid_t p = fork();
    if (p == 0) { signal(SIGABRT, SIG_DFL); int d = open("/dev/null", O_WRONLY); dup2(d, 2); int r = f(); _exit(r < 0 ? 101 : r == 0 ? 0 : 102); }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
// silence stderr of the code under test (kept for sanitizer reports: duplicated first)
struct QuietErr { int o; QuietErr() { fflush(stderr); o = dup(2); int d = open("/dev/null", O_WRONLY); dup2(d, 2); close(d); } ~QuietErr() { fflush(stderr); dup2(o, 2); close(o); } };
// files the code under test leaves open after an error would use up the descriptors
static void close_leaked() { static int base = -1; if (base < 0) { base = dup(0); if (base < 0) base = 3; close(base); } for (int d = base; d < base + 200; d++) close(d); }
#endif
