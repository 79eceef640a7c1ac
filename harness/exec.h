// Rank-side execution of workloads with their monitors.
#ifndef VH_EXEC_H
#define VH_EXEC_H
#include "common.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <math.h>
#include <map>
#include <memory>
#include <set>

inline std::string sfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string sfmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline void fail(const char *kind, const std::string &d) { fm::violation(kind, d); }

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t hbytes_(uint64_t h, const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; return h; }

static const S CANARY = (S)-7.25e17;
static const S SNAN_ = (S)__builtin_nan("");

// caller-owned array of exactly n scalars
struct Buf {
  S *base = nullptr, *p = nullptr; long n = 0; int guard = 0;
  // mode 0: exact heap block (redzones by the sanitizer), 1: guard words around it; shift: scalars of misalignment
  void alloc(long nn, int mode, int shift)
  {
    n = nn < 0 ? 0 : nn; guard = mode ? 24 : 0;
    if (n == 0 && !mode && shift == 2) { base = p = nullptr; return; }
    size_t lead = guard + (shift & 1);
    base = (S *)malloc(((size_t)n + lead + guard) * sizeof(S) + (n + lead + guard == 0));
    p = base + lead;
    for (size_t i = 0; i < lead; i++) base[i] = CANARY;
    for (int i = 0; i < guard; i++) p[n + i] = CANARY;
    nanfill(0);
    fm::user_buffer_add(base);
  }
  void nanfill(long from) { for (long i = from; i < n; i++) p[i] = SNAN_; }
  void zero() { for (long i = 0; i < n; i++) p[i] = 0; }
  bool intact() const
  {
    for (S *q = base; q < p; q++) if (*q != CANARY) return false;
    for (int i = 0; i < guard; i++) if (p[n + i] != CANARY) return false;
    return true;
  }
  void release(const char *what)
  {
    if (!base) { p = nullptr; return; }
    if (!intact()) fail("canary", std::string("memory outside the ") + what + " array was written");
    fm::user_buffer_del(base);
    free(base); base = p = nullptr; n = 0;
  }
};

enum OpKind { K_COMPUTE, K_ROUNDTRIP, K_RONLY, K_REMAPS, K_ONE, K_1D, K_SETPOST, K_REPEAT, K_REMEM };
struct Op {
  int kind = K_COMPUTE, dir = 1; bool oop = false; int scaled = 1;
  int fk = FK_RANDOM; double mag = 1; uint64_t fseed = 1;
  const char *kw = ""; int val = 0;            // K_SETPOST
  // filled in by prepare()
  std::vector<cd> field; std::vector<cld> want; long double nrm = 0;
};

struct Session {
  Grid g; int P = 1; Tiling in, out; int perm = 0;
  int coll = 2, exch = 0, pack = 2, mem = 1, iface = IF_CXX;
  uint64_t setmode = 0;                        // order, repetition and omission of the setting calls
  bool explicit_set = true;                    // set all settings explicitly (else leave the defaults)
  bool tune = false; int tflag_dir = 0, niter = 1, ttime = 0; double tmax = 0;
  int bufmode = 0, shift = 0;
  std::vector<Op> ops;
  bool stage_check = true; int exch_used = 0;  // exchange setting in force after setup/tune
  std::string tname;
  bool same() const { if (perm) return false; for (int i = 0; i < P; i++) if (!(in[i] == out[i])) return false; return true; }
  // observations, one slot per rank
  struct Obs { int fft = -1, send = -1, recv = -1; uint64_t hash = 0; int64_t memusage = -1, tables = 0, heap = 0; std::map<std::string, std::vector<double>> v; std::map<std::string, std::string> s; };
  std::vector<Obs> obs;
  std::vector<std::vector<long>> stage;        // ids seen per rank for stage conservation
  void prepare();
  std::string text() const;
  uint64_t sig() const;
};

struct MonCount { uint64_t values = 0, ops = 0, exact = 0; };
extern MonCount mon;
extern double tolC;                            // rounding-error constant
extern double worst_ratio;                     // largest observed err/tol

// per-rank live FFT object
struct Obj {
  Session &s; int me; MPI_Comm comm; FftApi *a = nullptr; Buf sb, rb; int fft = 0, send = 0, recv = 0; bool memgiven = false; int curscale = 1, curronly = 0;
  std::vector<fm::Traffic> *steps = nullptr;   // where the traffic of remap steps is recorded
  Obj(Session &ss, int m, MPI_Comm c) : s(ss), me(m), comm(c) {}
  void create(bool settings = true);
  void setup();
  void give_memory();
  void op(const Op &o);
  void destroy();
  void check_sizes();
  void query();
private:
  void load(S *p, const Box &b, int perm, const std::vector<cd> &f);
  void check(const S *p, const Box &b, int perm, const Op &o, long double scale, long double tolscale, const char *what);
  void check_exact(const S *p, const Box &b, int perm, const std::vector<cd> &f, const char *what);
  void one_chain(const Op &o, long *counts = nullptr);
};
void run_session(Session &s, int me, MPI_Comm comm);
#endif
