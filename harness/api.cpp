#include "common.h"
#include "fft2d.h"
#include "fft3d.h"
#include "remap2d.h"
#include "remap3d.h"
#include "fft2d_wrap.h"
#include "fft3d_wrap.h"
#include "remap2d_wrap.h"
#include "remap3d_wrap.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
using namespace FFTMPI_NS;
using fm::LibScope;

#define B3(b) b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]
#define B2(b) b.lo[0], b.hi[0], b.lo[1], b.hi[1]
#define F3(b) b.lo[0] + 1, b.hi[0] + 1, b.lo[1] + 1, b.hi[1] + 1, b.lo[2] + 1, b.hi[2] + 1
#define F2(b) b.lo[0] + 1, b.hi[0] + 1, b.lo[1] + 1, b.hi[1] + 1
#define EQ(s) (!strcmp(kw, s))

[[noreturn]] static void badkw(const char *k) { fprintf(stderr, "harness: unknown keyword %s\n", k); _Exit(97); }

template <class T> static void do_setup(T *p, int dim, const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r);
static void call_setup(FFT3d *p, const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r) { p->setup(n[0], n[1], n[2], B3(a), B3(b), perm, f, s, r); }
static void call_setup(FFT2d *p, const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r) { p->setup(n[0], n[1], B2(a), B2(b), perm, f, s, r); }
static void call_tune(FFT3d *p, const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r, int fl, int ni, double tm, int tf) { p->tune(n[0], n[1], n[2], B3(a), B3(b), perm, f, s, r, fl, ni, tm, tf); }
static void call_tune(FFT2d *p, const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r, int fl, int ni, double tm, int tf) { p->tune(n[0], n[1], B2(a), B2(b), perm, f, s, r, fl, ni, tm, tf); }
static int np_get(FFT3d *p, const char *kw)
{
#define G(x) if (EQ(#x)) return p->x;
  G(npfast1) G(npfast2) G(npfast3) G(npmid1) G(npmid2) G(npmid3) G(npslow1) G(npslow2) G(npslow3) G(npbrick1) G(npbrick2) G(npbrick3)
  badkw(kw);
}
static int np_get(FFT2d *p, const char *kw)
{
  G(npfast1) G(npfast2) G(npslow1) G(npslow2) G(npbrick1) G(npbrick2)
  badkw(kw);
}
static double *t4(FFT3d *p) { return p->tremap4; }
static double *t4(FFT2d *) { return nullptr; }

template <class T> struct CxxFft : FftApi {
  T *p = nullptr;
  void create(MPI_Comm c, int prec) override { LibScope l; p = new T(c, prec); }
  void destroy() override { LibScope l; delete p; p = nullptr; }
  void set(const char *kw, int v) override
  {
    if (EQ("collective")) p->collective = v; else if (EQ("exchange")) p->exchange = v; else if (EQ("pack")) p->packflag = v;
    else if (EQ("memory")) p->memoryflag = v; else if (EQ("scale")) p->scaled = v; else if (EQ("remaponly")) p->remaponly = v; else badkw(kw);
  }
  void setup(const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r) override { LibScope l; call_setup(p, n, a, b, perm, f, s, r); }
  void setup_memory(S *a, S *b) override { LibScope l; p->setup_memory(a, b); }
  void compute(S *a, S *b, int f) override { LibScope l; p->compute(a, b, f); }
  void only_1d(S *a, int f) override { LibScope l; p->only_1d_ffts(a, f); }
  void only_remaps(S *a, S *b, int f) override { LibScope l; p->only_remaps(a, b, f); }
  void only_one(S *a, S *b, int f, int w) override { LibScope l; p->only_one_remap(a, b, f, w); }
  void tune(const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r, int fl, int ni, double tm, int tf) override { LibScope l; call_tune(p, n, a, b, perm, f, s, r, fl, ni, tm, tf); }
  int geti(const char *kw) override
  {
    if (EQ("collective")) return p->collective;
    if (EQ("exchange")) return p->exchange;
    if (EQ("pack")) return p->packflag;
    G(ntrial) G(npertrial) G(cbest) G(ebest) G(pbest) G(permute)
    return np_get(p, kw);
  }
  double getd(const char *kw) override { G(setuptime) G(besttime) badkw(kw); }
  int64_t geti64(const char *kw) override { G(memusage) badkw(kw); }
  std::string gets(const char *kw) override { if (EQ("fft1d")) return p->fft1d; if (EQ("precision")) return p->precision; badkw(kw); }
  std::vector<int> getiv(const char *kw) override
  {
    int *v = EQ("cflags") ? p->cflags : EQ("eflags") ? p->eflags : EQ("pflags") ? p->pflags : nullptr;
    if (!v) badkw(kw);
    int n = p->ntrial < 0 ? 0 : p->ntrial > 10 ? 10 : p->ntrial;
    return std::vector<int>(v, v + n);
  }
  std::vector<double> getdv(const char *kw) override
  {
    double *v = EQ("tfft") ? p->tfft : EQ("t1d") ? p->t1d : EQ("tremap") ? p->tremap : EQ("tremap1") ? p->tremap1 : EQ("tremap2") ? p->tremap2 : EQ("tremap3") ? p->tremap3 : EQ("tremap4") ? t4(p) : nullptr;
    if (!v) badkw(kw);
    int n = p->ntrial < 0 ? 0 : p->ntrial > 10 ? 10 : p->ntrial;
    return std::vector<double>(v, v + n);
  }
};

// C interface and the Fortran entry points behind the Fortran module share the
// accessors; which creation / setup / tune entry is used differs.
extern "C" {
// Fortran shim (fshim.f90): every call goes through the library's Fortran modules
#ifdef HAVE_FSHIM
#define FS(x) x
void fs3_create(int, int, void **); void fs3_destroy(void *); void fs3_set(void *, const char *, int);
void fs3_setup(void *, const int *, const int *, const int *, int, int *, int *, int *); void fs3_setup_memory(void *, void *, void *);
void fs3_compute(void *, void *, void *, int); void fs3_only_1d(void *, void *, int); void fs3_only_remaps(void *, void *, void *, int); void fs3_only_one(void *, void *, void *, int, int);
void fs3_tune(void *, const int *, const int *, const int *, int, int *, int *, int *, int, int, double, int);
int fs3_geti(void *, const char *); double fs3_getd(void *, const char *); int64_t fs3_geti64(void *, const char *);
void *fs3_gets(void *, const char *, int *); void *fs3_getiv(void *, const char *, int *); void *fs3_getdv(void *, const char *, int *);
void fs2_create(int, int, void **); void fs2_destroy(void *); void fs2_set(void *, const char *, int);
void fs2_setup(void *, const int *, const int *, const int *, int, int *, int *, int *); void fs2_setup_memory(void *, void *, void *);
void fs2_compute(void *, void *, void *, int); void fs2_only_1d(void *, void *, int); void fs2_only_remaps(void *, void *, void *, int); void fs2_only_one(void *, void *, void *, int, int);
void fs2_tune(void *, const int *, const int *, const int *, int, int *, int *, int *, int, int, double, int);
int fs2_geti(void *, const char *); double fs2_getd(void *, const char *); int64_t fs2_geti64(void *, const char *);
void *fs2_gets(void *, const char *, int *); void *fs2_getiv(void *, const char *, int *); void *fs2_getdv(void *, const char *, int *);
void fsr3_create(int, void **); void fsr3_destroy(void *); void fsr3_set(void *, const char *, int); void fsr3_setup(void *, const int *, const int *, int, int, int, int *, int *); void fsr3_remap(void *, void *, void *, void *, void *);
void fsr2_create(int, void **); void fsr2_destroy(void *); void fsr2_set(void *, const char *, int); void fsr2_setup(void *, const int *, const int *, int, int, int, int *, int *); void fsr2_remap(void *, void *, void *, void *, void *);
#endif
}

#define CFFT(NAME, D, NARGS, BX)                                                                                     \
  struct NAME : FftApi {                                                                                            \
    void *p = nullptr;                                                                                              \
    void create(MPI_Comm c, int prec) override { LibScope l; fft##D##d_create(c, prec, &p); }                        \
    void destroy() override { LibScope l; fft##D##d_destroy(p); p = nullptr; }                                       \
    void set(const char *kw, int v) override { LibScope l; fft##D##d_set(p, kw, v); }                                \
    void setup(const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r) override { LibScope l; fft##D##d_setup(p, NARGS, BX(a), BX(b), perm, &f, &s, &r); } \
    void setup_memory(S *a, S *b) override { LibScope l; fft##D##d_setup_memory(p, a, b); }                          \
    void compute(S *a, S *b, int f) override { LibScope l; fft##D##d_compute(p, a, b, f); }                          \
    void only_1d(S *a, int f) override { LibScope l; fft##D##d_only_1d_ffts(p, a, f); }                              \
    void only_remaps(S *a, S *b, int f) override { LibScope l; fft##D##d_only_remaps(p, a, b, f); }                  \
    void only_one(S *a, S *b, int f, int w) override { LibScope l; fft##D##d_only_one_remap(p, a, b, f, w); }        \
    void tune(const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r, int fl, int ni, double tm, int tf) override { LibScope l; fft##D##d_tune(p, NARGS, BX(a), BX(b), perm, &f, &s, &r, fl, ni, tm, tf); } \
    int geti(const char *kw) override { LibScope l; return fft##D##d_get_int(p, kw); }                               \
    double getd(const char *kw) override { LibScope l; return fft##D##d_get_double(p, kw); }                         \
    int64_t geti64(const char *kw) override { LibScope l; return fft##D##d_get_int64(p, kw); }                       \
    std::string gets(const char *kw) override { int n = -1; char *s = fft##D##d_get_string(p, kw, &n); if (!s || n < 0) return "<none>"; return std::string(s, n); } \
    std::vector<int> getiv(const char *kw) override { int n = -1; int *v = fft##D##d_get_int_vector(p, kw, &n); if (!v || n < 0) return std::vector<int>(1, -12345); return std::vector<int>(v, v + n); } \
    std::vector<double> getdv(const char *kw) override { int n = -1; double *v = fft##D##d_get_double_vector(p, kw, &n); if (!v || n < 0) return std::vector<double>(1, -12345); return std::vector<double>(v, v + n); } \
  };
#define N3ARGS n[0], n[1], n[2]
#define N2ARGS n[0], n[1]
CFFT(CFft3, 3, N3ARGS, B3)
CFFT(CFft2, 2, N2ARGS, B2)

#ifdef HAVE_FSHIM
static void b6(const Box &b, int *v) { for (int d = 0; d < 3; d++) { v[2 * d] = b.lo[d] + 1; v[2 * d + 1] = b.hi[d] + 1; } }
#define FFFT(NAME, D)                                                                                               \
  struct NAME : FftApi {                                                                                            \
    void *p = nullptr;                                                                                              \
    void create(MPI_Comm c, int prec) override { int fc = (int)MPI_Comm_c2f(c); LibScope l; fs##D##_create(fc, prec, &p); } \
    void destroy() override { LibScope l; fs##D##_destroy(p); p = nullptr; }                                         \
    void set(const char *kw, int v) override { LibScope l; fs##D##_set(p, kw, v); }                                  \
    void setup(const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r) override { int x[6], y[6]; b6(a, x); b6(b, y); LibScope l; fs##D##_setup(p, n, x, y, perm, &f, &s, &r); } \
    void setup_memory(S *a, S *b) override { LibScope l; fs##D##_setup_memory(p, a, b); }                            \
    void compute(S *a, S *b, int f) override { LibScope l; fs##D##_compute(p, a, b, f); }                            \
    void only_1d(S *a, int f) override { LibScope l; fs##D##_only_1d(p, a, f); }                                     \
    void only_remaps(S *a, S *b, int f) override { LibScope l; fs##D##_only_remaps(p, a, b, f); }                    \
    void only_one(S *a, S *b, int f, int w) override { LibScope l; fs##D##_only_one(p, a, b, f, w); }                \
    void tune(const int *n, const Box &a, const Box &b, int perm, int &f, int &s, int &r, int fl, int ni, double tm, int tf) override { int x[6], y[6]; b6(a, x); b6(b, y); LibScope l; fs##D##_tune(p, n, x, y, perm, &f, &s, &r, fl, ni, tm, tf); } \
    int geti(const char *kw) override { LibScope l; return fs##D##_geti(p, kw); }                                    \
    double getd(const char *kw) override { LibScope l; return fs##D##_getd(p, kw); }                                 \
    int64_t geti64(const char *kw) override { LibScope l; return fs##D##_geti64(p, kw); }                            \
    std::string gets(const char *kw) override { int n = -1; char *s = (char *)fs##D##_gets(p, kw, &n); if (!s || n < 0) return "<none>"; return std::string(s, n); } \
    std::vector<int> getiv(const char *kw) override { int n = -1; int *v = (int *)fs##D##_getiv(p, kw, &n); if (!v || n < 0) return std::vector<int>(1, -12345); return std::vector<int>(v, v + n); } \
    std::vector<double> getdv(const char *kw) override { int n = -1; double *v = (double *)fs##D##_getdv(p, kw, &n); if (!v || n < 0) return std::vector<double>(1, -12345); return std::vector<double>(v, v + n); } \
  };
FFFT(FFft3, 3)
FFFT(FFft2, 2)
#define FREM(NAME, D)                                                                                               \
  struct NAME : RemapApi {                                                                                          \
    void *p = nullptr;                                                                                              \
    void create(MPI_Comm c) override { int fc = (int)MPI_Comm_c2f(c); LibScope l; fsr##D##_create(fc, &p); }         \
    void destroy() override { LibScope l; fsr##D##_destroy(p); p = nullptr; }                                        \
    void set(const char *kw, int v) override { LibScope l; fsr##D##_set(p, kw, v); }                                 \
    void setup(const Box &a, const Box &b, int q, int perm, int mem, int &s, int &r) override { int x[6], y[6]; b6(a, x); b6(b, y); LibScope l; fsr##D##_setup(p, x, y, q, perm, mem, &s, &r); } \
    void remap(S *a, S *b, S *c, S *d) override { LibScope l; fsr##D##_remap(p, a, b, c, d); }                       \
    int64_t memusage() override { return -1; }                                                                      \
  };
FREM(FRemap3, 3)
FREM(FRemap2, 2)
#endif

static void rsetup(Remap3d *p, const Box &a, const Box &b, int q, int perm, int mem, int &s, int &r) { p->setup(B3(a), B3(b), q, perm, mem, s, r); }
static void rsetup(Remap2d *p, const Box &a, const Box &b, int q, int perm, int mem, int &s, int &r) { p->setup(B2(a), B2(b), q, perm, mem, s, r); }
template <class T> struct CxxRemap : RemapApi {
  T *p = nullptr;
  void create(MPI_Comm c) override { LibScope l; p = new T(c); }
  void destroy() override { LibScope l; delete p; p = nullptr; }
  void set(const char *kw, int v) override { if (EQ("collective")) p->collective = v; else if (EQ("pack")) p->packflag = v; else badkw(kw); }
  void setup(const Box &a, const Box &b, int q, int perm, int mem, int &s, int &r) override { LibScope l; rsetup(p, a, b, q, perm, mem, s, r); }
  void remap(S *a, S *b, S *c, S *d) override { LibScope l; p->remap(a, b, c, d); }
  int64_t memusage() override { return p->memusage; }
};
#define CREM(NAME, D, BX)                                                                                           \
  struct NAME : RemapApi {                                                                                          \
    void *p = nullptr;                                                                                              \
    void create(MPI_Comm c) override { LibScope l; remap##D##d_create(c, &p); }                                      \
    void destroy() override { LibScope l; remap##D##d_destroy(p); p = nullptr; }                                     \
    void set(const char *kw, int v) override { LibScope l; remap##D##d_set(p, (char *)kw, v); }                      \
    void setup(const Box &a, const Box &b, int q, int perm, int mem, int &s, int &r) override { LibScope l; remap##D##d_setup(p, BX(a), BX(b), q, perm, mem, &s, &r); } \
    void remap(S *a, S *b, S *c, S *d) override { LibScope l; remap##D##d_remap(p, a, b, c, d); }                    \
    int64_t memusage() override { return -1; }                                                                      \
  };
CREM(CRemap3, 3, B3)
CREM(CRemap2, 2, B2)

bool have_fortran()
{
#ifdef HAVE_FSHIM
  return true;
#else
  return false;
#endif
}
FftApi *make_fft(int dim, int iface)
{
  FftApi *a = nullptr;
  if (iface == IF_CXX) { if (dim == 3) a = new CxxFft<FFT3d>; else a = new CxxFft<FFT2d>; }
#ifdef HAVE_FSHIM
  else if (iface == IF_F) { if (dim == 3) a = new FFft3; else a = new FFft2; }
#endif
  else { if (dim == 3) a = new CFft3; else a = new CFft2; }
  a->dim = dim;
  return a;
}
RemapApi *make_remap(int dim, int iface)
{
  RemapApi *a = nullptr;
  if (iface == IF_CXX) { if (dim == 3) a = new CxxRemap<Remap3d>; else a = new CxxRemap<Remap2d>; }
#ifdef HAVE_FSHIM
  else if (iface == IF_F) { if (dim == 3) a = new FRemap3; else a = new FRemap2; }
#endif
  else { if (dim == 3) a = new CRemap3; else a = new CRemap2; }
  a->dim = dim;
  return a;
}

// the 1d transforms of FFTW3 take time (clock mode 7)
#ifdef FFT_FFTW3
extern "C" {
#ifdef FFT_SINGLE
void __real_fftwf_execute_dft(const fftwf_plan, fftwf_complex *, fftwf_complex *);
void __wrap_fftwf_execute_dft(const fftwf_plan p, fftwf_complex *i, fftwf_complex *o) { fm::work(1000); __real_fftwf_execute_dft(p, i, o); }
#else
void __real_fftw_execute_dft(const fftw_plan, fftw_complex *, fftw_complex *);
void __wrap_fftw_execute_dft(const fftw_plan p, fftw_complex *i, fftw_complex *o) { fm::work(1000); __real_fftw_execute_dft(p, i, o); }
#endif
}
#endif
