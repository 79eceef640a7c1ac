// Stand-ins for the two 1d FFT packages that are not installed here, so that the code written for them can be run
// and watched.  They compute transforms by the definition (recursively for composite lengths), check their arguments,
// and are compiled with the sanitizers, so that a wrong count, length, distance or a released plan is seen.
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <vector>
#include <complex>
#include "fakempi.h"

#ifdef FFT_SINGLE
typedef float R;
#else
typedef double R;
#endif
typedef std::complex<double> cd;

static void refuse(const char *what) { fm::violation("mpi-usage", std::string("1d FFT package: ") + what); }

static void rec(const cd *a, long st, int n, int sign, cd *out, int N, const cd *w)
{
  if (n == 1) { out[0] = a[0]; return; }
  int p = 2; while (n % p) p++;
  int m = n / p, step = N / n;
  std::vector<cd> sub(n);
  for (int q = 0; q < p; q++) rec(a + q * st, st * p, m, sign, &sub[(size_t)q * m], N, w);
  for (int k = 0; k < m; k++) for (int j = 0; j < p; j++) {
    cd s = 0;
    for (int q = 0; q < p; q++) { cd t = w[(size_t)((long)q * (k + (long)j * m) % n * step)]; s += sub[(size_t)q * m + k] * (sign < 0 ? t : std::conj(t)); }
    out[(size_t)j * m + k] = s;
  }
}

static void lines(R *d, long howmany, int n, long stride, long dist, int sign, const std::vector<cd> &w)
{
  std::vector<cd> a(n), b(n);
  fm::work(1000 + 10 * (uint64_t)(howmany > 0 ? howmany : 0) * (uint64_t)n);
  for (long l = 0; l < howmany; l++) {
    R *p = d + 2 * l * dist;
    for (int i = 0; i < n; i++) a[i] = cd(p[2 * i * stride], p[2 * i * stride + 1]);
    rec(a.data(), 1, n, sign, b.data(), n, w.data());
    for (int i = 0; i < n; i++) { p[2 * i * stride] = (R)b[i].real(); p[2 * i * stride + 1] = (R)b[i].imag(); }
  }
}

static std::vector<cd> roots(int n) { std::vector<cd> w(n); for (int i = 0; i < n; i++) { long double t = -2 * acosl(-1.0L) * i / n; w[i] = cd((double)cosl(t), (double)sinl(t)); } return w; }

#if defined(FFT_FFTW2)
#include "fftw.h"
struct standin_plan { int magic, n, sign, flags; std::vector<cd> w; };
extern "C" {
fftw_plan fftw_create_plan(int n, fftw_direction dir, int flags)
{
  if (n < 1) { refuse("plan of length < 1"); return nullptr; }
  standin_plan *p = new standin_plan; p->magic = 0x2222; p->n = n; p->sign = dir; p->flags = flags; return p;
}
void fftw_destroy_plan(fftw_plan p) { if (p->magic != 0x2222) { refuse("destroying something that is not a plan"); return; } p->magic = 0; delete p; }
void fftw(fftw_plan p, int howmany, fftw_complex *in, int istride, int idist, fftw_complex *out, int ostride, int odist)
{
  if (p->magic != 0x2222) { refuse("executing something that is not a plan"); return; }
  if (p->w.empty()) p->w = roots(p->n);
  if (!(p->flags & FFTW_IN_PLACE)) {
    if (!out || out == in) { refuse("out-of-place plan used in place"); return; }
    for (int l = 0; l < howmany; l++) for (int i = 0; i < p->n; i++) out[(long)l * odist + (long)i * ostride] = in[(long)l * idist + (long)i * istride];
    lines((R *)out, howmany, p->n, ostride, odist, p->sign, p->w); return;
  }
  lines((R *)in, howmany, p->n, istride, idist, p->sign, p->w);
}
void fftw_one(fftw_plan p, fftw_complex *in, fftw_complex *out) { fftw(p, 1, in, 1, p->n, out, 1, p->n); }
}
#endif

#if defined(FFT_MKL)
#include "mkl_dfti.h"
struct DFTI_DESCRIPTOR { int magic, n; bool single, committed; long howmany; int place; long idist, odist; double fs, bs; std::vector<cd> w; };
static bool good(DFTI_DESCRIPTOR_HANDLE h) { if (!h || h->magic != 0x3333) { refuse("invalid descriptor"); return false; } return true; }
extern "C" {
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *h, enum DFTI_CONFIG_VALUE prec, enum DFTI_CONFIG_VALUE dom, MKL_LONG dim, ...)
{
  va_list ap; va_start(ap, dim); MKL_LONG n = va_arg(ap, MKL_LONG); va_end(ap);
  if (dim != 1 || dom != DFTI_COMPLEX || (prec != DFTI_SINGLE && prec != DFTI_DOUBLE) || n < 1) { *h = nullptr; refuse("DftiCreateDescriptor arguments"); return 3; }
  DFTI_DESCRIPTOR *d = new DFTI_DESCRIPTOR; d->magic = 0x3333; d->n = (int)n; d->single = prec == DFTI_SINGLE; d->committed = false; d->howmany = 1; d->place = DFTI_INPLACE; d->idist = d->odist = 0; d->fs = d->bs = 1;
  *h = d; return 0;
}
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE h, enum DFTI_CONFIG_PARAM p, ...)
{
  if (!good(h)) return 5;
  va_list ap; va_start(ap, p); h->committed = false; MKL_LONG rc = 0;
  switch (p) {
  case DFTI_NUMBER_OF_TRANSFORMS: h->howmany = va_arg(ap, MKL_LONG); break;
  case DFTI_PLACEMENT: h->place = va_arg(ap, int); break;
  case DFTI_INPUT_DISTANCE: h->idist = va_arg(ap, MKL_LONG); break;
  case DFTI_OUTPUT_DISTANCE: h->odist = va_arg(ap, MKL_LONG); break;
  case DFTI_FORWARD_SCALE: h->fs = va_arg(ap, double); break;
  case DFTI_BACKWARD_SCALE: h->bs = va_arg(ap, double); break;
  default: refuse("unknown configuration parameter"); rc = 3;
  }
  va_end(ap); return rc;
}
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE h)
{
  if (!good(h)) return 5;
  if (h->howmany < 0 || (h->howmany > 1 && (h->idist < 1 || h->odist < 1))) return 3;
  h->committed = true; return 0;
}
static MKL_LONG run(DFTI_DESCRIPTOR_HANDLE h, void *d, int sign)
{
  if (!good(h)) return 5;
  if (!h->committed) { refuse("transform without a committed descriptor"); return 5; }
  if (h->single != (sizeof(R) == 4)) { refuse("descriptor of the wrong precision"); return 3; }
  if (h->place != DFTI_INPLACE) { refuse("in-place transform with an out-of-place descriptor"); return 3; }
  if (h->howmany > 1 && h->idist != h->odist) { refuse("in-place transform with different distances"); return 3; }
  if (h->w.empty()) h->w = roots(h->n);
  lines((R *)d, h->howmany, h->n, 1, h->idist, sign, h->w);
  double s = sign < 0 ? h->fs : h->bs;
  if (s != 1) for (long l = 0; l < h->howmany; l++) for (long i = 0; i < 2 * h->n; i++) ((R *)d)[2 * l * h->idist + i] *= (R)s;
  return 0;
}
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void *d, ...) { return run(h, d, -1); }
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void *d, ...) { return run(h, d, 1); }
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *h) { if (!good(*h)) return 5; (*h)->magic = 0; delete *h; *h = nullptr; return 0; }
long DftiErrorClass(MKL_LONG s, MKL_LONG c) { return s == c; }
char *DftiErrorMessage(MKL_LONG) { static char m[] = "error"; return m; }
}
#endif
