// Shared declarations of the fftMPI monitoring harness.
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <mpi.h>
#include "fftdata.h"
#include <complex>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include "fakempi.h"

typedef FFT_SCALAR S;
typedef std::complex<double> cd;
typedef std::complex<long double> cld;
using fm::Rng;

struct Box {
  int lo[3], hi[3];
  long len(int d) const { return (long)hi[d] - lo[d] + 1; }
  long size() const { return len(0) * len(1) * len(2); }
};
inline bool operator==(const Box &a, const Box &b) { for (int d = 0; d < 3; d++) if (a.lo[d] != b.lo[d] || a.hi[d] != b.hi[d]) return false; return true; }

struct Grid { int dim; int n[3]; long N() const { return (long)n[0] * n[1] * n[2]; } };
typedef std::vector<Box> Tiling;

// storage position inside a box: permute 0 = (i,j,k), 1 = (j,k,i), 2 = (k,i,j)
inline long pos(const Box &b, int perm, int i, int j, int k)
{
  long x[3] = {i - b.lo[0], j - b.lo[1], k - b.lo[2]}, n[3] = {b.len(0), b.len(1), b.len(2)};
  int a = perm == 0 ? 0 : perm == 1 ? 1 : 2, c = (a + 1) % 3, e = (a + 2) % 3;
  return x[a] + n[a] * (x[c] + n[c] * x[e]);
}

// ---- library access through any of its interfaces
struct FftApi {
  int dim;
  virtual ~FftApi() {}
  virtual void create(MPI_Comm c, int prec) = 0;
  virtual void destroy() = 0;
  virtual void set(const char *kw, int v) = 0;
  virtual void setup(const int *n, const Box &in, const Box &out, int perm, int &f, int &s, int &r) = 0;
  virtual void setup_memory(S *a, S *b) = 0;
  virtual void compute(S *in, S *out, int flag) = 0;
  virtual void only_1d(S *in, int flag) = 0;
  virtual void only_remaps(S *in, S *out, int flag) = 0;
  virtual void only_one(S *in, S *out, int flag, int which) = 0;
  virtual void tune(const int *n, const Box &in, const Box &out, int perm, int &f, int &s, int &r, int flag, int niter, double tmax, int tflag) = 0;
  virtual int geti(const char *kw) = 0;
  virtual double getd(const char *kw) = 0;
  virtual int64_t geti64(const char *kw) = 0;
  virtual std::string gets(const char *kw) = 0;
  virtual std::vector<int> getiv(const char *kw) = 0;
  virtual std::vector<double> getdv(const char *kw) = 0;
};
struct RemapApi {
  int dim;
  virtual ~RemapApi() {}
  virtual void create(MPI_Comm c) = 0;
  virtual void destroy() = 0;
  virtual void set(const char *kw, int v) = 0;
  virtual void setup(const Box &in, const Box &out, int nqty, int perm, int mem, int &s, int &r) = 0;
  virtual void remap(S *in, S *out, S *sb, S *rb) = 0;
  virtual int64_t memusage() = 0;            // -1 when the interface does not offer it
};
enum { IF_CXX = 0, IF_C = 1, IF_F = 2 };
FftApi *make_fft(int dim, int iface);
RemapApi *make_remap(int dim, int iface);
bool have_fortran();

// ---- oracle
void oracle_dft(const Grid &g, const std::vector<cd> &in, int sign, std::vector<cld> &out);
void oracle_dft_lines(std::vector<cld> &a, size_t begin, size_t count, int n, int sign);

// ---- generators
struct GenOpt { long maxN = 4096; int maxP = 12; int dim = 0; int P = 0; bool lopsided = true; bool tiny = false; };
Grid gen_grid(Rng &r, const GenOpt &o, int dim);
int gen_P(Rng &r, const GenOpt &o);
Tiling gen_tiling(Rng &r, const Grid &g, int P, std::string *name = nullptr);
Tiling gen_pencil(Rng &r, const Grid &g, int P, int along);
Tiling gen_slab(Rng &r, const Grid &g, int P, int cut);
Tiling gen_default_pencil(const Grid &g, int P, int along, int variant);
Tiling gen_near(Rng &r, const Grid &g, const Tiling &t);
Tiling gen_even_bisect(Rng &r, const Grid &g, int P);
bool tiling_ok(const Grid &g, const Tiling &t);
fm::Options gen_sched(Rng &r, int P);
std::string describe(const Grid &g, const Tiling &in, const Tiling &out, int perm);
std::vector<cd> gen_field(const Grid &g, uint64_t seed, int kind, double mag);
enum { FK_RANDOM, FK_IMPULSE, FK_PLANE, FK_REAL, FK_SPARSE, FK_CONST, FK_RANGE, FK_NPHYS, FK_IDS = 100, FK_BITS = 101 };
S special_value(uint64_t h, S plain);           // a value that only survives a bit-exact move
#endif
