#include <array>
#include "common.h"
#include <algorithm>
#include <cmath>
#include <stdio.h>

static const int small5[] = {2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 25, 27, 30, 32, 36, 40, 45, 48, 50, 54, 60, 64, 72, 75, 80, 81, 90, 96, 100, 108, 120, 125, 128, 135, 144, 150, 160, 162, 180, 192, 200, 216, 225, 240, 243, 250, 256, 270, 288, 300, 320, 324, 360, 375, 384, 400, 405, 432, 450, 480, 486, 500, 512, 540, 576, 600, 625, 640, 648, 675, 720, 729, 750, 768, 800, 810, 864, 900, 960, 972, 1000, 1024, 1125, 1250, 1280, 1296, 1458, 1500, 1536, 1600, 1620, 1875, 1944, 2000, 2025, 2048, 2187, 2250, 2500, 3125, 4096, 4374, 4500, 4608, 5000, 5120, 5184, 5625, 6000, 6144, 6250, 6400, 6561, 6750, 7500, 7776, 8000, 8192, 9000, 9375, 9600, 10000, 10240, 11250, 12000, 12288, 12500, 13122, 15625, 16384, 18000, 19683, 20000, 24576, 32768, 46875, 65536};
static const int nsmall = (int)(sizeof small5 / sizeof *small5);

static int pick_len(Rng &r, long cap)
{
  int m = 0;
  while (m < nsmall && small5[m] <= cap) m++;
  if (m == 0) return 2;
  return small5[r.below(m)];
}

Grid gen_grid(Rng &r, const GenOpt &o, int dim)
{
  Grid g; g.dim = dim; g.n[2] = 1;
  if (o.maxN >= 1000 && o.lopsided && !o.tiny && r.below(500) == 0) {   // lengths beyond 8, 15 and 16 bits
    static const int lens[] = {8192, 12500, 16384, 20000, 24576, 32768, 39366, 46875, 65536, 78125, 98304};
    for (int d = 0; d < dim; d++) g.n[d] = 2 + (r.below(4) == 0);
    g.n[r.below(dim)] = lens[r.below(11)];
    return g;
  }
  for (int tries = 0;; tries++) {
    int mode = r.below(10);
    double cap = dim == 3 ? std::cbrt((double)o.maxN) : std::sqrt((double)o.maxN);
    if (o.tiny) mode = 0;
    if (mode < 5) for (int d = 0; d < dim; d++) g.n[d] = pick_len(r, (long)(cap * (o.tiny ? 0.8 : 1.3)));
    else if (mode < 8) for (int d = 0; d < dim; d++) g.n[d] = pick_len(r, (long)(cap * 3));
    else {                                    // one long dimension
      for (int d = 0; d < dim; d++) g.n[d] = small5[r.below(4)];
      long rest = 1; int L = r.below(dim);
      for (int d = 0; d < dim; d++) if (d != L) rest *= g.n[d];
      g.n[L] = o.lopsided ? pick_len(r, o.maxN / rest) : pick_len(r, (long)(cap * 3));
    }
    if (g.N() <= o.maxN) return g;
  }
}

int gen_P(Rng &r, const GenOpt &o)
{
  if (o.P) return o.P;
  int c = r.below(100), p;
  if (c < 6) p = 1;
  else if (c < 50) p = r.range(2, 6);
  else if (c < 85) p = r.range(4, 12);
  else p = r.range(7, o.maxP < 7 ? 7 : o.maxP);
  return p > o.maxP ? r.range(1, o.maxP) : p;
}

// an empty tile in one of the many legal spellings (lo = hi+1 in at least one dimension)
static Box empty_box(Rng &r, const Grid &g)
{
  Box b;
  int must = r.below(g.dim);
  for (int d = 0; d < 3; d++) {
    if (d >= g.dim) { b.lo[d] = b.hi[d] = 0; continue; }
    int style = r.below(4);
    if (d == must || style == 0) { b.lo[d] = r.below(3) ? r.range(0, g.n[d] - 1) : (r.below(2) ? 0 : g.n[d]); b.hi[d] = b.lo[d] - 1; }
    else if (style == 1) { b.lo[d] = 0; b.hi[d] = g.n[d] - 1; }
    else { int x = r.range(0, g.n[d] - 1), y = r.range(0, g.n[d] - 1); if (x > y) std::swap(x, y); b.lo[d] = x; b.hi[d] = y; }
  }
  return b;
}

static void shuffle(Rng &r, Tiling &t) { for (int i = (int)t.size() - 1; i > 0; i--) std::swap(t[i], t[r.below(i + 1)]); }

static void factors(Rng &r, int P, int nd, int *f)
{
  for (int d = 0; d < nd; d++) f[d] = 1;
  for (int p = 2; P > 1; p++) while (P % p == 0) { f[r.below(nd)] *= p; P /= p; }
}

// np cuts of 0..n-1; may contain zero-width pieces
static std::vector<int> cuts(Rng &r, int n, int np)
{
  std::vector<int> c(np + 1);
  int style = r.below(5);
  if (style <= 1 || style == 4) {
    for (int i = 0; i <= np; i++) c[i] = (int)((long)i * n / np);
    if (style == 4 && np > 1) { int k = r.range(1, np - 1), v = c[k] + (r.below(2) ? 1 : -1); if (v >= c[k - 1] && v <= c[k + 1]) c[k] = v; }   // nearly even
  } else {
    c[0] = 0; c[np] = n;
    for (int i = 1; i < np; i++) c[i] = r.range(0, n);
    std::sort(c.begin(), c.end());
  }
  return c;
}

static Tiling procgrid(Rng &r, const Grid &g, const int *f)
{
  Tiling t;
  std::vector<int> c[3];
  for (int d = 0; d < 3; d++) c[d] = d < g.dim ? cuts(r, g.n[d], f[d]) : std::vector<int>{0, 1};
  for (int k = 0; k < f[2]; k++) for (int j = 0; j < f[1]; j++) for (int i = 0; i < f[0]; i++) {
    int x[3] = {i, j, k}; Box b;
    for (int d = 0; d < 3; d++) { b.lo[d] = c[d][x[d]]; b.hi[d] = c[d][x[d] + 1] - 1; }
    if (b.size() == 0 && r.below(2)) b = empty_box(r, g);
    t.push_back(b);
  }
  return t;
}

Tiling gen_pencil(Rng &r, const Grid &g, int P, int along)
{
  int f[3] = {1, 1, 1}, o[2], n = 0;
  for (int d = 0; d < g.dim; d++) if (d != along) o[n++] = d;
  int q[2] = {1, 1};
  factors(r, P, n, q);
  for (int i = 0; i < n; i++) f[o[i]] = q[i];
  return procgrid(r, g, f);
}

Tiling gen_slab(Rng &r, const Grid &g, int P, int cut) { int f[3] = {1, 1, 1}; f[cut] = P; return procgrid(r, g, f); }

// the even ip*n/np pencils a library would pick itself, for one of the factorisations of P
Tiling gen_default_pencil(const Grid &g, int P, int along, int variant)
{
  int o[2], n = 0, f[3] = {1, 1, 1};
  for (int d = 0; d < g.dim; d++) if (d != along) o[n++] = d;
  if (n == 1) f[o[0]] = P;
  else {
    std::vector<int> dv; for (int i = 1; i <= P; i++) if (P % i == 0) dv.push_back(i);
    int a = dv[variant % dv.size()];
    f[o[0]] = a; f[o[1]] = P / a;
  }
  Tiling t;
  for (int p = 0; p < P; p++) {
    int x[3] = {p % f[0], (p / f[0]) % f[1], p / (f[0] * f[1])}; Box b;
    for (int d = 0; d < 3; d++) { int nn = d < g.dim ? g.n[d] : 1; b.lo[d] = (int)((long)x[d] * nn / f[d]); b.hi[d] = (int)((long)(x[d] + 1) * nn / f[d]) - 1; }
    t.push_back(b);
  }
  return t;
}

// nice: cuts at halves and thirds, so that blocks of equal size are frequent
static void bisect(Rng &r, const Grid &g, Box b, int P, Tiling &t, bool nice = false)
{
  if (P == 1) { t.push_back(b); return; }
  if (r.below(nice ? 40 : 8) == 0) { t.push_back(empty_box(r, g)); bisect(r, g, b, P - 1, t, nice); return; }
  int d = r.below(g.dim), tries = 0;
  while (b.len(d) < 2 && tries++ < 6) d = r.below(g.dim);
  if (b.len(d) < 2) { t.push_back(b); for (int i = 1; i < P; i++) t.push_back(empty_box(r, g)); return; }
  int left = r.range(1, P - 1), at = r.range(b.lo[d], b.hi[d] - 1);
  if (nice) { int L = b.len(d), c[4] = {L / 2, L / 3, 2 * L / 3, (int)((long)L * left / P)}, v = c[r.below(4)]; if (v < 1) v = 1; if (v > L - 1) v = L - 1; at = b.lo[d] + v - 1; }
  Box x = b, y = b; x.hi[d] = at; y.lo[d] = at + 1;
  bisect(r, g, x, left, t, nice); bisect(r, g, y, P - left, t, nice);
}

Tiling gen_tiling(Rng &r, const Grid &g, int P, std::string *name)
{
  Tiling t; std::string nm;
  int c = r.below(100);
  Box all; for (int d = 0; d < 3; d++) { all.lo[d] = 0; all.hi[d] = g.n[d] - 1; }
  if (c < 26) { int f[3] = {1, 1, 1}; factors(r, P, g.dim, f); t = procgrid(r, g, f); nm = "grid"; }
  else if (c < 42) { bisect(r, g, all, P, t); nm = "bisect"; }
  else if (c < 48) { bisect(r, g, all, P, t, true); nm = "evenbisect"; }
  else if (c < 62) { int a = r.below(g.dim); t = gen_pencil(r, g, P, a); nm = "pencil"; nm += "xyz"[a]; }
  else if (c < 78) { int a = r.below(g.dim); t = gen_default_pencil(g, P, a, r.below(16)); nm = "defpencil"; nm += "xyz"[a]; if (name) *name = nm; return t; }
  else if (c < 90) { t = gen_slab(r, g, P, r.below(g.dim)); nm = "slab"; }
  else if (c < 95) { int at = r.below(P); for (int i = 0; i < P; i++) t.push_back(i == at ? all : empty_box(r, g)); nm = "one"; }
  else {                                        // only a subset of the ranks owns data
    int q = r.range(1, P); int f[3] = {1, 1, 1}; factors(r, q, g.dim, f);
    t = procgrid(r, g, f); while ((int)t.size() < P) t.push_back(empty_box(r, g)); nm = "subset";
  }
  if (r.below(3) == 0) { shuffle(r, t); nm += "~"; }
  if (name) *name = nm;
  return t;
}

// a tiling that differs from t in as few bounds as possible: two neighbours merged (the other one empty), the cut between them moved, or exchanged
Tiling gen_near(Rng &r, const Grid &g, const Tiling &t)
{
  Tiling u = t; std::vector<std::array<int, 3>> nb;
  for (int i = 0; i < (int)t.size(); i++) for (int j = 0; j < (int)t.size(); j++) if (i != j && t[i].size() > 0 && t[j].size() > 0)
    for (int d = 0; d < g.dim; d++) {
      bool ok = t[j].lo[d] == t[i].hi[d] + 1;
      for (int e = 0; e < g.dim; e++) if (e != d && (t[i].lo[e] != t[j].lo[e] || t[i].hi[e] != t[j].hi[e])) ok = false;
      if (ok) nb.push_back({i, j, d});
    }
  if (nb.empty()) { if (t.size() > 1) { int a = r.below((int)t.size()), b = r.below((int)t.size()); std::swap(u[a], u[b]); } return u; }
  auto p = nb[r.below((int)nb.size())]; Box &a = u[p[0]], &b = u[p[1]]; int d = p[2];
  switch (r.below(5)) {
  case 0: case 1: a.hi[d] = b.hi[d]; b.hi[d] = b.lo[d] - 1; break;          // only upper bounds differ
  case 2: case 3: b.lo[d] = a.lo[d]; a.lo[d] = a.hi[d] + 1; break;          // only lower bounds differ
  default:
    if (b.len(d) > 1 && r.below(2)) { a.hi[d]++; b.lo[d]++; } else std::swap(a, b);
  }
  return u;
}

Tiling gen_even_bisect(Rng &r, const Grid &g, int P) { Tiling t; Box all; for (int d = 0; d < 3; d++) { all.lo[d] = 0; all.hi[d] = g.n[d] - 1; } bisect(r, g, all, P, t, true); return t; }

bool tiling_ok(const Grid &g, const Tiling &t)
{
  std::vector<char> c(g.N(), 0);
  for (auto &b : t) for (int k = b.lo[2]; k <= b.hi[2]; k++) for (int j = b.lo[1]; j <= b.hi[1]; j++) for (int i = b.lo[0]; i <= b.hi[0]; i++) {
    if (i < 0 || j < 0 || k < 0 || i >= g.n[0] || j >= g.n[1] || k >= g.n[2]) return false;
    if (c[((long)k * g.n[1] + j) * g.n[0] + i]++) return false;
  }
  for (char x : c) if (!x) return false;
  return true;
}

fm::Options gen_sched(Rng &r, int P)
{
  fm::Options o;
  o.nranks = P; o.seed = r.next(); o.sched = r.below(fm::S_NPOLICY); o.victim = r.below(P);
  int sm = r.below(10); o.sendmode = sm < 3 ? fm::M_EAGER : sm < 6 ? fm::M_RENDEZVOUS : fm::M_MIXED;
  o.loose_coll = r.below(2);
  o.scribble = r.below(4) != 0;
  int d = r.below(4); o.max_delay = d == 0 ? 0 : d == 1 ? 3 : d == 2 ? 30 : 300;
  o.clock_mode = r.below(4);
  if (r.below(4) == 0) o.embed = 1 + r.below(4);
  return o;
}

static std::string tstr(const Tiling &t)
{
  std::string s; char b[96];
  for (auto &x : t) { snprintf(b, sizeof b, "[%d:%d,%d:%d,%d:%d]", x.lo[0], x.hi[0], x.lo[1], x.hi[1], x.lo[2], x.hi[2]); s += b; if (s.size() > 1500) { s += "..."; break; } }
  return s;
}
std::string describe(const Grid &g, const Tiling &in, const Tiling &out, int perm)
{
  char b[96]; snprintf(b, sizeof b, "%dd grid %dx%dx%d P=%d permute=%d in=", g.dim, g.n[0], g.n[1], g.n[2], (int)in.size(), perm);
  return b + tstr(in) + " out=" + tstr(out);
}

S special_value(uint64_t h, S plain)
{
  h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  switch (h % 16) {
  case 0: return (S)-0.0;
  case 1: return (S)__builtin_nan("");
  case 2: return (S)__builtin_inf();
  case 3: return -(S)__builtin_inf();
  case 4: return sizeof(S) == 4 ? (S)1.4e-45 : (S)4.9e-324;
  case 5: return sizeof(S) == 4 ? (S)-3.4028234e38 : (S)-1.7976931348623157e308;
  case 6: return (S)0.0;
  case 7: return sizeof(S) == 4 ? (S)5e-39 : (S)1e-310;
  }
  return plain;
}

std::vector<cd> gen_field(const Grid &g, uint64_t seed, int kind, double mag)
{
  long N = g.N();
  std::vector<cd> v(N);
  Rng r(seed);
  if (kind == FK_IDS) { for (long i = 0; i < N; i++) v[i] = cd((double)(2 * i + 1), -(double)(2 * i + 2)); return v; }
  if (kind == FK_BITS) { for (long i = 0; i < N; i++) { S a = special_value(seed + (uint64_t)(2 * i), (S)(2 * i + 1)), b = special_value(seed + (uint64_t)(2 * i + 1), (S)-(2 * i + 2)); v[i] = cd((double)a, (double)b); } return v; }
  switch (kind) {
  case FK_IMPULSE: { long p = (long)(r.next() % (uint64_t)N); v[p] = cd(mag, -mag * r.uni()); break; }
  case FK_PLANE: {
    int k[3]; for (int d = 0; d < 3; d++) k[d] = r.below(g.n[d]);
    for (long z = 0; z < g.n[2]; z++) for (long y = 0; y < g.n[1]; y++) for (long x = 0; x < g.n[0]; x++) {
      double ph = 2 * M_PI * ((double)((k[0] * x) % g.n[0]) / g.n[0] + (double)((k[1] * y) % g.n[1]) / g.n[1] + (double)((k[2] * z) % g.n[2]) / g.n[2]);
      v[(z * g.n[1] + y) * g.n[0] + x] = cd(mag * cos(ph), mag * sin(ph));
    }
    break;
  }
  case FK_REAL: for (long i = 0; i < N; i++) v[i] = cd(mag * (r.uni() - 0.5), 0); break;
  case FK_SPARSE: for (long i = 0; i < N; i++) v[i] = r.below(10) ? cd(0, 0) : cd(mag * (r.uni() - 0.5), mag * (r.uni() - 0.5)); break;
  case FK_CONST: { cd c(mag, -0.5 * mag); for (long i = 0; i < N; i++) v[i] = c; break; }
  case FK_RANGE: for (long i = 0; i < N; i++) { double e = pow(10.0, -6.0 * r.uni()); v[i] = cd(mag * e * (r.uni() - 0.5), mag * e * (r.uni() - 0.5)); } break;
  default: for (long i = 0; i < N; i++) v[i] = cd(mag * (2 * r.uni() - 1), mag * (2 * r.uni() - 1));
  }
  if (sizeof(S) == 4) for (auto &x : v) x = cd((double)(float)x.real(), (double)(float)x.imag());
  return v;
}
