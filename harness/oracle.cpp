// Reference transform in long double. Short lines are evaluated directly from the definition. Long lines use a
// textbook mixed-radix recursion whose output is spot-checked against the definition on every line.
#include "common.h"
#include <cmath>
#include <map>
#include <stdio.h>
#include <stdlib.h>

static const std::vector<cld> &roots(int n)
{
  static std::map<int, std::vector<cld>> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  std::vector<cld> w(n);
  const long double pi2 = 2.0L * acosl(-1.0L);
  for (int i = 0; i < n; i++) w[i] = cld(cosl(pi2 * i / n), sinl(pi2 * i / n));
  return cache[n] = w;
}

// out[0..n) = transform of in[0], in[st], ..., in[(n-1)*st]; w = roots of unity of the whole line, step = whole/n
static void rec(const cld *in, long st, int n, int whole, int sign, const std::vector<cld> &w, cld *out)
{
  if (n == 1) { out[0] = in[0]; return; }
  int p = n % 2 == 0 ? 2 : n % 3 == 0 ? 3 : n % 5 == 0 ? 5 : n, m = n / p; long step = whole / n;
  for (int q = 0; q < p; q++) rec(in + q * st, st * p, m, whole, sign, w, out + (long)q * m);
  std::vector<cld> t(p);
  for (int k = 0; k < m; k++) {
    for (int q = 0; q < p; q++) t[q] = out[(long)q * m + k];
    for (int j = 0; j < p; j++) {
      long double re = 0, im = 0;
      for (int q = 0; q < p; q++) {
        const cld &r = w[(size_t)((long)q * (k + (long)j * m) % n * step)];
        long double c = r.real(), s = sign > 0 ? -r.imag() : r.imag();
        re += t[q].real() * c - t[q].imag() * s; im += t[q].real() * s + t[q].imag() * c;
      }
      out[(long)j * m + k] = cld(re, im);
    }
  }
}

static long double unit()                       // what long double arithmetic really gives (valgrind computes it in double)
{
  static long double u = 0;
  if (u == 0) { volatile long double x = 1, one = 1, y; for (;;) { y = one + x / 2; if (y == one) break; x = x / 2; } u = x; }
  return u;
}

static void longline(cld *a, int n, long stride, int sign, std::vector<cld> &tmp)
{
  const std::vector<cld> &w = roots(n);
  static unsigned pick = 12345;
  std::vector<cld> in(n); long double nrm = 0;
  for (int x = 0; x < n; x++) { in[x] = a[x * stride]; nrm += std::abs(in[x]); }
  tmp.resize(n);
  rec(in.data(), 1, n, n, sign, w, tmp.data());
  pick = pick * 1664525u + 1013904223u;
  int k = (int)((pick >> 8) % (unsigned)n); long double re = 0, im = 0; long t = 0;
  for (int x = 0; x < n; x++) {
    long double c = w[t].real(), s = sign > 0 ? -w[t].imag() : w[t].imag();
    re += in[x].real() * c - in[x].imag() * s; im += in[x].real() * s + in[x].imag() * c;
    t += k; if (t >= n) t -= n;
  }
  if (!(std::abs(tmp[k] - cld(re, im)) <= 1000 * unit() * nrm)) { fprintf(stderr, "harness: reference transform of length %d disagrees with the definition\n", n); _Exit(98); }
  for (int q = 0; q < n; q++) a[q * stride] = tmp[q];
}

// transform `n` values with the given stride
static void line(cld *a, int n, long stride, int sign, std::vector<cld> &tmp)
{
  if (n > 24) { longline(a, n, stride, sign, tmp); return; }
  const std::vector<cld> &w = roots(n);
  tmp.resize(n);
  for (int k = 0; k < n; k++) {
    long double re = 0, im = 0;
    int t = 0;
    for (int x = 0; x < n; x++) {
      const cld v = a[x * stride];
      long double c = w[t].real(), s = sign > 0 ? -w[t].imag() : w[t].imag();
      re += v.real() * c - v.imag() * s;
      im += v.real() * s + v.imag() * c;
      t += k; if (t >= n) t -= n;
    }
    tmp[k] = cld(re, im);
  }
  for (int k = 0; k < n; k++) a[k * stride] = tmp[k];
}

void oracle_dft(const Grid &g, const std::vector<cd> &in, int sign, std::vector<cld> &out)
{
  out.assign(in.begin(), in.end());
  std::vector<cld> tmp;
  long n0 = g.n[0], n1 = g.n[1], n2 = g.n[2];
  for (long k = 0; k < n2; k++) for (long j = 0; j < n1; j++) line(&out[(k * n1 + j) * n0], (int)n0, 1, sign, tmp);
  for (long k = 0; k < n2; k++) for (long i = 0; i < n0; i++) line(&out[k * n1 * n0 + i], (int)n1, n0, sign, tmp);
  if (n2 > 1) for (long j = 0; j < n1; j++) for (long i = 0; i < n0; i++) line(&out[j * n0 + i], (int)n2, n0 * n1, sign, tmp);
}

void oracle_dft_lines(std::vector<cld> &a, size_t begin, size_t count, int n, int sign)
{
  std::vector<cld> tmp;
  for (size_t l = 0; l < count; l++) line(&a[begin + l * n], n, 1, sign, tmp);
}
