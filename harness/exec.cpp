#include "exec.h"

MonCount mon;
double tolC = 1.0;
double worst_ratio = 0;
static const long double U = sizeof(S) == 4 ? ldexpl(1, -24) : ldexpl(1, -53);

void Session::prepare()
{
  obs.assign(P, Obs());
  stage.assign(P, std::vector<long>());
  for (auto &o : ops) {
    if (o.kind == K_SETPOST || o.kind == K_REMEM) continue;
    if (o.kind == K_1D) { o.field = gen_field(g, o.fseed, P == 1 ? FK_RANDOM : FK_IDS, 1); continue; }
    if (o.kind == K_RONLY || o.kind == K_REMAPS || o.kind == K_ONE) { o.field = gen_field(g, o.fseed, o.kind != K_ONE && o.fseed % 3 == 0 ? FK_BITS : FK_IDS, 1); continue; }
    o.field = gen_field(g, o.fseed, o.fk, o.mag);
    long double n2 = 0; for (auto &x : o.field) n2 += (long double)x.real() * x.real() + (long double)x.imag() * x.imag();
    o.nrm = sqrtl(n2);
    if (o.kind == K_ROUNDTRIP) o.want.assign(o.field.begin(), o.field.end());
    else oracle_dft(g, o.field, o.dir, o.want);
  }
}

static const char *opname(const Op &o)
{
  static thread_local char b[160];
  static const char *nm[] = {"compute", "roundtrip", "compute(remaponly)", "only_remaps", "only_one_remap", "only_1d_ffts", "set", "repeat", "setup_memory"};
  if (o.kind == K_SETPOST) snprintf(b, sizeof b, "set(%s=%d)", o.kw, o.val);
  else snprintf(b, sizeof b, "%s%s%s%s", nm[o.kind], o.dir > 0 ? "+" : "-", o.oop ? " out-of-place" : " in-place", o.scaled ? "" : " unscaled");
  return b;
}

std::string Session::text() const
{
  std::string t = describe(g, in, out, perm) + sfmt(" collective=%d exchange=%d pack=%d memory=%d iface=%d tune=%d", coll, exch, pack, mem, iface, (int)tune);
  if (tune) t += sfmt("(flag %d niter %d tmax %g tflag %d)", tflag_dir, niter, tmax, ttime);
  t += " ops:";
  for (auto &o : ops) { t += " "; t += opname(o); t += ";"; }
  return t;
}

uint64_t Session::sig() const
{
  uint64_t h = 1;
  h = hmix(h, g.dim); for (int d = 0; d < 3; d++) h = hmix(h, g.n[d]);
  for (auto *t : {&in, &out}) for (auto &b : *t) for (int d = 0; d < 3; d++) { h = hmix(h, (uint64_t)(b.lo[d] + 5)); h = hmix(h, (uint64_t)(b.hi[d] + 5)); }
  h = hmix(h, (uint64_t)(perm + 4 * coll + 16 * exch + 64 * pack + 256 * mem + 1024 * iface + 8192 * tune));
  for (auto &o : ops) h = hmix(h, (uint64_t)(o.kind * 8 + (o.dir > 0) * 4 + o.oop * 2 + o.scaled) + (uint64_t)o.fk * 1000);
  return h;
}

void Obj::create(bool settings)
{
  a = make_fft(s.g.dim, s.iface);
  a->create(comm, sizeof(S) == 4 ? 1 : 2);
  if (settings && s.explicit_set) {
    static const char *kw[] = {"collective", "exchange", "pack", "memory"};
    int val[] = {s.coll, s.exch, s.pack, s.mem}, top[] = {3, 2, 3, 2}, def[] = {2, 0, s.g.dim == 3 ? 2 : -1, 1}, ord[] = {0, 1, 2, 3};
    uint64_t m = s.setmode;
    for (int i = 3; i > 0; i--) { std::swap(ord[i], ord[m % (i + 1)]); m /= i + 1; }
    if (s.setmode & (1ull << 40)) for (int i : ord) if (s.setmode >> (44 + i) & 1) a->set(kw[3 - i], (int)((s.setmode >> (48 + i)) % top[3 - i]));   // changed their mind later
    for (int i : ord) if (val[i] != def[i] || !(s.setmode & (1ull << 41)) || (s.setmode & (1ull << 40))) a->set(kw[i], val[i]);
  }
}

static void early_settings(Obj &x)
{
  uint64_t m = x.s.setmode;
  if (m >> 42 & 1) x.a->set("scale", x.curscale = (int)(m >> 43 & 1));
  if (m >> 52 & 1) x.a->set("remaponly", x.curronly = (int)(m >> 53 & 1));
}

void Obj::give_memory()
{
  if (s.mem) return;
  sb.alloc(send, s.bufmode, s.shift); rb.alloc(recv, s.bufmode, s.shift);
  a->setup_memory(sb.p, rb.p);
  memgiven = true;
}

void Obj::setup()
{
  early_settings(*this);
  if (s.tune) a->tune(s.g.n, s.in[me], s.out[me], s.perm, fft, send, recv, s.tflag_dir, s.niter, s.tmax, s.ttime);
  else a->setup(s.g.n, s.in[me], s.out[me], s.perm, fft, send, recv);
  s.exch_used = a->geti("exchange");
  Session::Obs &o = s.obs[me];
  o.fft = fft; o.send = send; o.recv = recv; o.memusage = a->geti64("memusage"); o.tables = fm::heap_rank_bytes(fm::self(), true); o.heap = fm::heap_rank_bytes(fm::self(), false);
  if (fft < s.in[me].size() || fft < s.out[me].size() || send < 0 || recv < 0) {
    fail("sizes", sfmt("rank %d: reported fftsize %d sendsize %d recvsize %d for %ld input and %ld output values", me, fft, send, recv, s.in[me].size(), s.out[me].size()));
    if (fft < s.in[me].size()) fft = (int)s.in[me].size();
    if (fft < s.out[me].size()) fft = (int)s.out[me].size();
  }
  give_memory();
}

void Obj::destroy()
{
  a->destroy(); delete a; a = nullptr;
  sb.release("send"); rb.release("receive");
}

void Obj::load(S *p, const Box &b, int perm, const std::vector<cd> &f)
{
  for (int k = b.lo[2]; k <= b.hi[2]; k++) for (int j = b.lo[1]; j <= b.hi[1]; j++) for (int i = b.lo[0]; i <= b.hi[0]; i++) {
    const cd &v = f[((long)k * s.g.n[1] + j) * s.g.n[0] + i]; long q = pos(b, perm, i, j, k);
    p[2 * q] = (S)v.real(); p[2 * q + 1] = (S)v.imag();
  }
}

void Obj::check(const S *p, const Box &b, int perm, const Op &o, long double scale, long double tolscale, const char *what)
{
  long double L = 2 + log2l((long double)s.g.N()), rn = sqrtl((long double)s.g.N());   // norm-wise FFT error bound
  for (int k = b.lo[2]; k <= b.hi[2]; k++) for (int j = b.lo[1]; j <= b.hi[1]; j++) for (int i = b.lo[0]; i <= b.hi[0]; i++) {
    long gi = ((long)k * s.g.n[1] + j) * s.g.n[0] + i, q = pos(b, perm, i, j, k);
    long double wr = o.want[gi].real() * scale, wi = o.want[gi].imag() * scale;
    long double er = fabsl((long double)p[2 * q] - wr), ei = fabsl((long double)p[2 * q + 1] - wi);
    long double tol = tolC * U * L * (o.nrm * tolscale * rn + hypotl(wr, wi));
    if (o.nrm == 0) tol = 0;
    mon.values++;
    if (!(er <= tol && ei <= tol)) {
      fail("result", sfmt("%s: rank %d value at (%d,%d,%d) is (%.9g,%.9g), expected (%.9Lg,%.9Lg), tolerance %.3Lg", what, me, i, j, k, (double)p[2 * q], (double)p[2 * q + 1], wr, wi, tol));
      return;
    }
    if (tol > 0) { double r = (double)((er > ei ? er : ei) / tol); if (r > worst_ratio) worst_ratio = r; }
  }
}

void Obj::check_exact(const S *p, const Box &b, int perm, const std::vector<cd> &f, const char *what)
{
  for (int k = b.lo[2]; k <= b.hi[2]; k++) for (int j = b.lo[1]; j <= b.hi[1]; j++) for (int i = b.lo[0]; i <= b.hi[0]; i++) {
    const cd &v = f[((long)k * s.g.n[1] + j) * s.g.n[0] + i]; long q = pos(b, perm, i, j, k);
    mon.exact++;
    S wr = (S)v.real(), wi = (S)v.imag();
    if (memcmp(&p[2 * q], &wr, sizeof(S)) || memcmp(&p[2 * q + 1], &wi, sizeof(S))) {
      fail("result", sfmt("%s: rank %d holds (%.9g,%.9g) at (%d,%d,%d), expected (%.9g,%.9g) unchanged", what, me, (double)p[2 * q], (double)p[2 * q + 1], i, j, k, v.real(), v.imag()));
      return;
    }
  }
}

// all individual remaps in order; every stage but the last must hold complete grid lines
void Obj::one_chain(const Op &o, long *counts)
{
  int nst = s.g.dim == 3 ? 4 : 3;
  const Box &bi = o.dir > 0 ? s.in[me] : s.out[me], &bo = o.dir > 0 ? s.out[me] : s.in[me];
  int pi = o.dir > 0 ? 0 : s.perm, po = o.dir > 0 ? s.perm : 0;
  bool fwdorder = o.dir > 0 || s.same();
  Buf A, B;
  A.alloc(2L * fft, s.bufmode, s.shift); B.alloc(2L * fft, s.bufmode, s.shift);
  load(A.p, bi, pi, o.field);
  S *cur = A.p; Buf *cb = &A, *ob = &B;
  for (int st = 1; st <= nst; st++) {
    int which = fwdorder ? st : nst + 1 - st;
    fm::Watch watch;
    if (o.oop) {
      ob->nanfill(0);
      a->only_one(cb->p, ob->p, o.dir, which);
      std::swap(cb, ob);
    } else a->only_one(cur, cur, o.dir, which);
    cur = cb->p;
    if (steps) steps->push_back(watch.t);
    // stage contents: `which` of the pencil direction that is complete after this step
    if (st < nst) {
      int along = s.g.dim == 3 ? (fwdorder ? st - 1 : 3 - st) : (fwdorder ? st - 1 : 2 - st);
      int n = s.g.n[along];
      if (o.oop && s.stage_check) {
        long cnt = 0;
        while (cnt < fft && !(cur[2 * cnt] != cur[2 * cnt])) cnt++;
        if (counts) counts[st - 1] = cnt;
        if (s.exch_used == 0) {
          bool bad = cnt % n != 0;
          for (long l = 0; !bad && l < cnt / n; l++) {
            long g0 = -1;
            for (int x = 0; x < n; x++) {
              long id = ((long)cur[2 * (l * n + x)] - 1) / 2;
              long c[3] = {id % s.g.n[0], (id / s.g.n[0]) % s.g.n[1], id / ((long)s.g.n[0] * s.g.n[1])};
              if (id < 0 || id >= s.g.N() || c[along] != x || cur[2 * (l * n + x) + 1] != -(S)(2 * id + 2)) { bad = true; break; }
              c[along] = 0; long rest = (c[2] * s.g.n[1] + c[1]) * s.g.n[0] + c[0];
              if (x == 0) g0 = rest; else if (rest != g0) { bad = true; break; }
              mon.exact++;
            }
            if (!bad && n && !counts) s.stage[me].push_back(((long)st << 40) | g0);
          }
          if (bad) fail("stage", sfmt("only_one_remap %d (direction %d): rank %d does not hold complete grid lines of dimension %d afterwards", which, o.dir, me, along));
        }
      }
    }
  }
  check_exact(cur, bo, po, o.field, "chain of only_one_remap");
  if (!counts) s.obs[me].hash = hbytes_(s.obs[me].hash, cur, (size_t)bo.size() * 2 * sizeof(S));
  A.release("data"); B.release("data");
}

void Obj::op(const Op &o)
{
  mon.ops++;
  if (o.kind == K_SETPOST) { a->set(o.kw, o.val); return; }
  if (o.kind == K_REMEM) {                      // other buffers of the same size; the old ones are gone
    if (s.mem) return;
    sb.release("send"); rb.release("receive"); give_memory(); return;
  }
  if (o.kind == K_1D) {
    // the lines of each direction this rank works on: everything on one rank, else learnt from the remap steps
    long cnt[3] = {0, 0, 0}; bool full = s.P == 1;
    if (full) for (int d = 0; d < s.g.dim; d++) cnt[d] = s.g.N();
    else if (s.exch_used == 0 && s.stage_check) { Op c = o; c.kind = K_ONE; c.dir = 1; c.oop = true; one_chain(c, cnt); full = true; for (int d = 0; d < s.g.dim; d++) if (cnt[d] % s.g.n[d]) full = false; }
    Buf A; A.alloc(2L * fft, s.bufmode, s.shift); A.zero();
    std::vector<cld> w((size_t)fft);
    if (full) { Rng rr(o.fseed + (uint64_t)me * 77); for (long i = 0; i < fft; i++) { A.p[2 * i] = (S)(rr.uni() - 0.5); A.p[2 * i + 1] = (S)(rr.uni() - 0.5); w[i] = cld(A.p[2 * i], A.p[2 * i + 1]); } }
    a->only_1d(A.p, o.dir);
    if (full) {
      for (int d = 0; d < s.g.dim; d++) oracle_dft_lines(w, 0, (size_t)(cnt[d] / s.g.n[d]), s.g.n[d], o.dir);
      long double L = 2 + log2l((long double)s.g.N()), nrm = 0; for (auto &x : w) nrm += std::norm(x);
      long double tol = tolC * U * L * 2 * sqrtl(nrm);
      for (long i = 0; i < fft; i++) {
        long double t = tol + tolC * U * L * std::abs(w[i]); mon.values++;
        if (!(fabsl(A.p[2 * i] - w[i].real()) <= t && fabsl(A.p[2 * i + 1] - w[i].imag()) <= t)) { fail("result", sfmt("only_1d_ffts: rank %d element %ld is (%g,%g), expected (%Lg,%Lg)", me, i, (double)A.p[2 * i], (double)A.p[2 * i + 1], w[i].real(), w[i].imag())); break; }
      }
    } else for (long i = 0; i < 2L * fft; i++) if (A.p[i] != 0) { fail("result", sfmt("only_1d_ffts turned zero data into nonzero on rank %d", me)); break; }
    A.release("data");
    return;
  }
  if (o.kind == K_ONE) { one_chain(o); return; }

  const Box &bi = o.dir > 0 ? s.in[me] : s.out[me], &bo = o.dir > 0 ? s.out[me] : s.in[me];
  int pi = o.dir > 0 ? 0 : s.perm, po = o.dir > 0 ? s.perm : 0;
  long ni = bi.size(), no = bo.size();
  long double N = (long double)s.g.N();
  // settings in force stay in force until they are changed
  if (o.scaled != curscale || (o.fseed >> 9) % 3 == 0) a->set("scale", curscale = o.scaled);
  if ((o.kind == K_RONLY) != curronly || (o.fseed >> 13) % 3 == 0) a->set("remaponly", curronly = o.kind == K_RONLY);
  Buf A, B; std::vector<S> saved;
  int reps = o.kind == K_REPEAT ? 2 : 1; std::vector<S> first;
  for (int rep = 0; rep < reps; rep++) {
    if (rep == 0) {
      if (o.oop) { A.alloc(2 * ni, s.bufmode, s.shift); B.alloc(2L * fft, s.bufmode, s.shift); }
      else A.alloc(2L * fft, s.bufmode, s.shift);
    } else { A.nanfill(0); if (o.oop) B.nanfill(0); }
    load(A.p, bi, pi, o.field);
    S *src = A.p, *dst = o.oop ? B.p : A.p;
    if (o.oop) saved.assign(src, src + 2 * ni);
    int dir = o.dir;
    if (o.kind == K_REMAPS) a->only_remaps(src, dst, dir); else a->compute(src, dst, dir);
    if (o.oop && ni && memcmp(saved.data(), src, saved.size() * sizeof(S))) fail("input-modified", sfmt("%s changed its input array on rank %d", opname(o), me));
    if (o.kind == K_ROUNDTRIP) {
      // back again, from the array the first call filled
      s.obs[me].hash = hbytes_(s.obs[me].hash, dst, (size_t)no * 2 * sizeof(S));
      Buf C; S *d2 = dst; std::vector<S> mid;
      if (o.oop) { mid.assign(dst, dst + 2 * no); C.alloc(2L * fft, s.bufmode, s.shift); d2 = C.p; }
      a->compute(dst, d2, -dir);
      if (o.oop && no && memcmp(mid.data(), dst, mid.size() * sizeof(S))) fail("input-modified", sfmt("%s changed its input array on rank %d", opname(o), me));
      long double sc = o.scaled ? 1.0L : N;
      check(d2, bi, pi, o, sc, 2 * sc / sqrtl(N), opname(o));
      s.obs[me].hash = hbytes_(s.obs[me].hash, d2, (size_t)ni * 2 * sizeof(S));
      if (o.oop) C.release("output");
    } else if (o.kind == K_RONLY || o.kind == K_REMAPS) {
      check_exact(dst, bo, po, o.field, opname(o));
      s.obs[me].hash = hbytes_(s.obs[me].hash, dst, (size_t)no * 2 * sizeof(S));
    } else {
      long double sc = (o.dir < 0 && o.scaled) ? 1.0L / N : 1.0L;
      check(dst, bo, po, o, sc, sc, opname(o));
      if (rep == 0) { s.obs[me].hash = hbytes_(s.obs[me].hash, dst, (size_t)no * 2 * sizeof(S)); if (reps > 1) first.assign(dst, dst + 2 * no); }
      else if (no && memcmp(first.data(), dst, first.size() * sizeof(S))) fail("repeat", sfmt("%s on the same data gave different bits the second time on rank %d", opname(o), me));
    }
  }
  A.release(o.oop ? "input" : "data"); B.release("output");
}

void run_session(Session &s, int me, MPI_Comm comm)
{
  Obj x(s, me, comm);
  x.create(); x.setup();
  for (auto &o : s.ops) x.op(o);
  x.destroy();
}
