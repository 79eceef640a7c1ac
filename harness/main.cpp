// Worker: runs a range of cases of one property and reports what its monitors saw.
#include "exec.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <algorithm>
#include <array>

static FILE *proto;                            // protocol stream (stdout belongs to the code under test)
static int outfd = -1;
static int tier = 0;                           // 0 quick 1 thorough
static bool use_fortran = false;
static const char *LIBNAME = "KISS";              // 1d FFT library of this build

struct CaseOut {
  std::vector<fm::Violation> v;
  uint64_t sig = 0; bool nontrivial = false; std::string text; std::string tag;
  std::vector<uint64_t> scheds;
  uint64_t runs = 0, steps = 0, switches = 0, messages = 0, colls = 0, bytes = 0, blocked = 0, anychoices = 0, preempts = 0;
  std::map<std::string, uint64_t> calls, notes;
  int maxP = 0;
};
static CaseOut *CO;

// communicator of the job the calling rank takes part in (the world, or a part of it in another order)
static thread_local MPI_Comm job_comm;
#define VC job_comm

// run one job, merge statistics, return raw result
static fm::Result job(const fm::Options &o, const std::function<void(int)> &body)
{
  fm::Result r;
  if (!o.embed) r = fm::run(o, [&](int me) { job_comm = MPI_COMM_WORLD; body(me); });
  else {
    // the ranks of the job are members of a larger world, in shuffled order; the others have something else to do
    Rng er(o.seed ^ 0xABCDEF); int W = o.nranks + o.embed - 1;
    std::vector<int> idx(W); for (int i = 0; i < W; i++) idx[i] = i;
    for (int i = W - 1; i > 0; i--) std::swap(idx[i], idx[er.below(i + 1)]);
    fm::Options q = o; q.nranks = W; q.victim = idx[o.victim % W];
    bool busy = er.below(2);
    r = fm::run(q, [&](int w) {
      int me = idx[w]; MPI_Comm c;                     // idx[w] = rank inside the job, >= o.nranks: bystander
      MPI_Comm_split(MPI_COMM_WORLD, me < o.nranks, me, &c);
      if (me < o.nranks) { job_comm = c; body(me); }
      else if (busy) { int a = 1, b = 0; for (int k = 0; k < 3; k++) MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_SUM, c); }
      MPI_Comm_free(&c);
    });
    std::vector<int> e(o.nranks), cd_(o.nranks);
    for (int w = 0; w < W; w++) if (idx[w] < o.nranks) { e[idx[w]] = r.end[w]; cd_[idx[w]] = r.code[w]; }
    r.end = e; r.code = cd_;
    CO->notes["jobs_on_subcommunicators"]++;
  }
  CaseOut &c = *CO;
  c.runs++; c.steps += r.steps; c.switches += r.switches; c.messages += r.messages; c.colls += r.colls; c.bytes += r.bytes; c.blocked += r.blocked; c.anychoices += r.anychoices; c.preempts += r.preempts;
  c.scheds.push_back(hmix(r.sched_hash, (uint64_t)o.nranks));
  for (auto &x : r.calls) c.calls[x.first] += x.second;
  c.maxP = std::max(c.maxP, o.nranks);
  return r;
}
static void take(const fm::Result &r) { for (auto &v : r.v) CO->v.push_back(v); }
static void note(const char *k, uint64_t n = 1) { CO->notes[k] += n; }

// a job in which every rank has to finish normally
static fm::Result good_job(const fm::Options &o, const std::function<void(int)> &body)
{
  fm::Result r = job(o, body);
  take(r);
  if (!r.deadlock && !r.livelock) for (int i = 0; i < o.nranks; i++) if (r.end[i] == fm::E_EXIT || r.end[i] == fm::E_ABORT) {
    CO->v.push_back(fm::Violation{"exit", sfmt("rank %d left the program (status %d) during a valid use of the library", i, r.code[i]), i});
    break;
  }
  return r;
}

static void stage_conservation(Session &s)
{
  std::map<long, int> seen; std::map<long, long> per;
  for (auto &v : s.stage) for (long x : v) { seen[x]++; per[x >> 40]++; }
  for (auto &x : seen) if (x.second > (int)0) {
    // the same line may be recorded once per K_ONE op; ops are counted below
  }
  int nops = 0; std::vector<int> dirs;
  for (auto &o : s.ops) if (o.kind == K_ONE && o.oop) { nops++; dirs.push_back(o.dir); }
  if (!nops || s.exch_used) return;
  // forward chain completes dims 0..dim-1 in order, a reversed chain the other way round
  for (auto &x : seen) { (void)x; }
  std::map<long, long> want;
  for (int d : dirs) {
    bool fwd = d > 0 || s.same();
    for (int st = 1; st <= s.g.dim; st++) { int along = fwd ? st - 1 : s.g.dim - st; want[st] += s.g.N() / s.g.n[along]; }
  }
  for (auto &w : want) if (per[w.first] != w.second) {
    CO->v.push_back(fm::Violation{"stage", sfmt("after remap step %ld the ranks together hold %ld complete grid lines instead of %ld", w.first, per[w.first], w.second), -1});
    return;
  }
  for (auto &x : seen) if (x.second > nops) { CO->v.push_back(fm::Violation{"stage", "a grid line is held by two ranks after a remap step", -1}); return; }
}

// ------------------------------------------------------------------ session generation

struct Prof { int dim = 0; long maxN = 3000; int maxP = 16; double p_tune = 0; bool defaults = true; int iface = IF_CXX; bool tiny = false; int P = 0; };

static GenOpt gopt(const Prof &p) { GenOpt o; o.maxN = p.maxN; o.maxP = p.maxP; o.tiny = p.tiny; o.P = p.P; return o; }

static double gen_mag(Rng &r)
{
  switch (r.below(8)) { case 0: return sizeof(S) == 4 ? 1e12 : 1e80; case 1: return sizeof(S) == 4 ? 1e-12 : 1e-80; case 2: return 1e-3; default: return 1.0; }
}

static void gen_layout(Rng &r, Session &s, const Prof &p)
{
  s.g = gen_grid(r, gopt(p), p.dim ? p.dim : r.range(2, 3));
  s.P = gen_P(r, gopt(p));
  if (p.maxP >= 12 && !p.P && r.below(150) == 0) s.P = r.below(8) ? r.range(41, 100) : r.range(101, 300);
  // long lopsided dimensions with many ranks are fine; tiny grids with many ranks give empty pencils
  int mode = r.below(10);
  std::string a, b;
  s.in = gen_tiling(r, s.g, s.P, &a);
  s.perm = s.g.dim == 3 ? r.below(3) : r.below(2);
  if (mode < 3) { s.out = s.in; b = "same"; if (r.below(2)) s.perm = 0; }
  else if (mode < 5) {                          // layouts that let the library skip its first / last remap
    if (r.below(3)) { s.in = r.below(2) ? gen_pencil(r, s.g, s.P, 0) : gen_default_pencil(s.g, s.P, 0, r.below(16)); a = "fastpencil"; }
    int last = s.g.dim - 1;
    s.out = r.below(2) ? gen_pencil(r, s.g, s.P, last) : gen_default_pencil(s.g, s.P, last, r.below(16)); b = "lastpencil";
    if (r.below(4)) s.perm = last;
  } else s.out = gen_tiling(r, s.g, s.P, &b);
  if (r.below(8) == 0) {                        // almost the same layout, almost the layout that lets the library skip a remap
    int last = s.g.dim - 1, v = r.below(20);
    switch (r.below(4)) {
    case 0: s.out = gen_near(r, s.g, s.in); b = "near-in"; if (r.below(4)) s.perm = 0; break;
    case 1: s.out = gen_near(r, s.g, gen_default_pencil(s.g, s.P, last, v)); b = "near-last"; if (r.below(4)) s.perm = last; break;
    case 2: s.in = gen_near(r, s.g, gen_default_pencil(s.g, s.P, 0, v)); a = "near-fast"; break;
    default: s.in = gen_near(r, s.g, gen_default_pencil(s.g, s.P, 0, v)); s.out = r.below(2) ? s.in : gen_near(r, s.g, gen_default_pencil(s.g, s.P, last, v)); a = "near-fast"; b = "near"; if (r.below(4)) s.perm = r.below(2) ? 0 : last;
    }
  }
  s.tname = a + ">" + b;
}

static void gen_settings(Rng &r, Session &s, const Prof &p)
{
  s.coll = r.below(3); s.exch = r.below(2); s.pack = r.below(3); s.mem = r.below(3) != 0;
  s.explicit_set = true;
  if (p.defaults && r.below(8) == 0) { s.explicit_set = false; s.coll = 2; s.exch = 0; s.pack = 2; s.mem = 1; }
  s.setmode = r.below(3) ? r.next() : 0;
  s.iface = p.iface;
  s.bufmode = r.below(3) == 0 || strcmp(LIBNAME, "KISS"); s.shift = r.below(3); if (strcmp(LIBNAME, "KISS")) s.shift = 0;   // see KNOWN_FINDINGS: FFTW3 needs 16-byte aligned data
  if (r.chance(p.p_tune)) { s.tune = true; s.tflag_dir = r.range(-1, 1); s.niter = r.range(1, 2); s.ttime = r.below(2); s.tmax = r.below(2) ? 0.0 : pow(10, -4 + 3 * r.uni()); }
}

static Op gen_op(Rng &r, int kind, int dir = 0)
{
  Op o; o.kind = kind; o.dir = dir ? dir : (r.below(2) ? 1 : -1); o.oop = r.below(2); o.scaled = r.below(4) != 0;
  o.fseed = r.next(); int f = r.below(10); o.fk = f < 4 ? FK_RANDOM : r.below(FK_NPHYS); o.mag = gen_mag(r);
  return o;
}

static void finish_case(Session &s, const char *tag)
{
  CO->sig = hmix(CO->sig, s.sig());
  CO->nontrivial = CO->nontrivial || (s.P > 1);
  CO->text = s.text(); CO->tag = tag;
}

static void check_gen(const Session &s)
{
  if (!tiling_ok(s.g, s.in) || !tiling_ok(s.g, s.out)) { fprintf(stderr, "harness: generated an invalid tiling %s\n", describe(s.g, s.in, s.out, s.perm).c_str()); _Exit(98); }
}

static fm::Result play(Session &s, const fm::Options &o)
{
  s.obs.assign(s.P, Session::Obs()); s.stage.assign(s.P, std::vector<long>());
  fm::Result r = good_job(o, [&s](int me) { run_session(s, me, VC); });
  bool ok = true; for (int e : r.end) if (e != fm::E_OK) ok = false;
  if (ok) stage_conservation(s);
  return r;
}

static void huge_setup(Rng &r, int dim);

// ------------------------------------------------------------------ the properties

static void transform_case(Rng &r, const Prof &p, int what, const char *tag)
{
  Session s; gen_layout(r, s, p); gen_settings(r, s, p);
  check_gen(s);
  int nop = r.range(1, 3);
  for (int i = 0; i < nop; i++) {
    if (what == 1) s.ops.push_back(gen_op(r, K_COMPUTE, 1));
    else if (what == 2) s.ops.push_back(gen_op(r, r.below(2) ? K_COMPUTE : K_ROUNDTRIP, r.below(5) ? -1 : 1));
    else if (what == 3) { Op o = gen_op(r, r.below(4) ? K_COMPUTE : K_REMAPS + 0); o.oop = true; s.ops.push_back(o); }
    else s.ops.push_back(gen_op(r, K_COMPUTE));
    if (what == 2 && s.ops.back().kind == K_ROUNDTRIP && r.below(2)) s.ops.back().dir = 1;
  }
  s.prepare();
  play(s, gen_sched(r, s.P));
  finish_case(s, tag);
}

static long sizecap(Rng &r, long small, long big, long huge) { int c = r.below(40); if (c == 0 && r.below(12) == 0) return huge * (tier ? 20 : 5); return c == 0 ? huge : c < 8 ? big : small; }

static void case_C01(Rng &r) { if (r.below(120) == 0) { huge_setup(r, 3); return; } Prof p; p.dim = 3; p.maxN = sizecap(r, 1500, 6000, tier ? 60000 : 40000); p.maxP = r.below(20) ? 16 : 40; transform_case(r, p, 1, "fwd3d"); }
static void case_C02(Rng &r) { if (r.below(120) == 0) { huge_setup(r, 2); return; } Prof p; p.dim = 2; p.maxN = sizecap(r, 1500, 6000, tier ? 60000 : 40000); p.maxP = r.below(20) ? 16 : 40; transform_case(r, p, 1, "fwd2d"); }
static void case_C03(Rng &r) { if (r.below(80) == 0) { huge_setup(r, 0); return; } Prof p; p.maxN = sizecap(r, 1200, 4000, 30000); p.maxP = r.below(20) ? 14 : 30; transform_case(r, p, 2, "bwd"); }

// out-of-place against in-place on the same data, with exactly sized arrays
static void case_C04(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 1000, 3000, 20000); p.maxP = 12;
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  static const int kinds[] = {K_COMPUTE, K_COMPUTE, K_COMPUTE, K_ROUNDTRIP, K_RONLY, K_REMAPS};
  int n = r.range(1, 2);
  for (int i = 0; i < n; i++) { Op o = gen_op(r, kinds[r.below(6)]); o.oop = true; s.ops.push_back(o); Op q = o; q.oop = false; s.ops.push_back(q); }
  s.prepare();
  play(s, gen_sched(r, s.P));
  finish_case(s, "oop");
}

// ---- stand-alone remap
struct RemapCase {
  Grid g; int P; Tiling in, out; int perm, nqty, coll, pack, mem, iface, bufmode, shift, reps; bool inplace, mixed = false, fresh = false; uint64_t bits = 0;
  std::vector<std::pair<int, int>> sizes; std::vector<uint64_t> hash; std::vector<int64_t> memusage, tables, heap;
  std::string text() const { return describe(g, in, out, perm) + sfmt(" remap nqty=%d collective=%d pack=%d memory=%d iface=%d %s", nqty, coll, pack, mem, iface, inplace ? "in-place" : "out-of-place"); }
};

static S idval(const RemapCase &c, long gi, int q, int rep)
{
  S v = (S)((double)(gi * c.nqty + q) * 1.0 + 1 + 0.5 * rep);
  return c.bits ? special_value((uint64_t)(gi * c.nqty + q) * 3 + rep + c.bits, v) : v;
}

// one rank's live remap object
struct RObj {
  RemapCase &c; int me; MPI_Comm comm; RemapApi *a = nullptr; Buf sb, rb; int rep = 0;
  RObj(RemapCase &cc, int m, MPI_Comm k) : c(cc), me(m), comm(k) {}
  void create() { a = make_remap(c.g.dim, c.iface); a->create(comm); if (c.coll != 1 || c.g.n[0] % 2) a->set("collective", c.coll); a->set("pack", c.pack); }
  void setup();
  void remap();
  void destroy() { a->destroy(); delete a; a = nullptr; sb.release("send"); rb.release("receive"); }
};

void RObj::setup()
{
  int ss = -1, rr = -1;
  a->setup(c.in[me], c.out[me], c.nqty, c.perm, c.mem, ss, rr);
  c.sizes[me] = std::make_pair(ss, rr); c.memusage[me] = a->memusage(); if (me < (int)c.tables.size()) { c.tables[me] = fm::heap_rank_bytes(fm::self(), true); c.heap[me] = fm::heap_rank_bytes(fm::self(), false); }
  if (ss < 0 || rr < 0) { fail("sizes", sfmt("remap setup reported sendsize %d recvsize %d on rank %d", ss, rr, me)); }
  if (!c.mem) { sb.alloc(ss, c.bufmode, c.shift); rb.alloc(rr, c.bufmode, c.shift); }
}

void RObj::remap()
{
  const Box &bi = c.in[me], &bo = c.out[me];
  long ni = bi.size() * c.nqty, no = bo.size() * c.nqty;
  bool inplace = c.mixed ? (rep & 1) == c.inplace : c.inplace;
  Buf A, B;
  if (inplace) A.alloc(std::max(ni, no), c.bufmode, c.shift);
  else { A.alloc(ni, c.bufmode, c.shift); B.alloc(no, c.bufmode, c.shift); }
  for (int k = bi.lo[2]; k <= bi.hi[2]; k++) for (int j = bi.lo[1]; j <= bi.hi[1]; j++) for (int i = bi.lo[0]; i <= bi.hi[0]; i++)
    for (int q = 0; q < c.nqty; q++) A.p[pos(bi, 0, i, j, k) * c.nqty + q] = idval(c, ((long)k * c.g.n[1] + j) * c.g.n[0] + i, q, rep);
  std::vector<S> saved; if (!inplace) saved.assign(A.p, A.p + ni);
  S *dst = inplace ? A.p : B.p;
  if (!c.mem && c.fresh && rep) {               // other buffers for every call; the old ones are gone
    sb.release("send"); rb.release("receive");
    sb.alloc(c.sizes[me].first, c.bufmode, c.shift); rb.alloc(c.sizes[me].second, c.bufmode, c.shift);
  }
  a->remap(A.p, dst, c.mem ? nullptr : sb.p, c.mem ? nullptr : rb.p);
  mon.ops++;
  if (!inplace && ni && memcmp(saved.data(), A.p, saved.size() * sizeof(S))) fail("input-modified", sfmt("remap changed its input array on rank %d", me));
  bool bad = false;
  for (int k = bo.lo[2]; k <= bo.hi[2] && !bad; k++) for (int j = bo.lo[1]; j <= bo.hi[1] && !bad; j++) for (int i = bo.lo[0]; i <= bo.hi[0] && !bad; i++)
    for (int q = 0; q < c.nqty; q++) {
      S got = dst[pos(bo, c.perm, i, j, k) * c.nqty + q], want = idval(c, ((long)k * c.g.n[1] + j) * c.g.n[0] + i, q, rep);
      mon.exact++;
      if (memcmp(&got, &want, sizeof(S))) { fail("result", sfmt("remap: rank %d component %d at (%d,%d,%d) is %.9g, expected %.9g", me, q, i, j, k, (double)got, (double)want)); bad = true; break; }
    }
  c.hash[me] = hbytes_(c.hash[me], dst, (size_t)no * sizeof(S));
  A.release("input"); B.release("output");
  rep++;
}

static void remap_body(RemapCase &c, int me, MPI_Comm comm)
{
  RObj x(c, me, comm);
  x.create(); x.setup();
  for (int i = 0; i < c.reps; i++) x.remap();
  x.destroy();
}

static RemapCase gen_remap(Rng &r, const Prof &p)
{
  RemapCase c; Session s; gen_layout(r, s, p);
  c.g = s.g; c.P = s.P; c.in = s.in; c.out = s.out; c.perm = s.perm;
  if (r.below(3) == 0) {                        // remaps are not bound to FFT-friendly sizes
    for (int d = 0; d < c.g.dim; d++) c.g.n[d] = r.range(1, 13);
    c.in = gen_tiling(r, c.g, c.P); c.out = gen_tiling(r, c.g, c.P);
  }
  static const int q[] = {1, 2, 3, 4, 5, 7, 1, 2, 8, 11}; c.nqty = q[r.below(10)]; if (r.below(25) == 0 && c.g.N() < 3000) { static const int z[] = {6, 9, 10, 12, 16, 17, 24, 32, 33, 64, 100}; c.nqty = z[r.below(11)]; }
  c.coll = r.below(2); c.pack = r.below(3); c.mem = r.below(2); c.iface = p.iface; c.bufmode = r.below(3) == 0; c.shift = r.below(3); c.reps = r.below(6) ? r.range(1, 2) : r.range(3, 5); c.inplace = r.below(2); c.mixed = r.below(3) == 0; c.fresh = r.below(2); c.bits = r.below(3) ? 0 : 1 + r.next() % 1000000;
  return c;
}
static fm::Result play_remap(RemapCase &c, const fm::Options &o)
{
  c.sizes.assign(c.P, {0, 0}); c.hash.assign(c.P, 0); c.memusage.assign(c.P, 0);
  fm::Result r = good_job(o, [&c](int me) { remap_body(c, me, VC); });
  return r;
}
static uint64_t remap_sig(const RemapCase &c) { Session s; s.g = c.g; s.P = c.P; s.in = c.in; s.out = c.out; s.perm = c.perm; s.coll = c.coll; s.pack = c.pack; s.mem = c.mem; s.iface = c.iface; return hmix(s.sig(), (uint64_t)(c.nqty * 2 + c.inplace)); }
static void finish_remap(const RemapCase &c, const char *tag) { CO->sig = hmix(CO->sig, remap_sig(c)); CO->nontrivial = CO->nontrivial || c.P > 1; CO->text = c.text(); CO->tag = tag; }

// one problem under every combination of the algorithmic settings
static void case_C05(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 300, 800, 8000); p.maxP = r.below(12) ? 9 : 28;
  if (r.below(8) == 0) {                        // a stand-alone remap under every combination
    RemapCase c = gen_remap(r, p); c.reps = 1;
    for (c.coll = 0; c.coll < 2; c.coll++) for (c.pack = 0; c.pack < 3; c.pack++) for (c.mem = 0; c.mem < 2; c.mem++) {
      size_t before = CO->v.size();
      play_remap(c, gen_sched(r, c.P));
      note("remap_setting_combinations");
      finish_remap(c, "remap settings");
      if (CO->v.size() > before) return;
    }
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  s.explicit_set = true;
  s.ops.push_back(gen_op(r, K_COMPUTE, 1)); s.ops.push_back(gen_op(r, K_COMPUTE, -1));
  if (r.below(2)) s.ops.push_back(gen_op(r, r.below(2) ? K_RONLY : K_REMAPS));
  s.prepare();
  for (int c = 0; c < 3; c++) for (int e = 0; e < 2; e++) for (int k = 0; k < 3; k++) {
    s.coll = c; s.exch = e; s.pack = k; s.mem = r.below(2);
    size_t before = CO->v.size();
    play(s, gen_sched(r, s.P));
    note("setting_combinations");
    finish_case(s, "settings");
    if (CO->v.size() > before) return;
  }
}

static void case_C06(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 800, 3000, 20000); p.maxP = r.below(20) ? 14 : 36;
  RemapCase c = gen_remap(r, p);
  if (!tiling_ok(c.g, c.in) || !tiling_ok(c.g, c.out)) { fprintf(stderr, "harness: bad remap tiling\n"); _Exit(98); }
  play_remap(c, gen_sched(r, c.P));
  finish_remap(c, "remap");
}

static void case_C07(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 1000, 3000, 20000); p.maxP = r.below(20) ? 12 : 30;
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  static const int kinds[] = {K_RONLY, K_REMAPS, K_ONE, K_ONE, K_1D, K_RONLY};
  int n = r.range(1, 4);
  for (int i = 0; i < n; i++) s.ops.push_back(gen_op(r, kinds[r.below(6)]));
  if (r.below(3) == 0) s.ops.push_back(gen_op(r, K_COMPUTE));
  s.prepare();
  play(s, gen_sched(r, s.P));
  finish_case(s, "remaponly");
}

static void any_ops(Rng &r, Session &s, int n)
{
  static const int kinds[] = {K_COMPUTE, K_COMPUTE, K_COMPUTE, K_ROUNDTRIP, K_RONLY, K_REMAPS, K_ONE, K_1D, K_REPEAT};
  for (int i = 0; i < n; i++) s.ops.push_back(gen_op(r, kinds[r.below(9)]));
}

// setup only, on grids far beyond what could be allocated
static void huge_setup(Rng &r, int dim)
{
  static const int dims[][3] = {{2048, 2048, 1024}, {1024, 2048, 1620}, {4096, 1024, 1024}, {1296, 1600, 1875}, {2187, 1024, 2000}, {46080, 64, 2048}, {3125, 1000, 1250}, {1 << 20, 64, 64}};
  static const int dims2[][3] = {{65536, 65536, 1}, {46656, 50000, 1}, {1 << 20, 4096, 1}, {32768, 98304, 1}};
  Session s; s.g.dim = dim ? dim : r.below(3) ? 3 : 2;
  const int *d = s.g.dim == 3 ? dims[r.below(8)] : dims2[r.below(4)];
  for (int i = 0; i < 3; i++) s.g.n[i] = d[i];
  static const int Ps[] = {8, 12, 16, 24, 32}; s.P = Ps[r.below(5)];
  if ((!strcmp(LIBNAME, "FFTW2") || !strcmp(LIBNAME, "MKL")) && r.below(2)) {   // lengths whose 1d plans only the stand-ins can make
    static const int lens[] = {1 << 26, 1 << 27, 100000000, 129140163, 244140625, 1 << 28};
    for (int i = 0; i < 3; i++) s.g.n[i] = i < s.g.dim ? 2 + (int)r.below(2) : 1;
    s.g.n[r.below(s.g.dim)] = lens[r.below(6)];
    s.P = r.range(16, 64);
    note("very_long_lines");
  }
  auto mk = [&](int mode) { return mode == 0 ? gen_default_pencil(s.g, s.P, 0, 1 + r.below(2)) : mode == 1 ? gen_default_pencil(s.g, s.P, s.g.dim - 1, 1 + r.below(2)) : gen_default_pencil(s.g, s.P, 1, 1 + r.below(2)); };
  s.in = mk(r.below(3)); s.out = mk(r.below(3)); s.perm = r.below(s.g.dim == 3 ? 3 : 2);
  s.coll = r.below(3); s.exch = r.below(2); s.pack = r.below(3);
  std::vector<int64_t> mu(s.P, -1);
  for (s.mem = 0; s.mem < 2; s.mem++) {         // library-owned buffers are address space only (see fakempi.cpp)
  s.obs.assign(s.P, Session::Obs());
  good_job(gen_sched(r, s.P), [&s, &mu](int me) {
    Obj x(s, me, VC); x.create();
    x.a->setup(s.g.n, s.in[me], s.out[me], s.perm, x.fft, x.send, x.recv);
    if (x.fft < s.in[me].size() || x.fft < s.out[me].size()) fail("sizes", sfmt("huge grid: fftsize %d smaller than the rank's own %ld / %ld values", x.fft, s.in[me].size(), s.out[me].size()));
    if (x.send < 0 || x.recv < 0 || x.send > 2.0 * x.fft + 0.5 || x.recv > 2.0 * x.fft + 0.5) fail("sizes", sfmt("huge grid: implausible buffer sizes %d %d for fftsize %d", x.send, x.recv, x.fft));
    int64_t m = x.a->geti64("memusage");
    if (m < 0) fail("sizes", "huge grid: negative memusage");
    if (!s.mem) mu[me] = m;
    else if (m - mu[me] != ((int64_t)x.send + x.recv) * (int64_t)sizeof(S)) fail("sizes", sfmt("huge grid: memusage grows by %ld bytes when the library owns buffers of %ld bytes", (long)(m - mu[me]), (long)(((int64_t)x.send + x.recv) * (int64_t)sizeof(S))));
    x.a->destroy(); delete x.a;
  });
  }
  note("huge_setups");
  finish_case(s, "huge");
}

// memory safety: everything, with exactly sized and shifted arrays
static void case_C08(Rng &r)
{
  int c = r.below(25);
  if (c == 0) { huge_setup(r, 0); return; }
  Prof p; p.maxN = sizecap(r, 700, 2500, 20000); p.maxP = r.below(16) ? 12 : 32; p.iface = r.below(4) ? IF_CXX : IF_C; p.p_tune = 0.06;
  if (c < 8) { RemapCase q = gen_remap(r, p); q.mem = r.below(3) == 0; q.bufmode = r.below(4) == 0; play_remap(q, gen_sched(r, q.P)); finish_remap(q, "remap"); return; }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  s.mem = r.below(3) == 0; if (!s.explicit_set) s.mem = 1;
  s.bufmode = r.below(4) == 0 || strcmp(LIBNAME, "KISS");
  any_ops(r, s, r.range(1, 4));
  s.prepare();
  play(s, gen_sched(r, s.P));
  finish_case(s, "memory");
}

// data array that is only aligned to its scalar type (the documentation asks for nothing more); see KNOWN_FINDINGS
static void case_X08(Rng &r)
{
  Session s; s.g.dim = r.below(2) ? 3 : 2; s.g.n[0] = 16; s.g.n[1] = 12; s.g.n[2] = s.g.dim == 3 ? 10 : 1; s.P = r.range(1, 3);
  s.in = gen_slab(r, s.g, s.P, 1); s.out = s.in; s.coll = r.below(3); s.exch = 0; s.pack = r.below(3); s.mem = 1; s.bufmode = 1; s.shift = 1;
  s.ops.push_back(gen_op(r, K_COMPUTE, 1)); s.ops.push_back(gen_op(r, K_COMPUTE, -1));
  s.prepare(); play(s, gen_sched(r, s.P)); note("misaligned_array_probes"); finish_case(s, "misaligned");
}

// ---- life cycles: nothing may be left behind
static void case_C09(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 400, 1200, 10000); p.maxP = r.below(16) ? 10 : 24; p.iface = r.below(3); if (p.iface == IF_F && !use_fortran) p.iface = IF_C; p.p_tune = 0.15;
  int mode = r.below(10);
  fm::Options o;
  auto grow = [&](const std::function<void()> &once, const std::function<std::string()> &txt) {
    int64_t blocks[4], bytes[4];
    fm::heap_reset();
    for (int i = 0; i < 4; i++) {
      size_t nv = CO->v.size();
      once();
      if (CO->v.size() > nv) return;
      blocks[i] = fm::heap_live_blocks(); bytes[i] = fm::heap_live_bytes();
    }
    note("lifecycles", 4);
    if (fm::heap_tracking() && blocks[1] < blocks[2] && blocks[2] < blocks[3])
      CO->v.push_back(fm::Violation{"heap-growth", sfmt("each repetition of the same life cycle leaves %ld more heap blocks (%ld bytes) behind: ", (long)(blocks[3] - blocks[2]), (long)(bytes[3] - bytes[2])) + txt(), -1});
  };
  if (mode < 3) {
    RemapCase c = gen_remap(r, p); o = gen_sched(r, c.P);
    bool nosetup = r.below(8) == 0;
    if (nosetup) grow([&] { good_job(o, [&](int) { RemapApi *a = make_remap(c.g.dim, c.iface); a->create(VC); if (c.coll) a->set("collective", c.coll); a->destroy(); delete a; }); }, [&] { return c.text() + " (never set up)"; });
    else grow([&] { play_remap(c, o); }, [&] { return c.text(); });
    finish_remap(c, nosetup ? "remap-nosetup" : "remap");
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  any_ops(r, s, r.range(0, 2));
  s.prepare();
  o = gen_sched(r, s.P);
  if (mode == 3) {                              // created, configured, never set up
    grow([&] { good_job(o, [&](int me) { Obj x(s, me, VC); x.create(r.below(1) == 0); x.destroy(); }); }, [&] { return s.text() + " (never set up)"; });
    finish_case(s, "nosetup");
    return;
  }
  if (mode == 4 && !s.tune) {                   // user memory announced but set up, no compute
    s.mem = 0; s.explicit_set = true;
    grow([&] { s.obs.assign(s.P, Session::Obs()); good_job(o, [&](int me) {
      Obj x(s, me, VC); x.create(); x.a->setup(s.g.n, s.in[me], s.out[me], s.perm, x.fft, x.send, x.recv); x.destroy(); }); }, [&] { return s.text() + " (set up, memory never provided)"; });
    finish_case(s, "nomemory");
    return;
  }
  grow([&] { play(s, o); }, [&] { return s.text(); });
  finish_case(s, s.tune ? "tune" : "fft");
}

// ---- schedules: same job under many interleavings
static void case_C10(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 300, 900, 20000); p.maxP = r.below(10) ? 9 : 20; p.p_tune = 0.05;
  int K = tier ? 14 : 8;
  if (r.below(4) == 0) {                        // many small layouts, one interleaving each
    for (int k = 0; k < 16; k++) {
      Prof q; q.maxN = 200; q.maxP = 7; RemapCase c = gen_remap(r, q); size_t nv = CO->v.size();
      c.coll = r.below(4) != 0; c.reps = r.range(1, 2);
      if (r.below(4)) { static const int e[] = {2, 3, 4, 5, 6, 8}; for (int d = 0; d < c.g.dim; d++) c.g.n[d] = e[r.below(6)]; c.P = r.range(2, 6); c.in = gen_even_bisect(r, c.g, c.P); c.out = gen_even_bisect(r, c.g, c.P); }
      play_remap(c, gen_sched(r, c.P)); note("small_layouts");
      finish_remap(c, "layouts");
      if (CO->v.size() > nv) return;
    }
    return;
  }
  if (r.below(4) == 0) {
    RemapCase c = gen_remap(r, p); c.reps = r.range(2, 4); std::vector<uint64_t> h0;
    for (int k = 0; k < K; k++) {
      fm::Options o = gen_sched(r, c.P);
      if (k < 6) o.sched = k % fm::S_NPOLICY;
      size_t nv = CO->v.size();
      play_remap(c, o);
      if (CO->v.size() > nv) break;
      if (k == 0) h0 = c.hash; else if (h0 != c.hash) { CO->v.push_back(fm::Violation{"schedule-dependent", "remap results differ between two interleavings", -1}); break; }
    }
    finish_remap(c, "remap");
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  any_ops(r, s, r.range(2, 4));
  if (s.tune) { s.tmax = 0; }
  s.prepare();
  std::vector<uint64_t> h0;
  for (int k = 0; k < K; k++) {
    fm::Options o = gen_sched(r, s.P);
    if (k < 6) o.sched = k % fm::S_NPOLICY;
    if (k == 6) { o.sendmode = fm::M_RENDEZVOUS; o.sched = fm::S_STARVE; o.victim = 0; }
    if (k == 7) { o.sendmode = fm::M_EAGER; o.sched = fm::S_FAVOR; o.max_delay = 300; }
    size_t nv = CO->v.size();
    play(s, o);
    if (CO->v.size() > nv) break;
    std::vector<uint64_t> h; for (auto &x : s.obs) h.push_back(x.hash);
    if (s.tune) continue;                       // tuning may legitimately pick another algorithm
    if (k == 0) h0 = h; else if (h != h0) { CO->v.push_back(fm::Violation{"schedule-dependent", "results differ between two interleavings", -1}); break; }
  }
  finish_case(s, "schedules");
}

// ---- several objects alive at once
static void case_C11(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 250, 700, 8000);
  int P = r.range(2, 10), mode = r.below(4), nobj = r.range(1, 3), nrem = r.below(3) ? 0 : r.range(1, 2); if (nobj + nrem < 2) nobj = 2;
  // groups of world ranks per object
  std::vector<int> color(P, 0); int ng = 1; bool rev = r.below(2);
  if (mode >= 2) { ng = r.range(2, std::min(3, P)); for (int i = 0; i < P; i++) color[i] = i < ng ? i : r.below(ng); }
  struct Grp { std::vector<int> ranks; std::vector<std::unique_ptr<Session>> s; std::vector<std::unique_ptr<RemapCase>> rc; std::vector<std::pair<int, int>> script; };
  std::vector<Grp> G(ng);
  for (int gi = 0; gi < ng; gi++) {
    for (int i = 0; i < P; i++) if (color[i] == gi) G[gi].ranks.push_back(i);
    if (rev) std::reverse(G[gi].ranks.begin(), G[gi].ranks.end());
    for (int k = 0; k < nobj; k++) {
      std::unique_ptr<Session> s(new Session);
      Prof q = p; q.maxP = 12; q.p_tune = 0.12;
      s->P = (int)G[gi].ranks.size();
      q.P = s->P; gen_layout(r, *s, q);
      gen_settings(r, *s, q); s->iface = r.below(3) ? IF_CXX : IF_C;
      any_ops(r, *s, r.range(2, 4));
      s->prepare();
      CO->sig = hmix(CO->sig, s->sig());
      CO->text += "{" + s->text() + "} ";
      G[gi].s.push_back(std::move(s));
    }
    for (int k = 0; k < nrem; k++) {
      std::unique_ptr<RemapCase> c(new RemapCase(gen_remap(r, p)));
      c->P = (int)G[gi].ranks.size(); c->in = gen_tiling(r, c->g, c->P); c->out = gen_tiling(r, c->g, c->P); c->reps = r.range(1, 4);
      c->sizes.assign(c->P, {0, 0}); c->hash.assign(c->P, 0); c->memusage.assign(c->P, 0);
      CO->sig = hmix(CO->sig, remap_sig(*c)); CO->text += "{" + c->text() + "} ";
      G[gi].rc.push_back(std::move(c));
    }
    // interleaving of operations of the objects, identical on all ranks of the group (k >= nobj: remap objects)
    std::vector<int> left; for (auto &s : G[gi].s) left.push_back((int)s->ops.size());
    for (auto &c : G[gi].rc) left.push_back(c->reps);
    const int nall = nobj + nrem;
    for (;;) {
      std::vector<int> c; for (int k = 0; k < nall; k++) if (left[k]) c.push_back(k);
      if (c.empty()) break;
      int k = c[r.below((int)c.size())]; G[gi].script.push_back({k, k < nobj ? (int)G[gi].s[k]->ops.size() - left[k] : 0}); left[k]--;
    }
  }
  int dorder = r.below(2); bool early = r.below(2), late = r.below(2);   // late: the last object is created while the others are in use
  fm::Options o = gen_sched(r, P); o.embed = 0;
  auto body = [&](int me) {
    Grp &g = G[color[me]];
    MPI_Comm comm = MPI_COMM_WORLD; bool own = false;
    int key = (int)(std::find(g.ranks.begin(), g.ranks.end(), me) - g.ranks.begin());
    if (mode >= 1) { MPI_Comm_split(MPI_COMM_WORLD, color[me], key, &comm); own = true; }
    int cm = mode >= 1 ? key : me;
    if (mode == 0 && rev) cm = me;
    std::vector<Obj *> x;
    bool lt = late && nobj > 1; int lastk = nobj - 1;
    for (int k = 0; k < nobj; k++) { x.push_back(new Obj(*g.s[k], cm, comm)); if (!lt || k != lastk) x[k]->create(); }
    std::vector<RObj *> y;
    for (int k = 0; k < nrem; k++) { y.push_back(new RObj(*g.rc[k], cm, comm)); y[k]->create(); }
    for (int k = 0; k < nobj; k++) { int j = (k + 1) % nobj; if (!lt || j != lastk) x[j]->setup(); if (k < nrem) y[k]->setup(); }
    for (int k = nobj; k < nrem; k++) y[k]->setup();
    size_t done = 0;
    for (auto &st : g.script) {
      if (st.first >= nobj) { y[st.first - nobj]->remap(); continue; }
      if (!x[st.first]) continue;
      if (lt && st.first == lastk && !x[lastk]->a) { x[lastk]->create(); x[lastk]->setup(); }
      x[st.first]->op(g.s[st.first]->ops[st.second]); done++;
      if (early && done == g.script.size() / 2) { x[0]->destroy(); delete x[0]; x[0] = nullptr; }   // the others must survive this
    }
    for (int k = 0; k < nobj; k++) { int j = dorder ? nobj - 1 - k : k; if (x[j]) { if (x[j]->a) x[j]->destroy(); delete x[j]; } }
    for (int k = 0; k < nrem; k++) { y[k]->destroy(); delete y[k]; }
    if (own) {
      int a = 1, b = 0; MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_SUM, comm);   // the caller's communicator still works
      if (b != (int)g.ranks.size()) fail("result", "the caller's communicator is damaged");
      MPI_Comm_free(&comm);
    }
  };
  good_job(o, body);
  note(mode >= 2 ? "subcommunicator_jobs" : "shared_communicator_jobs"); note("objects", (uint64_t)((nobj + nrem) * ng));
  CO->nontrivial = true; CO->tag = sfmt("objects mode %d", mode);
}

// ---- tuning
// the same tuning job under ever tighter time limits, with a clock that does not depend on the schedule
static void tune_ladder(Rng &r)
{
  Prof p; p.maxN = 120; p.maxP = 6;
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  s.tune = true; s.tflag_dir = r.range(-1, 1); s.niter = r.range(1, 12); s.ttime = r.below(2);
  fm::Options o = gen_sched(r, s.P); o.embed = 0; o.clock_mode = 5; o.clock_tick = pow(10.0, -6 + 4 * r.uni());
  double hi = o.clock_tick * 1e6, f = 0.35 + 0.4 * r.uni(); long lastwork = -1; double lasttmax = 0; std::set<int> levels;
  std::vector<double> lim; lim.push_back(o.clock_tick * 1e9);
  for (double t = hi; t > o.clock_tick * 1e-1; t *= f) if (t < o.clock_tick * 3000 || r.below(8) == 0) lim.push_back(t);
  lim.push_back(o.clock_tick * 1e-6);
  for (size_t k = 0; k < lim.size(); k++) {
    s.tmax = lim[k]; s.prepare(); std::vector<std::array<int, 4>> T(s.P);
    size_t nv = CO->v.size();
    good_job(o, [&](int me) {
      Obj x(s, me, VC); x.create(); x.setup();
      bool tm = x.a->getdv("t1d")[0] > 0;
      T[me] = {x.a->geti("ntrial"), x.a->geti("npertrial"), (int)tm, 0};
      x.destroy();
    });
    if (CO->v.size() > nv) break;
    auto bad = [&](const std::string &d) { CO->v.push_back(fm::Violation{"tune-time", d, -1}); };
    long work = (long)T[0][0] * T[0][1] * (T[0][2] ? 3 : 1); levels.insert(T[0][0]);
    if (k == 0 && (T[0][0] != 9 || T[0][1] != s.niter)) { bad(sfmt("with a time limit far beyond need only %d trials of %d transforms ran, requested %d per trial", T[0][0], T[0][1], s.niter)); break; }
    if (k + 1 == lim.size() && T[0][0] != 1) { bad(sfmt("%d trials ran although there was no time for any", T[0][0])); break; }
    if (lastwork >= 0 && work > lastwork) { bad(sfmt("time limit %g led to more trial work (%d trials of %d) than the longer limit %g", s.tmax, T[0][0], T[0][1], lasttmax)); break; }
    lastwork = work; lasttmax = s.tmax;
  }
  note("time_limit_ladders"); note("ladder_levels", levels.size());
  finish_case(s, "ladder");
}

static void case_C12(Rng &r)
{
  if (r.below(6) == 0) { tune_ladder(r); return; }
  Prof p; p.maxN = sizecap(r, 250, 600, 4000); p.maxP = r.below(10) ? 8 : 16; p.iface = IF_CXX;
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  s.tune = true; s.tflag_dir = r.range(-1, 1); s.niter = r.below(3) ? r.range(1, 3) : r.range(4, 9); s.ttime = r.below(2);
  s.setmode &= ~(1ull << 52);                   // whole transforms are timed, not remaps only
  any_ops(r, s, r.range(1, 2));
  s.prepare();
  fm::Options o = gen_sched(r, s.P);
  o.clock_mode = r.below(3) ? r.below(10) : r.below(3) ? 7 : 4; o.clock_tick = pow(10.0, -6 + 4 * r.uni());
  // a time limit anywhere between hopeless and generous
  int tm = r.below(4);
  if (tm == 0) s.tmax = 0;
  else if (o.clock_mode == 4) s.tmax = o.clock_tick * s.P * pow(10.0, 0.5 + 5.5 * r.uni());
  else if (o.clock_mode == 7) s.tmax = o.clock_tick * pow(10.0, 2 + 4 * r.uni());
  else if (o.clock_mode == 8) s.tmax = o.clock_tick * pow(10.0, -1 + 3 * r.uni());
  else s.tmax = o.clock_tick * pow(10.0, -1 + 5 * r.uni());
  if (o.clock_mode == 7 && r.below(2)) { s.tmax = 0; s.ttime = 1; } else if (o.clock_mode == 7 && r.below(2)) s.niter = r.range(4, 12);
  if (s.g.N() <= 60 && r.below(4) == 0) s.niter = r.range(10, 40);
  if (o.clock_mode == 4 && s.tmax > 0 && r.below(5) == 0) {   // as many as the limit allows
    static const int many[] = {2147483647, 1000000000, 715827883, 1 << 30, 100000000, 12345678}; s.niter = many[r.below(6)];
    s.tmax = o.clock_tick * s.P * pow(10.0, 0.5 + 3.2 * r.uni());
  }
  struct TR { int c, e, k, nt, np, cb, eb, pb, ic, ie, ip; double best, setup, elapsed; std::vector<int> cf, ef, pf; std::vector<double> tf, t1, tr, t_[4]; double own[7], plain; };
  std::vector<TR> T(s.P); bool agree = true;
  fm::Result res = good_job(o, [&](int me) {
    Obj x(s, me, VC); x.create();
    TR &t = T[me];
    t.ic = x.a->geti("collective"); t.ie = x.a->geti("exchange"); t.ip = x.a->geti("pack");
    double e0 = o.clock_mode == 4 ? MPI_Wtime() : 0;
    x.setup();
    t.elapsed = o.clock_mode == 4 ? MPI_Wtime() - e0 : 0;
    t.c = x.a->geti("collective"); t.e = x.a->geti("exchange"); t.k = x.a->geti("pack"); t.nt = x.a->geti("ntrial"); t.np = x.a->geti("npertrial");
    t.cb = x.a->geti("cbest"); t.eb = x.a->geti("ebest"); t.pb = x.a->geti("pbest"); t.best = x.a->getd("besttime"); t.setup = x.a->getd("setuptime");
    t.cf = x.a->getiv("cflags"); t.ef = x.a->getiv("eflags"); t.pf = x.a->getiv("pflags"); t.tf = x.a->getdv("tfft"); t.t1 = x.a->getdv("t1d"); t.tr = x.a->getdv("tremap");
    const char *nm[] = {"tremap1", "tremap2", "tremap3", "tremap4"};
    for (int k = 0; k < (s.g.dim == 3 ? 4 : 3); k++) t.t_[k] = x.a->getdv(nm[k]);
    if (o.clock_mode == 7) {                   // the same operations once more, timed by the caller
      std::vector<S> d(2 * (size_t)std::max(x.fft, 1), S(0));
      int n = 0; for (auto &v : t.own) v = 0;
      for (int dir : {1, -1}) if (s.tflag_dir == 0 || s.tflag_dir == dir) {
        n++;
        auto timed = [&](double &acc, const std::function<void()> &f) { double b = MPI_Wtime(); f(); acc += MPI_Wtime() - b; };
        timed(t.own[0], [&] { x.a->compute(d.data(), d.data(), dir); });
        timed(t.own[6], [&] { x.a->only_1d(d.data(), dir); });
        timed(t.own[1], [&] { x.a->only_remaps(d.data(), d.data(), dir); });
        for (int k = 1; k <= (s.g.dim == 3 ? 4 : 3); k++) timed(t.own[1 + k], [&] { x.a->only_one(d.data(), d.data(), dir, k); });
      }
      for (auto &v : t.own) v /= n;
      FftApi *f = make_fft(s.g.dim, s.iface);  // and a plain setup with the settings that were selected
      f->create(VC, sizeof(S) == 4 ? 1 : 2);
      f->set("collective", t.c); f->set("exchange", t.e); f->set("pack", t.k);
      int a1 = 0, a2 = 0, a3 = 0;
      MPI_Barrier(VC); double b = MPI_Wtime();
      f->setup(s.g.n, s.in[me], s.out[me], s.perm, a1, a2, a3);
      MPI_Barrier(VC); t.plain = MPI_Wtime() - b;
      f->destroy(); delete f;
    }
    for (auto &op : s.ops) x.op(op);
    x.destroy();
  });
  bool ok = true; for (int e : res.end) if (e != fm::E_OK) ok = false;
  auto bad = [&](const char *k, const std::string &d) { CO->v.push_back(fm::Violation{k, d, -1}); };
  if (ok) {
    for (int i = 0; i < s.P && agree; i++) {
      TR &a = T[0], &b = T[i];
      if (a.c != b.c || a.e != b.e || a.k != b.k || a.nt != b.nt || a.np != b.np || a.cf != b.cf || a.ef != b.ef || a.pf != b.pf) {
        agree = false; bad("tune-agree", sfmt("ranks 0 and %d end tuning with different settings or trials: collective %d/%d exchange %d/%d pack %d/%d trials %d/%d", i, a.c, b.c, a.e, b.e, a.k, b.k, a.nt, b.nt));
      }
    }
    TR &a = T[0]; bool blind = o.clock_mode == 8 || o.clock_mode == 9;   // such clocks may show no time at all
    if (agree) {
      if (a.nt < 1 || a.nt > 10) bad("tune-stats", sfmt("%d trials reported", a.nt));
      else {
        if (a.np < 1 || a.np > s.niter) bad("tune-stats", sfmt("%d transforms per trial reported, at most %d requested", a.np, s.niter));
        if (a.nt != 9 && a.nt != 6 && a.nt != 3 && a.nt != 2 && a.nt != 1) bad("tune-stats", sfmt("%d trials reported, which the documentation does not describe", a.nt));
        if (a.nt < 9 && a.np != 1) bad("tune-stats", sfmt("%d trials with %d transforms each, although transforms per trial are to be reduced first", a.nt, a.np));
        int ic = a.ic, ie = a.ie, ip = a.ip;
        if (a.nt == 1 && (a.c != ic || a.e != ie || a.k != ip)) bad("tune-best", sfmt("no time for trials, but settings changed from %d/%d/%d to %d/%d/%d", ic, ie, ip, a.c, a.e, a.k));
        if ((a.nt == 6 || a.nt == 3) && a.k != 2) bad("tune-best", sfmt("pack style %d selected without a pack trial", a.k));
        if ((a.nt == 3 || a.nt == 2) && a.e != 0) bad("tune-best", sfmt("exchange %d selected without an exchange trial", a.e));
        if (a.nt == 6 && (std::set<std::pair<int, int>>{{a.cf[0], a.ef[0]}, {a.cf[1], a.ef[1]}, {a.cf[2], a.ef[2]}, {a.cf[3], a.ef[3]}, {a.cf[4], a.ef[4]}, {a.cf[5], a.ef[5]}}).size() != 6) bad("tune-stats", "the six trials do not cover all collective/exchange pairs");
        if (a.nt == 3 && (std::set<int>{a.cf[0], a.cf[1], a.cf[2]}).size() != 3) bad("tune-stats", "the three trials do not cover all collective settings");
        if (a.nt == 2) {
          if (a.k != 2 || (a.c != 2 && a.c != 1)) bad("tune-best", sfmt("settings %d/%d/%d selected after two trials", a.c, a.e, a.k));
          bool two = a.cf[0] == 1 && a.ef[0] == 0 && a.pf[0] == 2 && a.cf[1] == 2;
          if (a.c == 1 && !(two && a.tf[0] <= a.tf[1])) bad("tune-best", "collective 1 selected although it was not the faster of the two trials");
          if (two && !(ic == 1 && ie == 0 && ip == 2) && a.c == 2 && a.tf[0] < a.tf[1]) bad("tune-best", "collective 2 selected although it was the slower of the two trials");
        }
        if (s.ttime == 0) for (int k = 0; k < a.nt; k++) if (a.t1[k] != 0 || a.tr[k] != 0) { bad("tune-stats", "1d FFT or remap times reported although their timing was not requested"); break; }
        if (s.ttime == 1 && a.nt == 9 && s.tmax == 0 && !blind) for (int k = 0; k < a.nt; k++) {
          bool z = !(a.t1[k] > 0) || !(a.tr[k] > 0); for (int q = 0; q < (s.g.dim == 3 ? 4 : 3); q++) if (!(a.t_[q][k] > 0)) z = true;
          if (z) { bad("tune-stats", "1d FFT or remap times missing although their timing was requested"); break; }
        }
        if (s.tmax == 0 && (a.nt != 9 || a.np != s.niter)) bad("tune-stats", sfmt("without a time limit all 9 trials of %d transforms must run, got %d of %d", s.niter, a.nt, a.np));
        std::set<int> combos, packs;
        for (int k = 0; k < a.nt; k++) {
          if (a.cf[k] < 0 || a.cf[k] > 2 || a.ef[k] < 0 || a.ef[k] > 1 || a.pf[k] < 0 || a.pf[k] > 2) { bad("tune-stats", "a trial reports settings out of range"); break; }
          combos.insert(a.cf[k] * 2 + a.ef[k]); packs.insert(a.pf[k]);
        }
        if (s.tmax == 0 && (combos.size() != 6 || packs.size() != 3)) bad("tune-stats", "the trials do not cover all collective/exchange pairs and all pack styles");
        bool listed = false, timed = false;
        for (int k = 0; k < a.nt; k++) { if (a.cf[k] == a.c && a.ef[k] == a.e && a.pf[k] == a.k) { listed = true; if (fabs(a.best - a.tf[k]) <= 1e-9 * a.best) timed = true; } }
        if (!listed) bad("tune-stats", "the selected settings were not among the trials");
        if (a.cb != a.c || a.eb != a.e || a.pb != a.k) bad("tune-stats", "reported best settings differ from the selected ones");
        for (int i = 0; i < s.P; i++) {
          TR &b = T[i];
          for (int k = 0; k < a.nt; k++) if (!(blind ? b.tf[k] >= 0 : b.tf[k] > 0) || !std::isfinite(b.tf[k])) { bad("tune-stats", "a trial time is not a positive number"); i = s.P; break; }
          if (i < s.P && !((blind ? b.setup >= 0 : b.setup > 0) && std::isfinite(b.setup))) { bad("tune-stats", "the setup time is not a positive number"); break; }
        }
        // best = minimum over the trials that compete with it (9-trial case: the last three)
        if (a.nt == 9) {
          int kb = 6; for (int k = 7; k < 9; k++) if (a.tf[k] < a.tf[kb]) kb = k;
          int kc = 0; for (int k = 1; k < 6; k++) if (a.tf[k] < a.tf[kc]) kc = k;
          bool ok1 = false, ok2 = false;        // of equally fast settings any may be selected
          for (int k = 6; k < 9; k++) if (a.pf[k] == a.k && a.tf[k] <= a.tf[kb]) ok1 = true;
          for (int k = 0; k < 6; k++) if (a.cf[k] == a.c && a.ef[k] == a.e && a.tf[k] <= a.tf[kc]) ok2 = true;
          if (!ok1) bad("tune-best", sfmt("pack style %d selected although trial %d (pack %d) was fastest", a.k, kb, a.pf[kb]));
          if (!ok2) bad("tune-best", sfmt("collective/exchange %d/%d selected although trial %d (%d/%d) was fastest", a.c, a.e, kc, a.cf[kc], a.ef[kc]));
        } else if (a.nt == 6 || a.nt == 3) {
          int kb = 0; for (int k = 1; k < a.nt; k++) if (a.tf[k] < a.tf[kb]) kb = k;
          bool ok1 = false; for (int k = 0; k < a.nt; k++) if (a.cf[k] == a.c && a.ef[k] == a.e && a.tf[k] <= a.tf[kb]) ok1 = true;
          if (!ok1) bad("tune-best", sfmt("settings %d/%d selected although trial %d (%d/%d) was fastest", a.c, a.e, kb, a.cf[kb], a.ef[kb]));
        }
        if (listed && !timed && a.nt != 2 && a.nt != 1) bad("tune-stats", sfmt("best time %g is not the time of a trial with the selected settings", a.best));
      }
      if (o.clock_mode == 4 && s.tmax > 0 && a.nt > 1 && a.nt <= 10) for (auto &t : T) if (t.elapsed > 6 * s.tmax) { bad("tune-time", sfmt("tuning took %g s with a limit of %g s although it performed %d trials of %d", t.elapsed, s.tmax, a.nt, a.np)); break; }
      if (o.clock_mode == 7 && a.nt >= 1 && a.nt <= 10) {
        // times count the data moved by rank 0, so every phase has an exact duration
        double u = o.clock_tick, eps = 0.4 * u; int nrem = s.g.dim == 3 ? 4 : 3; size_t nv = CO->v.size();
        for (int k = 0; k < a.nt && CO->v.size() == nv; k++) {
          bool same = a.cf[k] == a.c && a.ef[k] == a.e && a.pf[k] == a.k;
          if (same && fabs(a.tf[k] - a.own[0]) > eps) bad("tune-time", sfmt("trial %d reports %g per transform, which takes %g", k, a.tf[k] / u, a.own[0] / u));
          if (s.ttime == 0 || (s.tmax > 0 && a.t1[k] == 0 && a.tr[k] == 0)) continue;   // dropped when time is short
          double sum = 0; for (int q = 0; q < nrem; q++) sum += a.t_[q][k];
          if (fabs(a.tf[k] - a.t1[k] - a.tr[k]) > eps) bad("tune-time", sfmt("trial %d: transform %g is not 1d FFTs %g plus remaps %g", k, a.tf[k] / u, a.t1[k] / u, a.tr[k] / u));
          else if (fabs(a.tr[k] - sum) > eps) bad("tune-time", sfmt("trial %d: remap time %g is not the sum of its steps %g", k, a.tr[k] / u, sum / u));
          else if (fabs(a.t1[k] - a.own[6]) > eps) bad("tune-time", sfmt("trial %d: 1d FFTs reported as %g, take %g", k, a.t1[k] / u, a.own[6] / u));
          else if (same) for (int q = 0; q < nrem; q++) if (fabs(a.t_[q][k] - a.own[2 + q]) > eps) { bad("tune-time", sfmt("trial %d: remap %d reported as %g, takes %g", k, q + 1, a.t_[q][k] / u, a.own[2 + q] / u)); break; }
          note("phase_times_compared");
        }
        for (int i = 0; i < s.P && CO->v.size() == nv; i++) if (fabs(T[i].setup - T[i].plain) > 0.5 * T[i].plain + eps) bad("tune-time", sfmt("setup is reported to take %g on rank %d, where a setup with the same settings takes %g", T[i].setup / u, i, T[i].plain / u));
        // the first run costs exactly what a trial with the same settings reports, so the plan made from it can be recomputed
        int k0 = -1; double tmost = 0; for (int k = 0; k < a.nt; k++) { tmost = std::max(tmost, a.tf[k]); if (a.cf[k] == a.ic && a.ef[k] == a.ie) k0 = k; }   // packing does not change what is communicated
        int nd = s.tflag_dir == 0 ? 2 : 1;
        if (s.tmax > 0 && k0 >= 0 && a.nt > 1) {
          bool parts = s.ttime && (a.t1[0] != 0 || a.tr[0] != 0); double t0 = nd * a.tf[k0] - 1e-3 * u;
          double least = a.nt == 9 ? 10.0 * (parts ? 3 : 1) * a.np * t0 : a.nt == 2 ? 2 * t0 : (a.nt + 1) * t0;
          if (least > s.tmax * (1 + 1e-9)) bad("tune-time", sfmt("%d trials of %d transforms (%g units each in the first run) were made with a limit of %g units", a.nt, a.np, t0 / u, s.tmax / u));
          note("tune_plans_recomputed"); note(sfmt("plan_%d_%s", a.nt, a.np == s.niter ? "all" : "fewer").c_str());
        }
        if (s.tmax > 100 * (a.setup + 3 * s.niter * nd * tmost) && (a.nt != 9 || a.np != s.niter)) bad("tune-stats", sfmt("only %d trials of %d transforms although the limit of %g units leaves ample time", a.nt, a.np, s.tmax / u));
      }
      if (o.clock_mode == 4 && s.tmax > 0) { note("time_limited_tunes"); note(sfmt("ntrial_%d", a.nt).c_str()); }
    }
  }
  note(sfmt("clock_mode_%d", o.clock_mode).c_str());
  finish_case(s, "tune");
}

// ---- invalid requests
extern "C" { int fm_alloc_arm(int rank, int nth, size_t minsize); int fm_alloc_fired(void); int fm_alloc_count(void); }

static void case_C13(Rng &r)
{
  Prof p; p.maxN = 400; p.maxP = 8;
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  s.iface = r.below(3) ? IF_CXX : IF_C;
  int sc = r.below(31), who = r.below(s.P), sub = r.below(100), dimsel = r.below(s.g.dim);
  if (sc >= 23) sc = sc < 28 ? 21 : 22;
  std::string what; bool inject = false;
  Session bad = s; int prec = sizeof(S) == 4 ? 1 : 2, tf = 0, tn = 1, tt = 0; double tmax = 0;
  static const int notsmooth[] = {7, 11, 13, 14, 17, 19, 21, 22, 26, 28, 33, 34, 35, 49, 77, 121, 169, 343, 2401, 1 + 30, 37 * 4, 7 * 64};
  switch (sc) {
  case 0: { static const int q[] = {0, 3, -1, 4, 99}; if (sub % 2) prec = q[sub % 5]; else prec = prec == 1 ? 2 : 1; what = sfmt("precision %d", prec); break; }
  case 1: { static const int q[] = {1, 0, -2, -4}; bad.g.n[dimsel] = q[sub % 4]; what = sfmt("grid dimension %d = %d", dimsel, bad.g.n[dimsel]); break; }
  case 2: bad.g.n[dimsel] = notsmooth[sub % 22];
    if (sub >= 40) { static const int pr[] = {7, 11, 13, 17, 19, 23, 29, 31, 37, 43, 61, 97, 101, 127, 251, 257}; int v = 1; for (int i = r.below(2) + 1; i > 0; i--) v *= pr[r.below(r.below(2) ? 3 : 16)]; for (int i = r.below(5); i > 0 && v < 3000; i--) v *= (int[]){2, 3, 5}[r.below(3)]; bad.g.n[dimsel] = v; }
    what = sfmt("grid dimension %d = %d has a prime factor above 5", dimsel, bad.g.n[dimsel]); break;
  case 3: bad.in[who].lo[dimsel] = -1 - sub % 3; if (bad.in[who].hi[dimsel] < bad.in[who].lo[dimsel] - 1) bad.in[who].hi[dimsel] = bad.in[who].lo[dimsel]; what = sfmt("negative lower bound on rank %d", who); break;
  case 4: bad.in[who].hi[dimsel] = s.g.n[dimsel] + sub % 2; if (bad.in[who].lo[dimsel] > bad.in[who].hi[dimsel] + 1) bad.in[who].lo[dimsel] = bad.in[who].hi[dimsel]; what = sfmt("upper bound outside the grid on rank %d", who); break;
  case 5: { int l = s.g.n[dimsel] - 1; if (l < 2) l = 2; bad.in[who].lo[dimsel] = l; bad.in[who].hi[dimsel] = l - 2 - (sub % 2 && l > 2 ? 1 : 0); if (bad.in[who].hi[dimsel] >= s.g.n[dimsel]) bad.in[who].hi[dimsel] = s.g.n[dimsel] - 1; if (bad.in[who].lo[dimsel] <= bad.in[who].hi[dimsel] + 1) return; what = sfmt("lower bound exceeds upper bound by more than one on rank %d", who); break; }
  case 6: case 7: {                              // gap or double coverage that changes the number of owned points
    std::vector<int> c; for (int i = 0; i < s.P; i++) if (s.in[i].size() > 0) c.push_back(i);
    who = c[sub % c.size()]; Box &b = bad.in[who]; long before = b.size();
    if (sub % 2) b.hi[dimsel]--; else { if (b.lo[dimsel] == 0 && b.hi[dimsel] == s.g.n[dimsel] - 1) b.hi[dimsel]--; else if (b.lo[dimsel] > 0) b.lo[dimsel]--; else b.hi[dimsel]++; }
    if (b.size() == before) return;
    what = sfmt("input tiles do not cover the grid (rank %d)", who); break;
  }
  case 8: what = "setup called twice"; break;
  case 9: what = "tune after setup"; break;
  case 10: what = "setup_memory before setup"; break;
  case 11: what = "setup_memory although the library owns the buffers"; break;
  case 12: what = "compute before setup"; break;
  case 13: what = "compute before setup_memory"; break;
  case 14: what = "only_remaps before setup_memory"; break;
  case 15: what = "only_one_remap before setup_memory"; break;
  case 16: { static const int q[] = {12, 14, 15, 16}; int z = q[sub % 4]; what = z == 14 ? "only_remaps before setup" : z == 15 ? "only_one_remap before setup" : z == 16 ? "only_1d_ffts before setup" : "compute before setup"; break; }
  case 17: tf = sub % 2 ? 2 : -2; what = sfmt("tune flag %d", tf); break;
  case 18: if (sub % 3 == 0) tn = 0; else if (sub % 3 == 1) tn = -1; else tmax = sub % 2 ? -1.0 : -1e-6; what = sfmt("tune niter %d tmax %g", tn, tmax); break;
  case 19: tt = sub % 2 ? 2 : -1; what = sfmt("tune tflag %d", tt); break;
  case 20: what = "remap before setup"; break;
  case 21: what = "allocation failure inside setup"; inject = true; break;
  case 22: what = "allocation failure inside the setup of a remap"; inject = true; break;
  }
  // also with tiles that fit the wrong dimension, and with bounds outside the grid that keep the number of points: only the check that is meant can object
  if ((sc == 2 || (sc == 1 && bad.g.n[dimsel] == 1)) && r.below(3)) {
    bad.in = gen_tiling(r, bad.g, s.P); bad.out = r.below(2) ? bad.in : gen_tiling(r, bad.g, s.P); what += " (tiles to match)";
  }
  if ((sc == 3 || sc == 4) && r.below(2)) {
    Box &b = bad.in[who] = s.in[who]; int sh = sc == 3 ? -(b.lo[dimsel] + 1 + sub % 3) : s.g.n[dimsel] - b.hi[dimsel] + sub % 3;
    b.lo[dimsel] += sh; b.hi[dimsel] += sh; what += " (tile moved)";
  }
  if (sc == 5 && r.below(2)) {
    for (int i = 0; i < s.P; i++) for (int d = 0; d < s.g.dim; d++) {
      if (d == dimsel || s.in[i].hi[d] != s.in[i].lo[d] - 1 || s.in[i].lo[d] < 0 || s.in[i].hi[d] >= s.g.n[d] || s.g.n[dimsel] < 3) continue;
      bad.in = s.in; bad.in[i].lo[dimsel] = 2 + sub % (s.g.n[dimsel] - 2); bad.in[i].hi[dimsel] = bad.in[i].lo[dimsel] - 2; who = i;
      what = sfmt("lower bound exceeds upper bound by more than one in one dimension of a tile that is empty in another, on rank %d", who);
    }
  }
  fm::Options o = gen_sched(r, s.P);
  o.max_steps = 200000;
  std::vector<char> returned(s.P, 0);
  int nth = 0; size_t minsize = inject && sub % 3 == 0 ? 64 : 1;
  bad.obs.assign(s.P, Session::Obs());
  bool usemem0 = sc == 13 || sc == 14 || sc == 15;
  if (usemem0 || sc == 10) { bad.mem = 0; bad.explicit_set = true; }
  if (sc == 11) { bad.mem = 1; bad.explicit_set = true; }
  auto body = [&](int me) {
    static S dummy[4];
    if (sc == 20) {
      RemapApi *a = make_remap(s.g.dim, s.iface); a->create(VC); a->set("collective", s.coll > 0);
      a->remap(dummy, dummy, dummy, dummy); returned[me] = 1; return;
    }
    if (sc == 22) {
      RemapApi *a = make_remap(s.g.dim, s.iface); a->create(VC); a->set("collective", s.coll > 0); int x = 0, y = 0;
      a->setup(bad.in[me], bad.out[me], 1 + sub % 3, bad.perm, 1, x, y); returned[me] = 1; a->destroy(); delete a; return;
    }
    FftApi *a = make_fft(s.g.dim, s.iface);
    a->create(VC, prec);
    if (sc == 0) { returned[me] = 1; return; }
    if (bad.explicit_set) { a->set("collective", bad.coll); a->set("exchange", bad.exch); a->set("pack", bad.pack); a->set("memory", bad.mem); }
    int f = 0, x = 0, y = 0;
    auto st = [&] { a->setup(bad.g.n, bad.in[me], bad.out[me], bad.perm, f, x, y); };
    auto tu = [&] { a->tune(bad.g.n, bad.in[me], bad.out[me], bad.perm, f, x, y, 0, 1, 0.0, 0); };
    switch (sc) {
    case 8: if (sub % 3 == 0) tu(); else st(); st(); break;
    case 9: if (sub % 3 == 0) tu(); else st(); a->tune(bad.g.n, bad.in[me], bad.out[me], bad.perm, f, x, y, 0, 1, 0.0, 0); break;
    case 10: a->setup_memory(dummy, dummy); break;
    case 11: if (sub % 3 == 0) tu(); else st(); a->setup_memory(dummy, dummy); break;
    case 12: a->compute(dummy, dummy, sub % 2 ? 1 : -1); break;
    case 13: if (sub % 3 == 0) tu(); else st(); { std::vector<S> d(2 * (size_t)f + 2); a->compute(d.data(), d.data(), sub % 2 ? 1 : -1); } break;
    case 14: if (sub % 3 == 0) tu(); else st(); { std::vector<S> d(2 * (size_t)f + 2); a->only_remaps(d.data(), d.data(), sub % 2 ? 1 : -1); } break;
    case 15: if (sub % 3 == 0) tu(); else st(); { std::vector<S> d(2 * (size_t)f + 2); a->only_one(d.data(), d.data(), sub % 2 ? 1 : -1, 1 + sub % 3); } break;
    case 16: { int z = (int[]){12, 14, 15, 16}[sub % 4]; if (z == 14) a->only_remaps(dummy, dummy, 1); else if (z == 15) a->only_one(dummy, dummy, 1, 2); else if (z == 16) a->only_1d(dummy, 1); else a->compute(dummy, dummy, 1); break; }
    case 17: case 18: case 19: a->tune(bad.g.n, bad.in[me], bad.out[me], bad.perm, f, x, y, tf, tn, tmax, tt); break;
    case 21: bad.mem = 1; a->set("memory", 1); st(); break;
    default: if (sub % 4 == 3) a->tune(bad.g.n, bad.in[me], bad.out[me], bad.perm, f, x, y, 0, 1, 0.0, 0); else st();
    }
    returned[me] = 1;
    if (sc == 21) { a->destroy(); delete a; }
  };
  if (inject) {                                   // count the allocations of an undisturbed run first
    o.embed = 0; fm_alloc_arm(who, 1 << 30, minsize);
    fm::Result dry = job(o, body);
    int cnt = fm_alloc_count(); fm_alloc_arm(-1, 0, 0);
    for (auto &v : dry.v) CO->v.push_back(v);
    if (CO->v.size() || cnt < 1) { note("injection_not_reached"); return; }
    nth = r.below(4) ? r.range(1, cnt) : std::max(1, cnt - r.below(6));
    std::fill(returned.begin(), returned.end(), 0);
    note("allocation_sites", cnt);
  }
  fflush(stdout); if (ftruncate(outfd, 0)) {} lseek(outfd, 0, SEEK_SET);
  fm::heap_reset();
  if (inject) fm_alloc_arm(who, nth, minsize);
  fm::Result res = job(o, body);
  bool fired = inject ? fm_alloc_fired() : true;
  if (inject) fm_alloc_arm(-1, 0, 0);
  fflush(stdout);
  struct stat stt; long printed = fstat(outfd, &stt) == 0 ? (long)stt.st_size : 0;
  CO->sig = hmix(hmix(s.sig(), sc), sub % 24 + (inject ? nth * 100 : 0)); CO->tag = sfmt("reject %d", sc); CO->text = what + ": " + bad.text(); CO->nontrivial = true;
  if (!fired) { note("injection_not_reached"); return; }
  note(sfmt("scenario_%02d", sc).c_str());
  auto badv = [&](const std::string &d) { CO->v.push_back(fm::Violation{"reject", what + ": " + d, -1}); };
  for (auto &v : res.v) if (v.kind == "deadlock" || v.kind == "no-progress" || v.kind == "collective-mismatch") { badv(v.kind + ": " + v.detail); return; }
  bool aborted = false; for (int e : res.end) if (e == fm::E_ABORT) aborted = true;
  for (int i = 0; i < s.P; i++) {
    if (returned[i] && res.end[i] == fm::E_OK && (!inject || i == who || !aborted)) {   // setup has no closing synchronisation: other ranks may be through before one reports
      badv(sfmt("rank %d carried on as if the request had been valid", i)); return; }
    if (res.end[i] == fm::E_EXIT && res.code[i] == 0) { badv(sfmt("rank %d ended with a success status", i)); return; }
    if (!aborted && res.end[i] != fm::E_EXIT) { badv(sfmt("rank %d did not stop", i)); return; }
  }
  if (!printed) badv("no error message was printed");
}

// ---- interfaces
static void case_C14(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 300, 900, 8000); p.maxP = 9; p.p_tune = 0.35;
  fm::Options o; std::vector<int> ifs = {IF_CXX, IF_C}; if (use_fortran) ifs.push_back(IF_F);
  auto bad = [&](const std::string &d) { CO->v.push_back(fm::Violation{"iface", d, -1}); };
  if (r.below(4) == 0) {
    RemapCase c = gen_remap(r, p); o = gen_sched(r, c.P);
    std::vector<std::pair<int, int>> z0; std::vector<uint64_t> h0;
    for (int f : ifs) {
      c.iface = f; size_t nv = CO->v.size(); play_remap(c, o); if (CO->v.size() > nv) break;
      if (f == IF_CXX) { z0 = c.sizes; h0 = c.hash; }
      else { if (c.sizes != z0) { bad(sfmt("interface %d reports other buffer sizes than C++", f)); break; } if (c.hash != h0) { bad(sfmt("interface %d gives other results than C++", f)); break; } }
    }
    finish_remap(c, "remap");
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  any_ops(r, s, r.range(1, 3)); s.prepare();
  o = gen_sched(r, s.P); o.clock_mode = 5;
  if (s.tune) { s.tmax = 0; if (r.below(4) == 0) s.tmax = o.clock_tick * pow(10.0, 4 * r.uni()); }
  static const char *ik3[] = {"collective", "exchange", "pack", "npfast1", "npfast2", "npfast3", "npmid1", "npmid2", "npmid3", "npslow1", "npslow2", "npslow3", "npbrick1", "npbrick2", "npbrick3", nullptr};
  static const char *ik2[] = {"collective", "exchange", "pack", "npfast1", "npfast2", "npslow1", "npslow2", "npbrick1", "npbrick2", nullptr};
  std::vector<Session::Obs> base; bool late = r.below(3) == 0;
  for (int f : ifs) {
    s.iface = f; s.obs.assign(s.P, Session::Obs()); s.stage.assign(s.P, {});
    size_t nv = CO->v.size();
    good_job(o, [&](int me) {
      Obj x(s, me, VC); x.create();
      auto &ob = s.obs[me];
      for (const char *k : {"collective", "exchange", "pack"}) ob.v[std::string("early ") + k] = {(double)x.a->geti(k)};
      ob.s["early precision"] = x.a->gets("precision");
      x.setup();
      for (const char **k = s.g.dim == 3 ? ik3 : ik2; *k; k++) ob.v[*k] = {(double)x.a->geti(*k)};
      ob.s["fft1d"] = x.a->gets("fft1d"); ob.s["precision"] = x.a->gets("precision");
      if (late) {
        for (auto &op : s.ops) x.op(op);
        for (const char **k = s.g.dim == 3 ? ik3 : ik2; *k; k++) ob.v[std::string("late ") + *k] = {(double)x.a->geti(*k)};
        ob.s["late fft1d"] = x.a->gets("fft1d"); ob.v["late memusage"] = {(double)x.a->geti64("memusage")};
      }
      if (s.tune) {
        ob.v["ntrial"] = {(double)x.a->geti("ntrial")}; ob.v["npertrial"] = {(double)x.a->geti("npertrial")}; ob.v["setuptime"] = {x.a->getd("setuptime")};
        for (const char *k : {"cflags", "eflags", "pflags"}) { std::vector<int> v = x.a->getiv(k); ob.v[k].assign(v.begin(), v.end()); }
        for (const char *k : {"tfft", "t1d", "tremap", "tremap1", "tremap2", "tremap3"}) ob.v[k] = x.a->getdv(k);
        if (s.g.dim == 3) ob.v["tremap4"] = x.a->getdv("tremap4");
      }
      if (!late) for (auto &op : s.ops) x.op(op);
      x.destroy();
    });
    if (CO->v.size() > nv) break;
    if (f == IF_CXX) base = s.obs;
    else for (int i = 0; i < s.P; i++) {
      auto &a = base[i], &b = s.obs[i];
      if (a.fft != b.fft || a.send != b.send || a.recv != b.recv) { bad(sfmt("interface %d reports sizes %d/%d/%d, C++ %d/%d/%d", f, b.fft, b.send, b.recv, a.fft, a.send, a.recv)); break; }
      if (a.memusage != b.memusage) { bad(sfmt("interface %d reports memusage %ld, C++ %ld", f, (long)b.memusage, (long)a.memusage)); break; }
      if (a.s != b.s) { bad(sfmt("interface %d reports other string values than C++", f)); break; }
      bool br = false;
      for (auto &kv : a.v) { note("getters_compared"); if (b.v[kv.first] != kv.second) { bad(sfmt("interface %d: value of %s differs from the C++ object's", f, kv.first.c_str())); br = true; break; } }
      if (br) break;
      if (a.hash != b.hash) { bad(sfmt("interface %d computes different values than C++ on rank %d", f, i)); break; }
    }
    note(f == IF_C ? "c_runs" : f == IF_F ? "fortran_runs" : "cxx_runs");
  }
  finish_case(s, s.tune ? "tune" : "fft");
}

// ---- histories on one object, and settings changed too late
static void case_C15(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 400, 1000, 10000); p.maxP = r.below(12) ? 9 : 18; p.p_tune = 0.1;
  int mode = r.below(3);
  if (r.below(5) == 0) {                        // a remap object: settings changed after setup must not matter
    RemapCase c = gen_remap(r, p); c.reps = r.range(3, 6); std::vector<std::pair<int, int>> late;
    for (int i = 0; i < c.reps; i++) late.push_back(r.below(2) ? std::make_pair(r.below(2), r.below(2) ? r.below(2) : r.below(3)) : std::make_pair(-1, 0));
    c.sizes.assign(c.P, {0, 0}); c.hash.assign(c.P, 0); c.memusage.assign(c.P, 0);
    fm::heap_reset();
    good_job(gen_sched(r, c.P), [&](int me) {
      RObj x(c, me, VC); x.create(); x.setup();
      for (int i = 0; i < c.reps; i++) {
        if (late[i].first == 0) x.a->set("collective", late[i].second % 2); else if (late[i].first == 1) x.a->set("pack", late[i].second);
        x.remap();
      }
      x.destroy();
    });
    note("remap_histories"); finish_remap(c, "remap+late settings");
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  int n = r.range(4, 9); if (s.g.N() < 150 && r.below(6) == 0) n = r.range(20, 70);
  Op probe = gen_op(r, K_COMPUTE), probe2 = gen_op(r, K_REPEAT);
  s.ops.push_back(probe);
  for (int i = 0; i < n; i++) {
    if (mode >= 1 && r.below(3) == 0) {
      Op o = gen_op(r, K_SETPOST); static const char *kw[] = {"collective", "exchange", "pack", "memory"}; int w = r.below(4);
      o.kw = kw[w]; o.val = w == 0 ? r.below(3) : w == 1 ? r.below(2) : w == 2 ? r.below(3) : r.below(2); s.ops.push_back(o);
    } else if (!s.mem && r.below(6) == 0) s.ops.push_back(gen_op(r, K_REMEM));
    else any_ops(r, s, 1);
  }
  s.ops.push_back(probe2); s.ops.push_back(probe);
  s.prepare();
  // the probe must give the same bits at the start and at the end of the history
  std::vector<uint64_t> first(s.P), last(s.P);
  fm::Options o = gen_sched(r, s.P);
  s.obs.assign(s.P, Session::Obs()); s.stage.assign(s.P, {});
  fm::heap_reset();
  fm::Result res = good_job(o, [&](int me) {
    Obj x(s, me, VC); x.create(); x.setup();
    for (size_t i = 0; i < s.ops.size(); i++) {
      if (i == 0 || i + 1 == s.ops.size()) { uint64_t k = s.obs[me].hash; s.obs[me].hash = 0; x.op(s.ops[i]); (i == 0 ? first : last)[me] = s.obs[me].hash; s.obs[me].hash = k; }
      else x.op(s.ops[i]);
    }
    x.destroy();
  });
  bool ok = true; for (int e : res.end) if (e != fm::E_OK) ok = false;
  if (ok && first != last) CO->v.push_back(fm::Violation{"history", "the same transform gave different bits after a history of other operations", -1});
  note("history_ops", s.ops.size());
  finish_case(s, mode ? "history+late settings" : "history");
}

// ---- reported sizes and statistics
static void case_C16(Rng &r)
{
  fm::heap_reset();
  if (r.below(20) == 0) { huge_setup(r, 0); return; }
  Prof p; p.maxN = sizecap(r, 800, 2500, 20000); p.maxP = r.below(12) ? 12 : 32; p.iface = r.below(3) ? IF_CXX : IF_C;
  auto bad = [&](const std::string &d) { CO->v.push_back(fm::Violation{"sizes", d, -1}); };
  // what is reported against the blocks really held: at most all of them, at least the aligned tables and buffers
  // (a remap with messages keeps one unused table entry, unreported, where a rank keeps data for itself)
  auto account = [&](int rank, int64_t rep, int64_t tables, int64_t heap, int nremap, int coll) {
    if (!fm::heap_tracking()) return true;
    note("memory_reports_compared_with_the_heap");
    if (rep > heap) { bad(sfmt("rank %d reports %ld bytes of memory in use but holds %ld", rank, (long)rep, (long)heap)); return false; }
    if (rep < tables - (coll == 1 ? 28L : 96L) * nremap) { bad(sfmt("rank %d reports %ld bytes of memory in use but its tables and buffers take %ld", rank, (long)rep, (long)tables)); return false; }
    return true;
  };
  if (r.below(4) == 0) {
    RemapCase c = gen_remap(r, p); c.iface = IF_CXX; c.tables.assign(c.P, 0); c.heap.assign(c.P, 0);
    c.mem = 0; fm::Options o = gen_sched(r, c.P); play_remap(c, o); auto z = c.sizes; auto m0 = c.memusage;
    c.mem = 1; play_remap(c, o);
    for (int i = 0; i < c.P; i++) {
      if (z[i] != c.sizes[i]) { bad(sfmt("remap buffer sizes depend on who owns the buffers (rank %d)", i)); break; }
      int64_t d = c.memusage[i] - m0[i], w = (int64_t)(z[i].first + (int64_t)z[i].second) * (int64_t)sizeof(S);
      if (d != w) { bad(sfmt("remap memusage on rank %d grows by %ld bytes when the library owns buffers of %ld bytes", i, (long)d, (long)w)); break; }
      if (m0[i] < 0) { bad("negative memusage"); break; }
      if (!account(i, c.memusage[i], c.tables[i], c.heap[i], 1, c.coll)) break;
    }
    finish_remap(c, "remap");
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s); s.explicit_set = true; s.tune = false;
  any_ops(r, s, r.range(1, 2));
  bool steps = s.exch == 0 && r.below(2);
  if (steps) { s.ops.clear(); Op k = gen_op(r, K_ONE, 1); k.oop = 1; s.ops.push_back(k); }
  s.prepare();
  fm::Options o = gen_sched(r, s.P);
  std::vector<Session::Obs> a;
  int np[3][3] = {{0}};                         // reported pencil decompositions [pencil direction][dimension]
  for (int m = 0; m < 2; m++) {
    s.mem = m; s.obs.assign(s.P, Session::Obs()); s.stage.assign(s.P, {});
    size_t nv = CO->v.size();
    good_job(o, [&](int me) {
      Obj x(s, me, VC); x.create(); x.setup();
      auto g = [&](const char *k) { return x.a->geti(k); };
      if (s.g.dim == 3) {
        if (g("npfast1") != 1 || g("npmid2") != 1 || g("npslow3") != 1 || g("npfast2") * g("npfast3") != s.P || g("npmid1") * g("npmid3") != s.P || g("npslow1") * g("npslow2") != s.P) fail("sizes", "the reported pencil decompositions do not use all ranks exactly once");
        if (s.exch && g("npbrick1") * g("npbrick2") * g("npbrick3") != s.P) fail("sizes", "the reported brick decomposition does not use all ranks");
      } else {
        if (g("npfast1") != 1 || g("npslow2") != 1 || g("npfast2") != s.P || g("npslow1") != s.P) fail("sizes", "the reported pencil decompositions do not use all ranks exactly once");
        if (s.exch && g("npbrick1") * g("npbrick2") != s.P) fail("sizes", "the reported brick decomposition does not use all ranks");
      }
      if (me == 0) {
        const char *nm3[3][3] = {{"npfast1", "npfast2", "npfast3"}, {"npmid1", "npmid2", "npmid3"}, {"npslow1", "npslow2", "npslow3"}};
        const char *nm2[2][2] = {{"npfast1", "npfast2"}, {"npslow1", "npslow2"}};
        for (int d = 0; d < s.g.dim; d++) for (int e = 0; e < s.g.dim; e++) np[d][e] = g(s.g.dim == 3 ? nm3[d][e] : nm2[d][e]);
      }
      if (g("collective") != s.coll || g("exchange") != s.exch || g("pack") != s.pack) fail("sizes", "reported settings differ from the requested ones");
      if (x.a->gets("precision") != (sizeof(S) == 4 ? "single" : "double")) fail("sizes", "reported precision is wrong");
      std::string lib = x.a->gets("fft1d"), want = LIBNAME;
      std::string up; for (char ch : lib) up += (char)toupper(ch);
      if (up.find(want) == std::string::npos) fail("sizes", "reported 1d FFT library is wrong: " + lib);
      for (auto &op : s.ops) x.op(op);
      x.destroy();
    });
    if (CO->v.size() > nv) break;
    for (int i = 0; i < s.P; i++) if (!account(i, s.obs[i].memusage, s.obs[i].tables, s.obs[i].heap, s.g.dim == 3 ? 8 + 4 * s.exch : 6 + 2 * s.exch, s.coll)) break;
    if (m == 0 && steps && s.stage_check && s.P > 1) {
      // the layouts the remap steps really produce cut no dimension into more pieces than reported
      bool infast = true, outslow = s.perm == s.g.dim - 1;
      int last = s.g.dim - 1;
      for (int i = 0; i < s.P; i++) {
        if (s.in[i].lo[0] != 0 || s.in[i].hi[0] != s.g.n[0] - 1) infast = false;
        if (s.out[i].lo[last] != 0 || s.out[i].hi[last] != s.g.n[last] - 1) outslow = false;
      }
      for (int d = 0; d < s.g.dim; d++) {
        if ((d == 0 && infast) || (d == last && outslow)) continue;   // the caller's own layout
        std::set<std::pair<long, long>> cuts[3];
        for (int i = 0; i < s.P; i++) {
          long lo[3], hi[3]; bool any = false;
          for (long x : s.stage[i]) if (x >> 40 == d + 1) {
            long id = x & ((1L << 40) - 1), c[3] = {id % s.g.n[0], (id / s.g.n[0]) % s.g.n[1], id / ((long)s.g.n[0] * s.g.n[1])};
            for (int e = 0; e < 3; e++) { lo[e] = any ? std::min(lo[e], c[e]) : c[e]; hi[e] = any ? std::max(hi[e], c[e]) : c[e]; }
            any = true;
          }
          if (any) for (int e = 0; e < s.g.dim; e++) cuts[e].insert({lo[e], hi[e]});
        }
        for (int e = 0; e < s.g.dim; e++) if (e != d && (long)cuts[e].size() > np[d][e])
          bad(sfmt("the pencils along dimension %d are cut into %ld pieces in dimension %d, but %d are reported", d + 1, (long)cuts[e].size(), e + 1, np[d][e]));
        note("pencil decompositions compared with the layouts in use");
      }
    }
    if (m == 0) a = s.obs;
    else for (int i = 0; i < s.P; i++) {
      auto &b = s.obs[i];
      if (a[i].fft != b.fft || a[i].send != b.send || a[i].recv != b.recv) { bad("reported sizes depend on who owns the buffers"); break; }
      int64_t d = b.memusage - a[i].memusage, w = ((int64_t)b.send + b.recv) * (int64_t)sizeof(S);
      if (d != w || a[i].memusage < 0) { bad(sfmt("memusage on rank %d grows by %ld bytes when the library owns buffers of %ld bytes", i, (long)d, (long)w)); break; }
    }
  }
  finish_case(s, "sizes");
}

// ------------------------------------------------------------------ driver

// ---- what travels: every operation's traffic against the traffic its layouts require
static long overlap(const Box &a, const Box &b)
{
  long n = 1;
  for (int d = 0; d < 3; d++) { int lo = std::max(a.lo[d], b.lo[d]), hi = std::min(a.hi[d], b.hi[d]); if (hi < lo || a.hi[d] < a.lo[d] || b.hi[d] < b.lo[d]) return 0; n *= hi - lo + 1; }
  return n;
}
// one data movement: values from rank to rank, and whether it goes point to point or all to all
struct Move { std::vector<std::map<int, long>> v; bool all; };
static Move move_of(int P, bool all) { Move m; m.v.resize(P); m.all = all; return m; }

static void traffic_check(const fm::Traffic &t, const std::vector<Move> &mv, int me, int P, const std::vector<int> &world, size_t unit, const std::string &what, bool one)
{
  auto bad = [&](const std::string &d) { CO->v.push_back(fm::Violation{"traffic", what + sfmt(": rank %d ", me) + d, -1}); };
  std::map<int, int> back; for (int i = 0; i < P; i++) back[world[i]] = i;
  for (auto &x : t.others) { bad("calls " + x.first); return; }
  for (auto *m : {&t.p2p, &t.a2a}) for (auto &x : *m) if (x.second && !back.count(x.first)) { bad("sends data to a rank outside the communicator"); return; }
  for (int j = 0; j < P; j++) {
    uint64_t want[2] = {0, 0}, nm = 0;
    for (auto &m : mv) { auto it = m.v[me].find(j); if (it != m.v[me].end() && it->second) { want[m.all] += (uint64_t)it->second * unit; if (!m.all) nm++; } }
    auto get = [&](const std::map<int, uint64_t> &m) { auto it = m.find(world[j]); return it == m.end() ? (uint64_t)0 : it->second; };
    uint64_t p = get(t.p2p), a = get(t.a2a), n = get(t.nmsg);
    if (j == me) { if (p) { bad("sends messages to itself"); return; } if (a > want[1]) { bad(sfmt("hands %lu bytes of its own to the all-to-all operation, %lu stay", (unsigned long)a, (unsigned long)want[1])); return; } continue; }
    if (p != want[0]) { bad(sfmt("sends %lu bytes in messages to rank %d, %lu belong there", (unsigned long)p, j, (unsigned long)want[0])); return; }
    if (a != want[1]) { bad(sfmt("sends %lu bytes to rank %d in all-to-all operations, %lu belong there", (unsigned long)a, j, (unsigned long)want[1])); return; }
    if (n > nm) { bad(sfmt("sends %lu messages to rank %d, %lu data movements need one", (unsigned long)n, j, (unsigned long)nm)); return; }
  }
  note("operations_with_traffic_compared");
  if (one && !t.groups.empty()) {               // all-to-all among ranks connected by data to exchange
    std::vector<int> comp(P, 0); std::vector<int> q{me}; comp[me] = 1;
    while (!q.empty()) { int i = q.back(); q.pop_back(); for (int j = 0; j < P; j++) if (!comp[j]) { bool e = false; for (auto &m : mv) { auto a = m.v[i].find(j), b = m.v[j].find(i); if ((a != m.v[i].end() && a->second) || (b != m.v[j].end() && b->second)) e = true; } if (e) { comp[j] = 1; q.push_back(j); } } }
    for (auto &g : t.groups) for (int w : g) if (!back.count(w) || !comp[back[w]]) { bad("takes part in an all-to-all operation with ranks it has no data to exchange with"); return; }
    note("all_to_all_groups_compared");
  }
}

static void case_C18(Rng &r)
{
  Prof p; p.maxN = sizecap(r, 500, 1500, 8000); p.maxP = r.below(10) ? 12 : 32;
  if (r.below(3) == 0) {
    RemapCase c = gen_remap(r, p); c.reps = r.range(1, 2); fm::Options o = gen_sched(r, c.P);
    c.sizes.assign(c.P, {0, 0}); c.hash.assign(c.P, 0); c.memusage.assign(c.P, 0);
    std::vector<fm::Traffic> t(c.P); std::vector<int> world(c.P); size_t nv = CO->v.size();
    good_job(o, [&](int me) {
      RObj x(c, me, VC); world[me] = fm::self(); x.create(); x.setup();
      for (int i = 0; i < c.reps; i++) { fm::Watch w; x.remap(); t[me] = w.t; }
      x.destroy();
    });
    if (CO->v.size() == nv) {
      Move m = move_of(c.P, c.coll);
      for (int i = 0; i < c.P; i++) for (int j = 0; j < c.P; j++) { long n = overlap(c.in[i], c.out[j]); if (n) m.v[i][j] = n; }
      for (int i = 0; i < c.P && CO->v.size() == nv; i++) traffic_check(t[i], {m}, i, c.P, world, c.nqty * sizeof(S), "remap", true);
    }
    finish_remap(c, "remap");
    return;
  }
  Session s; gen_layout(r, s, p); gen_settings(r, s, p); check_gen(s);
  s.tune = false; s.explicit_set = true;
  int dir = r.below(2) ? 1 : -1;
  Op one = gen_op(r, K_ONE, dir); one.oop = true;
  static const int kinds[] = {K_COMPUTE, K_RONLY, K_REMAPS};
  s.ops.push_back(one);
  int n = r.range(1, 3); for (int i = 0; i < n; i++) s.ops.push_back(gen_op(r, kinds[r.below(3)], dir));
  s.prepare();
  fm::Options o = gen_sched(r, s.P);
  s.stage.assign(s.P, {}); s.obs.assign(s.P, Session::Obs());
  std::vector<std::vector<fm::Traffic>> t(s.P); std::vector<int> world(s.P); size_t nv = CO->v.size();
  good_job(o, [&](int me) {
    Obj x(s, me, VC); world[me] = fm::self(); x.create(); x.setup();
    if (s.exch_used != s.exch) { CO->v.push_back(fm::Violation{"traffic", sfmt("the object uses exchange %d instead of %d", s.exch_used, s.exch), me}); }
    x.steps = &t[me];
    x.op(s.ops[0]);
    x.steps = nullptr;
    for (size_t i = 1; i < s.ops.size(); i++) { fm::Watch w; x.op(s.ops[i]); t[me].push_back(w.t); }
    x.destroy();
  });
  int nst = s.g.dim == 3 ? 4 : 3; long N = s.g.N();
  if (CO->v.size() == nv && s.exch == 0 && s.stage_check) {
    // owner of every grid point before, between and after the steps
    auto tiles = [&](const std::vector<Box> &b) { std::vector<int> w(N, -1); for (int i = 0; i < s.P; i++) for (int k = b[i].lo[2]; k <= b[i].hi[2]; k++) for (int j = b[i].lo[1]; j <= b[i].hi[1]; j++) for (int x = b[i].lo[0]; x <= b[i].hi[0]; x++) w[((long)k * s.g.n[1] + j) * s.g.n[0] + x] = i; return w; };
    std::vector<std::vector<int>> own; own.push_back(tiles(dir > 0 ? s.in : s.out));
    bool fwd = dir > 0 || s.same(), whole = true;
    for (int st = 1; st < nst; st++) {
      int along = fwd ? st - 1 : s.g.dim - st; long stride = along == 0 ? 1 : along == 1 ? s.g.n[0] : (long)s.g.n[0] * s.g.n[1];
      std::vector<int> w(N, -1);
      for (int i = 0; i < s.P; i++) for (long v : s.stage[i]) if (v >> 40 == st) { long g0 = v & ((1L << 40) - 1); for (int x = 0; x < s.g.n[along]; x++) w[g0 + x * stride] = i; }
      for (int q : w) if (q < 0) whole = false;
      own.push_back(w);
    }
    own.push_back(tiles(dir > 0 ? s.out : s.in));
    if (whole) {
      std::vector<Move> mv;
      for (int st = 0; st < nst; st++) {
        bool ends = st == 0 || st == nst - 1; Move m = move_of(s.P, s.coll == 1 || (s.coll == 2 && !ends));
        for (long g = 0; g < N; g++) m.v[own[st][g]][own[st + 1][g]]++;
        mv.push_back(m);
      }
      for (int i = 0; i < s.P && CO->v.size() == nv; i++) {
        for (int st = 0; st < nst && CO->v.size() == nv; st++) traffic_check(t[i][st], {mv[st]}, i, s.P, world, 2 * sizeof(S), sfmt("only_one_remap, step %d, direction %d", st + 1, dir), true);
        for (size_t k = nst; k < t[i].size() && CO->v.size() == nv; k++) traffic_check(t[i][k], mv, i, s.P, world, 2 * sizeof(S), sfmt("operation %d, direction %d", (int)(k - nst + 2), dir), false);
      }
    }
  } else if (CO->v.size() == nv) {              // intermediate layouts unknown: kinds of communication, and at most once per data movement
    int nmv = s.exch ? 2 + 2 * (s.g.dim - 1) : nst; bool p2p = s.coll == 0 || s.coll == 2, a2a = s.coll == 1 || (s.coll == 2 && !s.exch);
    auto bad = [&](const std::string &d) { CO->v.push_back(fm::Violation{"traffic", d, -1}); };
    for (size_t k = 0; k < t[0].size() && CO->v.size() == nv; k++) {
      uint64_t tot = 0;
      for (int i = 0; i < s.P && CO->v.size() == nv; i++) {
        for (auto &x : t[i][k].others) { bad(sfmt("rank %d calls ", i) + x.first); break; }
        for (auto &x : t[i][k].p2p) { if (x.second && !p2p) { bad(sfmt("rank %d sends messages although collective is %d and exchange %d", i, s.coll, s.exch)); break; } if (x.first == world[i]) { bad(sfmt("rank %d sends messages to itself", i)); break; } tot += x.second; }
        for (auto &x : t[i][k].a2a) { if (x.second && !a2a) { bad(sfmt("rank %d takes part in all-to-all operations although collective is %d and exchange %d", i, s.coll, s.exch)); break; } if (x.first != world[i]) tot += x.second; }
      }
      uint64_t lim = (uint64_t)N * 2 * sizeof(S) * ((int)k < nst ? (s.exch ? 2 : 1) : nmv);
      if (CO->v.size() == nv && tot > lim) bad(sfmt("%lu bytes travel, %lu at most are needed", (unsigned long)tot, (unsigned long)lim));
      note("operations_with_traffic_bounded");
    }
  }
  finish_case(s, "traffic");
}

struct PropFn { const char *id; void (*fn)(Rng &); };
static const PropFn props[] = {{"C01", case_C01}, {"C02", case_C02}, {"C03", case_C03}, {"C04", case_C04}, {"C05", case_C05}, {"C06", case_C06}, {"C07", case_C07}, {"C08", case_C08}, {"C09", case_C09}, {"C10", case_C10}, {"C11", case_C11}, {"C12", case_C12}, {"C13", case_C13}, {"C14", case_C14}, {"C15", case_C15}, {"C16", case_C16}, {"X08", case_X08}, {"C18", case_C18}};

static std::string js(const std::string &s)
{
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o + "\"";
}

static volatile sig_atomic_t alarmed = 0;
static void on_prof(int) { static const char m[] = "\nHARNESS-TIMEOUT: a case used too much CPU time\n"; if (write(2, m, sizeof m - 1)) {} _Exit(95); }

int main(int argc, char **argv)
{
  std::string prop = "C01"; uint64_t seed = 1; long from = 0, to = 10, only = -1; double budget = 1e9; int casecpu = 60;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--from") from = atol(nx().c_str()); else if (a == "--to") to = atol(nx().c_str());
    else if (a == "--tier") tier = nx() == "thorough"; else if (a == "--case") only = atol(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--casecpu") casecpu = atoi(nx().c_str()); else if (a == "--lib") LIBNAME = strdup(nx().c_str());
  }
  if (only >= 0) { from = only; to = only + 1; }
  use_fortran = have_fortran();
  proto = fdopen(dup(1), "w");
  { char t[] = "/tmp/vh_out_XXXXXX"; outfd = mkstemp(t); unlink(t); dup2(outfd, 1); }
  void (*fn)(Rng &) = nullptr; int pi = 0;
  for (auto &x : props) { pi++; if (prop == x.id) { fn = x.fn; break; } }
  if (!fn) { fprintf(proto, "unknown property\n"); return 2; }
  signal(SIGPROF, on_prof);
  struct timeval t0; gettimeofday(&t0, nullptr);
  for (long i = from; i < to; i++) {
    struct timeval t; gettimeofday(&t, nullptr);
    if ((t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec) > budget) break;
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = casecpu; setitimer(ITIMER_PROF, &it, nullptr);
    fprintf(proto, "B %ld\n", i); fflush(proto);
    CaseOut co; CO = &co; fm::globals_reset();
    Rng r(hmix(hmix(seed, (uint64_t)i + 1), (uint64_t)pi * 977));
    if (ftruncate(outfd, 0)) {} lseek(outfd, 0, SEEK_SET);
    MonCount m0 = mon;
    fn(r);
    fprintf(proto, "E {\"i\":%ld,\"sig\":\"%016lx\",\"nt\":%d,\"runs\":%lu,\"steps\":%lu,\"switches\":%lu,\"messages\":%lu,\"colls\":%lu,\"bytes\":%lu,\"blocked\":%lu,\"any\":%lu,\"preempts\":%lu,\"values\":%lu,\"exact\":%lu,\"ops\":%lu,\"P\":%d,\"tag\":%s",
            i, (unsigned long)co.sig, (int)co.nontrivial, co.runs, co.steps, co.switches, co.messages, co.colls, co.bytes, co.blocked, co.anychoices, co.preempts,
            mon.values - m0.values, mon.exact - m0.exact, mon.ops - m0.ops, co.maxP, js(co.tag).c_str());
    fprintf(proto, ",\"sched\":[");
    for (size_t k = 0; k < co.scheds.size(); k++) fprintf(proto, "%s\"%lx\"", k ? "," : "", (unsigned long)co.scheds[k]);
    fprintf(proto, "],\"notes\":{"); int q = 0;
    for (auto &n : co.notes) fprintf(proto, "%s%s:%lu", q++ ? "," : "", js(n.first).c_str(), (unsigned long)n.second);
    fprintf(proto, "},\"calls\":{"); q = 0;
    for (auto &n : co.calls) fprintf(proto, "%s%s:%lu", q++ ? "," : "", js(n.first).c_str(), (unsigned long)n.second);
    fprintf(proto, "},\"v\":["); q = 0;
    for (auto &v : co.v) { fprintf(proto, "%s[%s,%s,%d]", q++ ? "," : "", js(v.kind).c_str(), js(v.detail).c_str(), v.rank); if (q > 12) break; }
    fprintf(proto, "]");
    if (!co.v.empty() || i % 97 == 0 || only >= 0 || getenv("VERIF_TEXT")) fprintf(proto, ",\"text\":%s", js(co.text).c_str());
    fprintf(proto, "}\n"); fflush(proto);
  }
  fprintf(proto, "D %.6f\n", worst_ratio); fflush(proto);
  _Exit(0);
}
