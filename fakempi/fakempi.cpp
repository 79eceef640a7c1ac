// Simulated MPI: ranks are threads, exactly one runs at a time (baton), every
// scheduling / matching / completion / clock decision comes from one seed.
#include "mpi.h"
#include "fakempi.h"
#include <sys/mman.h>
#include <setjmp.h>
#include <semaphore.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <atomic>
#include <stdarg.h>
#if defined(__SANITIZE_ADDRESS__) || defined(FM_SAN_ALLOC)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define FM_HOOKS 1
#endif

using namespace fm;
typedef std::vector<unsigned char> Bytes;

// ---------------------------------------------------------------- objects

struct fm_dtype_s { int id; int size; int base; int freed; int owner; };

struct Coll;
struct CommObj {
  int id;
  std::vector<int> members;                    // world ranks
  std::vector<uint64_t> seq;                   // per member: next collective number
  std::map<uint64_t, std::shared_ptr<Coll>> colls;
  std::map<int, int> groupseq;
};
struct fm_comm_s { unsigned magic; CommObj *obj; int rank; int owner; bool freed, predef; int fint; };
struct fm_group_s { std::vector<int> members; int owner; bool freed, predef; };

struct Msg {                                   // a posted send
  CommObj *comm; int src, dst, tag; MPI_Datatype type; size_t bytes;
  const void *buf; Bytes data; bool eager; bool matched = false; uint64_t seq;
  fm_req_s *req = nullptr; uint64_t hash = 0;
};
typedef std::shared_ptr<Msg> MsgP;

struct fm_req_s {
  int owner; int kind;                         // 1 send 2 recv 3 coll
  bool active = true, freed = false, persistent = false, null_peer = false;
  CommObj *comm = nullptr; int crank = 0;
  void *buf = nullptr; int count = 0; MPI_Datatype type = nullptr; int peer = 0, tag = 0; bool sync = false;
  size_t bytes = 0;
  bool matched = false; uint64_t arrive = 0; Bytes payload; int msrc = 0, mtag = 0; MPI_Datatype mtype = nullptr;
  bool cancelled = false;
  MsgP msg;
  std::function<bool()> ready; std::function<void()> finish;
};

struct Coll {
  std::string kind; int root = -1, op = 0; int n;
  std::vector<char> arrived; int narrived = 0, nleft = 0;
  std::vector<Bytes> contrib;                  // contribution of each member
  std::vector<std::vector<size_t>> off, len;   // per member, per destination
  std::vector<std::vector<int>> base;          // element base type per destination
  std::vector<std::vector<size_t>> rlen;       // what each member expects per source
  std::vector<std::vector<int>> rbase;
  std::vector<long> param, param2;             // e.g. color/key, count
  std::vector<std::vector<int>> groups;
  std::map<int, CommObj *> made;               // first-member -> comm
  bool checked = false;
};

enum St { ST_NONE, ST_READY, ST_BLOCKED, ST_DONE };
struct Rank {
  int id; St st = ST_NONE; sem_t sem; pthread_t th; bool started = false;
  const std::function<bool()> *pred = nullptr; const char *what = "";
  jmp_buf jb; int kill = 0; int end = E_OK, code = 0; bool finalized = false;
  fm_comm_s *world = nullptr, *self = nullptr; double clock = 0, clock0 = 0, rate = 1; uint64_t nclock = 0, moved = 0; bool body = false;
};

struct Region { int rank; const char *lo, *hi; bool write; const void *key; };

static const int MAXR = 512;
static Rank R[MAXR];
static sem_t main_sem;
static thread_local int tls_rank = -1;
static Options O;
static Rng rng(1);
static Result *RES = nullptr;
static const std::function<void(int)> *BODY = nullptr;
static std::vector<std::unique_ptr<CommObj>> commobjs;
static std::vector<std::unique_ptr<fm_comm_s>> comms;
static std::vector<std::unique_ptr<fm_group_s>> groups;
static std::vector<std::unique_ptr<fm_req_s>> reqs;
static std::vector<std::unique_ptr<fm_dtype_s>> dtypes;
static std::list<MsgP> unmatched;              // unmatched sends in post order
static std::list<fm_req_s *> posted;           // unmatched recvs in post order
static std::vector<Region> regions;
static std::multiset<uint64_t> arrivals;
static uint64_t step_no = 0, msg_seq = 0;
static int rr_last = 0;
static int poolsize = 0;
static bool any_abort = false;

thread_local int fm::in_lib = 0;

namespace {
struct NoLib { int saved; NoLib() : saved(fm::in_lib) { fm::in_lib = 0; } ~NoLib() { fm::in_lib = saved; } };
}

int fm::self() { return tls_rank; }
uint64_t fm::steps() { return step_no; }

void fm::violation(const std::string &kind, const std::string &detail)
{
  NoLib nl;
  if (RES && RES->v.size() < 40) RES->v.push_back(Violation{kind, detail, tls_rank});
}

static std::string fmt(const char *f, ...)
{
  char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// ---------------------------------------------------------------- scheduler

static bool runnable(Rank &r)
{
  if (r.st == ST_READY) return true;
  if (r.st != ST_BLOCKED) return false;
  if (r.kill) return true;
  return (*r.pred)();
}

static void note_deadlock()
{
  RES->deadlock = true;
  std::string d;
  for (int i = 0; i < O.nranks; i++) {
    if (R[i].st == ST_BLOCKED) d += fmt(" rank%d:%s", i, R[i].what);
    else if (R[i].st == ST_DONE) d += fmt(" rank%d:ended", i);
  }
  if (!any_abort) RES->v.push_back(Violation{"deadlock", "no rank can proceed:" + d, -1});
}

static int pick(int me)
{
  for (int tries = 0;; tries++) {
    int cand[MAXR], n = 0, unfinished = 0;
    for (int i = 0; i < O.nranks; i++) {
      if (R[i].st != ST_DONE) unfinished++;
      if (runnable(R[i])) cand[n++] = i;
    }
    if (n) {
      if (n > 1) RES->preempts++;
      switch (O.sched) {
      case S_RUNTOBLOCK:
        for (int k = 0; k < n; k++) if (cand[k] == me) return me;
        return cand[rng.below(n)];
      case S_ROUNDROBIN: {
        for (int k = 1; k <= O.nranks; k++) {
          int c = (rr_last + k) % O.nranks;
          for (int q = 0; q < n; q++) if (cand[q] == c) { rr_last = c; return c; }
        }
        return cand[0];
      }
      case S_STARVE: {
        int m = 0, c2[MAXR];
        for (int k = 0; k < n; k++) if (cand[k] != O.victim) c2[m++] = cand[k];
        if (m) return c2[rng.below(m)];
        return cand[0];
      }
      case S_FAVOR:
        for (int k = 0; k < n; k++) if (cand[k] == O.victim) return O.victim;
        return cand[rng.below(n)];
      case S_REVERSE: return cand[n - 1];
      default: return cand[rng.below(n)];
      }
    }
    if (!unfinished) return -1;
    // nothing can run: deliver delayed messages first
    if (!arrivals.empty()) {
      uint64_t t = *arrivals.begin();
      arrivals.erase(arrivals.begin());
      if (t > step_no) step_no = t;
      continue;
    }
    note_deadlock();
    for (int i = 0; i < O.nranks; i++) if (R[i].st == ST_BLOCKED) R[i].kill = 1;
  }
}

// Mutable static data of the library (the build puts it into one section): ranks are threads of one process here but
// processes of their own in an MPI job, so every rank has its own copy, exchanged when another rank gets to run.
extern "C" { extern char __start_libvar[] __attribute__((weak)); extern char __stop_libvar[] __attribute__((weak)); }
static std::vector<char *> gimg; static char *gpristine = nullptr; static int gowner = -1;

__attribute__((no_sanitize("address"), noinline)) static void rawcopy(char *d, const char *s, size_t n)
{
  volatile char *dd = d; const volatile char *ss = s;
  if (n % 8 == 0 && ((uintptr_t)d | (uintptr_t)s) % 8 == 0) {
    volatile uint64_t *a = (volatile uint64_t *)d; const volatile uint64_t *b = (const volatile uint64_t *)s;
    for (size_t i = 0; i < n / 8; i++) a[i] = b[i];
    return;
  }
  for (size_t i = 0; i < n; i++) dd[i] = ss[i];
}

static void globals_of(int me)
{
  char *lo = __start_libvar, *hi = __stop_libvar;
  if (!lo || lo == hi || gowner == me) return;
  size_t n = (size_t)(hi - lo);
  if (!gpristine) { gpristine = (char *)malloc(n); rawcopy(gpristine, lo, n); }
  if ((int)gimg.size() <= std::max(me, gowner)) gimg.resize(std::max(me, gowner) + 1, nullptr);
  if (gowner >= 0) { if (!gimg[gowner]) gimg[gowner] = (char *)malloc(n); rawcopy(gimg[gowner], lo, n); }
  rawcopy(lo, gimg[me] ? gimg[me] : gpristine, n);
  gowner = me;
}

void fm::globals_reset()
{
  char *lo = __start_libvar, *hi = __stop_libvar;
  if (!lo || lo == hi || !gpristine) return;
  for (auto &p : gimg) { free(p); p = nullptr; }
  rawcopy(lo, gpristine, (size_t)(hi - lo)); gowner = -1;
}

static void switch_to(int me, int next)
{
  RES->sched_hash = (RES->sched_hash ^ (uint64_t)(next + 1)) * 0x100000001b3ull;
  if (next == me) return;
  RES->switches++;
  bool wait = me >= 0 && R[me].st != ST_DONE;    // decided before another thread can start the next job
  if (next < 0) sem_post(&main_sem);
  else sem_post(&R[next].sem);
  if (wait) { while (sem_wait(&R[me].sem)) {} globals_of(me); }
}

[[noreturn]] static void unwind(int end, int code)
{
  Rank &r = R[tls_rank];
  r.end = end; r.code = code;
  fm::in_lib = 0;
  longjmp(r.jb, 1);
}

static void check_kill()
{
  Rank &r = R[tls_rank];
  if (r.kill) unwind(E_KILLED, 0);
}

static void yield_now()
{
  Rank &r = R[tls_rank];
  int nx = pick(r.id);
  switch_to(r.id, nx);
  check_kill();
}

static void block(const char *what, const std::function<bool()> &pred)
{
  Rank &r = R[tls_rank];
  if (pred()) return;
  RES->blocked++;
  r.st = ST_BLOCKED; r.pred = &pred; r.what = what;
  int nx = pick(r.id);
  switch_to(r.id, nx);
  r.st = ST_READY; r.pred = nullptr;
  check_kill();
}

static thread_local fm::Traffic *tls_watch = nullptr;
fm::Watch::Watch() : outer(tls_watch) { tls_watch = &t; }
fm::Watch::~Watch() { tls_watch = outer; }
// calls that move data between two ranks or all-to-all, complete them, or do not communicate
static bool plain_call(const std::string &n)
{
  static const std::set<std::string> ok = {"MPI_Send", "MPI_Ssend", "MPI_Bsend", "MPI_Rsend", "MPI_Isend", "MPI_Issend", "MPI_Ibsend", "MPI_Irsend", "MPI_Send_init", "MPI_Ssend_init", "MPI_Recv", "MPI_Irecv", "MPI_Recv_init", "MPI_Start", "MPI_Startall",
    "MPI_Sendrecv", "MPI_Sendrecv_replace", "MPI_Probe", "MPI_Iprobe", "MPI_Wait", "MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Test", "MPI_Testall", "MPI_Testany", "MPI_Testsome", "MPI_Request_free",
    "MPI_Alltoall", "MPI_Alltoallv", "MPI_Alltoallw", "MPI_Ialltoall", "MPI_Ialltoallv", "MPI_Comm_rank", "MPI_Comm_size", "MPI_Wtime", "MPI_Wtick", "MPI_Get_count", "MPI_Type_size", "MPI_Type_get_extent", "MPI_Get_address", "MPI_Type_commit", "MPI_Type_contiguous", "MPI_Type_free", "MPI_Type_dup", "MPI_Initialized", "MPI_Finalized"};
  return ok.count(n) > 0;
}

static void enter(const char *name)
{
  if (tls_watch && !plain_call(name)) tls_watch->others[name]++;
  if (tls_rank < 0) { fprintf(stderr, "fakempi: %s called outside a rank\n", name); abort(); }
  Rank &r = R[tls_rank];
  if (r.kill) unwind(E_KILLED, 0);
  RES->calls[name]++;
  step_no++; RES->steps++;
  while (!arrivals.empty() && *arrivals.begin() <= step_no) arrivals.erase(arrivals.begin());
  if (r.finalized) fm::violation("mpi-after-finalize", name);
  if (RES->steps > O.max_steps) {
    if (!RES->livelock) { RES->livelock = true; fm::violation("no-progress", fmt("more than %llu MPI calls", (unsigned long long)O.max_steps)); }
    for (int i = 0; i < O.nranks; i++) R[i].kill = 1;
    unwind(E_KILLED, 0);
  }
  yield_now();
}

struct Call {
  NoLib nl;
  explicit Call(const char *n) { enter(n); }
};

static void *rank_thread(void *a)
{
  int id = (int)(intptr_t)a;
  tls_rank = id;
  for (;;) {
    while (sem_wait(&R[id].sem)) {}
    fm::in_lib = 0; tls_watch = nullptr;
    globals_of(id);
    if (setjmp(R[id].jb) == 0) {
      (*BODY)(id);
    }
    fm::in_lib = 0; tls_watch = nullptr;
    R[id].st = ST_DONE;
    int nx = pick(id);
    switch_to(id, nx);
  }
  return nullptr;
}

static CommObj *new_commobj(const std::vector<int> &m)
{
  commobjs.emplace_back(new CommObj);
  CommObj *c = commobjs.back().get();
  c->id = (int)commobjs.size(); c->members = m; c->seq.assign(m.size(), 0);
  return c;
}

static fm_comm_s *new_comm(CommObj *o, int owner, bool predef)
{
  comms.emplace_back(new fm_comm_s);
  fm_comm_s *c = comms.back().get();
  c->magic = 0xC0331234u; c->obj = o; c->owner = owner; c->freed = false; c->predef = predef;
  c->rank = (int)(std::find(o->members.begin(), o->members.end(), owner) - o->members.begin());
  c->fint = (int)comms.size() - 1 + 1000;
  return c;
}

Result fm::run(const Options &o, const std::function<void(int)> &body)
{
  Result res;
  O = o; RES = &res; BODY = &body; rng = Rng(o.seed * 0x9E3779B97F4A7C15ull + 77);
  step_no = 0; msg_seq = 0; any_abort = false;
  rr_last = o.nranks ? (int)(o.seed % o.nranks) : 0;
  commobjs.clear(); comms.clear(); groups.clear(); reqs.clear(); unmatched.clear(); posted.clear();
  regions.clear(); arrivals.clear(); dtypes.clear();
  static bool once = false;
  if (!once) { once = true; sem_init(&main_sem, 0, 0); }
  std::vector<int> all;
  for (int i = 0; i < o.nranks; i++) all.push_back(i);
  CommObj *w = new_commobj(all);
  for (int i = 0; i < o.nranks; i++) {
    Rank &r = R[i];
    r.id = i; r.st = ST_READY; r.kill = 0; r.end = E_OK; r.code = 0; r.finalized = false; r.pred = nullptr;
    r.world = new_comm(w, i, true);
    r.self = new_comm(new_commobj(std::vector<int>(1, i)), i, true);
    r.clock = o.clock_mode ? rng.uni() * 1000.0 : 0.0;
    r.clock0 = r.clock; r.nclock = 0; r.moved = 0;
    r.rate = 1.0;
    if (o.clock_mode == 2) r.rate = pow(10.0, rng.uni() * 2 - 1);
    if (i >= poolsize) {
      sem_init(&r.sem, 0, 0);
      pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
      if (pthread_create(&r.th, &at, rank_thread, (void *)(intptr_t)i)) { perror("pthread_create"); _Exit(99); }
      pthread_attr_destroy(&at);
      poolsize = i + 1;
    }
  }
  int first = pick(-1);
  sem_post(&R[first].sem);
  while (sem_wait(&main_sem)) {}

  bool clean = true;
  for (int i = 0; i < o.nranks; i++) {
    res.end.push_back(R[i].end); res.code.push_back(R[i].code); res.finalized.push_back(R[i].finalized);
    if (R[i].end != E_OK) clean = false;
  }
  if (clean) {
    for (auto &m : unmatched)
      res.v.push_back(Violation{"leftover-message", fmt("message %d->%d tag %d (%zu bytes) never received", m->src, m->dst, m->tag, m->bytes), m->dst});
    for (int i = 0; i < o.nranks; i++) {
      int a = live_comms(i), b = live_groups(i), c = live_requests(i), d = live_types(i);
      if (a) res.v.push_back(Violation{"leak-comm", fmt("rank %d ended with %d live communicators", i, a), i});
      if (b) res.v.push_back(Violation{"leak-group", fmt("rank %d ended with %d live groups", i, b), i});
      if (c) res.v.push_back(Violation{"leak-request", fmt("rank %d ended with %d live requests", i, c), i});
      if (d) res.v.push_back(Violation{"leak-type", fmt("rank %d ended with %d live datatypes", i, d), i});
    }
    for (auto &c : commobjs) if (!c->colls.empty())
      res.v.push_back(Violation{"unfinished-collective", fmt("collective %s not entered by all ranks", c->colls.begin()->second->kind.c_str()), -1});
  }
  RES = nullptr; BODY = nullptr;
  if (!clean) fm::globals_reset();               // those processes are gone
  commobjs.clear(); comms.clear(); groups.clear(); reqs.clear(); unmatched.clear(); posted.clear(); regions.clear(); dtypes.clear(); arrivals.clear();
  return res;
}

int fm::live_comms(int rank) { int n = 0; for (auto &c : comms) if (!c->freed && !c->predef && c->owner == rank) n++; return n; }
int fm::live_groups(int rank) { int n = 0; for (auto &c : groups) if (!c->freed && !c->predef && c->owner == rank) n++; return n; }
void fm::work(uint64_t units) { if (tls_rank >= 0) R[tls_rank].moved += units; }
int fm::live_requests(int rank) { int n = 0; for (auto &c : reqs) if (!c->freed && c->owner == rank) n++; return n; }
int fm::live_types(int rank) { int n = 0; for (auto &c : dtypes) if (!c->freed && c->owner == rank) n++; return n; }

// ---------------------------------------------------------------- process exit

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __real_abort(void) __attribute__((noreturn));
void __wrap_exit(int c) { if (tls_rank >= 0) { NoLib nl; unwind(E_EXIT, c); } __real_exit(c); }
void __wrap__exit(int c) { if (tls_rank >= 0) { NoLib nl; unwind(E_EXIT, c); } __real__exit(c); }
void __wrap_quick_exit(int c) { if (tls_rank >= 0) { NoLib nl; unwind(E_EXIT, c); } __real__exit(c); }
void __wrap_abort(void) { if (tls_rank >= 0) { NoLib nl; for (int i = 0; i < O.nranks; i++) if (i != tls_rank) R[i].kill = 1; any_abort = true; unwind(E_ABORT, 134); } __real_abort(); }
}

// ---------------------------------------------------------------- allocation faults

static int af_rank = -1, af_nth = 0, af_count = 0, af_fired = 0; static size_t af_min = 0;
static bool alloc_fault(size_t n)
{
  if (af_rank < 0 || tls_rank != af_rank || fm::in_lib <= 0 || n < af_min || af_fired) return false;
  if (++af_count < af_nth) return false;
  af_fired = 1;
  return true;
}
extern "C" {
int fm_alloc_arm(int rank, int nth, size_t minsize) { af_rank = rank; af_nth = nth; af_min = minsize; af_count = 0; af_fired = 0; return 0; }
int fm_alloc_fired(void) { return af_fired; }
int fm_alloc_count(void) { return af_count; }
int __real_posix_memalign(void **, size_t, size_t);
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
void __real_free(void *);
// blocks beyond 256 MB get address space only, so that setups on enormous grids can be run
static const size_t BIGBLOCK = (size_t)256 << 20;
static struct { void *p; size_t n; } bigtab[512]; static std::atomic<int> nbig{0}; static std::atomic_flag biglock = ATOMIC_FLAG_INIT;
static void *big_alloc(size_t n)
{
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return nullptr;
  while (biglock.test_and_set(std::memory_order_acquire)) {}
  for (auto &b : bigtab) if (!b.p) { b.p = p; b.n = n; nbig++; break; }
  biglock.clear(std::memory_order_release);
  return p;
}
void __wrap_free(void *p)
{
  if (nbig && p) {
    size_t n = 0;
    while (biglock.test_and_set(std::memory_order_acquire)) {}
    for (auto &b : bigtab) if (b.p == p) { n = b.n; b.p = nullptr; nbig--; break; }
    biglock.clear(std::memory_order_release);
    if (n) { munmap(p, n); return; }
  }
  __real_free(p);
}
static thread_local bool tls_aligned = false;   // an aligned (or resized) block is being allocated: how the library makes its tables and buffers
struct Aligned { Aligned() { tls_aligned = true; } ~Aligned() { tls_aligned = false; } };
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (alloc_fault(n)) return 12; if (n > BIGBLOCK) { *p = big_alloc(n); return *p ? 0 : 12; } Aligned g; return __real_posix_memalign(p, a, n); }
void *__wrap_malloc(size_t n) { if (alloc_fault(n)) return nullptr; return n > BIGBLOCK ? big_alloc(n) : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { Aligned g; return alloc_fault(n) ? nullptr : __real_realloc(p, n); }
void *__wrap_calloc(size_t a, size_t b) { return alloc_fault(a * b) ? nullptr : __real_calloc(a, b); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return alloc_fault(n) ? nullptr : __real_aligned_alloc(a, n); }
}

// ---------------------------------------------------------------- heap hooks

static const size_t HT = 1 << 18;
struct HEnt { void *p; size_t n; int rank; bool al; };
static int64_t hrank[2][1024];                     // live bytes per rank: all, aligned
static HEnt *htab = nullptr;
static std::atomic_flag hlock_ = ATOMIC_FLAG_INIT;
static int64_t hblocks = 0, hbytes = 0;
static void *ubufs[4096]; static int nubufs = 0;

static void hlock() { while (hlock_.test_and_set(std::memory_order_acquire)) {} }
static void hunlock() { hlock_.clear(std::memory_order_release); }
static size_t hidx(const void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (HT - 1); }

static bool hremove(void *p)
{
  size_t i = hidx(p);
  while (htab[i].p) {
    if (htab[i].p == p) {
      hblocks--; hbytes -= (int64_t)htab[i].n;
      if (htab[i].rank >= 0 && htab[i].rank < 1024) { hrank[0][htab[i].rank] -= (int64_t)htab[i].n; if (htab[i].al) hrank[1][htab[i].rank] -= (int64_t)htab[i].n; }
      size_t j = i;
      for (;;) {                                  // backward-shift deletion
        j = (j + 1) & (HT - 1);
        if (!htab[j].p) break;
        size_t k = hidx(htab[j].p);
        if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
        htab[i] = htab[j]; i = j;
      }
      htab[i].p = nullptr;
      return true;
    }
    i = (i + 1) & (HT - 1);
  }
  return false;
}

#ifdef FM_HOOKS
static void on_malloc(const volatile void *vp, size_t n)
{
  if (!htab || fm::in_lib <= 0) return;
  void *p = (void *)vp;
  hlock();
  if (hblocks < (int64_t)HT / 2) {
    size_t i = hidx(p);
    while (htab[i].p && htab[i].p != p) i = (i + 1) & (HT - 1);
    if (!htab[i].p) {
      htab[i] = HEnt{p, n, tls_rank, tls_aligned}; hblocks++; hbytes += (int64_t)n;
      if (tls_rank >= 0 && tls_rank < 1024) { hrank[0][tls_rank] += (int64_t)n; if (tls_aligned) hrank[1][tls_rank] += (int64_t)n; }
    }
  }
  hunlock();
}
static void on_free(const volatile void *vp)
{
  if (!htab || !vp) return;
  hlock();
  bool mine = hremove((void *)vp);
  bool user = false;
  if (!mine && fm::in_lib > 0) for (int i = 0; i < nubufs; i++) if (ubufs[i] == (void *)vp) user = true;
  hunlock();
  if (user) { NoLib nl; fm::violation("freed-user-memory", "the library released a buffer that belongs to the caller"); }
}
#endif

bool fm::heap_tracking()
{
#ifdef FM_HOOKS
  return true;
#else
  return false;
#endif
}

void fm::heap_reset()
{
#ifdef FM_HOOKS
  if (!htab) {
    htab = (HEnt *)calloc(HT, sizeof(HEnt));
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  }
  hlock(); memset(htab, 0, HT * sizeof(HEnt)); hblocks = hbytes = 0; nubufs = 0; memset(hrank, 0, sizeof hrank); hunlock();
#endif
}
int64_t fm::heap_live_blocks() { return hblocks; }
int64_t fm::heap_live_bytes() { return hbytes; }
int64_t fm::heap_rank_bytes(int rank, bool aligned) { hlock(); int64_t n = rank >= 0 && rank < 1024 ? hrank[aligned][rank] : 0; hunlock(); return n; }
void fm::user_buffer_add(void *p) { if (!p) return; hlock(); if (nubufs < 4096) ubufs[nubufs++] = p; hunlock(); }
void fm::user_buffer_del(void *p) { if (!p) return; hlock(); for (int i = 0; i < nubufs; i++) if (ubufs[i] == p) { ubufs[i] = ubufs[--nubufs]; break; } hunlock(); }

// ---------------------------------------------------------------- datatypes

static const int NBASIC = 31;
static fm_dtype_s basic[NBASIC];
static const int bsize[NBASIC] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 2, 4, 8, 1, 2, 4, 8, 1, 16, 8, 8, 8, 16, 8, 1};
static bool basic_init = [] { for (int i = 0; i < NBASIC; i++) { basic[i].id = i; basic[i].size = bsize[i]; basic[i].base = i; basic[i].freed = 0; basic[i].owner = -1; } return true; }();

extern "C" MPI_Datatype fm_type(int i) { return &basic[i]; }

static size_t tsize(MPI_Datatype t, const char *f)
{
  if (!t || t->freed) { fm::violation("mpi-usage", std::string(f) + ": invalid datatype"); return 1; }
  return (size_t)t->size;
}

static bool type_ok(MPI_Datatype a, MPI_Datatype b)
{
  if (!a || !b) return false;
  return a->base == b->base || a->base == 0 || b->base == 0 || a->base == 30 || b->base == 30;
}

// ---------------------------------------------------------------- helpers

static CommObj *getc(MPI_Comm c, const char *f, int *rank = nullptr)
{
  if (!c) { fm::violation("mpi-usage", std::string(f) + " on a null communicator"); any_abort = true; for (int i = 0; i < O.nranks; i++) R[i].kill = 1; unwind(E_ABORT, 1); }
  if (c->magic != 0xC0331234u || c->owner != tls_rank) { fm::violation("mpi-usage", std::string(f) + " on an invalid communicator handle"); any_abort = true; for (int i = 0; i < O.nranks; i++) R[i].kill = 1; unwind(E_ABORT, 1); }
  if (c->freed) fm::violation("mpi-usage", std::string(f) + " on a freed communicator");
  if (rank) *rank = c->rank;
  return c->obj;
}

static uint64_t hashb(const void *p, size_t n)
{
  uint64_t h = 1469598103934665603ull;
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}

static bool region_check(const char *f, const void *p, size_t n, bool write)
{
  if (!n) return true;
  const char *lo = (const char *)p, *hi = lo + n;
  for (auto &r : regions) {
    if (r.rank != tls_rank) continue;
    if (!(r.write || write)) continue;
    if (lo < r.hi && r.lo < hi) { fm::violation("buffer-overlap", std::string(f) + ": buffer overlaps one still in use by an outstanding operation"); return false; }
  }
  return true;
}
static void region_add(const void *key, const void *p, size_t n, bool write) { if (n) regions.push_back(Region{tls_rank, (const char *)p, (const char *)p + n, write, key}); }
static void region_del(const void *key) { for (size_t i = 0; i < regions.size();) if (regions[i].key == key) regions.erase(regions.begin() + i); else i++; }

// ---------------------------------------------------------------- init etc

extern "C" {

int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SERIALIZED; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = tls_rank >= 0 ? R[tls_rank].finalized : 0; return 0; }
int MPI_Finalize(void) { Call c("MPI_Finalize"); R[tls_rank].finalized = true; return 0; }
int MPI_Abort(MPI_Comm, int code)
{
  Call c("MPI_Abort");
  any_abort = true;
  for (int i = 0; i < O.nranks; i++) if (i != tls_rank) R[i].kill = 1;
  unwind(E_ABORT, code);
}
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; return 0; }
int MPI_Is_thread_main(int *p) { *p = 1; return 0; }
double MPI_Wtick(void) { return 1e-9; }
double MPI_Wtime(void)
{
  Call c("MPI_Wtime");
  Rank &r = R[tls_rank];
  double t = O.clock_tick;
  if (O.clock_mode == 1) t *= pow(10.0, rng.uni() * 3 - 1.5);
  else if (O.clock_mode == 2) t *= r.rate * (0.5 + rng.uni());
  else if (O.clock_mode == 3) t *= ((step_no + (uint64_t)r.id * 7919) % 3 == 0) ? 20.0 * (1 + rng.uni()) : 0.05 * (1 + rng.uni());
  else if (O.clock_mode == 4) return r.clock0 + (double)RES->steps * t;   // time passes with every MPI call of the job
  else if (O.clock_mode == 8) return r.clock0 + floor((double)RES->steps / (16.0 + (double)(O.seed % 4096))) * t;   // coarse: many readings are equal
  else if (O.clock_mode == 9) return r.clock0;                             // stands still
  else if (O.clock_mode == 7) return r.clock0 + ((double)r.moved + 1e-5 * (double)++r.nclock) * t;   // time passes with the data this rank sends and receives
  else if (O.clock_mode == 5) { Rng h(O.seed ^ ((uint64_t)r.id << 40) ^ (uint64_t)r.nclock++); t *= 0.1 + 10 * h.uni(); }  // depends on rank and call count only
  else if (O.clock_mode == 6) t *= ++r.nclock % 2 ? 1e-3 : 1e3;
  r.clock += t;
  return r.clock;
}
int MPI_Get_processor_name(char *s, int *n) { strcpy(s, "sim"); *n = 3; return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Error_string(int, char *s, int *n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler *) { return 0; }

// ---------------------------------------------------------------- communicators

MPI_Comm fm_comm_world(void) { return tls_rank >= 0 ? R[tls_rank].world : nullptr; }
MPI_Comm fm_comm_self(void) { return tls_rank >= 0 ? R[tls_rank].self : nullptr; }
static fm_group_s empty_group = {{}, -1, false, true};
MPI_Group fm_group_empty(void) { return &empty_group; }

int MPI_Comm_rank(MPI_Comm c, int *r) { Call k("MPI_Comm_rank"); getc(c, "MPI_Comm_rank", r); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { Call k("MPI_Comm_size"); *n = (int)getc(c, "MPI_Comm_size")->members.size(); return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *f) { Call k("MPI_Comm_test_inter"); getc(c, "MPI_Comm_test_inter"); *f = 0; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char *s, int *n) { s[0] = 0; *n = 0; return 0; }
int MPI_Comm_get_attr(MPI_Comm, int k, void *v, int *flag)
{
  static int tagub = 1 << 30, glob = 0;
  if (k == MPI_TAG_UB) { *(int **)v = &tagub; *flag = 1; } else if (k == MPI_WTIME_IS_GLOBAL) { *(int **)v = &glob; *flag = 1; } else *flag = 0;
  return 0;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c ? c->fint : -1; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f)
{
  if (f < 1000 || f - 1000 >= (int)comms.size()) return nullptr;
  return comms[f - 1000].get();
}
int MPI_Comm_free(MPI_Comm *c)
{
  Call k("MPI_Comm_free");
  if (!*c) { fm::violation("mpi-usage", "MPI_Comm_free on a null communicator"); return 0; }
  bool known = false;
  for (auto &p : comms) if (p.get() == *c) known = true;
  if (!known || (*c)->owner != tls_rank) { fm::violation("mpi-usage", "MPI_Comm_free on an invalid handle"); *c = nullptr; return 0; }
  if ((*c)->predef) { fm::violation("mpi-usage", "MPI_Comm_free on a predefined communicator"); return 0; }
  if ((*c)->freed) fm::violation("mpi-usage", "MPI_Comm_free called twice for one communicator");
  (*c)->freed = true;
  *c = nullptr;
  return 0;
}
int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }

static fm_group_s *new_group(const std::vector<int> &m)
{
  groups.emplace_back(new fm_group_s);
  fm_group_s *g = groups.back().get();
  g->members = m; g->owner = tls_rank; g->freed = false; g->predef = false;
  return g;
}
static bool gok(MPI_Group g, const char *f)
{
  if (!g || g->freed) { fm::violation("mpi-usage", std::string(f) + " on an invalid group"); return false; }
  return true;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { Call k("MPI_Comm_group"); *g = new_group(getc(c, "MPI_Comm_group")->members); return 0; }
int MPI_Group_size(MPI_Group g, int *n) { Call k("MPI_Group_size"); *n = gok(g, "MPI_Group_size") ? (int)g->members.size() : 0; return 0; }
int MPI_Group_rank(MPI_Group g, int *r)
{
  Call k("MPI_Group_rank"); *r = MPI_UNDEFINED;
  if (gok(g, "MPI_Group_rank")) for (size_t i = 0; i < g->members.size(); i++) if (g->members[i] == tls_rank) *r = (int)i;
  return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o)
{
  Call k("MPI_Group_incl");
  std::vector<int> m; std::set<int> seen;
  if (gok(g, "MPI_Group_incl")) for (int i = 0; i < n; i++) {
    if (r[i] < 0 || r[i] >= (int)g->members.size() || !seen.insert(r[i]).second) { fm::violation("mpi-usage", "MPI_Group_incl: bad or repeated rank"); continue; }
    m.push_back(g->members[r[i]]);
  }
  if (m.empty()) { *o = &empty_group; return 0; }
  *o = new_group(m); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o)
{
  Call k("MPI_Group_excl");
  std::vector<int> m;
  if (gok(g, "MPI_Group_excl")) for (size_t i = 0; i < g->members.size(); i++) { bool ex = false; for (int j = 0; j < n; j++) if (r[j] == (int)i) ex = true; if (!ex) m.push_back(g->members[i]); }
  *o = m.empty() ? &empty_group : new_group(m); return 0;
}
static int gset(MPI_Group a, MPI_Group b, MPI_Group *o, int mode, const char *f)
{
  std::vector<int> m;
  if (gok(a, f) && gok(b, f)) {
    for (int x : a->members) { bool inb = std::find(b->members.begin(), b->members.end(), x) != b->members.end(); if (mode == 0 || (mode == 1 && inb) || (mode == 2 && !inb)) m.push_back(x); }
    if (mode == 0) for (int x : b->members) if (std::find(m.begin(), m.end(), x) == m.end()) m.push_back(x);
  }
  *o = m.empty() ? &empty_group : new_group(m); return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { Call k("MPI_Group_union"); return gset(a, b, o, 0, "MPI_Group_union"); }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { Call k("MPI_Group_intersection"); return gset(a, b, o, 1, "MPI_Group_intersection"); }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { Call k("MPI_Group_difference"); return gset(a, b, o, 2, "MPI_Group_difference"); }
int MPI_Group_free(MPI_Group *g)
{
  Call k("MPI_Group_free");
  if (gok(*g, "MPI_Group_free") && !(*g)->predef) (*g)->freed = true;
  *g = nullptr; return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *o)
{
  Call k("MPI_Group_translate_ranks");
  for (int i = 0; i < n; i++) {
    o[i] = MPI_UNDEFINED;
    if (r[i] < 0 || r[i] >= (int)a->members.size()) continue;
    for (size_t j = 0; j < b->members.size(); j++) if (b->members[j] == a->members[r[i]]) o[i] = (int)j;
  }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *o)
{
  Call k("MPI_Group_compare");
  if (a->members == b->members) *o = MPI_IDENT;
  else { std::set<int> x(a->members.begin(), a->members.end()), y(b->members.begin(), b->members.end()); *o = x == y ? MPI_SIMILAR : MPI_UNEQUAL; }
  return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *o)
{
  Call k("MPI_Comm_compare");
  CommObj *x = getc(a, "MPI_Comm_compare"), *y = getc(b, "MPI_Comm_compare");
  if (x == y) *o = MPI_IDENT; else if (x->members == y->members) *o = MPI_CONGRUENT;
  else { std::set<int> p(x->members.begin(), x->members.end()), q(y->members.begin(), y->members.end()); *o = p == q ? MPI_SIMILAR : MPI_UNEQUAL; }
  return 0;
}

// ---------------------------------------------------------------- datatypes api

int MPI_Type_size(MPI_Datatype t, int *n) { Call k("MPI_Type_size"); *n = (int)tsize(t, "MPI_Type_size"); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { Call k("MPI_Type_get_extent"); *lb = 0; *e = (MPI_Aint)tsize(t, "MPI_Type_get_extent"); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o)
{
  Call k("MPI_Type_contiguous");
  dtypes.emplace_back(new fm_dtype_s); fm_dtype_s *d = dtypes.back().get();
  d->id = 1000; d->size = n * (int)tsize(t, "MPI_Type_contiguous"); d->base = t->base; d->freed = 0; d->owner = tls_rank; *o = d; return 0;
}
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o) { return MPI_Type_contiguous(1, t, o); }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { Call k("MPI_Type_free"); if (*t && (*t)->id == 1000) (*t)->freed = 1; *t = nullptr; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }

// ---------------------------------------------------------------- point to point

static uint64_t delay() { if (O.max_delay <= 0) return step_no; uint64_t t = step_no + (uint64_t)rng.below(O.max_delay + 1); if (t > step_no) arrivals.insert(t); return t; }

static bool tagmatch(int want, int have) { return want == MPI_ANY_TAG || want == have; }

static void do_match(const MsgP &m, fm_req_s *r)
{
  m->matched = true;
  if (!m->eager) {
    m->data.assign((const unsigned char *)m->buf, (const unsigned char *)m->buf + m->bytes);
    if (hashb(m->data.data(), m->bytes) != m->hash) fm::violation("send-buffer-modified", fmt("send buffer of message %d->%d changed while the send was pending", m->src, m->dst));
    m->eager = true;
  }
  if (!type_ok(m->type, r->type)) fm::violation("mpi-usage", fmt("datatype mismatch on message %d->%d", m->src, m->dst));
  if (m->bytes > r->bytes) fm::violation("truncation", fmt("message %d->%d of %zu bytes received into %zu bytes", m->src, m->dst, m->bytes, r->bytes));
  r->matched = true; r->payload.swap(m->data); r->msrc = m->src; r->mtag = m->tag; r->arrive = delay();
  if (O.scribble && r->payload.size()) memset(r->buf, 0xff, std::min(r->bytes, r->payload.size()));
  if (m->req) m->req->arrive = delay();
}

static void match_send(const MsgP &m)
{
  for (auto it = posted.begin(); it != posted.end(); ++it) {
    fm_req_s *r = *it;
    if (r->comm == m->comm && r->crank == m->dst && (r->peer == MPI_ANY_SOURCE || r->peer == m->src) && tagmatch(r->tag, m->tag)) {
      posted.erase(it); do_match(m, r); return;
    }
  }
  unmatched.push_back(m);
}

static void match_recv(fm_req_s *r)
{
  std::vector<std::list<MsgP>::iterator> cand; std::set<int> srcs;
  for (auto it = unmatched.begin(); it != unmatched.end(); ++it) {
    MsgP &m = *it;
    if (m->comm == r->comm && m->dst == r->crank && (r->peer == MPI_ANY_SOURCE || r->peer == m->src) && tagmatch(r->tag, m->tag))
      if (srcs.insert(m->src).second) cand.push_back(it);
  }
  if (cand.empty()) { posted.push_back(r); return; }
  if (cand.size() > 1) RES->anychoices++;
  auto it = cand[rng.below((int)cand.size())];
  MsgP m = *it; unmatched.erase(it); do_match(m, r);
}

static fm_req_s *new_req(int kind)
{
  reqs.emplace_back(new fm_req_s); fm_req_s *r = reqs.back().get(); r->owner = tls_rank; r->kind = kind; return r;
}

static void start_send(fm_req_s *r, int mode, const char *f)   // mode 0 std 1 sync 2 buffered 3 ready
{
  r->active = true; r->matched = false; r->arrive = 0; r->msg.reset();
  if (r->peer == MPI_PROC_NULL) { r->null_peer = true; return; }
  if (r->peer < 0 || r->peer >= (int)r->comm->members.size()) { fm::violation("mpi-usage", fmt("%s: destination rank %d out of range", f, r->peer)); r->null_peer = true; return; }
  if (r->tag < 0) fm::violation("mpi-usage", fmt("%s: negative tag", f));
  region_check(f, r->buf, r->bytes, false);
  MsgP m = std::make_shared<Msg>();
  m->comm = r->comm; m->src = r->crank; m->dst = r->peer; m->tag = r->tag; m->type = r->type; m->bytes = r->bytes; m->buf = r->buf; m->seq = msg_seq++;
  m->hash = hashb(r->buf, r->bytes);
  bool eager = mode == 2 || (mode != 1 && (O.sendmode == M_EAGER || (O.sendmode == M_MIXED && rng.chance(0.5))));
  m->eager = eager;
  if (eager) { m->data.assign((const unsigned char *)r->buf, (const unsigned char *)r->buf + r->bytes); r->matched = true; r->arrive = delay(); }
  else { m->req = r; region_add(r, r->buf, r->bytes, false); }
  if (tls_watch) { int d = r->comm->members[r->peer]; tls_watch->p2p[d] += r->bytes; tls_watch->nmsg[d]++; }
  r->msg = m; RES->messages++; RES->bytes += r->bytes; R[tls_rank].moved += r->bytes;
  if (mode == 3) {
    bool found = false;
    for (auto *p : posted) if (p->comm == m->comm && p->crank == m->dst && (p->peer == MPI_ANY_SOURCE || p->peer == m->src) && tagmatch(p->tag, m->tag)) found = true;
    if (!found) fm::violation("mpi-usage", "ready send without a posted receive");
  }
  match_send(m);
}

static void start_recv(fm_req_s *r, const char *f)
{
  r->active = true; r->matched = false; r->arrive = 0; r->payload.clear(); r->cancelled = false;
  if (r->peer == MPI_PROC_NULL) { r->null_peer = true; return; }
  if (r->peer != MPI_ANY_SOURCE && (r->peer < 0 || r->peer >= (int)r->comm->members.size())) { fm::violation("mpi-usage", fmt("%s: source rank %d out of range", f, r->peer)); r->null_peer = true; return; }
  region_check(f, r->buf, r->bytes, true);
  region_add(r, r->buf, r->bytes, true);
  match_recv(r);
}

static bool req_done(fm_req_s *r)
{
  if (!r->active) return true;
  if (r->null_peer) return true;
  if (r->kind == 1) return (r->msg->matched || r->matched) && (r->msg->req ? r->arrive <= step_no && r->msg->matched : r->arrive <= step_no);
  if (r->kind == 2) return r->cancelled || (r->matched && r->arrive <= step_no);
  return r->ready();
}

static void req_complete(MPI_Request *rp, MPI_Status *st)
{
  fm_req_s *r = *rp;
  if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; }
  if (!r->active) return;
  region_del(r);
  if (r->null_peer) { if (st) { st->MPI_SOURCE = MPI_PROC_NULL; } }
  else if (r->kind == 1) {
    if (hashb(r->buf, r->bytes) != r->msg->hash) fm::violation("send-buffer-modified", "send buffer changed before the send completed");
  } else if (r->kind == 2) {
    if (!r->cancelled) {
      size_t n = std::min(r->bytes, r->payload.size());
      if (n) memcpy(r->buf, r->payload.data(), n);
      R[tls_rank].moved += n;
      if (st) { st->MPI_SOURCE = r->msrc; st->MPI_TAG = r->mtag; st->fm_bytes = n; }
    } else if (st) st->fm_cancelled = 1;
    Bytes().swap(r->payload);
  } else r->finish();
  r->active = false;
  if (!r->persistent) { r->freed = true; r->ready = nullptr; r->finish = nullptr; r->msg.reset(); *rp = nullptr; }
}

static bool rok(MPI_Request r, const char *f)
{
  if (!r) return false;
  if (r->freed || r->owner != tls_rank) { fm::violation("mpi-usage", std::string(f) + " on an invalid request"); return false; }
  return true;
}

static fm_req_s *mk_send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, const char *f)
{
  int cr; CommObj *o = getc(c, f, &cr);
  if (n < 0) { fm::violation("mpi-usage", std::string(f) + ": negative count"); n = 0; }
  fm_req_s *r = new_req(1);
  r->comm = o; r->crank = cr; r->buf = (void *)b; r->count = n; r->type = t; r->peer = d; r->tag = tag; r->bytes = (size_t)n * tsize(t, f);
  return r;
}
static fm_req_s *mk_recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, const char *f)
{
  fm_req_s *r = mk_send(b, n, t, s, tag, c, f); r->kind = 2; return r;
}
static void wait1(fm_req_s *r, MPI_Status *st, const char *f)
{
  std::function<bool()> p = [r] { return req_done(r); };
  block(f, p);
  MPI_Request q = r; req_complete(&q, st);
}

static int send_mode(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, int mode, const char *f)
{
  Call k(f); fm_req_s *r = mk_send(b, n, t, d, tag, c, f); start_send(r, mode, f); wait1(r, nullptr, f); return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_mode(b, n, t, d, tag, c, 0, "MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_mode(b, n, t, d, tag, c, 1, "MPI_Ssend"); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_mode(b, n, t, d, tag, c, 2, "MPI_Bsend"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_mode(b, n, t, d, tag, c, 3, "MPI_Rsend"); }
static int isend_mode(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q, int mode, const char *f)
{
  Call k(f); fm_req_s *r = mk_send(b, n, t, d, tag, c, f); start_send(r, mode, f); *q = r; return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return isend_mode(b, n, t, d, tag, c, q, 0, "MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return isend_mode(b, n, t, d, tag, c, q, 1, "MPI_Issend"); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return isend_mode(b, n, t, d, tag, c, q, 2, "MPI_Ibsend"); }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return isend_mode(b, n, t, d, tag, c, q, 3, "MPI_Irsend"); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q)
{
  Call k("MPI_Irecv"); fm_req_s *r = mk_recv(b, n, t, s, tag, c, "MPI_Irecv"); start_recv(r, "MPI_Irecv"); *q = r; return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{
  Call k("MPI_Recv"); fm_req_s *r = mk_recv(b, n, t, s, tag, c, "MPI_Recv"); start_recv(r, "MPI_Recv"); wait1(r, st, "MPI_Recv"); return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q)
{
  Call k("MPI_Send_init"); fm_req_s *r = mk_send(b, n, t, d, tag, c, "MPI_Send_init"); r->active = false; r->persistent = true; *q = r; return 0;
}
int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q)
{
  Call k("MPI_Ssend_init"); fm_req_s *r = mk_send(b, n, t, d, tag, c, "MPI_Ssend_init"); r->sync = true; r->active = false; r->persistent = true; *q = r; return 0;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q)
{
  Call k("MPI_Recv_init"); fm_req_s *r = mk_recv(b, n, t, s, tag, c, "MPI_Recv_init"); r->active = false; r->persistent = true; *q = r; return 0;
}
int MPI_Start(MPI_Request *q)
{
  Call k("MPI_Start");
  if (!rok(*q, "MPI_Start")) return 0;
  if ((*q)->active || !(*q)->persistent) { fm::violation("mpi-usage", "MPI_Start on an active or non-persistent request"); return 0; }
  if ((*q)->kind == 1) start_send(*q, (*q)->sync ? 1 : 0, "MPI_Start"); else start_recv(*q, "MPI_Start");
  return 0;
}
int MPI_Startall(int n, MPI_Request *q) { for (int i = 0; i < n; i++) MPI_Start(&q[i]); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st)
{
  Call k("MPI_Sendrecv");
  fm_req_s *r = mk_recv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv");
  fm_req_s *q = mk_send(sb, sn, stp, d, stag, c, "MPI_Sendrecv");
  start_recv(r, "MPI_Sendrecv"); start_send(q, 0, "MPI_Sendrecv");
  wait1(q, nullptr, "MPI_Sendrecv"); wait1(r, st, "MPI_Sendrecv"); return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st)
{
  Bytes tmp; { NoLib nl; tmp.assign((unsigned char *)b, (unsigned char *)b + (size_t)n * tsize(t, "MPI_Sendrecv_replace")); }
  return MPI_Sendrecv(tmp.data(), n, t, d, stag, b, n, t, s, rtag, c, st);
}

int MPI_Wait(MPI_Request *q, MPI_Status *st)
{
  Call k("MPI_Wait");
  if (!rok(*q, "MPI_Wait")) { *q = nullptr; return 0; }
  fm_req_s *r = *q; std::function<bool()> p = [r] { return req_done(r); };
  block("MPI_Wait", p); req_complete(q, st); return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st)
{
  Call k("MPI_Waitall");
  for (int i = 0; i < n; i++) {
    if (!rok(q[i], "MPI_Waitall")) continue;
    fm_req_s *r = q[i]; std::function<bool()> p = [r] { return req_done(r); };
    block("MPI_Waitall", p);
  }
  for (int i = 0; i < n; i++) if (q[i] && !q[i]->freed) req_complete(&q[i], st ? &st[i] : nullptr); else if (st) memset(&st[i], 0, sizeof st[i]);
  return 0;
}
static int collect(int n, MPI_Request *q, std::vector<int> *done, const char *f)
{
  int act = 0;
  for (int i = 0; i < n; i++) { if (!q[i]) continue; if (q[i]->freed || q[i]->owner != tls_rank) { fm::violation("mpi-usage", std::string(f) + " on an invalid request"); continue; } if (!q[i]->active) continue; act++; if (done && req_done(q[i])) done->push_back(i); }
  return act;
}
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st)
{
  Call k("MPI_Waitany");
  if (!collect(n, q, nullptr, "MPI_Waitany")) { *idx = MPI_UNDEFINED; return 0; }
  std::function<bool()> p = [n, q] { for (int i = 0; i < n; i++) if (q[i] && !q[i]->freed && q[i]->active && req_done(q[i])) return true; return false; };
  block("MPI_Waitany", p);
  std::vector<int> d; collect(n, q, &d, "MPI_Waitany");
  if (d.size() > 1) RES->anychoices++;
  int i = d[rng.below((int)d.size())];
  req_complete(&q[i], st); *idx = i; return 0;
}
int MPI_Waitsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st)
{
  Call k("MPI_Waitsome");
  if (!collect(n, q, nullptr, "MPI_Waitsome")) { *out = MPI_UNDEFINED; return 0; }
  std::function<bool()> p = [n, q] { for (int i = 0; i < n; i++) if (q[i] && !q[i]->freed && q[i]->active && req_done(q[i])) return true; return false; };
  block("MPI_Waitsome", p);
  std::vector<int> d; collect(n, q, &d, "MPI_Waitsome");
  *out = (int)d.size();
  for (size_t j = 0; j < d.size(); j++) { idx[j] = d[j]; req_complete(&q[d[j]], st ? &st[j] : nullptr); }
  return 0;
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st)
{
  Call k("MPI_Test");
  if (!rok(*q, "MPI_Test")) { *flag = 1; return 0; }
  *flag = req_done(*q); if (*flag) req_complete(q, st); return 0;
}
int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *st)
{
  Call k("MPI_Testall"); *flag = 1;
  for (int i = 0; i < n; i++) if (rok(q[i], "MPI_Testall") && !req_done(q[i])) *flag = 0;
  if (*flag) for (int i = 0; i < n; i++) if (q[i]) req_complete(&q[i], st ? &st[i] : nullptr);
  return 0;
}
int MPI_Testany(int n, MPI_Request *q, int *idx, int *flag, MPI_Status *st)
{
  Call k("MPI_Testany"); std::vector<int> d; int act = collect(n, q, &d, "MPI_Testany");
  if (!act) { *flag = 1; *idx = MPI_UNDEFINED; return 0; }
  if (d.empty()) { *flag = 0; *idx = MPI_UNDEFINED; return 0; }
  int i = d[rng.below((int)d.size())]; *flag = 1; *idx = i; req_complete(&q[i], st); return 0;
}
int MPI_Testsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st)
{
  Call k("MPI_Testsome"); std::vector<int> d; int act = collect(n, q, &d, "MPI_Testsome");
  if (!act) { *out = MPI_UNDEFINED; return 0; }
  *out = (int)d.size(); for (size_t j = 0; j < d.size(); j++) { idx[j] = d[j]; req_complete(&q[d[j]], st ? &st[j] : nullptr); }
  return 0;
}
int MPI_Request_free(MPI_Request *q)
{
  Call k("MPI_Request_free"); if (!rok(*q, "MPI_Request_free")) { *q = nullptr; return 0; }
  if ((*q)->active && (*q)->kind == 2) fm::violation("mpi-usage", "MPI_Request_free on an active receive");
  (*q)->freed = true; *q = nullptr; return 0;
}
int MPI_Cancel(MPI_Request *q)
{
  Call k("MPI_Cancel"); if (!rok(*q, "MPI_Cancel")) return 0;
  fm_req_s *r = *q; if (r->kind == 2 && !r->matched) { posted.remove(r); r->cancelled = true; } return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->fm_cancelled; return 0; }
static Msg *probe(CommObj *o, int cr, int s, int tag)
{
  for (auto &m : unmatched) if (m->comm == o && m->dst == cr && (s == MPI_ANY_SOURCE || s == m->src) && tagmatch(tag, m->tag)) return m.get();
  return nullptr;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st)
{
  Call k("MPI_Iprobe"); int cr; CommObj *o = getc(c, "MPI_Iprobe", &cr); Msg *m = probe(o, cr, s, tag);
  *flag = m != nullptr; if (m && st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->fm_bytes = m->bytes; } return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st)
{
  Call k("MPI_Probe"); int cr; CommObj *o = getc(c, "MPI_Probe", &cr);
  std::function<bool()> p = [=] { return probe(o, cr, s, tag) != nullptr; }; block("MPI_Probe", p);
  Msg *m = probe(o, cr, s, tag); if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->fm_bytes = m->bytes; } return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t z = tsize(t, "MPI_Get_count"); *n = z && s->fm_bytes % z == 0 ? (int)(s->fm_bytes / z) : MPI_UNDEFINED; return 0; }

} // extern "C"

// ---------------------------------------------------------------- collectives

struct Pend { std::shared_ptr<Coll> c; CommObj *o; int me; uint64_t id; };

static Pend coll_enter(MPI_Comm comm, const char *kind, int root = -1, int op = 0)
{
  Pend p; p.o = getc(comm, kind, &p.me); p.id = p.o->seq[p.me]++;
  auto &c = p.o->colls[p.id]; int n = (int)p.o->members.size();
  if (!c) {
    c = std::make_shared<Coll>(); c->kind = kind; c->root = root; c->op = op; c->n = n;
    c->arrived.assign(n, 0); c->contrib.resize(n); c->off.resize(n); c->len.resize(n); c->base.resize(n); c->rlen.resize(n); c->rbase.resize(n);
    c->param.assign(n, 0); c->param2.assign(n, 0); c->groups.resize(n);
    RES->colls++;
  } else if (c->kind != kind || c->root != root || c->op != op) {
    fm::violation("collective-mismatch", fmt("rank %d called %s (root %d op %d) where another rank called %s (root %d op %d)", p.me, kind, root, op, c->kind.c_str(), c->root, c->op));
    any_abort = true;
    for (int i = 0; i < O.nranks; i++) R[i].kill = 1;
    unwind(E_ABORT, 1);
  }
  p.c = c;
  return p;
}
static void coll_arrive(Pend &p) { p.c->arrived[p.me] = 1; p.c->narrived++; }
static void coll_leave(Pend &p) { if (++p.c->nleft == p.c->n) p.o->colls.erase(p.id); }
static bool coll_all(const Pend &p) { return p.c->narrived == p.c->n; }

// generic "each member sends bytes to each member" collective
struct Seg { size_t off, len; int base; };
static void deposit(Pend &p, const void *buf, const std::vector<Seg> &s, const char *f)
{
  int n = p.c->n; size_t tot = 0;
  for (auto &x : s) tot += x.len;
  Bytes &b = p.c->contrib[p.me]; b.resize(tot);
  p.c->off[p.me].resize(n); p.c->len[p.me].resize(n); p.c->base[p.me].resize(n);
  size_t o = 0;
  for (int i = 0; i < n; i++) {
    if (s[i].len) { region_check(f, (const char *)buf + s[i].off, s[i].len, false); memcpy(&b[o], (const char *)buf + s[i].off, s[i].len); }
    p.c->off[p.me][i] = o; p.c->len[p.me][i] = s[i].len; p.c->base[p.me][i] = s[i].base; o += s[i].len;
  }
  RES->bytes += tot;
}
static bool base_ok(int a, int b) { return a == b || a == 0 || b == 0 || a == 30 || b == 30; }

static void no_overlap(const char *f, const void *a, const std::vector<Seg> &s, const void *b, const std::vector<Seg> &r)
{
  for (auto &x : s) for (auto &y : r) {
    if (!x.len || !y.len) continue;
    const char *p = (const char *)a + x.off, *q = (const char *)b + y.off;
    if (p < q + y.len && q < p + x.len) { fm::violation("buffer-overlap", std::string(f) + ": send and receive buffers overlap"); return; }
  }
}
static void self_overlap(const char *f, const std::vector<Seg> &r)
{
  for (size_t i = 0; i < r.size(); i++) for (size_t j = i + 1; j < r.size(); j++)
    if (r[i].len && r[j].len && r[i].off < r[j].off + r[j].len && r[j].off < r[i].off + r[i].len) { fm::violation("buffer-overlap", std::string(f) + ": receive blocks overlap"); return; }
}

// exchange: returns (ready, finish) closures
static void exchange(MPI_Comm comm, const char *kind, int root, const void *sbuf, const std::vector<Seg> &s, void *rbuf, const std::vector<Seg> &r,
                     std::function<bool()> &ready, std::function<void()> &finish, bool nonblocking)
{
  Pend p = coll_enter(comm, kind, root);
  deposit(p, sbuf, s, kind);
  if (sbuf != rbuf) no_overlap(kind, sbuf, s, rbuf, r);
  self_overlap(kind, r);
  for (auto &x : r) if (x.len) region_check(kind, (char *)rbuf + x.off, x.len, true);
  if (O.scribble && sbuf != rbuf) for (auto &x : r) if (x.len) memset((char *)rbuf + x.off, 0xff, x.len);
  if (nonblocking) for (auto &x : r) region_add(p.c.get(), (char *)rbuf + x.off, x.len, true);
  coll_arrive(p);
  bool loose = O.loose_coll;
  std::vector<size_t> want; for (auto &x : r) want.push_back(x.len);
  ready = [p, loose, want]() mutable {
    if (coll_all(p)) return true;
    if (!loose) return false;
    for (int i = 0; i < p.c->n; i++) if (want[i] && !p.c->arrived[i]) return false;
    return true;
  };
  std::string kn = kind;
  finish = [p, r, rbuf, kn, nonblocking]() mutable {
    if (nonblocking) region_del(p.c.get());
    for (int i = 0; i < p.c->n; i++) {
      size_t have = p.c->arrived[i] ? p.c->len[i][p.me] : r[i].len;
      if (have != r[i].len) fm::violation("collective-mismatch", fmt("%s: rank %d sends %zu bytes to rank %d which expects %zu", kn.c_str(), i, have, p.me, r[i].len));
      if (r[i].len && have && !base_ok(p.c->base[i][p.me], r[i].base)) fm::violation("mpi-usage", kn + ": datatype mismatch");
      size_t n = std::min(have, r[i].len);
      if (n && p.c->arrived[i]) memcpy((char *)rbuf + r[i].off, &p.c->contrib[i][p.c->off[i][p.me]], n);
    }
    coll_leave(p);
  };
}
static int run_coll(const char *f, std::function<bool()> &ready, std::function<void()> &finish, MPI_Request *q)
{
  if (q) { fm_req_s *r = new_req(3); r->ready = ready; r->finish = finish; *q = r; return 0; }
  block(f, ready); finish(); return 0;
}

template <class T> static void redT(T *a, const T *b, size_t n, int op)
{
  for (size_t i = 0; i < n; i++) switch (op) {
    case MPI_MAX: a[i] = a[i] > b[i] ? a[i] : b[i]; break;
    case MPI_MIN: a[i] = a[i] < b[i] ? a[i] : b[i]; break;
    case MPI_SUM: a[i] = (T)(a[i] + b[i]); break;
    case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
    case MPI_LAND: a[i] = (T)(a[i] && b[i]); break;
    case MPI_LOR: a[i] = (T)(a[i] || b[i]); break;
    case MPI_LXOR: a[i] = (T)(!a[i] != !b[i]); break;
  }
}
template <class T> static void redI(T *a, const T *b, size_t n, int op)
{
  for (size_t i = 0; i < n; i++) switch (op) {
    case MPI_SUM: a[i] = (T)((uint64_t)a[i] + (uint64_t)b[i]); break;
    case MPI_PROD: a[i] = (T)((uint64_t)a[i] * (uint64_t)b[i]); break;
    case MPI_BAND: a[i] = (T)(a[i] & b[i]); break;
    case MPI_BOR: a[i] = (T)(a[i] | b[i]); break;
    case MPI_BXOR: a[i] = (T)(a[i] ^ b[i]); break;
    default: { T x = a[i]; T y = b[i]; redT(&x, &y, 1, op); a[i] = x; }
  }
}
template <class V> struct VI { V v; int i; };
template <class V> static void redL(VI<V> *a, const VI<V> *b, size_t n, int op)
{
  for (size_t i = 0; i < n; i++) {
    bool take = op == MPI_MINLOC ? b[i].v < a[i].v : b[i].v > a[i].v;
    if (take || (b[i].v == a[i].v && b[i].i < a[i].i)) a[i] = b[i];
  }
}
static void reduce(void *a, const void *b, size_t n, MPI_Datatype t, int op)
{
  n *= (size_t)(t->size / bsize[t->base]);
  switch (t->base) {
  case 1: case 2: case 15: redI((signed char *)a, (const signed char *)b, n, op); break;
  case 0: case 3: case 19: case 23: redI((unsigned char *)a, (const unsigned char *)b, n, op); break;
  case 4: case 16: redI((short *)a, (const short *)b, n, op); break;
  case 5: case 20: redI((unsigned short *)a, (const unsigned short *)b, n, op); break;
  case 6: case 17: redI((int *)a, (const int *)b, n, op); break;
  case 7: case 21: redI((unsigned *)a, (const unsigned *)b, n, op); break;
  case 8: case 10: case 18: case 29: redI((long long *)a, (const long long *)b, n, op); break;
  case 9: case 11: case 22: redI((unsigned long long *)a, (const unsigned long long *)b, n, op); break;
  case 12: redT((float *)a, (const float *)b, n, op); break;
  case 13: redT((double *)a, (const double *)b, n, op); break;
  case 14: redT((long double *)a, (const long double *)b, n, op); break;
  case 24: redL((VI<double> *)a, (const VI<double> *)b, n, op); break;
  case 25: redL((VI<float> *)a, (const VI<float> *)b, n, op); break;
  case 26: redL((VI<int> *)a, (const VI<int> *)b, n, op); break;
  case 27: redT((float *)a, (const float *)b, 2 * n, op); break;
  case 28: redT((double *)a, (const double *)b, 2 * n, op); break;
  default: fm::violation("mpi-usage", "reduction on an unsupported datatype");
  }
}

static void overlap2(const char *f, const void *a, const void *b, size_t n)
{
  if (n && (const char *)a < (const char *)b + n && (const char *)b < (const char *)a + n) fm::violation("buffer-overlap", std::string(f) + ": send and receive buffers overlap");
}

// kind: 0 allreduce 1 reduce 2 scan 3 exscan 4 reduce_scatter
static int reduction(const char *f, int kind, const void *s, void *r, int n, MPI_Datatype t, int op, int root, MPI_Comm comm, MPI_Request *q, const std::vector<int> *parts = nullptr)
{
  size_t nb = (size_t)n * tsize(t, f);
  Pend p = coll_enter(comm, f, root, op);
  R[tls_rank].moved += nb;
  bool inplace = s == MPI_IN_PLACE;
  const void *src = inplace ? r : s;
  bool gets = kind != 1 || p.me == root;
  if (!inplace && gets && kind != 4) overlap2(f, s, r, nb);
  p.c->contrib[p.me].assign((const unsigned char *)src, (const unsigned char *)src + nb);
  p.c->param[p.me] = (long)nb; p.c->param2[p.me] = t->base;
  coll_arrive(p);
  bool loose = O.loose_coll;
  std::function<bool()> ready = [p, loose, kind, root]() {
    if (coll_all(p)) return true;
    if (!loose) return false;
    if (kind == 1 && p.me != root) return true;
    if (kind == 2 || kind == 3) { for (int i = 0; i <= p.me; i++) if (!p.c->arrived[i]) return false; return true; }
    return false;
  };
  std::vector<int> pv; if (parts) pv = *parts;
  std::string fn = f;
  std::function<void()> finish = [p, kind, r, n, t, op, root, nb, fn, pv]() mutable {
    for (int i = 0; i < p.c->n; i++) if (p.c->arrived[i] && (p.c->param[i] != (long)nb || p.c->param2[i] != t->base)) fm::violation("collective-mismatch", fn + ": ranks pass different counts or datatypes");
    int last = kind == 2 ? p.me : kind == 3 ? p.me - 1 : p.c->n - 1;
    if ((kind != 1 || p.me == root) && last >= 0 && nb) {
      Bytes acc = p.c->contrib[0];
      for (int i = 1; i <= last; i++) if (p.c->contrib[i].size() == nb) reduce(acc.data(), p.c->contrib[i].data(), (size_t)n, t, op);
      if (kind == 4) { size_t o = 0; for (int i = 0; i < p.me; i++) o += (size_t)pv[i]; memcpy(r, acc.data() + o * t->size, (size_t)pv[p.me] * t->size); }
      else memcpy(r, acc.data(), nb);
    }
    coll_leave(p);
  };
  return run_coll(f, ready, finish, q);
}

static std::vector<Seg> uniform(int n, size_t each, int base) { std::vector<Seg> s(n); for (int i = 0; i < n; i++) s[i] = Seg{(size_t)i * each, each, base}; return s; }
static std::vector<Seg> none(int n) { return std::vector<Seg>(n, Seg{0, 0, 0}); }
static std::vector<Seg> vec(int n, const int *c, const int *d, MPI_Datatype t, const char *f)
{
  size_t z = tsize(t, f); std::vector<Seg> s(n);
  for (int i = 0; i < n; i++) {
    if (c[i] < 0) { fm::violation("mpi-usage", std::string(f) + ": negative count"); s[i] = Seg{0, 0, t->base}; continue; }
    s[i] = Seg{(size_t)((ptrdiff_t)d[i] * (ptrdiff_t)z), (size_t)c[i] * z, t->base};
  }
  return s;
}
static int csize(MPI_Comm c, const char *f) { return (int)getc(c, f)->members.size(); }
static int crank(MPI_Comm c, const char *f) { int r; getc(c, f, &r); return r; }

static int barrier(MPI_Comm c, const char *f, MPI_Request *q)
{
  Pend p = coll_enter(c, f); coll_arrive(p);
  std::function<bool()> ready = [p] { return coll_all(p); };
  std::function<void()> finish = [p]() mutable { coll_leave(p); };
  return run_coll(f, ready, finish, q);
}
static int bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, const char *f, MPI_Request *q)
{
  size_t nb = (size_t)n * tsize(t, f);
  int me = crank(c, f), sz = csize(c, f);
  std::vector<Seg> s = none(sz), r = none(sz);
  // root contributes a copy to everybody else; the others receive from root
  if (me == root) { for (int i = 0; i < sz; i++) if (i != me) s[i] = Seg{0, nb, t->base}; }
  else if (root >= 0 && root < sz) r[root] = Seg{0, nb, t->base};
  std::function<bool()> ready; std::function<void()> fin;
  exchange(c, f, root, me == root ? b : nullptr, s, me == root ? nullptr : b, r, ready, fin, q != nullptr);
  return run_coll(f, ready, fin, q);
}

extern "C" {
int MPI_Barrier(MPI_Comm c) { Call k("MPI_Barrier"); return barrier(c, "MPI_Barrier", nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { Call k("MPI_Ibarrier"); return barrier(c, "MPI_Ibarrier", q); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { Call k("MPI_Bcast"); return bcast(b, n, t, root, c, "MPI_Bcast", nullptr); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *q) { Call k("MPI_Ibcast"); return bcast(b, n, t, root, c, "MPI_Ibcast", q); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Call k("MPI_Allreduce"); return reduction("MPI_Allreduce", 0, s, r, n, t, op, -1, c, nullptr); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { Call k("MPI_Iallreduce"); return reduction("MPI_Iallreduce", 0, s, r, n, t, op, -1, c, q); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { Call k("MPI_Reduce"); return reduction("MPI_Reduce", 1, s, r, n, t, op, root, c, nullptr); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Call k("MPI_Scan"); return reduction("MPI_Scan", 2, s, r, n, t, op, -1, c, nullptr); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Call k("MPI_Exscan"); return reduction("MPI_Exscan", 3, s, r, n, t, op, -1, c, nullptr); }
int MPI_Reduce_local(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op) { Call k("MPI_Reduce_local"); Bytes x((const unsigned char *)a, (const unsigned char *)a + (size_t)n * t->size); reduce(b, x.data(), (size_t)n, t, op); return 0; }
int MPI_Reduce_scatter(const void *s, void *r, const int *cn, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  Call k("MPI_Reduce_scatter"); int sz = csize(c, "MPI_Reduce_scatter"); std::vector<int> v(cn, cn + sz); int tot = 0; for (int x : v) tot += x;
  return reduction("MPI_Reduce_scatter", 4, s, r, tot, t, op, -1, c, nullptr, &v);
}
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  Call k("MPI_Reduce_scatter_block"); int sz = csize(c, "MPI_Reduce_scatter_block"); std::vector<int> v(sz, n);
  return reduction("MPI_Reduce_scatter_block", 4, s, r, n * sz, t, op, -1, c, nullptr, &v);
}

static int gatherv(const char *f, const void *s, int sn, MPI_Datatype st, void *r, std::vector<Seg> rs, int root, MPI_Comm c, bool all, MPI_Request *q)
{
  int sz = csize(c, f), me = crank(c, f);
  size_t nb = 0; int sb = 0; const void *src = s;
  Bytes tmp;
  if (s == MPI_IN_PLACE) { nb = rs[me].len; sb = rs[me].base; tmp.assign((unsigned char *)r + rs[me].off, (unsigned char *)r + rs[me].off + nb); src = tmp.data(); }
  else { nb = (size_t)sn * tsize(st, f); sb = st->base; }
  std::vector<Seg> ss = none(sz);
  for (int i = 0; i < sz; i++) if (all || i == root) ss[i] = Seg{0, nb, sb};
  if (!all && me != root) rs = none(sz);
  std::function<bool()> ready; std::function<void()> fin;
  exchange(c, f, root, src, ss, r, rs, ready, fin, q != nullptr);
  return run_coll(f, ready, fin, q);
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  Call k("MPI_Gather"); int sz = csize(c, "MPI_Gather"), me = crank(c, "MPI_Gather");
  return gatherv("MPI_Gather", s, sn, st, r, me == root ? uniform(sz, (size_t)rn * tsize(rt, "MPI_Gather"), rt->base) : none(sz), root, c, false, nullptr);
}
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c)
{
  Call k("MPI_Gatherv"); int sz = csize(c, "MPI_Gatherv"), me = crank(c, "MPI_Gatherv");
  return gatherv("MPI_Gatherv", s, sn, st, r, me == root ? vec(sz, rc, rd, rt, "MPI_Gatherv") : none(sz), root, c, false, nullptr);
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  Call k("MPI_Allgather"); int sz = csize(c, "MPI_Allgather");
  return gatherv("MPI_Allgather", s, sn, st, r, uniform(sz, (size_t)rn * tsize(rt, "MPI_Allgather"), rt->base), -1, c, true, nullptr);
}
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
{
  Call k("MPI_Iallgather"); int sz = csize(c, "MPI_Iallgather");
  return gatherv("MPI_Iallgather", s, sn, st, r, uniform(sz, (size_t)rn * tsize(rt, "MPI_Iallgather"), rt->base), -1, c, true, q);
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
{
  Call k("MPI_Allgatherv"); int sz = csize(c, "MPI_Allgatherv");
  return gatherv("MPI_Allgatherv", s, sn, st, r, vec(sz, rc, rd, rt, "MPI_Allgatherv"), -1, c, true, nullptr);
}
static int scatterv(const char *f, const void *s, const std::vector<Seg> &ss, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  int sz = csize(c, f), me = crank(c, f);
  std::vector<Seg> rs = none(sz), s2 = me == root ? ss : none(sz);
  bool inplace = r == MPI_IN_PLACE;
  if (!inplace) rs[root] = Seg{0, (size_t)rn * tsize(rt, f), rt->base}; else s2[me].len = 0;
  std::function<bool()> ready; std::function<void()> fin;
  exchange(c, f, root, s, s2, inplace ? nullptr : r, rs, ready, fin, false);
  return run_coll(f, ready, fin, nullptr);
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  Call k("MPI_Scatter"); int sz = csize(c, "MPI_Scatter"), me = crank(c, "MPI_Scatter");
  return scatterv("MPI_Scatter", s, me == root ? uniform(sz, (size_t)sn * tsize(st, "MPI_Scatter"), st->base) : none(sz), r, rn, rt, root, c);
}
int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  Call k("MPI_Scatterv"); int sz = csize(c, "MPI_Scatterv"), me = crank(c, "MPI_Scatterv");
  return scatterv("MPI_Scatterv", s, me == root ? vec(sz, sc, sd, st, "MPI_Scatterv") : none(sz), r, rn, rt, root, c);
}
static int a2a(const char *f, const void *s, const std::vector<Seg> &ss, void *r, const std::vector<Seg> &rs, MPI_Comm c, MPI_Request *q)
{
  std::function<bool()> ready; std::function<void()> fin;
  for (auto &x : ss) R[tls_rank].moved += x.len;
  for (auto &x : rs) R[tls_rank].moved += x.len;
  if (tls_watch) {
    const std::vector<int> &m = getc(c, f)->members; const std::vector<Seg> &w = s == MPI_IN_PLACE ? rs : ss;
    tls_watch->groups.push_back(m);
    for (size_t i = 0; i < m.size() && i < w.size(); i++) tls_watch->a2a[m[i]] += w[i].len;
  }
  if (s == MPI_IN_PLACE) exchange(c, f, -1, r, rs, r, rs, ready, fin, q != nullptr);
  else exchange(c, f, -1, s, ss, r, rs, ready, fin, q != nullptr);
  return run_coll(f, ready, fin, q);
}
static int a2a_u(const char *f, const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
{
  int sz = csize(c, f);
  return a2a(f, s, s == MPI_IN_PLACE ? none(sz) : uniform(sz, (size_t)sn * tsize(st, f), st->base), r, uniform(sz, (size_t)rn * tsize(rt, f), rt->base), c, q);
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { Call k("MPI_Alltoall"); return a2a_u("MPI_Alltoall", s, sn, st, r, rn, rt, c, nullptr); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { Call k("MPI_Ialltoall"); return a2a_u("MPI_Ialltoall", s, sn, st, r, rn, rt, c, q); }
static int a2a_v(const char *f, const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
{
  int sz = csize(c, f);
  return a2a(f, s, s == MPI_IN_PLACE ? none(sz) : vec(sz, sc, sd, st, f), r, vec(sz, rc, rd, rt, f), c, q);
}
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { Call k("MPI_Alltoallv"); return a2a_v("MPI_Alltoallv", s, sc, sd, st, r, rc, rd, rt, c, nullptr); }
int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { Call k("MPI_Ialltoallv"); return a2a_v("MPI_Ialltoallv", s, sc, sd, st, r, rc, rd, rt, c, q); }
int MPI_Alltoallw(const void *s, const int *sc, const int *sd, const MPI_Datatype *st, void *r, const int *rc, const int *rd, const MPI_Datatype *rt, MPI_Comm c)
{
  Call k("MPI_Alltoallw"); int sz = csize(c, "MPI_Alltoallw"); std::vector<Seg> a(sz), b(sz);
  for (int i = 0; i < sz; i++) {
    b[i] = Seg{(size_t)(ptrdiff_t)rd[i], (size_t)rc[i] * tsize(rt[i], "MPI_Alltoallw"), rt[i]->base};
    if (s != MPI_IN_PLACE) a[i] = Seg{(size_t)(ptrdiff_t)sd[i], (size_t)sc[i] * tsize(st[i], "MPI_Alltoallw"), st[i]->base};
  }
  return a2a("MPI_Alltoallw", s, a, r, b, c, nullptr);
}

// ---- communicator construction (collective over the parent)

int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
{
  Call k("MPI_Comm_dup");
  Pend p = coll_enter(c, "MPI_Comm_dup"); coll_arrive(p);
  std::function<bool()> ready = [p] { return coll_all(p); };
  block("MPI_Comm_dup", ready);
  CommObj *&m = p.c->made[0]; if (!m) m = new_commobj(p.o->members);
  *o = new_comm(m, tls_rank, false); coll_leave(p); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
  Call k("MPI_Comm_split");
  Pend p = coll_enter(c, "MPI_Comm_split"); p.c->param[p.me] = color; p.c->param2[p.me] = key; coll_arrive(p);
  std::function<bool()> ready = [p] { return coll_all(p); };
  block("MPI_Comm_split", ready);
  if (color == MPI_UNDEFINED) { *o = nullptr; coll_leave(p); return 0; }
  std::vector<std::pair<long, int>> v;
  for (int i = 0; i < p.c->n; i++) if (p.c->param[i] == color) v.push_back(std::make_pair(p.c->param2[i], i));
  std::stable_sort(v.begin(), v.end());
  std::vector<int> mem; for (auto &x : v) mem.push_back(p.o->members[x.second]);
  CommObj *&m = p.c->made[v[0].second]; if (!m) m = new_commobj(mem);
  *o = new_comm(m, tls_rank, false); coll_leave(p); return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(c, type == MPI_UNDEFINED ? MPI_UNDEFINED : 0, key, o); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o)
{
  Call k("MPI_Comm_create");
  Pend p = coll_enter(c, "MPI_Comm_create");
  if (gok(g, "MPI_Comm_create")) p.c->groups[p.me] = g->members;
  coll_arrive(p);
  std::function<bool()> ready = [p] { return coll_all(p); };
  block("MPI_Comm_create", ready);
  const std::vector<int> &mine = p.c->groups[p.me];
  // legality: groups of different ranks are identical or disjoint
  if (!p.c->checked) {
    p.c->checked = true;
    for (int i = 0; i < p.c->n; i++) for (int j = i + 1; j < p.c->n; j++) {
      if (p.c->groups[i] == p.c->groups[j]) continue;
      for (int x : p.c->groups[i]) if (std::find(p.c->groups[j].begin(), p.c->groups[j].end(), x) != p.c->groups[j].end()) {
        fm::violation("mpi-usage", "MPI_Comm_create: ranks pass different overlapping groups"); i = j = p.c->n; break;
      }
    }
    for (int i = 0; i < p.c->n; i++) for (int x : p.c->groups[i]) {
      int r = (int)(std::find(p.o->members.begin(), p.o->members.end(), x) - p.o->members.begin());
      if (r >= p.c->n || p.c->groups[r] != p.c->groups[i]) { fm::violation("mpi-usage", "MPI_Comm_create: a member of the group does not pass the same group"); i = p.c->n; break; }
    }
  }
  if (std::find(mine.begin(), mine.end(), tls_rank) == mine.end()) { *o = nullptr; coll_leave(p); return 0; }
  CommObj *&m = p.c->made[mine[0]]; if (!m) m = new_commobj(mine);
  if (m->members != mine) { any_abort = true; for (int i = 0; i < O.nranks; i++) R[i].kill = 1; unwind(E_ABORT, 1); }
  *o = new_comm(m, tls_rank, false); coll_leave(p); return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o)
{
  Call k("MPI_Comm_create_group");
  CommObj *par = getc(c, "MPI_Comm_create_group");
  if (!gok(g, "MPI_Comm_create_group") || std::find(g->members.begin(), g->members.end(), tls_rank) == g->members.end()) { *o = nullptr; return 0; }
  struct Rv { std::vector<int> mem; int tag, parent; std::set<int> in, out; CommObj *made = nullptr; };
  static std::list<Rv> rvs; static uint64_t rv_run = 0; static Result *last = nullptr; (void)rv_run;
  if (last != RES) { rvs.clear(); last = RES; }
  Rv *rv = nullptr;
  for (auto &x : rvs) if (x.mem == g->members && x.tag == tag && x.parent == par->id && !x.in.count(tls_rank)) { rv = &x; break; }
  if (!rv) { rvs.push_back(Rv()); rv = &rvs.back(); rv->mem = g->members; rv->tag = tag; rv->parent = par->id; }
  rv->in.insert(tls_rank);
  std::function<bool()> ready = [rv] { return rv->in.size() == rv->mem.size(); };
  block("MPI_Comm_create_group", ready);
  if (!rv->made) rv->made = new_commobj(rv->mem);
  *o = new_comm(rv->made, tls_rank, false); return 0;
}
}
