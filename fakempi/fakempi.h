// Control interface of the simulated MPI (for the harness only).
#ifndef FAKEMPI_H
#define FAKEMPI_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace fm {

struct Rng {                       // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uni() < p; }
};

enum Sched { S_RANDOM = 0, S_RUNTOBLOCK, S_ROUNDROBIN, S_STARVE, S_REVERSE, S_FAVOR, S_NPOLICY };
enum SendMode { M_EAGER = 0, M_RENDEZVOUS, M_MIXED };

struct Options {
  int nranks = 1;
  int embed = 0;                   // >0: job runs on a sub-communicator of a world with embed-1 more ranks (used by the harness)
  uint64_t seed = 1;
  int sched = S_RANDOM;
  int victim = 0;                  // rank starved/favoured
  int sendmode = M_MIXED;
  bool loose_coll = false;         // collectives return as soon as legal
  bool scribble = true;            // poison receive buffers until completion
  int max_delay = 0;               // max delivery delay in scheduler steps
  int clock_mode = 0;              // 0 regular, 1 jittered, 2 skewed rates, 3 adversarial (rank order flips), 4 and 7 by work done, 5 by call, 6 alternating, 8 coarse, 9 stalled
  double clock_tick = 1e-4;
  uint64_t max_steps = 20000000;
};

enum EndState { E_OK = 0, E_EXIT, E_ABORT, E_KILLED };

struct Violation { std::string kind, detail; int rank; };

struct Result {
  std::vector<Violation> v;
  std::vector<int> end;            // EndState per rank
  std::vector<int> code;           // exit code per rank
  std::vector<int> finalized;
  uint64_t steps = 0, switches = 0, messages = 0, colls = 0, bytes = 0;
  uint64_t preempts = 0, blocked = 0, anychoices = 0;
  uint64_t sched_hash = 0;
  std::map<std::string, uint64_t> calls;
  bool deadlock = false, livelock = false;
};

// what the calling rank hands to the MPI library while a Watch is open (world rank -> amount)
struct Traffic { std::map<int, uint64_t> p2p, nmsg, a2a; std::vector<std::vector<int>> groups; std::map<std::string, int> others; };
struct Watch { Traffic t; Traffic *outer; Watch(); ~Watch(); };

Result run(const Options &o, const std::function<void(int)> &body);

int self();                        // rank of the calling thread or -1
void violation(const std::string &kind, const std::string &detail);
void work(uint64_t units);              // advances the clock of the calling rank (clock mode 7)
int live_comms(int rank);
int live_groups(int rank);
int live_requests(int rank);
int live_types(int rank);
uint64_t steps();

void globals_reset();                           // a new set of processes: library statics back to their initial values
// heap accounting (needs a sanitizer allocator)
extern thread_local int in_lib;    // >0 while library code runs on this thread
struct LibScope { LibScope() { ++in_lib; } ~LibScope() { --in_lib; } };
void heap_reset();
int64_t heap_live_blocks();
int64_t heap_live_bytes();
int64_t heap_rank_bytes(int rank, bool aligned);   // live library blocks of one rank; aligned: only those from posix_memalign or realloc
void user_buffer_add(void *p);
void user_buffer_del(void *p);
bool heap_tracking();
}
#endif
