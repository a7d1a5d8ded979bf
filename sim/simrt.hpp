// Deterministic simulation runtime: choice tape, simulated processes ("nodes"),
// simulated MPI jobs, fault plans. See /verif/DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;

inline u64 mix64(u64 z)
{
   z += 0x9e3779b97f4a7c15ull;
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}
inline u64 hcomb(u64 h, u64 v) { return mix64(h ^ mix64(v)); }
u64 hbytes(u64 h, const void *p, size_t n);

// Derived pseudo-random stream; its seed is one value on the tape.
struct Rng
{
   u64 s;
   explicit Rng(u64 seed = 0) : s(mix64(seed)) {}
   u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
   u64 below(u64 n) { return n ? next() % n : 0; }
   bool chance(unsigned num, unsigned den) { return below(den) < num; }
   double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---- fault plans -----------------------------------------------------------
enum OpType
{
   T_OPEN, T_CLOSE, T_READ, T_WRITE, T_LSEEK, T_TRUNC, T_FSTAT, T_STAT,
   T_FLOCK, T_RENAME, T_UNLINK, T_MKDIR, T_FSYNC, T_NOPS
};
extern const char *op_name[];

enum FaultKind
{
   F_NONE,
   F_W_EIO,         // one write fails with EIO
   F_W_EIO_P,       // all writes fail with EIO from here on
   F_ENOSPC,        // all writes fail with ENOSPC from here on
   F_SHORT_ENOSPC,  // half of this write is stored, then the disk is full
   F_TRUNC_EIO,     // ftruncate fails
   F_OPEN_EACCES,
   F_OPEN_EMFILE,
   F_R_EIO,         // one read fails with EIO
   F_R_EIO_P,       // all reads fail from here on
   F_CLOSE_EIO,     // close reports EIO (descriptor is released)
   F_FSTAT_EIO,
   F_LSEEK_EIO,
   F_FLOCK_FAIL,    // lock is refused
   F_RENAME_EIO,
   F_ALLOC,         // one memory allocation fails
   F_CRASH_BEFORE,  // process dies instead of the operation
   F_CRASH_TORN,    // process dies in the middle of a write
   F_CRASH_AFTER,   // process dies right after the operation
   F_EINTR,         // (benign) read/write interrupted
   F_SHORT,         // (benign) read/write shortened
   F_DELAY,         // (benign) slow operation
   F_KILLJOB,       // whole MPI job killed between two steps
   F_DAMAGE,        // file damaged on disk between processes
   F_PREEMPT,       // scheduler preemption
   F_CLOCKJUMP,     // wall clock jumps
   F_RANDADV,       // adversarial random source
   F_DIRTY,         // (benign) fresh memory is filled with a pattern
   F_NKINDS
};
extern const char *fault_name[];

struct FaultPlan
{
   int kind = F_NONE;
   long at = -1;       // index of the tracked operation (allocation for F_ALLOC)
   u64 arg = 0;
   int benign = 0;     // out of 256 eligible operations
   u64 bseed = 0;
   int dirty = 0;      // pattern of fresh memory (0: as it comes)
};

struct OpRec { uint8_t type; uint8_t aux; uint16_t path; uint32_t len; };

struct NodeOut
{
   enum Status { OK, LOUD, CRASH, HANG, KILLED };
   Status st = LOUD;
   std::string how;        // signal / exit code / ...
   std::string out;        // bytes recorded by the node
   std::string console;    // what it printed
   std::vector<OpRec> ops;
   std::vector<std::string> paths;
   u64 nops = 0, nalloc = 0;
   bool fired = false;     // the planned fault happened
   u64 hash = 0;
   bool ok() const { return st == OK; }
   const char *name() const
   { static const char *n[] = {"OK", "LOUD", "CRASH", "HANG", "KILLED"}; return n[st]; }
};

// Output/input of nodes: a plain byte stream.
struct Out
{
   std::string b;
   void raw(const void *p, size_t n) { b.append((const char *)p, n); }
   void i(long long v) { raw(&v, 8); }
   void d(double v) { raw(&v, 8); }
   void s(const std::string &v) { i((long long)v.size()); b += v; }
};
struct In
{
   const std::string &b; size_t p = 0; bool bad = false;
   explicit In(const std::string &x) : b(x) {}
   void raw(void *q, size_t n) { if (p + n > b.size()) { bad = true; memset(q, 0, n); return; } memcpy(q, b.data() + p, n); p += n; }
   long long i() { long long v = 0; raw(&v, 8); return v; }
   double d() { double v = 0; raw(&v, 8); return v; }
   std::string s() { long long n = i(); if (bad || n < 0 || p + (size_t)n > b.size()) { bad = true; return ""; } std::string r(b, p, n); p += n; return r; }
   bool end() const { return p == b.size(); }
};

struct Violation { std::string sig, detail; };

struct Ctx
{
   // tape
   std::vector<u64> tape;
   size_t pos = 0;
   bool gen = true;
   Rng trng;
   u64 choose(u64 n);                       // [0,n); 0 is the simplest choice
   bool flip(unsigned num, unsigned den);   // 0 on the tape means false
   Rng stream() { return Rng(choose(1ull << 32)); }
   template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }

   std::string prop;
   bool thorough = false;
   std::string base;                        // scratch directory of the run
   // record
   std::vector<std::string> trace;
   u64 hash = 0;
   std::map<std::string, u64> faults;
   std::map<std::string, u64> counters;
   u64 cover = 0;                           // fingerprint of what this run explored
   bool nontrivial = false;
   u64 sched_hash = 0, nodes = 0, steps = 0;
   void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
   void cov(const std::string &s) { cover = hbytes(cover, s.data(), s.size()); }
   void cov(u64 v) { cover = hcomb(cover, v); }
   [[noreturn]] void violation(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
   void fault(int kind, u64 n = 1) { faults[fault_name[kind]] += n; }

   // disks are directories below base
   std::string disk(const std::string &name);                                // create
   std::string clone(const std::string &from, const std::string &name);      // copy
};

// Run fn in one simulated process whose working directory is disk.
struct NodeOpt
{
   FaultPlan plan;
   bool fastexit = true;     // killed right after fn returned; otherwise exit()
   bool mpi = true;          // MPI_Initialized
   u64 rand_seed = 1;        // random_device / mt19937 stream
   int rand_mode = 0;        // 0 uniform, else adversarial
   unsigned cpu_s = 20;
};
NodeOut run_node(Ctx &c, const std::string &name, const std::string &disk, const NodeOpt &o,
                 const std::function<void(Out &)> &fn);

// Run fn on n simulated MPI ranks under the simulated scheduler.
struct JobOpt
{
   std::vector<NodeOpt> node;         // per rank (default if missing)
   int mode = 0;                      // 0 no preemption, 1 preemption points, 2 random walk
   std::vector<std::pair<long, int> > pre; // (step, rank to switch to)
   u64 walk_seed = 0; int walk_den = 4;
   bool eager = true;                 // root of a broadcast may run ahead
   long kill_at = -1;                 // kill the job at this step
   bool independent = false;          // separate runs that start together, not ranks of one MPI job
   long max_steps = 200000;
};
struct JobOut { std::vector<NodeOut> r; bool deadlock = false; long steps = 0; std::string mpi_error; bool all_ok() const; bool any_ok() const; std::string summary() const; };
JobOut run_job(Ctx &c, const std::string &name, const std::string &disk, int n, const JobOpt &o,
               const std::function<void(int, Out &)> &fn);
// Draw a schedule (and its fault counters) from the tape.
void draw_schedule(Ctx &c, JobOpt &o, int n, long steps_hint);

// --- inside nodes ---
u64 sim_now();                 // ns
void sim_advance(u64 ns);      // the process computes
void sim_wait(u64 ns);         // the process waits (no processor time)
void sim_clock_jump(long long ns); // the wall clock is set
void sim_yield();              // explicit scheduling point
int open_fds();                // descriptors open on files of the simulated disk
std::string list_fds();
bool fd_flocked();             // is any tracked descriptor still holding a lock
void pause_faults(bool p);     // no faults injected while paused (harness code in nodes)

// choose a fault for an operation list obtained by a rehearsal
enum FaultClass { FC_WRITE = 1, FC_READ = 2, FC_CRASH = 4, FC_OPEN = 8, FC_ALLOC = 16, FC_LOCK = 32 };
FaultPlan draw_fault(Ctx &c, int classes, const NodeOut &rehearsal, const char *path_filter = nullptr);
void draw_benign(Ctx &c, FaultPlan &p);

typedef void (*Scenario)(Ctx &);
struct Reg { Reg(const char *prop, Scenario s, const char *rule); };
std::map<std::string, std::pair<Scenario, std::string> > &registry();
int sim_main(int argc, char **argv);

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool write_file(const std::string &path, const std::string &data);
bool read_file(const std::string &path, std::string &data);
bool file_exists(const std::string &path);
std::vector<std::string> list_dir(const std::string &path);
void rm_rf(const std::string &path);
std::string hex(const std::string &b, size_t max = 64);

} // namespace sim
