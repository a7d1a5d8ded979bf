#undef _FORTIFY_SOURCE
#include "shim.hpp"
#include <algorithm>
#include <array>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <regex>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

u64 hbytes(u64 h, const void *p, size_t n)
{
   const unsigned char *c = (const unsigned char *)p;
   u64 f = 1469598103934665603ull ^ h;
   for (size_t k = 0; k < n; k++) { f ^= c[k]; f *= 1099511628211ull; }
   return mix64(f ^ n);
}
std::string fmt(const char *f, ...)
{
   va_list a; va_start(a, f); char *p = 0; int n = vasprintf(&p, f, a); va_end(a);
   std::string s(p, n); free(p); return s;
}
bool write_file(const std::string &path, const std::string &data)
{
   int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
   if (fd < 0) return false;
   size_t p = 0;
   while (p < data.size()) { long r = syscall(SYS_write, fd, data.data() + p, data.size() - p); if (r <= 0) { syscall(SYS_close, fd); return false; } p += r; }
   syscall(SYS_close, fd);
   return true;
}
static std::string slurp(int fd)
{
   std::string s; char b[65536]; off_t o = 0;
   for (;;) { long r = syscall(SYS_pread64, fd, b, sizeof b, o); if (r <= 0) break; s.append(b, r); o += r; }
   return s;
}
bool read_file(const std::string &path, std::string &data)
{
   int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
   if (fd < 0) return false;
   data = slurp(fd);
   syscall(SYS_close, fd);
   return true;
}
bool file_exists(const std::string &path) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), &st, 0) == 0; }
std::vector<std::string> list_dir(const std::string &path)
{
   std::vector<std::string> v;
   if (DIR *d = opendir(path.c_str()))
   {
      while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
      closedir(d);
   }
   std::sort(v.begin(), v.end());
   return v;
}
static bool is_dir(const std::string &p) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode); }
void rm_rf(const std::string &p)
{
   if (p.find("vsim") == std::string::npos) return; // only ever our own scratch
   if (is_dir(p)) { for (auto &n : list_dir(p)) rm_rf(p + "/" + n); syscall(SYS_rmdir, p.c_str()); }
   else syscall(SYS_unlink, p.c_str());
}
std::string hex(const std::string &b, size_t max)
{
   std::string s;
   for (size_t k = 0; k < b.size() && k < max; k++) s += fmt("%02x", (unsigned char)b[k]);
   if (b.size() > max) s += fmt("...(%zu bytes)", b.size());
   return s;
}

// ---- Ctx -------------------------------------------------------------------
u64 Ctx::choose(u64 n)
{
   if (n <= 1) return 0;
   if (gen)
   {
      u64 v = trng.below(n);
      tape.push_back(v); pos++;
      return v;
   }
   u64 v = pos < tape.size() ? tape[pos] : 0;
   pos++;
   return v % n;
}
bool Ctx::flip(unsigned num, unsigned den) { return choose(den) >= den - num; }
void Ctx::note(const char *f, ...)
{
   va_list a; va_start(a, f); char *p = 0; int n = vasprintf(&p, f, a); va_end(a);
   std::string s(p, n); free(p);
   hash = hbytes(hash, s.data(), s.size());
   trace.push_back(s);
}
void Ctx::violation(const std::string &sig, const char *f, ...)
{
   va_list a; va_start(a, f); char *p = 0; int n = vasprintf(&p, f, a); va_end(a);
   std::string s(p, n); free(p);
   note("VIOLATION %s: %s", sig.c_str(), s.c_str());
   throw Violation{sig, s};
}
std::string Ctx::disk(const std::string &name)
{
   std::string p = base + "/" + name;
   rm_rf(p);
   syscall(SYS_mkdir, p.c_str(), 0755);
   return p;
}
static void copy_tree(const std::string &a, const std::string &b)
{
   for (auto &n : list_dir(a))
   {
      if (is_dir(a + "/" + n)) { syscall(SYS_mkdir, (b + "/" + n).c_str(), 0755); copy_tree(a + "/" + n, b + "/" + n); }
      else { std::string d; read_file(a + "/" + n, d); write_file(b + "/" + n, d); }
   }
}
std::string Ctx::clone(const std::string &from, const std::string &name)
{
   std::string p = disk(name);
   copy_tree(from, p);
   return p;
}

// ---- nodes -----------------------------------------------------------------
static void reset_shm(NodeShm *n)
{
   n->nops = n->nalloc = n->hash = n->done = n->crashed = n->fired = n->overflow = 0;
   for (int k = 0; k < F_NKINDS; k++) n->faults[k] = 0;
   n->npaths = 0;
   memset(n->paths, 0, sizeof n->paths);
}

struct Child { pid_t pid = -1; int out = -1, con = -1, sock = -1; };

static void raw_write_all(int fd, const std::string &s)
{ size_t p = 0; while (p < s.size()) { long r = syscall(SYS_write, fd, s.data() + p, s.size() - p); if (r <= 0) return; p += r; } }

static void node_main(const std::string &disk, const NodeOpt &o, int slot, int rank, int size, int sock, int out, int con,
                      const std::function<void(int, Out &)> &fn)
{
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   struct rlimit rl = {o.cpu_s, o.cpu_s + 2}; setrlimit(RLIMIT_CPU, &rl);
   struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
   struct rlimit ra = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &ra);
   struct rlimit rf = {256ull << 20, 256ull << 20}; setrlimit(RLIMIT_FSIZE, &rf); signal(SIGXFSZ, SIG_IGN);
   if (chdir(disk.c_str())) _exit(99);
   fflush(stdout); fflush(stderr);
   dup2(con, 1); dup2(con, 2);
   setvbuf(stdout, 0, _IOFBF, 1 << 16);
   mallopt(M_PERTURB, 0x5a);
   NS.plan = o.plan; NS.ns = &shm->node[slot]; NS.rank = rank; NS.size = size; NS.sock = sock;
   NS.mpi_init = o.mpi; NS.mpi_final = false; NS.rand_state = mix64(o.rand_seed); NS.rand_mode = o.rand_mode;
   NS.scratch = disk; NS.wfail = NS.rfail = NS.paused = false;
   if (sock >= 0) { long long n = 0; if (syscall(SYS_read, sock, &n, 8) != 8) _exit(98); }
   NS.active = true;
   {
      Out ob;
      fn(rank, ob);
      NS.active = false;
      fflush(stdout); fflush(stderr);
      raw_write_all(out, ob.b);
      NS.ns->done = 1;
      NS.active = true;
   }
   if (sock >= 0) { Msg m = {}; m.type = M_DONE; syscall(SYS_write, sock, &m, sizeof m); }
   if (o.fastexit) syscall(SYS_exit_group, 0);
   NS.paused = true;
   exit(0);
}

static Child spawn(const std::string &disk, const NodeOpt &o, int slot, int rank, int size, bool job,
                   const std::function<void(int, Out &)> &fn, const std::vector<Child> &others)
{
   Child c;
   reset_shm(&shm->node[slot]);
   c.out = memfd_create("out", 0);
   c.con = memfd_create("con", 0);
   int sv[2] = {-1, -1};
   if (job && socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
   c.pid = fork();
   if (c.pid < 0) { perror("fork"); exit(3); }
   if (c.pid == 0)
   {
      for (auto &x : others) if (x.sock >= 0) syscall(SYS_close, x.sock);
      if (job) syscall(SYS_close, sv[0]);
      node_main(disk, o, slot, rank, size, sv[1], c.out, c.con, fn);
      _exit(96);
   }
   if (job) { syscall(SYS_close, sv[1]); c.sock = sv[0]; }
   return c;
}

static NodeOut collect(Ctx &c, Child &ch, int slot, int wst, bool killed)
{
   NodeShm *n = &shm->node[slot];
   NodeOut r;
   r.out = slurp(ch.out); r.console = slurp(ch.con);
   syscall(SYS_close, ch.out); syscall(SYS_close, ch.con);
   if (ch.sock >= 0) syscall(SYS_close, ch.sock);
   ch.out = ch.con = ch.sock = -1;
   r.nops = n->nops; r.nalloc = n->nalloc; r.fired = n->fired; r.hash = n->hash;
   r.ops.assign(n->ops, n->ops + std::min<u64>((u64)n->nops, MAXOPS));
   for (int k = 0; k < n->npaths; k++) r.paths.push_back(n->paths[k]);
   for (int k = 1; k < F_NKINDS; k++) if (n->faults[k]) c.fault(k, n->faults[k]);
   if (n->done && !n->crashed && (WIFEXITED(wst) && WEXITSTATUS(wst) == 0)) { r.st = NodeOut::OK; r.how = "ok"; }
   else if (n->done && !n->crashed && killed) { r.st = NodeOut::OK; r.how = "ok"; } // finished before the job was torn down
   else if (n->crashed) { r.st = NodeOut::CRASH; r.how = "injected crash"; }
   else if (killed) { r.st = NodeOut::KILLED; r.how = "killed with the job"; }
   else if (WIFSIGNALED(wst))
   {
      int s = WTERMSIG(wst);
      r.st = (s == SIGXCPU || s == SIGKILL) ? NodeOut::HANG : NodeOut::LOUD;
      r.how = fmt("signal %d", s);
   }
   else { r.st = NodeOut::LOUD; r.how = fmt("exit code %d", WEXITSTATUS(wst)); if (n->done) r.how += " (after finishing)"; }
   c.steps += r.nops;
   c.nodes++;
   return r;
}

static std::string last_line(const std::string &s)
{
   std::string t = s;
   while (!t.empty() && (t.back() == '\n' || t.back() == ' ')) t.pop_back();
   // prefer assertion / error lines
   size_t a = t.rfind("Assertion");
   if (a != std::string::npos) { size_t b = t.find('\n', a); t = t.substr(a, b == std::string::npos ? b : b - a); }
   else { size_t p = t.rfind('\n'); if (p != std::string::npos) t = t.substr(p + 1); }
   if (t.size() > 160) t = t.substr(0, 160);
   for (auto &ch : t) if ((unsigned char)ch < 32) ch = ' ';
   return t;
}

static std::string plan_str(const FaultPlan &p)
{
   std::string s;
   if (p.kind != F_NONE) s += fmt(" fault=%s@op%ld", fault_name[p.kind], p.at);
   if (p.dirty) s += fmt(" dirty=%d", p.dirty);
   if (p.benign) s += fmt(" benign=%d/256", p.benign);
   return s;
}

static void describe_fault(Ctx &c, const FaultPlan &p, const NodeOut &r)
{
   if (p.kind != F_NONE && p.kind != F_ALLOC && r.fired && p.at >= 0 && (size_t)p.at < r.ops.size())
   {
      const OpRec &o = r.ops[p.at];
      c.note("   fault fired: %s at operation %ld: %s %s len=%u", fault_name[p.kind], p.at, op_name[o.type],
             o.path < r.paths.size() ? r.paths[o.path].c_str() : "?", o.len);
   }
}

NodeOut run_node(Ctx &c, const std::string &name, const std::string &disk, const NodeOpt &o, const std::function<void(Out &)> &fn)
{
   Child ch = spawn(disk, o, 0, 0, 1, false, [&](int, Out &ob) { fn(ob); }, {});
   int wst = 0;
   while (waitpid(ch.pid, &wst, 0) < 0 && errno == EINTR) {}
   NodeOut r = collect(c, ch, 0, wst, false);
   c.note("process %s:%s -> %s (%s) ops=%llu out=%016llx%s%s", name.c_str(), plan_str(o.plan).c_str(), r.name(), r.how.c_str(),
          (unsigned long long)r.nops, (unsigned long long)hbytes(r.hash, r.out.data(), r.out.size()),
          r.ok() || r.st == NodeOut::CRASH ? "" : " : ", r.ok() || r.st == NodeOut::CRASH ? "" : last_line(r.console).c_str());
   describe_fault(c, o.plan, r);
   return r;
}

// ---- MPI jobs ----------------------------------------------------------------
bool JobOut::all_ok() const { for (auto &x : r) if (!x.ok()) return false; return true; }
bool JobOut::any_ok() const { for (auto &x : r) if (x.ok()) return true; return false; }
std::string JobOut::summary() const { std::string s; for (auto &x : r) s += std::string(s.empty() ? "" : ",") + x.name(); if (deadlock) s += " DEADLOCK"; if (!mpi_error.empty()) s += " MPI:" + mpi_error; return s; }

struct Inst { int kind, root, count, dtype, op, first; std::vector<bool> in, replied; std::vector<std::string> data; int n = 0; };
struct CommC { std::vector<int> members; std::vector<Inst> inst; std::map<int, int> seq; };
struct Mail { int src, tag; std::string data; };

static bool rd_all(int fd, void *p, size_t n)
{
   char *c = (char *)p;
   while (n) { long r = syscall(SYS_read, fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
   return true;
}
static void resume(int fd, const std::string &reply)
{
   long long n = reply.size();
   std::string b((char *)&n, 8); b += reply;
   size_t p = 0;
   while (p < b.size())
   {
      long r = send(fd, b.data() + p, b.size() - p, MSG_NOSIGNAL);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) return;
      p += r;
   }
}
static const char *kname[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Allgather", "Scatter", "Scan", "Exscan",
                              "Gatherv", "Allgatherv", "Scatterv", "Comm_dup", "Comm_split", "Alltoall", "Comm_free"};

JobOut run_job(Ctx &c, const std::string &name, const std::string &disk, int n, const JobOpt &o, const std::function<void(int, Out &)> &fn)
{
   JobOut J; J.r.resize(n);
   enum St { READY, BLOCKED, DONE, DEAD };
   std::vector<Child> ch;
   std::vector<NodeOpt> opts;
   for (int k = 0; k < n; k++) { opts.push_back(k < (int)o.node.size() ? o.node[k] : NodeOpt()); ch.push_back(spawn(disk, opts[k], k, o.independent ? 0 : k, o.independent ? 1 : n, true, fn, ch)); }
   std::vector<St> st(n, READY);
   std::vector<std::string> reply(n);
   std::vector<bool> initial(n, true);
   std::map<int, CommC> comms;
   for (int k = 0; k < n; k++) comms[0].members.push_back(k);
   int next_comm = 2;
   std::map<std::pair<int, int>, std::vector<Mail> > mail; // (comm, world rank)
   std::vector<Msg> pend(n);
   std::vector<int> wst(n, 0);
   bool kill_all = false;
   int cur = -1;
   long step = 0;
   size_t npre = 0;
   Rng walk(o.walk_seed);
   auto local = [&](CommC &cc, int w) { for (size_t k = 0; k < cc.members.size(); k++) if (cc.members[k] == w) return (int)k; return -1; };
   auto pack = [&](Inst &I) { Out p; for (auto &d : I.data) p.s(d); return p.b; };
   auto done_reply = [&](CommC &cc, Inst &I, int lr, const std::string &rep)
   { int w = cc.members[lr]; I.replied[lr] = true; reply[w] = rep; st[w] = READY; };

   while (!kill_all)
   {
      std::vector<int> ready;
      bool any_alive = false;
      for (int k = 0; k < n; k++) { if (st[k] == READY) ready.push_back(k); if (st[k] == READY || st[k] == BLOCKED) any_alive = true; }
      if (!any_alive) break;
      if (ready.empty()) { J.deadlock = true; c.note("   step %ld: deadlock: every live rank waits", step); break; }
      if (o.kill_at >= 0 && step >= o.kill_at) { c.fault(F_KILLJOB); c.note("   step %ld: job killed", step); kill_all = true; break; }
      if (step >= o.max_steps) { J.deadlock = true; c.note("   step limit reached"); break; }
      // scheduling decision
      int prev = cur;
      bool cur_ready = cur >= 0 && st[cur] == READY;
      if (o.mode == 2)
      {
         if (!cur_ready || walk.below(o.walk_den) == 0) cur = ready[walk.below(ready.size())];
      }
      else
      {
         if (!cur_ready) cur = ready.size() == 1 ? ready[0] : (o.mode ? ready[c.choose(ready.size())] : ready[0]);
         while (npre < o.pre.size() && o.pre[npre].first <= step)
         {
            if (o.pre[npre].first == step && st[o.pre[npre].second] == READY) cur = o.pre[npre].second;
            npre++;
         }
      }
      if (prev >= 0 && cur != prev && st[prev] == READY) c.fault(F_PREEMPT);
      c.sched_hash = hcomb(c.sched_hash, cur);
      step++;
      resume(ch[cur].sock, reply[cur]);
      if (initial[cur]) initial[cur] = false;
      reply[cur].clear();
      Msg m;
      if (!rd_all(ch[cur].sock, &m, sizeof m))
      {
         // the rank died
         while (waitpid(ch[cur].pid, &wst[cur], 0) < 0 && errno == EINTR) {}
         st[cur] = DEAD;
         c.note("   step %ld: %s %d ended abnormally%s", step, o.independent ? "process" : "rank", cur, o.independent ? "" : "; job torn down");
         if (o.independent) continue;
         kill_all = true;
         break;
      }
      std::string payload;
      if (m.len) { payload.resize(m.len); if (!rd_all(ch[cur].sock, &payload[0], m.len)) payload.clear(); }
      switch (m.type)
      {
         case M_YIELD: break;
         case M_DONE:
            while (waitpid(ch[cur].pid, &wst[cur], 0) < 0 && errno == EINTR) {}
            st[cur] = DONE;
            if (!o.independent && !(WIFEXITED(wst[cur]) && WEXITSTATUS(wst[cur]) == 0)) kill_all = true;
            break;
         case M_ERR: J.mpi_error = payload; kill_all = true; break;
         case M_ABORT:
            if (o.independent) { while (waitpid(ch[cur].pid, &wst[cur], 0) < 0 && errno == EINTR) {} st[cur] = DEAD; }
            else kill_all = true;
            break;
         case M_SEND:
         {
            CommC &cc = comms[m.comm];
            int dst = cc.members[m.root];
            mail[{m.comm, dst}].push_back(Mail{local(cc, cur), m.op, payload});
            if (st[dst] == BLOCKED && pend[dst].type == M_RECV && pend[dst].comm == m.comm)
            {
               auto &q = mail[{m.comm, dst}];
               for (size_t k = 0; k < q.size(); k++)
                  if ((pend[dst].root < 0 || pend[dst].root == q[k].src) && (pend[dst].op < 0 || pend[dst].op == q[k].tag))
                  { Out p; p.i(q[k].src); p.i(q[k].tag); p.s(q[k].data); q.erase(q.begin() + k); reply[dst] = p.b; st[dst] = READY; break; }
            }
            break;
         }
         case M_RECV:
         {
            pend[cur] = m;
            st[cur] = BLOCKED;
            auto &q = mail[{m.comm, cur}];
            for (size_t k = 0; k < q.size(); k++)
               if ((m.root < 0 || m.root == q[k].src) && (m.op < 0 || m.op == q[k].tag))
               { Out p; p.i(q[k].src); p.i(q[k].tag); p.s(q[k].data); q.erase(q.begin() + k); reply[cur] = p.b; st[cur] = READY; break; }
            break;
         }
         case M_COLL:
         {
            pend[cur] = m;
            CommC &cc = comms[m.comm];
            int lr = local(cc, cur), sz = cc.members.size();
            int seq = cc.seq[cur]++;
            if (seq >= (int)cc.inst.size())
            {
               Inst I; I.kind = m.kind; I.root = m.root; I.count = m.count; I.dtype = m.dtype; I.op = m.op; I.first = cur;
               I.in.assign(sz, false); I.replied.assign(sz, false); I.data.assign(sz, "");
               cc.inst.push_back(I);
            }
            Inst &I = cc.inst[seq];
            if (I.kind != m.kind || I.root != m.root || I.count != m.count || I.dtype != m.dtype || I.op != m.op)
            {
               J.mpi_error = fmt("collective mismatch: rank %d calls MPI_%s(root %d, count %d) where rank %d called MPI_%s(root %d, count %d)",
                                 cur, kname[m.kind], m.root, m.count, I.first, kname[I.kind], I.root, I.count);
               kill_all = true; break;
            }
            I.in[lr] = true; I.data[lr] = payload; I.n++;
            st[cur] = BLOCKED;
            bool all = I.n == sz;
            if (m.kind == K_DUP && all)
            {
               Out id; id.i(next_comm);
               CommC nc; nc.members = cc.members;
               comms[next_comm++] = nc;
               Inst &I2 = comms[m.comm].inst[seq];
               Out p; p.s(id.b);
               for (int k = 0; k < sz; k++) done_reply(comms[m.comm], I2, k, p.b);
            }
            else if (m.kind == K_SPLIT && all)
            {
               std::map<long long, std::vector<std::pair<long long, int> > > g;
               for (int k = 0; k < sz; k++) { In in(I.data[k]); long long col = in.i(), key = in.i(); g[col].push_back({key, k}); }
               std::vector<std::string> rep(sz);
               for (auto &x : g)
               {
                  std::stable_sort(x.second.begin(), x.second.end());
                  CommC nc; for (auto &y : x.second) nc.members.push_back(comms[m.comm].members[y.second]);
                  for (size_t q = 0; q < x.second.size(); q++)
                  { Out id; id.i(next_comm); id.i(q); id.i(x.second.size()); Out p; p.s(id.b); rep[x.second[q].second] = p.b; }
                  comms[next_comm++] = nc;
               }
               Inst &I2 = comms[m.comm].inst[seq];
               for (int k = 0; k < sz; k++) done_reply(comms[m.comm], I2, k, rep[k]);
            }
            else if (m.kind == K_BCAST || m.kind == K_SCATTER || m.kind == K_SCATTERV)
            {
               if (o.eager ? (bool)I.in[I.root] : all)
                  for (int k = 0; k < sz; k++) if (I.in[k] && !I.replied[k]) done_reply(cc, I, k, pack(I));
            }
            else if (m.kind == K_REDUCE || m.kind == K_GATHER || m.kind == K_GATHERV)
            {
               for (int k = 0; k < sz; k++)
                  if (I.in[k] && !I.replied[k] && (all || (o.eager && k != I.root))) done_reply(cc, I, k, k == I.root ? pack(I) : std::string());
            }
            else if (all)
               for (int k = 0; k < sz; k++) done_reply(cc, I, k, pack(I));
            break;
         }
      }
   }
   std::vector<bool> was_killed(n, false);
   for (int k = 0; k < n; k++)
      if (st[k] == READY || st[k] == BLOCKED)
      {
         // ranks that were exiting on their own (MPI error, abort) are allowed to
         bool self = (k == cur) && (!J.mpi_error.empty());
         (void)self;
         kill(ch[k].pid, SIGKILL);
         while (waitpid(ch[k].pid, &wst[k], 0) < 0 && errno == EINTR) {}
         was_killed[k] = true;
      }
   for (int k = 0; k < n; k++)
   {
      bool fatal = was_killed[k] && k == cur && (!J.mpi_error.empty());
      J.r[k] = collect(c, ch[k], k, wst[k], was_killed[k]);
      if (J.r[k].st == NodeOut::KILLED && J.deadlock) { J.r[k].st = NodeOut::HANG; J.r[k].how = "waits forever"; }
      else if (fatal && !J.r[k].ok()) { J.r[k].st = NodeOut::LOUD; J.r[k].how = "MPI error"; }
   }
   J.steps = step;
   c.note("job %s: %d ranks, %ld steps, sched=%016llx -> %s", name.c_str(), n, step, (unsigned long long)c.sched_hash, J.summary().c_str());
   for (int k = 0; k < n; k++)
   {
      NodeOut &r = J.r[k];
      c.note("   rank %d:%s -> %s (%s) ops=%llu out=%016llx%s%s", k, plan_str(opts[k].plan).c_str(), r.name(), r.how.c_str(), (unsigned long long)r.nops,
             (unsigned long long)hbytes(r.hash, r.out.data(), r.out.size()), r.st == NodeOut::LOUD ? " : " : "", r.st == NodeOut::LOUD ? last_line(r.console).c_str() : "");
      describe_fault(c, opts[k].plan, r);
   }
   return J;
}

void draw_schedule(Ctx &c, JobOpt &o, int n, long hint)
{
   if (hint < 4) hint = 4;
   o.mode = n > 1 ? c.choose(3) : 0;
   o.eager = !c.flip(1, 2);
   if (o.mode == 1)
   {
      int k = c.choose(4);
      for (int q = 0; q < k; q++) { long s = c.choose(hint); int r = c.choose(n); o.pre.push_back({s, r}); }
      std::sort(o.pre.begin(), o.pre.end());
   }
   else if (o.mode == 2) { static const int den[] = {16, 4, 2, 64}; o.walk_den = den[c.choose(4)]; o.walk_seed = c.choose(1ull << 32); }
}

// ---- faults --------------------------------------------------------------------
void draw_benign(Ctx &c, FaultPlan &p)
{
   static const int rate[] = {0, 16, 64, 160};
   p.benign = rate[c.choose(4)];
   if (p.benign) p.bseed = c.choose(1ull << 32);
   if (c.flip(1, 3)) p.dirty = 1 + c.choose(5);
}

FaultPlan draw_fault(Ctx &c, int classes, const NodeOut &reh, const char *filter)
{
   std::vector<std::pair<int, int> > kinds; // (kind, op type; -1 any mutating; -2 alloc)
   if (classes & FC_WRITE)
   { kinds.push_back({F_ENOSPC, T_WRITE}); kinds.push_back({F_W_EIO, T_WRITE}); kinds.push_back({F_SHORT_ENOSPC, T_WRITE}); kinds.push_back({F_W_EIO_P, T_WRITE}); kinds.push_back({F_TRUNC_EIO, T_TRUNC}); kinds.push_back({F_CLOSE_EIO, T_CLOSE}); kinds.push_back({F_RENAME_EIO, T_RENAME}); }
   if (classes & FC_READ)
   { kinds.push_back({F_R_EIO, T_READ}); kinds.push_back({F_R_EIO_P, T_READ}); kinds.push_back({F_FSTAT_EIO, T_FSTAT}); kinds.push_back({F_LSEEK_EIO, T_LSEEK}); }
   if (classes & FC_OPEN) { kinds.push_back({F_OPEN_EACCES, T_OPEN}); kinds.push_back({F_OPEN_EMFILE, T_OPEN}); }
   if (classes & FC_LOCK) kinds.push_back({F_FLOCK_FAIL, T_FLOCK});
   if (classes & FC_ALLOC) kinds.push_back({F_ALLOC, -2});
   if (classes & FC_CRASH) { kinds.push_back({F_CRASH_AFTER, -1}); kinds.push_back({F_CRASH_BEFORE, -1}); kinds.push_back({F_CRASH_TORN, T_WRITE}); kinds.push_back({F_CRASH_AFTER, T_WRITE}); }
   FaultPlan p;
   // only kinds that have somewhere to happen
   std::vector<std::pair<int, std::vector<long> > > cand;
   for (auto &k : kinds)
   {
      std::vector<long> at;
      if (k.second == -2) { if (reh.nalloc) at.push_back(0); }
      else for (size_t q = 0; q < reh.ops.size(); q++)
      {
         int t = reh.ops[q].type;
         bool ok = k.second >= 0 ? t == k.second : (t == T_WRITE || t == T_OPEN || t == T_TRUNC || t == T_CLOSE || t == T_RENAME || t == T_UNLINK);
         if (ok && filter && reh.ops[q].path < reh.paths.size() && reh.paths[reh.ops[q].path].find(filter) == std::string::npos) ok = false;
         if (ok) at.push_back(q);
      }
      if (at.size()) cand.push_back({k.first, at});
   }
   if (cand.empty()) return p;
   auto &k = cand[c.choose(cand.size())];
   p.kind = k.first;
   if (p.kind == F_ALLOC) p.at = c.choose(reh.nalloc);
   else p.at = k.second[c.choose(k.second.size())];
   if (p.kind == F_CRASH_TORN) p.arg = c.choose(1 << 20);
   return p;
}

// ---- registry, main loop, minimiser, replay -------------------------------------
std::map<std::string, std::pair<Scenario, std::string> > &registry()
{ static std::map<std::string, std::pair<Scenario, std::string> > r; return r; }
Reg::Reg(const char *prop, Scenario s, const char *rule) { registry()[prop] = {s, rule}; }

static std::string scratch_root;

struct RunResult { bool violated = false; std::string sig, detail; Ctx c; u64 sim_ns = 0; };

static std::string g_base;
static void run_once(RunResult &R, const std::string &prop, const std::vector<u64> *tape, u64 seed, bool thorough)
{
   R.c = Ctx();
   Ctx &c = R.c;
   c.prop = prop; c.thorough = thorough; c.base = g_base;
   if (tape) { c.gen = false; c.tape = *tape; }
   else { c.gen = true; c.trng = Rng(seed); }
   syscall(SYS_mkdir, c.base.c_str(), 0755);
   const u64 t0 = 1600000000000000000ull;
   shm->now = t0; shm->rtoff = 0;
   try { registry()[prop].first(c); }
   catch (Violation &v) { R.violated = true; R.sig = v.sig; R.detail = v.detail; }
   R.sim_ns = shm->now - t0;
   if (chdir("/")) {}
   rm_rf(c.base);
   if (!c.gen && c.pos < c.tape.size()) c.tape.resize(c.pos);
   if (!c.gen) for (auto &x : c.tape) (void)x;
   while (!c.tape.empty() && c.tape.back() == 0) c.tape.pop_back();
}

static std::string jstr(const std::string &s)
{
   std::string r = "\"";
   for (char ch : s)
   {
      if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
      else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) r += fmt("\\u%04x", (unsigned char)ch);
      else r += ch;
   }
   return r + "\"";
}
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// findings listed as known: reported, but they do not end the search
static std::vector<std::array<std::string, 3> > g_known;
static void load_known(const std::string &file)
{
   std::ifstream f(file); std::string l; std::smatch m;
   static const std::regex re("known: property=(\\S+) sig=(\\S+) detail=/(.*)/ .*");
   while (std::getline(f, l)) if (std::regex_match(l, m, re)) g_known.push_back({m[1], m[2], m[3]});
}
static bool is_known(const std::string &prop, const std::string &sig, const std::string &detail)
{
   for (auto &k : g_known) if (k[0] == prop && k[1] == sig && std::regex_search(detail, std::regex(k[2]))) return true;
   return false;
}

static void minimise(const std::string &prop, bool thorough, std::vector<u64> &tape, const std::string &sig, int budget, double tmax, int &used)
{
   double t0 = wall();
   used = 0;
   auto bad = [&](const std::vector<u64> &t) -> bool
   {
      if (used >= budget || wall() - t0 > tmax) return false;
      used++;
      RunResult R; run_once(R, prop, &t, 0, thorough);
      return R.violated && R.sig == sig && !is_known(prop, R.sig, R.detail);
   };
   bool progress = true;
   while (progress && used < budget && wall() - t0 < tmax)
   {
      progress = false;
      for (size_t w = std::max<size_t>(1, tape.size() / 2); w >= 1; w /= 2)
      {
         for (size_t k = 0; k + w <= tape.size();)
         {
            std::vector<u64> t = tape; t.erase(t.begin() + k, t.begin() + k + w);
            if (bad(t)) { tape = t; progress = true; continue; }
            bool nz = false; t = tape;
            for (size_t q = k; q < k + w; q++) { nz |= t[q] != 0; t[q] = 0; }
            if (nz && bad(t)) { tape = t; progress = true; }
            k += w;
         }
         if (w == 1) break;
      }
      for (size_t k = 0; k < tape.size(); k++)
         while (tape[k] > 0)
         {
            std::vector<u64> t = tape;
            t[k] = tape[k] / 2;
            if (bad(t)) { tape = t; progress = true; continue; }
            t[k] = tape[k] - 1;
            if (tape[k] <= 64 && bad(t)) { tape = t; progress = true; continue; }
            break;
         }
      while (!tape.empty() && tape.back() == 0) tape.pop_back();
   }
}

static void write_replay(const std::string &path, const std::string &prop, bool thorough, u64 seed, u64 run, const RunResult &R)
{
   std::string s = "prop " + prop + "\n" + fmt("thorough %d\nseed %llu\nrun %llu\n", (int)thorough, (unsigned long long)seed, (unsigned long long)run);
   s += "sig " + R.sig + "\n" + fmt("hash %016llx\n", (unsigned long long)R.c.hash) + "tape";
   for (u64 v : R.c.tape) s += fmt(" %llu", (unsigned long long)v);
   s += "\ndetail " + R.detail + "\ntrace\n";
   for (auto &l : R.c.trace) s += "  " + l + "\n";
   write_file(path, s);
}

int sim_main(int argc, char **argv)
{
   std::map<std::string, std::string> a;
   std::string cmd = argc > 1 ? argv[1] : "";
   for (int k = 2; k + 1 < argc; k += 2) a[argv[k]] = argv[k + 1];
   setenv("HDF5_USE_FILE_LOCKING", "TRUE", 1);
   unsetenv("HDF5_DRIVER");
   setenv("OPENBLAS_NUM_THREADS", "1", 1);
   setenv("OMP_NUM_THREADS", "1", 1);
   shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   std::string root = a.count("--scratch") ? a["--scratch"] : "/dev/shm";
   std::string tmpl = root + "/vsimXXXXXX";
   std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
   if (!mkdtemp(tb.data()))
   {
      tmpl = "/tmp/vsimXXXXXX"; tb.assign(tmpl.begin(), tmpl.end()); tb.push_back(0);
      if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
   }
   scratch_root = tb.data();
   g_base = scratch_root + "/r";
   int rc = 0;
   bool thorough = a["--tier"] == "thorough";
   std::string prop = a["--prop"];
   if (a.count("--known")) load_known(a["--known"]);
   if (cmd == "run" || cmd == "one")
   {
      if (!registry().count(prop)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); rm_rf(scratch_root); return 3; }
      u64 seed = strtoull(a["--seed"].c_str(), 0, 10), start = strtoull(a["--start"].c_str(), 0, 10), stride = std::max(1, atoi(a["--stride"].c_str())),
          count = strtoull(a["--count"].c_str(), 0, 10);
      if (cmd == "one") { stride = 1; count = 1; }
      double limit = a.count("--limit") ? atof(a["--limit"].c_str()) : 1e9, t0 = wall();
      int maxv = a.count("--maxviol") ? atoi(a["--maxviol"].c_str()) : 1;
      int nv = 0;
      std::set<std::string> seen;
      FILE *out = a.count("--out") ? fopen(a["--out"].c_str(), "w") : stdout;
      u64 ph = hbytes(0, prop.data(), prop.size());
      for (u64 k = 0; k < count && wall() - t0 < limit; k++)
      {
         u64 run = start + k * stride;
         u64 rs = hcomb(hcomb(mix64(seed), ph), run);
         RunResult R;
         run_once(R, prop, nullptr, rs, thorough);
         std::string line = fmt("{\"run\":%llu,\"hash\":\"%016llx\",\"cover\":\"%016llx\",\"nt\":%d,\"sched\":\"%016llx\",\"nodes\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"tape\":%zu",
            (unsigned long long)run, (unsigned long long)R.c.hash, (unsigned long long)R.c.cover, (int)R.c.nontrivial, (unsigned long long)R.c.sched_hash,
            (unsigned long long)R.c.nodes, (unsigned long long)R.c.steps, (unsigned long long)R.sim_ns, R.c.tape.size());
         line += ",\"faults\":{"; bool f = true;
         for (auto &x : R.c.faults) { line += (f ? "" : ",") + jstr(x.first) + fmt(":%llu", (unsigned long long)x.second); f = false; }
         line += "},\"counters\":{"; f = true;
         for (auto &x : R.c.counters) { line += (f ? "" : ",") + jstr(x.first) + fmt(":%llu", (unsigned long long)x.second); f = false; }
         line += "}";
         // sampled self-test: the same choices must give the same execution
         if (!R.violated && (run % 25) == 0)
         {
            RunResult S; run_once(S, prop, &R.c.tape, 0, thorough);
            line += fmt(",\"selftest\":%d", (int)(S.c.hash == R.c.hash && S.violated == R.violated));
            if (S.c.hash != R.c.hash && a.count("--verbose"))
               for (size_t q = 0; q < std::max(R.c.trace.size(), S.c.trace.size()); q++)
               { std::string x = q < R.c.trace.size() ? R.c.trace[q] : "-", y = q < S.c.trace.size() ? S.c.trace[q] : "-"; if (x != y) fprintf(stderr, "DIFF run %llu\n  %s\n  %s\n", (unsigned long long)run, x.c_str(), y.c_str()); }
         }
         if (cmd == "one" || (k < 1 && start < 2))
         { line += ",\"trace\":["; for (size_t q = 0; q < R.c.trace.size(); q++) line += (q ? "," : "") + jstr(R.c.trace[q]); line += "]"; }
         if (R.violated && is_known(prop, R.sig, R.detail))
            line += ",\"sig\":" + jstr(R.sig) + ",\"detail\":" + jstr(R.detail) + ",\"known\":1";
         else if (R.violated)
         {
            // gate: it must happen again with the same choices
            int again = 0; bool same = false;
            for (int q = 0; q < 3; q++) { RunResult S; run_once(S, prop, &R.c.tape, 0, thorough); if (S.violated && S.sig == R.sig) { again++; same |= S.c.hash == R.c.hash; } }
            line += ",\"sig\":" + jstr(R.sig) + ",\"detail\":" + jstr(R.detail) + fmt(",\"again\":%d,\"exact\":%d", again, (int)same);
            if (again && !seen.count(R.sig))
            {
               seen.insert(R.sig);
               std::vector<u64> t = R.c.tape; int used = 0;
               if (!a.count("--nomin")) minimise(prop, thorough, t, R.sig, 300, 90, used);
               RunResult S; run_once(S, prop, &t, 0, thorough);
               if (!(S.violated && S.sig == R.sig)) S = R;
               std::string sane = R.sig; for (auto &ch : sane) if (!isalnum((unsigned char)ch) && ch != '-') ch = '_';
               std::string rp = a["--replays"] + "/" + prop + "-" + sane.substr(0, 60) + fmt("-s%llu-r%llu.replay", (unsigned long long)seed, (unsigned long long)run);
               write_replay(rp, prop, thorough, seed, run, S);
               line += ",\"replay\":" + jstr(rp) + fmt(",\"tape_before\":%zu,\"tape_after\":%zu,\"min_runs\":%d", R.c.tape.size(), S.c.tape.size(), used);
               nv++;
            }
            else if (!again) line += ",\"irreproducible\":1";
         }
         line += "}\n";
         fputs(line.c_str(), out); fflush(out);
         if (nv >= maxv) break;
      }
      if (out != stdout) fclose(out);
   }
   else if (cmd == "rule")
   { if (registry().count(prop)) printf("%s\n", registry()[prop].second.c_str()); }
   else if (cmd == "replay")
   {
      std::ifstream in(a["--file"]);
      std::string l, sig; std::vector<u64> tape; std::string hash;
      while (std::getline(in, l))
      {
         std::istringstream is(l); std::string k; is >> k;
         if (k == "prop") is >> prop;
         else if (k == "thorough") { int v; is >> v; thorough = v; }
         else if (k == "sig") { sig = l.substr(4); }
         else if (k == "hash") is >> hash;
         else if (k == "tape") { u64 v; while (is >> v) tape.push_back(v); }
         else if (k == "trace") break;
      }
      RunResult R; run_once(R, prop, &tape, 0, thorough);
      for (auto &t : R.c.trace) printf("%s\n", t.c_str());
      std::string h = fmt("%016llx", (unsigned long long)R.c.hash);
      printf("%s signature=%s hash=%s recorded=%s%s\n", R.violated ? "REPRODUCED" : "NOT-REPRODUCED", R.sig.c_str(), h.c_str(), hash.c_str(), h == hash ? " (identical execution)" : "");
      rc = R.violated ? 1 : 0;
   }
   else { fprintf(stderr, "usage: run|one|replay ...\n"); rc = 3; }
   rm_rf(scratch_root);
   return rc;
}

} // namespace sim

int main(int argc, char **argv)
{
   int r = sim::sim_main(argc, argv);
   fflush(stdout); fflush(stderr);
   syscall(SYS_exit_group, r);
}
