// Interposed system-call wrappers. Symbols defined in the executable take precedence
// over libc's for every shared library (HDF5, libstdc++, MFEM) and for the code under test.
#undef _FORTIFY_SOURCE
#include "shim.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <climits>
#include <fcntl.h>
#include <malloc.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {

Shm *shm = nullptr;
NodeState NS;

const char *op_name[] = {"open", "close", "read", "write", "lseek", "ftruncate", "fstat", "stat",
                         "flock", "rename", "unlink", "mkdir", "fsync"};
const char *fault_name[] = {"none", "write-EIO", "write-EIO-persistent", "disk-full", "short-write-then-disk-full",
                            "ftruncate-EIO", "open-EACCES", "open-EMFILE", "read-EIO", "read-EIO-persistent",
                            "close-EIO", "fstat-EIO", "lseek-EIO", "lock-refused", "rename-EIO", "allocation-failure",
                            "crash-before-op", "crash-torn-write", "crash-after-op", "EINTR", "short-io", "slow-io",
                            "job-killed", "file-damaged", "preemption", "clock-jump", "adversarial-random", "dirty-memory"};

struct FdInfo { bool tracked; bool nofault; uint16_t path; bool locked; };
static FdInfo fdt[1024];
static const int NFD = 1024;

// Absolute names of the simulated disk start with /simdisk, wherever the disk really is, so that a name
// stored in a file stays valid when the disk is copied.
static const char VROOT[] = "/simdisk";
struct VPath
{
   char b[PATH_MAX]; const char *p;
   explicit VPath(const char *q) : p(q)
   {
      size_t n = sizeof VROOT - 1;
      if (NS.active && q && !strncmp(q, VROOT, n) && (q[n] == '/' || !q[n])) { snprintf(b, sizeof b, "%s%s", NS.scratch.c_str(), q + n); p = b; }
   }
   operator const char *() const { return p; }
};

static bool relevant(const char *p)
{
   if (!NS.active || !p || !*p) return false;
   if (p[0] != '/') return true;
   return NS.scratch.size() && strncmp(p, NS.scratch.c_str(), NS.scratch.size()) == 0;
}
static uint16_t path_id(const char *p)
{
   if (p[0] == '/' && NS.scratch.size() && strncmp(p, NS.scratch.c_str(), NS.scratch.size()) == 0)
   { p += NS.scratch.size(); while (*p == '/') p++; }
   while (p[0] == '.' && p[1] == '/') p += 2;
   NodeShm *n = NS.ns;
   for (int k = 0; k < n->npaths; k++) if (!strncmp(n->paths[k], p, 95)) return k;
   if (n->npaths >= MAXPATH_) return MAXPATH_ - 1;
   strncpy(n->paths[n->npaths], p, 95);
   return n->npaths++;
}
static bool nofault_path(const char *p)
{
   // mesh files are parsed by MFEM; faults there would test MFEM, not this code
   size_t n = strlen(p);
   return (n > 5 && !strcmp(p + n - 5, ".mesh"));
}

void node_crash()
{
   NS.ns->crashed = 1;
   syscall(SYS_exit_group, 77);
   __builtin_unreachable();
}

static void count_fault(int k) { NS.ns->faults[k] = NS.ns->faults[k] + 1; }

// Called once per tracked operation; returns its index.
static long begin_op(int type, uint16_t path, size_t len)
{
   if (NS.paused) return -2;   // harness code inside a node: neither a fault point nor a scheduling point
   shim_yield();
   NodeShm *n = NS.ns;
   long k = n->nops;
   if ((u64)k < MAXOPS) n->ops[k] = OpRec{(uint8_t)type, 0, path, (uint32_t)len};
   else n->overflow = 1;
   n->nops = k + 1;
   n->hash = hcomb(hcomb(n->hash, type * 256 + path), len);
   shm->now = shm->now + 1000;
   return k;
}
static bool due(long k, int kind) { return !NS.paused && NS.plan.kind == kind && NS.plan.at == k; }
static bool fire(long k, int kind)
{
   if (!due(k, kind)) return false;
   NS.ns->fired = 1;
   count_fault(kind);
   return true;
}
static void crash_before(long k) { if (fire(k, F_CRASH_BEFORE)) node_crash(); }
static void crash_after(long k) { if (fire(k, F_CRASH_AFTER)) node_crash(); }
static u64 benign(long k) // 0 or a random word
{
   if (NS.paused || !NS.plan.benign) return 0;
   u64 r = hcomb(NS.plan.bseed, (u64)k);
   if ((int)(r & 255) >= NS.plan.benign) return 0;
   return (r >> 8) | 1;
}
static void res(long r) { NS.ns->hash = hcomb(NS.ns->hash, (u64)r); }

static bool tracked(int fd) { return NS.active && fd >= 0 && fd < NFD && fdt[fd].tracked; }

int open_fds() { int n = 0; for (int k = 0; k < NFD; k++) n += fdt[k].tracked; return n; }
std::string list_fds()
{
   std::string s;
   for (int k = 0; k < NFD; k++) if (fdt[k].tracked) s += std::string(s.empty() ? "" : " ") + NS.ns->paths[fdt[k].path];
   return s;
}
bool fd_flocked() { for (int k = 0; k < NFD; k++) if (fdt[k].tracked && fdt[k].locked) return true; return false; }
void pause_faults(bool p) { NS.paused = p; }

static void track(int fd, const char *p)
{ if (fd >= 0 && fd < NFD) fdt[fd] = FdInfo{true, nofault_path(p), path_id(p), false}; }

static int do_open(int dirfd, const char *p0, int flags, mode_t mode)
{
   VPath p(p0);
   if (!relevant(p)) return syscall(SYS_openat, dirfd, p.p, flags, mode);
   bool nf = nofault_path(p);
   long k = begin_op(T_OPEN, path_id(p), flags & O_ACCMODE);
   if (!nf)
   {
      crash_before(k);
      if (fire(k, F_OPEN_EACCES)) { errno = EACCES; return -1; }
      if (fire(k, F_OPEN_EMFILE)) { errno = EMFILE; return -1; }
   }
   int fd = syscall(SYS_openat, dirfd, p.p, flags, mode);
   res(fd >= 0 ? 1 : -errno);
   int e = errno;
   track(fd, p);
   if (!nf) crash_after(k);
   errno = e;
   return fd;
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, bool pos)
{
   auto real = [&](const void *b, size_t m, off_t o) -> ssize_t
   { return pos ? syscall(SYS_pwrite64, fd, b, m, o) : syscall(SYS_write, fd, b, m); };
   if (!tracked(fd)) return real(buf, n, off);
   long k = begin_op(T_WRITE, fdt[fd].path, n);
   crash_before(k);
   if (fire(k, F_CRASH_TORN))
   {
      size_t m = n ? (NS.plan.arg % n) : 0;
      if (m) real(buf, m, off);
      node_crash();
   }
   if (!NS.paused && NS.wfail) { errno = NS.werr; res(-NS.werr); return -1; }
   if (fire(k, F_W_EIO)) { errno = EIO; res(-EIO); return -1; }
   if (fire(k, F_W_EIO_P)) { NS.wfail = true; NS.werr = EIO; errno = EIO; res(-EIO); return -1; }
   if (fire(k, F_ENOSPC)) { NS.wfail = true; NS.werr = ENOSPC; errno = ENOSPC; res(-ENOSPC); return -1; }
   if (fire(k, F_SHORT_ENOSPC))
   {
      NS.wfail = true; NS.werr = ENOSPC;
      size_t m = n / 2;
      if (!m) { errno = ENOSPC; return -1; }
      ssize_t r = real(buf, m, off); res(r); return r;
   }
   if (u64 b = benign(k))
   {
      if (b & 2) { count_fault(F_EINTR); errno = EINTR; res(-EINTR); return -1; }
      if ((b & 4) && n > 1) { count_fault(F_SHORT); n = 1 + (b >> 8) % (n - 1); }
      else { count_fault(F_DELAY); shm->now = shm->now + 1000000000ull; }
   }
   ssize_t r = real(buf, n, off);
   res(r);
   int e = errno;
   crash_after(k);
   errno = e;
   return r;
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, bool pos)
{
   auto real = [&](void *b, size_t m) -> ssize_t
   { return pos ? syscall(SYS_pread64, fd, b, m, off) : syscall(SYS_read, fd, b, m); };
   if (!tracked(fd)) return real(buf, n);
   long k = begin_op(T_READ, fdt[fd].path, n);
   if (!fdt[fd].nofault)
   {
      crash_before(k);
      if (!NS.paused && NS.rfail) { errno = EIO; res(-EIO); return -1; }
      if (fire(k, F_R_EIO)) { errno = EIO; res(-EIO); return -1; }
      if (fire(k, F_R_EIO_P)) { NS.rfail = true; errno = EIO; res(-EIO); return -1; }
   }
   if (u64 b = benign(k))
   {
      if (b & 2) { count_fault(F_EINTR); errno = EINTR; res(-EINTR); return -1; }
      if ((b & 4) && n > 1) { count_fault(F_SHORT); n = 1 + (b >> 8) % (n - 1); }
      else { count_fault(F_DELAY); shm->now = shm->now + 1000000000ull; }
   }
   ssize_t r = real(buf, n);
   res(r);
   int e = errno;
   if (!fdt[fd].nofault) crash_after(k);
   errno = e;
   return r;
}

static int do_close(int fd)
{
   if (!tracked(fd)) return syscall(SYS_close, fd);
   bool nf = fdt[fd].nofault;
   long k = begin_op(T_CLOSE, fdt[fd].path, 0);
   if (!nf) crash_before(k);
   fdt[fd].tracked = false;
   int r = syscall(SYS_close, fd);
   int e = errno;
   if (!nf)
   {
      if (fire(k, F_CLOSE_EIO)) { res(-EIO); errno = EIO; return -1; }
      crash_after(k);
   }
   errno = e;
   return r;
}

static off_t do_lseek(int fd, off_t o, int wh)
{
   if (!tracked(fd)) return syscall(SYS_lseek, fd, o, wh);
   long k = begin_op(T_LSEEK, fdt[fd].path, (size_t)o);
   if (!fdt[fd].nofault && fire(k, F_LSEEK_EIO)) { errno = EIO; res(-EIO); return -1; }
   return syscall(SYS_lseek, fd, o, wh);
}

static int do_ftruncate(int fd, off_t len)
{
   if (!tracked(fd)) return syscall(SYS_ftruncate, fd, len);
   long k = begin_op(T_TRUNC, fdt[fd].path, (size_t)len);
   crash_before(k);
   if (fire(k, F_TRUNC_EIO)) { errno = EIO; res(-EIO); return -1; }
   if (!NS.paused && NS.wfail && NS.werr == EIO) { errno = EIO; return -1; }
   int r = syscall(SYS_ftruncate, fd, len);
   int e = errno; res(r); crash_after(k); errno = e;
   return r;
}

static int do_fstat(int fd, struct stat *st)
{
   if (!tracked(fd)) return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
   long k = begin_op(T_FSTAT, fdt[fd].path, 0);
   if (!fdt[fd].nofault && fire(k, F_FSTAT_EIO)) { errno = EIO; res(-EIO); return -1; }
   return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}

static int do_flock(int fd, int op)
{
   if (!tracked(fd)) return syscall(SYS_flock, fd, op);
   long k = begin_op(T_FLOCK, fdt[fd].path, op);
   if (fire(k, F_FLOCK_FAIL)) { errno = EAGAIN; res(-EAGAIN); return -1; }
   int r = syscall(SYS_flock, fd, op);
   if (r == 0) fdt[fd].locked = !(op & LOCK_UN);
   res(r < 0 ? -errno : r);
   return r;
}

static int do_rename(const char *a0, const char *b0)
{
   VPath a(a0), b(b0);
   if (!relevant(a) && !relevant(b)) return syscall(SYS_rename, a.p, b.p);
   long k = begin_op(T_RENAME, path_id(b), 0);
   crash_before(k);
   if (fire(k, F_RENAME_EIO)) { errno = EIO; res(-EIO); return -1; }
   int r = syscall(SYS_rename, a.p, b.p);
   int e = errno; res(r); crash_after(k); errno = e;
   return r;
}
static int do_unlink(const char *a0)
{
   VPath a(a0);
   if (!relevant(a)) return syscall(SYS_unlink, a.p);
   long k = begin_op(T_UNLINK, path_id(a), 0);
   crash_before(k);
   int r = syscall(SYS_unlink, a.p);
   int e = errno; res(r); crash_after(k); errno = e;
   return r;
}
static int do_mkdir(const char *a0, mode_t m)
{
   VPath a(a0);
   if (!relevant(a)) return syscall(SYS_mkdir, a.p, m);
   long k = begin_op(T_MKDIR, path_id(a), 0);
   crash_before(k);
   int r = syscall(SYS_mkdir, a.p, m);
   int e = errno; res(r); crash_after(k); errno = e;
   return r;
}

u64 sim_now() { return shm->now; }
void sim_advance(u64 ns) { shm->now = shm->now + ns; NS.cpu += ns; }
void sim_wait(u64 ns) { shm->now = shm->now + ns; }
void sim_clock_jump(long long ns) { shm->rtoff = shm->rtoff + ns; count_fault(F_CLOCKJUMP); }
void sim_yield() { shim_yield(); }

static void alloc_hook(size_t n, bool &fail)
{
   if (!NS.active || NS.paused || !NS.ns) return;
   long k = NS.ns->nalloc;
   NS.ns->nalloc = k + 1;
   if (NS.plan.kind == F_ALLOC && NS.plan.at == k) { NS.ns->fired = 1; count_fault(F_ALLOC); fail = true; }
}

// memory handed out by the allocator contains what the plan says instead of what happens to be there
static void dirty(void *p, size_t n)
{
   if (!p || !n || !NS.active || NS.paused || !NS.ns || !NS.plan.dirty) return;
   static const unsigned char pat[] = {0, 0x00, 0xff, 0x5a, 0x01};
   if (NS.plan.dirty < 5) memset(p, pat[NS.plan.dirty], n);
   else { u64 h = NS.plan.bseed + NS.ns->nalloc; unsigned char *c = (unsigned char *)p; for (size_t k = 0; k < n; k++) { if (k % 8 == 0) h = mix64(h); c[k] = h >> (8 * (k % 8)); } }
   count_fault(F_DIRTY);
}

uint32_t rand32()
{
   if (!NS.active) { static u64 s = 12345; s = mix64(s); return (uint32_t)s; }
   NS.rand_state += 0x9e3779b97f4a7c15ull;
   u64 r = mix64(NS.rand_state);
   switch (NS.rand_mode)
   {
      case 1: return ((r >> 40) & 15) ? 0 : (uint32_t)r;   // a constant 0 would make rejection sampling loop for ever
      case 2: return 0xffffffffu;
      case 3: return (r & 1) ? 0xffffffffu : 0;
      case 4: return ((r >> 40) & 3) ? (uint32_t)r : ((r & 1) ? 0xffffffffu : 0);
      case 5: return ((r >> 40) & 1) ? (uint32_t)(0xffffffffu - (r & 7)) : (uint32_t)(r & 7);
      default: return (uint32_t)r;
   }
}

} // namespace sim

using namespace sim;

extern "C" {

int open(const char *p, int flags, ...)
{
   mode_t m = 0;
   if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
   return do_open(AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...)
{
   mode_t m = 0;
   if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
   return do_open(AT_FDCWD, p, flags, m);
}
int openat(int d, const char *p, int flags, ...)
{
   mode_t m = 0;
   if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
   return do_open(d, p, flags, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { return do_close(fd); }
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
   if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
   // performed as one logical write
   std::string all;
   for (int k = 0; k < c; k++) all.append((const char *)v[k].iov_base, v[k].iov_len);
   return do_write(fd, all.data(), all.size(), 0, false);
}
off_t lseek(int fd, off_t o, int w) __attribute__((nothrow)); 
off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) __attribute__((nothrow)); 
off_t lseek64(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off_t l) { return do_ftruncate(fd, l); }
int fstat(int fd, struct stat *s) { return do_fstat(fd, s); }
int fstat64(int fd, struct stat64 *s) { return do_fstat(fd, (struct stat *)s); }
int flock(int fd, int op) { return do_flock(fd, op); }
int rename(const char *a, const char *b) { return do_rename(a, b); }
// a name that holds the process number must not differ between two executions of one seed
pid_t getpid(void) { return NS.active ? 20000 + (int)(NS.ns - shm->node) : (pid_t)syscall(SYS_getpid); }
int unlink(const char *a) { return do_unlink(a); }
int remove(const char *a)
{
   int r = do_unlink(a);
   if (r < 0 && errno == EISDIR) r = syscall(SYS_rmdir, a);
   return r;
}
int mkdir(const char *a, mode_t m) { return do_mkdir(a, m); }
static int do_stat(const char *p0, struct stat *s, int fl)
{
   VPath p(p0);
   if (relevant(p)) begin_op(T_STAT, path_id(p), 0);
   return syscall(SYS_newfstatat, AT_FDCWD, p.p, s, fl);
}
int stat(const char *p, struct stat *s) { return do_stat(p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return do_stat(p, (struct stat *)s, 0); }
int lstat(const char *p, struct stat *s) { return do_stat(p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
int access(const char *p0, int m)
{
   VPath p(p0);
   if (relevant(p)) begin_op(T_STAT, path_id(p), 1);
   return syscall(SYS_faccessat, AT_FDCWD, p.p, m);
}

// names of the simulated disk, symbolic links do not exist there
char *realpath(const char *p, char *out)
{
   typedef char *(*fn)(const char *, char *);
   static fn real = (fn)dlsym(RTLD_NEXT, "realpath");
   if (!NS.active || !p || !*p || (p[0] == '/' && strncmp(p, VROOT, sizeof VROOT - 1) && !relevant(p))) return real(p, out);
   std::string q = VPath(p).p;
   if (q[0] != '/') { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return nullptr; q = std::string(cwd) + "/" + q; }
   // like glibc: components one by one; the name of the first one that does not exist is left in out
   std::vector<std::string> done;
   bool missing = false;
   for (size_t k = 0; k < q.size() && !missing;)
   {
      size_t e = q.find('/', k); if (e == std::string::npos) e = q.size();
      std::string x = q.substr(k, e - k); k = e + 1;
      if (x.empty() || x == ".") continue;
      if (x == "..") { if (done.size()) done.pop_back(); continue; }
      done.push_back(x);
      std::string f; for (auto &y : done) f += "/" + y;
      struct stat st; missing = syscall(SYS_newfstatat, AT_FDCWD, f.c_str(), &st, 0) < 0;
   }
   std::string f; for (auto &y : done) f += "/" + y;
   if (!strncmp(f.c_str(), NS.scratch.c_str(), NS.scratch.size())) f = VROOT + f.substr(NS.scratch.size());
   if (!out) { if (missing) { errno = ENOENT; return nullptr; } return strdup(f.c_str()); }
   strcpy(out, f.c_str());
   if (missing) { errno = ENOENT; return nullptr; }
   return out;
}
char *__realpath_chk(const char *p, char *out, size_t) { return realpath(p, out); }

static FILE *fopen_impl(const char *p0, const char *mode, const char *real_name)
{
   VPath p(p0);
   typedef FILE *(*fn)(const char *, const char *);
   fn real = (fn)dlsym(RTLD_NEXT, real_name);
   if (!relevant(p)) return real(p, mode);
   bool nf = nofault_path(p);
   long k = begin_op(T_OPEN, path_id(p), (size_t)mode[0]);
   if (!nf)
   {
      crash_before(k);
      if (fire(k, F_OPEN_EACCES)) { errno = EACCES; return NULL; }
      if (fire(k, F_OPEN_EMFILE)) { errno = EMFILE; return NULL; }
   }
   FILE *f = real(p, mode);
   res(f ? 1 : -errno);
   int e = errno;
   if (f) track(fileno(f), p);
   if (!nf) crash_after(k);
   errno = e;
   return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_impl(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return fopen_impl(p, m, "fopen64"); }
int fclose(FILE *f)
{
   typedef int (*fn)(FILE *);
   static fn real = (fn)dlsym(RTLD_NEXT, "fclose");
   int fd = f ? fileno(f) : -1;
   if (!tracked(fd)) return real(f);
   bool nf = fdt[fd].nofault;
   long k = begin_op(T_CLOSE, fdt[fd].path, 0);
   if (!nf) crash_before(k);
   fdt[fd].tracked = false;
   int r = real(f);
   int e = errno;
   if (!nf)
   {
      if (fire(k, F_CLOSE_EIO)) { errno = EIO; return EOF; }
      crash_after(k);
   }
   errno = e;
   return r;
}

// ---- clocks ----
int clock_gettime(clockid_t c, struct timespec *t)
{
   if (!NS.active) return syscall(SYS_clock_gettime, c, t);
   shm->now = shm->now + 100; NS.cpu += 100;
   u64 n = shm->now;
   if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += shm->rtoff;       // may jump
   else if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) n = NS.cpu; // stands still while waiting
   t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull;
   return 0;
}
int gettimeofday(struct timeval *t, void *tz)
{
   struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
   t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
   return 0;
}
time_t time(time_t *o)
{
   struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
   if (o) *o = s.tv_sec;
   return s.tv_sec;
}
clock_t times(struct tms *b)
{
   struct timespec s; clock_gettime(CLOCK_MONOTONIC, &s);
   clock_t r = s.tv_sec * 100 + s.tv_nsec / 10000000;
   if (b) { b->tms_utime = NS.cpu / 10000000; b->tms_stime = b->tms_cutime = b->tms_cstime = 0; }
   return r;
}
clock_t clock(void)
{
   struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s);
   return s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / (1000000000 / CLOCKS_PER_SEC);
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
   if (!NS.active) return syscall(SYS_nanosleep, a, b);
   shm->now = shm->now + (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
   shim_yield();
   return 0;
}
unsigned sleep(unsigned s) { struct timespec a = {(time_t)s, 0}; nanosleep(&a, 0); return 0; }
int usleep(useconds_t u) { struct timespec a = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&a, 0); }

// ---- randomness ----
int rand(void) { return rand32() & 0x7fffffff; }
int rand_r(unsigned *) { return rand32() & 0x7fffffff; }
long random(void) { return rand32() & 0x7fffffff; }
void srand(unsigned) {}
void srandom(unsigned) {}
double drand48(void) { return rand32() / 4294967296.0; }
uint32_t sim_random32(void) { return rand32(); }

// ---- memory ----
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *malloc(size_t n)
{
   bool f = false; alloc_hook(n, f);
   if (f) { errno = ENOMEM; return nullptr; }
   void *p = __libc_malloc(n); dirty(p, n);
   return p;
}
void *calloc(size_t a, size_t b)
{
   bool f = false; alloc_hook(a * b, f);
   if (f) { errno = ENOMEM; return nullptr; }
   return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n)
{
   bool f = false; alloc_hook(n, f);
   if (f) { errno = ENOMEM; return nullptr; }
   return __libc_realloc(p, n);
}

} // extern "C"

#include <random>
std::random_device::result_type std::random_device::_M_getval() { return rand32(); }
