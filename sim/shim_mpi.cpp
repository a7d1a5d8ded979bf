// Simulated MPI: every rank is a simulated process, collectives are matched and scheduled by
// the controller (simrt.cpp). Errors are fatal, as with MPI_ERRORS_ARE_FATAL.
#include "shim.hpp"
#include <cstdarg>
#include <cstdlib>
#include <mpi.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {

struct CommRec { int id, rank, size; };
static std::map<MPI_Comm, CommRec> comms;

static void xwrite(int fd, const void *p, size_t n)
{
   const char *c = (const char *)p;
   while (n)
   {
      long r = syscall(SYS_write, fd, c, n);
      if (r <= 0) { if (r < 0 && errno == EINTR) continue; syscall(SYS_exit_group, 98); }
      c += r; n -= r;
   }
}
static void xread(int fd, void *p, size_t n)
{
   char *c = (char *)p;
   while (n)
   {
      long r = syscall(SYS_read, fd, c, n);
      if (r <= 0) { if (r < 0 && errno == EINTR) continue; syscall(SYS_exit_group, 98); }
      c += r; n -= r;
   }
}

static std::string rpc(Msg m, const std::string &payload)
{
   m.len = payload.size();
   xwrite(NS.sock, &m, sizeof m);
   if (m.len) xwrite(NS.sock, payload.data(), payload.size());
   long long n = 0;
   xread(NS.sock, &n, 8);
   std::string r(n, '\0');
   if (n) xread(NS.sock, &r[0], n);
   return r;
}

void shim_yield()
{
   if (NS.sock < 0 || NS.paused) return;
   Msg m = {}; m.type = M_YIELD;
   rpc(m, "");
}

static void mpi_fatal(const char *f, ...)
{
   char b[512];
   va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
   if (NS.sock >= 0)
   {
      Msg m = {}; m.type = M_ERR; m.len = strlen(b);
      xwrite(NS.sock, &m, sizeof m); xwrite(NS.sock, b, m.len);
   }
   fprintf(stderr, "MPI error (fatal): %s\n", b); fflush(stderr);
   syscall(SYS_exit_group, 97);
}

static CommRec lookup(MPI_Comm c)
{
   if (!NS.mpi_init) mpi_fatal("MPI called before MPI_Init");
   if (c == MPI_COMM_WORLD) return CommRec{0, NS.rank, NS.size};
   if (c == MPI_COMM_SELF) return CommRec{1, 0, 1};
   auto it = comms.find(c);
   if (it == comms.end()) mpi_fatal("invalid communicator");
   return it->second;
}

enum { D_CHAR, D_BYTE, D_SCHAR, D_UCHAR, D_SHORT, D_USHORT, D_INT, D_UINT, D_LONG, D_ULONG, D_LL, D_ULL, D_FLOAT, D_DOUBLE, D_BOOL, D_2INT, D_DOUBLEINT, D_N };
static const int dsize[D_N] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 1, 8, 16};
static int dt(MPI_Datatype t)
{
   if (t == MPI_CHAR) return D_CHAR;
   if (t == MPI_BYTE) return D_BYTE;
   if (t == MPI_SIGNED_CHAR || t == MPI_INT8_T) return D_SCHAR;
   if (t == MPI_UNSIGNED_CHAR || t == MPI_UINT8_T) return D_UCHAR;
   if (t == MPI_SHORT) return D_SHORT;
   if (t == MPI_UNSIGNED_SHORT) return D_USHORT;
   if (t == MPI_INT || t == MPI_INT32_T) return D_INT;
   if (t == MPI_UNSIGNED || t == MPI_UINT32_T) return D_UINT;
   if (t == MPI_LONG || t == MPI_INT64_T) return D_LONG;
   if (t == MPI_UNSIGNED_LONG || t == MPI_UINT64_T) return D_ULONG;
   if (t == MPI_LONG_LONG) return D_LL;
   if (t == MPI_UNSIGNED_LONG_LONG) return D_ULL;
   if (t == MPI_FLOAT) return D_FLOAT;
   if (t == MPI_DOUBLE) return D_DOUBLE;
   if (t == MPI_C_BOOL || t == MPI_CXX_BOOL) return D_BOOL;
   if (t == MPI_2INT) return D_2INT;
   if (t == MPI_DOUBLE_INT) return D_DOUBLEINT;
   mpi_fatal("datatype not supported by the simulator");
   return 0;
}
enum { O_SUM, O_PROD, O_MAX, O_MIN, O_LAND, O_LOR, O_BAND, O_BOR, O_MAXLOC, O_MINLOC };
static int opc(MPI_Op o)
{
   if (o == MPI_SUM) return O_SUM;
   if (o == MPI_PROD) return O_PROD;
   if (o == MPI_MAX) return O_MAX;
   if (o == MPI_MIN) return O_MIN;
   if (o == MPI_LAND) return O_LAND;
   if (o == MPI_LOR) return O_LOR;
   if (o == MPI_BAND) return O_BAND;
   if (o == MPI_BOR) return O_BOR;
   if (o == MPI_MAXLOC) return O_MAXLOC;
   if (o == MPI_MINLOC) return O_MINLOC;
   mpi_fatal("operation not supported by the simulator");
   return 0;
}
template <class T> static void red(T *a, const T *b, int n, int op)
{
   for (int k = 0; k < n; k++) switch (op)
   {
      case O_SUM: a[k] = a[k] + b[k]; break;
      case O_PROD: a[k] = a[k] * b[k]; break;
      case O_MAX: if (b[k] > a[k]) a[k] = b[k]; break;
      case O_MIN: if (b[k] < a[k]) a[k] = b[k]; break;
      case O_LAND: a[k] = (a[k] && b[k]); break;
      case O_LOR: a[k] = (a[k] || b[k]); break;
      case O_BAND: a[k] = (T)((long long)a[k] & (long long)b[k]); break;
      case O_BOR: a[k] = (T)((long long)a[k] | (long long)b[k]); break;
   }
}
template <class V> struct VI { V v; int i; };
template <class V> static void loc(VI<V> *a, const VI<V> *b, int n, int op)
{
   for (int k = 0; k < n; k++)
   {
      bool better = (op == O_MAXLOC) ? b[k].v > a[k].v : b[k].v < a[k].v;
      if (better || (b[k].v == a[k].v && b[k].i < a[k].i)) a[k] = b[k];
   }
}
static void reduce_into(std::string &acc, const std::string &x, int d, int op)
{
   int n = acc.size() / dsize[d];
   void *a = &acc[0]; const void *b = x.data();
   switch (d)
   {
      case D_CHAR: case D_SCHAR: red((signed char *)a, (const signed char *)b, n, op); break;
      case D_BYTE: case D_UCHAR: red((unsigned char *)a, (const unsigned char *)b, n, op); break;
      case D_SHORT: red((short *)a, (const short *)b, n, op); break;
      case D_USHORT: red((unsigned short *)a, (const unsigned short *)b, n, op); break;
      case D_INT: red((int *)a, (const int *)b, n, op); break;
      case D_UINT: red((unsigned *)a, (const unsigned *)b, n, op); break;
      case D_LONG: case D_LL: red((long long *)a, (const long long *)b, n, op); break;
      case D_ULONG: case D_ULL: red((unsigned long long *)a, (const unsigned long long *)b, n, op); break;
      case D_FLOAT: red((float *)a, (const float *)b, n, op); break;
      case D_DOUBLE: red((double *)a, (const double *)b, n, op); break;
      case D_BOOL: red((unsigned char *)a, (const unsigned char *)b, n, op); break;
      case D_2INT: loc((VI<int> *)a, (const VI<int> *)b, n, op); break;
      case D_DOUBLEINT: loc((VI<double> *)a, (const VI<double> *)b, n, op); break;
   }
}

// returns the contributions of all ranks that the kind needs (empty strings otherwise)
static std::vector<std::string> coll(int kind, MPI_Comm comm, int root, int count, int d, int op, const std::string &mine)
{
   CommRec c = lookup(comm);
   if (root < 0 || root >= c.size) mpi_fatal("invalid root %d", root);
   if (count < 0) mpi_fatal("invalid count %d", count);
   if (c.size == 1) return std::vector<std::string>(1, mine);
   Msg m = {}; m.type = M_COLL; m.kind = kind; m.comm = c.id; m.root = root; m.count = count; m.dtype = d; m.op = op;
   std::string r = rpc(m, mine);
   In in(r);
   std::vector<std::string> v(c.size);
   for (int k = 0; k < c.size && !in.end(); k++) v[k] = in.s();
   return v;
}
static std::string bytes(const void *p, int count, int d) { return count > 0 ? std::string((const char *)p, (size_t)count * dsize[d]) : std::string(); }
static void put(void *p, const std::string &s) { if (s.size()) memcpy(p, s.data(), s.size()); }

} // namespace sim
using namespace sim;

extern "C" {
int MPI_Init(int *, char ***) { NS.mpi_init = true; return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) { NS.mpi_init = true; *p = r; return 0; }
int MPI_Initialized(int *f) { *f = NS.mpi_init; return 0; }
int MPI_Finalized(int *f) { *f = NS.mpi_final; return 0; }
int MPI_Finalize(void) { NS.mpi_final = true; return 0; }
int MPI_Abort(MPI_Comm, int code)
{
   if (NS.sock >= 0) { Msg m = {}; m.type = M_ABORT; xwrite(NS.sock, &m, sizeof m); }
   syscall(SYS_exit_group, code ? (code & 255 ? code & 255 : 1) : 1);
   return 0;
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = lookup(c).rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = lookup(c).size; return 0; }
double MPI_Wtime(void) { sim_advance(100); return sim_now() * 1e-9; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = dsize[dt(t)]; return 0; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simnode"); *l = 7; return 0; }

int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
{
   CommRec r = lookup(c);
   int id = 1;
   if (r.size > 1) { auto v = coll(K_DUP, c, 0, 0, 0, 0, ""); In in(v[0]); id = in.i(); }
   MPI_Comm h = (MPI_Comm)::malloc(16);
   comms[h] = CommRec{id, r.rank, r.size};
   *o = h;
   return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
   CommRec r = lookup(c);
   Out p; p.i(color); p.i(key);
   int id = 1, nr = 0, ns = 1;
   if (r.size > 1) { auto v = coll(K_SPLIT, c, 0, 0, 0, 0, p.b); In in(v[0]); id = in.i(); nr = in.i(); ns = in.i(); }
   if (color == MPI_UNDEFINED) { *o = MPI_COMM_NULL; return 0; }
   MPI_Comm h = (MPI_Comm)::malloc(16);
   comms[h] = CommRec{id, nr, ns};
   *o = h;
   return 0;
}
int MPI_Comm_free(MPI_Comm *c) { comms.erase(*c); *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }

int MPI_Barrier(MPI_Comm c) { coll(K_BARRIER, c, 0, 0, 0, 0, ""); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
   CommRec r = lookup(c); int d = dt(t);
   auto v = coll(K_BCAST, c, root, n, d, 0, r.rank == root ? bytes(b, n, d) : std::string());
   if (r.rank != root) put(b, v[root]);
   return 0;
}
int MPI_Reduce(const void *s, void *rb, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
   CommRec r = lookup(c); int d = dt(t), op = opc(o);
   if (s == MPI_IN_PLACE && r.rank != root) mpi_fatal("MPI_ERR_ARG: MPI_Reduce with MPI_IN_PLACE on a rank that is not the root");
   const void *src = (s == MPI_IN_PLACE) ? rb : s;
   auto v = coll(K_REDUCE, c, root, n, d, op, bytes(src, n, d));
   if (r.rank == root)
   {
      std::string a = v[0];
      for (int k = 1; k < r.size; k++) reduce_into(a, v[k], d, op);
      put(rb, a);
   }
   return 0;
}
int MPI_Allreduce(const void *s, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
   CommRec r = lookup(c); int d = dt(t), op = opc(o);
   auto v = coll(K_ALLREDUCE, c, 0, n, d, op, bytes(s == MPI_IN_PLACE ? rb : s, n, d));
   std::string a = v[0];
   for (int k = 1; k < r.size; k++) reduce_into(a, v[k], d, op);
   put(rb, a);
   return 0;
}
int MPI_Scan(const void *s, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
   CommRec r = lookup(c); int d = dt(t), op = opc(o);
   auto v = coll(K_SCAN, c, 0, n, d, op, bytes(s == MPI_IN_PLACE ? rb : s, n, d));
   std::string a = v[0];
   for (int k = 1; k <= r.rank; k++) reduce_into(a, v[k], d, op);
   put(rb, a);
   return 0;
}
int MPI_Exscan(const void *s, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
   CommRec r = lookup(c); int d = dt(t), op = opc(o);
   auto v = coll(K_EXSCAN, c, 0, n, d, op, bytes(s == MPI_IN_PLACE ? rb : s, n, d));
   if (r.rank == 0) return 0;
   std::string a = v[0];
   for (int k = 1; k < r.rank; k++) reduce_into(a, v[k], d, op);
   put(rb, a);
   return 0;
}
static void place(char *rb, int d, int k, const std::string &s, int count, int displ)
{
   if ((int)(s.size() / dsize[d]) > count) mpi_fatal("message truncated (rank %d)", k);
   put(rb + (size_t)displ * dsize[d], s);
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
   CommRec r = lookup(c);
   bool ip = (s == MPI_IN_PLACE);
   if (ip && r.rank != root) mpi_fatal("MPI_IN_PLACE on a rank that is not the root");
   int d = ip ? dt(rt) : dt(t);
   std::string mine = ip ? bytes((char *)rb + (size_t)r.rank * rn * dsize[d], rn, d) : bytes(s, n, d);
   auto v = coll(K_GATHER, c, root, 0, 0, 0, mine);
   if (r.rank == root) for (int k = 0; k < r.size; k++) place((char *)rb, dt(rt), k, v[k], rn, k * rn);
   return 0;
}
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *rb, const int *rn, const int *dp, MPI_Datatype rt, int root, MPI_Comm c)
{
   CommRec r = lookup(c);
   bool ip = (s == MPI_IN_PLACE);
   if (ip && r.rank != root) mpi_fatal("MPI_IN_PLACE on a rank that is not the root");
   int d = ip ? dt(rt) : dt(t);
   std::string mine = ip ? bytes((char *)rb + (size_t)dp[r.rank] * dsize[d], rn[r.rank], d) : bytes(s, n, d);
   auto v = coll(K_GATHERV, c, root, 0, 0, 0, mine);
   if (r.rank == root) for (int k = 0; k < r.size; k++) place((char *)rb, dt(rt), k, v[k], rn[k], dp[k]);
   return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{
   CommRec r = lookup(c);
   bool ip = (s == MPI_IN_PLACE);
   int d = ip ? dt(rt) : dt(t);
   std::string mine = ip ? bytes((char *)rb + (size_t)r.rank * rn * dsize[d], rn, d) : bytes(s, n, d);
   auto v = coll(K_ALLGATHER, c, 0, 0, 0, 0, mine);
   for (int k = 0; k < r.size; k++) place((char *)rb, dt(rt), k, v[k], rn, k * rn);
   return 0;
}
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *rb, const int *rn, const int *dp, MPI_Datatype rt, MPI_Comm c)
{
   CommRec r = lookup(c);
   bool ip = (s == MPI_IN_PLACE);
   int d = ip ? dt(rt) : dt(t);
   std::string mine = ip ? bytes((char *)rb + (size_t)dp[r.rank] * dsize[d], rn[r.rank], d) : bytes(s, n, d);
   auto v = coll(K_ALLGATHERV, c, 0, 0, 0, 0, mine);
   for (int k = 0; k < r.size; k++) place((char *)rb, dt(rt), k, v[k], rn[k], dp[k]);
   return 0;
}
int MPI_Scatter(const void *s, int n, MPI_Datatype t, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
   CommRec r = lookup(c);
   std::string mine = r.rank == root ? bytes(s, n * r.size, dt(t)) : std::string();
   auto v = coll(K_SCATTER, c, root, 0, 0, 0, mine);
   size_t w = v[root].size() / r.size;
   if (rb != MPI_IN_PLACE) put(rb, v[root].substr(w * r.rank, w));
   return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
   CommRec r = lookup(c); int d = dt(t);
   if (dst < 0 || dst >= r.size) mpi_fatal("invalid destination");
   Msg m = {}; m.type = M_SEND; m.comm = r.id; m.root = dst; m.op = tag; m.count = n; m.dtype = d;
   rpc(m, bytes(b, n, d));
   return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st)
{
   CommRec r = lookup(c); int d = dt(t);
   Msg m = {}; m.type = M_RECV; m.comm = r.id; m.root = (src == MPI_ANY_SOURCE ? -1 : src); m.op = (tag == MPI_ANY_TAG ? -1 : tag); m.count = n; m.dtype = d;
   std::string x = rpc(m, "");
   In in(x);
   int s = in.i(), tg = in.i(); std::string data = in.s();
   if ((long)data.size() > (long)n * dsize[d]) mpi_fatal("message truncated");
   put(b, data);
   if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = s; st->MPI_TAG = tg; st->MPI_ERROR = 0; st->_ucount = data.size(); }
   return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = st->_ucount / dsize[dt(t)]; return 0; }

// hypre on one process: no message is ever in flight
static int unsupported(const char *f) { mpi_fatal("%s is not supported by the simulator", f); return 1; }
static void none_in_flight(int n, MPI_Request *r, const char *f) { if (!NS.mpi_init) mpi_fatal("MPI called before MPI_Init"); for (int k = 0; k < n; k++) if (r[k] != MPI_REQUEST_NULL) unsupported(f); }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *) { none_in_flight(n, r, "MPI_Waitall"); return 0; }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *) { none_in_flight(n, r, "MPI_Testall"); *flag = 1; return 0; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *) { none_in_flight(n, r, "MPI_Waitany"); *idx = MPI_UNDEFINED; return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *) { none_in_flight(1, r, "MPI_Wait"); return 0; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *) { none_in_flight(1, r, "MPI_Test"); *flag = 1; return 0; }
int MPI_Startall(int n, MPI_Request *r) { none_in_flight(n, r, "MPI_Startall"); return 0; }
int MPI_Request_free(MPI_Request *r) { none_in_flight(1, r, "MPI_Request_free"); return 0; }
int MPI_Iprobe(int, int, MPI_Comm c, int *flag, MPI_Status *) { if (lookup(c).size > 1) return unsupported("MPI_Iprobe"); *flag = 0; return 0; }
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { return unsupported("MPI_Isend"); }
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { return unsupported("MPI_Irsend"); }
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { return unsupported("MPI_Irecv"); }
int MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { return unsupported("MPI_Send_init"); }
int MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { return unsupported("MPI_Recv_init"); }
int MPI_Probe(int, int, MPI_Comm, MPI_Status *) { return unsupported("MPI_Probe"); }
int MPI_Scatterv(const void *s, const int *sn, const int *dp, MPI_Datatype t, void *rb, int, MPI_Datatype, int root, MPI_Comm c)
{
   if (lookup(c).size > 1) return unsupported("MPI_Scatterv");
   if (rb != MPI_IN_PLACE) memcpy(rb, (const char *)s + (size_t)dp[0] * dsize[dt(t)], (size_t)sn[0] * dsize[dt(t)]);
   return 0;
}
int MPI_Alltoall(const void *s, int n, MPI_Datatype t, void *rb, int, MPI_Datatype, MPI_Comm c)
{
   if (lookup(c).size > 1) return unsupported("MPI_Alltoall");
   if (s != MPI_IN_PLACE) memcpy(rb, s, (size_t)n * dsize[dt(t)]);
   return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { lookup(c); *g = MPI_GROUP_EMPTY; return 0; }
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *o) { *o = MPI_GROUP_EMPTY; return 0; }
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group, MPI_Comm *o) { if (lookup(c).size > 1) return unsupported("MPI_Comm_create"); return MPI_Comm_dup(c, o); }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *) { return unsupported("MPI_Type_contiguous"); }
int MPI_Op_create(MPI_User_function *, int, MPI_Op *) { return unsupported("MPI_Op_create"); }
} // extern "C"
