// Shared between the runtime (simrt.cpp) and the interposition layer (shim_*.cpp).
#pragma once
#include "simrt.hpp"

namespace sim {

const int MAXRANK = 16;
const u64 MAXOPS = 1 << 16;
const int MAXPATH_ = 1024;

struct NodeShm
{
   volatile u64 nops, nalloc, hash, done, crashed, fired, overflow;
   volatile u64 faults[F_NKINDS];
   char paths[MAXPATH_][96];
   volatile int npaths;
   OpRec ops[MAXOPS];
};
struct Shm
{
   volatile u64 now;          // simulated clock, ns
   volatile long long rtoff;  // wall clock minus simulated clock
   NodeShm node[MAXRANK];
};
extern Shm *shm;

struct NodeState
{
   bool active = false;       // we are inside a node
   bool paused = false;
   FaultPlan plan;
   NodeShm *ns = nullptr;
   bool wfail = false, rfail = false;
   int werr = 0;
   // MPI
   int rank = 0, size = 1, sock = -1;
   bool mpi_init = false, mpi_final = false;
   u64 cpu = 0;               // simulated processor time, ns
   // random
   u64 rand_state = 0; int rand_mode = 0;
   std::string scratch;       // absolute path of the working directory
};
extern NodeState NS;

// MPI wire protocol between a rank and the controller
enum MsgType { M_YIELD = 1, M_COLL, M_SEND, M_RECV, M_ABORT, M_DONE, M_ERR };
enum CollKind { K_BARRIER, K_BCAST, K_REDUCE, K_ALLREDUCE, K_GATHER, K_ALLGATHER, K_SCATTER, K_SCAN, K_EXSCAN,
                K_GATHERV, K_ALLGATHERV, K_SCATTERV, K_DUP, K_SPLIT, K_ALLTOALL, K_COMMFREE };
struct Msg { int type, kind, comm, root, count, dtype, op, inplace; long long len; };
void shim_yield();            // called at every tracked operation when running under MPI
void node_crash() __attribute__((noreturn));

} // namespace sim
