#pragma once
#include "mpi.h"
#include <vector>
namespace CAROM {
inline int split_dimension(const int dim, const MPI_Comm &comm = MPI_COMM_WORLD)
{
   int n, r; MPI_Comm_size(comm, &n); MPI_Comm_rank(comm, &r);
   return dim / n + (r < dim % n ? 1 : 0);
}
inline int get_global_offsets(const int local, std::vector<int> &offs, const MPI_Comm &comm = MPI_COMM_WORLD)
{
   int n; MPI_Comm_size(comm, &n);
   std::vector<int> all(n);
   MPI_Allgather(&local, 1, MPI_INT, all.data(), 1, MPI_INT, comm);
   offs.assign(n + 1, 0);
   for (int i = 0; i < n; i++) offs[i + 1] = offs[i] + all[i];
   return offs[n];
}
}
