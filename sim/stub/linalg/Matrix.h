#pragma once
#include <cassert>
#include <cmath>
#include <memory>
#include <vector>
#include "mpi.h"
namespace CAROM {
class Vector
{
   std::vector<double> v; bool dist;
public:
   Vector() : dist(false) {}
   Vector(int n, bool d) : v(n, 0.0), dist(d) {}
   Vector(double *p, int n, bool d, bool = true) : v(p, p + n), dist(d) {}
   double &operator()(int i) { assert(i >= 0 && i < dim()); return v[i]; }
   const double &operator()(int i) const { assert(i >= 0 && i < dim()); return v[i]; }
   double &item(int i) { return (*this)(i); }
   const double &item(int i) const { return (*this)(i); }
   int dim() const { return (int)v.size(); }
   void setSize(int n) { v.resize(n); }
   bool distributed() const { return dist; }
   double *getData() const { return const_cast<double *>(v.data()); }
   double norm() const { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
   Vector &operator=(double a) { for (auto &x : v) x = a; return *this; }
   Vector &operator+=(const Vector &o) { for (int i = 0; i < dim(); i++) v[i] += o.v[i]; return *this; }
   Vector &operator-=(const Vector &o) { for (int i = 0; i < dim(); i++) v[i] -= o.v[i]; return *this; }
   void plusEqAx(double a, const Vector &o) { for (int i = 0; i < dim(); i++) v[i] += a * o.v[i]; }
};
class Matrix
{
   std::vector<double> a; int nr, nc; bool dist;
public:
   Matrix() : nr(0), nc(0), dist(false) {}
   Matrix(int r, int c, bool d, bool = false) : a((size_t)r * c, 0.0), nr(r), nc(c), dist(d) {}
   double &operator()(int i, int j) { assert(i >= 0 && i < nr && j >= 0 && j < nc); return a[(size_t)i * nc + j]; }
   const double &operator()(int i, int j) const { assert(i >= 0 && i < nr && j >= 0 && j < nc); return a[(size_t)i * nc + j]; }
   double &item(int i, int j) { return (*this)(i, j); }
   const double &item(int i, int j) const { return (*this)(i, j); }
   int numRows() const { return nr; }
   int numColumns() const { return nc; }
   int numDistributedRows() const { int t = nr; if (dist) MPI_Allreduce(&nr, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); return t; }
   bool distributed() const { return dist; }
   void setSize(int r, int c) { nr = r; nc = c; a.assign((size_t)r * c, 0.0); }
   double *getData() const { return const_cast<double *>(a.data()); }
   // whole rows in rank order
   void gather()
   {
      assert(dist);
      int np; MPI_Comm_size(MPI_COMM_WORLD, &np);
      std::vector<int> cnt(np), dsp(np, 0);
      int mine = nr * nc;
      MPI_Allgather(&mine, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
      for (int i = 1; i < np; i++) dsp[i] = dsp[i - 1] + cnt[i - 1];
      std::vector<double> all(dsp[np - 1] + cnt[np - 1]);
      MPI_Allgatherv(a.data(), mine, MPI_DOUBLE, all.data(), cnt.data(), dsp.data(), MPI_DOUBLE, MPI_COMM_WORLD);
      a.swap(all); nr = nc ? (int)(a.size() / nc) : nr; dist = false;
   }
   void distribute(const int &local)
   {
      assert(!dist);
      int np, me; MPI_Comm_size(MPI_COMM_WORLD, &np); MPI_Comm_rank(MPI_COMM_WORLD, &me);
      std::vector<int> cnt(np);
      MPI_Allgather(&local, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
      int off = 0, tot = 0;
      for (int i = 0; i < np; i++) { if (i < me) off += cnt[i]; tot += cnt[i]; }
      assert(tot == nr);
      a = std::vector<double>(a.begin() + (size_t)off * nc, a.begin() + (size_t)(off + local) * nc);
      nr = local; dist = true;
   }
   Vector *getColumn(int j) const { Vector *v = new Vector(nr, dist); for (int i = 0; i < nr; i++) (*v)(i) = (*this)(i, j); return v; }
   void getColumn(int j, Vector &v) const { v.setSize(nr); for (int i = 0; i < nr; i++) v(i) = (*this)(i, j); }
   Matrix *transposeMult(const Matrix &o) const { Matrix *r = new Matrix; transposeMult(o, *r); return r; }
   void transposeMult(const Matrix &o, Matrix &r) const
   {
      assert(nr == o.nr);
      r = Matrix(nc, o.nc, false);
      for (int i = 0; i < nc; i++) for (int j = 0; j < o.nc; j++) { double s = 0; for (int k = 0; k < nr; k++) s += (*this)(k, i) * o(k, j); r(i, j) = s; }
      if (dist && o.dist) { std::vector<double> t(r.a.size()); MPI_Allreduce(r.a.data(), t.data(), (int)t.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); r.a.swap(t); }
   }
   void transposeMult(const Vector &o, Vector &r) const
   { r = Vector(nc, false); for (int i = 0; i < nc; i++) { double s = 0; for (int k = 0; k < nr; k++) s += (*this)(k, i) * o(k); r(i) = s; } }
   void mult(const Vector &o, Vector &r) const
   { r = Vector(nr, dist); for (int i = 0; i < nr; i++) { double s = 0; for (int k = 0; k < nc; k++) s += (*this)(i, k) * o(k); r(i) = s; } }
};
}
#include <cmath>
