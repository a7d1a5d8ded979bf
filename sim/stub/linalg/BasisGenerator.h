// Stand-in for libROM's basis generator: keeps the samples in memory, computes the left singular
// vectors by a one-sided Jacobi iteration and stores both in HDF5 files with libROM's names.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include "linalg/Matrix.h"
#include "utils/HDFDatabase.h"
#include "utils/mpi_utils.h"
namespace CAROM {
struct Options
{
   int dim, max_num_samples, max_basis_dimension = -1;
   bool update_right_SV, write_snapshots, static_svd_preserve_snapshot = false;
   Options(int d, int max_samples, int = 1, bool right = false, bool w = false) : dim(d), max_num_samples(max_samples), update_right_SV(right), write_snapshots(w) {}
};
namespace stub {
inline void die(const char *w, const std::string &s) { fprintf(stderr, "libROM: %s %s\n", w, s.c_str()); abort(); }
// every rank holds whole rows in rank order; returns the whole matrix, row-major, on every rank
inline std::vector<double> gather(const std::vector<double> &cols, int dim, int n, int &gdim)
{
   int np, me; MPI_Comm_size(MPI_COMM_WORLD, &np); MPI_Comm_rank(MPI_COMM_WORLD, &me);
   std::vector<double> loc((size_t)dim * n);
   for (int j = 0; j < n; j++) for (int i = 0; i < dim; i++) loc[(size_t)i * n + j] = cols[(size_t)j * dim + i];
   if (np == 1) { gdim = dim; return loc; }
   std::vector<int> cnt(np), dsp(np, 0);
   int mine = dim * n;
   MPI_Allgather(&mine, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
   for (int i = 1; i < np; i++) dsp[i] = dsp[i - 1] + cnt[i - 1];
   std::vector<double> all(dsp[np - 1] + cnt[np - 1]);
   MPI_Allgatherv(loc.data(), mine, MPI_DOUBLE, all.data(), cnt.data(), dsp.data(), MPI_DOUBLE, MPI_COMM_WORLD);
   gdim = n ? (int)(all.size() / n) : 0;
   return all;
}
inline void svd(const std::vector<double> &a, int m, int n, std::vector<double> &u, std::vector<double> &s)
{
   // columns of w become u * s
   std::vector<double> w((size_t)m * n);
   for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[(size_t)j * m + i] = a[(size_t)i * n + j];
   for (int sweep = 0; sweep < 60; sweep++)
   {
      bool done = true;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++)
      {
         double al = 0, be = 0, ga = 0, *x = &w[(size_t)p * m], *y = &w[(size_t)q * m];
         for (int i = 0; i < m; i++) { al += x[i] * x[i]; be += y[i] * y[i]; ga += x[i] * y[i]; }
         if (std::fabs(ga) <= 1e-15 * std::sqrt(al * be) || ga == 0.0) continue;
         done = false;
         double z = (be - al) / (2 * ga), t = (z >= 0 ? 1.0 : -1.0) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
         for (int i = 0; i < m; i++) { double a0 = x[i]; x[i] = c * a0 - sn * y[i]; y[i] = sn * a0 + c * y[i]; }
      }
      if (done) break;
   }
   std::vector<double> nrm(n); std::vector<int> ord(n);
   for (int j = 0; j < n; j++) { double q = 0; for (int i = 0; i < m; i++) q += w[(size_t)j * m + i] * w[(size_t)j * m + i]; nrm[j] = std::sqrt(q); ord[j] = j; }
   std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) { return nrm[x] > nrm[y]; });
   int k = std::min(m, n);
   u.assign((size_t)m * k, 0.0); s.assign(k, 0.0);
   for (int j = 0; j < k; j++)
   {
      s[j] = nrm[ord[j]];
      for (int i = 0; i < m; i++) u[(size_t)i * k + j] = s[j] > 0 ? w[(size_t)ord[j] * m + i] / s[j] : 0.0;
   }
}
inline void write(const std::string &file, const char *kind, const std::vector<double> &a, int m, int n, const std::vector<double> *s)
{
   int me; MPI_Comm_rank(MPI_COMM_WORLD, &me);
   if (me == 0)
   {
      HDFDatabase db;
      db.create(file + ".000000");
      std::string k(kind);
      db.putInteger(k + "_num_rows", m);
      db.putInteger(k + "_num_cols", n);
      db.putDoubleArray(k, a.data(), m * n);
      if (s) { db.putInteger("singular_value_size", (int)s->size()); db.putDoubleArray("singular_value", s->data(), (int)s->size()); }
      db.close();
   }
   MPI_Barrier(MPI_COMM_WORLD);
}
}
class BasisReader
{
   std::string base; int dim; HDFDatabase db;
public:
   BasisReader(const std::string &name, Database::formats = Database::formats::HDF5, const int local_dim = -1) : base(name), dim(local_dim) { db.open(name + ".000000", "r"); }
   std::unique_ptr<Matrix> read(const std::string &kind, int n)
   {
      int m = 0, nc = 0;
      db.getInteger(kind + "_num_rows", m);
      db.getInteger(kind + "_num_cols", nc);
      std::vector<double> all((size_t)m * nc);
      db.getDoubleArray(kind, all.data(), m * nc);
      if (n < 0) n = nc;
      if (n > nc) stub::die("not enough columns in", base);
      int loc = dim < 0 ? m : dim, me;
      std::vector<int> offs;
      MPI_Comm_rank(MPI_COMM_WORLD, &me);
      int tot = get_global_offsets(loc, offs);
      if (tot != m) stub::die("wrong dimension of", base);
      std::unique_ptr<Matrix> r(new Matrix(loc, n, tot != loc || true));
      for (int i = 0; i < loc; i++) for (int j = 0; j < n; j++) (*r)(i, j) = all[(size_t)(offs[me] + i) * nc + j];
      return r;
   }
   std::unique_ptr<Matrix> getSpatialBasis() { return read("spatial_basis", -1); }
   std::unique_ptr<Matrix> getSpatialBasis(int n) { return read("spatial_basis", n); }
   std::unique_ptr<Matrix> getSnapshotMatrix() { return read("snapshot_matrix", -1); }
};
class BasisGenerator
{
   Options opt; std::string name; std::vector<double> cols; int n = 0; bool have = false;
   std::shared_ptr<Matrix> snap, basis; std::shared_ptr<Vector> sv;
   std::vector<double> u, s; int gdim = 0;
   void compute()
   {
      if (have) return;
      std::vector<double> all = stub::gather(cols, opt.dim, n, gdim);
      stub::svd(all, gdim, n, u, s);
      sv = std::make_shared<Vector>(s.data(), (int)s.size(), false);
      have = true;
   }
public:
   BasisGenerator(Options o, bool, const std::string &f = "", Database::formats = Database::formats::HDF5) : opt(o), name(f) {}
   bool takeSample(double *x, bool = false)
   {
      if (n >= opt.max_num_samples) return false;
      cols.insert(cols.end(), x, x + opt.dim);
      n++; have = false;
      return true;
   }
   int getNumSamples() const { return n; }
   void endSamples(const std::string & = "snapshot")
   {
      compute();
      stub::write(name, "spatial_basis", u, gdim, (int)s.size(), &s);
   }
   void writeSnapshot()
   {
      std::vector<double> all = stub::gather(cols, opt.dim, n, gdim);
      stub::write(name + "_snapshot", "snapshot_matrix", all, gdim, n, NULL);
   }
   void loadSamples(const std::string &f, const std::string & = "snapshot", int cut = (int)1e9, Database::formats fm = Database::formats::HDF5)
   {
      BasisReader r(f, fm, opt.dim);
      std::unique_ptr<Matrix> m = r.getSnapshotMatrix();
      std::vector<double> x(opt.dim);
      for (int j = 0; j < m->numColumns() && j < cut; j++)
      {
         for (int i = 0; i < opt.dim; i++) x[i] = (*m)(i, j);
         if (!takeSample(x.data())) stub::die("too many samples in", f);
      }
   }
   std::shared_ptr<const Matrix> getSnapshotMatrix()
   {
      snap = std::make_shared<Matrix>(opt.dim, n, true);
      for (int j = 0; j < n; j++) for (int i = 0; i < opt.dim; i++) (*snap)(i, j) = cols[(size_t)j * opt.dim + i];
      return snap;
   }
   std::shared_ptr<const Vector> getSingularValues() { compute(); return sv; }
};
}
