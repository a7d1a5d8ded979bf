// Stand-in for libROM's non-negative least squares: Lawson and Hanson's active set method on the gathered system.
#pragma once
#include "linalg/BasisGenerator.h"
namespace CAROM {
enum class NNLS_termination { LINF, L2 };
class NNLSSolver
{
   double tol; NNLS_termination crit;
   static void lsq(const std::vector<double> &g, int m, int nc, const std::vector<int> &p, const std::vector<double> &b, std::vector<double> &z)
   {  // modified Gram-Schmidt QR
      int k = p.size();
      std::vector<std::vector<double>> q(k, std::vector<double>(nc)); std::vector<double> r(k * k, 0.0), y(k);
      for (int j = 0; j < k; j++)
      {
         for (int c = 0; c < nc; c++) q[j][c] = g[(size_t)p[j] * nc + c];
         for (int pass = 0; pass < 2; pass++) for (int i = 0; i < j; i++) { double d = 0; for (int c = 0; c < nc; c++) d += q[i][c] * q[j][c]; r[i * k + j] += d; for (int c = 0; c < nc; c++) q[j][c] -= d * q[i][c]; }
         double d = 0; for (double x : q[j]) d += x * x;
         r[j * k + j] = std::sqrt(d);
         if (d > 0) for (double &x : q[j]) x /= r[j * k + j];
         y[j] = 0; for (int c = 0; c < nc; c++) y[j] += q[j][c] * b[c];
      }
      z.assign(k, 0.0);
      for (int j = k - 1; j >= 0; j--) { double t = y[j]; for (int i = j + 1; i < k; i++) t -= r[j * k + i] * z[i]; z[j] = r[j * k + j] > 1e-14 ? t / r[j * k + j] : 0.0; }
   }
public:
   NNLSSolver(double t = 1e-12, unsigned = 0, unsigned = 0, int = 2, double = 1e-4, double = 1e-14, unsigned = 100000, unsigned = 1000, NNLS_termination c = NNLS_termination::L2) : tol(t), crit(c) {}
   void normalize_constraints(Matrix &, Vector &, Vector &) {}
   void solve_parallel_with_scalapack(const Matrix &Gt, const Vector &lb, const Vector &ub, Vector &sol)
   {
      int nl = Gt.numRows(), nc = Gt.numColumns(), me, m;
      std::vector<double> cm((size_t)nl * nc);
      for (int i = 0; i < nl; i++) for (int j = 0; j < nc; j++) cm[(size_t)j * nl + i] = Gt(i, j);
      std::vector<double> g = stub::gather(cm, nl, nc, m), b(nc), x(m, 0.0), z, w(m);
      std::vector<int> offs; MPI_Comm_rank(MPI_COMM_WORLD, &me); get_global_offsets(nl, offs);
      for (int c = 0; c < nc; c++) b[c] = 0.5 * (lb(c) + ub(c));
      std::vector<int> P; std::vector<char> in(m, 0);
      for (int it = 0; it < 3 * m + 10; it++)
      {
         std::vector<double> res = b;
         for (int i = 0; i < m; i++) if (x[i] != 0) for (int c = 0; c < nc; c++) res[c] -= x[i] * g[(size_t)i * nc + c];
         double e2 = 0, h2 = 0; bool ok = true;
         for (int c = 0; c < nc; c++) { double hw = 0.5 * (ub(c) - lb(c)); e2 += res[c] * res[c]; h2 += hw * hw; ok = ok && std::fabs(res[c]) <= hw; }
         if (crit == NNLS_termination::L2 ? e2 <= h2 : ok) break;
         int best = -1; double bw = 1e-15;
         for (int i = 0; i < m; i++) { w[i] = 0; for (int c = 0; c < nc; c++) w[i] += g[(size_t)i * nc + c] * res[c]; if (!in[i] && w[i] > bw) { bw = w[i]; best = i; } }
         if (best < 0 || (int)P.size() >= nc) break;
         in[best] = 1; P.push_back(best);
         for (int inner = 0; inner < m + 5; inner++)
         {
            lsq(g, m, nc, P, b, z);
            double al = 1; int neg = -1;
            for (size_t k = 0; k < P.size(); k++) if (z[k] <= 0) { double a = x[P[k]] / (x[P[k]] - z[k]); if (a < al || neg < 0) { al = std::min(al, a); neg = k; } }
            if (neg < 0) { for (size_t k = 0; k < P.size(); k++) x[P[k]] = z[k]; break; }
            for (size_t k = 0; k < P.size(); k++) x[P[k]] += al * (z[k] - x[P[k]]);
            std::vector<int> Q;
            for (size_t k = 0; k < P.size(); k++) if (x[P[k]] > 1e-15 && (int)k != neg) Q.push_back(P[k]); else { x[P[k]] = 0; in[P[k]] = 0; }
            P = Q;
            if (P.empty()) break;
         }
      }
      sol.setSize(nl);
      for (int i = 0; i < nl; i++) sol(i) = x[offs[me] + i];
   }
};
}
