// Stand-in for mfem::MUMPSSolver (this MFEM is built without MUMPS): a dense LU factorisation
// with partial pivoting of the local matrix. Only communicators of one process are used.
#pragma once
#include "mfem.hpp"
#ifndef MFEM_USE_MUMPS
namespace mfem {
class MUMPSSolver : public Solver
{
   DenseMatrix a; Array<int> piv;
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_POSITIVE_DEFINITE = 1, SYMMETRIC_INDEFINITE = 2 };
   MUMPSSolver(MPI_Comm = MPI_COMM_SELF) {}
   void SetPrintLevel(int) {}
   void SetMatrixSymType(MatType) {}
   void SetOperator(const Operator &op) override
   {
      const HypreParMatrix *h = dynamic_cast<const HypreParMatrix *>(&op);
      if (!h) mfem_error("MUMPSSolver: not a HypreParMatrix");
      SparseMatrix d;
      h->GetDiag(d);
      height = d.Height(); width = d.Width();
      a.SetSize(height, width);
      a = 0.0;
      piv.SetSize(height);
      piv = 0;
      for (int i = 0; i < height; i++) for (int k = d.GetI()[i]; k < d.GetI()[i + 1]; k++) a(i, d.GetJ()[k]) += d.GetData()[k];
      LUFactors lu(a.GetData(), piv.GetData());
      if (!lu.Factor(height)) mfem_error("MUMPSSolver: the matrix is singular");
   }
   void Mult(const Vector &x, Vector &y) const override 
   {
      if (!a.Height()) mfem_error("MUMPSSolver: no operator");
      y = x;
      LUFactors lu(const_cast<double *>(a.GetData()), const_cast<int *>(piv.GetData()));
      lu.Solve(height, 1, y.GetData());
   }
};
}
#endif
