// scaleupROM evaluates a flow field on a copy of the mesh the field lives on. MFEM 4.6 accepts that (any mesh with as many
// elements); the MFEM 4.5.2 installed here looks for a refinement. These definitions take the place of the library's.
#include "mfem.hpp"
namespace mfem {
void VectorGridFunctionCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip)
{
   MFEM_VERIFY(T.mesh->GetNE() == GridFunc->FESpace()->GetMesh()->GetNE(), "field of another mesh");
   GridFunc->GetVectorValue(T, ip, V);
}
void VectorGridFunctionCoefficient::Eval(DenseMatrix &M, ElementTransformation &T, const IntegrationRule &ir)
{
   MFEM_VERIFY(T.mesh->GetNE() == GridFunc->FESpace()->GetMesh()->GetNE(), "field of another mesh");
   GridFunc->GetVectorValues(T, ir, M);
}
} // namespace mfem
