#include "h5items.hpp"
#include "hyperreduction_integ.hpp"
#include <cmath>
#include <limits>
using namespace mfem;
namespace sim {

const char *item_name[] = {"Array<int>", "Array<double>", "Array<bool>", "Vector", "int-attribute", "double-attribute", "bool-attribute",
                           "string-attribute", "BasisTag", "Array2D<int>", "Array2D<double>", "Array2D<bool>", "DenseMatrix", "DenseTensor",
                           "SampleInfo list", "EQPElement", "SparseMatrix", "BlockMatrix", "MatrixBlocks"};

double weird_double(Rng &g)
{
   switch (g.below(12))
   {
      case 0: return 0.0;
      case 1: return -0.0;
      case 2: return std::numeric_limits<double>::infinity();
      case 3: return std::numeric_limits<double>::denorm_min() * (double)(1 + g.below(1000));
      case 4: return -std::numeric_limits<double>::max();
      case 5: { u64 b = 0x7ff8000000000000ull | g.below(1 << 20); double d; memcpy(&d, &b, 8); return d; }
      default: return (g.unit() - 0.5) * std::pow(10.0, (double)g.below(40) - 20.0);
   }
}
static int weird_int(Rng &g)
{
   switch (g.below(6)) { case 0: return 0; case 1: return -1; case 2: return std::numeric_limits<int>::max(); case 3: return std::numeric_limits<int>::min(); default: return (int)g.next(); }
}
static std::string weird_str(Rng &g)
{
   static const char *pool[] = {"", "a", "comp", "empty", "square-circle", "port with space", "block_0_0", "x/y", "\xc3\xa9t\xc3\xa9", "exactly15chars!", "exactly_16_chars"};
   int k = g.below(14);
   if (k < 11) return pool[k];
   std::string s; int n = 1 + g.below(300);
   for (int q = 0; q < n; q++) s += (char)(33 + g.below(90));
   return s;
}
Csr make_csr(Rng &g, int h, int w, int density) // density: 0 empty .. 3 full
{
   Csr m; m.h = h; m.w = w; m.I.push_back(0);
   for (int i = 0; i < h; i++)
   {
      std::vector<int> cols;
      for (int j = 0; j < w; j++) if (density >= 3 || (density > 0 && g.below(4) < (u64)density)) cols.push_back(j);
      for (size_t k = cols.size(); k > 1; k--) std::swap(cols[k - 1], cols[g.below(k)]); // unsorted columns
      for (int j : cols) { m.J.push_back(j); m.V.push_back(g.below(8) ? weird_double(g) : 0.0); }
      m.I.push_back((int)m.J.size());
   }
   return m;
}

Item make_item(Ctx &c, Rng &g, const std::string &name, int maxkind, bool big)
{
   Item it; it.name = name;
   it.kind = c.choose(maxkind);
   int lim = big ? 40 : 7;
   auto sz = [&](int lo) { int v = lo + (int)c.choose(lim); if (big && v > lim - 3) v = 500 + (int)g.below(4000); return v; };
   switch (it.kind)
   {
      case I_ARR_INT: it.n1 = sz(0); for (int k = 0; k < it.n1; k++) it.iv.push_back(weird_int(g)); break;
      case I_ARR_DBL: it.n1 = sz(0); for (int k = 0; k < it.n1; k++) it.dv.push_back(weird_double(g)); break;
      case I_ARR_BOOL: it.n1 = sz(0); for (int k = 0; k < it.n1; k++) it.iv.push_back(g.below(2)); break;
      case I_VEC: it.n1 = sz(1); for (int k = 0; k < it.n1; k++) it.dv.push_back(weird_double(g)); break;
      case I_ATTR_INT: it.iv.push_back(weird_int(g)); break;
      case I_ATTR_DBL: it.dv.push_back(weird_double(g)); break;
      case I_ATTR_BOOL: it.iv.push_back(g.below(2)); break;
      case I_ATTR_STR: it.sv.push_back(weird_str(g)); break;
      case I_ATTR_TAG: it.sv.push_back(weird_str(g)); it.sv.push_back(weird_str(g)); break;
      case I_ARR2_INT: case I_ARR2_DBL: case I_ARR2_BOOL: case I_DENSE:
         it.n1 = 1 + c.choose(lim); it.n2 = 1 + c.choose(lim);
         for (int k = 0; k < it.n1 * it.n2; k++)
            if (it.kind == I_ARR2_INT) it.iv.push_back(weird_int(g)); else if (it.kind == I_ARR2_BOOL) it.iv.push_back(g.below(2)); else it.dv.push_back(weird_double(g));
         break;
      case I_TENSOR:
         it.n1 = 1 + c.choose(5); it.n2 = 1 + c.choose(5); it.n3 = 1 + c.choose(5);
         for (int k = 0; k < it.n1 * it.n2 * it.n3; k++) it.dv.push_back(weird_double(g));
         break;
      case I_SAMPLES: case I_EQP:
         it.n2 = c.choose(4); it.n1 = sz(0);
         for (int k = 0; k < it.n1; k++) { it.iv.push_back(g.below(1000)); it.iv.push_back(g.below(64)); it.dv.push_back(weird_double(g)); }
         break;
      case I_SPARSE: it.blocks.push_back(make_csr(g, 1 + c.choose(lim), 1 + c.choose(lim), c.choose(4))); it.absent.push_back(false); break;
      case I_BLOCKMAT:
      {
         int nb = 1 + c.choose(3);
         it.n1 = it.n2 = nb; it.off.push_back(0);
         for (int k = 0; k < nb; k++) it.off.push_back(it.off.back() + 1 + (int)g.below(5));
         for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++)
         {
            int dens = c.choose(5);
            it.absent.push_back(dens == 4);
            it.blocks.push_back(make_csr(g, it.off[i + 1] - it.off[i], it.off[j + 1] - it.off[j], dens == 4 ? 0 : dens));
         }
         break;
      }
      case I_MATBLOCKS:
         it.n1 = 1 + c.choose(3); it.n2 = 1 + c.choose(3);
         for (int k = 0; k < it.n1 * it.n2; k++)
         {
            int dens = c.choose(5);
            it.absent.push_back(dens == 4);
            it.blocks.push_back(make_csr(g, 1 + (int)g.below(5), 1 + (int)g.below(5), dens == 4 ? 0 : dens));
         }
         break;
   }
   return it;
}

void canon_csr(Out &o, const Csr &m)
{
   o.i(m.h); o.i(m.w);
   o.i(m.I.size()); o.raw(m.I.data(), 4 * m.I.size());
   o.i(m.J.size()); o.raw(m.J.data(), 4 * m.J.size());
   o.i(m.V.size()); o.raw(m.V.data(), 8 * m.V.size());
}
std::string Item::canon() const
{
   Out o; o.i(kind);
   switch (kind)
   {
      case I_ARR_INT: case I_ARR_BOOL: o.i(n1); o.raw(iv.data(), 4 * iv.size()); break;
      case I_ARR_DBL: case I_VEC: o.i(n1); o.raw(dv.data(), 8 * dv.size()); break;
      case I_ATTR_INT: case I_ATTR_BOOL: o.i(iv[0]); break;
      case I_ATTR_DBL: o.d(dv[0]); break;
      case I_ATTR_STR: o.s(sv[0]); break;
      case I_ATTR_TAG: o.s(sv[0]); o.s(sv[1]); break;
      case I_ARR2_INT: case I_ARR2_BOOL: o.i(n1); o.i(n2); o.raw(iv.data(), 4 * iv.size()); break;
      case I_ARR2_DBL: case I_DENSE: o.i(n1); o.i(n2); o.raw(dv.data(), 8 * dv.size()); break;
      case I_TENSOR: o.i(n1); o.i(n2); o.i(n3); o.raw(dv.data(), 8 * dv.size()); break;
      case I_SAMPLES: case I_EQP: o.i(n1); o.raw(iv.data(), 4 * iv.size()); o.raw(dv.data(), 8 * dv.size()); break;
      case I_SPARSE: canon_csr(o, blocks[0]); break;
      case I_BLOCKMAT: case I_MATBLOCKS:
         o.i(n1); o.i(n2);
         for (size_t k = 0; k < blocks.size(); k++)
         {
            bool abs = absent[k] || blocks[k].J.empty();
            o.i(abs);
            if (!abs) canon_csr(o, blocks[k]);
         }
         break;
   }
   return o.b;
}

SparseMatrix *to_sparse(const Csr &m)
{
   int *I = new int[m.h + 1]; int *J = new int[std::max<size_t>(1, m.J.size())]; double *V = new double[std::max<size_t>(1, m.V.size())];
   std::copy(m.I.begin(), m.I.end(), I); std::copy(m.J.begin(), m.J.end(), J); std::copy(m.V.begin(), m.V.end(), V);
   return new SparseMatrix(I, J, V, m.h, m.w);
}
void canon_sparse(Out &o, SparseMatrix *s)
{
   Csr m; m.h = s->Height(); m.w = s->Width();
   int n = m.h;
   const int *I = s->GetI();
   m.I.assign(I, I + n + 1);
   if (I[n] > 0) { m.J.assign(s->GetJ(), s->GetJ() + I[n]); m.V.assign(s->GetData(), s->GetData() + I[n]); }
   canon_csr(o, m);
}

static const IntegratorType stypes[] = {IntegratorType::DOMAIN, IntegratorType::INTERIORFACE, IntegratorType::BDRFACE, IntegratorType::INTERFACE};

void put_item(hid_t dst, const Item &it)
{
   using namespace hdf5_utils;
   switch (it.kind)
   {
      case I_ARR_INT: { Array<int> a(it.n1); for (int k = 0; k < it.n1; k++) a[k] = it.iv[k]; WriteDataset(dst, it.name, a); break; }
      case I_ARR_BOOL: { Array<bool> a(it.n1); for (int k = 0; k < it.n1; k++) a[k] = it.iv[k]; WriteDataset(dst, it.name, a); break; }
      case I_ARR_DBL: { Array<double> a(it.n1); for (int k = 0; k < it.n1; k++) a[k] = it.dv[k]; WriteDataset(dst, it.name, a); break; }
      case I_VEC: { Vector a(it.n1); for (int k = 0; k < it.n1; k++) a[k] = it.dv[k]; WriteDataset(dst, it.name, a); break; }
      case I_ATTR_INT: WriteAttribute(dst, it.name, it.iv[0]); break;
      case I_ATTR_BOOL: { bool b = it.iv[0]; WriteAttribute(dst, it.name, b); break; }
      case I_ATTR_DBL: WriteAttribute(dst, it.name, it.dv[0]); break;
      case I_ATTR_STR: WriteAttribute(dst, it.name, it.sv[0]); break;
      case I_ATTR_TAG: { BasisTag t(it.sv[0], it.sv[1]); WriteAttribute(dst, it.name, t); break; }
      case I_ARR2_INT: { Array2D<int> a(it.n1, it.n2); for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) a(i, j) = it.iv[i * it.n2 + j]; WriteDataset(dst, it.name, a); break; }
      case I_ARR2_BOOL: { Array2D<bool> a(it.n1, it.n2); for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) a(i, j) = it.iv[i * it.n2 + j]; WriteDataset(dst, it.name, a); break; }
      case I_ARR2_DBL: { Array2D<double> a(it.n1, it.n2); for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) a(i, j) = it.dv[i * it.n2 + j]; WriteDataset(dst, it.name, a); break; }
      case I_DENSE: { DenseMatrix a(it.n1, it.n2); for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) a(i, j) = it.dv[i * it.n2 + j]; WriteDataset(dst, it.name, a); break; }
      case I_TENSOR:
      {
         DenseTensor a(it.n1, it.n2, it.n3);
         for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) for (int k = 0; k < it.n3; k++) a(i, j, k) = it.dv[(i * it.n2 + j) * it.n3 + k];
         WriteDataset(dst, it.name, a); break;
      }
      case I_SAMPLES:
      {
         Array<SampleInfo> a(it.n1);
         for (int k = 0; k < it.n1; k++) { a[k].el = it.iv[2 * k]; a[k].qp = it.iv[2 * k + 1]; a[k].qw = it.dv[k]; }
         WriteDataset(dst, it.name, stypes[it.n2], a); break;
      }
      case I_EQP:
      {
         Array<SampleInfo> a(it.n1);
         for (int k = 0; k < it.n1; k++) { a[k].el = it.iv[2 * k]; a[k].qp = it.iv[2 * k + 1]; a[k].qw = it.dv[k]; }
         EQPElement e(a); e.Save(dst, it.name, stypes[it.n2]); break;
      }
      case I_SPARSE: { SparseMatrix *m = to_sparse(it.blocks[0]); WriteSparseMatrix(dst, it.name, m); delete m; break; }
      case I_BLOCKMAT:
      {
         Array<int> off(it.off.size()); for (size_t k = 0; k < it.off.size(); k++) off[k] = it.off[k];
         BlockMatrix *bm = new BlockMatrix(off); bm->owns_blocks = true;
         for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) if (!it.absent[i * it.n2 + j]) bm->SetBlock(i, j, to_sparse(it.blocks[i * it.n2 + j]));
         WriteBlockMatrix(dst, it.name, bm);
         delete bm; break;
      }
      case I_MATBLOCKS:
      {
         MatrixBlocks mb(it.n1, it.n2);
         for (int i = 0; i < it.n1; i++) for (int j = 0; j < it.n2; j++) if (!it.absent[i * it.n2 + j]) mb(i, j) = to_sparse(it.blocks[i * it.n2 + j]);
         WriteDataset(dst, it.name, mb); break;
      }
   }
}

std::string get_item(hid_t src, const Item &it, bool dirty)
{
   using namespace hdf5_utils;
   Out o; o.i(it.kind);
   switch (it.kind)
   {
      case I_ARR_INT: { Array<int> a; if (dirty) { a.SetSize(9); a = 77; } ReadDataset(src, it.name, a); o.i(a.Size()); for (int k = 0; k < a.Size(); k++) { int v = a[k]; o.raw(&v, 4); } break; }
      case I_ARR_BOOL: { Array<bool> a; if (dirty) { a.SetSize(9); a = true; } ReadDataset(src, it.name, a); o.i(a.Size()); for (int k = 0; k < a.Size(); k++) { int v = a[k]; o.raw(&v, 4); } break; }
      case I_ARR_DBL: { Array<double> a; if (dirty) { a.SetSize(9); a = 7.5; } ReadDataset(src, it.name, a); o.i(a.Size()); for (int k = 0; k < a.Size(); k++) o.d(a[k]); break; }
      case I_VEC: { Vector a; if (dirty) { a.SetSize(9); a = 7.5; } ReadDataset(src, it.name, a); o.i(a.Size()); for (int k = 0; k < a.Size(); k++) o.d(a[k]); break; }
      case I_ATTR_INT: { int v = dirty ? 424242 : 0; ReadAttribute(src, it.name, v); o.i(v); break; }
      case I_ATTR_BOOL: { bool v = dirty ? !it.iv[0] : 0; ReadAttribute(src, it.name, v); o.i(v); break; }
      case I_ATTR_DBL: { double v = dirty ? 4242.5 : 0; ReadAttribute(src, it.name, v); o.d(v); break; }
      case I_ATTR_STR: { std::string v = dirty ? "something else that is longer than the small buffer" : ""; ReadAttribute(src, it.name, v); o.s(v); break; }
      case I_ATTR_TAG: { BasisTag v; if (dirty) v = BasisTag("dirtycomp", "dirtyvar"); ReadAttribute(src, it.name, v); o.s(v.comp); o.s(v.var); break; }
      case I_ARR2_INT: { Array2D<int> a; if (dirty) { a.SetSize(3, 5); a = 77; } ReadDataset(src, it.name, a); o.i(a.NumRows()); o.i(a.NumCols()); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) { int v = a(i, j); o.raw(&v, 4); } break; }
      case I_ARR2_BOOL: { Array2D<bool> a; if (dirty) { a.SetSize(3, 5); a = true; } ReadDataset(src, it.name, a); o.i(a.NumRows()); o.i(a.NumCols()); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) { int v = a(i, j); o.raw(&v, 4); } break; }
      case I_ARR2_DBL: { Array2D<double> a; if (dirty) { a.SetSize(3, 5); a = 7.5; } ReadDataset(src, it.name, a); o.i(a.NumRows()); o.i(a.NumCols()); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) o.d(a(i, j)); break; }
      case I_DENSE: { DenseMatrix a; if (dirty) { a.SetSize(5, 3); a = 7.5; } ReadDataset(src, it.name, a); o.i(a.NumRows()); o.i(a.NumCols()); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) o.d(a(i, j)); break; }
      case I_TENSOR:
      {
         DenseTensor a; if (dirty) { a.SetSize(2, 3, 4); a = 7.5; }
         ReadDataset(src, it.name, a);
         o.i(a.SizeI()); o.i(a.SizeJ()); o.i(a.SizeK());
         for (int i = 0; i < a.SizeI(); i++) for (int j = 0; j < a.SizeJ(); j++) for (int k = 0; k < a.SizeK(); k++) o.d(a(i, j, k));
         break;
      }
      case I_SAMPLES:
      {
         Array<SampleInfo> a; if (dirty) { a.SetSize(4); for (int k = 0; k < 4; k++) a[k] = SampleInfo{9, 9, 9.0}; }
         ReadDataset(src, it.name, stypes[it.n2], a);
         o.i(a.Size());
         for (int k = 0; k < a.Size(); k++) { o.raw(&a[k].el, 4); o.raw(&a[k].qp, 4); }
         for (int k = 0; k < a.Size(); k++) o.d(a[k].qw);
         break;
      }
      case I_EQP:
      {
         Array<SampleInfo> a(dirty ? 3 : 0); for (int k = 0; k < a.Size(); k++) a[k] = SampleInfo{9, 9, 9.0};
         EQPElement e(a); e.Load(src, it.name, stypes[it.n2]);
         o.i(e.Size());
         for (int k = 0; k < e.Size(); k++) { o.raw(&e.GetSample(k)->info.el, 4); o.raw(&e.GetSample(k)->info.qp, 4); }
         for (int k = 0; k < e.Size(); k++) o.d(e.GetSample(k)->info.qw);
         break;
      }
      case I_SPARSE: { SparseMatrix *m = ReadSparseMatrix(src, it.name); canon_sparse(o, m); delete m; break; }
      case I_BLOCKMAT:
      {
         Array<int> off(it.off.size()); for (size_t k = 0; k < it.off.size(); k++) off[k] = it.off[k];
         BlockMatrix *bm = ReadBlockMatrix(src, it.name, off);
         o.i(bm->NumRowBlocks()); o.i(bm->NumColBlocks());
         for (int i = 0; i < bm->NumRowBlocks(); i++) for (int j = 0; j < bm->NumColBlocks(); j++)
         { bool abs = bm->IsZeroBlock(i, j) || bm->GetBlock(i, j).NumNonZeroElems() == 0; o.i(abs); if (!abs) canon_sparse(o, &bm->GetBlock(i, j)); }
         delete bm; break;
      }
      case I_MATBLOCKS:
      {
         MatrixBlocks mb;
         if (dirty) { mb.SetSize(2, 2); Csr m; m.I = {0, 1}; m.J = {0}; m.V = {3.0}; mb(0, 1) = to_sparse(m); mb(1, 1) = to_sparse(m); }
         ReadDataset(src, it.name, mb);
         o.i(mb.nrows); o.i(mb.ncols);
         for (int i = 0; i < mb.nrows; i++) for (int j = 0; j < mb.ncols; j++) { bool abs = !mb(i, j) || mb(i, j)->NumNonZeroElems() == 0; o.i(abs); if (!abs) canon_sparse(o, mb(i, j)); }
         break;
      }
   }
   return o.b;
}

} // namespace sim
