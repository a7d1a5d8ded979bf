// Plain-data items stored by hdf5_utils, with the bytes a reader must see.
#pragma once
#include "simrt.hpp"
#include "hdf5_utils.hpp"

namespace sim {

enum ItemKind { I_ARR_INT, I_ARR_DBL, I_ARR_BOOL, I_VEC, I_ATTR_INT, I_ATTR_DBL, I_ATTR_BOOL, I_ATTR_STR, I_ATTR_TAG, I_ARR2_INT, I_ARR2_DBL,
                I_ARR2_BOOL, I_DENSE, I_TENSOR, I_SAMPLES, I_EQP, I_SPARSE, I_BLOCKMAT, I_MATBLOCKS, I_NKINDS };
extern const char *item_name[];

struct Csr { int h = 1, w = 1; std::vector<int> I, J; std::vector<double> V; };
struct Item
{
   int kind = 0;
   std::string name;
   int n1 = 0, n2 = 0, n3 = 0;
   std::vector<int> iv;
   std::vector<double> dv;
   std::vector<std::string> sv;
   std::vector<Csr> blocks;          // n1 x n2, row major
   std::vector<bool> absent;
   std::vector<int> off;             // block offsets
   std::string canon() const;        // what reading it back must yield
};

Item make_item(Ctx &c, Rng &g, const std::string &name, int maxkind = I_NKINDS, bool big = false);
// inside nodes:
void put_item(hid_t dst, const Item &it);
std::string get_item(hid_t src, const Item &shape, bool dirty);  // reads; canonical bytes of what was read
double weird_double(Rng &g);
Csr make_csr(Rng &g, int h, int w, int density);
void canon_csr(Out &o, const Csr &m);
mfem::SparseMatrix *to_sparse(const Csr &m);
void canon_sparse(Out &o, mfem::SparseMatrix *s);

} // namespace sim
