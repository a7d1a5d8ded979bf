#include "asm.hpp"
#include "workload.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include "hdf5.h"
using namespace mfem;
namespace sim {

std::vector<int> shuffled(Ctx &c, int n)
{
   std::vector<int> v; for (int k = 0; k < n; k++) v.push_back(k);
   // one tape value; 0 = identity
   u64 s = c.choose(1 << 20);
   if (s) { Rng g(s); for (int k = n; k > 1; k--) std::swap(v[k - 1], v[g.below(k)]); }
   return v;
}

// side s of the component -> outward direction
static const int dir2[4][2] = {{0, -1}, {1, 0}, {0, 1}, {-1, 0}};
static const int dir3[6][3] = {{0, 0, -1}, {0, -1, 0}, {1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, 0, 1}};

struct El { int attr, geom; std::vector<int> v; };

// A Cartesian mesh of [0,L]^dim with shuffled numbering. grid: element attribute per cell of the grid (else 1).
std::string make_mesh_text(int dim, int n, double L, bool simplex, const std::vector<int> &attr, Rng &g, int nsub, std::vector<int> *grid)
{
   int m = n + 1, nv = dim == 2 ? m * m : m * m * m;
   std::vector<int> vp(nv); for (int k = 0; k < nv; k++) vp[k] = k;
   bool shuf = g.below(2);
   if (shuf) for (int k = nv; k > 1; k--) std::swap(vp[k - 1], vp[g.below(k)]);
   auto V = [&](int i, int j, int k) { return vp[(k * m + j) * m + i]; };
   std::vector<double> x(nv * dim);
   bool pert = g.below(2);
   for (int k = 0; k < (dim == 3 ? m : 1); k++) for (int j = 0; j < m; j++) for (int i = 0; i < m; i++)
   {
      double p[3] = {L * i / n, L * j / n, L * k / n};
      bool in = i > 0 && i < n && j > 0 && j < n && (dim == 2 || (k > 0 && k < n));
      if (in && pert) for (int d = 0; d < dim; d++) p[d] += 0.2 * L / n * (g.unit() - 0.5);
      for (int d = 0; d < dim; d++) x[V(i, j, k) * dim + d] = p[d];
   }
   std::vector<El> el, be;
   auto ea = [&](int i, int j, int k) { return grid ? (*grid)[(k * n + j) * n + i] : 1; };
   if (dim == 2)
   {
      for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
      {
         int q[4] = {V(i, j, 0), V(i + 1, j, 0), V(i + 1, j + 1, 0), V(i, j + 1, 0)};
         if (!simplex) { int r = shuf ? g.below(4) : 0; El e{ea(i, j, 0), 3, {}}; for (int t = 0; t < 4; t++) e.v.push_back(q[(t + r) % 4]); el.push_back(e); }
         else
         {
            int dg = g.below(2);
            int t1[3], t2[3];
            if (dg) { int a[3] = {q[0], q[1], q[2]}, b[3] = {q[0], q[2], q[3]}; std::copy(a, a + 3, t1); std::copy(b, b + 3, t2); }
            else { int a[3] = {q[0], q[1], q[3]}, b[3] = {q[1], q[2], q[3]}; std::copy(a, a + 3, t1); std::copy(b, b + 3, t2); }
            for (int *t : {t1, t2}) { int r = shuf ? g.below(3) : 0; el.push_back({ea(i, j, 0), 2, {t[r], t[(r + 1) % 3], t[(r + 2) % 3]}}); }
         }
      }
      for (int k = 0; k < n; k++)
      {
         be.push_back({attr[0], 1, {V(k, 0, 0), V(k + 1, 0, 0)}});
         be.push_back({attr[1], 1, {V(n, k, 0), V(n, k + 1, 0)}});
         be.push_back({attr[2], 1, {V(k + 1, n, 0), V(k, n, 0)}});
         be.push_back({attr[3], 1, {V(0, k + 1, 0), V(0, k, 0)}});
      }
   }
   else
   {
      static const int cx[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
      auto idx = [&](int a, int b, int c2) { for (int t = 0; t < 8; t++) if (cx[t][0] == a && cx[t][1] == b && cx[t][2] == c2) return t; return -1; };
      for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
      {
         int q[8]; for (int t = 0; t < 8; t++) q[t] = V(i + cx[t][0], j + cx[t][1], k + cx[t][2]);
         if (!simplex)
         {
            int perm[8]; for (int t = 0; t < 8; t++) perm[t] = t;
            int rz = shuf ? g.below(4) : 0, rx = shuf ? g.below(4) : 0;
            for (int s = 0; s < rz; s++) { int o[8]; for (int t = 0; t < 8; t++) o[t] = perm[idx(1 - cx[t][1], cx[t][0], cx[t][2])]; std::copy(o, o + 8, perm); }
            for (int s = 0; s < rx; s++) { int o[8]; for (int t = 0; t < 8; t++) o[t] = perm[idx(cx[t][0], 1 - cx[t][2], cx[t][1])]; std::copy(o, o + 8, perm); }
            El e{ea(i, j, k), 5, {}}; for (int t = 0; t < 8; t++) e.v.push_back(q[perm[t]]); el.push_back(e);
         }
         else
         {
            static const int P[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}};
            for (int s = 0; s < 6; s++)
            {
               int c0[3] = {0, 0, 0}; std::vector<int> v; v.push_back(q[0]);
               for (int t = 0; t < 3; t++) { c0[P[s][t]] = 1; v.push_back(q[idx(c0[0], c0[1], c0[2])]); }
               if (s >= 3) std::swap(v[2], v[3]);
               // even permutations of the vertices keep the orientation
               if (shuf) for (u64 r = g.below(3); r > 0; r--) { int a = v[1]; v[1] = v[2]; v[2] = v[3]; v[3] = a; }
               el.push_back({ea(i, j, k), 4, v});
            }
         }
      }
      auto face = [&](int a, int p, int q, int r, int s) // p..s around the face, p and r on the diagonal
      { if (simplex) { be.push_back({a, 2, {p, q, r}}); be.push_back({a, 2, {p, r, s}}); } else be.push_back({a, 3, {p, q, r, s}}); };
      for (int b = 0; b < n; b++) for (int a = 0; a < n; a++)
      {
         face(attr[0], V(a, b, 0), V(a, b + 1, 0), V(a + 1, b + 1, 0), V(a + 1, b, 0));
         face(attr[5], V(a, b, n), V(a + 1, b, n), V(a + 1, b + 1, n), V(a, b + 1, n));
         face(attr[1], V(a, 0, b), V(a + 1, 0, b), V(a + 1, 0, b + 1), V(a, 0, b + 1));
         face(attr[3], V(a, n, b), V(a, n, b + 1), V(a + 1, n, b + 1), V(a + 1, n, b));
         face(attr[4], V(0, a, b), V(0, a, b + 1), V(0, a + 1, b + 1), V(0, a + 1, b));
         face(attr[2], V(n, a, b), V(n, a + 1, b), V(n, a + 1, b + 1), V(n, a, b + 1));
      }
   }
   if (shuf)
   {
      for (size_t k = el.size(); k > 1; k--) std::swap(el[k - 1], el[g.below(k)]);
      for (size_t k = be.size(); k > 1; k--) std::swap(be[k - 1], be[g.below(k)]);
   }
   std::string s = fmt("MFEM mesh v1.0\n\ndimension\n%d\n\nelements\n%zu\n", dim, el.size());
   auto put = [&](const El &e) { s += fmt("%d %d", e.attr, e.geom); for (int v : e.v) s += fmt(" %d", v); s += "\n"; };
   for (auto &e : el) put(e);
   s += fmt("\nboundary\n%zu\n", be.size());
   for (auto &e : be) put(e);
   s += fmt("\nvertices\n%d\n\nnodes\nFiniteElementSpace\nFiniteElementCollection: H1_%dD_P1\nVDim: %d\nOrdering: 1\n\n", nv, dim, dim);
   for (int k = 0; k < nv; k++) { for (int d = 0; d < dim; d++) s += fmt("%.17g%s", x[k * dim + d], d + 1 < dim ? " " : "\n"); }
   return s;
}

Lib make_lib(Ctx &c, int maxcomp, int dim)
{
   Lib l;
   l.dim = dim ? dim : (c.flip(1, 4) ? 3 : 2);
   l.n = 1 + c.choose(l.dim == 2 ? 3 : 2);
   static const double Ls[] = {1.0, 0.5, 3.0};
   l.L = Ls[c.choose(3)];
   if (c.flip(1, 4)) { l.org[0] = 2.0; l.org[1] = -7.5; l.org[2] = 1.25; }
   bool simp = c.flip(1, 2);
   int nc = 1 + c.choose(maxcomp);
   static const char *names[] = {"comp", "comp1", "empty", "square-circle", "a", "comp:1", "10", "0"};
   u64 no = c.choose(8);
   for (int k = 0; k < nc; k++)
   {
      Rng g = c.stream();
      AComp a; a.name = names[(no + k) % 8]; a.file = fmt("m%d.mesh", k);
      a.simplex = l.dim == 3 ? simp : g.below(2);
      int ns = l.dim == 2 ? 4 : 6;
      std::set<int> used;
      bool plain = g.below(4) == 0;
      for (int s = 0; s < ns; s++) { int v; do v = plain ? s + 1 : 1 + (int)g.below(20); while (used.count(v)); used.insert(v); a.attr.push_back(v); }
      a.nbdr = ns;
      a.mesh = make_mesh_text(l.dim, l.n, l.L, a.simplex, a.attr, g);
      l.comps.push_back(a);
   }
   return l;
}

static void rot2(int k, double x, double y, double &u, double &v)
{
   k = ((k % 4) + 4) % 4;
   if (k == 0) { u = x; v = y; } else if (k == 1) { u = -y; v = x; } else if (k == 2) { u = -x; v = -y; } else { u = y; v = -x; }
}
static void cell_trans(const Assembly &a, const ACell &q, double *t)
{
   double L = a.L;
   for (int d = 0; d < 3; d++) t[d] = d < a.dim ? a.org[d] + q.pos[d] * L : 0.0;
   if (a.dim == 2)
   {
      int k = q.rot;
      if (k == 1) t[0] += L; else if (k == 2) { t[0] += L; t[1] += L; } else if (k == 3) t[1] += L;
   }
}
// attribute of the component side that faces world direction d
static int side_attr(const Assembly &a, const ACell &q, const int *d)
{
   const AComp &cp = a.comps[q.comp];
   if (a.dim == 3) { for (int s = 0; s < 6; s++) if (dir3[s][0] == d[0] && dir3[s][1] == d[1] && dir3[s][2] == d[2]) return cp.attr[s]; }
   else for (int s = 0; s < 4; s++) if (dir2[s][0] == d[0] && dir2[s][1] == d[1]) return cp.attr[(s - q.rot + 4) % 4];
   return -1;
}

std::string Assembly::key(int r) const
{ return comps[refs[r].c1].name + ":" + comps[refs[r].c2].name + fmt("-%d:%d", refs[r].a1, refs[r].a2); }
std::string Assembly::str() const
{
   std::string s = fmt("%dD n=%d L=%g comps[", dim, n, L);
   for (auto &x : comps) s += x.name + (x.simplex ? "(s) " : " ");
   s += fmt("] cells=%zu refs=%zu interfaces=%zu", cells.size(), refs.size(), ifs.size());
   return s;
}

Assembly make_assembly(Ctx &c, const Lib &l, const std::vector<int> &subset, int maxcells)
{
   Assembly a; a.dim = l.dim; a.n = l.n; a.L = l.L; for (int d = 0; d < 3; d++) a.org[d] = l.org[d];
   for (int k : subset) a.comps.push_back(l.comps[k]);
   int nc = a.comps.size();
   int ext[3];
   do { for (int d = 0; d < 3; d++) ext[d] = d < a.dim ? 1 + (int)c.choose(a.dim == 2 ? 3 : 2) : 1; } while (false);
   while (ext[0] * ext[1] * ext[2] > maxcells) { int d = ext[0] >= ext[1] ? 0 : 1; if (ext[d] == 1) d = 2; ext[d]--; }
   bool holes = c.flip(1, 3), rots = a.dim == 2 && !l.upright && c.flip(1, 2);
   Rng g = c.stream();
   for (int k = 0; k < ext[2]; k++) for (int j = 0; j < ext[1]; j++) for (int i = 0; i < ext[0]; i++)
   {
      if (holes && g.below(4) == 0 && !(i == 0 && j == 0 && k == 0)) continue;
      ACell q; q.pos[0] = i; q.pos[1] = j; q.pos[2] = k;
      q.comp = g.below(nc); q.rot = rots ? g.below(4) : 0;
      a.cells.push_back(q);
   }
   bool shuf = c.flip(1, 2);
   if (shuf) for (size_t k = a.cells.size(); k > 1; k--) std::swap(a.cells[k - 1], a.cells[g.below(k)]);
   std::map<std::string, int> rk;
   int gmax = 1 + g.below(5);
   for (size_t m = 0; m < a.cells.size(); m++)
      for (int s = 0; s < 2 * a.dim; s++)
      {
         int d[3] = {0, 0, 0};
         if (a.dim == 2) { d[0] = dir2[s][0]; d[1] = dir2[s][1]; } else for (int t = 0; t < 3; t++) d[t] = dir3[s][t];
         int nb = -1;
         for (size_t q = 0; q < a.cells.size(); q++)
         { bool eq = true; for (int t = 0; t < a.dim; t++) eq &= a.cells[q].pos[t] == a.cells[m].pos[t] + d[t]; if (eq) nb = q; }
         int am = side_attr(a, a.cells[m], d);
         if (nb < 0) { a.bdr.push_back({1 + (int)g.below(gmax), (int)m, am}); continue; }
         if (nb < (int)m) continue;
         int od[3] = {-d[0], -d[1], -d[2]};
         int an = side_attr(a, a.cells[nb], od);
         int m1 = m, m2 = nb, a1 = am, a2 = an;
         if (shuf && g.below(3) == 0) { std::swap(m1, m2); std::swap(a1, a2); }
         const ACell &c1 = a.cells[m1], &c2 = a.cells[m2];
         std::string key = fmt("%d %d %d %d", c1.comp, c2.comp, a1, a2);
         if (!rk.count(key))
         {
            ARef r; r.c1 = c1.comp; r.c2 = c2.comp; r.a1 = a1; r.a2 = a2;
            double t1[3], t2[3]; cell_trans(a, c1, t1); cell_trans(a, c2, t2);
            for (int t = 0; t < 6; t++) r.conf[t] = 0.0;
            if (a.dim == 2)
            {
               rot2(-c1.rot, t2[0] - t1[0], t2[1] - t1[1], r.conf[0], r.conf[1]);
               int kr = ((c2.rot - c1.rot) % 4 + 4) % 4;
               if (kr && g.below(3) == 0) kr -= 4;
               r.conf[3] = kr * M_PI / 2;
            }
            else for (int t = 0; t < 3; t++) r.conf[t] = t2[t] - t1[t];
            rk[key] = a.refs.size();
            a.refs.push_back(r);
         }
         a.ifs.push_back({m1, m2, a1, a2, rk[key]});
      }
   if (shuf)
   {
      std::vector<int> p; for (size_t k = 0; k < a.refs.size(); k++) p.push_back(k);
      for (size_t k = p.size(); k > 1; k--) std::swap(p[k - 1], p[g.below(k)]);
      std::vector<ARef> r(a.refs.size()); for (size_t k = 0; k < p.size(); k++) r[p[k]] = a.refs[k];
      a.refs = r; for (auto &x : a.ifs) x.type = p[x.type];
      for (size_t k = a.ifs.size(); k > 1; k--) std::swap(a.ifs[k - 1], a.ifs[g.below(k)]);
      for (size_t k = a.bdr.size(); k > 1; k--) std::swap(a.bdr[k - 1], a.bdr[g.below(k)]);
   }
   // a port name is a function of what it joins, so that assemblies can share port files
   for (size_t k = 0; k < a.refs.size(); k++)
   {
      std::string nm = "port_" + a.key(k);
      for (auto &ch : nm) if (ch == ':') ch = '+';
      a.refs[k].name = nm;
   }
   return a;
}

bool grow_assembly(Ctx &c, const Assembly &a, int maxcells, Assembly &b)
{
   for (auto &q : a.cells) if (q.rot) return false;
   b = a; b.cells.clear(); b.ifs.clear(); b.bdr.clear(); b.refs.clear();
   Rng g = c.stream();
   auto nd = 2 * a.dim;
   auto dir = [&](int s, int *d) { for (int t = 0; t < 3; t++) d[t] = 0; if (a.dim == 2) { d[0] = dir2[s][0]; d[1] = dir2[s][1]; } else for (int t = 0; t < 3; t++) d[t] = dir3[s][t]; };
   // reference ports of a that join a cell of component p and, in direction d, one of component q: (index, swapped)
   auto joins = [&](int p, int q, const int *d)
   {
      std::vector<std::pair<int, int> > r;
      ACell x, y; x.comp = p; y.comp = q; x.rot = y.rot = 0;
      int od[3] = {-d[0], -d[1], -d[2]};
      int ap = side_attr(a, x, d), aq = side_attr(a, y, od);
      for (size_t k = 0; k < a.refs.size(); k++)
      {
         const ARef &f = a.refs[k];
         if (f.c1 == p && f.c2 == q && f.a1 == ap && f.a2 == aq) r.push_back({(int)k, 0});
         if (f.c1 == q && f.c2 == p && f.a1 == aq && f.a2 == ap) r.push_back({(int)k, 1});
      }
      return r;
   };
   auto find = [&](const int *p) { for (size_t m = 0; m < b.cells.size(); m++) { bool e = true; for (int t = 0; t < 3; t++) e &= b.cells[m].pos[t] == p[t]; if (e) return (int)m; } return -1; };
   std::vector<int> have; for (auto &q : a.cells) have.push_back(q.comp);
   ACell q0; for (int t = 0; t < 3; t++) q0.pos[t] = 0;
   q0.comp = have[g.below(have.size())]; q0.rot = 0;
   b.cells.push_back(q0);
   for (int tries = 0; tries < 30 && (int)b.cells.size() < maxcells; tries++)
   {
      const ACell m = b.cells[g.below(b.cells.size())];
      int d[3]; dir(g.below(nd), d);
      ACell q; q.rot = 0; q.comp = have[g.below(have.size())];
      for (int t = 0; t < 3; t++) q.pos[t] = m.pos[t] + d[t];
      if (find(q.pos) >= 0) continue;
      bool ok = true;
      for (int s = 0; s < nd && ok; s++)
      {
         int e[3], p[3]; dir(s, e); for (int t = 0; t < 3; t++) p[t] = q.pos[t] + e[t];
         int nb = find(p);
         if (nb >= 0 && joins(q.comp, b.cells[nb].comp, e).empty()) ok = false;
      }
      if (ok) b.cells.push_back(q);
   }
   std::vector<int> map(a.refs.size(), -1);
   int gmax = 1 + g.below(5);
   for (size_t m = 0; m < b.cells.size(); m++) for (int s = 0; s < nd; s++)
   {
      int d[3], p[3]; dir(s, d); for (int t = 0; t < 3; t++) p[t] = b.cells[m].pos[t] + d[t];
      int nb = find(p);
      if (nb < 0) { b.bdr.push_back({1 + (int)g.below(gmax), (int)m, side_attr(a, b.cells[m], d)}); continue; }
      if (nb < (int)m) continue;
      auto r = joins(b.cells[m].comp, b.cells[nb].comp, d);
      auto x = r[g.below(r.size())];
      if (map[x.first] < 0) { map[x.first] = b.refs.size(); b.refs.push_back(a.refs[x.first]); }
      const ARef &f = a.refs[x.first];
      b.ifs.push_back({x.second ? nb : (int)m, x.second ? (int)m : nb, f.a1, f.a2, map[x.first]});
   }
   // components in another order, without those not used
   std::vector<int> order; for (size_t k = 0; k < a.comps.size(); k++) order.push_back(k);
   for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[g.below(k)]);
   std::vector<int> cm(a.comps.size(), -1);
   b.comps.clear();
   for (int k : order) { bool used = false; for (auto &q : b.cells) used |= q.comp == k; if (used) { cm[k] = b.comps.size(); b.comps.push_back(a.comps[k]); } }
   for (auto &q : b.cells) q.comp = cm[q.comp];
   for (auto &r : b.refs) { r.c1 = cm[r.c1]; r.c2 = cm[r.c2]; }
   return true;
}

Assembly renumber(Ctx &c, const Assembly &a, std::vector<int> &perm)
{
   Assembly b = a;
   Rng g = c.stream();
   auto mix = [&](size_t n) { std::vector<int> v; for (size_t k = 0; k < n; k++) v.push_back(k); for (size_t k = n; k > 1; k--) std::swap(v[k - 1], v[g.below(k)]); return v; };
   auto inv = [](const std::vector<int> &p) { std::vector<int> q(p.size()); for (size_t k = 0; k < p.size(); k++) q[p[k]] = k; return q; };
   perm = mix(a.cells.size());
   std::vector<int> pc = mix(a.comps.size()), pr = mix(a.refs.size()), pi = mix(a.ifs.size()), pb = mix(a.bdr.size());
   std::vector<int> ic = inv(pc), ir = inv(pr), im = inv(perm);
   for (size_t k = 0; k < pc.size(); k++) b.comps[k] = a.comps[pc[k]];
   for (size_t k = 0; k < perm.size(); k++) { b.cells[k] = a.cells[perm[k]]; b.cells[k].comp = ic[b.cells[k].comp]; }
   for (size_t k = 0; k < pr.size(); k++) { b.refs[k] = a.refs[pr[k]]; b.refs[k].c1 = ic[b.refs[k].c1]; b.refs[k].c2 = ic[b.refs[k].c2]; }
   for (size_t k = 0; k < pi.size(); k++) { b.ifs[k] = a.ifs[pi[k]]; b.ifs[k].m1 = im[b.ifs[k].m1]; b.ifs[k].m2 = im[b.ifs[k].m2]; b.ifs[k].type = ir[b.ifs[k].type]; }
   for (size_t k = 0; k < pb.size(); k++) { b.bdr[k] = a.bdr[pb[k]]; b.bdr[k].m = im[b.bdr[k].m]; }
   return b;
}

AsmOpt plain_opt(const Assembly &a)
{
   AsmOpt o;
   for (size_t k = 0; k < a.refs.size(); k++) { o.src.push_back(PS_YAML); o.pfile.push_back(a.refs[k].name + ".port.h5"); o.yorder.push_back(k); }
   return o;
}

void put_meshes(const Lib &l, const std::string &disk) { for (auto &a : l.comps) write_file(disk + "/" + a.file, a.mesh); }

static void str_attr(hid_t g, const char *name, const std::string &v)
{
   hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, H5T_VARIABLE);
   hid_t s = H5Screate(H5S_SCALAR);
   hid_t a = H5Acreate2(g, name, t, s, H5P_DEFAULT, H5P_DEFAULT); NODE_REQUIRE(a >= 0);
   const char *p = v.c_str(); NODE_REQUIRE(H5Awrite(a, t, &p) >= 0);
   H5Aclose(a); H5Sclose(s); H5Tclose(t);
}
// harness: copy the port groups of several port files into one, in the given order. "!file": under a name that no assembly uses
void merge_ports(Ctx &c, const std::string &d, const std::vector<std::string> &from, const std::string &to)
{
   NodeOut r = run_node(c, "merge ports", d, NodeOpt(), [&](Out &)
   {
      pause_faults(true);
      hid_t f = H5Fcreate(to.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); NODE_REQUIRE(f >= 0);
      int n = from.size();
      hid_t s = H5Screate(H5S_SCALAR), at = H5Acreate2(f, "number_of_ports", H5T_NATIVE_INT, s, H5P_DEFAULT, H5P_DEFAULT);
      H5Awrite(at, H5T_NATIVE_INT, &n); H5Aclose(at); H5Sclose(s);
      for (int k = 0; k < n; k++)
      {
         bool foreign = from[k][0] == '!';
         hid_t g = H5Fopen(from[k].substr(foreign).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); NODE_REQUIRE(g >= 0);
         NODE_REQUIRE(H5Ocopy(g, "0", f, fmt("%d", k).c_str(), H5P_DEFAULT, H5P_DEFAULT) >= 0);
         H5Fclose(g);
         if (foreign)
         {
            g = H5Gopen2(f, fmt("%d", k).c_str(), H5P_DEFAULT); NODE_REQUIRE(g >= 0);
            for (const char *x : {"name", "component1"}) { NODE_REQUIRE(H5Adelete(g, x) >= 0); str_attr(g, x, fmt("foreign-%d", k)); }
            H5Gclose(g);
         }
      }
      NODE_REQUIRE(H5Fclose(f) >= 0);
   });
   if (!r.ok()) c.violation("port-file-unreadable", "a port file written by a run that ended normally cannot be copied: %s", r.console.substr(0, 200).c_str());
}
static void int_attr(hid_t g, const char *name, int v)
{
   hid_t s = H5Screate(H5S_SCALAR);
   hid_t a = H5Acreate2(g, name, H5T_NATIVE_INT, s, H5P_DEFAULT, H5P_DEFAULT); NODE_REQUIRE(a >= 0);
   NODE_REQUIRE(H5Awrite(a, H5T_NATIVE_INT, &v) >= 0);
   H5Aclose(a); H5Sclose(s);
}
static void dset(hid_t g, const char *name, hid_t type, int rank, hsize_t n1, hsize_t n2, const void *p)
{
   hsize_t d[2] = {n1, n2};
   hid_t s = H5Screate_simple(rank, d, 0);
   hid_t x = H5Dcreate2(g, name, type, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); NODE_REQUIRE(x >= 0);
   if (n1) NODE_REQUIRE(H5Dwrite(x, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, p) >= 0);
   H5Dclose(x); H5Sclose(s);
}

void put_global(Ctx &c, const Assembly &a, const AsmOpt &o, const std::string &disk)
{
   NodeOpt no;
   NodeOut r = run_node(c, "inputs", disk, no, [&](Out &)
   {
      pause_faults(true);
      auto put_bdr = [&](hid_t f, int shift) { std::vector<int> v; for (auto &b : a.bdr) { v.push_back(b.g + shift); v.push_back(b.m); v.push_back(b.a); } dset(f, "boundary", H5T_NATIVE_INT, 2, a.bdr.size(), 3, v.data()); };
      hid_t f = H5Fcreate(o.global.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); NODE_REQUIRE(f >= 0);
      hid_t g = H5Gcreate2(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      int_attr(g, "number_of_components", a.comps.size());
      for (size_t k = 0; k < a.comps.size(); k++) str_attr(g, fmt("%zu", k).c_str(), a.comps[k].name);
      std::vector<int> mt; std::vector<double> cf;
      for (auto &q : a.cells)
      {
         mt.push_back(q.comp);
         double t[3]; cell_trans(a, q, t);
         for (int d = 0; d < 3; d++) cf.push_back(t[d]);
         cf.push_back(a.dim == 2 ? q.rot * M_PI / 2 : 0.0); cf.push_back(0.0); cf.push_back(0.0);
      }
      dset(g, "meshes", H5T_NATIVE_INT, 1, mt.size(), 1, mt.data());
      dset(g, "configuration", H5T_NATIVE_DOUBLE, 2, mt.size(), 6, cf.data());
      H5Gclose(g);
      if (o.bdrfile.empty()) put_bdr(f, 0);
      g = H5Gcreate2(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      int_attr(g, "number_of_references", a.refs.size());
      for (size_t k = 0; k < a.refs.size(); k++)
      {
         const ARef &r = a.refs[k];
         str_attr(g, fmt("%zu", k).c_str(), r.name);
         if (o.src[k] != PS_H5) continue;
         hid_t p = H5Gcreate2(g, r.name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
         str_attr(p, "comp1", a.comps[r.c1].name); str_attr(p, "comp2", a.comps[r.c2].name);
         int_attr(p, "attr1", r.a1); int_attr(p, "attr2", r.a2);
         dset(p, "comp2_configuration", H5T_NATIVE_DOUBLE, 1, 6, 1, r.conf);
         H5Gclose(p);
      }
      std::vector<int> v;
      for (auto &i : a.ifs) { v.push_back(i.m1); v.push_back(i.m2); v.push_back(i.a1); v.push_back(i.a2); v.push_back(i.type); }
      if (a.ifs.size()) dset(g, "interface", H5T_NATIVE_INT, 2, a.ifs.size(), 5, v.data());
      H5Gclose(g);
      NODE_REQUIRE(H5Fclose(f) >= 0);
      for (auto &bf : {std::make_pair(o.bdrfile, 0), std::make_pair(o.decoy_bdr, 3)})
         if (!bf.first.empty())
         {
            f = H5Fcreate(bf.first.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); NODE_REQUIRE(f >= 0);
            put_bdr(f, bf.second); NODE_REQUIRE(H5Fclose(f) >= 0);
         }
   });
   if (!r.ok()) { fprintf(stderr, "harness: cannot write inputs: %s\n", r.console.c_str()); exit(3); }
}

std::string asm_yaml(const Assembly &a, const AsmOpt &o)
{
   std::string s = "mesh:\n  type: component-wise\n";
   if (o.refine) s += fmt("  uniform_refinement: %d\n", o.refine);
   s += "  component-wise:\n    global_config: " + o.global + "\n";
   if (!o.bdrfile.empty()) s += "    bdr_config: " + o.bdrfile + "\n";
   else if (!o.decoy_bdr.empty()) s += "    bdr_config: " + o.decoy_bdr + "\n";
   if (o.write_ports) s += "    write_ports: true\n";
   if (o.verbose) s += "    verbose: true\n";
   s += "    components:\n";
   for (auto &x : o.extra) s += "      - name: \"" + x.name + "\"\n        file: " + x.file + "\n";
   for (size_t k = a.comps.size(); k-- > 0;) s += "      - name: \"" + a.comps[k].name + "\"\n        file: " + a.comps[k].file + "\n";
   bool head = false;
   for (int k : o.yorder)
   {
      if (o.src[k] == PS_H5) continue;
      if (!head) { s += "    ports:\n"; head = true; }
      const ARef &r = a.refs[k];
      s += "      - name: \"" + r.name + "\"\n";
      if (o.src[k] == PS_FILE || o.src[k] == PS_FILE_ONLY || o.write_ports) s += "        file: \"" + o.pfile[k] + "\"\n";
      if (o.src[k] == PS_FILE_ONLY) continue;
      s += "        comp1:\n          name: \"" + a.comps[r.c1].name + "\"\n          attr: " + fmt("%d", r.a1) + "\n";
      s += "        comp2:\n          name: \"" + a.comps[r.c2].name + "\"\n          attr: " + fmt("%d", r.a2) + "\n";
      s += "        comp2_configuration: [";
      for (int d = 0; d < 6; d++) s += fmt("%.17g%s", r.conf[d], d < 5 ? ", " : "]\n");
   }
   return s;
}

// ---- in nodes ---------------------------------------------------------------------
ComponentTopologyHandler *build_topology(const std::string &yaml)
{
   config.dict_ = YAML::Load(yaml);
   return new ComponentTopologyHandler();
}

void canon_topology(ComponentTopologyHandler *t, Out &o)
{
   int ns = t->GetNumSubdomains(), nc = t->GetNumComponents(), np = t->GetNumPorts(), nr = t->GetNumRefPorts();
   o.i(ns); o.i(nc); o.i(np); o.i(nr);
   for (int c = 0; c < nc; c++) { o.s(t->GetComponentName(c)); o.i(t->GetNumSubdomains(c)); }
   for (int m = 0; m < ns; m++)
   {
      o.i(t->GetMeshType(m)); o.i(t->GetComponentIndexOfMesh(m));
      Mesh *q = t->GetMesh(m);
      o.i(q->GetNE()); o.i(q->GetNBE()); o.i(q->GetNV());
      for (int b = 0; b < q->GetNBE(); b++) o.i(q->GetBdrAttribute(b));
      // where the elements are, up to 1e-7
      for (int e = 0; e < q->GetNE(); e++)
      {
         Vector x; q->GetElementCenter(e, x);
         for (int d = 0; d < x.Size(); d++) o.i(llround(x[d] * 1e7 + 0.31));
      }
      Array<int> *g = t->GetBdrAttrComponentToGlobalMap(m);
      o.i(g->Size()); for (int k = 0; k < g->Size(); k++) o.i((*g)[k]);
   }
   auto infos = [&](Array<InterfaceInfo> *f)
   {
      std::vector<std::vector<int> > v;
      for (int k = 0; k < f->Size(); k++) v.push_back({(*f)[k].BE1, (*f)[k].BE2, (*f)[k].Inf1, (*f)[k].Inf2});
      std::sort(v.begin(), v.end());
      o.i(v.size()); for (auto &x : v) for (int y : x) o.i(y);
   };
   for (int p = 0; p < np; p++)
   {
      const PortInfo *i = t->GetPortInfo(p);
      o.i(i->PortAttr); o.i(i->Mesh1); o.i(i->Mesh2); o.i(i->Attr1); o.i(i->Attr2); o.i(t->GetPortType(p));
      infos(t->GetInterfaceInfos(p));
   }
   for (int r = 0; r < nr; r++)
   {
      ComponentTopologyHandler::PortData *d = t->GetPortData(r);
      o.i(d->Component1); o.i(d->Component2); o.i(d->Attr1); o.i(d->Attr2);
      std::map<int, int> vm(d->vtx2to1.begin(), d->vtx2to1.end());
      o.i(vm.size()); for (auto &x : vm) { o.i(x.first); o.i(x.second); }
      std::vector<std::pair<int, int> > be;
      for (int k = 0; k < d->be_pairs.NumRows(); k++) be.push_back({d->be_pairs(k, 0), d->be_pairs(k, 1)});
      std::sort(be.begin(), be.end());
      o.i(be.size()); for (auto &x : be) { o.i(x.first); o.i(x.second); }
      infos(t->GetRefInterfaceInfos(r));
   }
}

} // namespace sim
