// Full-order solutions, described in several ways: C19.
#include "full.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace mfem;
namespace sim {

struct Sol19 { bool ok = false; std::vector<double> v; };
static Sol19 get(Ctx &c, const std::string &disk, const std::string &file)
{
   Sol19 s;
   NodeOut r = run_node(c, "read " + file, disk, NodeOpt(), [&](Out &q)
   {
      pause_faults(true);
      H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
      hid_t h = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      hid_t ds = h < 0 ? -1 : H5Dopen2(h, "solution", H5P_DEFAULT);
      if (ds < 0) { q.i(-1); return; }
      hid_t sp = H5Dget_space(ds); hsize_t n = 0; H5Sget_simple_extent_dims(sp, &n, NULL);
      std::vector<double> v(n);
      if (H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) { q.i(-1); return; }
      q.i(n); q.raw(v.data(), 8 * n);
      H5Sclose(sp); H5Dclose(ds); H5Fclose(h);
   });
   if (!r.ok()) return s;
   In in(r.out);
   long m = in.i();
   if (m < 0) return s;
   s.v.resize(m); in.raw(s.v.data(), 8 * m); s.ok = !in.bad;
   return s;
}
static void put(Ctx &c, const std::string &disk, const std::string &file, const std::vector<double> &v)
{
   NodeOut r = run_node(c, "write " + file, disk, NodeOpt(), [&](Out &)
   {
      pause_faults(true);
      hid_t h = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
      hsize_t n = v.size(); hid_t sp = H5Screate_simple(1, &n, NULL), ds = H5Dcreate2(h, "solution", H5T_NATIVE_DOUBLE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      if (H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) _exit(97);
      H5Dclose(ds); H5Sclose(sp); H5Fclose(h);
   });
   if (!r.ok()) c.violation("harness", "cannot write %s", file.c_str());
}
static double dist(const std::vector<double> &a, const std::vector<double> &b)
{
   if (a.size() != b.size()) return HUGE_VAL;
   double d = 0, n = 0;
   for (size_t k = 0; k < a.size(); k++) { d += (a[k] - b[k]) * (a[k] - b[k]); n += b[k] * b[k]; }
   return n > 0 ? std::sqrt(d / n) : std::sqrt(d);
}

// one way to state the problem, and how its solution is laid out
struct Way
{
   FullCfg f;
   std::string what, sig, tail;   // tail: further input
   std::vector<int> perm;         // block k is block perm[k] of the first statement; empty: by elements
   std::vector<std::vector<int> > el;   // elements (global numbers) of every subdomain
   double tol = 1e-6;
   bool sample = false; int nth = 0;           // by the sample generation
};

static int elem_dofs(const FullCfg &f, bool simplex, int var)
{
   int p = f.order + (f.nvar() == 2 && var == 0 ? 1 : 0);
   return simplex ? (p + 1) * (p + 2) / 2 : (p + 1) * (p + 1);
}
static int vdim(const FullCfg &f, int var) { return f.solver == "linelast" || (f.nvar() == 2 && var == 0) ? 2 : 1; }
// the solution element by element, in the global numbering of the elements. back: the other way round
static bool by_elements(const Way &w, bool simplex, const std::vector<double> &in, std::vector<double> &out, bool back)
{
   int sub = w.f.refine ? 4 : 1;      // every element became four, one after the other
   size_t ne = 0; for (auto &e : w.el) ne += e.size() * sub;
   size_t per = 0; for (int v = 0; v < w.f.nvar(); v++) per += elem_dofs(w.f, simplex, v) * vdim(w.f, v);
   if (in.size() != ne * per) return false;
   out.assign(in.size(), 0.0);
   size_t at = 0;
   for (auto &e : w.el)
   {
      size_t off = 0;
      for (int v = 0; v < w.f.nvar(); v++)
      {
         int nd = elem_dofs(w.f, simplex, v);
         for (int d = 0; d < vdim(w.f, v); d++)
            for (size_t k = 0; k < e.size() * sub; k++)
               for (int q = 0; q < nd; q++, at++)
               {
                  size_t to = (e[k / sub] * sub + k % sub) * per + off + d * nd + q;
                  if (back) out[at] = in[to]; else out[to] = in[at];
               }
         off += nd * vdim(w.f, v);
      }
   }
   return true;
}

struct MeshText { std::vector<std::vector<int> > el, be; std::vector<std::vector<double> > x; };
static MeshText parse_mesh(const std::string &t)
{
   MeshText m; std::istringstream s(t); std::string l; int nv = 0;
   while (std::getline(s, l))
   {
      int n;
      if (l == "elements" || l == "boundary")
      {
         s >> n; auto &e = l == "elements" ? m.el : m.be;
         for (int k = 0; k < n; k++) { int a, g; s >> a >> g; std::vector<int> v{a, g}; int c = g == 1 ? 2 : g == 2 ? 3 : 4; while (c--) { int i; s >> i; v.push_back(i); } e.push_back(v); }
      }
      else if (l == "vertices") s >> nv;
      else if (l == "Ordering: 1") for (int k = 0; k < nv; k++) { std::vector<double> p(2); s >> p[0] >> p[1]; m.x.push_back(p); }
   }
   return m;
}
// the whole domain of an assembly as one mesh; element attributes are the subdomains
static bool glue(const Assembly &a, std::string &text, std::vector<std::vector<int> > &el)
{
   MeshText g;
   for (auto &q : a.cells) if (q.rot) return false;
   std::vector<MeshText> cm; for (auto &k : a.comps) cm.push_back(parse_mesh(k.mesh));
   std::vector<int> v0;
   for (size_t k = 0; k < a.cells.size(); k++)
   {
      const ACell &q = a.cells[k]; const MeshText &m = cm[q.comp];
      std::vector<int> id;
      for (auto &p : m.x)
      {
         std::vector<double> x(2); for (int d = 0; d < 2; d++) x[d] = p[d] + (a.org[d] + q.pos[d] * a.L);
         int at = -1;
         for (size_t j = 0; j < g.x.size() && at < 0; j++) if (std::fabs(g.x[j][0] - x[0]) + std::fabs(g.x[j][1] - x[1]) < 1e-9 * a.L) at = j;
         if (at < 0) { at = g.x.size(); g.x.push_back(x); }
         id.push_back(at);
      }
      std::vector<int> mine;
      for (auto e : m.el) { e[0] = k + 1; for (size_t t = 2; t < e.size(); t++) e[t] = id[e[t]]; mine.push_back(g.el.size()); g.el.push_back(e); }
      el.push_back(mine);
      for (auto b : m.be)
      {
         int ga = 0; for (auto &r : a.bdr) if (r.m == (int)k && r.a == b[0]) ga = r.g;
         if (!ga)
         {
            bool inside = false; for (auto &i : a.ifs) inside |= (i.m1 == (int)k && i.a1 == b[0]) || (i.m2 == (int)k && i.a2 == b[0]);
            if (!inside) return false;
            continue;
         }
         b[0] = ga; for (size_t t = 2; t < b.size(); t++) b[t] = id[b[t]]; g.be.push_back(b);
      }
   }
   text = fmt("MFEM mesh v1.0\n\ndimension\n2\n\nelements\n%zu\n", g.el.size());
   for (auto &e : g.el) { for (size_t t = 0; t < e.size(); t++) text += (t ? " " : "") + std::to_string(e[t]); text += "\n"; }
   text += fmt("\nboundary\n%zu\n", g.be.size());
   for (auto &e : g.be) { for (size_t t = 0; t < e.size(); t++) text += (t ? " " : "") + std::to_string(e[t]); text += "\n"; }
   text += fmt("\nvertices\n%zu\n\nnodes\nFiniteElementSpace\nFiniteElementCollection: H1_2D_P1\nVDim: 2\nOrdering: 1\n\n", g.x.size());
   for (auto &p : g.x) text += fmt("%.17g %.17g\n", p[0], p[1]);
   return true;
}
// the same mesh with other element attributes
static std::string with_attributes(const std::string &t, const std::vector<int> &attr)
{
   std::istringstream s(t); std::string l, o;
   int left = -1; size_t k = 0;
   while (std::getline(s, l))
   {
      if (left > 0) { size_t sp = l.find(' '); o += std::to_string(attr[k++]) + l.substr(sp) + "\n"; left--; continue; }
      o += l + "\n";
      if (l == "elements") { std::getline(s, l); o += l + "\n"; left = std::stoi(l); }
   }
   return o;
}
static bool no_solution(const FullCfg &f, const std::string &con)
{
   for (const char *m : {"matrix is singular", "blew up", "cannot ensure incompressibility"}) if (con.find(m) != std::string::npos) return true;
   if (!f.direct || f.solver == "steady-ns") for (const char *m : {"fails to converge", "failed to converge", "No convergence!"}) if (con.find(m) != std::string::npos) return true;
   return false;
}

// the equations of the problem tested with every function of the space, on the undivided mesh: interior penalty terms where the space is discontinuous,
// written here without an integrator or form of MFEM or scaleupROM. Gives the largest residual and the largest sum of absolute terms. In a node
static void residual(const FullCfg &f, const std::string &yaml, const std::string &mesh_text, const std::vector<std::vector<int> > &el, double kappa, double sign,
                     bool lf, double zeta, const std::vector<double> &sol, const std::vector<double> &carrier, double dt, double tlin, double time, Out &o)
{
   config.dict_ = YAML::Load(yaml);
   MultiBlockSolver *s = InitSolver(); s->InitVariables();
   ParameterizedProblem *p = InitParameterizedProblem();
   p->SetSingleRun();
   namespace fp = function_factory::flow_problem;
   bool flow = f.nvar() == 2, solid = f.solver == "linelast";
   if (flow) { fp::del_u = 0.0; fp::x0.SetSize(2); fp::x0 = 0.0; }
   std::istringstream is(mesh_text);
   Mesh mesh(is);
   for (int k = 0; k < f.refine; k++) mesh.UniformRefinement();
   const int nc = flow || solid ? 2 : 1, uo = flow ? f.order + 1 : f.order, sub = f.refine ? 4 : 1;
   const double nu = flow ? f.params.at("nu") : 1.0;
   std::unique_ptr<FiniteElementCollection> uc, pc;
   if (f.full_dg) { uc.reset(new DG_FECollection(uo, 2, solid ? BasisType::GaussLobatto : BasisType::GaussLegendre)); pc.reset(new DG_FECollection(f.order, 2)); }
   else { uc.reset(new H1_FECollection(uo, 2)); pc.reset(new H1_FECollection(f.order, 2)); }
   int ne = mesh.GetNE();
   const FiniteElement *ue = uc->FiniteElementForGeometry(mesh.GetElementBaseGeometry(0)), *pe = pc->FiniteElementForGeometry(mesh.GetElementBaseGeometry(0));
   const int nu_ = ue->GetDof(), np_ = pe->GetDof();
   // places of the values of every element in the solution
   std::vector<int> dom(ne, -1); std::vector<std::vector<int> > ui(ne), pi(ne);
   int base = 0;
   for (size_t m = 0; m < el.size(); m++)
   {
      Mesh *sm = s->GetMesh(m);
      if (sm->GetNE() != (int)el[m].size() * sub) { o.i(-1); return; }
      FiniteElementSpace us(sm, uc.get(), nc), ps(sm, pc.get());
      for (int k = 0; k < sm->GetNE(); k++)
      {
         int e = el[m][k / sub] * sub + k % sub;
         Array<int> d; us.GetElementVDofs(k, d);
         for (int x : d) ui[e].push_back(base + x);
         if (flow) { ps.GetElementDofs(k, d); for (int x : d) pi[e].push_back(base + us.GetVSize() + x); }
         dom[e] = m;
      }
      base += us.GetVSize() + (flow ? ps.GetVSize() : 0);
   }
   if ((size_t)base != sol.size() || (dt > 0 && carrier.size() != sol.size())) { o.i(-1); return; }
   // the flow that carries the solution of an advection-diffusion problem
   double pe_num = 0; std::vector<std::vector<int> > vi(ne);
   H1_FECollection vc(f.order + 1, 2), qc(f.order, 2);
   const FiniteElement *ve = vc.FiniteElementForGeometry(mesh.GetElementBaseGeometry(0));
   const int nv_ = ve->GetDof();
   if (f.solver == "adv-diff")
   {
      sscanf(f.more.c_str() + f.more.find("peclet_number:"), "peclet_number: %lf", &pe_num);
      int b2 = 0;
      for (size_t m = 0; m < el.size(); m++)
      {
         FiniteElementSpace us(s->GetMesh(m), &vc, 2), ps(s->GetMesh(m), &qc);
         for (int k = 0; k < s->GetMesh(m)->GetNE(); k++) { Array<int> d; us.GetElementVDofs(k, d); for (int x : d) vi[el[m][k / sub] * sub + k % sub].push_back(b2 + x); }
         b2 += us.GetVSize() + ps.GetVSize();
      }
      if ((size_t)b2 != carrier.size()) { o.i(-2); return; }
   }
   std::vector<double> F(base, 0.0), S(base, 0.0);
   auto add = [&](int at, double v) { F[at] += v; S[at] += std::fabs(v); };
   struct Side { int e; double la = 0, mu = 0; Vector sh, ps; DenseMatrix ds; double u[2] = {0, 0}, g[2][2] = {{0, 0}, {0, 0}}, p = 0; };
   const std::vector<double> &conv = dt > 0 ? carrier : sol;   // convection is taken from the previous time step
   auto eval = [&](Side &q, int e, ElementTransformation &T, const IntegrationPoint &ip, const std::vector<double> &sol)
   {
      q.e = e; q.sh.SetSize(nu_); q.ds.SetSize(nu_, 2); q.ps.SetSize(np_);
      T.SetIntPoint(&ip); ue->CalcPhysShape(T, q.sh); ue->CalcPhysDShape(T, q.ds);
      for (int c = 0; c < nc; c++) for (int k = 0; k < nu_; k++)
      {
         double x = sol[ui[e][c * nu_ + k]];
         q.u[c] += x * q.sh(k); for (int d = 0; d < 2; d++) q.g[c][d] += x * q.ds(k, d);
      }
      if (solid) { Vector x(2); T.Transform(ip, x); q.la = p->general_scalar_ptr[0](x, 0.0); q.mu = p->general_scalar_ptr[1](x, 0.0); }
      if (flow) { pe->CalcPhysShape(T, q.ps); for (int k = 0; k < np_; k++) q.p += sol[pi[e][k]] * q.ps(k); }
   };
   // component c of the stress of the solution in direction d, and of test function k of component a
   auto stress = [&](const Side &q, int c, int d) { return solid ? q.la * (c == d) * (q.g[0][0] + q.g[1][1]) + q.mu * (q.g[c][d] + q.g[d][c]) : nu * q.g[c][d]; };
   auto tstress = [&](const Side &q, int a, int k, int c, int d)
   {
      if (!solid) return a == c ? nu * q.ds(k, d) : 0.0;
      return q.la * (c == d) * q.ds(k, a) + q.mu * ((a == c) * q.ds(k, d) + (a == d) * q.ds(k, c));
   };
   int ord = 2 * uo + 2, nlo = (int)std::ceil(1.5 * (2 * uo - 1));
   auto source = [&](ElementTransformation &T, const IntegrationPoint &ip, double *y)
   {
      y[0] = y[1] = 0; Vector v(2); Vector x(2); T.Transform(ip, x);
      if (nc == 2) { if (p->vector_rhs_ptr) { p->vector_rhs_ptr(x, 0.0, v); y[0] = v(0); y[1] = v(1); } }
      else if (p->scalar_rhs_ptr) y[0] = p->scalar_rhs_ptr(x, 0.0);
   };
   for (int e = 0; e < ne; e++)
   {
      ElementTransformation &T = *mesh.GetElementTransformation(e);
      for (int pass = 0; pass < 6; pass++)   // viscous terms, the source, convection, the divergence: each by the quadrature it has by default
      {
         const IntegrationRule &ir = pass == 0 ? (solid ? IntRules.Get(ue->GetGeomType(), 2 * T.OrderGrad(ue)) : DiffusionIntegrator::GetRule(*ue, *ue)) : IntRules.Get(ue->GetGeomType(), pass == 1 ? 2 * uo : pass == 2 ? nlo : pass == 3 ? ord : pass == 4 ? T.OrderGrad(ue) + T.Order() + uo : 2 * uo + T.OrderW());
         if ((pass == 2 && !(zeta != 0)) || (pass == 3 && !flow) || (pass == 4 && !(pe_num != 0)) || (pass == 5 && !(dt > 0))) continue;
         for (int i = 0; i < ir.GetNPoints(); i++)
         {
            const IntegrationPoint &ip = ir.IntPoint(i); T.SetIntPoint(&ip);
            double w = ip.weight * T.Weight();
            Side q, q1; eval(q, e, T, ip, pass == 2 ? conv : sol);
            if (pass == 5) eval(q1, e, T, ip, conv);
            double b[2] = {0, 0}; if (pass == 1) source(T, ip, b);
            if (pass == 4) { Vector sh(nv_); ve->CalcPhysShape(T, sh); for (int c = 0; c < 2; c++) for (int k = 0; k < nv_; k++) b[c] += carrier[vi[e][c * nv_ + k]] * sh(k); }
            for (int c = 0; c < nc; c++) for (int k = 0; k < nu_; k++)
            {
               int at = ui[e][c * nu_ + k];
               if (pass == 0) { for (int d = 0; d < 2; d++) add(at, w * stress(q, c, d) * q.ds(k, d)); }
               else if (pass == 5) { add(at, w / dt * q.u[c] * q.sh(k)); add(at, -w / dt * q1.u[c] * q.sh(k)); }
               else if (pass == 4) add(at, w * pe_num * (b[0] * q.g[0][0] + b[1] * q.g[0][1]) * q.sh(k));
               else if (pass == 3) add(at, -w * q.p * q.ds(k, c));
               else if (pass == 1) add(at, -w * b[c] * q.sh(k));
               else for (int d = 0; d < 2; d++) add(at, lf ? -w * zeta * q.u[c] * q.u[d] * q.ds(k, d) : w * zeta * q.u[d] * q.g[c][d] * q.sh(k));
            }
            if (pass == 3) for (int k = 0; k < np_; k++) add(pi[e][k], -w * q.ps(k) * (q.g[0][0] + q.g[1][1]));
         }
      }
   }
   auto flux = [&](const double *a, const double *b, const Vector &n, double *y)
   {
      double an = a[0] * n(0) + a[1] * n(1), bn = b[0] * n(0) + b[1] * n(1), up = std::max(std::hypot(a[0], a[1]), std::hypot(b[0], b[1])) * n.Norml2();
      for (int c = 0; c < 2; c++) y[c] = 0.5 * (an * a[c] + bn * b[c]) + up * (a[c] - b[c]);
   };
   for (int fc = 0; fc < mesh.GetNumFaces(); fc++)
   {
      FaceElementTransformations *T = mesh.GetInteriorFaceTransformations(fc);
      if (!T || (!f.full_dg && dom[T->Elem1No] == dom[T->Elem2No])) continue;
      for (int pass = 0; pass < 2; pass++)
      {
         if (pass == 1 && !(lf && zeta != 0)) continue;
         const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), pass ? nlo : 2 * uo);
         for (int i = 0; i < ir.GetNPoints(); i++)
         {
            const IntegrationPoint &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip);
            Vector n(2); CalcOrtho(T->Jacobian(), n);
            double w = ip.weight;
            IntegrationPoint i1 = T->GetElement1IntPoint(), i2 = T->GetElement2IntPoint();
            Side q[2]; eval(q[0], T->Elem1No, *T->Elem1, i1, pass ? conv : sol); eval(q[1], T->Elem2No, *T->Elem2, i2, pass ? conv : sol);
            auto pen = [&](const Side &a) { return solid ? a.la + 2 * a.mu : nu; };
            double h = kappa * w * (n * n) * 0.5 * (pen(q[0]) / T->Elem1->Weight() + pen(q[1]) / T->Elem2->Weight()), y[2];
            if (pass) flux(q[0].u, q[1].u, n, y);
            for (int sd = 0; sd < 2; sd++) for (int c = 0; c < nc; c++)
            {
               double sg = sd ? -1 : 1, J = q[0].u[c] - q[1].u[c], D = 0;
               for (int d = 0; d < 2; d++) D += 0.5 * w * (stress(q[0], c, d) + stress(q[1], c, d)) * n(d);
               for (int k = 0; k < nu_; k++)
               {
                  int at = ui[q[sd].e][c * nu_ + k];
                  if (pass) { add(at, zeta * w * sg * y[c] * q[sd].sh(k)); continue; }
                  for (int a = 0; a < nc; a++) for (int d = 0; d < 2; d++) add(at, sign * 0.5 * w * tstress(q[sd], c, k, a, d) * n(d) * (q[0].u[a] - q[1].u[a]));
                  add(at, -D * sg * q[sd].sh(k)); add(at, h * J * sg * q[sd].sh(k));
                  if (flow) add(at, 0.5 * w * (q[0].p + q[1].p) * n(c) * sg * q[sd].sh(k));
               }
               if (flow && !pass) for (int k = 0; k < np_; k++) add(pi[q[sd].e][k], 0.5 * w * q[sd].ps(k) * J * n(c));
            }
         }
      }
   }
   for (int be = 0; be < mesh.GetNBE(); be++)
   {
      FaceElementTransformations *T = mesh.GetBdrFaceTransformations(be);
      if (!T) { o.i(-1); return; }
      int at0 = mesh.GetBdrAttribute(be), hit = -1;
      for (int k = 0; k < p->battr.Size(); k++) if (p->battr[k] == at0 || p->battr[k] < 0) hit = k;
      bool zero = hit >= 0 && p->bdr_type[hit] == BoundaryType::ZERO, nat = hit < 0 || p->bdr_type[hit] == BoundaryType::NEUMANN || (solid && zero);
      bool traction = solid && hit >= 0 && p->bdr_type[hit] == BoundaryType::NEUMANN && p->vector_bdr_ptr[hit];
      auto data = [&](const IntegrationPoint &ip, double t, double *y)
      {
         y[0] = y[1] = 0; if (zero) return;
         Vector x(2), v(2); T->Elem1->Transform(ip, x);
         if (nc == 2) { p->vector_bdr_ptr[hit](x, t, v); y[0] = v(0); y[1] = v(1); } else y[0] = p->scalar_bdr_ptr[hit](x, 0.0);
      };
      for (int pass = 0; pass < 4; pass++)   // the operator, the data, the data of the divergence, convection
      {
         if ((pass < 3 && nat && !(pass == 1 && traction)) || (pass == 2 && !flow) || (pass == 3 && !(lf && zeta != 0))) continue;
         const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), pass == 0 ? 2 * uo : pass == 1 ? 2 * uo : pass == 2 ? 2 * f.order : nlo);
         for (int i = 0; i < ir.GetNPoints(); i++)
         {
            const IntegrationPoint &ip = ir.IntPoint(i); T->SetAllIntPoints(&ip);
            Vector n(2); CalcOrtho(T->Jacobian(), n);
            double w = ip.weight, ud[2] = {0, 0}, y[2] = {0, 0};
            IntegrationPoint i1 = T->GetElement1IntPoint();
            Side q; eval(q, T->Elem1No, *T->Elem1, i1, pass == 3 ? conv : sol);
            double h = kappa * (solid ? q.la + 2 * q.mu : nu) * w * (n * n) / T->Elem1->Weight();
            if (pass && (!nat || traction)) data(i1, pass == 3 ? time : tlin, ud);
            if (traction) { double a = n.Norml2(); for (int c = 0; c < 2; c++) for (int k = 0; k < nu_; k++) add(ui[q.e][c * nu_ + k], -w * a * ud[c] * q.sh(k)); continue; }
            if (pass == 3) { if (nat) { double un = q.u[0] * n(0) + q.u[1] * n(1); y[0] = un * q.u[0]; y[1] = un * q.u[1]; } else flux(q.u, ud, n, y); }
            for (int c = 0; c < nc; c++)
            {
               double J = pass ? -ud[c] : q.u[c];
               for (int k = 0; k < nu_ && pass != 2; k++)
               {
                  int at = ui[q.e][c * nu_ + k];
                  if (pass == 3) { add(at, zeta * w * y[c] * q.sh(k)); continue; }
                  if (!pass) { for (int d = 0; d < 2; d++) add(at, -w * stress(q, c, d) * n(d) * q.sh(k)); if (flow) add(at, w * q.p * n(c) * q.sh(k)); }
                  for (int a = 0; a < nc; a++) for (int d = 0; d < 2; d++) add(at, sign * w * tstress(q, c, k, a, d) * n(d) * (pass ? -ud[a] : q.u[a]));
                  add(at, h * J * q.sh(k));
               }
               if (flow && (pass == 0 || pass == 2)) for (int k = 0; k < np_; k++) add(pi[q.e][k], w * q.ps(k) * J * n(c));
            }
         }
      }
   }
   double r = 0, top = 0; for (int k = 0; k < base; k++) { r = std::max(r, std::fabs(F[k])); top = std::max(top, S[k]); }
   o.i(1); o.d(r); o.d(top);
}
// the interior penalty discretisation of the problem on the undivided mesh, made of MFEM's own integrators. In a node
static void reference(const FullCfg &f, const std::string &yaml, const std::string &mesh_text, double kappa, double sign, Out &o)
{
   config.dict_ = YAML::Load(yaml);
   ParameterizedProblem *p = InitParameterizedProblem();
   p->SetSingleRun();
   std::istringstream is(mesh_text);
   Mesh mesh(is);
   for (int k = 0; k < f.refine; k++) mesh.UniformRefinement();
   bool solid = f.solver == "linelast";
   DG_FECollection fec(f.order, 2, solid ? BasisType::GaussLobatto : BasisType::GaussLegendre);
   FiniteElementSpace fes(&mesh, &fec, solid ? 2 : 1);
   if (fes.GetTrueVSize() > 700) { o.i(-1); return; }
   BilinearForm a(&fes); LinearForm b(&fes);
   std::unique_ptr<FunctionCoefficient> la, mu;
   if (solid)
   {
      la.reset(new FunctionCoefficient(p->general_scalar_ptr[0])); mu.reset(new FunctionCoefficient(p->general_scalar_ptr[1]));
      a.AddDomainIntegrator(new ElasticityIntegrator(*la, *mu));
      a.AddInteriorFaceIntegrator(new DGElasticityIntegrator(*la, *mu, sign, kappa));
      if (p->vector_rhs_ptr) b.AddDomainIntegrator(new VectorDomainLFIntegrator(*new VectorFunctionCoefficient(2, p->vector_rhs_ptr)));
   }
   else
   {
      a.AddDomainIntegrator(new DiffusionIntegrator);
      a.AddInteriorFaceIntegrator(new DGDiffusionIntegrator(sign, kappa));
      if (p->scalar_rhs_ptr) b.AddDomainIntegrator(new DomainLFIntegrator(*new FunctionCoefficient(p->scalar_rhs_ptr)));
   }
   for (int k = 0; k < p->battr.Size(); k++)
   {
      Array<int> &m = *new Array<int>(mesh.bdr_attributes.Max());
      m = p->battr[k] < 0 ? 1 : 0;
      if (p->battr[k] >= 0) { if (p->battr[k] > m.Size()) continue; m[p->battr[k] - 1] = 1; }
      if (!solid)
      {
         if (p->bdr_type[k] == BoundaryType::NEUMANN) continue;
         Coefficient *g = p->bdr_type[k] == BoundaryType::DIRICHLET ? (Coefficient *)new FunctionCoefficient(p->scalar_bdr_ptr[k]) : new ConstantCoefficient(0.0);
         a.AddBdrFaceIntegrator(new DGDiffusionIntegrator(sign, kappa), m);
         b.AddBdrFaceIntegrator(new DGDirichletLFIntegrator(*g, sign, kappa), m);
      }
      else if (p->vector_bdr_ptr[k])
      {
         VectorCoefficient *g = new VectorFunctionCoefficient(2, p->vector_bdr_ptr[k]);
         if (p->bdr_type[k] == BoundaryType::DIRICHLET)
         {
            a.AddBdrFaceIntegrator(new DGElasticityIntegrator(*la, *mu, sign, kappa), m);
            b.AddBdrFaceIntegrator(new DGElasticityDirichletLFIntegrator(*g, *la, *mu, sign, kappa), m);
         }
         else if (p->bdr_type[k] == BoundaryType::NEUMANN) b.AddBdrFaceIntegrator(new VectorBoundaryLFIntegrator(*g), m);
      }
   }
   a.Assemble(); a.Finalize(); b.Assemble();
   DenseMatrix *d = a.SpMat().ToDenseMatrix();
   DenseMatrixInverse inv(*d);
   Vector x(b.Size()); inv.Mult(b, x);
   o.i(x.Size()); o.raw(x.GetData(), 8 * x.Size());
}

static void ways(Ctx &c)
{
   static const std::vector<std::string> kinds = {"poisson", "poisson", "linelast", "stokes", "steady-ns", "unsteady-ns", "adv-diff"};
   Way b; b.f = draw_full(c, kinds, 2, 4, 2, false, 3);
   FullCfg &f = b.f;
   f.refine = f.o.refine = f.lib.dim == 2 && (f.nvar() == 1 || (f.lib.n == 1 && !f.sub)) && c.flip(1, 4); f.separate = false; f.direct = true; f.print_level = 0;
   if ((f.nvar() > 1 || f.solver == "adv-diff") && !f.connected()) { c.counters["disconnected-flow"]++; return; }
   int nt = 0; double dt = 0;
   if (f.solver == "unsteady-ns") { nt = 1 + c.choose(3); dt = 0.01 * (1 + c.choose(5)); f.more += fmt("navier-stokes:\n  operator-type: lf\ntime-integration:\n  number_of_timesteps: %d\n  timestep_size: %.17g\n", nt, dt); }
   bool lf = f.solver == "unsteady-ns"; double zeta = lf || f.solver == "steady-ns" ? 1.0 : 0.0;
   if (f.solver == "steady-ns" && c.flip(2, 3)) { lf = c.flip(2, 3); zeta = 0.5 * (1 + c.choose(4)); f.more += fmt("navier-stokes:\n  operator-type: %s\n  zeta: %.17g\n", lf ? "lf" : "base", zeta); }
   bool cavity = f.solver == "stokes" && !f.sub && c.flip(1, 3);
   if (cavity)
   {
      enclose(c, f); f.direct = false; f.full_dg = false; f.amg = c.flip(1, 2);
      f.solver_opt = "  relative_tolerance: 1.0e-10\n  absolute_tolerance: 1.0e-16\n  max_iter: 10000\n";
      b.tol = 1e-5;
   }
   if (f.solver == "steady-ns") f.solver_opt = "  max_iter: 20\n";
   int q = f.order + (f.solver == "adv-diff" || f.nvar() == 2); // (the flow is one order higher)
   double kappa = (q + 1) * (q + 1), sign = -1;
   if (f.nvar() == 1 && c.flip(1, 4))
   {
      kappa *= 1 + c.choose(3); sign = c.flip(1, 2) ? (double)c.choose(2) : -1;
      f.disc = fmt("  interface:\n    kappa: %.17g\n    %s: %.17g\n", kappa, f.solver == "linelast" ? "alpha" : "sigma", sign);
   }
   std::string d = c.disk("disk");
   mkdir((d + "/out").c_str(), 0755);
   std::vector<std::string> mt;
   bool simplex = false, mixed = false;
   if (!f.sub) { simplex = f.a.comps[0].simplex; for (auto &k : f.a.comps) mixed |= k.simplex != simplex; }
   // elements of every subdomain
   std::vector<int> attr; 
   if (f.sub)
   {
      MeshText m = parse_mesh(f.mesh_text);
      simplex = m.el[0][1] == 2;
      for (auto &e : m.el) attr.push_back(e[0]);
      b.el.resize(f.nodd ? 1 : *std::max_element(attr.begin(), attr.end()));
      for (size_t k = 0; k < attr.size(); k++) b.el[f.nodd ? 0 : attr[k] - 1].push_back(k);
   }
   // the other statements of the problem
   std::vector<Way> other;
   {
      Way w = b; w.what = "the same input again"; w.sig = "run-differs"; w.tol = f.solver == "steady-ns" ? 1e-6 : 1e-9;
      for (size_t k = 0; k < f.a.cells.size(); k++) w.perm.push_back(k);
      if (c.flip(1, 4)) other.push_back(w);
      if (c.flip(1, 4))
      {
         w.sample = true; w.what = "the sample generation"; w.sig = "sample-differs"; w.tol = b.tol;
         auto qi = f.params.begin();
         while (std::next(qi) != f.params.end() && std::find(f.fixed.begin(), f.fixed.end(), qi->first) != f.fixed.end()) ++qi;
         auto &q = *qi;
         bool after = c.flip(2, 3) && std::find(f.fixed.begin(), f.fixed.end(), q.first) == f.fixed.end();   // the problem is the second sample of its run
         w.nth = after;
         if (after) w.what += ", after another sample";
         w.tail = "sample_generation:\n  type: base\n  maximum_number_of_snapshots: 100\n  file_path:\n    directory: out\n    prefix: gen\n  parameters:\n    - key: single_run/" + f.problem + "/" + q.first + fmt("\n      type: double\n      sample_size: %d\n      minimum: %.17g\n      maximum: %.17g\n", 1 + w.nth, after ? q.second / 2 : q.second, q.second);
         if (f.solver == "unsteady-ns") w.tail += "  time-integration:\n    sample_interval: 1\n    bootstrap: 0\n";
         other.push_back(w);
         w.sample = false; w.nth = 0; w.tail.clear();
      }
      if (c.flip(1, 3) && sign < 0)
      {
         w.f.direct = false; w.f.amg = c.flip(1, 2); w.what = std::string("an iterative solver") + (w.f.amg ? " with algebraic multigrid" : ""); w.sig = "solver-differs"; w.tol = f.solver == "steady-ns" ? 1e-4 : 1e-5;
         w.f.solver_opt = f.solver == "steady-ns" ? "  relative_tolerance: 1.0e-8\n  absolute_tolerance: 1.0e-10\n  max_iter: 20\n  jacobian:\n    max_iter: 2000\n    relative_tolerance: 1.0e-8\n" : "  relative_tolerance: 1.0e-13\n  absolute_tolerance: 1.0e-16\n  max_iter: 10000\n";
         other.push_back(w);
      }
   }
   if (!f.sub && c.flip(2, 3))
   {
      Way w = b; w.sig = "numbering-differs"; w.what = "other numbers of the subdomains and ports";
      w.f.a = renumber(c, f.a, w.perm);
      bool upright = true; for (auto &q : f.a.cells) upright &= q.rot == 0;
      if (upright && c.flip(1, 2))
      {  // some ports the other way round
         std::vector<bool> turn(f.a.refs.size());
         for (size_t k = 0; k < turn.size(); k++)
         {
            ARef &r = w.f.a.refs[k];
            turn[k] = c.flip(1, 2);
            for (size_t j = 0; j < turn.size(); j++) { const ARef &o = w.f.a.refs[j]; if (o.c1 == r.c2 && o.c2 == r.c1 && o.a1 == r.a2 && o.a2 == r.a1) turn[k] = false; }
            if (!turn[k]) continue;
            std::swap(r.c1, r.c2); std::swap(r.a1, r.a2);
            for (int t = 0; t < 3; t++) r.conf[t] = -r.conf[t];
            r.name = "port_" + w.f.a.key(k); for (auto &ch : r.name) if (ch == ':') ch = '+';
         }
         for (auto &i : w.f.a.ifs) if (turn[i.type]) { std::swap(i.m1, i.m2); std::swap(i.a1, i.a2); }
         w.what += ", ports turned round";
      }
      w.f.o = plain_opt(w.f.a); w.f.o.refine = f.o.refine; w.f.o.global = fmt("global%zu.h5", other.size());
      other.push_back(w);
   }
   bool byel = f.full_dg && f.lib.dim == 2 && !mixed && f.solver != "adv-diff";
   if (f.sub && c.flip(1, 2))
   {
      Way w = b; w.sig = "numbering-differs"; w.what = "other numbers of the subdomains"; w.f.mesh_file = "renumbered.mesh";
      int n = b.el.size(); w.perm = shuffled(c, n);
      std::vector<int> at = attr; for (int &x : at) { int k = 0; while (w.perm[k] != x - 1 && !f.nodd) k++; x = f.nodd ? 1 : k + 1; }
      w.f.mesh_text = with_attributes(f.mesh_text, at);
      other.push_back(w);
   }
   if (f.sub && byel && c.flip(2, 3))
   {
      Way w = b; w.sig = "division-differs"; w.f.mesh_file = "divided.mesh"; w.f.nodd = c.flip(1, 4);
      int n = 1 + c.choose(std::min<size_t>(attr.size(), 5));
      std::vector<int> at(attr.size());
      for (size_t k = 0; k < at.size(); k++) at[k] = k < (size_t)n ? (int)k + 1 : 1 + (int)c.choose(n);
      for (size_t k = at.size(); k > 1; k--) std::swap(at[k - 1], at[c.choose(k)]);
      w.what = fmt("another division of the domain (%d subdomains%s)", n, w.f.nodd ? ", not decomposed" : "");
      w.el.assign(w.f.nodd ? 1 : n, std::vector<int>());
      for (size_t k = 0; k < at.size(); k++) w.el[w.f.nodd ? 0 : at[k] - 1].push_back(k);
      w.f.mesh_text = with_attributes(f.mesh_text, at);
      other.push_back(w);
   }
   if (!f.sub && byel && c.flip(2, 3))
   {
      Way w = b; w.sig = "division-differs"; w.what = "one decomposed mesh instead of components"; w.f.sub = true; w.f.mesh_file = "glued.mesh"; w.f.nodd = c.flip(1, 4);
      std::vector<std::vector<int> > el;
      if (glue(f.a, w.f.mesh_text, el))
      {
         b.el = el; w.el = el;
         if (w.f.nodd) { w.what += ", not decomposed"; std::vector<int> all; for (auto &e : el) all.insert(all.end(), e.begin(), e.end()); w.el.assign(1, all); }
         other.push_back(w);
      }
   }
   // the discretisation itself
   std::string whole;
   bool tested = f.lib.dim == 2 && !mixed && !cavity && c.flip(1, 2);
   if (tested || (byel && f.nvar() == 1 && c.flip(1, 2)))
   {
      std::vector<std::vector<int> > el;
      if (f.sub) whole = f.mesh_text; else if (!glue(f.a, whole, el)) whole.clear();
      if (!f.sub && !whole.empty()) b.el = el;
   }
   if (other.empty() && whole.empty()) { c.counters["no-other-statement"]++; return; }
   put_full(c, f, d);
   c.note("%s", f.str().c_str());
   c.cov(f.str());
   auto input = [&](const Way &w, const std::string &sol, const std::string &start)
   {
      FullCfg g = w.f;
      if (!start.empty()) g.solver_opt += "  use_restart: true\n  restart_file: " + start + "\n";
      g.more += "save_solution:\n  enabled: true\n  file_path:\n    directory: out\n    prefix: " + sol + "\n" + w.tail;
      return g.yaml();
   };
   auto solve = [&](const std::string &y, bool sample)
   {
      config.dict_ = YAML::Load(y);
      if (sample) GenerateSamples(MPI_COMM_WORLD); else SingleRun(MPI_COMM_WORLD, "");
   };
   NodeOpt o; o.cpu_s = 60; draw_benign(c, o.plan);
   std::string y0 = input(b, "sol", "");
   if (tested && f.solver == "adv-diff") { size_t at = y0.find("  peclet_number:"); if (at == std::string::npos) c.violation("harness", "no Peclet number"); y0.insert(at, "  save_flow: true\n  flow_file: out/flow.h5\n"); }
   if (tested && f.solver == "unsteady-ns") { size_t at = y0.find("save_solution:\n"); if (at == std::string::npos) c.violation("harness", "no solution file"); y0.insert(at + 15, "  restart_interval: 1\n"); }
   NodeOut r = run_node(c, "solve", d, o, [&](Out &) { solve(y0, false); });
   if (no_solution(f, r.console)) { c.counters["no-unique-solution:" + f.solver + (cavity ? " enclosed" : "")]++; return; }
   if (!r.ok()) c.violation("solve-failed", "solving failed without a fault: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(r.console.size() > 300 ? r.console.size() - 300 : 0).c_str());
   Sol19 s0 = get(c, d, "out/sol.h5");
   if (!s0.ok) c.violation("solution-unreadable", "the solution file of a completed run cannot be read");
   double top = 0; for (double x : s0.v) { if (!std::isfinite(x)) top = HUGE_VAL; top = std::max(top, std::fabs(x)); }
   if (!(top < 1e8)) { c.counters["no-unique-solution"]++; return; }
   if (top < (cavity ? 1e-3 : 1e-8)) {   // the correction of the flux may leave no flow at all
      c.counters["zero-solution"]++; return; }
   if (!whole.empty() && tested)
   {
      Sol19 fl; if (f.solver == "adv-diff") { fl = get(c, d, "out/flow.h5"); if (!fl.ok) c.violation("solution-unreadable", "the flow file of a completed run cannot be read"); }
      if (nt) { fl = get(c, d, fmt("out/sol_%08d.h5", nt - 1)); if (!fl.ok) c.violation("solution-unreadable", "the file of the last but one time step of a completed run cannot be read"); }
      double tn = nt ? (nt - 1) * dt : 0.0, r = 0, scale = 1;
      auto test = [&](double tlin, double tconv)
      {
         NodeOut q = run_node(c, "residual", d, NodeOpt(), [&](Out &o2) { pause_faults(true); residual(f, y0, whole, b.el, f.solver == "adv-diff" && f.disc.empty() ? (f.order + 1.0) * (f.order + 1) : kappa, sign, lf, zeta, s0.v, fl.v, dt, tlin, tconv, o2); });
         if (!q.ok()) c.violation("harness", "no residual: %s (%s) %s", q.name(), q.how.c_str(), q.console.substr(q.console.size() > 300 ? q.console.size() - 300 : 0).c_str());
         In in(q.out); long ok = in.i(); r = in.d(); scale = in.d();
         if (ok != 1) c.violation("layout", "the solution has another layout than the meshes");
         return r <= 1e-4 * scale;
      };
      // the data of a time step may be taken at its begin or at its end; anything else is another problem
      bool fine = test(tn, tn);
      if (!fine && nt) { double r0 = r, s0_ = scale; fine = test(tn + dt, tn) || test(tn + dt, tn + dt); if (!fine && nt > 1 && test(0.0, tn)) c.violation("boundary-data-frozen", "step %d of a flow with time-dependent boundary data uses the boundary data of time 0 in the viscous terms and the mass balance (residual %g, terms of size %g)", nt, r0, s0_); if (!fine) { r = r0; scale = s0_; } }
      c.nontrivial = true;
      c.counters["residual:" + f.solver + (f.full_dg ? " dg" : "") + fmt(":1e%d", r > 0 ? (int)std::ceil(std::log10(r / scale)) : -99)]++;
      if (!fine) c.violation("residual", "the full-order solution does not satisfy the discretised equations: residual %g, terms of size %g", r, scale);
   }
   if (!whole.empty() && byel && f.nvar() == 1)
   {
      NodeOut q = run_node(c, "reference", d, NodeOpt(), [&](Out &o2) { pause_faults(true); reference(f, y0, whole, kappa, sign, o2); });
      if (!q.ok()) { if (q.console.find("singular") == std::string::npos) c.violation("harness", "no reference: %s", q.console.substr(q.console.size() > 300 ? q.console.size() - 300 : 0).c_str()); return; }
      In in(q.out); long m = in.i();
      if (m > 0)
      {
         std::vector<double> v(m), r1, s1; in.raw(v.data(), 8 * m);
         Way w = b; w.el.assign(1, {}); int ne = 0; for (auto &e : b.el) ne += e.size();
         for (int k = 0; k < ne; k++) w.el[0].push_back(k);
         if (!by_elements(w, simplex, v, r1, false) || !by_elements(b, simplex, s0.v, s1, false)) c.violation("layout", "the solution has another layout than the meshes");
         double e = dist(s1, r1);
         c.nontrivial = true;
         c.counters["reference:" + f.solver + fmt(":1e%d", e > 0 ? (int)std::ceil(std::log10(e)) : -99)]++;
         if (!(e <= 1e-6)) c.violation("reference-differs", "the full-order solution differs by %g from the discretisation of the problem on the undivided domain", e);
      }
   }
   // sizes of the blocks: every subdomain has the size of its component
   auto moved = [&](const Way &w, const std::vector<double> &in, std::vector<double> &out, bool back)
   {
      if (!w.perm.empty())
      {  // block k of the other is block perm[k] of the first
         size_t n = w.perm.size();
         std::vector<size_t> size(n), at(n + 1, 0);
         std::vector<double> wt(n); double sum = 0;
         NodeOut q = run_node(c, "sizes", d, NodeOpt(), [&](Out &o2)
         {
            pause_faults(true);
            config.dict_ = YAML::Load(y0);
            MultiBlockSolver *s = InitSolver(); s->InitVariables();
            BlockVector *U = s->GetSolution(); int nb = U->NumBlocks() / n;
            for (size_t k = 0; k < n; k++) { long t = 0; for (int v = 0; v < nb; v++) t += U->BlockSize(k * nb + v); o2.i(t); }
         });
         if (!q.ok()) return false;
         In in2(q.out); for (size_t k = 0; k < n; k++) { size[k] = in2.i(); at[k + 1] = at[k] + size[k]; }
         if (at[n] != in.size()) return false;
         out.resize(in.size());
         size_t to = 0;
         for (size_t k = 0; k < n; k++) for (size_t j = 0; j < size[w.perm[k]]; j++, to++) { size_t from = at[w.perm[k]] + j; if (back) out[to] = in[from]; else out[from] = in[to]; }
         return true;
      }
      std::vector<double> t;
      if (back) return by_elements(b, simplex, in, t, false) && by_elements(w, simplex, t, out, true);
      return by_elements(w, simplex, in, t, false) && by_elements(b, simplex, t, out, true);
   };
   for (size_t k = 0; k < other.size(); k++)
   {
      Way &w = other[k];
      std::string sol = fmt("sol%zu", k), start;
      std::string dk = c.clone(d, sol);
      put_full(c, w.f, dk);
      if (f.solver == "steady-ns")
      {  // a nonlinear problem may have several solutions
         std::vector<double> v;
         if (!moved(w, s0.v, v, true)) c.violation("layout", "the solution has another layout than the meshes");
         for (double &x : v) x *= 1.001;
         start = "out/start.h5"; put(c, dk, start, v);
      }
      std::string y = input(w, sol, start);
      NodeOpt ow; ow.cpu_s = 60;
      bool faulty = c.flip(1, 5);
      if (faulty)
      {
         NodeOut reh = run_node(c, "solve (rehearsal)", c.clone(dk, "reh" + sol), NodeOpt(), [&](Out &) { solve(y, w.sample); });
         ow.plan = draw_fault(c, FC_READ | FC_WRITE | FC_OPEN | FC_LOCK | FC_CRASH, reh, "");
      }
      else draw_benign(c, ow.plan);
      c.note("stated with %s", w.what.c_str());
      NodeOut q = run_node(c, "solve", dk, ow, [&](Out &) { solve(y, w.sample); });
      c.counters[w.sig + ":" + q.name()]++;
      if (!q.ok() && q.fired) { c.nontrivial = true; continue; }
      if (no_solution(w.f, q.console) || (q.st == NodeOut::HANG && w.sig == "solver-differs")) { c.counters["not-converged:" + w.sig + f.solver]++; continue; }
      if (q.st == NodeOut::HANG) c.violation("solve-hangs", "solving with %s does not end", w.what.c_str());
      if (!q.ok()) c.violation("solve-failed", "solving with %s failed without a fault: %s (%s) %s", w.what.c_str(), q.name(), q.how.c_str(), q.console.substr(q.console.size() > 300 ? q.console.size() - 300 : 0).c_str());
      Sol19 s = get(c, dk, "out/" + (w.sample ? fmt("sample%d_", w.nth) : std::string()) + sol + ".h5");
      if (!s.ok) c.violation("solution-unreadable", "the solution file of a completed run cannot be read");
      std::vector<double> v;
      if (!moved(w, s.v, v, false)) c.violation("layout", "the solution has another layout than the meshes");
      double e = dist(v, s0.v);
      c.nontrivial = true;
      c.counters[w.sig + ":" + f.solver + (cavity ? " enclosed" : "") + fmt(":1e%d", e > 0 ? (int)std::ceil(std::log10(e)) : -99)]++;
      if (!(e <= w.tol)) c.violation(w.sig.c_str(), "with %s the full-order solution (largest %g) differs by %g", w.what.c_str(), top, e);
   }
}
static void c19(Ctx &c) { ways(c); }
static Reg r19("C19", c19, "one run = one problem solved as given and as stated in up to four other ways (other numbers, ports turned round, another division of the domain, one decomposed mesh instead of components, an iterative solver), the solutions compared; some solved with a crash or I/O failure; non-trivial = two solutions were compared or a fault fired; distinct = solutions");
} // namespace sim
