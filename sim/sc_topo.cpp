// Where port data come from (C06), and the geometry of the assembled domain (C07).
#include "asm.hpp"
#include "workload.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <unistd.h>
#include "hdf5.h"
#include "topology_handler.hpp"
using namespace mfem;
namespace sim {

static void c06(Ctx &c)
{
   Lib l = make_lib(c, 3);
   int n = l.comps.size();
   auto subset = [&]() { std::vector<int> p = shuffled(c, n), q; int m = n - (int)c.choose(n); for (int k = 0; k < m; k++) q.push_back(p[k]); return q; };
   std::string d = c.disk("d");
   put_meshes(l, d);
   std::vector<int> all; for (int k = 0; k < n; k++) all.push_back(k);
   Assembly A = make_assembly(c, l, all, 4);
   AsmOpt o0 = plain_opt(A);
   put_global(c, A, o0, d);
   NodeOut ref = run_node(c, "reference (input file)", d, NodeOpt(), [&](Out &o) { canon_topology(build_topology(asm_yaml(A, o0)), o); });
   if (!ref.ok()) c.violation("reference-failed", "building the topology from the input file failed: %s (%s) %s", ref.name(), ref.how.c_str(), ref.console.substr(0, 300).c_str());
   std::string want = ref.out;
   int np = A.refs.size();
   c.note("%s", A.str().c_str());
   std::vector<int> state(np, 0);      // port file: 0 absent, 1 complete, 2 unknown (racing or crashed writers)
   std::vector<std::string> merged; std::vector<std::set<int> > mset;
   int steps = 1 + c.choose(c.thorough ? 8 : 5);
   std::string seq;
   bool follow = false;                // look right away at what racing or crashed writers left
   for (int t = 0; t < steps || follow; t++)
   {
      bool fo = follow; follow = false;
      int what = fo ? 0 : c.choose(6);
      AsmOpt o = plain_opt(A);
      o.global = fmt("g%d.h5", t);
      o.yorder = shuffled(c, np);
      if (what == 0 || what == 1) // read by 1 or more ranks, any sources
      {
         bool unknown = false;
         std::set<int> in_files;  // ports that some listed merged file brings along
         for (int k = 0; k < np; k++)
         {
            int s = fo ? 2 + (int)c.choose(2) : (int)c.choose(4);
            if (s == PS_FILE_ONLY && !state[k]) s = PS_FILE;
            o.src[k] = s;
            if (s >= PS_FILE && state[k] == 2) unknown = true;
            if (s >= PS_FILE && !merged.empty() && c.flip(1, 2))
            {
               int m = c.choose(merged.size());
               if (s == PS_FILE_ONLY && !mset[m].count(k)) { }
               else if (mset[m].count(k)) { o.pfile[k] = merged[m]; }
            }
         }
         put_global(c, A, o, d);
         std::string y = asm_yaml(A, o);
         int nr = what == 0 ? 1 : 1 + (int)c.choose(4);
         JobOpt jo; draw_schedule(c, jo, nr, 80 * nr);
         for (int k = 0; k < nr; k++) { NodeOpt no; draw_benign(c, no.plan); jo.node.push_back(no); }
         JobOut r = run_job(c, "read", d, nr, jo, [&](int, Out &ob) { canon_topology(build_topology(y), ob); });
         if (r.deadlock) c.violation("hang", "%d processes building the topology hang: %s", nr, r.summary().c_str());
         for (int k = 0; k < nr; k++)
         {
            if (r.r[k].ok() && r.r[k].out != want) c.violation("different-topology", "process %d of %d, with sources %s, has another topology than the one computed from the input file", k, nr, seq.c_str());
            c.counters[fmt("%s:%s", unknown ? "read-after-race" : "read", r.r[k].name())]++;
            if (!r.r[k].ok() && !unknown) c.violation("cannot-build", "process %d of %d cannot build the topology: %s (%s) %s", k, nr, r.r[k].name(), r.r[k].how.c_str(), r.r[k].console.substr(0, 300).c_str());
         }
         seq += fmt("r%d", nr); for (int x : o.src) seq += fmt("%d", x);
         if (np) c.nontrivial = true;
      }
      else if (what == 2 || what == 3) // write ports, 1..4 ranks, possibly crashing
      {
         o.write_ports = true;
         std::vector<int> before = state;
         if (what == 2 && c.flip(1, 2))
         {  // another assembly of the same components, in another order, writes its ports
            Assembly B = make_assembly(c, l, subset(), 4);
            AsmOpt ob = plain_opt(B); ob.global = fmt("b%d.h5", t); ob.write_ports = true; ob.yorder = shuffled(c, B.refs.size());
            put_global(c, B, ob, d);
            std::string y = asm_yaml(B, ob);
            NodeOut r = run_node(c, "other assembly writes ports", d, NodeOpt(), [&](Out &) { build_topology(y); });
            bool unk = false;
            for (auto &x : B.refs) for (int k = 0; k < np; k++) if (A.refs[k].name == x.name && state[k] == 2) unk = true;
            bool un2 = unk; for (int k = 0; k < np; k++) un2 |= state[k] == 2;
            if (!r.ok() && !un2) c.violation("cannot-build", "an assembly cannot be built: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
            if (r.ok()) for (auto &x : B.refs) for (int k = 0; k < np; k++) if (A.refs[k].name == x.name && !state[k]) state[k] = 1;
            seq += "o";
            continue;
         }
         put_global(c, A, o, d);
         for (auto &s : o.src) s = PS_YAML;
         std::string y = asm_yaml(A, o);
         int nr = what == 2 ? 1 : 2 + (int)c.choose(3);
         JobOpt jo; draw_schedule(c, jo, nr, 120 * nr);
         jo.independent = nr > 1 && c.flip(1, 2);
         bool crash = false;
         for (int k = 0; k < nr; k++)
         {
            NodeOpt no;
            if (c.flip(1, nr == 1 ? 2 : 6))
            {
               static const int kinds[] = {F_CRASH_BEFORE, F_CRASH_TORN, F_CRASH_AFTER};
               no.plan.kind = kinds[c.choose(3)]; no.plan.at = c.choose(20 + 30 * std::max(1, np)); no.plan.arg = c.choose(1000); crash = true;
            }
            else draw_benign(c, no.plan);
            jo.node.push_back(no);
         }
         JobOut r = run_job(c, "write ports", d, nr, jo, [&](int, Out &ob) { canon_topology(build_topology(y), ob); });
         if (r.deadlock) c.violation("hang", "%d processes building the topology hang: %s", nr, r.summary().c_str());
         bool all_ok = true;
         for (int k = 0; k < nr; k++)
         {
            all_ok &= r.r[k].ok();
            c.counters[fmt("%s:%s", nr == 1 ? "write" : jo.independent ? "race" : "job-race", r.r[k].name())]++;
            if (r.r[k].ok() && r.r[k].out != want) c.violation("different-topology", "process %d of %d racing port writers continues with another topology", k, nr);
         }
         bool unknown = false; for (int s : state) unknown |= s == 2;
         if (nr == 1 && !crash && !unknown && !all_ok) c.violation("cannot-build", "writing ports failed: %s (%s) %s", r.r[0].name(), r.r[0].how.c_str(), r.r[0].console.substr(0, 300).c_str());
         for (int k = 0; k < np; k++)
            if (state[k] != 1) state[k] = (nr == 1 && all_ok && state[k] == 0) ? 1 : 2;
         seq += fmt("w%d%d", nr, (int)crash);
         if (nr > 1 || crash) { c.nontrivial = true; follow = c.flip(3, 4); }
      }
      else if (what == 4 && np) // merge finished port files
      {
         std::vector<std::string> f; std::set<int> ms;
         for (int k : shuffled(c, np)) if (state[k] == 1 && !c.flip(1, 4)) { f.push_back(o.pfile[k]); ms.insert(k); }
         if (f.empty()) continue;
         std::string to = fmt("m%d.port.h5", t);
         // ports of components that this assembly does not have
         for (int x = c.choose(3); x > 0; x--) f.insert(f.begin() + c.choose(f.size() + 1), "!" + o.pfile[*ms.begin()]);
         merge_ports(c, d, f, to);
         merged.push_back(to); mset.push_back(ms);
         seq += "m";
      }
      else // port files removed by the user
      {
         if (np && c.flip(1, 2)) for (int k = 0; k < np; k++) if (c.flip(1, 2)) { unlink((d + "/" + o.pfile[k]).c_str()); state[k] = 0; }
         seq += "d";
      }
   }
   // finally: everything from the input file
   if (c.flip(1, 4))
   {
      NodeOut r = run_node(c, "input file again", d, NodeOpt(), [&](Out &o) { canon_topology(build_topology(asm_yaml(A, o0)), o); });
      if (!r.ok() || r.out != want) c.violation("different-topology", "the topology computed from the input file changed");
   }
   c.note("steps %s", seq.c_str());
   c.cov(A.str()); c.cov(seq); c.cov(c.sched_hash);
}
static Reg r06("C06", c06, "one run = one random assembly whose ports come, over 1..9 steps, from the input file, the global file, own or merged port files, in random combination and order, read and written by 1..4 simulated processes under random schedules with writer crashes; every topology that a process continues with is compared with the one computed from the input file; non-trivial = has ports and a read, a race or a crash; distinct = assembly, step sequence, schedule");

// ---- C07 --------------------------------------------------------------------------
static std::string vec_str(const Vector &x) { std::string s; for (int k = 0; k < x.Size(); k++) s += fmt("%.9g ", x[k]); return s; }

// do the points of one pair coincide? "" or a complaint
static std::string check_pair(TopologyHandler *t, Mesh *m1, Mesh *m2, const InterfaceInfo &f, double L)
{
   FaceElementTransformations *t1, *t2;
   t->GetInterfaceTransformations(m1, m2, &f, t1, t2);
   Geometry::Type g = m1->GetBdrElementGeometry(f.BE1);
   if (g != m2->GetBdrElementGeometry(f.BE2)) return "paired boundary elements of different shape";
   const IntegrationRule &ir = IntRules.Get(g, 3);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      IntegrationPoint e1, e2; Vector x1, x2;
      t1->Loc1.Transform(ir.IntPoint(q), e1); t2->Loc1.Transform(ir.IntPoint(q), e2);
      t1->Elem1->Transform(e1, x1); t2->Elem1->Transform(e2, x2);
      Vector dx(x1); dx -= x2;
      if (!(dx.Norml2() < 1e-7 * L)) return "face points differ: " + vec_str(x1) + "/ " + vec_str(x2);
   }
   return "";
}

static void center_of(Mesh *m, int e, Vector &x) { m->GetElementCenter(e, x); }
static void bdr_center(Mesh *m, int b, Vector &x)
{
   Array<int> v; m->GetBdrElementVertices(b, v);
   x.SetSize(m->SpaceDimension()); x = 0.0;
   // nodes, if any, define the geometry
   ElementTransformation *T = m->GetBdrElementTransformation(b);
   T->SetIntPoint(&Geometries.GetCenter(m->GetBdrElementGeometry(b)));
   T->Transform(Geometries.GetCenter(m->GetBdrElementGeometry(b)), x);
}

// one-to-one match of two point sets within tol; "" or complaint
static std::string match_points(const std::vector<Vector> &a, const std::vector<Vector> &b, double tol, std::vector<int> *map = nullptr)
{
   if (a.size() != b.size()) return fmt("%zu instead of %zu", a.size(), b.size());
   std::vector<char> used(b.size(), 0);
   if (map) map->assign(a.size(), -1);
   for (size_t i = 0; i < a.size(); i++)
   {
      bool hit = false;
      for (size_t j0 = 0; j0 < b.size() && !hit; j0++)
      {
         size_t j = (i + j0) % b.size();
         if (used[j]) continue;
         double d = 0; for (int k = 0; k < a[i].Size(); k++) d = std::max(d, std::fabs(a[i][k] - b[j][k]));
         if (d < tol) { used[j] = 1; hit = true; if (map) (*map)[i] = j; }
      }
      if (!hit) return "none at " + vec_str(a[i]);
   }
   return "";
}

struct CTopo { Assembly a; AsmOpt o; std::string y; };

static std::string check_component(const CTopo &k, ComponentTopologyHandler *t)
{
   const Assembly &a = k.a; double L = a.L, tol = 1e-7 * L;
   int ns = a.cells.size();
   if (t->GetNumSubdomains() != ns) return fmt("%d subdomains instead of %d", t->GetNumSubdomains(), ns);
   if (t->GetNumPorts() != (int)a.ifs.size()) return fmt("%d ports instead of %zu", t->GetNumPorts(), a.ifs.size());
   Array<Mesh *> mp; TopologyData td; t->ExportInfo(mp, td);
   if (td.numSub != ns || td.dim != a.dim || mp.Size() != ns) return "exported number of subdomains or dimension is wrong";
   std::vector<std::unique_ptr<Mesh> > comp;
   pause_faults(true);
   for (auto &x : a.comps) { comp.emplace_back(new Mesh(x.file.c_str())); for (int r = 0; r < k.o.refine; r++) comp.back()->UniformRefinement(); }
   pause_faults(false);
   std::vector<std::vector<int> > cattr(ns); // component attribute of every boundary element of subdomain m
   for (int m = 0; m < ns; m++)
   {
      const ACell &q = a.cells[m];
      if (t->GetMeshType(m) != q.comp || t->GetComponentName(q.comp) != a.comps[q.comp].name) return fmt("subdomain %d has the wrong component", m);
      Mesh *g = t->GetMesh(m), *r = comp[q.comp].get();
      if (mp[m] != g) return "exported meshes are not the subdomain meshes";
      auto T = [&](const Vector &x) { Vector y(a.dim); for (int d = 0; d < a.dim; d++) y[d] = x[d];
         if (a.dim == 2) { double u = x[0], v = x[1]; int s = q.rot % 4; y[0] = s == 0 ? u : s == 1 ? -v + L : s == 2 ? -u + L : v; y[1] = s == 0 ? v : s == 1 ? u : s == 2 ? -v + L : -u + L; }
         for (int d = 0; d < a.dim; d++) y[d] += a.org[d] + q.pos[d] * L; return y; };
      std::vector<Vector> e1, e2; Vector x;
      double v1 = 0, v2 = 0;
      for (int e = 0; e < g->GetNE(); e++) { center_of(g, e, x); e1.push_back(x); v1 += g->GetElementVolume(e); }
      for (int e = 0; e < r->GetNE(); e++) { center_of(r, e, x); e2.push_back(T(x)); v2 += r->GetElementVolume(e); }
      std::string s = match_points(e1, e2, tol);
      if (!s.empty()) return fmt("elements of subdomain %d: ", m) + s;
      if (std::fabs(v1 - v2) > 1e-7 * v2) return fmt("volume of subdomain %d is %g instead of %g", m, v1, v2);
      std::vector<Vector> b1, b2; std::vector<int> map;
      for (int b = 0; b < g->GetNBE(); b++) { bdr_center(g, b, x); b1.push_back(x); }
      for (int b = 0; b < r->GetNBE(); b++) { bdr_center(r, b, x); b2.push_back(T(x)); }
      s = match_points(b1, b2, tol, &map);
      if (!s.empty()) return fmt("boundary elements of subdomain %d: ", m) + s;
      for (int b = 0; b < g->GetNBE(); b++) cattr[m].push_back(r->GetBdrAttribute(map[b]));
   }
   std::set<int> gattr; for (auto &b : a.bdr) gattr.insert(b.g);
   std::set<int> got; for (int i = 0; i < td.global_bdr_attributes->Size(); i++) got.insert((*td.global_bdr_attributes)[i]);
   if (got != gattr) return "global boundary attributes differ from the described ones";
   std::vector<std::vector<int> > owner(ns); for (int m = 0; m < ns; m++) owner[m].assign(cattr[m].size(), -1);
   std::vector<char> seen(a.ifs.size(), 0);
   std::set<int> pattr;
   for (int p = 0; p < t->GetNumPorts(); p++)
   {
      const PortInfo *i = t->GetPortInfo(p);
      int w = -1;
      for (size_t z = 0; z < a.ifs.size(); z++) if (!seen[z] && a.ifs[z].m1 == i->Mesh1 && a.ifs[z].m2 == i->Mesh2 && a.ifs[z].a1 == i->Attr1 && a.ifs[z].a2 == i->Attr2) { w = z; break; }
      if (w < 0) return fmt("port %d joins %d.%d and %d.%d, which is not described", p, i->Mesh1, i->Attr1, i->Mesh2, i->Attr2);
      seen[w] = 1;
      if (t->GetPortType(p) != a.ifs[w].type) return fmt("port %d has the wrong reference port", p);
      if (gattr.count(i->PortAttr)) return fmt("port attribute %d is also a global boundary attribute", i->PortAttr);
      if (!pattr.insert(i->PortAttr).second) return fmt("port attribute %d is used by two ports", i->PortAttr);
      Array<InterfaceInfo> *f = t->GetInterfaceInfos(p);
      Mesh *m1 = t->GetMesh(i->Mesh1), *m2 = t->GetMesh(i->Mesh2);
      for (int q = 0; q < f->Size(); q++)
      {
         const InterfaceInfo &x = (*f)[q];
         for (int side = 0; side < 2; side++)
         {
            int m = side ? i->Mesh2 : i->Mesh1, b = side ? x.BE2 : x.BE1, at = side ? i->Attr2 : i->Attr1;
            if (b < 0 || b >= (int)cattr[m].size()) return fmt("port %d pairs a boundary element that does not exist", p);
            if (cattr[m][b] != at) return fmt("port %d pairs boundary element %d of subdomain %d, which has attribute %d instead of %d", p, b, m, cattr[m][b], at);
            if (owner[m][b] >= 0) return fmt("boundary element %d of subdomain %d is paired twice", b, m);
            owner[m][b] = p;
         }
         std::string s = check_pair(t, m1, m2, x, L);
         if (!s.empty()) return fmt("port %d pair %d: ", p, q) + s;
      }
      for (int side = 0; side < 2; side++)
      {
         int m = side ? i->Mesh2 : i->Mesh1, at = side ? i->Attr2 : i->Attr1;
         for (size_t b = 0; b < cattr[m].size(); b++) if (cattr[m][b] == at && owner[m][b] != p) return fmt("boundary element %zu of subdomain %d belongs to port %d but is not paired", b, m, p);
      }
   }
   for (int m = 0; m < ns; m++)
   {
      Mesh *g = t->GetMesh(m);
      std::set<int> at;
      for (size_t b = 0; b < cattr[m].size(); b++)
      {
         int want = -1;
         if (owner[m][b] >= 0) want = t->GetPortInfo(owner[m][b])->PortAttr;
         else for (auto &x : a.bdr) if (x.m == m && x.a == cattr[m][b]) want = x.g;
         if (g->GetBdrAttribute(b) != want) return fmt("boundary element %zu of subdomain %d has attribute %d instead of %d", b, m, g->GetBdrAttribute(b), want);
         at.insert(want);
      }
      std::set<int> l; for (int z = 0; z < g->bdr_attributes.Size(); z++) l.insert(g->bdr_attributes[z]);
      if (l != at) return fmt("list of boundary attributes of subdomain %d is wrong", m);
   }
   // reference ports: same geometry between component meshes is covered by the ports above
   return "";
}

struct STopo { int dim, n, nsub, refine; double L; bool nodd; std::string file, text, y; };

static std::string check_submesh(const STopo &k, SubMeshTopologyHandler *t)
{
   pause_faults(true);
   std::unique_ptr<Mesh> pm(new Mesh(k.file.c_str()));
   for (int r = 0; r < k.refine; r++) pm->UniformRefinement();
   pause_faults(false);
   double L = k.L, tol = 1e-7 * L;
   int ns = k.nodd ? 1 : k.nsub;
   if (t->GetNumSubdomains() != ns) return fmt("%d subdomains instead of %d", t->GetNumSubdomains(), ns);
   Array<Mesh *> mp; TopologyData td; t->ExportInfo(mp, td);
   if (td.numSub != ns || td.dim != k.dim) return "exported number of subdomains or dimension is wrong";
   std::set<int> gattr; int gmax = 0; for (int b = 0; b < pm->GetNBE(); b++) { gattr.insert(pm->GetBdrAttribute(b)); gmax = std::max(gmax, pm->GetBdrAttribute(b)); }
   std::set<int> got; for (int i = 0; i < td.global_bdr_attributes->Size(); i++) got.insert((*td.global_bdr_attributes)[i]);
   if (got != gattr) return "global boundary attributes differ from those of the mesh";
   Vector x;
   std::vector<int> own(pm->GetNE());
   for (int e = 0; e < pm->GetNE(); e++) own[e] = k.nodd ? 0 : pm->GetAttribute(e) - 1;
   for (int m = 0; m < ns; m++)
   {
      Mesh *g = t->GetMesh(m);
      std::vector<Vector> e1, e2; double v1 = 0, v2 = 0;
      for (int e = 0; e < g->GetNE(); e++) { center_of(g, e, x); e1.push_back(x); v1 += g->GetElementVolume(e); }
      for (int e = 0; e < pm->GetNE(); e++) if (own[e] == m) { center_of(pm.get(), e, x); e2.push_back(x); v2 += pm->GetElementVolume(e); }
      std::string s = match_points(e1, e2, tol);
      if (!s.empty()) return fmt("elements of subdomain %d: ", m) + s;
      if (std::fabs(v1 - v2) > 1e-7 * v2) return fmt("volume of subdomain %d is %g instead of %g", m, v1, v2);
   }
   // expected faces of every subdomain: between pairs, and on the boundary
   std::map<std::pair<int, int>, std::vector<Vector> > pairf; std::map<std::pair<int, int>, std::vector<Vector> > bdrf;
   for (int f = 0; f < pm->GetNumFaces(); f++)
   {
      int a, b; pm->GetFaceElements(f, &a, &b);
      if (b < 0 || own[a] == own[b]) continue;
      ElementTransformation *T = pm->GetFaceTransformation(f);
      const IntegrationPoint &ip = Geometries.GetCenter(pm->GetFaceGeometry(f));
      T->SetIntPoint(&ip); T->Transform(ip, x);
      pairf[{std::min(own[a], own[b]), std::max(own[a], own[b])}].push_back(x);
   }
   for (int b = 0; b < pm->GetNBE(); b++) { int e, inf; pm->GetBdrElementAdjacentElement(b, e, inf); bdr_center(pm.get(), b, x); bdrf[{own[e], pm->GetBdrAttribute(b)}].push_back(x); }
   if (t->GetNumPorts() != (int)pairf.size()) return fmt("%d ports instead of %zu", t->GetNumPorts(), pairf.size());
   std::set<int> pattr;
   std::vector<std::vector<char> > owned(ns); for (int m = 0; m < ns; m++) owned[m].assign(t->GetMesh(m)->GetNBE(), 0);
   for (int p = 0; p < t->GetNumPorts(); p++)
   {
      const PortInfo *i = t->GetPortInfo(p);
      std::pair<int, int> key(std::min(i->Mesh1, i->Mesh2), std::max(i->Mesh1, i->Mesh2));
      if (!pairf.count(key)) return fmt("port %d joins subdomains %d and %d, which do not touch", p, i->Mesh1, i->Mesh2);
      if (gattr.count(i->PortAttr)) return fmt("port attribute %d is also a boundary attribute", i->PortAttr);
      if (!pattr.insert(i->PortAttr).second) return fmt("port attribute %d is used by two ports", i->PortAttr);
      Mesh *m1 = t->GetMesh(i->Mesh1), *m2 = t->GetMesh(i->Mesh2);
      Array<InterfaceInfo> *f = t->GetInterfaceInfos(p);
      std::vector<Vector> c1, c2;
      for (int q = 0; q < f->Size(); q++)
      {
         const InterfaceInfo &z = (*f)[q];
         for (int side = 0; side < 2; side++)
         {
            int m = side ? i->Mesh2 : i->Mesh1, b = side ? z.BE2 : z.BE1; Mesh *mm = side ? m2 : m1;
            if (b < 0 || b >= mm->GetNBE()) return fmt("port %d pairs a boundary element that does not exist", p);
            if (owned[m][b]) return fmt("boundary element %d of subdomain %d is paired twice", b, m);
            owned[m][b] = 1;
            if (mm->GetBdrAttribute(b) != i->PortAttr) return fmt("paired boundary element %d of subdomain %d has attribute %d instead of %d", b, m, mm->GetBdrAttribute(b), i->PortAttr);
            bdr_center(mm, b, x); (side ? c2 : c1).push_back(x);
         }
         std::string s = check_pair(t, m1, m2, z, L);
         if (!s.empty()) return fmt("port %d pair %d: ", p, q) + s;
      }
      std::string s = match_points(c1, pairf[key], tol);
      if (!s.empty()) return fmt("faces of port %d: ", p) + s;
      pairf.erase(key);
   }
   for (int m = 0; m < ns; m++)
   {
      Mesh *g = t->GetMesh(m);
      std::map<int, std::vector<Vector> > have;
      std::set<int> at;
      for (int b = 0; b < g->GetNBE(); b++)
      {
         at.insert(g->GetBdrAttribute(b));
         if (owned[m][b]) continue;
         bdr_center(g, b, x); have[g->GetBdrAttribute(b)].push_back(x);
      }
      for (auto &h : have)
      {
         if (!gattr.count(h.first)) return fmt("a boundary element of subdomain %d is neither in a port nor on the global boundary (attribute %d)", m, h.first);
         std::string s = match_points(h.second, bdrf[{m, h.first}], tol);
         if (!s.empty()) return fmt("boundary %d of subdomain %d: ", h.first, m) + s;
         bdrf.erase({m, h.first});
      }
      std::set<int> l; for (int z = 0; z < g->bdr_attributes.Size(); z++) l.insert(g->bdr_attributes[z]);
      if (l != at) return fmt("list of boundary attributes of subdomain %d is wrong", m);
   }
   for (auto &b : bdrf) if (!b.second.empty()) return fmt("boundary %d of subdomain %d is missing", b.first.second, b.first.first);
   // a field on the subdomains is a field on the domain
   Mesh *gm = t->GetGlobalMesh();
   L2_FECollection fec(1, k.dim);
   std::vector<std::unique_ptr<FiniteElementSpace> > fes; Array<GridFunction *> us, gu;
   std::vector<std::unique_ptr<GridFunction> > hold;
   FiniteElementSpace gfes(gm, &fec);
   FunctionCoefficient f1([](const Vector &x) { double s = 0.3; for (int d = 0; d < x.Size(); d++) s += (d + 1.7) * x[d]; return s; });
   FunctionCoefficient f2([](const Vector &x) { double s = -1; for (int d = 0; d < x.Size(); d++) s += (5.1 - d) * x[d]; return s; });
   for (int m = 0; m < ns; m++)
   {
      fes.emplace_back(new FiniteElementSpace(t->GetMesh(m), &fec));
      for (int v = 0; v < 2; v++) { hold.emplace_back(new GridFunction(fes.back().get())); hold.back()->ProjectCoefficient(v ? f2 : f1); us.Append(hold.back().get()); }
   }
   for (int v = 0; v < 2; v++) { hold.emplace_back(new GridFunction(&gfes)); *hold.back() = 0.0; gu.Append(hold.back().get()); }
   t->TransferToGlobal(us, gu, 2);
   for (int v = 0; v < 2; v++)
   {
      GridFunction w(&gfes); w.ProjectCoefficient(v ? f2 : f1); w -= *gu[v];
      if (!(w.Normlinf() < 1e-6 * (10 + 20 * L))) return fmt("a field transferred from the subdomains to the domain differs by %g", w.Normlinf());
   }
   return "";
}

static void c07(Ctx &c)
{
   std::string d = c.disk("d");
   Lib l = make_lib(c, 3);
   put_meshes(l, d);
   int n = l.comps.size();
   auto subset = [&]() { std::vector<int> p = shuffled(c, n), q; int m = n - (int)c.choose(n); for (int k = 0; k < m; k++) q.push_back(p[k]); return q; };
   int nt = 1 + c.choose(c.thorough ? 4 : 3);
   std::vector<int> kind; std::vector<CTopo> ct(nt); std::vector<STopo> st(nt);
   std::string desc;
   bool havef = c.flip(1, 3);
   for (int k = 0; k < nt; k++)
   {
      kind.push_back(c.choose(3) == 2 ? 1 : 0);
      if (kind[k] == 0)
      {
         CTopo &x = ct[k];
         x.a = make_assembly(c, l, subset(), 6);
         x.o = plain_opt(x.a); x.o.global = fmt("g%d.h5", k); x.o.yorder = shuffled(c, x.a.refs.size());
         int np = x.a.refs.size();
         int est = (l.dim == 2 ? l.n * l.n * 2 : l.n * l.n * l.n * 6) * (int)x.a.cells.size();
         x.o.refine = est <= 60 && c.flip(1, 3) ? 1 : 0;
         x.o.verbose = c.flip(1, 8);
         if (havef && np && !x.o.refine)
         {
            AsmOpt w = x.o; w.write_ports = true; w.global = fmt("w%d.h5", k);
            put_global(c, x.a, w, d);
            std::string y = asm_yaml(x.a, w);
            NodeOut r = run_node(c, "write ports", d, NodeOpt(), [&](Out &) { build_topology(y); });
            if (!r.ok()) c.violation("build-failed", "writing ports of a valid assembly failed: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
            for (auto &s : x.o.src) s = c.choose(4);
         }
         else for (auto &s : x.o.src) s = c.choose(2);
         int b = c.choose(3);
         if (b == 1) x.o.bdrfile = fmt("bdr%d.h5", k); else if (b == 2) x.o.decoy_bdr = "other.h5";
         put_global(c, x.a, x.o, d);
         x.y = asm_yaml(x.a, x.o);
         desc += x.a.str() + fmt(" refine=%d; ", x.o.refine);
      }
      else
      {
         STopo &x = st[k];
         x.dim = 2; // 3D decomposition needs MFEM >= 4.6 (generated boundary attributes); 4.5.2 is installed
         x.n = x.dim == 2 ? 2 + c.choose(4) : 2 + c.choose(2);
         x.L = c.flip(1, 3) ? 2.5 : 1.0;
         bool simplex = c.flip(1, 2);
         int cells = x.dim == 2 ? x.n * x.n : x.n * x.n * x.n;
         x.nsub = 1 + c.choose(std::min(cells, 6));
         x.nodd = c.flip(1, 8);
         x.refine = cells <= 16 && c.flip(1, 4) ? 1 : 0;
         Rng g = c.stream();
         std::vector<int> grid(cells);
         bool blocks = g.below(2);
         for (int q = 0; q < cells; q++) grid[q] = blocks ? 1 + q * x.nsub / cells : 1 + (int)g.below(x.nsub);
         for (int s = 0; s < x.nsub; s++) if (std::find(grid.begin(), grid.end(), s + 1) == grid.end())
         { // give it a cell whose attribute occurs elsewhere
            for (int q = 0; q < cells; q++) { int z = (q * 7 + s * 3) % cells; if (std::count(grid.begin(), grid.end(), grid[z]) > 1) { grid[z] = s + 1; break; } }
         }
         for (int s = 0; s < x.nsub; s++) if (std::find(grid.begin(), grid.end(), s + 1) == grid.end()) { x.nsub = s; for (auto &q : grid) q = std::min(q, s); break; }
         std::vector<int> attr; int ns = x.dim == 2 ? 4 : 6; int base = g.below(3);
         for (int s = 0; s < ns; s++) attr.push_back(1 + base + (int)g.below(ns + 2));
         x.text = make_mesh_text(x.dim, x.n, x.L, simplex, attr, g, x.nsub, &grid);
         x.file = fmt("p%d.mesh", k);
         write_file(d + "/" + x.file, x.text);
         x.y = "mesh:\n  type: submesh\n  filename: " + x.file + fmt("\n  uniform_refinement: %d\n", x.refine);
         if (x.nodd) x.y += "domain-decomposition:\n  type: none\n";
         desc += fmt("submesh %dD n=%d subdomains=%d simplex=%d refine=%d none=%d; ", x.dim, x.n, x.nsub, (int)simplex, x.refine, (int)x.nodd);
      }
   }
   bool late = c.flip(1, 2);
   NodeOpt no; draw_benign(c, no.plan); no.cpu_s = 60;
   c.note("%s", desc.c_str());
   NodeOut r = run_node(c, "assemble", d, no, [&](Out &o)
   {
      std::vector<TopologyHandler *> t(nt, nullptr);
      auto check = [&](int k) { return kind[k] ? check_submesh(st[k], (SubMeshTopologyHandler *)t[k]) : check_component(ct[k], (ComponentTopologyHandler *)t[k]); };
      for (int k = 0; k < nt; k++)
      {
         if (kind[k]) { config.dict_ = YAML::Load(st[k].y); t[k] = new SubMeshTopologyHandler(); }
         else t[k] = build_topology(ct[k].y);
         if (!late) { std::string s = check(k); if (!s.empty()) { o.s(fmt("topology %d: ", k) + s); return; } }
      }
      // what came later must not have changed what was built before
      for (int k = 0; k < nt; k++) { std::string s = check(k); if (!s.empty()) { o.s(fmt("topology %d of %d: ", k, nt) + s); return; } }
      for (int k = 0; k < nt; k++) delete t[k];
      o.s("");
   });
   if (!r.ok()) c.violation("build-failed", "assembling a valid domain failed: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 400).c_str());
   In in(r.out); std::string s = in.s();
   if (!s.empty() || in.bad) c.violation("geometry", "%s", s.c_str());
   c.cov(desc); c.nontrivial = true;
   for (int k = 0; k < nt; k++) c.counters[kind[k] ? "submesh" : "component"]++;
}
static Reg r07("C07", c07, "one run = 1..4 random topologies (component assemblies in 2D/3D with rotations, repeated and reordered components, ports from input, global or port files; decomposed meshes with random subdomain attributes) built one after another in one process under interrupted I/O and checked, at once and again after all later ones were built, against positions, pairs and attributes computed by the harness; distinct = descriptions of the topologies");

} // namespace sim
