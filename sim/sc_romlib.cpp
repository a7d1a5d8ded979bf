// ROM element library: C04 and the romlib workload.
#include "romlib.hpp"
#include "workload.hpp"
#include <memory>
#include <unistd.h>
using namespace mfem;
namespace sim {

Blocks rom_blocks(const RomSpec &s, const std::string &key, int n)
{
   Rng g(hbytes(s.seed, key.data(), key.size()));
   Blocks b; b.n = n;
   for (int k = 0; k < n * n; k++)
   {
      int dens = g.below(5);
      b.absent.push_back(dens == 4);
      b.b.push_back(make_csr(g, 1 + g.below(4), 1 + g.below(4), dens == 4 ? 0 : dens));
   }
   return b;
}
void canon_blocks(Out &o, const Blocks &b)
{
   o.i(b.n); o.i(b.n);
   for (size_t k = 0; k < b.b.size(); k++) { bool ab = b.absent[k] || b.b[k].J.empty(); o.i(ab); if (!ab) canon_csr(o, b.b[k]); }
}
static void fill(MatrixBlocks &m, const Blocks &b)
{
   m.SetSize(b.n, b.n);
   for (int i = 0; i < b.n; i++) for (int j = 0; j < b.n; j++) if (!b.absent[i * b.n + j]) m(i, j) = to_sparse(b.b[i * b.n + j]);
}
static void canon_mb(Out &o, MatrixBlocks &m)
{
   o.i(m.nrows); o.i(m.ncols);
   for (int i = 0; i < m.nrows; i++) for (int j = 0; j < m.ncols; j++)
   { bool ab = !m(i, j) || m(i, j)->NumNonZeroElems() == 0; o.i(ab); if (!ab) canon_sparse(o, m(i, j)); }
}
std::string rom_expected(const Assembly &a, const RomSpec &s)
{
   Out o; int n = s.bs();
   for (auto &c : a.comps)
   {
      canon_blocks(o, rom_blocks(s, "domain/" + c.name, n));
      canon_blocks(o, rom_blocks(s, "mass/" + c.name, n));
      o.i(c.nbdr);
      for (int b = 0; b < c.nbdr; b++) canon_blocks(o, rom_blocks(s, "bdr/" + c.name + fmt("/%d", b), n));
   }
   o.i(a.refs.size());
   for (size_t p = 0; p < a.refs.size(); p++) canon_blocks(o, rom_blocks(s, "port/" + a.key(p), 2 * n));
   return o.b;
}
RomNode rom_node(const std::string &yaml, const RomSpec &s, bool build_paused)
{
   RomNode r;
   if (build_paused) pause_faults(true);
   r.topo = build_topology(yaml);
   int nc = r.topo->GetNumComponents();
   for (int c = 0; c < nc; c++)
      for (int v = 0; v < s.nvar; v++)
      {
         Mesh *m = r.topo->GetComponentMesh(c);
         r.fec.push_back(new H1_FECollection(1, m->Dimension()));
         r.fes.Append(new FiniteElementSpace(m, r.fec.back()));
      }
   r.el = new ROMLinearElement(r.topo, r.fes, s.separate);
   if (build_paused) pause_faults(false);
   return r;
}
void rom_fill(RomNode &r, const Assembly &a, const RomSpec &s)
{
   int n = s.bs();
   for (int c = 0; c < (int)a.comps.size(); c++)
   {
      const std::string &nm = a.comps[c].name;
      fill(*r.el->comp[c], rom_blocks(s, "domain/" + nm, n));
      fill(*r.el->mass[c], rom_blocks(s, "mass/" + nm, n));
      for (int b = 0; b < r.el->bdr[c]->Size(); b++) fill(*(*r.el->bdr[c])[b], rom_blocks(s, "bdr/" + nm + fmt("/%d", b), n));
   }
   for (int p = 0; p < r.el->port.Size(); p++) fill(*r.el->port[p], rom_blocks(s, "port/" + a.key(p), 2 * n));
}
void rom_canon(RomNode &r, Out &o)
{
   for (int c = 0; c < r.el->comp.Size(); c++)
   {
      canon_mb(o, *r.el->comp[c]); canon_mb(o, *r.el->mass[c]);
      o.i(r.el->bdr[c]->Size());
      for (int b = 0; b < r.el->bdr[c]->Size(); b++) canon_mb(o, *(*r.el->bdr[c])[b]);
   }
   o.i(r.el->port.Size());
   for (int p = 0; p < r.el->port.Size(); p++) canon_mb(o, *r.el->port[p]);
}

static RomSpec draw_spec(Ctx &c)
{ RomSpec s; s.nvar = 1 + c.choose(2); s.separate = c.flip(1, 2); s.seed = 1 + c.choose(1 << 30); return s; }

Workload romlib_workload(Ctx &c)
{
   Workload w; w.name = "rom-library"; w.file = "rom.h5"; w.filter = "rom.h5";
   Lib l = make_lib(c, 2, c.flip(1, 8) ? 3 : 2);
   std::vector<int> sub; for (size_t k = 0; k < l.comps.size(); k++) sub.push_back(k);
   Assembly a = make_assembly(c, l, sub, 4);
   RomSpec s = draw_spec(c), so = s; so.seed ^= 0x5555;
   AsmOpt o = plain_opt(a);
   std::string y = asm_yaml(a, o);
   Ctx *cp = &c;
   w.what = a.str() + fmt(" vars=%d separate=%d", s.nvar, (int)s.separate);
   w.setup = [=](const std::string &d) { put_meshes(l, d); put_global(*cp, a, o, d); };
   w.save = [=](Out &ob) { RomNode r = rom_node(y, s, true); rom_fill(r, a, s); r.el->Save("rom.h5"); };
   w.older = [=](Out &ob) { RomNode r = rom_node(y, so, true); rom_fill(r, a, so); r.el->Save("rom.h5"); };
   bool dirty = c.flip(1, 2);
   w.load = [=](Out &ob) { RomNode r = rom_node(y, s, true); if (dirty) rom_fill(r, a, so); r.el->Load("rom.h5"); rom_canon(r, ob); };
   w.expected = rom_expected(a, s);
   w.old_expected = rom_expected(a, so);
   return w;
}

static void c04(Ctx &c)
{
   Lib l = make_lib(c, 4);
   int n = l.comps.size();
   auto subset = [&]() { std::vector<int> p = shuffled(c, n), q; int m = n - (int)c.choose(n); for (int k = 0; k < m; k++) q.push_back(p[k]); return q; };
   RomSpec s = draw_spec(c), so = s; so.seed ^= 0x77;
   std::string d = c.disk("d");
   put_meshes(l, d);
   Assembly A = make_assembly(c, l, subset(), 6);
   AsmOpt oA = plain_opt(A); oA.global = "A.h5";
   put_global(c, A, oA, d);
   std::string yA = asm_yaml(A, oA);
   c.note("library saved from %s; vars=%d separate=%d", A.str().c_str(), s.nvar, (int)s.separate);
   bool resave = c.flip(1, 3);
   NodeOpt no; draw_benign(c, no.plan);
   NodeOut r = run_node(c, "save", d, no, [&](Out &ob)
   {
      RomNode q = rom_node(yA, s, true);
      if (resave) { rom_fill(q, A, so); q.el->Save("lib.h5"); }
      rom_fill(q, A, s); q.el->Save("lib.h5");
   });
   if (!r.ok()) c.violation("save-failed", "saving the library failed: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
   std::set<std::string> names, keys;
   for (auto &x : A.comps) names.insert(x.name);
   for (size_t k = 0; k < A.refs.size(); k++) keys.insert(A.key(k));
   int nl = 1 + c.choose(3);
   for (int t = 0; t < nl; t++)
   {
      Assembly B = c.flip(1, 4) ? A : make_assembly(c, l, subset(), 6);
      AsmOpt oB = plain_opt(B); oB.global = fmt("B%d.h5", t);
      put_global(c, B, oB, d);
      std::string yB = asm_yaml(B, oB);
      bool fits = true;
      for (auto &x : B.comps) fits &= names.count(x.name) > 0;
      for (size_t k = 0; k < B.refs.size(); k++) fits &= keys.count(B.key(k)) > 0;
      bool dirty = c.flip(1, 2), twice = c.flip(1, 4);
      std::string want = rom_expected(B, s);
      NodeOpt n2; draw_benign(c, n2.plan);
      NodeOut q = run_node(c, fmt("load%d", t), d, n2, [&](Out &ob)
      {
         RomNode m = rom_node(yB, s, true);
         if (dirty) rom_fill(m, B, so);
         m.el->Load("lib.h5");
         if (twice) m.el->Load("lib.h5");
         rom_canon(m, ob);
      });
      c.note("   loader %s fits=%d dirty=%d twice=%d", B.str().c_str(), (int)fits, (int)dirty, (int)twice);
      if (fits)
      {
         if (!q.ok()) c.violation("load-failed", "loading a library that has all components and ports failed: %s (%s) %s", q.name(), q.how.c_str(), q.console.substr(0, 300).c_str());
         if (q.out != want) c.violation("wrong-matrices", "loaded matrices differ from those saved under the same names (%zu vs %zu bytes)", q.out.size(), want.size());
      }
      else if (q.ok()) c.violation("missing-not-rejected", "a library that lacks a needed component or port was loaded without error");
      c.counters[fits ? "load-fits" : "load-lacks"]++;
      c.cov(B.str()); c.cov(fits + 2 * dirty + 4 * twice);
   }
   c.cov(A.str()); c.cov(s.nvar * 2 + s.separate); c.cov(s.seed);
   c.nontrivial = A.refs.size() + A.comps.size() > 1;
}
static Reg r04("C04", c04, "one run = a random set of component meshes, a library saved from one random assembly of them, loaded by 1..3 other random assemblies (subset, reordered, repeated) in new processes under interrupted I/O; non-trivial = more than one component or port; distinct = different assemblies, variables, contents");

} // namespace sim
