#include "full.hpp"
#include <algorithm>
namespace sim {

std::string FullCfg::yaml() const
{
   std::string s = "main:\n  solver: " + solver + "\n  use_rom: " + (rom ? "true" : "false") + "\n" + (sub ? "mesh:\n  type: submesh\n  filename: " + mesh_file + fmt("\n  uniform_refinement: %d\n", refine) : asm_yaml(a, o));
   if (nodd) s += "domain-decomposition:\n  type: none\n";
   s += fmt("discretization:\n  order: %d\n  full-discrete-galerkin: %s\n", order, full_dg ? "true" : "false") + disc;
   s += fmt("solver:\n  direct_solve: %s\n  use_amg: %s\n  print_level: %d\n", direct ? "true" : "false", amg ? "true" : "false", print_level) + solver_opt;
   s += "parameterized_problem:\n  name: " + problem + "\nsingle_run:\n  " + problem + ":\n";
   for (auto &p : params) s += fmt("    %s: %.17g\n", p.first.c_str(), p.second);
   s += std::string("model_reduction:\n  separate_variable_basis: ") + (separate ? "true" : "false") + "\n" + mr;
   return s + more;
}
std::string FullCfg::str() const
{
   return solver + "/" + problem + fmt(" order %d%s%s%s%s ", order, full_dg ? " dg" : "", direct ? " direct" : "", amg ? " amg" : "", separate ? " separate" : "") + (sub ? fmt("decomposed mesh, %zu subdomains%s, refined %d", a.cells.size(), nodd ? " (not decomposed)" : "", refine) : a.str());
}

static void drop_unused(Assembly &a)
{
   std::vector<int> map(a.comps.size(), -1);
   std::vector<AComp> kept;
   for (size_t k = 0; k < a.comps.size(); k++)
   {
      bool used = false; for (auto &q : a.cells) used |= q.comp == (int)k;
      if (used) { map[k] = kept.size(); kept.push_back(a.comps[k]); }
   }
   a.comps = kept;
   for (auto &q : a.cells) q.comp = map[q.comp];
   for (auto &r : a.refs) { r.c1 = map[r.c1]; r.c2 = map[r.c2]; }
}

static bool attributes(const FullCfg &f, std::vector<int> &must, std::vector<int> &pool)
{
   if (f.problem == "linelast_disp" || f.problem == "linelast_disp_lcantilever") { must = {1, 2}; pool = {1, 2, 3}; }
   else if (f.problem == "linelast_disp_lattice") { must = {2}; pool = {1, 2, 3, 4, 5}; }
   else if (f.problem == "linelast_force_cantilever") { must = {4, 2}; pool = {1, 2, 3, 4, 5}; }
   else if (f.solver == "linelast") { must = {4}; pool = {1, 2, 3, 4, 5}; }
   else if (f.problem == "channel_flow" || f.problem == "flow_past_array" || f.problem == "advdiff_flow_past_array") { must = {2, 4}; pool = {1, 2, 3, 4, 5}; }
   else if (f.problem == "force_driven_corner") { must = {3, 1}; pool = {1, 2, 3, 4, 5}; }
   else if (f.problem == "lid_driven_cavity") { must = {3}; pool = {1, 2, 4, 5}; }
   else if (f.problem == "backward_facing_step") { must = {1, 3}; pool = {1, 2, 3}; }
   else return false;
   return true;
}
static void boundaries(FullCfg &f, Rng &g)
{
   auto &b = f.a.bdr;
   std::vector<int> must, pool;
   if (!attributes(f, must, pool)) return;
   for (auto &x : b) x.g = pool[g.below(pool.size())];
   std::vector<int> p; for (size_t k = 0; k < b.size(); k++) p.push_back(k);
   for (size_t k = p.size(); k > 1; k--) std::swap(p[k - 1], p[g.below(k)]);
   for (size_t k = 0; k < must.size() && k < p.size(); k++) b[p[k]].g = must[k];
}

static void assembly(Ctx &c, FullCfg &f, int maxcells, const std::string &global)
{
   std::vector<int> all = shuffled(c, f.lib.comps.size());
   f.a = make_assembly(c, f.lib, all, maxcells);
   drop_unused(f.a);
   Rng g = c.stream();
   boundaries(f, g);
   f.o = plain_opt(f.a); f.o.global = global;
}

// one mesh whose element attributes are the subdomains
static void decomposed(Ctx &c, FullCfg &f, int maxsub, int maxn)
{
   f.sub = true; f.mesh_file = "parent.mesh";
   int n = 1 + c.choose(1 + maxn), nsub = 1 + c.choose(std::min(n * n, maxsub));
   f.nodd = c.flip(1, 8);
   f.refine = n == 1 && c.flip(1, 2);
   Rng g = c.stream();
   bool simplex = g.below(2);
   std::vector<int> grid(n * n);
   for (int q = 0; q < n * n; q++) grid[q] = 1 + q * nsub / (n * n);
   for (int q = n * n; q > 1; q--) std::swap(grid[q - 1], grid[g.below(q)]);
   std::vector<int> must, pool, attr(4);
   if (!attributes(f, must, pool)) pool = {1, 2, 3, 4, 5};
   for (int s = 0; s < 4; s++) attr[s] = s < (int)must.size() ? must[s] : pool[g.below(pool.size())];
   for (int s = 4; s > 1; s--) std::swap(attr[s - 1], attr[g.below(s)]);
   f.mesh_text = make_mesh_text(2, n, g.below(2) ? 1.0 : 2.0, simplex, attr, g, nsub, &grid);
   Assembly a; a.dim = 2; a.n = n; a.L = 1;
   if (f.nodd) nsub = 1;
   for (int s = 0; s < nsub; s++)
   {
      AComp k; k.name = fmt("comp%d", s); k.simplex = simplex; k.nbdr = 0; a.comps.push_back(k);
      ACell q{{0, 0, 0}, s, 0}; a.cells.push_back(q);
      if (s) a.ifs.push_back({s - 1, s, 0, 0, 0});
   }
   f.a = a;
}

FullCfg draw_full(Ctx &c, const std::vector<std::string> &kinds, int maxcomp, int maxcells, int maxn, bool upright, int subs)
{
   FullCfg f;
   f.solver = c.pick(kinds);
   bool flow = f.solver == "stokes" || f.solver == "steady-ns" || f.solver == "unsteady-ns" || f.solver == "adv-diff";
   f.lib = make_lib(c, maxcomp, f.solver == "poisson" && c.flip(1, 8) ? 3 : 2);
   f.lib.upright = upright;
   if (f.lib.n > maxn || f.lib.dim == 3)
   {  // keep the systems small
      f.lib.n = f.lib.dim == 3 ? 1 : maxn;
      Rng g = c.stream();
      for (auto &x : f.lib.comps) x.mesh = make_mesh_text(f.lib.dim, f.lib.n, f.lib.L, x.simplex, x.attr, g);
   }
   if (f.solver == "steady-ns" || f.solver == "unsteady-ns")
   {
      Rng g = c.stream();
      for (auto &x : f.lib.comps) { x.simplex = f.lib.comps[0].simplex; x.mesh = make_mesh_text(f.lib.dim, f.lib.n, f.lib.L, x.simplex, x.attr, g); }
   }
   if (f.solver == "adv-diff") f.problem = "advdiff_flow_past_array";
   else if (f.solver == "poisson") f.problem = c.flip(1, 3) ? "poisson_component" : f.lib.dim == 2 && c.flip(1, 6) ? "poisson_spiral" : "poisson0";
   else if (f.solver == "linelast")
   {
      static const std::vector<std::string> solids = {"linelast_disp_lcantilever", "linelast_disp_lattice", "linelast_force_cantilever", "linelast_cwtrain", "linelast_frame_wind"};
      f.problem = c.flip(1, 3) ? "linelast_disp" : c.pick(solids);
   }
   else { static const std::vector<std::string> flows = {"backward_facing_step", "channel_flow", "flow_past_array", "force_driven_corner"}; f.problem = c.pick(flows); }
   Rng g = c.stream();
   auto P = [&](const char *k, double lo, double hi) { f.params[k] = lo + (hi - lo) * (double)g.below(1024) / 1024.0; };
   if (f.problem == "poisson0") { P("k", 0.2, 3); P("offset", 0, 1); }
   else if (f.problem == "poisson_component") { P("k0", 0, 2); P("k1", 0, 2); P("offset", 0, 1); P("bdr_k0", 0, 2); P("bdr_offset", 0, 1); f.params["bdr_idx"] = -1; }
   else if (f.problem == "poisson_spiral") { P("L", 0.5, 2); P("Lw", 0.3, 2); P("k", 0.2, 3); P("s", 0.3, 1); }
   else if (f.problem == "linelast_force_cantilever") { P("rforce_f", 0.1, 2); P("lambda", 0.5, 2); P("mu", 0.5, 2); }
   else if (f.problem == "linelast_frame_wind") { P("qwind_f", 0.1, 2); P("density", 0.5, 2); P("g", 0.5, 2); P("lambda", 0.5, 2); P("mu", 0.5, 2); }
   else if (f.problem == "linelast_cwtrain")
   {
      P("lambda", 0.5, 2); P("mu", 0.5, 2);
      for (const char *x : {"l_ux", "l_uy", "r_fx", "r_fy", "u_fx", "u_fy", "d_fx", "d_fy", "xu_amp", "yu_amp", "xf_amp", "yf_amp"}) P(x, 0.1, 1);
      for (const char *x : {"xu_freq", "yu_freq", "xf_freq", "yf_freq", "xu_offset", "yu_offset", "xf_offset", "yf_offset"}) P(x, 0, 1);
      for (const char *x : {"lx", "ly", "rx", "ry", "dx", "dy", "ux", "uy"}) { f.params[x] = g.below(2); f.fixed.push_back(x); }
      f.params["lx"] = 1;
   }
   else if (f.solver == "linelast") { P("rdisp_f", 0.1, 2); P("lambda", 0.5, 2); P("mu", 0.5, 2); }
   else if (f.problem == "force_driven_corner") { P("nu", 0.5, 2); P("fx", -1, 1); P("fy", 0.25, 1); }
   else if (f.problem == "channel_flow") { P("nu", 0.5, 2); P("L", 0.5, 2); P("U", 0.2, 1); P("x0", 0, 1); }
   else if (f.problem == "flow_past_array" || f.problem == "advdiff_flow_past_array")
   {
      P("nu", 0.5, 2); P("u0_x", 0.2, 1); P("u0_y", 0.1, 0.5);
      for (const char *x : {"du_x", "du_y"}) P(x, 0, 0.2);
      for (const char *x : {"offsets_x", "k_u_x", "k_u_y", "k_v_x", "k_v_y"}) P(x, 0, 1);
      if (f.solver == "adv-diff") { P("q0", 0.5, 2); P("dq", 0, 0.5); P("qoffset", 0, 1); P("qk_x", 0, 1); P("qk_y", 0, 1); }
      if (g.below(2)) { f.params["u0_x"] *= -1; f.fixed.push_back("u0_x"); }
      if (g.below(2)) { f.params["u0_y"] *= -1; f.fixed.push_back("u0_y"); }
   }
   else { P("nu", 0.5, 2); f.params["y0"] = -100; f.params["y1"] = 100; P("u0", 0.1, 0.5); P("amp0", 0.01, 0.2); P("ky0", 0, 1); P("freq0", 0.5, 2); P("t_offset0", 0, 1); }
   f.order = c.flip(1, 4) ? 2 : 1;
   if (flow) f.order = 1;
   f.full_dg = c.flip(1, 3) && f.solver != "adv-diff";
   if (f.solver == "adv-diff") f.more += fmt("adv-diff:\n  peclet_number: %.17g\n", 4.0 * g.below(64) / 64);
   for (const char *x : {"bdr_idx", "y0", "y1"}) f.fixed.push_back(x);
   if (subs && f.lib.dim == 2 && c.flip(1, subs)) decomposed(c, f, maxcells, maxn);
   else assembly(c, f, maxcells, "global.h5");
   return f;
}
void redraw_assembly(Ctx &c, FullCfg &f, int maxcells, const std::string &global) { assembly(c, f, maxcells, global); }
bool regrow_assembly(Ctx &c, FullCfg &f, int maxcells, const std::string &global)
{
   Assembly b;
   if (!grow_assembly(c, f.a, maxcells, b)) return false;
   f.a = b;
   Rng g = c.stream();
   boundaries(f, g);
   f.o = plain_opt(f.a); f.o.global = global;
   return true;
}
void enclose(Ctx &c, FullCfg &f)
{
   f.problem = "lid_driven_cavity"; f.params.clear();
   Rng g = c.stream();
   f.params["nu"] = 0.5 + g.below(1024) / 1024.0; f.params["u0"] = 0.2 + g.below(1024) / 1024.0; f.params["L"] = 0.5 + g.below(1024) / 1024.0;
   f.fixed.clear();
   boundaries(f, g);
}
void put_full(Ctx &c, const FullCfg &f, const std::string &disk)
{
   if (f.sub) { write_file(disk + "/" + f.mesh_file, f.mesh_text); return; }
   put_meshes(f.lib, disk); put_global(c, f.a, f.o, disk);
}
} // namespace sim

namespace sim {
std::vector<std::string> FullCfg::free_params() const
{
   std::vector<std::string> k;
   for (auto &p : params) if (std::find(fixed.begin(), fixed.end(), p.first) == fixed.end()) k.push_back(p.first);
   return k;
}
bool FullCfg::connected() const
{
   std::vector<int> grp(a.cells.size()); for (size_t k = 0; k < grp.size(); k++) grp[k] = k;
   for (size_t n = 0; n < grp.size(); n++) for (auto &i : a.ifs) grp[i.m1] = grp[i.m2] = std::min(grp[i.m1], grp[i.m2]);
   for (int x : grp) if (x) return false;
   return true;
}
} // namespace sim
