// Solution files and restarts: C16.
#include "full.hpp"
#include "workload.hpp"
#include "unsteady_ns_solver.hpp"
#include <algorithm>
#include <cmath>
#include <sys/stat.h>
#include <unistd.h>
using namespace mfem;
namespace sim {

struct Content { bool any = false, timed = false; u64 seed = 0; int step = 0; double time = 0; int cfg = 0; };
static double sol_value(u64 seed, int k)
{
   Rng g(hcomb(seed, k));
   u64 t = g.below(40);
   if (t == 0) return 0.0; if (t == 1) return -0.0; if (t == 2) return 1e300; if (t == 3) return 4.9e-324;
   return (g.unit() - 0.5) * std::pow(10.0, (double)g.below(12) - 6);
}
static std::string save_yaml(const std::string &dir, const std::string &prefix, bool enabled)
{ return std::string("save_solution:\n  enabled: ") + (enabled ? "true" : "false") + "\n  file_path:\n    directory: \"" + dir + "\"\n    prefix: \"" + prefix + "\"\n"; }

// one solver's output of what a load gave
static void put_solution(MultiBlockSolver *s, Out &o)
{
   BlockVector *U = s->GetSolution();
   o.i(U->NumBlocks());
   for (int b = 0; b < U->NumBlocks(); b++) { o.i(U->BlockSize(b)); o.raw(U->GetBlock(b).GetData(), 8 * U->BlockSize(b)); }
}

static void files(Ctx &c)
{
   int ncfg = 1 + c.choose(2);
   std::vector<FullCfg> cfg;
   std::string d = c.disk("disk");
   static const std::vector<std::string> kinds = {"poisson", "stokes", "linelast", "unsteady-ns", "steady-ns", "adv-diff"};
   for (int q = 0; q < ncfg; q++)
   {
      FullCfg f = draw_full(c, kinds, 2, 4, 2, false, 6);
      for (size_t k = 0; k < f.lib.comps.size(); k++) { f.lib.comps[k].file = fmt("c%d_", q) + f.lib.comps[k].file; for (auto &x : f.a.comps) if (x.name == f.lib.comps[k].name) x.file = f.lib.comps[k].file; }
      f.o.global = fmt("global%d.h5", q); f.mesh_file = fmt("parent%d.mesh", q);
      if (f.solver == "unsteady-ns") f.more += "navier-stokes:\n  operator-type: lf\ntime-integration:\n  number_of_timesteps: 1\n  timestep_size: 0.1\n";
      put_full(c, f, d);
      c.note("configuration %d: %s", q, f.str().c_str());
      cfg.push_back(f);
   }
   static const char *dirs[] = {".", "out", "./out", "/simdisk/out"};
   mkdir((d + "/out").c_str(), 0755);
   std::string dir = dirs[c.choose(4)], prefix = "sol";
   std::vector<std::string> names = {dir + "/" + prefix + ".h5", "a.h5", dir + "/sample0_solution.h5"};
   // model: file -> contents it may hold; first = the last completed save
   std::vector<std::vector<Content> > may(3);
   for (auto &m : may) m.push_back(Content());
   int nops = 2 + c.choose(5);
   for (int t = 0; t < nops; t++)
   {
      int q = c.choose(ncfg), fi = c.choose(3);
      if (t && !may[fi].back().any && !c.flip(1, 4)) for (int k = 0; k < 3; k++) if (may[k].back().any) { fi = k; if (may[k].size() == 1 && c.flip(3, 4)) q = may[k][0].cfg; break; }
      const FullCfg &f = cfg[q];
      bool write = t + 1 < nops && (t == 0 || c.flip(1, 2));
      if (write)
      {  // save one or several times from one process
         int ns = 1 + (c.flip(1, 3) ? c.choose(3) : 0);
         struct Save { int fi; bool dflt, timed, enabled; Content k; };
         std::vector<Save> sv;
         for (int s = 0; s < ns; s++)
         {
            Save x; x.fi = s ? (int)c.choose(3) : fi;
            x.timed = c.flip(1, 2); x.enabled = !c.flip(1, 8); x.dflt = !x.timed && x.fi == 0 && c.flip(1, 2);
            x.k.any = true; x.k.timed = x.timed; x.k.seed = c.choose(1ull << 32); x.k.cfg = q;
            x.k.step = c.flip(1, 4) ? 0 : (int)c.choose(100000); x.k.time = c.flip(1, 8) ? 0.0 : x.k.step * 1.0e-3 + 1.0 / 3.0;
            sv.push_back(x);
         }
         std::string y = f.yaml() + save_yaml(dir, prefix, true);
         auto save = [&](Out &o)
         {
            config.dict_ = YAML::Load(y);
            pause_faults(true);
            MultiBlockSolver *s = InitSolver();
            s->InitVariables();
            pause_faults(false);
            for (auto &x : sv)
            {
               s->SetSolutionSaveMode(x.enabled);
               BlockVector *U = s->GetSolution();
               for (int k = 0; k < U->Size(); k++) (*U)(k) = sol_value(x.k.seed, k);
               if (x.timed) s->SaveSolutionWithTime(names[x.fi], x.k.step, x.k.time);
               else if (x.dflt) s->SaveSolution();
               else s->SaveSolution(names[x.fi]);
               o.i(1);
            }
         };
         NodeOpt o;
         bool faulty = c.flip(1, 2);
         if (faulty)
         {
            NodeOut reh = run_node(c, "save (rehearsal)", c.clone(d, fmt("reh%d", t)), NodeOpt(), save);
            o.plan = draw_fault(c, c.flip(1, 2) ? FC_CRASH : FC_WRITE | FC_OPEN | FC_LOCK, reh, ".h5");
         }
         else draw_benign(c, o.plan);
         NodeOut r = run_node(c, fmt("save %s", names[fi].c_str()), d, o, save);
         c.counters["save:" + std::string(r.name())]++;
         if (r.fired) c.nontrivial = true;
         if (!r.ok() && !r.fired)
            c.violation("save-failed", "saving without a fault failed: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
         if (r.st == NodeOut::HANG) c.violation("save-hangs", "saving hangs");
         for (auto &x : sv)
         {
            if (!x.enabled) continue;    // nothing is saved
            auto &m = may[x.fi];
            if (r.ok()) { m.clear(); m.push_back(x.k); continue; }
            // interrupted: the new content, the new content without its time, what was there, or an error
            m.push_back(Content());
            m.push_back(x.k);
            if (x.timed) { Content w = x.k; w.timed = false; m.push_back(w); }
         }
      }
      else
      {  // load
         bool timed = c.flip(1, 2);
         std::string y = f.yaml() + save_yaml(dir, prefix, false);
         auto load = [&](Out &o)
         {
            config.dict_ = YAML::Load(y);
            pause_faults(true);
            MultiBlockSolver *s = InitSolver();
            s->InitVariables();
            *s->GetSolution() = -7.0;
            pause_faults(false);
            int step = -7; double time = -7.0;
            if (timed) s->LoadSolutionWithTime(names[fi], step, time); else s->LoadSolution(names[fi]);
            put_solution(s, o);
            o.i(step); o.d(time);
         };
         NodeOpt o;
         bool faulty = c.flip(1, 3);
         if (faulty)
         {
            NodeOut reh = run_node(c, "load (rehearsal)", d, NodeOpt(), load);
            o.plan = draw_fault(c, FC_READ | FC_OPEN | FC_LOCK, reh, ".h5");
         }
         else draw_benign(c, o.plan);
         NodeOut r = run_node(c, fmt("load %s%s", names[fi].c_str(), timed ? " with time" : ""), d, o, load);
         c.counters["load:" + std::string(r.name())]++;
         c.cov(r.hash);
         auto &m = may[fi];
         if (r.st == NodeOut::HANG) c.violation("load-hangs", "loading hangs");
         if (!r.ok())
         {
            bool must = m.size() == 1 && m[0].any && m[0].cfg == q && (!timed || m[0].timed) && !r.fired;
            if (must) c.violation("load-failed", "a solution saved by the same discretisation cannot be loaded: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
            continue;
         }
         In in(r.out);
         int nb = in.i(); std::vector<double> u; std::vector<int> sz;
         for (int b = 0; b < nb; b++) { int n = in.i(); sz.push_back(n); for (int k = 0; k < n; k++) u.push_back(in.d()); }
         int step = in.i(); double time = in.d();
         std::string why = "the file was never written";
         bool okay = false;
         for (auto &x : m)
         {
            if (!x.any || okay) continue;
            size_t bad = u.size();
            for (size_t k = 0; k < u.size(); k++) { double w = sol_value(x.seed, k); if (memcmp(&w, &u[k], 8)) { bad = k; break; } }
            if (bad < u.size()) { why = fmt("value %zu is %.17g, saved was %.17g", bad, u[bad], sol_value(x.seed, bad)); continue; }
            if (timed && !x.timed) { why = fmt("a time (step %d, time %.17g) was reported for a solution saved without one", step, time); continue; }
            if (timed && (step != x.step || memcmp(&time, &x.time, 8))) { why = fmt("step %d, time %.17g reported, saved were %d, %.17g", step, time, x.step, x.time); continue; }
            okay = true;
         }
         if (!okay) c.violation(why[0] == 'v' ? "solution-content" : "solution-time", "loading %s with %s returned normally, but %s", names[fi].c_str(), f.solver.c_str(), why.c_str());
         // another size must have been refused
         if (m.size() == 1 && m[0].cfg != q) c.counters["load:other-config"]++;
      }
   }
}

// ---- restart of an interrupted time integration ---------------------------------------
struct TimeRun { FullCfg f; int nt; double dt; int ri; bool visual; int vi; std::string part; };
static std::string run_yaml(const TimeRun &t, const std::string &restart)
{
   std::string s = t.f.yaml();
   s += fmt("navier-stokes:\n  operator-type: lf\ntime-integration:\n  number_of_timesteps: %d\n  timestep_size: %.17g\n", t.nt, t.dt);
   s += "save_solution:\n  enabled: true\n  restart_interval: " + fmt("%d", t.ri) + "\n  file_path:\n    directory: out\n    prefix: st\n";
   if (t.visual) s += fmt("visualization:\n  enabled: true\n  time_interval: %d\n  file_path:\n    directory: .\n    prefix: pv\n%s", t.vi, t.part.c_str());
   if (!restart.empty())
   {
      size_t p = s.find("solver:\n  direct_solve");
      s.insert(p + 8, "  use_restart: true\n  restart_file: \"" + restart + "\"\n");
   }
   return s;
}
static void restart(Ctx &c)
{
   TimeRun t;
   t.f = draw_full(c, {"unsteady-ns"}, 2, 3, 1);
   t.f.direct = true;
   t.nt = 2 + c.choose(6); static const double dts[] = {0.05, 0.01, 1.0 / 300.0}; t.dt = dts[c.choose(3)];
   t.ri = 1 + c.choose(3);
   t.visual = c.flip(1, 2); t.vi = t.visual ? (int)c.choose(4) - 1 : -1;
   if (t.visual && c.flip(1, 4)) { int n = t.f.a.cells.size(); t.part = fmt("  domain_offset: %d\n  domain_frequency: %d\n", (int)c.choose(n), 1 + (int)c.choose(n)); }
   c.note("%s, %d steps of %g, restart files every %d, %s", t.f.str().c_str(), t.nt, t.dt, t.ri, t.visual ? fmt("visualization every %d", t.vi).c_str() : "no visualization");
   std::string d = c.disk("disk");
   put_full(c, t.f, d);
   mkdir((d + "/out").c_str(), 0755);
   auto run = [&](const std::string &from) { std::string y = run_yaml(t, from); return [y](Out &o)
   {
      config.dict_ = YAML::Load(y);
      SingleRun(MPI_COMM_WORLD, "");
      o.i(1);
   }; };
   std::string dref = c.clone(d, "reference");
   NodeOpt no; no.cpu_s = 60;
   NodeOut ref = run_node(c, "uninterrupted run", dref, no, run(""));
   if (!ref.ok())
   {
      if (ref.console.find("blew up") != std::string::npos || ref.console.find("singular") != std::string::npos) { c.counters["restart:unstable"]++; return; }
      c.violation("run-failed", "a time integration without faults failed: %s (%s) %s", ref.name(), ref.how.c_str(), ref.console.substr(ref.console.size() > 400 ? ref.console.size() - 400 : 0).c_str());
   }
   // the final solution and the restart files written after step `after`
   auto final_of = [&](const std::string &dir, int after, Out &o)
   {
      NodeOut r = run_node(c, "read the solutions", dir, NodeOpt(), [&](Out &q)
      {
         pause_faults(true);
         std::vector<std::string> names = {"out/st.h5"};
         for (int k = after + 1; k <= t.nt; k++) if (k % t.ri == 0) names.push_back(fmt("out/st_%08d.h5", k));
         for (auto &x : names)
         {
            hid_t f = H5Fopen(x.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
            if (f < 0) { fprintf(stderr, "%s", x.c_str()); _exit(98); }
            Vector v; hdf5_utils::ReadDataset(f, "solution", v);
            int step = -1; double time = -1;
            if (x != names[0]) { hdf5_utils::ReadAttribute(f, "timestep", step); hdf5_utils::ReadAttribute(f, "time", time); }
            q.s(x); q.i(v.Size()); q.raw(v.GetData(), 8 * v.Size()); q.i(step); q.d(time);
            H5Fclose(f);
         }
      });
      if (!r.ok()) c.violation("final-unreadable", "a solution file of a run that ended normally cannot be read: %s", r.console.substr(r.console.size() > 200 ? r.console.size() - 200 : 0).c_str());
      o.b = r.out;
   };
   // interrupted: killed at an I/O operation (or not at all)
   std::string from;
   int lives = 1 + c.choose(3);
   bool complete = false;
   for (int l = 0; l < lives && !complete; l++)
   {
      NodeOpt o; o.cpu_s = 60;
      std::string dr = c.clone(d, fmt("rehearsal%d", l));
      NodeOut reh = run_node(c, "run (rehearsal)", dr, no, run(from));
      if (!reh.ok()) c.violation("restart-failed", "a run restarted from %s failed without a fault: %s (%s) %s", from.c_str(), reh.name(), reh.how.c_str(), reh.console.substr(reh.console.size() > 300 ? reh.console.size() - 300 : 0).c_str());
      if (c.flip(2, 3)) o.plan = draw_fault(c, c.flip(2, 3) ? FC_CRASH : FC_WRITE | FC_OPEN | FC_LOCK, reh, "out/");
      else o.plan.kind = F_CRASH_BEFORE, o.plan.at = c.choose(reh.nops);
      NodeOut r = run_node(c, "run" + (from.empty() ? "" : " from " + from), d, o, run(from));
      c.counters["run:" + std::string(r.name())]++;
      if (r.ok()) { complete = true; break; }
      c.nontrivial = true;
      // the newest restart file that is accepted
      std::vector<std::string> fs;
      for (auto &x : list_dir(d + "/out")) if (x.size() > 8 && x.substr(0, 3) == "st_") fs.push_back("out/" + x);
      std::sort(fs.rbegin(), fs.rend());
      if (c.flip(1, 3) && fs.size() > 1) fs.erase(fs.begin());
      from = "";
      for (auto &x : fs)
      {
         NodeOut p = run_node(c, "try " + x, c.clone(d, fmt("try%d_%zu", l, &x - &fs[0])), no, run(x));
         if (p.ok()) { from = x; break; }
         c.counters["restart-file:refused"]++;
         if (p.st == NodeOut::HANG) c.violation("restart-hangs", "restarting from %s hangs", x.c_str());
      }
   }
   if (!complete)
   {
      NodeOut r = run_node(c, "last run" + (from.empty() ? "" : " from " + from), d, no, run(from));
      if (!r.ok()) c.violation("restart-failed", "a run restarted from %s failed without a fault: %s (%s)", from.c_str(), r.name(), r.how.c_str());
      c.counters[from.empty() ? "restart:from-start" : "restart:from-file"]++;
   }
   Out got, want;
   int after = from.empty() ? 0 : atoi(from.c_str() + 7);
   final_of(dref, after, want);
   final_of(d, after, got);
   c.cov(hbytes(1, got.b.data(), got.b.size()));
   c.cov(hbytes(2, from.data(), from.size()));
   if (got.b != want.b)
   {
      In a(want.b), b(got.b);
      while (!a.end() && !b.end())
      {
         std::string x = a.s(); b.s(); int n = a.i(), m = b.i(); double e = 0, s = 0;
         for (int k = 0; k < n && n == m; k++) { double x = a.d(), y = b.d(); e = std::max(e, std::fabs(x - y)); s = std::max(s, std::fabs(x)); }
         int s1 = a.i(), s2 = b.i(); double t1 = a.d(), t2 = b.d();
         if (n == m && e == 0 && s1 == s2 && t1 == t2) continue;
         c.violation("restart-differs", "after restarting from %s, %s differs from the uninterrupted run: %d and %d values, largest difference %g of %g, step %d and %d, time %.17g and %.17g", from.empty() ? "the beginning" : from.c_str(), x.c_str(), n, m, e, s, s1, s2, t1, t2);
      }
      c.violation("restart-differs", "after restarting from %s the solution files differ", from.c_str());
   }
}

// ---- the flow an advection problem saves for later runs --------------------------------
static void flow(Ctx &c)
{
   FullCfg f = draw_full(c, {"adv-diff"}, 2, 3, 1);
   f.direct = true;
   if (!f.connected()) { c.counters["flow:disconnected"]++; return; }
   std::string d = c.disk("disk");
   put_full(c, f, d);
   mkdir((d + "/out").c_str(), 0755);
   f.more += save_yaml("out", "sol", true);
   static const char *files[] = {"flow.h5", "out/flow.h5", "/simdisk/out/flow.h5"};
   std::string file = files[c.choose(3)];
   auto run = [&](const FullCfg &g, bool save, bool load) { std::string y = g.yaml(), fl = file; return [y, fl, save, load](Out &o)
   {
      config.dict_ = YAML::Load(y);
      config.dict_["adv-diff"]["save_flow"] = save; config.dict_["adv-diff"]["load_flow"] = load; config.dict_["adv-diff"]["flow_file"] = fl;
      SingleRun(MPI_COMM_WORLD, "");
      pause_faults(true);
      hid_t h = H5Fopen("out/sol.h5", H5F_ACC_RDONLY, H5P_DEFAULT);
      Vector v; hdf5_utils::ReadDataset(h, "solution", v);
      H5Fclose(h);
      o.i(v.Size()); o.raw(v.GetData(), 8 * v.Size());
   }; };
   c.note("%s, flow in %s", f.str().c_str(), file.c_str());
   NodeOpt no; no.cpu_s = 60;
   NodeOut ref = run_node(c, "run", c.clone(d, "reference"), no, run(f, false, false));
   if (!ref.ok())
   {
      if (ref.console.find("singular") != std::string::npos) { c.counters["flow:singular"]++; return; }
      c.violation("run-failed", "a run without faults failed: %s (%s) %s", ref.name(), ref.how.c_str(), ref.console.substr(ref.console.size() > 300 ? ref.console.size() - 300 : 0).c_str());
   }
   bool written = false, torn = false;   // a complete flow file is there; it may be an incomplete one
   int nops = 2 + c.choose(3);
   for (int t = 0; t < nops; t++)
   {
      bool save = t == 0 || c.flip(1, 2), load = c.flip(2, 3);
      NodeOpt o; o.cpu_s = 60;
      if (c.flip(1, 2))
      {
         NodeOut reh = run_node(c, "run (rehearsal)", c.clone(d, fmt("rehearsal%d", t)), no, run(f, save, load));
         o.plan = c.flip(1, 2) ? draw_fault(c, FC_CRASH, reh) : draw_fault(c, FC_WRITE | FC_READ | FC_OPEN | FC_LOCK, reh, "flow");
      }
      else draw_benign(c, o.plan);
      NodeOut r = run_node(c, fmt("run%s%s", save ? " saving" : "", load ? " loading" : ""), d, o, run(f, save, load));
      c.counters["flow:" + std::string(r.name())]++;
      c.cov(r.hash);
      if (r.fired) c.nontrivial = true;
      if (r.st == NodeOut::HANG) c.violation("flow-hangs", "a run that saves or loads the flow hangs");
      if (!r.ok())
      {
         if (!r.fired && !(load && torn)) c.violation("flow-failed", "a run that %s the flow failed without a fault: %s (%s) %s", load ? "may load" : "saves", r.name(), r.how.c_str(), r.console.substr(r.console.size() > 300 ? r.console.size() - 300 : 0).c_str());
         if (save) torn = true;
         continue;
      }
      if (save && !load) { written = true; torn = false; }
      if (r.out != ref.out) c.violation("flow-differs", "a run that %s the flow ended normally with another solution than one that computes it", load ? "may load" : "saves");
   }
   if (!written || torn) return;
   // another discretisation of the flow is refused
   FullCfg g = f; g.order = 3 - f.order;
   NodeOut r = run_node(c, "run with another order", d, no, run(g, false, true));
   c.counters["flow:other-order:" + std::string(r.name())]++;
   if (r.ok()) c.violation("flow-size", "the flow of a discretisation of order %d was accepted for order %d", f.order, g.order);
}

static void c16(Ctx &c)
{
   if (c.flip(1, 10)) { flow(c); return; }
   if (c.flip(1, 4)) restart(c); else files(c);
}
static Reg r16("C16", c16, "one run = either 2 to 6 saves and loads of solution files by solvers of one or two configurations, some interrupted or failing, with every load compared bit for bit with what was saved; or a time integration that is killed up to three times and restarted from its files, compared bit for bit with an uninterrupted one; non-trivial = a fault fired; distinct = operations of the loads, final solutions");
} // namespace sim
