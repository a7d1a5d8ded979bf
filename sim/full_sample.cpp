// Sampling on several processes: C14.
#include "full.hpp"
#include "poisson_solver.hpp"
#include "stokes_solver.hpp"
#include "linelast_solver.hpp"
#include "workload.hpp"
#include <algorithm>
#include <cmath>
#include <sys/stat.h>
#include <unistd.h>
using namespace mfem;
namespace sim {

struct Space { std::vector<std::string> key, type; std::vector<int> size; std::vector<double> lo, hi; bool random = false; int nrandom = 0, offset = 0; long total() const { long t = 1; if (random) return nrandom; for (int s : size) t *= s; return t; } };
static std::string space_yaml(const Space &s, const std::string &prefix, const std::string &file_fmt)
{
   std::string y = std::string("sample_generation:\n  type: ") + (s.random ? "random" : "base") + "\n  maximum_number_of_snapshots: 10000\n  report_frequency: 1\n  file_path:\n    directory: \"out\"\n    prefix: \"" + prefix + fmt("\"\n    offset: %d\n", s.offset);
   if (s.random) y += fmt("  random_sample_generator:\n    number_of_samples: %d\n", s.nrandom);
   y += "  parameters:\n";
   for (size_t p = 0; p < s.key.size(); p++)
   {
      y += "    - key: " + s.key[p] + "\n      type: " + s.type[p] + fmt("\n      sample_size: %d\n", s.size[p]);
      if (s.type[p] == "double") y += fmt("      minimum: %.17g\n      maximum: %.17g\n", s.lo[p], s.hi[p]);
      else y += fmt("      minimum: %d\n      maximum: %d\n", (int)s.lo[p], (int)s.hi[p]);
      if (s.type[p] == "filename") y += "      format: \"" + file_fmt + "\"\n";
   }
   return y;
}
static const char *tail(const std::string &s, size_t n = 300) { return s.c_str() + (s.size() > n ? s.size() - n : 0); }

// every index belongs to exactly one process; nested and flat indices correspond
static void distribution(Ctx &c)
{
   Space s;
   int np = 1 + c.choose(4);
   for (int p = 0; p < np; p++)
   {
      static const char *types[] = {"double", "integer"};
      s.type.push_back(types[c.choose(2)]);
      s.key.push_back(fmt("single_run/p/x%d", p)); s.size.push_back(1 + c.choose(np == 1 ? 40 : 7));
      s.lo.push_back(0); s.hi.push_back(s.type.back() == "integer" ? s.size.back() - 1 : 1);
      if (s.size.back() == 1) s.hi.back() = s.lo.back();
   }
   s.random = c.flip(1, 4); s.nrandom = 1 + c.choose(50);
   int n = 1 + c.choose(c.thorough ? 12 : 6);
   long tot = s.total();
   std::string y = "parameterized_problem:\n  name: p\n" + space_yaml(s, "r", "f%d");
   std::string d = c.disk("disk");
   JobOpt jo; for (int r = 0; r < n; r++) { NodeOpt o; draw_benign(c, o.plan); jo.node.push_back(o); }
   draw_schedule(c, jo, n, 20);
   // the communicator need not be that of all processes
   bool sub = n > 2 && c.flip(1, 3);
   JobOut j = run_job(c, "distribute", d, n, jo, [&](int r, Out &o)
   {
      config.dict_ = YAML::Load(y);
      MPI_Comm comm = MPI_COMM_WORLD;
      if (sub) MPI_Comm_split(MPI_COMM_WORLD, r % 2, -r, &comm);
      SampleGenerator *g = InitSampleGenerator(comm);
      g->SetParamSpaceSizes();
      o.i(g->GetTotalSampleSize()); o.i(g->GetFileOffset());
      for (int k = 0; k < g->GetTotalSampleSize(); k++)
      {
         Array<int> nest = g->GetSampleIndex(k);
         o.i(g->IsMyJob(k)); o.i(g->IsMyJob(nest)); o.i(g->GetSampleIndex(nest)); o.i(nest.Size());
         for (int v : nest) o.i(v);
         o.s(g->GetSamplePath(k + g->GetFileOffset(), "sol"));
      }
      delete g;
   });
   c.nontrivial = n > 1;
   c.cov(c.sched_hash); c.cov(tot); c.cov(n);
   if (!j.all_ok()) c.violation("distribution-failed", "distributing %ld samples over %d processes failed: %s %s", tot, n, j.summary().c_str(), tail(j.r[0].console));
   std::map<int, std::vector<std::vector<int> > > owner; // group -> per index owners
   std::set<std::string> paths;
   for (int r = 0; r < n; r++)
   {
      int grp = sub ? r % 2 : 0;
      auto &ow = owner[grp]; ow.resize(tot);
      In in(j.r[r].out);
      if (in.i() != tot) c.violation("sample-count", "the sample space of %ld samples has another size on process %d", tot, r);
      in.i();
      std::set<std::vector<int> > seen;
      for (int k = 0; k < tot; k++)
      {
         bool m1 = in.i(), m2 = in.i(); long back = in.i(); int q = in.i(); std::vector<int> nest; for (int p = 0; p < q; p++) nest.push_back(in.i());
         std::string path = in.s();
         if (m1 != m2) c.violation("ownership", "sample %d belongs to process %d by its flat index and not by its nested index (or the reverse)", k, r);
         if (back != k) c.violation("index-map", "sample %d maps to a nested index that maps to sample %ld", k, back);
         if (q != (int)s.key.size()) c.violation("index-map", "nested index of %d entries", q);
         if (!s.random) for (int p = 0; p < q; p++) if (nest[p] < 0 || nest[p] >= s.size[p]) c.violation("index-map", "sample %d has index %d in parameter %d of %d values", k, nest[p], p, s.size[p]);
         if (!seen.insert(nest).second) c.violation("index-map", "two samples have the same nested index");
         if (m1) ow[k].push_back(r);
         if (r == 0 && !paths.insert(path).second) c.violation("sample-path", "two samples share the path %s", path.c_str());
      }
      if (in.bad || !in.end()) c.violation("sample-count", "unexpected output");
   }
   for (auto &g : owner) for (int k = 0; k < tot; k++)
      if (g.second[k].size() != 1) c.violation("ownership", "sample %d of %ld is assigned to %zu of the %d processes", k, tot, g.second[k].size(), n);
}

// the snapshots that a sampling process stored, as the training reads them, against the solutions it saved
static std::vector<std::string> variables(const FullCfg &f)
{
   if (f.solver == "linelast") return LinElastSolver::GetVariableNames();
   return f.nvar() == 1 ? PoissonSolver::GetVariableNames() : StokesSolver::GetVariableNames();
}
static void check_snapshots(Ctx &c, const FullCfg &f, const std::string &disk, const std::string &yaml, const std::vector<std::string> &solutions)
{
   std::set<std::string> pk; if (!f.sub) for (auto &i : f.a.ifs) pk.insert(fmt("%d|%d|%d|%d", f.a.cells[i.m1].comp, f.a.cells[i.m2].comp, i.a1, i.a2));
   std::vector<std::string> vars = variables(f), tags;
   for (auto &k : f.a.comps) for (size_t v = 0; v < (f.separate ? vars.size() : 1); v++) tags.push_back(f.separate ? k.name + "_" + vars[v] : k.name);
   NodeOut r = run_node(c, "read the snapshots", disk, NodeOpt(), [&](Out &q)
   {
      pause_faults(true);
      config.dict_ = YAML::Load(yaml);
      {
         SampleGenerator gen(MPI_COMM_WORLD);
         for (auto &k : f.a.comps) for (size_t v = 0; v < (f.separate ? vars.size() : 1); v++)
         {
            BasisTag t = f.separate ? BasisTag(k.name, vars[v]) : BasisTag(k.name);
            std::vector<std::string> fl = {gen.GetBaseFilename(gen.GetSamplePrefix(), t) + "_snapshot"};
            gen.CollectSnapshotsByBasis("chk", t, fl);
            auto a = gen.LookUpSnapshot(t);
            q.i(a->numRows()); q.i(a->numColumns());
            for (int j = 0; j < a->numColumns(); j++) for (int i = 0; i < a->numRows(); i++) q.d(a->item(i, j));
         }
      }
      {
         SampleGenerator gen(MPI_COMM_WORLD);
         gen.CollectSnapshotsByPort("chk", gen.GetSamplePrefix() + ".port.h5");
         for (auto &x : pk)
         {
            int k[4]; sscanf(x.c_str(), "%d|%d|%d|%d", k, k + 1, k + 2, k + 3);
            PortTag t; t.Mesh1 = f.a.comps[k[0]].name; t.Mesh2 = f.a.comps[k[1]].name; t.Attr1 = k[2]; t.Attr2 = k[3];
            Array2D<int> *a = gen.LookUpSnapshotPortColOffsets(t);
            q.i(a->NumRows()); for (int i = 0; i < a->NumRows(); i++) { q.i((*a)(i, 0)); q.i((*a)(i, 1)); }
         }
      }
      for (auto &x : solutions)
      {
         hid_t h = H5Fopen(x.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
         Vector v; hdf5_utils::ReadDataset(h, "solution", v);
         H5Fclose(h);
         q.i(v.Size()); q.raw(v.GetData(), 8 * v.Size());
      }
   });
   if (!r.ok()) c.violation("snapshots-unreadable", "the snapshots of a sampling without faults cannot be read: %s (%s) %s", r.name(), r.how.c_str(), tail(r.console));
   In in(r.out);
   struct M { int nr, nc; std::vector<double> x; int used = 0; };
   std::map<std::string, M> m;
   for (auto &t : tags) { M a; a.nr = in.i(); a.nc = in.i(); a.x.resize((size_t)a.nr * a.nc); in.raw(a.x.data(), 8 * a.x.size()); m[t] = a; }
   std::map<std::string, std::multiset<std::pair<int, int> > > got, want;
   for (auto &x : pk) { int n = in.i(); while (n-- > 0) { int a = in.i(), b = in.i(); got[x].insert({a, b}); } }
   for (auto &sol : solutions)
   {
      int n = in.i(); std::vector<double> u(n); in.raw(u.data(), 8 * n);
      size_t at = 0; std::vector<int> col;
      for (auto &q : f.a.cells) for (size_t v = 0; v < (f.separate ? vars.size() : 1); v++)
      {
         std::string t = f.a.comps[q.comp].name + (f.separate ? "_" + vars[v] : "");
         M &a = m[t];
         if (!v) col.push_back(a.used);
         if (a.used >= a.nc) c.violation("snapshot-missing", "%s has %d snapshots, but %s of %zu solutions is not the last", t.c_str(), a.nc, sol.c_str(), solutions.size());
         if (at + a.nr > u.size() || memcmp(&a.x[(size_t)a.nr * a.used], &u[at], 8 * a.nr))
            c.violation("snapshot-content", "snapshot %d of %s is not the part of the solution in %s", a.used, t.c_str(), sol.c_str());
         a.used++; at += a.nr;
      }
      if (at != u.size()) c.violation("snapshot-content", "the snapshots have %zu of the %zu values of a solution", at, u.size());
      if (!f.sub) for (auto &i : f.a.ifs) want[fmt("%d|%d|%d|%d", f.a.cells[i.m1].comp, f.a.cells[i.m2].comp, i.a1, i.a2)].insert({col[i.m1], col[i.m2]});
   }
   for (auto &x : m) if (x.second.used != x.second.nc) c.violation("snapshot-extra", "%s has %d snapshots of %zu solutions, %d are expected", x.first.c_str(), x.second.nc, solutions.size(), x.second.used);
   for (auto &x : want) if (got[x.first] != x.second) c.violation("port-record", "the records of port %s do not point at the snapshots of neighbouring subdomains of one solution", x.first.c_str());
   c.counters["snapshots:checked"]++;
}

static void generate(Ctx &c)
{
   static const std::vector<std::string> kinds = {"poisson", "poisson", "linelast", "stokes", "unsteady-ns", "adv-diff"};
   FullCfg f = draw_full(c, kinds, 2, 3, 1, false, 8);
   f.direct = c.flip(2, 3) || f.solver == "stokes" || f.solver == "unsteady-ns" || f.solver == "adv-diff";
   f.amg = !f.direct && (f.solver == "linelast" || c.flip(1, 3));
   if (!f.direct) f.solver_opt += "  relative_tolerance: 1.0e-10\n  absolute_tolerance: 1.0e-14\n  max_iter: 5000\n";
   f.separate = f.solver == "unsteady-ns" || c.flip(1, 3);
   std::string d = c.disk("disk");
   put_full(c, f, d);
   mkdir((d + "/out").c_str(), 0755);
   // parameters of the problem
   Space s;
   std::vector<std::string> keys = f.free_params();
   int np = 1 + c.choose(2);
   Rng g = c.stream();
   for (int p = 0; p < np; p++)
   {
      int k = g.below(keys.size());
      s.key.push_back("single_run/" + f.problem + "/" + keys[k]); double v = f.params[keys[k]];
      keys.erase(keys.begin() + k);
      s.size.push_back(1 + c.choose(3)); s.type.push_back("double"); s.lo.push_back(v); s.hi.push_back(v * 1.5 + (v == 0));
   }
   if (!f.sub && c.flip(1, 4))
   {  // the boundary conditions vary by file
      s.key.push_back("mesh/component-wise/global_config"); s.type.push_back("filename"); s.size.push_back(2); s.lo.push_back(0); s.hi.push_back(1);
      for (int q = 0; q < 2; q++)
      {
         FullCfg h = f; h.o.global = fmt("bc%d.h5", q);
         if (q) std::reverse(h.a.bdr.begin(), h.a.bdr.end());
         put_global(c, h.a, h.o, d);
      }
   }
   s.random = c.flip(1, 6);
   if (s.random) { s.nrandom = 1 + c.choose(5); if (f.solver == "linelast") { f.direct = true; f.amg = false; } }   // a random sample is drawn until it converges
   // some samples of the random generator do not converge (k = 1) and are replaced (by one with k = 0)
   bool flaky = s.random && f.problem == "poisson0" && c.flip(1, 2);
   if (flaky)
   {
      f.direct = false; f.amg = false;
      f.solver_opt = fmt("  relative_tolerance: 1.0e-14\n  absolute_tolerance: 1.0e-14\n  max_iter: %d\n", 1 + (int)c.choose(2));
      f.params["offset"] = 0;
      s.key = {"single_run/poisson0/k"}; s.type = {"integer"}; s.size = {1}; s.lo = {0}; s.hi = {1};
      s.nrandom = 2 + c.choose(6);
   }
   s.offset = c.flip(1, 4) ? c.choose(20) : 0;
   long tot = s.total();
   int n = c.flip(1, 8) ? 1 + c.choose(4) : std::min<long>(tot, 1 + c.choose(5));
   bool visual = c.flip(1, 10), own = !c.flip(1, 4);
   // known finding: the profile of an object that lives as long as one sample is a collective operation
   bool profile = c.flip(1, 25);
   f.more += "save_solution:\n  enabled: true\n  file_path:\n    directory: out\n";
   if (visual) f.more += "visualization:\n  enabled: true\n  file_path:\n    directory: out\n    prefix: pv\n";
   if (visual && c.flip(1, 2)) { int n = f.a.cells.size(); f.more += fmt("  domain_offset: %d\n  domain_frequency: %d\n", (int)c.choose(n), 1 + (int)c.choose(n)); }
   if (f.solver == "unsteady-ns") f.more += "navier-stokes:\n  operator-type: lf\ntime-integration:\n  number_of_timesteps: 2\n  timestep_size: 0.01\n";
   if (profile) f.more += "time_profile:\n  InterfaceForm: true\n";
   std::string samp;
   if (f.solver == "unsteady-ns") samp = "  time-integration:\n    sample_interval: 1\n";
   c.note("%s: %ld samples on %d processes%s%s", f.str().c_str(), tot, n, flaky ? ", random, some fail" : s.random ? ", random" : "", own ? "" : ", one file prefix");
   // known finding: the restart files of an unsteady solve have the same names for all samples
   bool restart = f.solver == "unsteady-ns" && n > 1 && c.flip(1, 12);
   auto sample = [&](const std::string &prefix, int r)
   {
      config.dict_ = YAML::Load(f.yaml() + space_yaml(s, prefix, "bc%d.h5") + samp);
      config.dict_["save_solution"]["file_path"]["prefix"] = f.solver == "unsteady-ns" && !restart ? fmt("sol%d", r) : std::string("sol");
      GenerateSamples(MPI_COMM_WORLD);
   };
   NodeOpt no; no.cpu_s = 60;
   std::string dref = c.clone(d, "reference");
   NodeOut ref = run_node(c, "one process", dref, no, [&](Out &) { sample("all", 0); });
   // the penalty of this discretization of elasticity does not make every matrix definite, on coarse triangles not even regular
   // (a part of a flow without an outlet has no unique pressure either)
   if (!ref.ok())
      for (const char *m : {"fails to converge", "matrix is singular", "Error during solve"})
         if ((f.solver == "linelast" || !strcmp(m, "matrix is singular")) && ref.console.find(m) != std::string::npos) { c.counters["not-converged"]++; return; }
   if (!ref.ok() && f.solver == "unsteady-ns" && ref.console.find("blew up") != std::string::npos) { c.counters["blew-up"]++; return; }
   if (!ref.ok()) c.violation("sampling-failed", "sampling on one process failed without a fault: %s (%s) %s", ref.name(), ref.how.c_str(), tail(ref.console));
   JobOpt jo;
   int faulty = c.flip(1, 5) ? (int)c.choose(n) : -1;
   for (int r = 0; r < n; r++)
   {
      NodeOpt o; o.cpu_s = 60;
      if (r == faulty) o.plan = draw_fault(c, c.flip(1, 2) ? FC_CRASH : FC_WRITE | FC_OPEN, ref, "_sol");
      else draw_benign(c, o.plan);
      jo.node.push_back(o);
   }
   draw_schedule(c, jo, n, n * 20);
   jo.max_steps = 20000 + 4 * n * ref.ops.size();
   JobOut j = run_job(c, "sampling", d, n, jo, [&](int r, Out &) { sample(own ? fmt("run%d", r) : "all", r); });
   bool fired = false; for (auto &r : j.r) fired |= r.fired;
   c.nontrivial = n > 1;
   for (auto &r : j.r) { c.counters["rank:" + std::string(r.name())]++; c.cov(r.hash); }
   c.cov(c.sched_hash);
   std::string prof = std::string(profile ? " with the time profile of InterfaceForm" : "") + (restart ? " with the restart files of all samples under one name" : "");
   if (j.deadlock) c.violation("sampling-hangs", "sampling %ld samples on %d processes%s does not end: every process waits. %s", tot, n, prof.c_str(), j.summary().c_str());
   for (auto &r : j.r) if (r.st == NodeOut::HANG) c.violation("sampling-hangs", "sampling %ld samples on %d processes%s does not end: %s", tot, n, prof.c_str(), j.summary().c_str());
   // an idle process is refused; a shared prefix is written by all at once, which may be refused
   bool must = !fired && own && tot >= n;
   if (must && !j.all_ok())
   {
      std::string con; for (auto &r : j.r) if (!r.ok()) con += fmt("[%s: %s]", r.name(), tail(r.console, 200));
      c.violation("sampling-failed", "sampling %ld samples on %d processes%s failed without a fault: %s %s %s", tot, n, prof.c_str(), j.summary().c_str(), j.mpi_error.c_str(), con.c_str());
   }
   // who worked on which sample
   auto opens = [&](const NodeOut &o, int k)
   {
      int cnt = 0; std::string w = fmt("sample%d_", k);
      auto match = [&](const std::string &p) { return p.find(w) != std::string::npos && p.find(".h5") != std::string::npos; };
      for (auto &op : o.ops) if (op.type == T_OPEN && match(o.paths[op.path])) cnt++;
      if (!cnt) for (auto &p : o.paths) if (match(p)) cnt = 1;   // only the first operations are recorded one by one
      return cnt;
   };
   bool all_ops = ref.ops.size() < 60000; for (auto &r : j.r) all_ops &= r.ops.size() < 60000;
   for (int k = s.offset; k < s.offset + tot; k++)
   {
      int want = opens(ref, k), who = 0, cnt = 0;
      for (auto &r : j.r) { int q = opens(r, k); cnt += q; who += q > 0; }
      if (who > 1) c.violation("sample-twice", "sample %d was generated by %d processes", k, who);
      if (j.all_ok() && who != 1) c.violation("sample-missing", "sample %d of %ld was generated by no process of %d", k, tot, n);
      if (!fired && all_ops && cnt > want) c.violation("sample-twice", "sample %d was generated %d times", k, cnt / std::max(want, 1));
   }
   // the same solutions as one process produces
   auto collect = [&](const std::string &dir, std::map<std::string, std::string> &out, bool strict)
   {
      std::vector<std::string> names;
      for (auto &x : list_dir(dir + "/out")) if (x.substr(0, 6) == "sample" && x.size() > 3 && x.substr(x.size() - 3) == ".h5" && x.find("port") == std::string::npos) names.push_back(x);
      std::sort(names.begin(), names.end());
      NodeOut r = run_node(c, "read the solutions", dir, NodeOpt(), [&](Out &q)
      {
         pause_faults(true);
         H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
         for (auto &y : names)
         {
            hid_t h = H5Fopen(("out/" + y).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
            std::string x = y.substr(0, y.find('_'));
            hid_t ds = h < 0 ? -1 : H5Dopen2(h, "solution", H5P_DEFAULT);
            q.s(x);
            if (ds < 0) { q.i(-1); continue; }
            H5Dclose(ds);
            Vector v; hdf5_utils::ReadDataset(h, "solution", v);
            q.i(v.Size()); q.raw(v.GetData(), 8 * v.Size());
            H5Fclose(h);
         }
      });
      if (!r.ok()) { if (strict) c.violation("solution-unreadable", "a solution file cannot be read: %s", tail(r.console)); return; }
      In in(r.out);
      while (!in.end()) { std::string x = in.s(); long m = in.i(); if (m < 0) { if (strict) c.violation("solution-unreadable", "%s cannot be read", x.c_str()); continue; } std::string b(8 * m, 0); in.raw(&b[0], 8 * m); out[x] = b; }
   };
   std::map<std::string, std::string> a, b;
   collect(dref, a, true);
   if ((long)a.size() != tot) c.violation("sample-missing", "one process alone produced %zu solutions of %ld samples", a.size(), tot);
   collect(d, b, j.all_ok());
   for (auto &x : b)
   {
      if (!a.count(x.first)) c.violation("sample-extra", "%s is not produced by one process", x.first.c_str());
      if (!s.random && a[x.first] != x.second)
      {
         double e = 0; size_t m = std::min(x.second.size(), a[x.first].size()) / 8;
         for (size_t k = 0; k < m; k++) { double u, v; memcpy(&u, &x.second[8 * k], 8); memcpy(&v, &a[x.first][8 * k], 8); e = std::max(e, std::fabs(u - v)); }
         size_t at = 0; double u = 0, v = 0; for (size_t k = 0; k < m; k++) if (memcmp(&x.second[8 * k], &a[x.first][8 * k], 8)) { at = k; memcpy(&u, &x.second[8 * k], 8); memcpy(&v, &a[x.first][8 * k], 8); break; }
         c.violation("sample-differs", "%s differs from what one process produces: sizes %zu and %zu, largest difference %g, first at %zu: %.17g instead of %.17g", x.first.c_str(), x.second.size() / 8, a[x.first].size() / 8, e, at, u, v);
      }
   }
   if (j.all_ok()) for (auto &x : a) if (!b.count(x.first)) c.violation("sample-missing", "%s is not produced by %d processes", x.first.c_str(), n);
   // what the training will use: exactly the solutions of the samples
   // (of one process: how the processes share a snapshot file is up to libROM, for which there is a stand-in here)
   if (f.solver != "unsteady-ns" && (flaky || c.flip(1, 3)))
   {
      std::vector<std::string> fs;
      for (int k = s.offset; k < s.offset + tot; k++) fs.push_back(fmt("out/sample%d_sol.h5", k));
      check_snapshots(c, f, dref, f.yaml() + space_yaml(s, "all", "bc%d.h5"), fs);
   }
   if (!s.random && tot > 1)
   {  // different parameters, different samples: the parameters reach the solver
      std::set<std::string> u; for (auto &x : a) u.insert(x.second);
      c.counters[u.size() == a.size() ? "samples:all-different" : "samples:some-equal"]++;
   }
}

// C15: what the solvers themselves record
void real_snapshots(Ctx &c)
{
   static const std::vector<std::string> kinds = {"poisson", "linelast", "stokes", "steady-ns", "unsteady-ns", "adv-diff"};
   FullCfg f = draw_full(c, kinds, 3, 5, 1);
   f.direct = true; f.separate = c.flip(1, 2) || f.solver == "unsteady-ns";
   std::string d = c.disk("disk");
   put_full(c, f, d);
   mkdir((d + "/out").c_str(), 0755);
   Space s;
   std::vector<std::string> keys = f.free_params();
   Rng g = c.stream();
   bool uns = f.solver == "unsteady-ns";
   int np = uns ? 1 : 1 + c.choose(2);
   for (int p = 0; p < np; p++)
   {
      int k = g.below(keys.size());
      s.key.push_back("single_run/" + f.problem + "/" + keys[k]); double v = f.params[keys[k]];
      keys.erase(keys.begin() + k);
      s.size.push_back(uns ? 1 : 1 + c.choose(3)); s.type.push_back("double"); s.lo.push_back(v); s.hi.push_back(v * 1.5 + (v == 0));
   }
   s.offset = c.flip(1, 4) ? c.choose(20) : 0;
   std::string samp; std::vector<std::string> sol;
   if (uns)
   {
      int nt = 1 + c.choose(5), si = 1 + c.choose(std::min(nt, 3)), boot = c.flip(1, 2) ? c.choose(nt) : 0;
      for (int k = 1; k <= nt; k++) if (k > boot && k % si == 0) sol.push_back(fmt("out/sol_%08d.h5", k));
      if (sol.empty()) { boot = 0; for (int k = 1; k <= nt; k++) if (k % si == 0) sol.push_back(fmt("out/sol_%08d.h5", k)); }
      f.more += fmt("navier-stokes:\n  operator-type: lf\ntime-integration:\n  number_of_timesteps: %d\n  timestep_size: 0.01\n", nt);
      samp = fmt("  time-integration:\n    sample_interval: %d\n    bootstrap: %d\n", si, boot);
      f.more += "save_solution:\n  enabled: true\n  restart_interval: 1\n  file_path:\n    directory: out\n    prefix: sol\n";
   }
   else
   {
      for (long k = 0; k < s.total(); k++) sol.push_back(fmt("out/sample%ld_sol.h5", k + s.offset));
      f.more += "save_solution:\n  enabled: true\n  file_path:\n    directory: out\n    prefix: sol\n";
   }
   std::string y = f.yaml() + space_yaml(s, "gen", "") + samp;
   c.note("%s: %ld samples", f.str().c_str(), s.total());
   NodeOpt no; no.cpu_s = 60; draw_benign(c, no.plan);
   NodeOut r = run_node(c, "sampling", d, no, [&](Out &) { config.dict_ = YAML::Load(y); GenerateSamples(MPI_COMM_WORLD); });
   if (!r.ok())
   {
      for (const char *m : {"fails to converge", "matrix is singular", "blew up"}) if (r.console.find(m) != std::string::npos) { c.counters["no-unique-solution"]++; return; }
      c.violation("sampling-failed", "sampling failed without a fault: %s (%s) %s", r.name(), r.how.c_str(), tail(r.console));
   }
   c.nontrivial = sol.size() > 1;
   c.cov(r.hash);
   check_snapshots(c, f, d, y, sol);
}

static void c14(Ctx &c) { if (c.flip(1, 2)) generate(c); else distribution(c); }
static Reg r14("C14", c14, "one run = either the distribution of a random sample space over 1 to 6 processes, or the generation of 1 to 18 samples on 1 to 4 processes under a random schedule, possibly with a failing process, compared with the solutions one process produces; non-trivial = more than one process; distinct = operations of the processes and schedules");
} // namespace sim
