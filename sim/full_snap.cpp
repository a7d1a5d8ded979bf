// Snapshots and port records: C15.
#include "full.hpp"
#include "workload.hpp"
#include "main_workflow.hpp"
#include "poisson_solver.hpp"
#include "stokes_solver.hpp"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
using namespace mfem;
namespace sim {

struct SnapRun
{
   std::string dir, prefix;
   std::vector<int> sample;             // assembly of each solution
   std::string base() const { return dir + "/" + prefix + "_sample"; }
};
struct SnapCase
{
   Lib lib; std::vector<Assembly> as; std::vector<std::string> yaml;
   bool separate; std::vector<std::string> vars; std::string solver;
   std::vector<SnapRun> runs;
   u64 seed;
   int nblk() const { return separate ? vars.size() : 1; }
   int dofs(const std::string &comp, int v) const { return 1 + (int)(hbytes(seed + v, comp.data(), comp.size()) % 6); }
   std::vector<double> column(int run, int s, int m, int v) const
   {
      const Assembly &a = as[runs[run].sample[s]];
      Rng g(hcomb(hcomb(seed, run * 1000 + s), m * 10 + v));
      std::vector<double> x(dofs(a.comps[a.cells[m].comp].name, v));
      for (auto &y : x) y = g.unit() * 2 - 1 + (double)m;
      return x;
   }
   std::string tag(const std::string &comp, int v) const { return separate ? comp + "_" + vars[v] : comp; }
};

static std::string gen_yaml(const SnapCase &k, const SnapRun &r, const std::string &more = "")
{
   return "main:\n  solver: " + k.solver + "\nsample_generation:\n  maximum_number_of_snapshots: 1000\n  report_frequency: 1\n  file_path:\n    directory: \"" + r.dir + "\"\n    prefix: \"" + r.prefix +
      "\"\n  parameters:\n    - key: single_run/p/x\n      type: double\n      sample_size: 1\n      minimum: 0.0\n      maximum: 1.0\nmodel_reduction:\n  separate_variable_basis: " + (k.separate ? "true" : "false") + "\n" + more;
}

// in a node: what a sampling process does with the solutions of its samples
static void write_run(const SnapCase &k, int run)
{
   const SnapRun &r = k.runs[run];
   config.dict_ = YAML::Load(gen_yaml(k, r));
   SampleGenerator gen(MPI_COMM_WORLD);
   pause_faults(true);
   std::map<int, ComponentTopologyHandler *> topo;
   for (int s : r.sample) if (!topo.count(s)) topo[s] = build_topology(k.yaml[s]);
   config.dict_ = YAML::Load(gen_yaml(k, r));
   pause_faults(false);
   for (size_t s = 0; s < r.sample.size(); s++)
   {
      const Assembly &a = k.as[r.sample[s]];
      Array<int> off(1); off[0] = 0;
      std::vector<BasisTag> tags;
      std::vector<std::vector<double> > x;
      for (size_t m = 0; m < a.cells.size(); m++) for (int v = 0; v < k.nblk(); v++)
      {
         std::string comp = a.comps[a.cells[m].comp].name;
         x.push_back(k.column(run, s, m, v));
         off.Append(off.Last() + x.back().size());
         tags.push_back(k.separate ? BasisTag(comp, k.vars[v]) : BasisTag(comp));
      }
      BlockVector U(off);
      for (size_t b = 0; b < x.size(); b++) for (size_t d = 0; d < x[b].size(); d++) U.GetBlock(b)[d] = x[b][d];
      Array<int> col;
      gen.SaveSnapshot(&U, tags, col);
      gen.SaveSnapshotPorts(topo[r.sample[s]], col);
   }
   gen.WriteSnapshots();
   gen.WriteSnapshotPorts();
}

struct Model
{
   std::map<std::string, std::vector<std::vector<double> > > cols;
   std::map<std::string, std::multiset<std::pair<std::vector<double>, std::vector<double> > > > ports; // "Mesh1|Mesh2|a1|a2"
};
static std::string pkey(const std::string &c1, const std::string &c2, int a1, int a2) { return c1 + "|" + c2 + fmt("|%d|%d", a1, a2); }
static void add_run(const SnapCase &k, int run, Model &m)
{
   const SnapRun &r = k.runs[run];
   for (size_t s = 0; s < r.sample.size(); s++)
   {
      const Assembly &a = k.as[r.sample[s]];
      for (size_t q = 0; q < a.cells.size(); q++) for (int v = 0; v < k.nblk(); v++)
         m.cols[k.tag(a.comps[a.cells[q].comp].name, v)].push_back(k.column(run, s, q, v));
      for (auto &i : a.ifs)
         m.ports[pkey(a.comps[a.cells[i.m1].comp].name, a.comps[a.cells[i.m2].comp].name, i.a1, i.a2)].insert({k.column(run, s, i.m1, 0), k.column(run, s, i.m2, 0)});
   }
}

// in a node: everything that was collected
static void dump(SampleGenerator &gen, const SnapCase &k, const Model &m, bool ports, Out &o)
{
   for (auto &x : m.cols)
   {
      std::string comp = x.first, var;
      if (k.separate) for (auto &v : k.vars) if (comp.size() > v.size() + 1 && comp.substr(comp.size() - v.size() - 1) == "_" + v) { var = v; comp = comp.substr(0, comp.size() - v.size() - 1); break; }
      auto a = gen.LookUpSnapshot(var.empty() ? BasisTag(comp) : BasisTag(comp, var));
      o.i(a->numRows()); o.i(a->numColumns());
      for (int j = 0; j < a->numColumns(); j++) for (int i = 0; i < a->numRows(); i++) o.d(a->item(i, j));
   }
   if (ports) for (auto &x : m.ports)
   {
      size_t p1 = x.first.find('|'), p2 = x.first.find('|', p1 + 1), p3 = x.first.find('|', p2 + 1);
      PortTag t; t.Mesh1 = x.first.substr(0, p1); t.Mesh2 = x.first.substr(p1 + 1, p2 - p1 - 1);
      t.Attr1 = atoi(x.first.c_str() + p2 + 1); t.Attr2 = atoi(x.first.c_str() + p3 + 1);
      Array2D<int> *a = gen.LookUpSnapshotPortColOffsets(t);
      o.i(a->NumRows()); for (int r = 0; r < a->NumRows(); r++) { o.i((*a)(r, 0)); o.i((*a)(r, 1)); }
   }
}
static std::string misfit(const SnapCase &k, const Model &m, bool ports, const NodeOut &r, std::string &sig);
static bool fits(const SnapCase &k, const Model &m, bool ports, const NodeOut &r) { std::string s; return misfit(k, m, ports, r, s).empty(); }
static void judge(Ctx &c, const SnapCase &k, const Model &m, bool ports, const NodeOut &r, const std::string &when)
{
   std::string sig, w = misfit(k, m, ports, r, sig);
   if (!w.empty()) c.violation(sig, "%s: %s", when.c_str(), w.c_str());
}
static std::string misfit(const SnapCase &k, const Model &m, bool ports, const NodeOut &r, std::string &sig)
{
   In in(r.out);
   std::map<std::string, std::vector<std::vector<double> > > got;
   for (auto &x : m.cols)
   {
      int nr = in.i(), nc = in.i();
      if (nc != (int)x.second.size()) return sig = "snapshot-count", fmt("the snapshots of %s have %d columns, %zu solutions were recorded", x.first.c_str(), nc, x.second.size());
      for (int j = 0; j < nc; j++)
      {
         std::vector<double> y(nr); for (auto &z : y) z = in.d();
         if (y != x.second[j]) return sig = "snapshot-content", fmt("column %d of the snapshots of %s is not the solution that was recorded", j, x.first.c_str());
         got[x.first].push_back(y);
      }
   }
   if (ports) for (auto &x : m.ports)
   {
      size_t p1 = x.first.find('|'), p2 = x.first.find('|', p1 + 1);
      auto &g1 = got[k.tag(x.first.substr(0, p1), 0)], &g2 = got[k.tag(x.first.substr(p1 + 1, p2 - p1 - 1), 0)];
      int n = in.i();
      std::multiset<std::pair<std::vector<double>, std::vector<double> > > have;
      for (int q = 0; q < n; q++)
      {
         int a = in.i(), b = in.i();
         if (a < 0 || b < 0 || a >= (int)g1.size() || b >= (int)g2.size()) return sig = "port-record", fmt("port %s refers to columns %d and %d of %zu and %zu", x.first.c_str(), a, b, g1.size(), g2.size());
         have.insert({g1[a], g2[b]});
      }
      if (have.size() != x.second.size()) return sig = "port-record", fmt("port %s has %zu records, its components met %zu times", x.first.c_str(), have.size(), x.second.size());
      if (have != x.second) return sig = "port-record", fmt("the records of port %s do not point at the snapshots of neighbouring subdomains of one solution", x.first.c_str());
   }
   if (in.bad || !in.end()) return sig = "snapshot-content", fmt("unexpected amount of data");
   return "";
}

static void c15(Ctx &c)
{
   if (c.flip(1, 6)) { real_snapshots(c); return; }
   SnapCase k;
   k.lib = make_lib(c, 3, c.flip(1, 8) ? 3 : 2);
   k.separate = c.flip(1, 2);
   k.solver = c.flip(1, 2) ? "stokes" : "poisson";
   k.vars = k.solver == "stokes" ? StokesSolver::GetVariableNames() : PoissonSolver::GetVariableNames();
   k.seed = c.choose(1ull << 32);
   std::string d0 = c.disk("disk");
   put_meshes(k.lib, d0);
   int na = 1 + c.choose(3);
   for (int q = 0; q < na; q++)
   {
      std::vector<int> order = shuffled(c, k.lib.comps.size()), sub;
      for (size_t t = 0; t < order.size(); t++) if (t == 0 || c.flip(2, 3)) sub.push_back(order[t]);
      Assembly a = make_assembly(c, k.lib, sub, 6);
      AsmOpt o = plain_opt(a); o.global = fmt("global%d.h5", q);
      put_global(c, a, o, d0);
      k.as.push_back(a); k.yaml.push_back(asm_yaml(a, o));
      c.note("assembly %d: %s", q, a.str().c_str());
   }
   int nr = 1 + c.choose(3);
   static const char *dirs[] = {".", "out", "out/a", "./out"};
   for (int q = 0; q < nr; q++)
   {
      SnapRun r; r.dir = dirs[c.choose(4)]; r.prefix = fmt("run%d", q);
      int ns = 1 + c.choose(3);
      for (int s = 0; s < ns; s++) r.sample.push_back(c.choose(na));
      k.runs.push_back(r);
   }
   if (mkdir((d0 + "/out").c_str(), 0755) || mkdir((d0 + "/out/a").c_str(), 0755)) { perror("mkdir"); exit(3); }
   // an earlier, different sampling run left its files under the name of one of the runs
   int renewed = c.flip(1, 3) ? (int)c.choose(nr) : -1;
   if (renewed >= 0)
   {
      SnapRun r = k.runs[renewed]; r.sample.clear();
      int ns = 1 + c.choose(3); for (int s = 0; s < ns; s++) r.sample.push_back(c.choose(na));
      k.runs.push_back(r);
      NodeOut w = run_node(c, "earlier sampling", d0, NodeOpt(), [&](Out &) { write_run(k, nr); });
      if (!w.ok()) c.violation("sampling-failed", "recording solutions without a fault failed: %s (%s) %s", w.name(), w.how.c_str(), w.console.substr(0, 300).c_str());
   }
   // write
   int faulty = c.flip(1, 3) ? (int)c.choose(nr) : -1;
   int crashed = -1;
   for (int q = 0; q < nr; q++)
   {
      NodeOpt o;
      if (q == faulty)
      {
         std::string dr = c.clone(d0, "rehearsal");
         NodeOut reh = run_node(c, "sampling (rehearsal)", dr, NodeOpt(), [&](Out &) { write_run(k, q); });
         o.plan = draw_fault(c, FC_WRITE | FC_OPEN | FC_CRASH | FC_LOCK, reh, ".port.h5");
         if (c.flip(1, 4)) { o.plan = FaultPlan(); o.plan.kind = F_CRASH_BEFORE; o.plan.at = c.choose(reh.nops); } // anywhere
      }
      else draw_benign(c, o.plan);
      NodeOut r = run_node(c, fmt("sampling %d", q), d0, o, [&](Out &) { write_run(k, q); });
      if (r.fired) c.nontrivial = true;
      c.counters["write:" + std::string(r.name())]++;
      if (q == faulty && !r.ok() && r.fired) { crashed = q; continue; }
      if (!r.ok()) c.violation("sampling-failed", "recording solutions without a fault failed: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
   }
   // read, several times
   int nread = 1 + c.choose(3);
   for (int t = 0; t < nread; t++)
   {
      bool byport = !c.flip(1, 4);
      std::vector<int> ord = shuffled(c, nr);
      size_t n = 1 + c.choose(nr); if (c.flip(1, 2)) n = nr;
      ord.resize(n);
      if (c.flip(1, 6)) ord.push_back(ord[0]);
      bool uses = std::find(ord.begin(), ord.end(), crashed) != ord.end();
      Model m;
      std::string more = fmt("sample_collection:\n  mode: %s\n", byport ? "port" : "basis"), mesh, when = "after collecting";
      for (int q : ord) { add_run(k, q, m); when += " " + k.runs[q].prefix; }
      if (!byport && uses) continue;
      SnapRun rd = k.runs[ord[0]]; rd.dir = dirs[c.choose(4)];
      if (byport)
      {
         int how = c.choose(2);
         more += "  port_files: [";
         for (size_t q = 0; q < ord.size(); q++) more += std::string(q ? ", " : "") + "\"" + k.runs[ord[q]].base() + ".port.h5\"";
         more += "]\n";
         if (how && ord.size() == 1) { more = "sample_collection:\n  mode: port\n"; rd = k.runs[ord[0]]; }
      }
      else
      {
         // every component of the input file must have snapshots, so the list is restricted to those that do
         mesh = "mesh:\n  type: component-wise\n  component-wise:\n    components:\n";
         std::string tags = "basis:\n  prefix: b\n  tags:\n";
         std::set<std::string> comps;
         for (int q : ord) for (int s : k.runs[q].sample) for (auto &cl : k.as[s].cells) comps.insert(k.as[s].comps[cl.comp].name);
         bool dflt = ord.size() == 1 && c.flip(1, 2);
         for (auto &x : comps)
         {
            mesh += "      - name: \"" + x + "\"\n        file: none.mesh\n";
            for (int v = 0; v < k.nblk(); v++)
            {
               tags += "    - name: \"" + k.tag(x, v) + "\"\n      number_of_basis: 1\n";
               if (dflt) continue;
               tags += "      snapshot_files: [";
               bool first = true;
               for (int q : ord)
               {
                  bool has = false;
                  for (int s : k.runs[q].sample) for (auto &cl : k.as[s].cells) has |= k.as[s].comps[cl.comp].name == x;
                  if (!has) continue;
                  tags += std::string(first ? "" : ", ") + "\"" + k.runs[q].base() + "_" + k.tag(x, v) + "_snapshot\""; first = false;
               }
               tags += "]\n";
            }
         }
         if (dflt) rd = k.runs[ord[0]];
         more += mesh + tags;
      }
      std::string y = gen_yaml(k, rd, more);
      auto read = [&](Out &o)
      {
         config.dict_ = YAML::Load(y);
         SampleGenerator gen(MPI_COMM_WORLD);
         CollectSamples(&gen);
         dump(gen, k, m, byport, o);
      };
      Model mo; for (int q : ord) add_run(k, uses && q == crashed && renewed == crashed ? nr : q, mo);
      auto read_old = [&](Out &o)
      {
         config.dict_ = YAML::Load(y);
         SampleGenerator gen(MPI_COMM_WORLD);
         CollectSamples(&gen);
         dump(gen, k, mo, byport, o);
      };
      NodeOpt o;
      std::string d = d0;
      if (byport && !uses && c.flip(1, 3))
      {
         NodeOut reh = run_node(c, "collect (rehearsal)", d0, NodeOpt(), read);
         o.plan = draw_fault(c, FC_READ | FC_OPEN | FC_LOCK, reh, ".port.h5");
      }
      else draw_benign(c, o.plan);
      NodeOut r = run_node(c, "collect", d, o, read);
      c.counters["read:" + std::string(r.name())]++;
      c.cov(r.hash);
      if (r.fired || ord.size() > 1) c.nontrivial = true;
      if (!r.ok())
      {
         if (r.st == NodeOut::HANG) c.violation("collect-hangs", "%s: the process neither ends nor fails", when.c_str());
         if (!uses && !r.fired) c.violation("collect-failed", "%s without a fault: %s (%s) %s", when.c_str(), r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
         continue;
      }
      if (uses && renewed == crashed)
      {
         // the complete data of the earlier run are as good
         NodeOut q = run_node(c, "collect (as the earlier run)", d, NodeOpt(), read_old);
         if (q.ok() && fits(k, mo, byport, q)) { c.counters["read:earlier"]++; continue; }
      }
      judge(c, k, m, byport, r, when + (uses ? " (one of which was interrupted while it was written)" : ""));
   }
}
static Reg r15("C15", c15, "one run = 1 to 3 sampling processes that record solutions of several assemblies (one may be killed or hit a disk error in its port file), then 1 to 3 processes that collect the files in various orders by port or by component; every column and every port record is compared with the model; non-trivial = several files combined or a fault fired; distinct = operations of the collecting processes");
} // namespace sim
