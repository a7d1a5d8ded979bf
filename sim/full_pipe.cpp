// The offline/online pipeline: C17.
#include "full.hpp"
#include "workload.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace mfem;
extern "C" int scaleup_main(int argc, char *argv[]);   // the program's main function
namespace sim {

enum Stage { SAMPLE, TRAIN, ENRICH, EQP, BUILD, ONLINE, NSTAGE, PRINT = NSTAGE };
static const char *stage_name[] = {"sample", "train", "enrich", "train-eqp", "build", "online", "print-eqp"};
static const char *stage_mode[] = {"sample_generation", "train_rom", "aux_train_rom", "train_eqp", "build_rom", "single_run", "print_eqp"};
struct Par { std::string key; int size; double lo, hi; double at(int k) const { return size == 1 ? lo : lo + (hi - lo) * k / (size - 1); } };
struct Pipe
{
   FullCfg f; std::vector<Par> par; std::map<std::string, int> nb; std::vector<double> sv0;
   std::map<std::string, long> rows;   // size of every basis vector
   std::string level = "none", mode = "basis", solver = "direct", order = "domain"; bool eqp = false, lf = false, precompute = false, linf = false; int ntrain = 1; bool load_fom = false, compare = true; long which = 0;
   std::string start;   // another start of Newton's method
   std::string prec = "none";
   double zeta = 1;             // factor of the convection
   bool enrich = false;         // the supremizers once more, by a stage of their own
   bool program = false;        // stages run as the program does: options, input file
   bool basis_visual = false, spectrum = false, right = false, system = false; std::string visual;   // further outputs
   int batches = 0; std::string gen = "gen";   // samples taken in several sampling runs
   bool has(int st) const { return st == EQP ? eqp : st == ENRICH ? enrich : true; }
   bool nonlinear() const { return f.solver == "steady-ns" || f.solver == "unsteady-ns"; }
   long total() const { long t = 1; for (auto &p : par) t *= p.size; return t; }
   std::map<std::string, double> values(long k) const   // the last parameter varies fastest
   { std::map<std::string, double> v; for (int p = (int)par.size() - 1; p >= 0; p--) { v[par[p].key] = par[p].at(k % par[p].size); k /= par[p].size; } return v; }
   std::string yaml(int st) const
   {
      FullCfg g = f;
      g.rom = true;
      // a nonlinear system has several solutions: Newton's method starts at the full one
      if (f.solver == "steady-ns" && st == ONLINE && !start.empty()) g.solver_opt += "  use_restart: true\n  restart_file: " + start + "\n";
      else if (f.solver == "steady-ns" && st == ONLINE && compare) g.solver_opt += fmt("  use_restart: true\n  restart_file: out/sample%ld_sol.h5\n", which);
      for (auto &v : values(which)) g.params[v.first] = v.second;
      bool sym = f.solver == "poisson";
      if (prec != "none") g.mr += "  preconditioner: " + prec + "\n";
      if (solver != "direct") { g.print_level = 0; g.solver_opt += "  relative_tolerance: 1.0e-12\n"; }
      if (system && st == ONLINE) g.mr += "  save_linear_system:\n    enabled: true\n    prefix: out/system\n";
      g.mr += "  linear_solver_type: " + solver + "\n  linear_system_type: " + (sym ? "spd" : "us") + "\n  ordering: " + order + "\n";
      g.mr += "  save_operator:\n    level: " + level + "\n    prefix: rom_op\n";
      g.mr += std::string("  compare_solution:\n    enabled: ") + (compare ? "true" : "false") + "\n    load_solution: " + (load_fom ? "true" : "false") + (system ? "\n    save_reduced_solution: true" : "") + fmt("\n    fom_solution_file: out/sample%ld_sol.h5\n", which);
      if (nonlinear()) g.mr += std::string("  nonlinear_handling: ") + (eqp ? "eqp\n  eqp:\n    relative_tolerance: 1.0e-11\n    precompute: " : "tensor\n");
      if (eqp) g.mr += std::string(precompute ? "true" : "false") + "\n    save_coords: out/coords.h5\n    criterion: " + (linf ? "linf\n" : "l2\n");
      if (nonlinear()) g.more += std::string("navier-stokes:\n  operator-type: ") + (lf ? "lf" : "base") + fmt("\n  zeta: %.17g\n", zeta);
      std::string ti;
      if (f.solver == "unsteady-ns") { g.more += "time-integration:\n  number_of_timesteps: 2\n  timestep_size: 0.01\n"; ti = "  time-integration:\n    sample_interval: 1\n"; }
      g.more += visual;
      g.more += std::string("basis:\n  prefix: bas\n  svd:\n    save_spectrum: ") + (spectrum ? "true" : "false") + (right ? "\n    update_right_sv: true\n" : "\n");
      if (basis_visual) g.more += "  visualization:\n    enabled: true\n    prefix: out/basis\n";
      auto files = [&](const std::string &name, const char *pad) { return std::string(pad) + name + fmt(":\n%s  minimum: 0\n%s  maximum: %d\n%s  format: \"", pad, pad, batches - 1, pad); };
      if (nb.empty()) g.more += "  number_of_basis: 1\n";
      else { g.more += "  tags:\n"; for (auto &b : nb) g.more += "    - name: \"" + b.first + fmt("\"\n      number_of_basis: %d\n", b.second) + (batches && mode == "basis" ? files("snapshot_format", "      ") + "out/gen%d_sample_" + b.first + "_snapshot\"\n" : ""); }
      g.more += "sample_collection:\n  mode: " + mode + "\n" + (batches && mode == "port" ? files("port_fileformat", "  ") + "out/gen%d_sample.port.h5\"\n" : "");
      g.more += "save_solution:\n  enabled: true\n  file_path:\n    directory: out\n    prefix: sol\n";
      g.more += "sample_generation:\n  type: base\n  maximum_number_of_snapshots: 1000\n" + ti + "  file_path:\n    directory: \"out\"\n    prefix: \"" + gen + "\"\n  parameters:\n";
      for (auto &p : par) g.more += "    - key: single_run/" + f.problem + "/" + p.key + fmt("\n      type: double\n      sample_size: %d\n      minimum: %.17g\n      maximum: %.17g\n", p.size, p.lo, p.hi);
      return g.yaml();
   }
};
static const char *tail(const std::string &s, size_t n = 300) { return s.c_str() + (s.size() > n ? s.size() - n : 0); }
static void run_stage(int st)
{
   if (st == SAMPLE) GenerateSamples(MPI_COMM_WORLD);
   else if (st == TRAIN)
   {
      // the default input of the training is one snapshot file per component
      TrainROM(MPI_COMM_WORLD);
   }
   else if (st == ENRICH) AuxiliaryTrainROM(MPI_COMM_WORLD);
   else if (st == EQP) TrainEQP(MPI_COMM_WORLD);
   else if (st == BUILD) BuildROM(MPI_COMM_WORLD);
   else if (st == PRINT) PrintEQPCoords(MPI_COMM_WORLD);
   else SingleRun(MPI_COMM_WORLD, "out/result.h5");
}
struct StageOut { std::vector<NodeOut> r; bool ok = false, hang = false; std::string what, con; std::string sum() const { return what + " " + con; } };
// runs one stage; the fault, if any, hits one of its processes
static StageOut stage(Ctx &c, const Pipe &p, int st, const std::string &disk, const FaultPlan *plan = nullptr, int victim = 0)
{
   StageOut o;
   int n = st == TRAIN ? p.ntrain : 1;
   std::string y = p.yaml(st);
   // the mode in the input file, or overriding another one
   std::string input = "in" + std::to_string(st) + ".yml", force = std::string("main/mode=") + stage_mode[st];
   bool forced = p.which % 2;
   if (p.program)
   {
      size_t at = y.find("main:\n"); std::string text = y;
      text.insert(at + 6, std::string("  mode: ") + (forced ? "run_example" : stage_mode[st]) + "\n");
      write_file(disk + "/" + input, text);
   }
   auto body = [&](Out &q)
   {
      if (p.program)
      {
         std::vector<std::string> a = {"scaleupROM", "-i", input};
         if (forced) { a.push_back("-f"); a.push_back(force); }
         if (st == ONLINE) { a.push_back("-o"); a.push_back("out/result.h5"); }
         std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]);
         v.push_back(NULL);
         if (scaleup_main(a.size(), v.data())) { fprintf(stderr, "main does not return 0"); _exit(97); }
      }
      else
      {
         config.dict_ = YAML::Load(y);
         run_stage(st);
      }
      if (st == ONLINE)
      {
         pause_faults(true);
         hid_t h = H5Fopen("out/result.h5", H5F_ACC_RDONLY, H5P_DEFAULT);
         Vector e; hdf5_utils::ReadDataset(h, "rel_error", e);
         H5Fclose(h);
         q.i(e.Size()); q.raw(e.GetData(), 8 * e.Size());
      }
   };
   if (n == 1)
   {
      NodeOpt no; no.cpu_s = 60;
      if (plan) no.plan = *plan; else draw_benign(c, no.plan);
      o.r.push_back(run_node(c, stage_name[st], disk, no, body));
      o.ok = o.r[0].ok(); o.hang = o.r[0].st == NodeOut::HANG;
      o.what = fmt("%s (%s)", o.r[0].name(), o.r[0].how.c_str()); o.con = tail(o.r[0].console);
      return o;
   }
   JobOpt jo;
   for (int r = 0; r < n; r++) { NodeOpt no; no.cpu_s = 60; if (plan && r == victim) no.plan = *plan; else draw_benign(c, no.plan); jo.node.push_back(no); }
   draw_schedule(c, jo, n, 60 * n);
   jo.max_steps = 200000;
   JobOut j = run_job(c, stage_name[st], disk, n, jo, [&](int, Out &q) { body(q); });
   o.r = j.r; o.ok = j.all_ok(); o.hang = j.deadlock;
   for (auto &r : j.r) { o.hang |= r.st == NodeOut::HANG; if (!r.ok() && r.st != NodeOut::KILLED) o.con += tail(r.console); }
   o.what = j.summary() + " " + j.mpi_error;
   return o;
}
struct Sol { bool ok = false; std::vector<double> v; };
static Sol read_sol(Ctx &c, const std::string &disk, const std::string &file)
{
   Sol s;
   NodeOut r = run_node(c, "read " + file, disk, NodeOpt(), [&](Out &q)
   {
      pause_faults(true);
      H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
      hid_t h = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      hid_t ds = h < 0 ? -1 : H5Dopen2(h, "solution", H5P_DEFAULT);
      if (ds < 0) { q.i(-1); return; }
      H5Dclose(ds);
      Vector v; hdf5_utils::ReadDataset(h, "solution", v);
      q.i(v.Size()); q.raw(v.GetData(), 8 * v.Size());
      H5Fclose(h);
   });
   if (!r.ok()) return s;
   In in(r.out);
   long m = in.i();
   if (m < 0) return s;
   s.v.resize(m); in.raw(s.v.data(), 8 * m); s.ok = !in.bad;
   return s;
}
static double dist(const Sol &a, const Sol &b)
{
   if (!a.ok || !b.ok || a.v.size() != b.v.size()) return HUGE_VAL;
   double d = 0, n = 0;
   for (size_t k = 0; k < a.v.size(); k++) { d += (a.v[k] - b.v[k]) * (a.v[k] - b.v[k]); n += b.v[k] * b.v[k]; }
   return n > 0 ? std::sqrt(d / n) : std::sqrt(d);
}
static double largest(const Sol &s) { double m = 0; for (double x : s.v) m = std::max(m, std::fabs(x)); return m; }
// the singular values of every basis: how many basis vectors carry information
static bool spectra(Ctx &c, const Pipe &p, const std::string &disk, std::map<std::string, std::pair<std::vector<double>, long> > &sv)
{
   std::string y = p.yaml(TRAIN); bool sep = p.f.separate;
   NodeOut r = run_node(c, "read the spectra", disk, NodeOpt(), [&](Out &q)
   {
      pause_faults(true);
      config.dict_ = YAML::Load(y);
      std::vector<BasisTag> tags = GetGlobalBasisTagList(SetTopologyHandlerMode(), sep);
      q.i(tags.size());
      for (auto &t : tags)
      {
         hid_t h = H5Fopen(("bas_" + t.print() + ".000000").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
         Vector s; Array<int> m; hdf5_utils::ReadDataset(h, "singular_value", s); hdf5_utils::ReadDataset(h, "spatial_basis_num_rows", m);
         H5Fclose(h);
         q.s(t.print()); q.i(m[0]); q.i(s.Size()); q.raw(s.GetData(), 8 * s.Size());
      }
   });
   if (!r.ok()) return false;
   In in(r.out);
   long n = in.i();
   while (n-- > 0) { std::string t = in.s(); long m = in.i(), k = in.i(); std::vector<double> s(k); in.raw(s.data(), 8 * k); sv[t] = {s, m}; }
   return !in.bad;
}
static bool excused(const Pipe &p, const std::string &con)
{  // systems without a unique solution
   // MINRES on a few unknowns breaks down once the Krylov space is exhausted above the tolerance
   if (p.solver == "minres") for (const char *m : {"isnan(", "IsFinite("}) if (con.find(m) != std::string::npos) return true;
   for (const char *m : {"matrix is singular", "blew up", "cannot ensure incompressibility"}) if (con.find(m) != std::string::npos) return true;
   if ((p.nonlinear() || !p.f.direct) && con.find("fails to converge") != std::string::npos) return true;
   return false;
}

static void pipeline(Ctx &c, bool eqp)
{
   static const std::vector<std::string> lin = {"poisson", "poisson", "linelast", "stokes", "steady-ns", "adv-diff"}, nonlin = {"steady-ns", "unsteady-ns"};
   const std::vector<std::string> &kinds = eqp ? nonlin : lin;
   Pipe p;
   p.f = draw_full(c, kinds, 2, 4, 2, eqp || !c.flip(1, 12), eqp ? 0 : 6);
   if (p.f.nvar() > 1 || p.f.solver == "adv-diff")
      if (!p.f.connected()) { c.counters["disconnected-flow"]++; return; }   // an enclosed part of a flow has no unique pressure
   bool rot = false; for (auto &q : p.f.a.cells) rot |= q.rot != 0;
   const char *rots = rot ? ", rotated components" : "";
   p.f.direct = true; p.f.amg = false;
   p.f.separate = p.f.nvar() > 1;
   std::string d = c.disk("disk");
   put_full(c, p.f, d);
   mkdir((d + "/out").c_str(), 0755);
   std::vector<std::string> keys = p.f.free_params();
   Rng g = c.stream();
   int np = 1 + c.choose(2);
   for (int k = 0; k < np; k++)
   {
      int i = g.below(keys.size());
      double v = p.f.params[keys[i]];
      p.par.push_back({keys[i], 1 + (int)c.choose(k ? 2 : 3), v, v * 1.5 + 0.25});
      keys.erase(keys.begin() + i);
   }
   p.which = c.choose(p.total());
   static const char *levels[] = {"component", "global", "none"};
   int nlev = p.f.solver == "adv-diff" || p.f.sub ? 2 : 3;   // have no component-wise operators
   p.level = levels[3 - nlev + c.choose(nlev)];
   p.mode = c.flip(1, 3) ? "port" : "basis";
   p.order = c.flip(1, 3) ? "variable" : "domain";
   if (p.f.nvar() == 1 && p.f.solver != "adv-diff" && c.flip(1, 3))
   {
      static const std::vector<std::string> precs = {"none", "gs", "amg", "block_gs", "block_jacobi"};
      p.solver = c.flip(1, 4) ? "minres" : "cg"; p.prec = c.pick(precs);
   }
   if (p.nonlinear() && c.flip(1, 3)) p.zeta = c.flip(1, 2) ? 2 : 0.5;
   if (c.flip(1, 4))
   {  // penalty and symmetry of the interface terms
      int q = p.f.order + (p.f.nvar() > 1);
      double kappa = (q + 1) * (q + 1) * (1 + c.choose(3)), sign = c.flip(1, 2) && p.solver == "direct" ? (double)c.choose(2) : -1;
      p.f.disc = fmt("  interface:\n    kappa: %.17g\n    %s: %.17g\n", kappa, p.f.solver == "linelast" ? "alpha" : "sigma", sign);
   }
   p.enrich = p.f.separate && c.flip(1, 4);
   p.program = c.flip(1, 2);
   if (c.flip(1, 4))
   {  // more output, same result
      p.basis_visual = c.flip(1, 2); p.spectrum = c.flip(1, 2); p.right = c.flip(1, 2); p.system = c.flip(1, 2) && p.f.solver != "unsteady-ns";
      if (c.flip(1, 2))
      {
         int n = p.f.a.cells.size();
         p.visual = "visualization:\n  enabled: true\n  file_path:\n    directory: out\n    prefix: pv\n";
         if (c.flip(1, 2)) p.visual += "  visualize_error: true\n";
         if (p.f.sub && c.flip(1, 2)) p.visual += "  unified_paraview: true\n";
         else if (c.flip(1, 2)) p.visual += fmt("  domain_offset: %d\n  domain_frequency: %d\n", (int)c.choose(n), 1 + (int)c.choose(n));
      }
   }
   p.eqp = eqp;
   if (p.eqp)
   {
      p.lf = p.f.solver == "unsteady-ns" || c.flip(1, 2);
      p.precompute = c.flip(1, 2); p.linf = c.flip(1, 3);
      p.level = "component";
      if (p.lf) p.mode = "port";
      if (p.f.solver == "unsteady-ns") p.order = "variable";
   }
   p.ntrain = c.flip(1, 4) ? 2 + (int)c.choose(2) : 1;
   p.load_fom = c.flip(1, 2);
   std::string nl; if (p.eqp) nl = fmt(", hyper-reduced%s%s", p.lf ? " Lax-Friedrichs" : "", p.precompute ? " precomputed" : "");
   c.note("%s: %ld samples, level %s, %s samples, ordering %s, %d training processes, online at sample %ld, %s%s%s%s", p.f.str().c_str(), p.total(), p.level.c_str(), p.mode.c_str(), p.order.c_str(), p.ntrain, p.which, p.solver.c_str(), p.prec == "none" ? "" : ("/" + p.prec).c_str(), p.program ? ", by the program" : "", nl.c_str());
   if (!p.f.disc.empty()) c.note("%s", p.f.disc.c_str());

   // --- the uninterrupted pipeline
   std::string dr = c.clone(d, "reference");
   std::vector<StageOut> ref(NSTAGE);
   ref[SAMPLE] = stage(c, p, SAMPLE, dr);
   if (!ref[SAMPLE].ok) { if (excused(p, ref[SAMPLE].con)) { c.counters["no-unique-solution"]++; return; } c.violation("stage-failed", "sampling failed without a fault: %s", ref[SAMPLE].sum().c_str()); }
   {  // how many basis vectors the snapshots give
      Pipe q = p; q.ntrain = 1;
      // default file list of the basis mode: the files the sampling wrote
      StageOut t = stage(c, q, TRAIN, dr);
      if (!t.ok) c.violation("stage-failed", "training failed without a fault: %s", t.sum().c_str());
      std::map<std::string, std::pair<std::vector<double>, long> > sv;
      if (!spectra(c, p, dr, sv)) c.violation("basis-unreadable", "the trained bases cannot be read");
      for (auto &s : sv)
      {
         int n = 0; for (double x : s.second.first) n += x > 1e-8 * s.second.first[0] && x > 1e-12;
         if (s.second.first.empty() || s.second.first[0] < 1e-6) { c.counters["zero-solution"]++; return; }
         p.nb[s.first] = n; p.rows[s.first] = s.second.second; p.sv0.push_back(s.second.first[0]);
      }
      if (p.f.separate) for (auto &s : sv)
      {
         size_t k = s.first.rfind("_vel");
         if (k == std::string::npos || k + 4 != s.first.size()) continue;
         std::string pr = s.first.substr(0, k) + "_pres";
         if (p.nb[s.first] + p.nb[pr] > s.second.second / 2) { c.counters["too-coarse"]++; return; }
      }
   }
   double tol = p.solver != "direct" || p.eqp ? 1e-4 : 1e-5;
   // the hyper-reduced boundary flux is trained with the interior state, not with a prescribed inflow
   bool exact = !p.lf || p.f.problem == "force_driven_corner";
   bool excuse = false;
   for (int st = TRAIN; st < NSTAGE; st++) if (p.has(st))
   {
      ref[st] = stage(c, p, st, dr);
      if (ref[st].hang) c.violation("stage-hangs", "%s does not end: %s", stage_name[st], ref[st].sum().c_str());
      if (!ref[st].ok && excused(p, ref[st].con)) { excuse = true; break; }
      if (!ref[st].ok) c.violation("stage-failed", "%s failed without a fault: %s", stage_name[st], ref[st].sum().c_str());
   }
   if (excuse) { c.counters["no-unique-solution"]++; return; }
   Sol fom = read_sol(c, dr, fmt("out/sample%ld_sol.h5", p.which)), rom = read_sol(c, dr, "out/sol.h5");
   if (!fom.ok || !rom.ok) c.violation("solution-unreadable", "a solution file of a completed run cannot be read");
   double top = largest(fom), most = 0;
   for (auto &x : p.sv0) most = std::max(most, x);
   if (top > 1e8) { c.counters["no-unique-solution"]++; return; }   // the matrix is singular up to rounding
   if (top < 1e-8 || top < 1e-6 * most) { c.counters["zero-solution"]++; return; }
   double e0 = dist(rom, fom);
   c.counters[p.f.solver + nl + " " + p.f.problem + fmt(":error:1e%d", e0 > 0 ? (int)std::ceil(std::log10(e0)) : -99)]++;
   if (exact && !(e0 <= tol)) c.violation("rom-differs", "with all basis vectors the reduced solution at training sample %ld differs from the full one by %g (relative; level %s%s)", p.which, e0, p.level.c_str(), rots);
   {
      In in(ref[ONLINE].r[0].out);
      long n = in.i(); std::vector<double> e(n); in.raw(e.data(), 8 * n);
      // the norm of every variable of the full solution, subdomain by subdomain
      std::vector<double> nrm(n, 0.0); double all = 0; size_t at = 0;
      const char *vn[] = {"_vel", "_pres"};
      for (auto &q : p.f.a.cells) for (long v = 0; v < n; v++)
      {
         std::string t = p.f.a.comps[q.comp].name + (p.f.separate ? vn[v] : "");
         for (long k = 0; k < p.rows[t] && at < fom.v.size(); k++, at++) nrm[v] += fom.v[at] * fom.v[at];
      }
      if (at != fom.v.size()) c.violation("solution-size", "the solution has %zu values, the bases make %zu", fom.v.size(), at);
      for (double x : nrm) all += x;
      for (long k = 0; k < n && exact; k++) if (!(std::fabs(e[k]) * std::sqrt(nrm[k] / all) <= 100 * tol))
         c.violation("reported-error", "the reported error of variable %ld is %g where the solutions differ by %g", k, e[k], e0);
   }
   if (p.system && exact)
   {  // the reduced solution that is saved, and the full solution in the same coordinates
      auto vec = [&](const std::string &f) { std::vector<double> v; std::string t; if (read_file(dr + "/" + f, t)) { std::istringstream in(t); double x; while (in >> x) v.push_back(x); } return v; };
      std::vector<double> a = vec("out/system_sol.txt"), b = vec("rom_reduced_sol.txt"), q = vec("fom_reduced_sol.txt");
      double e = 0, n = 0; for (size_t k = 0; k < b.size() && k < q.size(); k++) e += (b[k] - q[k]) * (b[k] - q[k]), n += q[k] * q[k];
      if (a.empty() || a != b || b.size() != q.size()) c.violation("reduced-solution-files", "the saved reduced solutions have %zu, %zu and %zu values, or the first two differ", a.size(), b.size(), q.size());
      if (!(std::sqrt(e) <= 10 * tol * std::sqrt(n))) c.violation("reduced-solution-files", "the saved reduced solution differs from the projected full one by %g", std::sqrt(e / n));
   }
   // --- another building level gives the same
   if (c.flip(1, 3))
   {
      Pipe q = p;
      if (p.eqp)
      {  // the reduced tensor is another way to the same operator
         if (!p.lf && c.flip(1, 2)) { q.eqp = false; q.level = levels[3 - nlev + c.choose(nlev)]; }
         else q.precompute = !p.precompute;
      }
      else q.level = levels[3 - nlev + c.choose(nlev)];
      if (p.f.solver != "unsteady-ns") q.order = c.flip(1, 2) ? "variable" : "domain"; q.load_fom = !p.load_fom;
      std::string dl = c.clone(dr, "level");
      for (int st = EQP; st < NSTAGE; st++) if (q.has(st))
      {
         StageOut s = stage(c, q, st, dl);
         if (!s.ok) c.violation("stage-failed", "%s at level %s failed without a fault: %s", stage_name[st], q.level.c_str(), s.sum().c_str());
      }
      double e = dist(read_sol(c, dl, "out/sol.h5"), rom);
      if (!(e <= 10 * tol)) c.violation("levels-differ", "building levels %s/%s and %s/%s give solutions that differ by %g%s", p.level.c_str(), p.order.c_str(), q.level.c_str(), q.order.c_str(), e, rots);
   }

   // --- and also the same assembly with other numbers
   if (p.level == "component" && !(rot && p.nonlinear()) && c.flip(1, 2))
   {
      Pipe q = p;
      q.load_fom = true; if (!rot) q.precompute = c.flip(1, 2);
      if (p.f.solver != "unsteady-ns") q.order = c.flip(1, 2) ? "variable" : "domain";
      std::vector<int> perm;
      q.f.a = renumber(c, p.f.a, perm);
      q.f.o = plain_opt(q.f.a); q.f.o.global = "global3.h5";
      std::string dn = c.clone(dr, "renumbered");
      put_global(c, q.f.a, q.f.o, dn);
      const char *vn[] = {"_vel", "_pres"};
      std::vector<std::pair<size_t, size_t> > blk; size_t at = 0;   // per cell
      for (auto &x : p.f.a.cells)
      {
         size_t n = 0;
         if (p.f.separate) for (const char *v : vn) n += p.rows[p.f.a.comps[x.comp].name + v]; else n = p.rows[p.f.a.comps[x.comp].name];
         blk.push_back({at, n}); at += n;
      }
      auto mixed = [&](const Sol &x) { Sol y; y.ok = true; for (int k : perm) y.v.insert(y.v.end(), x.v.begin() + blk[k].first, x.v.begin() + blk[k].first + blk[k].second); return y; };
      Sol xf = mixed(fom), xr = mixed(rom);
      NodeOut w = run_node(c, "renumber the full solution", dn, NodeOpt(), [&](Out &)
      {
         pause_faults(true);
         hid_t h = H5Fopen(fmt("out/sample%ld_sol.h5", p.which).c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
         hid_t ds = H5Dopen2(h, "solution", H5P_DEFAULT); NODE_REQUIRE(ds >= 0);
         NODE_REQUIRE(H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, xf.v.data()) >= 0);
         H5Dclose(ds); H5Fclose(h);
      });
      if (!w.ok()) c.violation("solution-unreadable", "the solution file cannot be opened by another process: %s", w.name());
      StageOut s = stage(c, q, ONLINE, dn);
      c.note("renumbered: %s", q.f.a.str().c_str());
      if (!s.ok) c.violation("stage-failed", "online for the renumbered assembly failed without a fault: %s", s.sum().c_str());
      double e = dist(read_sol(c, dn, "out/sol.h5"), xr);
      c.counters[fmt("renumbered:1e%d", e > 0 ? (int)std::ceil(std::log10(e)) : -99)]++;
      if (!(e <= 10 * tol)) c.violation("renumbered-differs", "the stored operators give for the same assembly with other numbers a solution that differs by %g%s", e, rots);
   }
   // --- the stored components serve another assembly
   if (p.level == "component" && !p.eqp && c.flip(1, 2))
   {
      Pipe q = p;
      q.compare = false; q.visual.clear(); q.order = c.flip(1, 2) ? "variable" : "domain";
      if (regrow_assembly(c, q.f, 5, "global2.h5"))
      {
         bool one = p.f.nvar() > 1 && !q.f.connected();
         // the stored operators hold the material of the run that built them
         for (auto &v : q.par) if (v.key != "nu" && v.key != "lambda" && v.key != "mu") { v.lo *= 1 + 0.5 * c.choose(2); v.hi *= 1.25; }
         std::string dt = c.clone(dr, "transfer");
         put_global(c, q.f.a, q.f.o, dt);
         q.f.params = p.f.params;
         StageOut s1, s2; Sol x1, x2;
         auto online = [&](const char *level, StageOut &so, Sol &x)
         {
            q.level = level;
            unlink((dt + "/out/sol.h5").c_str());
            if (!one) so = stage(c, q, ONLINE, dt);
            if (so.ok) x = read_sol(c, dt, "out/sol.h5");
         };
         online("none", s2, x2);
         bool far = false;
         if (s2.ok && p.nonlinear())
         {  // both start at the solution, if Newton's method finds one
            std::string t; if (read_file(dt + "/out/sol.h5", t)) write_file(dt + "/out/start.h5", t);
            q.start = "out/start.h5";
            Sol x0 = x2;
            online("none", s2, x2);
            far = !(dist(x0, x2) <= 1e-9);
         }
         if (!far) online("component", s1, x1);
         if (one) c.counters["transfer-disconnected"]++;
         else if (far) c.counters["transfer-not-converged"]++;
         else if (!s1.ok && excused(p, s1.con)) c.counters["transfer-singular"]++;
         else if (!s2.ok && excused(p, s2.con)) c.counters["transfer-singular"]++;
         else if (s1.ok && s2.ok && std::max(largest(x1), largest(x2)) > 1e8) c.counters["transfer-singular"]++;
         else
         {
            c.note("transfer to %s", q.f.a.str().c_str());
            if (!s1.ok || !s2.ok) c.violation("stage-failed", "online for another assembly (%s) failed without a fault: %s", q.f.a.str().c_str(), (s1.ok ? s2 : s1).sum().c_str());
            double e = dist(x1, x2);
            c.counters[fmt("transfer:1e%d", e > 0 ? (int)std::ceil(std::log10(e)) : -99)]++;
            if (!(e <= 10 * tol)) c.violation("transfer-differs", "for another assembly (%s) of the same components the stored operators and operators made for it give solutions that differ by %g", q.f.a.str().c_str(), e);
         }
      }
      else c.counters["transfer-none"]++;
   }
   // --- the same samples taken by two sampling runs
   if (p.total() > 1 && c.flip(1, 3))
   {
      std::string db = c.clone(dr, "batches");
      int k = 0; while (p.par[k].size == 1) k++;
      int cut = 1 + c.choose(p.par[k].size - 1);
      Pipe q = p; q.compare = false; q.batches = 2;
      if (p.f.solver == "steady-ns") { std::string t; if (read_file(db + fmt("/out/sample%ld_sol.h5", p.which), t)) write_file(db + "/out/start.h5", t); q.start = "out/start.h5"; }
      for (int b = 0; b < 2; b++)
      {
         Pipe x = p; Par &y = x.par[k];
         const Par &z = p.par[k];
         if (b) { y.lo = z.at(cut); y.size = z.size - cut; } else { y.hi = z.at(cut - 1); y.size = cut; }
         x.which = 0; x.gen = fmt("gen%d", b);
         StageOut s = stage(c, x, SAMPLE, db);
         if (!s.ok && excused(p, s.con)) { c.counters["no-unique-solution"]++; return; }
         if (!s.ok) c.violation("stage-failed", "sampling a part of the parameters failed without a fault: %s", s.sum().c_str());
         if (p.f.solver == "steady-ns")   // a nonlinear problem may have several solutions
         {
            for (long i = 0; i < x.total(); i++)
            {
               Sol u = read_sol(c, db, fmt("out/sample%ld_sol.h5", i)); double near = HUGE_VAL;
               for (long j = 0; j < p.total(); j++) near = std::min(near, dist(u, read_sol(c, dr, fmt("out/sample%ld_sol.h5", j))));
               if (!(near <= tol)) { c.counters["no-unique-solution"]++; return; }
            }
         }
      }
      bool sing = false;
      for (int st = TRAIN; st < NSTAGE && !sing; st++) if (q.has(st))
      {
         StageOut s = stage(c, q, st, db);
         if (!s.ok && (sing = excused(p, s.con))) break;
         if (!s.ok) c.violation("stage-failed", "%s from two sampling runs failed without a fault: %s", stage_name[st], s.sum().c_str());
      }
      if (!sing)
      {
         double e = dist(read_sol(c, db, "out/sol.h5"), rom);
         c.counters[fmt("batches:1e%d", e > 0 ? (int)std::ceil(std::log10(e)) : -99)]++;
         if (!(e <= 10 * tol)) c.violation("batches-differ", "trained with the same samples from two sampling runs (%s, cut at %d), the reduced solution differs by %g%s", p.par[k].key.c_str(), cut, e, rots);
      }
   }
   // --- the sample points, printed
   if (p.eqp && !(p.lf && p.f.full_dg) && c.flip(1, 2))
   {
      std::string dp = c.clone(dr, "coords");
      StageOut s = stage(c, p, PRINT, dp);
      if (!s.ok) c.violation("stage-failed", "printing the sample points failed without a fault: %s", s.sum().c_str());
      NodeOut r = run_node(c, "read the sample points", dp, NodeOpt(), [&](Out &q)
      {
         pause_faults(true);
         auto get = [&](const char *file, const char *what, const std::string &name) { hid_t h = H5Fopen(file, H5F_ACC_RDONLY, H5P_DEFAULT), g = H5Gopen2(h, ("components/" + name + "_integ0").c_str(), H5P_DEFAULT); NODE_REQUIRE(g >= 0); return std::make_pair(h, g); };
         std::string bad;
         for (auto &k : p.f.a.comps)
         {
            Array<int> el; DenseMatrix x;
            auto a = get("rom_op.eqp.h5", "elem", k.name); hdf5_utils::ReadDataset(a.second, "elem", el); H5Gclose(a.second); H5Fclose(a.first);
            auto b = get("out/coords.h5", "coords", k.name); hdf5_utils::ReadDataset(b.second, "coords", x); H5Gclose(b.second); H5Fclose(b.first);
            if (x.NumRows() != el.Size() || x.NumCols() != 3) { bad = fmt("%d sample points, %d by %d coordinates", el.Size(), x.NumRows(), x.NumCols()); break; }
            Mesh m(k.file.c_str());
            for (int i = 0; i < el.Size(); i++) for (int d = 0; d < 3; d++)
            {
               double lo = 0, hi = 0;
               if (d < m.SpaceDimension()) { Array<int> v; m.GetElementVertices(el[i], v); lo = HUGE_VAL; hi = -HUGE_VAL; for (int j : v) lo = std::min(lo, m.GetVertex(j)[d]), hi = std::max(hi, m.GetVertex(j)[d]); }
               if (!(x(i, d) >= lo - 1e-12 && x(i, d) <= hi + 1e-12)) bad = fmt("coordinate %d of point %d of %s is %g, its element spans %g to %g", d, i, k.name.c_str(), x(i, d), lo, hi);
            }
         }
         q.s(bad);
      });
      if (!r.ok()) c.violation("points-unreadable", "the printed sample points cannot be read: %s", tail(r.console));
      In in(r.out); std::string bad = in.s();
      c.counters["points"]++;
      if (!bad.empty()) c.violation("points-wrong", "printed sample points: %s", bad.c_str());
   }

   // --- the same pipeline with interruptions
   bool old = c.flip(1, 3);
   if (old)
   {  // files of an earlier run of the pipeline with other parameters
      Pipe q = p;
      for (auto &x : q.par) { x.lo *= 1.3; x.hi = x.lo * 1.2 + 0.1; }
      int upto = 1 + c.choose(NSTAGE);
      for (int st = 0; st < upto; st++) if (q.has(st)) { StageOut s = stage(c, q, st, d); if (!s.ok) break; }
   }
   int budget = 1 + c.choose(3), faults = 0, killed = 0;
   bool restart = false, skipped = false;
   for (int st = 0; st < NSTAGE && !restart; st++) if (p.has(st))
      for (int attempt = 0;; attempt++)
      {
         FaultPlan plan; int victim = 0; bool f = false;
         if (faults < budget && c.flip(2, 3))
         {
            victim = c.choose(ref[st].r.size());
            bool io = c.flip(1, 2);
            plan = io ? draw_fault(c, FC_WRITE | FC_READ | FC_OPEN | FC_LOCK, ref[st].r[victim], ".h5") : draw_fault(c, FC_CRASH, ref[st].r[victim]);
            f = plan.kind != F_NONE; faults += f;
         }
         StageOut s = stage(c, p, st, d, f ? &plan : nullptr, victim);
         if (s.hang) c.violation("stage-hangs", "%s does not end%s: %s", stage_name[st], f ? " after a fault" : "", s.sum().c_str());
         c.counters[std::string(stage_name[st]) + (s.ok ? ":ok" : ":stopped")]++;
         if (s.ok) break;
         killed++;
         if (!f)
         {  // it stops with an error because of what an interruption left
            if (!killed || (attempt == 0 && !skipped && faults == 0)) c.violation("stage-failed", "%s failed without a fault: %s", stage_name[st], s.sum().c_str());
            restart = true; break;
         }
         if (!old && c.flip(1, 6)) { skipped = true; break; }   // the next stage runs although this one did not complete
      }
   c.nontrivial = killed > 0;
   for (auto &r : ref) for (auto &x : r.r) c.cov(x.hash);
   c.cov(killed); c.cov(skipped);
   if (restart)
   {
      // not usable as it is: once faults stop, starting over must work
      c.counters["started-over"]++;
      if (!skipped) c.counters["repeat-refused"]++;
      for (int st = 0; st < NSTAGE; st++) if (p.has(st))
      {
         StageOut s = stage(c, p, st, d);
         if (!s.ok) c.violation("no-recovery", "after an interruption the pipeline was started over, but %s failed: %s", stage_name[st], s.sum().c_str());
      }
   }
   Sol got = read_sol(c, d, "out/sol.h5");
   if (!got.ok)
   {
      if (skipped && !restart) { c.counters["no-solution"]++; return; }
      c.violation("solution-unreadable", "the pipeline completed but its solution cannot be read");
   }
   if (got.v.size() != rom.v.size() || memcmp(got.v.data(), rom.v.data(), 8 * rom.v.size()))
   {
      Sol clean = read_sol(c, dr, "out/sol.h5");
      c.violation(skipped ? "result-differs-skipped" : "result-differs", "after %d interruptions the pipeline completed with a solution that differs by %g from the uninterrupted one (level %s%s)", killed, dist(got, clean), p.level.c_str(), old ? ", files of an earlier run present" : "");
   }
}
static void c17(Ctx &c) { pipeline(c, false); }
static void c18(Ctx &c) { pipeline(c, true); }
static Reg r17("C17", c17, "one run = sampling, training, building and the online solve of a random problem, uninterrupted and with up to 3 crashes or I/O failures, interrupted stages repeated, skipped or started over; non-trivial = a stage was interrupted; distinct = operations of the reference stages");
static Reg r18("C18", c18, "one run = sampling, training, hyper-reduction training, building and the online solve of a random flow, uninterrupted, in variants that must agree, and with up to 3 crashes or I/O failures; non-trivial = a stage was interrupted; distinct = operations of the reference stages");
} // namespace sim
