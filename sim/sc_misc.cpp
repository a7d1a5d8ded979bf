// Time profiler (C10) and sampled parameters (C11).
#include "simrt.hpp"
#include "etc.hpp"
#include "parameter.hpp"
#include <cmath>
#include <sstream>
#include <unistd.h>
using namespace mfem;
namespace sim {

// ---- C10 -----------------------------------------------------------------------------
enum { Q_START, Q_STOP, Q_WORK, Q_WAIT, Q_JUMP, Q_PRINT, Q_YIELD, Q_DROP };
struct PStep { int op; int prof, sec; u64 ns; bool sum; std::string title; };

struct Row { std::string name; double total, per; long long calls; };
struct Table { std::vector<Row> rows; bool has_sum = false; double sum = 0; };
// all tables on a console: title line, then lines that end in three numbers
static std::vector<std::pair<std::string, Table> > tables(const std::string &con, const std::set<std::string> &titles)
{
   std::vector<std::pair<std::string, Table> > r;
   std::istringstream is(con); std::string l;
   while (std::getline(is, l))
   {
      std::string t = l; while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
      if (titles.count(t)) { r.push_back({t, Table()}); continue; }
      std::vector<std::string> w; { std::istringstream ws(t); std::string x; while (ws >> x) w.push_back(x); }
      if (w.size() < 4) continue;
      char *e1, *e2, *e3;
      double a = strtod(w[w.size() - 3].c_str(), &e1); long long b = strtoll(w[w.size() - 2].c_str(), &e2, 10); double p = strtod(w.back().c_str(), &e3);
      if (*e1 || *e2 || *e3) continue;
      std::string nm; for (size_t k = 0; k + 3 < w.size(); k++) nm += (k ? " " : "") + w[k];
      if (r.empty()) r.push_back({"(no title)", Table()});
      if (nm == "Total time") { r.back().second.has_sum = true; r.back().second.sum = a; }
      else r.back().second.rows.push_back(Row{nm, a, p, b});
   }
   return r;
}

static void c10(Ctx &c)
{
   Rng g = c.stream();
   int n = 1 + c.choose(4), np = 1 + c.choose(2);
   // communicator of each profiler: 0 world, 1 dup, 2 split by parity, 3 split with reversed order, 4 self
   std::vector<int> comm(np); std::vector<bool> autop(np), quiet(np);
   std::vector<std::vector<std::string> > sec(np);
   for (int p = 0; p < np; p++)
   {
      comm[p] = c.choose(5); autop[p] = c.flip(1, 3);
      int ns = 1 + c.choose(4);
      static const char *nm[] = {"AssembleOperator", "Solve", "SaveBasis", "Project to RB", "very_long_section_name_that_needs_more_room", "x"};
      for (int k = 0; k < ns; k++) sec[p].push_back(nm[(p * 2 + k) % 6]);
   }
   int nprint = c.choose(4);
   int bad = c.choose(6);  // 0..1 none, 2 double start, 3 stop without start, 4 stop unknown, 5 print while running
   int badrank = c.choose(n);
   // phases separated by collective prints; the sections are entered in the same order first
   std::vector<std::vector<PStep> > prog(n);
   std::set<std::string> titles;
   std::vector<std::vector<char> > known(np); for (int p = 0; p < np; p++) known[p].assign(sec[p].size(), 0);
   int phases = nprint + 1;
   for (int ph = 0; ph < phases; ph++)
   {
      // sections that appear in this phase on every rank (so that the tables match)
      for (int p = 0; p < np; p++)
      {
         int upto = ph == 0 && phases > 1 ? 1 + (int)g.below(sec[p].size()) : (int)sec[p].size();
         for (int k = 0; k < upto; k++) if (!known[p][k])
         {
            known[p][k] = 1;
            for (int r = 0; r < n; r++)
            {
               prog[r].push_back({Q_START, p, k, 0, false, ""});
               if (g.chance(2, 3)) prog[r].push_back({g.chance(1, 2) ? Q_WORK : Q_WAIT, 0, 0, 1000 + g.below(2000000000ull), false, ""});
               if (g.chance(1, 3)) prog[r].push_back({Q_YIELD, 0, 0, 0, false, ""});
               prog[r].push_back({Q_STOP, p, k, 0, false, ""});
            }
         }
      }
      for (int r = 0; r < n; r++)
      {
         int m = g.below(c.thorough ? 24 : 10);
         std::vector<std::vector<char> > run(np); for (int p = 0; p < np; p++) run[p].assign(sec[p].size(), 0);
         for (int q = 0; q < m; q++)
         {
            int p = g.below(np), k = g.below(sec[p].size());
            switch (g.below(6))
            {
               case 0: case 1: if (known[p][k]) { prog[r].push_back({run[p][k] ? Q_STOP : Q_START, p, k, 0, false, ""}); run[p][k] ^= 1; } break;
               case 2: prog[r].push_back({Q_WORK, 0, 0, 1 + g.below(3000000000ull), false, ""}); break;
               case 3: prog[r].push_back({Q_WAIT, 0, 0, 1 + g.below(3000000000ull), false, ""}); break;
               case 4: if (g.chance(1, 3)) prog[r].push_back({Q_JUMP, 0, 0, g.below(7200000000000ull), false, ""}); break;
               case 5: prog[r].push_back({Q_YIELD, 0, 0, 0, false, ""}); break;
            }
         }
         for (int p = 0; p < np; p++) for (size_t k = 0; k < run[p].size(); k++) if (run[p][k]) prog[r].push_back({Q_STOP, p, (int)k, 0, false, ""});
      }
      if (ph < nprint)
      {
         int p = g.below(np); bool sum = g.chance(1, 2); std::string t = fmt("PROFILE %d of %d", ph, p); titles.insert(t);
         for (int r = 0; r < n; r++) prog[r].push_back({Q_PRINT, p, 0, 0, sum, t});
      }
   }
   bool legal = bad < 2;
   if (!legal)
   {
      // one rank misuses the profiler somewhere
      PStep s{}; auto &P = prog[badrank];
      std::vector<PStep> ins;
      int p = g.below(np), k = g.below(sec[p].size());
      if (bad == 2) ins = {{Q_START, p, k, 0, false, ""}, {Q_WORK, 0, 0, 5000, false, ""}, {Q_START, p, k, 0, false, ""}};
      else if (bad == 3) ins = {{Q_STOP, p, k, 0, false, ""}};
      else if (bad == 4) ins = {{Q_STOP, p, -1, 0, false, ""}};
      else { for (int r = 0; r < n; r++) { if (r == badrank) prog[r].push_back({Q_START, p, k, 0, false, ""}); prog[r].push_back({Q_PRINT, p, 0, 0, false, "PROFILE bad"}); } }
      (void)s;
      P.insert(P.end(), ins.begin(), ins.end());
   }
   for (int p = 0; p < np; p++) titles.insert(fmt("prof%d", p));
   titles.insert("PROFILE bad");
   auto prof_comm = [&](int kind) -> MPI_Comm
   {
      MPI_Comm o = MPI_COMM_WORLD; int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
      if (kind == 1) MPI_Comm_dup(MPI_COMM_WORLD, &o);
      if (kind == 2) MPI_Comm_split(MPI_COMM_WORLD, r % 2, r, &o);
      if (kind == 3) MPI_Comm_split(MPI_COMM_WORLD, 0, -r, &o);
      if (kind == 4) o = MPI_COMM_SELF;
      return o;
   };
   std::string d = c.disk("d");
   JobOpt jo; draw_schedule(c, jo, n, 60);
   JobOut J = run_job(c, "profile", d, n, jo, [&](int r, Out &o)
   {
      std::string y = "time_profile: {";
      for (int p = 0; p < np; p++) y += (p ? ", " : "") + fmt("prof%d: %s", p, autop[p] ? "true" : "false");
      config.dict_ = YAML::Load(y + "}");
      std::vector<TimeProfiler *> P(np);
      for (int p = 0; p < np; p++) P[p] = new TimeProfiler(p ? fmt("prof%d", p) : std::string("tmp"), prof_comm(comm[p]));
      P[0]->SetTitle("prof0");
      std::map<std::pair<int, int>, u64> t0, t1;
      for (auto &s : prog[r])
         switch (s.op)
         {
            case Q_START: { t0[{s.prof, s.sec}] = sim_now(); P[s.prof]->Start(sec[s.prof][s.sec]); t1[{s.prof, s.sec}] = sim_now(); break; }
            case Q_STOP:
            {
               u64 a = sim_now(); P[s.prof]->Stop(s.sec < 0 ? "neverstarted" : sec[s.prof][s.sec]); u64 b = sim_now();
               o.i(1); o.i(s.prof); o.i(s.sec); o.i(a - t1[{s.prof, s.sec}]); o.i(b - t0[{s.prof, s.sec}]);
               break;
            }
            case Q_WORK: sim_advance(s.ns); break;
            case Q_WAIT: sim_wait(s.ns); break;
            case Q_JUMP: sim_clock_jump((long long)s.ns - 3600000000000ll); break;
            case Q_PRINT: P[s.prof]->Print(s.title, s.sum); o.i(2); o.i(s.prof); o.i(s.sum); o.s(s.title); fflush(stdout); break;
            case Q_YIELD: sim_yield(); break;
         }
      for (int p = 0; p < np; p++) { o.i(2); o.i(p); o.i(0); o.s(autop[p] ? fmt("prof%d", p) : std::string()); delete P[p]; }
      fflush(stdout);
   });
   if (!J.mpi_error.empty()) c.violation("mpi-error", "%s", J.mpi_error.c_str());
   if (J.deadlock) c.violation("deadlock", "%s", J.summary().c_str());
   c.counters[fmt("misuse:%d", bad < 2 ? 0 : bad)]++; c.counters[fmt("ranks:%d", n)]++;
   c.cov(c.sched_hash); c.cov(n * 100 + np * 10 + bad); for (auto &P : prog) for (auto &s : P) c.cov(s.op * 1000 + s.prof * 100 + s.sec + s.ns);
   c.nontrivial = true;
   if (!legal)
   {
      if (J.r[badrank].ok()) c.violation("misuse-accepted", "rank %d %s and continues", badrank, bad == 2 ? "starts a running section" : bad == 3 ? "stops a section that is not running" : bad == 4 ? "stops a section that never ran" : "prints while a section runs");
      return;
   }
   if (!J.all_ok())
   {
      std::string con; for (auto &r : J.r) if (!r.ok()) con += r.console.substr(0, 300);
      c.violation("fails", "legal use of the profiler fails: %s %s", J.summary().c_str(), con.c_str());
   }
   // members of the profiler's communicator that `r` belongs to, in its order
   auto members = [&](int kind, int r)
   {
      std::vector<int> m;
      if (kind == 4) m = {r};
      else if (kind == 3) for (int k = n - 1; k >= 0; k--) m.push_back(k);
      else for (int k = 0; k < n; k++) if (kind != 2 || k % 2 == r % 2) m.push_back(k);
      return m;
   };
   // replay the record of every rank
   struct Acc { u64 lo = 0, hi = 0; long long calls = 0; };
   struct Snap { std::string title; int prof; bool sum; std::map<int, Acc> a; };
   std::vector<std::vector<Snap> > snaps(n);
   for (int r = 0; r < n; r++)
   {
      In in(J.r[r].out); std::map<int, std::map<int, Acc> > A;
      while (!in.end() && !in.bad)
      {
         if (in.i() == 1) { int p = in.i(), k = in.i(); u64 lo = in.i(), hi = in.i(); Acc &x = A[p][k]; x.lo += lo; x.hi += hi; x.calls++; }
         else { Snap s; s.prof = in.i(); s.sum = in.i(); s.title = in.s(); s.a = A[s.prof]; if (!s.title.empty()) snaps[r].push_back(s); }
      }
   }
   for (int r = 0; r < n; r++)
   {
      std::vector<std::pair<std::string, Table> > T = tables(J.r[r].console, titles);
      size_t at = 0;
      for (size_t q = 0; q < snaps[r].size(); q++)
      {
         Snap &s = snaps[r][q];
         std::vector<int> m = members(comm[s.prof], r);
         if (m[0] != r) continue;     // someone else prints
         if (at >= T.size()) c.violation("table-missing", "rank %d, the first of the profiler's communicator, does not print '%s'", r, s.title.c_str());
         if (T[at].first != s.title) c.violation("table-title", "rank %d prints '%s' instead of '%s'", r, T[at].first.c_str(), s.title.c_str());
         Table &t = T[at++].second;
         std::map<int, Acc> tot = s.a;
         for (int o : m) if (o != r) for (auto &x : snaps[o][q].a) { tot[x.first].lo += x.second.lo; tot[x.first].hi += x.second.hi; tot[x.first].calls += x.second.calls; }
         if (t.rows.size() != tot.size()) c.violation("row-count", "table '%s' has %zu rows for %zu sections", s.title.c_str(), t.rows.size(), tot.size());
         double lo_all = 0, hi_all = 0;
         for (auto &x : tot)
         {
            std::string nm = sec[s.prof][x.first]; const Row *row = nullptr;
            for (auto &y : t.rows) if (y.name == nm) row = &y;
            if (!row) c.violation("row-missing", "table '%s' lacks section '%s'", s.title.c_str(), nm.c_str());
            if (row->calls != x.second.calls) c.violation("calls", "table '%s' (print %zu of rank %d, %zu processes): section '%s' shows %lld calls, %lld were completed", s.title.c_str(), q, r, m.size(), nm.c_str(), row->calls, x.second.calls);
            double lo = x.second.lo * 1e-9 * (1 - 1e-5) - 1e-8, hi = x.second.hi * 1e-9 * (1 + 1e-5) + 1e-8;
            lo_all += lo; hi_all += hi;
            if (!(row->total >= lo && row->total <= hi)) c.violation("total-time", "table '%s' (print %zu of rank %d, %zu processes): section '%s' shows %.5e s, elapsed %.5e..%.5e s", s.title.c_str(), q, r, m.size(), nm.c_str(), row->total, lo, hi);
            double per = row->total / row->calls;
            if (!(std::fabs(row->per - per) <= 2e-5 * std::fabs(per) + 1e-9)) c.violation("time-per-call", "table '%s': section '%s' %.5e s in %lld calls shows %.5e s per call", s.title.c_str(), nm.c_str(), row->total, row->calls, row->per);
         }
         if (s.sum != t.has_sum) c.violation("sum-line", "table '%s': total line %s", s.title.c_str(), t.has_sum ? "not asked for" : "missing");
         if (s.sum && !(t.sum >= lo_all && t.sum <= hi_all)) c.violation("sum", "table '%s': the total shows %.5e s, the sections add up to %.5e..%.5e s", s.title.c_str(), t.sum, lo_all, hi_all);
         c.counters["tables"]++;
      }
      if (at != T.size()) c.violation("extra-table", "rank %d prints a table it should not print ('%s')", r, T[at].first.c_str());
   }
}
static Reg r10("C10", c10, "one run = 1..2 profilers over world, duplicated, split, reordered or self communicators on 1..4 simulated ranks with random start/stop/work/wait/wall-clock-jump/print histories under a random schedule, printed tables compared with the simulated clock; or one misuse; distinct = different histories, communicators and schedules");

// ---- C11 -----------------------------------------------------------------------------
struct PDef { int kind; std::string key, format; bool log; double lo, hi; int ilo, ihi; };
static std::string ptext(double v) { return fmt("%.17g", v); }

static void c11(Ctx &c)
{
   Rng g = c.stream();
   int np = 1 + c.choose(3);
   std::vector<PDef> defs;
   std::string yaml = "main: {mode: sample_generation}\nsingle_run: {a: 1, b: {x: old, y: 2.5}}\nlist: [1, 2, 3]\nparams:\n";
   static const char *keys[] = {"single_run/k", "single_run/b/x", "mesh/filename", "top", "single_run/a"};
   std::vector<int> kk = {0, 1, 2, 3, 4};
   for (int k = 4; k > 0; k--) std::swap(kk[k], kk[g.below(k + 1)]);
   for (int k = 0; k < np; k++)
   {
      PDef q; q.kind = c.choose(3); q.key = keys[kk[k]]; q.log = q.kind == 0 && c.flip(1, 2); q.lo = q.hi = 0; q.ilo = q.ihi = 0;
      if (q.kind == 0)
      {
         double s = std::pow(10.0, (int)g.below(25) - 12);
         if (q.log) { q.lo = s * (0.1 + g.unit()); q.hi = q.lo * (g.chance(1, 8) ? 1.0 : std::pow(10.0, g.unit() * 8)); }
         else { q.lo = s * (g.unit() * 2 - 1); q.hi = q.lo + (g.chance(1, 8) ? 0.0 : s * g.unit() * std::pow(10.0, (int)g.below(4))); if (g.chance(1, 6)) q.lo = -q.hi * g.unit(); if (q.lo > q.hi) std::swap(q.lo, q.hi); }
         yaml += fmt("  - {minimum: %s, maximum: %s%s}\n", ptext(q.lo).c_str(), ptext(q.hi).c_str(), q.log ? ", log_scale: true" : g.chance(1, 2) ? ", log_scale: false" : "");
      }
      else
      {
         q.ilo = g.chance(1, 3) ? 0 : (int)g.below(2000) - 1000;
         q.ihi = q.ilo + (int)g.below(g.chance(1, 2) ? 5 : 3000);
         static const char *f[] = {"snap%d.h5", "dir/%05d/file", "%d", "mesh-%3d.mesh", "a%%b%d", "LONG"};
         if (q.kind == 2) { if (q.ilo < 0) { q.ihi -= q.ilo; q.ilo = 0; } q.format = f[g.below(6)]; if (q.format == "LONG") q.format = std::string(100 + g.below(500), 'p') + "%08d"; }
         yaml += fmt("  - {minimum: %d, maximum: %d", q.ilo, q.ihi) + (q.kind == 2 ? ", format: \"" + q.format + "\"}\n" : "}\n");
      }
      defs.push_back(q);
   }
   enum { SIZE, SET, RANDOM, SWEEP, SPREAD, NAMES };
   struct Op { int op, par, arg; };
   std::vector<Op> ops; std::vector<int> size(np, -1);
   int no = 2 + c.choose(c.thorough ? 20 : 10);
   for (int k = 0; k < no; k++)
   {
      int p = c.choose(np), what = c.choose(6);
      if ((what == SET || what == SWEEP) && size[p] < 0) what = SIZE;
      if (what == SIZE) { size[p] = 1 + (int)g.below(g.chance(1, 4) ? 200 : 8); ops.push_back({SIZE, p, size[p]}); }
      else if (what == SET) ops.push_back({SET, p, (int)g.below(size[p])});
      else if (what == NAMES && defs[p].kind != 2) ops.push_back({RANDOM, p, 0});
      else ops.push_back({what, p, 0});
   }
   NodeOpt no_; no_.rand_seed = c.choose(1u << 20); no_.rand_mode = c.choose(6);
   if (no_.rand_mode) c.fault(F_RANDADV);
   int illegal = c.choose(8);   // 1: index below, 2: index above, 3: required bound missing, else none
   bool own = c.flip(1, 3);
   std::string d = c.disk("d");
   auto make = [&](std::vector<std::unique_ptr<Parameter> > &P)
   {
      config.dict_ = YAML::Load(yaml);
      YAML::Node l = config.FindNode("params");
      for (int k = 0; k < np; k++)
      {
         if (defs[k].kind == 0) P.emplace_back(new DoubleParam(defs[k].key, l[k]));
         else if (defs[k].kind == 1) P.emplace_back(new IntegerParam(defs[k].key, l[k]));
         else P.emplace_back(new FilenameParam(defs[k].key, l[k]));
      }
   };
   NodeOut r = run_node(c, "sampling", d, no_, [&](Out &o)
   {
      std::vector<std::unique_ptr<Parameter> > P; make(P);
      InputParser mine; mine.dict_ = YAML::Load(yaml);
      InputParser &T = own ? mine : config;
      auto dump = [&](int p)
      {
         o.s(T.GetRequiredOption<std::string>(defs[p].key));
         if (defs[p].kind == 0) o.d(T.GetRequiredOption<double>(defs[p].key));
         // everything else
         YAML::Node cp = YAML::Clone(T.dict_);
         InputParser x; x.dict_ = cp;
         for (int k = 0; k < np; k++) if (x.FindNode(defs[k].key)) x.SetOption<std::string>(defs[k].key, k == p ? "X" : T.GetRequiredOption<std::string>(defs[k].key));
         YAML::Emitter e; e << cp; o.s(e.c_str());
      };
      for (auto &q : ops)
         switch (q.op)
         {
            case SIZE: P[q.par]->SetSize(q.arg); o.d(P[q.par]->GetSize()); o.s(P[q.par]->GetKey()); break;
            case SET: P[q.par]->SetParam(q.arg, T); dump(q.par); break;
            case RANDOM: P[q.par]->SetRandomParam(T); dump(q.par); break;
            case SWEEP: { int m = (int)P[q.par]->GetSize(); o.i(m); for (int k = 0; k < m; k++) { P[q.par]->SetParam(k, T); o.s(T.GetRequiredOption<std::string>(defs[q.par].key)); } break; }
            case SPREAD: for (int k = 0; k < 300; k++) { P[q.par]->SetRandomParam(T); o.s(T.GetRequiredOption<std::string>(defs[q.par].key)); } break;
            case NAMES: { std::vector<std::string> f(1, "first"); dynamic_cast<FilenameParam *>(P[q.par].get())->ParseFilenames(f); o.i(f.size()); for (auto &s : f) o.s(s); break; }
         }
   });
   for (auto &q : ops) c.note("op %d on parameter %d (%s), %d", q.op, q.par, defs[q.par].key.c_str(), q.arg);
   for (auto &q : defs) c.note("parameter %s kind %d%s [%.17g, %.17g] [%d, %d] '%s'", q.key.c_str(), q.kind, q.log ? " log" : "", q.lo, q.hi, q.ilo, q.ihi, q.format.substr(0, 20).c_str());
   if (!r.ok()) c.violation("fails", "legal use of parameters ended with %s (%s): %s", r.name(), r.how.c_str(), r.console.substr(0, 200).c_str());
   In in(r.out);
   auto number = [&](const PDef &q, const std::string &s) -> long
   {
      for (int v = q.ilo; v <= q.ihi; v++) if (q.kind == 1 ? s == fmt("%d", v) : s == fmt(q.format.c_str(), v)) return v;
      return LONG_MIN;
   };
   auto check_index = [&](const PDef &q, int sz, int k, const std::string &s)
   {
      if (q.kind == 0)
      {
         double v = strtod(s.c_str(), 0), w;
         if (sz == 1 || k == 0) w = q.lo;
         else if (q.log) w = std::exp(std::log(q.lo) + (std::log(q.hi) - std::log(q.lo)) * k / (sz - 1));
         else w = q.lo + (q.hi - q.lo) * k / (sz - 1);
         double tol = q.log ? 1e-9 * std::fabs(w) : 1e-11 * std::max(std::fabs(q.lo), std::fabs(q.hi));
         if (!(std::fabs(v - w) <= tol)) c.violation("index-value", "parameter in [%.17g, %.17g]%s with %d samples: index %d gives %s, expected %.17g", q.lo, q.hi, q.log ? " log" : "", sz, k, s.c_str(), w);
      }
      else
      {
         long w = sz == 1 ? q.ilo : q.ilo + (long)k * ((q.ihi - q.ilo) / (sz - 1));
         std::string ws = q.kind == 1 ? fmt("%ld", w) : fmt(q.format.c_str(), (int)w);
         if (s != ws) c.violation("index-value", "integer parameter in [%d, %d] with %d samples: index %d gives '%s', expected '%s'", q.ilo, q.ihi, sz, k, s.substr(0, 60).c_str(), ws.substr(0, 60).c_str());
      }
   };
   auto check_random = [&](const PDef &q, const std::string &s)
   {
      if (q.kind == 0)
      {
         double v = strtod(s.c_str(), 0), tol = q.log ? 1e-11 * q.hi : 1e-12 * std::max(std::fabs(q.lo), std::fabs(q.hi));
         if (!(v >= q.lo - (q.log ? 1e-11 * q.lo : tol) && v <= q.hi + tol)) c.violation("random-out-of-range", "a random draw in [%.17g, %.17g]%s gives %s", q.lo, q.hi, q.log ? " log" : "", s.c_str());
      }
      else if (number(q, s) == LONG_MIN) c.violation("random-out-of-range", "a random draw in [%d, %d] gives '%s'", q.ilo, q.ihi, s.substr(0, 80).c_str());
   };
   std::vector<int> sz(np, -1);
   std::string other; int otherp = -1;
   std::map<std::string, std::string> last;
   auto rest = [&](const Op &q)
   {
      std::string val = in.s();
      if (defs[q.par].kind == 0) { double v = in.d(); if (!(v == strtod(val.c_str(), 0))) c.violation("option-type", "option '%s' reads as %.17g", val.c_str(), v); }
      if (q.op == SET) check_index(defs[q.par], sz[q.par], q.arg, val); else check_random(defs[q.par], val);
      // the rest of the configuration
      std::string e = in.s();
      YAML::Node n = YAML::Load(e), w = YAML::Load(yaml);
      InputParser a, b; a.dict_ = n; b.dict_ = w;
      last[defs[q.par].key] = "X";
      for (auto &x : last) b.SetOption<std::string>(x.first, x.second);
      last[defs[q.par].key] = val;
      std::function<bool(const YAML::Node &, const YAML::Node &)> eq = [&](const YAML::Node &x, const YAML::Node &y) -> bool
      {
         if (x.Type() != y.Type() || x.size() != y.size()) return false;
         if (x.IsScalar()) return x.Scalar() == y.Scalar();
         if (x.IsSequence()) { for (size_t k = 0; k < x.size(); k++) if (!eq(x[k], y[k])) return false; return true; }
         if (x.IsMap()) { for (auto it = x.begin(); it != x.end(); ++it) { const YAML::Node &yc = y; YAML::Node z = yc[it->first.Scalar()]; if (!z || !eq(it->second, z)) return false; } return true; }
         return true;
      };
      if (!eq(n, w)) c.violation("other-option-changed", "setting '%s' changes another option", defs[q.par].key.c_str());
   };
   for (auto &q : ops)
   {
      PDef &D = defs[q.par];
      switch (q.op)
      {
         case SIZE: { sz[q.par] = q.arg; double s = in.d(); std::string k = in.s(); if (s != q.arg || k != D.key) c.violation("size-or-key", "parameter '%s' reports size %g and key '%s' after size %d was set", D.key.c_str(), s, k.c_str(), q.arg); break; }
         case SET: case RANDOM: rest(q); break;
         case SWEEP:
         {
            int m = in.i(); double prev = -HUGE_VAL;
            for (int k = 0; k < m; k++)
            {
               std::string s = in.s(); check_index(D, sz[q.par], k, s);
               double v = D.kind == 0 ? strtod(s.c_str(), 0) : (double)number(D, s);
               if (v < prev - 1e-9 * std::fabs(prev)) c.violation("not-monotone", "index %d of parameter '%s' is smaller than index %d", k, D.key.c_str(), k - 1);
               prev = v; last[D.key] = s;
            }
            break;
         }
         case SPREAD:
         {
            std::set<std::string> seen; double mn = HUGE_VAL, mx = -HUGE_VAL;
            for (int k = 0; k < 300; k++)
            {
               std::string s = in.s(); check_random(D, s); seen.insert(s); last[D.key] = s;
               if (D.kind == 0) { double v = strtod(s.c_str(), 0); if (D.log) v = std::log(v); mn = std::min(mn, v); mx = std::max(mx, v); }
            }
            if (no_.rand_mode == 0)
            {
               if (D.kind != 0 && D.ihi - D.ilo < 8 && (int)seen.size() != D.ihi - D.ilo + 1) c.violation("draws-miss-values", "300 random draws in [%d, %d] take only %zu different values", D.ilo, D.ihi, seen.size());
               if (D.kind == 0)
               {
                  double a = D.log ? std::log(D.lo) : D.lo, b = D.log ? std::log(D.hi) : D.hi;
                  if (b - a > 1e-9 * (std::fabs(a) + std::fabs(b)) && (mn > a + 0.1 * (b - a) || mx < b - 0.1 * (b - a))) c.violation("draws-miss-range", "300 random draws in [%g, %g]%s only reach [%g, %g]", D.lo, D.hi, D.log ? " log" : "", D.log ? std::exp(mn) : mn, D.log ? std::exp(mx) : mx);
               }
            }
            break;
         }
         case NAMES:
         {
            int m = in.i(); std::vector<std::string> f; for (int k = 0; k < m; k++) f.push_back(in.s());
            if (m != D.ihi - D.ilo + 2 || f[0] != "first") c.violation("filenames-count", "the file list for [%d, %d] has %d entries", D.ilo, D.ihi, m - 1);
            for (int k = 1; k < m; k++) if (f[k] != fmt(D.format.c_str(), D.ilo + k - 1)) c.violation("filenames", "file %d of [%d, %d] is '%s'", k - 1, D.ilo, D.ihi, f[k].substr(0, 60).c_str());
            break;
         }
      }
   }
   if (illegal >= 1 && illegal <= 3)
   {
      int p = g.below(np), s = 1 + g.below(5);
      NodeOut x = run_node(c, "illegal", d, NodeOpt(), [&](Out &)
      {
         if (illegal == 3) { YAML::Node l = YAML::Load("{maximum: 3, format: a%d}"); if (defs[p].kind == 0) DoubleParam q("k", l); else if (defs[p].kind == 1) IntegerParam q("k", l); else FilenameParam q("k", l); return; }
         std::vector<std::unique_ptr<Parameter> > P; make(P);
         P[p]->SetSize(s); P[p]->SetParam(illegal == 1 ? -1 : s, config);
      });
      if (x.ok()) c.violation("illegal-accepted", "%s is accepted", illegal == 3 ? "a parameter without minimum" : "a sample index outside the range");
   }
   for (auto &q : defs) { c.cov(q.kind); c.cov(ptext(q.lo) + ptext(q.hi)); c.cov(q.ilo * 10000 + q.ihi); c.counters[fmt("kind:%d%s", q.kind, q.log ? "log" : "")]++; }
   for (auto &q : ops) c.cov(q.op * 100 + q.par * 1000 + q.arg);
   c.cov(no_.rand_mode + 10 * no_.rand_seed);
   c.nontrivial = true;
}
static Reg r11("C11", c11, "one run = 1..3 parameters (double, log-scaled, integer, file name) with random ranges and a random history of sizes, index settings, full sweeps, random draws and file lists, with uniform or adversarial random source; distinct = different ranges, histories and random streams");

} // namespace sim
