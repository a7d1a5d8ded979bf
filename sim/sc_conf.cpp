// Configuration: C08 (every process gets the same configuration) and C09 (option histories).
#include "simrt.hpp"
#include "input_parser.hpp"
#include <cmath>
#include <unistd.h>
using namespace mfem;
namespace sim {

// ---- a configuration as plain data (host side model) -------------------------------
struct Tree
{
   enum K { NUL, SCALAR, SEQ, MAP } k = NUL;
   std::string s; bool quote = false;
   std::vector<Tree> seq;
   std::vector<std::pair<std::string, Tree> > map;
   Tree *find(const std::string &key) { for (auto &p : map) if (p.first == key) return &p.second; return nullptr; }
};
static Tree sc(const std::string &s) { Tree t; t.k = Tree::SCALAR; t.s = s; return t; }

static void flatten(const Tree &t, const std::string &path, std::map<std::string, std::string> &o)
{
   switch (t.k)
   {
      case Tree::NUL: o[path] = "~null"; break;
      case Tree::SCALAR: o[path] = "=" + t.s; break;
      case Tree::SEQ:
         o[path] = fmt("~seq %zu", t.seq.size());
         for (size_t k = 0; k < t.seq.size(); k++) flatten(t.seq[k], path + fmt("[%zu]", k), o);
         break;
      case Tree::MAP:
         o[path] = fmt("~map %zu", t.map.size());
         for (auto &p : t.map) flatten(p.second, path + "/" + p.first, o);
         break;
   }
}
static std::string canon(const Tree &t)
{
   std::map<std::string, std::string> m; flatten(t, "", m);
   std::string r; for (auto &p : m) r += p.first + " " + p.second + "\n";
   return r;
}
// the same of a YAML node; runs in nodes
static void flatten(const YAML::Node &n, const std::string &path, std::map<std::string, std::string> &o)
{
   if (!n.IsDefined()) { o[path] = "~undefined"; return; }
   if (n.IsNull()) { o[path] = "~null"; return; }
   if (n.IsScalar()) { o[path] = "=" + n.Scalar(); return; }
   int k = 0;
   if (n.IsSequence())
   {
      for (YAML::const_iterator it = n.begin(); it != n.end(); ++it, k++) flatten(*it, path + fmt("[%d]", k), o);
      o[path] = fmt("~seq %d", k);
      return;
   }
   for (YAML::const_iterator it = n.begin(); it != n.end(); ++it, k++) flatten(it->second, path + "/" + it->first.Scalar(), o);
   o[path] = fmt("~map %d", k);
}
static std::string canon(const YAML::Node &n)
{
   std::map<std::string, std::string> m; flatten(n, "", m);
   std::string r; for (auto &p : m) r += p.first + " " + p.second + "\n";
   return r;
}
static std::string first_diff(const std::string &a, const std::string &b)
{
   size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
   while (p > 0 && a[p - 1] != '\n') p--;
   auto line = [&](const std::string &s) { size_t e = s.find('\n', p); return p < s.size() ? s.substr(p, std::min<size_t>(e == std::string::npos ? 80 : e - p, 80)) : std::string("(end)"); };
   return "expected '" + line(a) + "' got '" + line(b) + "'";
}

static const char *const KEYS[] = {"mesh", "main", "solver", "basis", "type", "name", "uniform_refinement", "component-wise", "ports", "n", "x", "value", "file_path", "single_run", "rom"};
static std::string rkey(Rng &g) { std::string k = KEYS[g.below(15)]; if (g.chance(1, 3)) k += fmt("%d", (int)g.below(5)); return k; }
static Tree rscalar(Rng &g)
{
   switch (g.below(7))
   {
      case 0: return sc(fmt("%d", (int)g.below(2000) - 1000));
      case 1: return sc(fmt("%.17g", g.unit() * 100 - 50));
      case 2: return sc(g.chance(1, 2) ? "true" : "false");
      case 3: { Tree t = sc("word with spaces, and: colon #no comment"); t.quote = true; return t; }
      case 4: { Tree t = sc("caf\xc3\xa9 \xe2\x88\x9e"); t.quote = true; return t; }
      case 5: { Tree t = sc(""); t.quote = true; return t; }
      default: return sc(fmt("file%d.h5", (int)g.below(100)));
   }
}
static Tree rtree(Rng &g, int depth)
{
   Tree t;
   int r = g.below(10);
   if (depth <= 0 || r < 4) return rscalar(g);
   if (r == 4) return t;
   if (r < 7)
   {
      t.k = Tree::SEQ;
      int n = g.below(4);
      for (int k = 0; k < n; k++) t.seq.push_back(rtree(g, depth - 1));
      return t;
   }
   t.k = Tree::MAP;
   int n = g.below(4);
   for (int k = 0; k < n; k++) { std::string key = rkey(g); if (!t.find(key)) t.map.push_back({key, rtree(g, depth - 1)}); }
   return t;
}
static std::string scalar_text(const Tree &t)
{
   if (!t.quote) return t.s;
   return "\"" + t.s + "\"";
}
static void emit_flow(const Tree &t, std::string &o)
{
   switch (t.k)
   {
      case Tree::NUL: o += "~"; break;
      case Tree::SCALAR: o += scalar_text(t); break;
      case Tree::SEQ: o += "["; for (size_t k = 0; k < t.seq.size(); k++) { if (k) o += ", "; emit_flow(t.seq[k], o); } o += "]"; break;
      case Tree::MAP: o += "{"; for (size_t k = 0; k < t.map.size(); k++) { if (k) o += ", "; o += t.map[k].first + ": "; emit_flow(t.map[k].second, o); } o += "}"; break;
   }
}
static void emit_block(const Tree &t, int ind, std::string &o, Rng &g)
{
   // a map in block style, after "key:" or at the top
   for (auto &p : t.map)
   {
      o += std::string(ind, ' ') + p.first + ":";
      if (p.second.k == Tree::MAP && !p.second.map.empty() && !g.chance(1, 5)) { o += "\n"; emit_block(p.second, ind + 2, o, g); }
      else if (p.second.k == Tree::SEQ && !p.second.seq.empty() && g.chance(1, 2))
      {
         o += "\n";
         for (auto &e : p.second.seq) { o += std::string(ind + 2, ' ') + "- "; emit_flow(e, o); o += "\n"; }
      }
      else { o += " "; emit_flow(p.second, o); o += g.chance(1, 8) ? "   # remark\n" : "\n"; }
   }
}

// set a path the way a dictionary would
static bool tree_set(Tree &root, const std::vector<std::string> &path, const Tree &v)
{
   Tree *t = &root;
   for (auto &s : path)
   {
      if (t->k == Tree::NUL) { t->k = Tree::MAP; }
      if (t->k != Tree::MAP) return false;
      Tree *n = t->find(s);
      if (!n) { t->map.push_back({s, Tree()}); n = &t->map.back().second; }
      t = n;
   }
   *t = v;
   return true;
}
static std::string join(const std::vector<std::string> &p) { std::string r; for (auto &s : p) r += (r.empty() ? "" : "/") + s; return r; }
// a path in the tree whose parents are maps (or absent): existing or new. with_null: may descend into null
static std::vector<std::string> rpath(Tree &root, Rng &g, bool existing)
{
   std::vector<std::string> p;
   Tree *t = &root;
   for (int d = 0; d < 4; d++)
   {
      if (t && t->k == Tree::MAP && !t->map.empty() && (existing || g.chance(3, 4)))
      {
         auto &e = t->map[g.below(t->map.size())];
         p.push_back(e.first);
         t = &e.second;
         bool can = t->k == Tree::MAP || (t->k == Tree::NUL && !existing);
         if (!can || (t->k == Tree::MAP && existing && t->map.empty()) || g.chance(1, 3)) return p;
      }
      else
      {
         std::string k = rkey(g);
         p.push_back(k);
         t = t && t->k == Tree::MAP ? t->find(k) : nullptr;
         bool can = !t || t->k == Tree::MAP || t->k == Tree::NUL;
         if (!can || g.chance(1, 2)) return p;
      }
   }
   return p;
}

// ---- C08 ---------------------------------------------------------------------------
static void c08(Ctx &c)
{
   std::string d = c.disk("d");
   // the file
   Rng g = c.stream();
   Tree root; root.k = Tree::MAP;
   int nk = c.choose(7);
   for (int k = 0; k < nk; k++) { std::string key = rkey(g); if (!root.find(key)) root.map.push_back({key, rtree(g, 3)}); }
   std::string text;
   if (root.map.empty()) { root.k = Tree::NUL; }
   else emit_block(root, 0, text, g);
   // pad with comments to interesting sizes
   static const int targets[] = {0, 15, 16, 17, 29, 30, 31, 32, 4095, 4096, 4097, 8190, 8191, 8192, 16384, 65536, 131072, 1000003, 3000001};
   int ti = c.choose(c.thorough ? 19 : 17);
   int target = targets[ti];
   if (target > (int)text.size())
   {
      bool front = c.flip(1, 3);
      std::string pad;
      size_t need = target - text.size();
      while (need > 0) { size_t l = std::min<size_t>(need, 1 + g.below(200)); if (l == 1) pad += "\n"; else pad += "#" + std::string(l - 2, 'a' + g.below(26)) + "\n"; need -= l; }
      text = front ? pad + text : text + pad;
   }
   c.cov(text.size()); c.cov(hbytes(0, text.data(), text.size()));
   // overrides
   Tree want = root;
   std::string forced;
   int no = c.choose(4);
   for (int k = 0; k < no; k++)
   {
      std::vector<std::string> p = rpath(want, g, g.chance(1, 2));
      Tree v; std::string vt;
      switch (g.below(5))
      {
         case 0: vt = fmt("%d", (int)g.below(1000)); v = sc(vt); break;
         case 1: vt = fmt("%.17g", g.unit()); v = sc(vt); break;
         case 2: vt = g.chance(1, 2) ? "true" : "steady-ns"; v = sc(vt); break;
         case 3: v.k = Tree::SEQ; for (int q = 0, m = 1 + g.below(3); q < m; q++) v.seq.push_back(sc(fmt("%d", (int)g.below(9)))); emit_flow(v, vt); break;
         default: vt = "dir/file name.h5"; v = sc(vt); break;
      }
      if (!tree_set(want, p, v)) continue;
      forced += (forced.empty() ? "" : ":") + join(p) + "=" + vt;
   }
   if (!forced.empty() && c.flip(1, 8)) forced += ":";
   std::string expect = canon(want);
   int n = 1 + c.choose(5);
   enum { NONE, SERIAL, MISSING, DIRECTORY, OPENFAIL, READFAIL, BADFORCED, BADYAML, CRASH, ONLYROOT, NMODE };
   int mode = c.choose(NMODE);
   std::string file = "input.yml";
   if (mode == MISSING) file = "nosuch.yml";
   if (mode == DIRECTORY) c.disk("d/input.yml");
   else
   {
      if (mode == BADYAML)
      {
         static const char *bad[] = {"\nz: [1, 2\n", "\nz: {a: 1\n", "\nz: [1, {b: 2]\n"};
         text += bad[c.choose(3)];
      }
      write_file(d + "/input.yml", text);
   }
   if (mode == BADFORCED)
   {
      static const char *bad[] = {"mesh", "a=b=c", "a/b=", "=", "x==1", "mesh/type = ", "=5", "=a/b"};
      std::string b = bad[c.choose(8)];
      if (b == "mesh/type = ") b = "a=[1, 2";
      int where = c.choose(3);
      if (where == 0 || forced.empty()) forced = b; else if (where == 1) forced = b + ":" + forced; else forced += (forced.back() == ':' ? "" : ":") + b;
      if (c.flip(1, 6)) forced = "a=1::b=2";
   }
   c.note("file %zu bytes, overrides '%s', %d ranks, mode %d", text.size(), forced.substr(0, 200).c_str(), n, mode);
   auto parse = [&](Out &o)
   {
      InputParser p(file, forced);
      o.s(canon(p.dict_));
      config = p;                      // as the drivers do
      o.s(canon(config.dict_));
   };
   auto check = [&](const NodeOut &r, const std::string &who)
   {
      if (r.st == NodeOut::HANG) c.violation("hang", "%s never finishes", who.c_str());
      if (!r.ok()) return;
      In in(r.out);
      std::string a = in.s(), b = in.s();
      if (mode == MISSING || mode == DIRECTORY) c.violation("no-file-accepted", "%s continues although the input file does not exist (configuration: %s)", who.c_str(), a.substr(0, 60).c_str());
      if (mode == BADFORCED) c.violation("bad-override-accepted", "%s continues although '%s' is not a list of key=value pairs", who.c_str(), forced.c_str());
      if (mode == BADYAML) c.violation("bad-file-accepted", "%s continues although the input file is malformed", who.c_str());
      if (a != expect) c.violation(mode == READFAIL || mode == OPENFAIL ? "partial-configuration" : "wrong-configuration", "%s has another configuration: %s", who.c_str(), first_diff(expect, a).c_str());
      if (b != expect) c.violation("copy-differs", "%s: the copied configuration differs: %s", who.c_str(), first_diff(expect, b).c_str());
   };
   bool must_ok = mode == NONE || mode == SERIAL || mode == ONLYROOT;
   if (mode == SERIAL || c.flip(1, 4))
   {
      NodeOpt o; o.mpi = false; draw_benign(c, o.plan);
      NodeOut r = run_node(c, "serial", d, o, parse);
      check(r, "the process without MPI");
      if (must_ok && !r.ok()) c.violation("valid-input-refused", "a valid input is refused without MPI: %s", r.console.substr(0, 200).c_str());
   }
   if (mode != SERIAL)
   {
      NodeOut reh;
      if (mode == OPENFAIL || mode == READFAIL || mode == CRASH)
      {
         NodeOpt o; reh = run_node(c, "rehearsal", d, o, parse);
         if (!reh.ok()) c.violation("valid-input-refused", "a valid input is refused with one rank: %s", reh.console.substr(0, 200).c_str());
         check(reh, "one rank");
      }
      JobOpt jo; jo.node.resize(n);
      draw_schedule(c, jo, n, 40);
      for (int k = 0; k < n; k++) draw_benign(c, jo.node[k].plan);
      if (mode == OPENFAIL) { FaultPlan p = draw_fault(c, FC_OPEN, reh, "input.yml"); p.benign = 0; jo.node[0].plan = p; }
      if (mode == READFAIL)
      {
         FaultPlan p; p.kind = c.choose(2) ? F_R_EIO_P : F_R_EIO;
         std::vector<long> at; for (size_t q = 0; q < reh.ops.size(); q++) if (reh.ops[q].type == T_READ) at.push_back(q);
         if (at.size()) { p.at = at[c.choose(at.size())]; jo.node[0].plan = p; }
      }
      if (mode == CRASH)
      {
         FaultPlan p = draw_fault(c, FC_CRASH, reh, "input.yml");
         if (c.flip(1, 2)) jo.node[0].plan = p; else jo.kill_at = c.choose(30);
      }
      if (mode == ONLYROOT) for (int k = 1; k < n; k++) { FaultPlan p; p.kind = F_OPEN_EACCES; p.at = 0; jo.node[k].plan = p; }
      JobOut J = run_job(c, "start", d, n, jo, [&](int, Out &o) { parse(o); });
      if (!J.mpi_error.empty()) c.violation("mpi-error", "%s", J.mpi_error.c_str());
      if (J.deadlock) c.violation("deadlock", "ranks wait forever: %s", J.summary().c_str());
      for (int k = 0; k < n; k++) check(J.r[k], fmt("rank %d of %d", k, n));
      if (must_ok && !J.all_ok()) c.violation("valid-input-refused", "a valid input does not start on all ranks: %s (%s)", J.summary().c_str(), J.r[0].console.substr(0, 200).c_str());
      c.nontrivial = n > 1 || mode != NONE;
   }
   else c.nontrivial = true;
   static const char *mn[] = {"none", "serial", "missing", "directory", "openfail", "readfail", "badforced", "badyaml", "crash", "onlyroot"};
   c.counters[std::string("mode:") + mn[mode]]++;
   c.cov(mode * 10 + n); c.cov(forced); c.cov(c.sched_hash);
}
static Reg r08("C08", c08, "one run = a random input file (0 bytes to 3 MB, sizes around buffer limits) and override list parsed by 1..5 simulated ranks under a random schedule and broadcast mode, or without MPI, with one of: no fault, missing file, directory, failing open, failing read, malformed override, malformed file, crash, file visible to rank 0 only; distinct = different file, overrides, rank count, fault and schedule");

// ---- C09 ---------------------------------------------------------------------------
enum { G_SETI, G_SETD, G_SETB, G_SETS, G_SETA, G_SETV, G_SETVS, G_GET, G_REQ, G_FIND, G_CREATE, G_LOOK, G_LOOKR, G_SETENTRY, G_REPLACE, G_ABSENT, G_NULLGET, G_SEQGET, G_DUMP, G_NOPS };
static const char *gname[] = {"set-int", "set-double", "set-bool", "set-string", "set-array", "set-vector", "set-strings", "get", "required", "find", "create", "lookup", "lookup-value", "set-in-entry", "replace", "get-absent", "get-below-null", "get-below-list", "dump"};
struct GOp { int op; std::string path, s, s2; int i = 0, ty = 0; double d = 0; std::vector<double> v; std::vector<std::string> vs; std::string yaml; bool req = false; };

static std::string dtext(double v) { return fmt("%.17g", v); }
static Tree *walk(Tree &root, const std::vector<std::string> &p)
{
   Tree *t = &root;
   for (auto &s : p) { if (t->k != Tree::MAP) return nullptr; t = t->find(s); if (!t) return nullptr; }
   return t;
}
static int type_of(const Tree &t)   // 0 int 1 double 2 bool 3 string 4 int array 5 vector 6 strings, -1 none
{
   if (t.k == Tree::SCALAR)
   {
      if (t.s == "true" || t.s == "false") return 2;
      if (t.s.empty() || t.quote) return 3;
      char *e; strtol(t.s.c_str(), &e, 10); if (!*e && t.s.size() < 10) return 0;
      strtod(t.s.c_str(), &e); if (!*e) return 1;
      return 3;
   }
   if (t.k == Tree::SEQ && !t.seq.empty())
   {
      int k = -1;
      for (auto &e : t.seq) { if (e.k != Tree::SCALAR || e.quote) return -1; int y = type_of(e); if (k < 0) k = y; else if (k != y) { if (k <= 1 && y <= 1) k = 1; else k = 3; } }
      return k == 0 ? 4 : k == 1 ? 5 : 6;
   }
   return -1;
}
static void same_double(Out &o, double v) { o.d(v); }

static void exec_op(const GOp &q, Out &o)
{
   switch (q.op)
   {
      case G_SETI: config.SetOption<int>(q.path, q.i); break;
      case G_SETD: config.SetOption<double>(q.path, q.d); break;
      case G_SETB: config.SetOption<bool>(q.path, q.i != 0); break;
      case G_SETS: config.SetOption<std::string>(q.path, q.s); break;
      case G_SETA: { Array<int> a(q.v.size()); for (size_t k = 0; k < q.v.size(); k++) a[k] = (int)q.v[k]; config.SetOption<Array<int> >(q.path, a); break; }
      case G_SETV: { Vector a(q.v.size()); for (size_t k = 0; k < q.v.size(); k++) a[k] = q.v[k]; config.SetOption<Vector>(q.path, a); break; }
      case G_SETVS: config.SetOption<std::vector<std::string> >(q.path, q.vs); break;
      case G_GET: case G_REQ: case G_ABSENT: case G_NULLGET: case G_SEQGET:
         switch (q.ty)
         {
            case 0: { int v = q.req ? config.GetRequiredOption<int>(q.path) : config.GetOption<int>(q.path, -12345); o.i(v); break; }
            case 1: { double v = q.req ? config.GetRequiredOption<double>(q.path) : config.GetOption<double>(q.path, -0.375); same_double(o, v); break; }
            case 2: { bool v = q.req ? config.GetRequiredOption<bool>(q.path) : config.GetOption<bool>(q.path, q.i != 0); o.i(v); break; }
            case 3: { std::string v = q.req ? config.GetRequiredOption<std::string>(q.path) : config.GetOption<std::string>(q.path, "fallback"); o.s(v); break; }
            case 4: { Array<int> f(1); f[0] = 77; Array<int> v(q.req ? config.GetRequiredOption<Array<int> >(q.path) : config.GetOption<Array<int> >(q.path, f)); o.i(v.Size()); for (int k = 0; k < v.Size(); k++) o.i(v[k]); break; }
            case 5: { Vector f(1); f[0] = 77; Vector v(q.req ? config.GetRequiredOption<Vector>(q.path) : config.GetOption<Vector>(q.path, f)); o.i(v.Size()); for (int k = 0; k < v.Size(); k++) o.d(v[k]); break; }
            case 6: { std::vector<std::string> f(1, "fallback"); std::vector<std::string> v = q.req ? config.GetRequiredOption<std::vector<std::string> >(q.path) : config.GetOption<std::vector<std::string> >(q.path, f); o.i(v.size()); for (auto &s : v) o.s(s); break; }
         }
         break;
      case G_FIND: { YAML::Node n = config.FindNode(q.path); o.i(n ? 1 : 0); if (n) o.s(canon(n)); break; }
      case G_CREATE: config.FindNode(q.path, true); break;
      case G_LOOK:
      {
         YAML::Node n = q.ty == 0 ? config.LookUpFromDict(q.s, q.i, config.FindNode(q.path)) : config.LookUpFromDict(q.s, q.s2, config.FindNode(q.path));
         o.i(n ? 1 : 0); if (n) o.s(canon(n));
         break;
      }
      case G_LOOKR:
      {
         double r = q.ty == 0 ? config.LookUpFromDict(q.s, q.i, std::string("weight"), q.d, config.FindNode(q.path)) : config.LookUpFromDict(q.s, q.s2, std::string("weight"), q.d, config.FindNode(q.path));
         same_double(o, r);
         break;
      }
      case G_SETENTRY:
      {
         YAML::Node n = config.LookUpFromDict(q.s, q.i, config.FindNode(q.path));
         o.i(n ? 1 : 0);
         if (n) { config.SetOptionInDict<double>("weight", q.d, n); same_double(o, config.GetOptionFromDict<double>("weight", -1.0, n)); same_double(o, config.GetRequiredOptionFromDict<double>("weight", n)); }
         break;
      }
      case G_REPLACE: config.dict_ = YAML::Load(q.yaml); break;
      case G_DUMP: o.s(canon(config.dict_)); break;
   }
}
static void expect_value(const Tree &t, int ty, Out &o)
{
   switch (ty)
   {
      case 0: o.i(strtol(t.s.c_str(), 0, 10)); break;
      case 1: o.d(strtod(t.s.c_str(), 0)); break;
      case 2: o.i(t.s == "true"); break;
      case 3: o.s(t.s); break;
      case 4: o.i(t.seq.size()); for (auto &e : t.seq) o.i(strtol(e.s.c_str(), 0, 10)); break;
      case 5: o.i(t.seq.size()); for (auto &e : t.seq) o.d(strtod(e.s.c_str(), 0)); break;
      case 6: o.i(t.seq.size()); for (auto &e : t.seq) o.s(e.s); break;
   }
}
static void expect_fallback(const GOp &q, Out &o)
{
   switch (q.ty)
   {
      case 0: o.i(-12345); break;
      case 1: o.d(-0.375); break;
      case 2: o.i(q.i != 0); break;
      case 3: o.s("fallback"); break;
      case 4: o.i(1); o.i(77); break;
      case 5: o.i(1); o.d(77); break;
      case 6: o.i(1); o.s("fallback"); break;
   }
}
static Tree rlist(Rng &g)
{
   Tree t; t.k = Tree::SEQ;
   int n = g.below(5);
   for (int k = 0; k < n; k++)
   {
      Tree e; e.k = Tree::MAP;
      if (!g.chance(1, 5)) e.map.push_back({"id", sc(fmt("%d", (int)g.below(4)))});
      if (!g.chance(1, 5)) { static const char *nm[] = {"a", "b", "empty", "square_circle"}; e.map.push_back({"name", sc(nm[g.below(4)])}); }
      if (g.chance(1, 2)) e.map.push_back({"weight", sc(dtext(g.unit()))});
      if (g.chance(1, 3)) { Tree s; s.k = Tree::MAP; s.map.push_back({"id", sc(fmt("%d", (int)g.below(4)))}); e.map.push_back({"sub", s}); }
      t.seq.push_back(e);
   }
   return t;
}
static void c09(Ctx &c)
{
   Rng g = c.stream();
   auto fresh = [&](Tree &root, std::string &text)
   {
      root = Tree(); root.k = Tree::MAP;
      int nk = 1 + g.below(6);
      for (int k = 0; k < nk; k++) { std::string key = rkey(g); if (!root.find(key)) root.map.push_back({key, rtree(g, 3)}); }
      root.map.push_back({"list", rlist(g)});
      Tree sub; sub.k = Tree::MAP; sub.map.push_back({"list", rlist(g)}); root.map.push_back({"deep", sub});
      text.clear(); emit_block(root, 0, text, g);
   };
   Tree M; std::string text0; fresh(M, text0);
   std::vector<GOp> ops; std::vector<std::string> expect;
   int n = 1 + c.choose(c.thorough ? 60 : 25);
   for (int k = 0; k < n; k++)
   {
      GOp q; q.op = c.choose(G_NOPS);
      Out e;
      std::vector<std::string> p;
      switch (q.op)
      {
         case G_SETI: case G_SETD: case G_SETB: case G_SETS: case G_SETA: case G_SETV: case G_SETVS:
         {
            p = rpath(M, g, g.chance(1, 2));
            if (p.size() == 1 && (p[0] == "list" || p[0] == "deep")) p[0] = "other";
            if (p.size() > 1 && p[0] == "deep" && p[1] == "list") p = {"deep", "value"};
            Tree v;
            if (q.op == G_SETI) { q.i = (int)(g.next() >> (g.chance(1, 2) ? 40 : 32)) * (g.chance(1, 2) ? -1 : 1); v = sc(fmt("%d", q.i)); }
            else if (q.op == G_SETD) { q.d = (g.unit() - 0.5) * std::pow(10.0, (int)g.below(40) - 20); v = sc(dtext(q.d)); }
            else if (q.op == G_SETB) { q.i = g.below(2); v = sc(q.i ? "true" : "false"); }
            else if (q.op == G_SETS) { static const char *ws[] = {"plain", "with space", "a/b", "x: y", "123abc", "# hash", "a=b"}; q.s = ws[g.below(7)]; v = sc(q.s); v.quote = true; }
            else { v.k = Tree::SEQ; int m = 1 + g.below(4);
               for (int a = 0; a < m; a++)
               {
                  if (q.op == G_SETA) { q.v.push_back((int)g.below(100) - 50); v.seq.push_back(sc(fmt("%d", (int)q.v[a]))); }
                  else if (q.op == G_SETV) { q.v.push_back(g.unit() * 10); v.seq.push_back(sc(dtext(q.v[a]))); }
                  else { q.vs.push_back(fmt("s%d", (int)g.below(9))); v.seq.push_back(sc(q.vs[a])); }
               } }
            q.path = join(p);
            if (!tree_set(M, p, v)) continue;
            break;
         }
         case G_GET: case G_REQ:
         {
            bool found = false;
            for (int t = 0; t < 8 && !found; t++)
            {
               p = rpath(M, g, true);
               Tree *x = walk(M, p);
               if (x && type_of(*x) >= 0) { q.ty = type_of(*x); if (q.ty == 0 && g.chance(1, 3)) q.ty = 1; if (q.ty == 4 && g.chance(1, 3)) q.ty = 5; expect_value(*x, q.ty, e); found = true; }
            }
            if (!found) continue;
            q.req = q.op == G_REQ; q.path = join(p);
            break;
         }
         case G_ABSENT:
            p = rpath(M, g, false);
            while (walk(M, p)) p.back() += "_absent";
            if (p.size() > 1 && g.chance(1, 2)) p.push_back("deeper");
            { std::vector<std::string> pp; bool bad = false; for (size_t a = 0; a + 1 < p.size(); a++) { pp.push_back(p[a]); Tree *x = walk(M, pp); if (x && x->k != Tree::MAP) bad = true; } if (bad) continue; }
            q.ty = g.below(7); q.i = g.below(2); q.path = join(p); expect_fallback(q, e);
            break;
         case G_NULLGET: case G_SEQGET:
         {
            bool found = false;
            for (int t = 0; t < 12 && !found; t++) { p = rpath(M, g, true); Tree *x = walk(M, p); found = x && x->k == (q.op == G_NULLGET ? Tree::NUL : Tree::SEQ); }
            if (!found && q.op == G_SEQGET) { p = {"list"}; found = walk(M, p) != nullptr; }
            if (!found) continue;
            p.push_back("below"); q.ty = g.below(4); q.path = join(p); expect_fallback(q, e);
            break;
         }
         case G_FIND:
         {
            p = rpath(M, g, g.chance(1, 2));
            std::vector<std::string> pp; bool bad = false; for (size_t a = 0; a + 1 < p.size(); a++) { pp.push_back(p[a]); Tree *x = walk(M, pp); if (x && x->k == Tree::SCALAR) bad = true; }
            if (bad) continue;
            Tree *x = walk(M, p); q.path = join(p);
            e.i(x ? 1 : 0); if (x) e.s(canon(*x));
            break;
         }
         case G_CREATE:
            p = rpath(M, g, false);
            if (walk(M, p)) p.back() += "_new";
            if (walk(M, p)) continue;
            if (!tree_set(M, p, Tree())) continue;
            q.path = join(p);
            break;
         case G_LOOK: case G_LOOKR: case G_SETENTRY:
         {
            p = g.chance(1, 2) ? std::vector<std::string>{"list"} : std::vector<std::string>{"deep", "list"};
            if (q.op != G_SETENTRY && g.chance(1, 10)) p.back() = "nolist";
            q.path = join(p);
            Tree *L = walk(M, p);
            q.ty = q.op == G_SETENTRY ? 0 : (int)g.below(2);
            q.d = g.unit();
            bool sub = q.ty == 0 && g.chance(1, 4);
            q.s = q.ty ? "name" : sub ? "sub/id" : "id";
            q.i = g.below(5); static const char *nm[] = {"a", "b", "empty", "square_circle", "nobody"}; q.s2 = nm[g.below(5)];
            Tree *hit = nullptr;
            if (L && L->k == Tree::SEQ) for (auto &x : L->seq)
            {
               Tree *v = q.ty ? x.find("name") : sub ? (x.find("sub") ? x.find("sub")->find("id") : nullptr) : x.find("id");
               if (v && (q.ty ? v->s == q.s2 : atoi(v->s.c_str()) == q.i)) { hit = &x; break; }
            }
            if (q.op == G_LOOK) { e.i(hit ? 1 : 0); if (hit) e.s(canon(*hit)); }
            else if (q.op == G_LOOKR) { Tree *w = hit ? hit->find("weight") : nullptr; e.d(w ? strtod(w->s.c_str(), 0) : q.d); }
            else { e.i(hit ? 1 : 0); if (hit) { tree_set(*hit, {"weight"}, sc(dtext(q.d))); e.d(q.d); e.d(q.d); } }
            break;
         }
         case G_REPLACE: fresh(M, q.yaml); break;
         case G_DUMP: e.s(canon(M)); break;
      }
      ops.push_back(q); expect.push_back(e.b);
      if (g.chance(1, 3) && q.op != G_DUMP) { GOp z; z.op = G_DUMP; Out ze; ze.s(canon(M)); ops.push_back(z); expect.push_back(ze.b); }
   }
   { GOp z; z.op = G_DUMP; Out ze; ze.s(canon(M)); ops.push_back(z); expect.push_back(ze.b); }
   bool req_absent = c.flip(1, 3);
   std::string d = c.disk("d");
   NodeOut r = run_node(c, "history", d, NodeOpt(), [&](Out &o)
   {
      config.dict_ = YAML::Load(text0);
      for (auto &q : ops) { Out x; exec_op(q, x); o.s(x.b); }
   });
   for (auto &q : ops) c.note("%s %s", gname[q.op], q.path.c_str());
   In in(r.out);
   if (!r.ok()) c.violation("lookup-fails", "a legal option history ended with %s (%s): %s", r.name(), r.how.c_str(), r.console.substr(0, 200).c_str());
   std::string before;
   for (size_t k = 0; k < ops.size(); k++)
   {
      std::string got = in.s();
      if (ops[k].op == G_DUMP)
      {
         In a(got), b(expect[k]); std::string ga = a.s(), gb = b.s();
         // numbers are compared as numbers, text as text
         if (ga != gb)
         {
            auto lines = [](const std::string &s) { std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; };
            std::vector<std::string> la = lines(ga), lb = lines(gb);
            bool same = la.size() == lb.size(); std::string where;
            for (size_t q = 0; q < std::min(la.size(), lb.size()); q++) if (la[q] != lb[q])
            {
               size_t ea = la[q].find(" ="), eb = lb[q].find(" =");
               char *x, *y;
               bool num = ea != std::string::npos && ea == eb && la[q].substr(0, ea) == lb[q].substr(0, eb);
               if (num) { double da = strtod(la[q].c_str() + ea + 2, &x), db = strtod(lb[q].c_str() + eb + 2, &y); num = !*x && !*y && *(la[q].c_str() + ea + 2) && da == db; }
               if (!num) { same = false; where = "expected '" + lb[q] + "' got '" + la[q] + "'"; break; }
            }
            if (!same)
            {
               size_t l = k; while (l > 0 && ops[l - 1].op == G_DUMP) l--;
               c.violation(std::string("configuration-after-") + (l ? gname[ops[l - 1].op] : "start"), "after step %zu (%s %s) the configuration is not what the history says: %s", k, l ? gname[ops[l - 1].op] : "", l ? ops[l - 1].path.c_str() : "", where.c_str());
            }
         }
      }
      else if (got != expect[k]) c.violation(std::string("wrong-value-") + gname[ops[k].op], "step %zu: %s of '%s' (type %d) returns another value: expected %s got %s", k, gname[ops[k].op], ops[k].path.c_str(), ops[k].ty, hex(expect[k], 40).c_str(), hex(got, 40).c_str());
      c.counters[std::string("op:") + gname[ops[k].op]]++;
   }
   if (req_absent)
   {
      std::vector<std::string> p = rpath(M, g, false);
      while (walk(M, p)) p.back() += "_absent";
      std::vector<std::string> pp; bool bad = false; for (size_t a = 0; a + 1 < p.size(); a++) { pp.push_back(p[a]); Tree *x = walk(M, pp); if (x && x->k != Tree::MAP) bad = true; }
      if (!bad)
      {
         GOp q; q.op = G_REQ; q.req = true; q.ty = g.below(7); q.path = join(p);
         NodeOut s = run_node(c, "required", d, NodeOpt(), [&](Out &o) { config.dict_ = YAML::Load(text0); for (auto &z : ops) { Out x; exec_op(z, x); } exec_op(q, o); });
         if (s.ok()) c.violation("required-absent", "a required option '%s' that is absent does not stop the program", q.path.c_str());
         c.counters["op:required-absent"]++;
      }
   }
   c.cov(hbytes(0, text0.data(), text0.size())); for (auto &q : ops) { c.cov(q.op); c.cov(q.path); }
   c.nontrivial = ops.size() > 2;
}
static Reg r09("C09", c09, "one run = a random history of 1..60 option operations (set of seven types, get, required get, find, create, list lookup, entry update, replacement of the configuration, lookups of absent paths, dumps) on a random nested configuration, compared step by step with a plain dictionary model; distinct = different start configuration and operation sequence");

} // namespace sim
