// Failing, damaged and interrupted saves and loads: C02, C03, C05, C12.
#include "asm.hpp"
#include "romlib.hpp"
#include "workload.hpp"
#include <memory>
#include <unistd.h>
#include "hdf5.h"
using namespace mfem;
namespace sim {

Workload port_workload(Ctx &c)
{
   Workload w; w.name = "port-files"; w.file = ""; w.filter = ".port.h5";
   Lib l = make_lib(c, 2);
   std::vector<int> sub; for (size_t k = 0; k < l.comps.size(); k++) sub.push_back(k);
   Assembly a = make_assembly(c, l, sub, 3);
   AsmOpt o = plain_opt(a), ow = o, or_ = o;
   ow.write_ports = true;
   for (auto &s : or_.src) s = PS_FILE_ONLY;
   std::string y = asm_yaml(a, o), yw = asm_yaml(a, ow), yr = asm_yaml(a, or_);
   Ctx *cp = &c;
   w.what = a.str();
   w.file = a.refs.size() ? o.pfile[0] : "none.port.h5";
   w.setup = [=](const std::string &d) { put_meshes(l, d); put_global(*cp, a, o, d); };
   w.save = [=](Out &) { build_topology(yw); };
   w.load = [=](Out &ob) { canon_topology(build_topology(yr), ob); };
   // reference: computed from the descriptions on a healthy disk
   std::string d = c.disk("ref");
   w.setup(d);
   NodeOut r = run_node(c, "reference", d, NodeOpt(), [&](Out &ob) { canon_topology(build_topology(y), ob); });
   if (!r.ok()) c.violation("reference-failed", "building the topology failed without any fault: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
   w.expected = r.out;
   return w;
}

Workload global_workload(Ctx &c)
{
   Workload w; w.name = "global-config"; w.file = "global.h5"; w.filter = ".h5";
   Lib l = make_lib(c, 2);
   std::vector<int> sub; for (size_t k = 0; k < l.comps.size(); k++) sub.push_back(k);
   Assembly a = make_assembly(c, l, sub, 3);
   AsmOpt o = plain_opt(a);
   for (auto &s : o.src) s = c.choose(2) ? PS_H5 : PS_YAML;
   int b = c.choose(3);
   if (b == 1) o.bdrfile = "bdr.h5"; else if (b == 2) o.decoy_bdr = "other.h5";
   std::string y = asm_yaml(a, o);
   Ctx *cp = &c;
   w.what = a.str() + fmt(" boundary-source=%d", b);
   w.setup = [=](const std::string &d) { put_meshes(l, d); put_global(*cp, a, o, d); };
   w.load = [=](Out &ob) { canon_topology(build_topology(y), ob); };
   std::string d = c.disk("ref");
   w.setup(d);
   NodeOut r = run_node(c, "reference", d, NodeOpt(), [&](Out &ob) { w.load(ob); });
   if (!r.ok()) c.violation("reference-failed", "building the topology failed without any fault: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
   w.expected = r.out;
   if (b == 2) w.dset_optional.push_back("/boundary");
   return w;
}

static Workload pick_workload(Ctx &c, bool load_only, int h5flavour)
{
   switch (c.choose(load_only ? 5 : 4))
   {
      case 0: case 1: return h5_workload(c, h5flavour);
      case 2: return romlib_workload(c);
      case 3: return port_workload(c);
      default: return global_workload(c);
   }
}

// ---- C02 ------------------------------------------------------------------------
static void c02(Ctx &c)
{
   Workload w = pick_workload(c, false, 0);
   c.note("workload %s: %s", w.name.c_str(), w.what.c_str());
   std::string d0 = c.disk("base");
   if (w.setup) w.setup(d0);
   if (w.older && c.flip(1, 3)) run_node(c, "earlier save", d0, NodeOpt(), [&](Out &o) { w.older(o); });
   std::string dr = c.clone(d0, "rehearsal");
   NodeOut reh = run_node(c, "save (rehearsal)", dr, NodeOpt(), [&](Out &o) { w.save(o); });
   if (!reh.ok()) c.violation("save-failed", "save without any fault failed: %s (%s) %s", reh.name(), reh.how.c_str(), reh.console.substr(0, 300).c_str());
   int nf = 1 + c.choose(c.thorough ? 6 : 4);
   for (int t = 0; t < nf; t++)
   {
      FaultPlan p = draw_fault(c, FC_WRITE | FC_OPEN | FC_LOCK, reh, w.filter.empty() ? nullptr : w.filter.c_str());
      if (p.kind == F_NONE) break;
      std::string d = c.clone(d0, fmt("d%d", t));
      NodeOpt o; o.plan = p; o.fastexit = !c.flip(1, 2);
      NodeOut r = run_node(c, "save", d, o, [&](Out &ob) { w.save(ob); });
      if (r.st == NodeOut::HANG) c.violation("save-hangs", "%s: the save neither returns nor fails under %s", w.name.c_str(), fault_name[p.kind]);
      c.cov(p.kind); c.cov(p.at); c.counters["save:" + std::string(r.name())]++;
      if (r.fired) c.nontrivial = true;
      if (!r.ok()) continue;
      NodeOut q = run_node(c, "load", d, NodeOpt(), [&](Out &ob) { w.load(ob); });
      if (!q.ok()) c.violation(w.name + "-silent-failure", "the save returned normally under %s at operation %ld, but loading the file fails: %s (%s) %s", fault_name[p.kind], p.at, q.name(), q.how.c_str(), q.console.substr(0, 200).c_str());
      if (q.out != w.expected) c.violation(w.name + "-silent-loss", "the save returned normally under %s at operation %ld, but the file holds other data", fault_name[p.kind], p.at);
   }
   c.cov(w.what);
}
static Reg r02("C02", c02, "one run = one save workload (HDF5 items, ROM library, port files), rehearsed once to list its I/O operations, then repeated with one injected fault at a random operation of it, followed by a fault-free load in a new process; non-trivial = the fault fired; distinct = workload content, fault kind and position");

// ---- C03 ------------------------------------------------------------------------
struct H5Names { std::vector<std::string> links, attrs; };
static herr_t visit_attr(hid_t, const char *name, const H5A_info_t *, void *p)
{ auto *x = (std::pair<std::string, H5Names *> *)p; x->second->attrs.push_back(x->first + "\n" + name); return 0; }
static herr_t visit_obj(hid_t root, const char *name, const H5O_info_t *, void *p)
{
   H5Names *n = (H5Names *)p;
   if (strcmp(name, ".")) n->links.push_back(name);
   hid_t o = H5Oopen(root, name, H5P_DEFAULT);
   std::pair<std::string, H5Names *> x(name, n);
   H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, NULL, visit_attr, &x);
   H5Oclose(o);
   return 0;
}
// remove one link or attribute, chosen by the tape
static std::string remove_item(Ctx &c, const std::string &disk, const std::string &file, const std::vector<std::string> &optional)
{
   NodeOut l = run_node(c, "list", disk, NodeOpt(), [&](Out &o)
   {
      pause_faults(true);
      hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); NODE_REQUIRE(f >= 0);
      H5Names n; H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, visit_obj, &n);
      H5Fclose(f);
      o.i(n.links.size()); for (auto &s : n.links) o.s(s);
      o.i(n.attrs.size()); for (auto &s : n.attrs) o.s(s);
   });
   In in(l.out);
   std::vector<std::string> all;
   int nl = in.i(); for (int k = 0; k < nl; k++) { std::string s = in.s(); bool opt = false; for (auto &x : optional) opt |= "/" + s == x; if (!opt) all.push_back("L" + s); }
   int na = in.i(); for (int k = 0; k < na; k++) all.push_back("A" + in.s());
   if (all.empty()) return "";
   std::string v = all[c.choose(all.size())];
   run_node(c, "remove", disk, NodeOpt(), [&](Out &)
   {
      pause_faults(true);
      hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); NODE_REQUIRE(f >= 0);
      if (v[0] == 'L') NODE_REQUIRE(H5Ldelete(f, v.c_str() + 1, H5P_DEFAULT) >= 0);
      else { size_t p = v.find('\n'); NODE_REQUIRE(H5Adelete_by_name(f, v.substr(1, p - 1).c_str(), v.substr(p + 1).c_str(), H5P_DEFAULT) >= 0); }
      NODE_REQUIRE(H5Fclose(f) >= 0);
   });
   for (auto &ch : v) if (ch == '\n') ch = '@';
   return v;
}

static void c03(Ctx &c)
{
   Workload w = pick_workload(c, true, 0);
   c.note("workload %s: %s", w.name.c_str(), w.what.c_str());
   std::string d0 = c.disk("base");
   if (w.setup) w.setup(d0);
   if (w.save)
   {
      NodeOut s = run_node(c, "save", d0, NodeOpt(), [&](Out &o) { w.save(o); });
      if (!s.ok()) c.violation("save-failed", "save without any fault failed: %s (%s) %s", s.name(), s.how.c_str(), s.console.substr(0, 300).c_str());
   }
   std::string dr = c.clone(d0, "rehearsal");
   NodeOut reh = run_node(c, "load (rehearsal)", dr, NodeOpt(), [&](Out &o) { w.load(o); });
   if (!reh.ok()) c.violation("load-failed", "load without any fault failed: %s (%s) %s", reh.name(), reh.how.c_str(), reh.console.substr(0, 300).c_str());
   if (reh.out != w.expected) c.violation("load-differs", "load without any fault differs from what was saved");
   int nf = 1 + c.choose(c.thorough ? 8 : 5);
   for (int t = 0; t < nf; t++)
   {
      std::string d = c.clone(d0, fmt("d%d", t));
      int mode = c.choose(6);
      NodeOpt o;
      std::string what;
      bool must_fail = false;
      if (mode <= 2 || !file_exists(d + "/" + w.file))
      {
         o.plan = draw_fault(c, FC_READ | FC_OPEN | FC_LOCK, reh, w.filter.empty() ? nullptr : w.filter.c_str());
         if (o.plan.kind == F_NONE) break;
         what = fault_name[o.plan.kind];
      }
      else if (mode == 3)
      {
         std::string data; read_file(d + "/" + w.file, data);
         size_t cut = data.empty() ? 0 : c.choose(data.size());
         write_file(d + "/" + w.file, data.substr(0, cut));
         what = fmt("file truncated from %zu to %zu bytes", data.size(), cut); c.fault(F_DAMAGE);
         must_fail = true;
      }
      else if (mode == 4)
      {
         std::string x = remove_item(c, d, w.file, w.dset_optional);
         what = "removed " + x; c.fault(F_DAMAGE);
      }
      else { unlink((d + "/" + w.file).c_str()); what = "file removed"; c.fault(F_DAMAGE); must_fail = true; }
      NodeOut r = run_node(c, "load", d, o, [&](Out &ob) { w.load(ob); });
      c.note("   %s", what.c_str());
      c.cov(mode); c.cov(what); c.cov(o.plan.at); c.counters["load:" + std::string(r.name())]++;
      c.nontrivial = true;
      if (r.st == NodeOut::HANG) c.violation("load-hangs", "%s: the load neither returns nor fails: %s", w.name.c_str(), what.c_str());
      if (r.ok() && r.out != w.expected) c.violation(w.name + "-made-up", "the load returned normally with other data than was stored (%s)", what.c_str());
      (void)must_fail;
   }
   c.cov(w.what);
}
static Reg r03("C03", c03, "one run = one stored data set (HDF5 items, ROM library, port files, global configuration) loaded 1..8 times, each time with one fault: failing read/open/stat/lock at a random operation of the load, file cut at a random length, one random dataset/group/attribute missing, or no file; every normal return is compared with what was stored; distinct = data set, fault and position");

// ---- C05 ------------------------------------------------------------------------
static void c05(Ctx &c)
{
   Workload w = c.choose(2) ? port_workload(c) : romlib_workload(c);
   c.note("workload %s: %s", w.name.c_str(), w.what.c_str());
   std::string d0 = c.disk("base");
   if (w.setup) w.setup(d0);
   bool old = false;
   if (w.older && c.flip(1, 2)) { old = true; run_node(c, "earlier save", d0, NodeOpt(), [&](Out &o) { w.older(o); }); }
   std::string dr = c.clone(d0, "rehearsal");
   NodeOut reh = run_node(c, "save (rehearsal)", dr, NodeOpt(), [&](Out &o) { w.save(o); });
   if (!reh.ok()) c.violation("save-failed", "save without any fault failed: %s (%s) %s", reh.name(), reh.how.c_str(), reh.console.substr(0, 300).c_str());
   int nf = 1 + c.choose(c.thorough ? 8 : 5);
   for (int t = 0; t < nf; t++)
   {
      FaultPlan p = draw_fault(c, FC_CRASH, reh, w.filter.empty() ? nullptr : w.filter.c_str());
      if (p.kind == F_NONE) break;
      std::string d = c.clone(d0, fmt("d%d", t));
      NodeOpt o; o.plan = p;
      NodeOut r = run_node(c, "save", d, o, [&](Out &ob) { w.save(ob); });
      c.cov(p.kind); c.cov(p.at);
      if (r.st == NodeOut::CRASH) c.nontrivial = true;
      NodeOut q = run_node(c, "load after restart", d, NodeOpt(), [&](Out &ob) { w.load(ob); });
      c.counters["after-crash:" + std::string(q.name())]++;
      if (q.st == NodeOut::HANG) c.violation("load-hangs", "the load after the crash hangs");
      if (q.ok() && q.out != w.expected && !(old && q.out == w.old_expected))
         c.violation(w.name + "-partial", "after %s at operation %ld the file loads without error, but holds neither the new nor the earlier data: got %s, saved %s", fault_name[p.kind], p.at, hex(q.out, 160).c_str(), hex(w.expected, 160).c_str());
      // repeat the save over what the crash left, as a restarted run would
      if (c.flip(1, 3))
      {
         NodeOut r2 = run_node(c, "repeated save", d, NodeOpt(), [&](Out &ob) { w.save(ob); });
         if (r2.ok())
         {
            NodeOut q2 = run_node(c, "load", d, NodeOpt(), [&](Out &ob) { w.load(ob); });
            if (!q2.ok()) c.violation(w.name + "-resave-unreadable", "the save repeated after a crash returned normally, but loading fails: %s %s", q2.how.c_str(), q2.console.substr(0, 200).c_str());
            if (q2.out != w.expected) c.violation(w.name + "-resave-differs", "the save repeated after a crash returned normally, but the file holds other data");
         }
      }
   }
   c.cov(w.what); c.cov(old);
}
static Reg r05("C05", c05, "one run = one save workload over an absent or earlier file, crashed at 1..8 random I/O operations (before, torn, after), each followed by restart, load and possibly a repeated save; non-trivial = the crash happened inside the save; distinct = workload, crash kind and position");

// ---- C12 ------------------------------------------------------------------------
static std::string leaks()
{
   pause_faults(true);
   ssize_t n = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL);
   ssize_t f = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE);
   // library-wide ids that belong to no file (types) are not file handles
   ssize_t tt = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR);
   (void)n;
   std::string s;
   if (f || tt) s += fmt("%d open HDF5 files, %d open HDF5 objects in files; ", (int)f, (int)tt);
   int d = open_fds();
   if (d) s += fmt("%d open descriptors: %s; ", d, list_fds().c_str());
   if (fd_flocked()) s += "a file lock is held; ";
   pause_faults(false);
   return s;
}

static void c12(Ctx &c)
{
   Lib l = make_lib(c, 3);
   std::vector<int> sub; for (size_t k = 0; k < l.comps.size(); k++) sub.push_back(k);
   Assembly a = make_assembly(c, l, sub, 4);
   std::string d = c.disk("d");
   put_meshes(l, d);
   // variants of where the data are
   int nv = 1 + c.choose(3);
   std::vector<AsmOpt> opt; std::vector<std::string> ys;
   bool have_files = c.flip(1, 2);
   if (have_files)
   {
      AsmOpt o = plain_opt(a); o.global = "w.h5"; o.write_ports = true;
      put_global(c, a, o, d);
      std::string y = asm_yaml(a, o);
      NodeOut r = run_node(c, "write ports", d, NodeOpt(), [&](Out &) { build_topology(y); });
      if (!r.ok()) c.violation("setup-failed", "writing port files failed: %s %s", r.how.c_str(), r.console.substr(0, 300).c_str());
      // one file with all ports, so that a file holds ports that are already set up or not needed
      if (a.refs.size())
      {
         std::vector<std::string> f = o.pfile;
         for (int x = c.choose(3); x > 0; x--) f.insert(f.begin() + c.choose(f.size() + 1), "!" + o.pfile[0]);
         merge_ports(c, d, f, "all.port.h5");
      }
   }
   for (int v = 0; v < nv; v++)
   {
      AsmOpt o = plain_opt(a);
      o.global = fmt("g%d.h5", v);
      for (size_t k = 0; k < o.src.size(); k++)
      {
         o.src[k] = c.choose(have_files ? 4 : 2);
         if (have_files && o.src[k] >= PS_FILE && c.flip(1, 2)) o.pfile[k] = "all.port.h5";
      }
      int b = c.choose(3);
      if (b == 1) o.bdrfile = fmt("b%d.h5", v); else if (b == 2) o.decoy_bdr = "other.h5";
      o.yorder = shuffled(c, a.refs.size());
      put_global(c, a, o, d);
      opt.push_back(o); ys.push_back(asm_yaml(a, o));
   }
   RomSpec s; s.nvar = 1 + c.choose(2); s.separate = c.flip(1, 2); s.seed = c.choose(1 << 20);
   int nops = 2 + c.choose(c.thorough ? 12 : 7);
   std::vector<int> ops, arg;
   for (int k = 0; k < nops; k++) { ops.push_back(c.choose(5)); arg.push_back(c.choose(nv)); }
   Workload h = h5_workload(c, 0);
   bool writep = c.flip(1, 3);
   AsmOpt owp = plain_opt(a); owp.global = "gw.h5"; owp.write_ports = true; owp.bdrfile = opt[0].bdrfile; owp.decoy_bdr = opt[0].decoy_bdr; owp.src = opt[0].src;
   for (auto &x : owp.src) x = PS_YAML;
   for (auto &x : owp.pfile) x = "new_" + x;
   put_global(c, a, owp, d);
   std::string ywp = asm_yaml(a, owp);
   std::string opstr; for (int k = 0; k < nops; k++) opstr += fmt("%d/%d ", ops[k], arg[k]);
   c.note("%s; variants=%d files=%d ops=%s", a.str().c_str(), nv, (int)have_files, opstr.c_str());
   NodeOut r = run_node(c, "history", d, NodeOpt(), [&](Out &o)
   {
      RomNode *rn = nullptr;
      std::string lk;
      bool saved = false;
      for (int k = 0; k < nops; k++)
      {
         const char *what = "";
         switch (ops[k])
         {
            case 0: { what = "building a topology"; ComponentTopologyHandler *t = build_topology(ys[arg[k]]); if (k % 2) delete t; break; }
            case 1: { what = "HDF5 write/read"; Out x; h.save(x); Out z; h.load(z); break; }
            case 2: { what = "saving a ROM library"; if (!rn) rn = new RomNode(rom_node(ys[arg[k]], s, false)); rom_fill(*rn, a, s); rn->el->Save("rom.h5"); saved = true; break; }
            case 3: { what = "loading a ROM library"; if (!rn) rn = new RomNode(rom_node(ys[arg[k]], s, false)); if (saved) rn->el->Load("rom.h5"); break; }
            case 4: { what = "building a topology with port files written"; if (writep) delete build_topology(ywp); break; }
         }
         lk = leaks();
         if (!lk.empty()) { o.s(fmt("step %d, %s: ", k, what) + lk); return; }
      }
      o.s("");
   });
   if (!r.ok()) c.violation("history-failed", "a history of valid operations failed: %s (%s) %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
   In in(r.out); std::string lk = in.s();
   if (!lk.empty()) c.violation("leak", "left open after %s", lk.c_str());
   c.cov(a.str()); c.cov(opstr); for (auto &o : opt) for (int x : o.src) c.cov(x);
   c.nontrivial = true;
}
static Reg r12("C12", c12, "one run = one process that performs 2..13 random operations (build topologies with every combination of data sources, write port files, save and load ROM libraries, HDF5 write/read), checked after every operation for open files, HDF5 handles and locks; distinct = assembly, data sources and operation sequence");

} // namespace sim
