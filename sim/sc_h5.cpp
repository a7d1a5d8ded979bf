// Generic HDF5 histories: C01, and the h5 workload of C02, C03, C05, C12.
#include "h5items.hpp"
#include "workload.hpp"
#include <memory>
#include <unistd.h>
using namespace mfem;
namespace sim {

struct Session { bool create; std::vector<int> items; bool reread; };
struct History { std::string file; std::vector<Item> items; std::vector<int> group; std::vector<std::string> groups; std::vector<Session> sess; std::vector<int> order; std::vector<char> dirty; bool rw; };

static hid_t open_group(hid_t f, const History &h, int g, bool make)
{
   const std::string &n = h.groups[g];
   if (n == "/") { hid_t x = H5Gopen2(f, "/", H5P_DEFAULT); NODE_REQUIRE(x >= 0); return x; }
   hid_t x;
   H5E_BEGIN_TRY { x = H5Gopen2(f, n.c_str(), H5P_DEFAULT); } H5E_END_TRY;
   if (x < 0 && make)
   {
      hid_t l = H5Pcreate(H5P_LINK_CREATE); H5Pset_create_intermediate_group(l, 1);
      x = H5Gcreate2(f, n.c_str(), l, H5P_DEFAULT, H5P_DEFAULT);
      H5Pclose(l);
   }
   NODE_REQUIRE(x >= 0);
   return x;
}

static void do_session(const History &h, const Session &s, Out &o)
{
   hid_t f = s.create ? H5Fcreate(h.file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT) : H5Fopen(h.file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
   NODE_REQUIRE(f >= 0);
   for (int k : s.items)
   {
      hid_t g = open_group(f, h, h.group[k], true);
      put_item(g, h.items[k]);
      if (s.reread) o.s(get_item(g, h.items[k], true));
      NODE_REQUIRE(H5Gclose(g) >= 0);
   }
   NODE_REQUIRE(H5Fclose(f) >= 0);
}

static std::string do_load(const History &h)
{
   hid_t f = H5Fopen(h.file.c_str(), h.rw ? H5F_ACC_RDWR : H5F_ACC_RDONLY, H5P_DEFAULT);
   NODE_REQUIRE(f >= 0);
   std::vector<std::string> got(h.items.size());
   for (size_t q = 0; q < h.order.size(); q++)
   {
      int k = h.order[q];
      hid_t g = open_group(f, h, h.group[k], false);
      got[k] = get_item(g, h.items[k], h.dirty[k]);
      NODE_REQUIRE(H5Gclose(g) >= 0);
   }
   NODE_REQUIRE(H5Fclose(f) >= 0);
   Out o; for (auto &s : got) o.s(s);
   return o.b;
}

static History make_history(Ctx &c, int flavour)
{
   History h;
   h.file = "data.h5";
   h.groups = {"/"};
   int ng = c.choose(3);
   static const char *gn[] = {"components", "ports/deep/er"};
   for (int k = 0; k < ng; k++) h.groups.push_back(gn[k]);
   int n = 1 + c.choose(c.thorough ? 10 : 6);
   bool big = c.flip(1, 4);
   static const char *names[] = {"size", "I", "block_0_0", "zero_blocks", "0", "a b", "quad-pt"};
   Rng g = c.stream();
   std::set<std::string> used;
   for (int k = 0; k < n; k++)
   {
      std::string nm = g.below(3) ? fmt("item%d", k) : names[g.below(7)];
      int grp = c.choose(h.groups.size());
      if (used.count(fmt("%d/", grp) + nm)) nm = fmt("item%d", k);
      used.insert(fmt("%d/", grp) + nm);
      h.items.push_back(make_item(c, g, nm, I_NKINDS, big && k == 0));
      h.group.push_back(grp);
   }
   int ns = flavour == 1 ? 1 : 1 + (int)c.choose(3);
   for (int s = 0; s < ns; s++) { Session S; S.create = s == 0; S.reread = flavour == 0 && c.flip(1, 4); h.sess.push_back(S); }
   for (int k = 0; k < n; k++) h.sess[k % ns].items.push_back(k);
   for (int k = 0; k < n; k++) { h.order.push_back(k); h.dirty.push_back(c.flip(1, 2)); }
   if (c.flip(1, 2)) for (int k = n; k > 1; k--) std::swap(h.order[k - 1], h.order[g.below(k)]);
   if (c.flip(1, 4)) h.order.push_back(h.order[0]);   // read one twice
   h.rw = c.flip(1, 4);
   return h;
}
static std::string kinds(const History &h)
{ std::string s; for (auto &i : h.items) s += std::string(s.empty() ? "" : ", ") + item_name[i.kind] + (i.n1 ? fmt("[%d]", i.n1) : ""); return s; }
static std::string all_canon(const History &h) { Out o; for (auto &i : h.items) o.s(i.canon()); return o.b; }

Workload h5_workload(Ctx &c, int flavour)
{
   Workload w; w.name = "hdf5-items"; w.file = "data.h5";
   auto h = std::make_shared<History>(make_history(c, flavour));
   // an earlier file with the same item names but other contents
   auto old = std::make_shared<History>(*h);
   Rng g = c.stream();
   for (auto &it : old->items)
   {
      for (auto &v : it.iv) v = (it.kind == I_ARR_BOOL || it.kind == I_ATTR_BOOL || it.kind == I_ARR2_BOOL) ? !v : (int)g.below(100);
      for (auto &v : it.dv) v = g.unit();
      for (auto &s : it.sv) s += "_old";
      for (auto &b : it.blocks) for (auto &v : b.V) v = g.unit();
   }
   w.what = kinds(*h);
   w.save = [h](Out &o) { for (auto &s : h->sess) { Out d; do_session(*h, s, d); o.raw(d.b.data(), d.b.size()); } };
   w.older = [old](Out &o) { for (auto &s : old->sess) { Out d; do_session(*old, s, d); } };
   w.load = [h](Out &o) { std::string s = do_load(*h); o.raw(s.data(), s.size()); };
   w.expected = all_canon(*h);
   w.old_expected = all_canon(*old);
   return w;
}

// ---- C01 ----------------------------------------------------------------------
static void c01(Ctx &c)
{
   History h = make_history(c, 0);
   std::string want = all_canon(h), d = c.disk("d");
   c.note("%zu items: %s; %zu sessions", h.items.size(), kinds(h).c_str(), h.sess.size());
   bool split = c.flip(1, 2);          // every session in its own process
   FaultPlan p; draw_benign(c, p);
   std::string rereads;
   Out wr;
   for (auto &s : h.sess) if (s.reread) for (int k : s.items) wr.s(h.items[k].canon());
   for (size_t s = 0; s < h.sess.size();)
   {
      size_t e = split ? s + 1 : h.sess.size();
      NodeOpt o; o.plan = p;
      NodeOut r = run_node(c, "writer", d, o, [&](Out &ob) { for (size_t q = s; q < e; q++) do_session(h, h.sess[q], ob); });
      if (!r.ok()) c.violation("write-failed", "writing valid data on a healthy disk ended with %s (%s): %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
      rereads += r.out;
      s = e;
   }
   if (rereads != wr.b) c.violation("reread-differs", "reading an item right after writing it through the same handle gives other data");
   int nr = 1 + c.choose(2);
   for (int q = 0; q < nr; q++)
   {
      NodeOpt o; draw_benign(c, o.plan);
      NodeOut r = run_node(c, "reader", d, o, [&](Out &ob) { std::string s = do_load(h); ob.raw(s.data(), s.size()); });
      if (!r.ok()) c.violation("read-failed", "reading back what was written ended with %s (%s): %s", r.name(), r.how.c_str(), r.console.substr(0, 300).c_str());
      if (r.out != want)
      {
         In a(r.out), b(want);
         for (auto &it : h.items)
         {
            std::string x = a.s(), y = b.s();
            if (x != y) c.violation(std::string("differs-") + item_name[it.kind], "item %s (%s, n1=%d n2=%d) reads back differently: wrote %s read %s", it.name.c_str(), item_name[it.kind], it.n1, it.n2, hex(y).c_str(), hex(x).c_str());
         }
         c.violation("differs", "data read back differ");
      }
   }
   for (auto &it : h.items) { c.cov(it.kind); c.cov(it.n1 * 100 + it.n2); c.cov(it.iv.size() + it.dv.size() * 1000); c.counters[std::string("items:") + item_name[it.kind]]++; }
   c.cov(h.sess.size() + 10 * split); c.cov(hbytes(0, want.data(), want.size()));
   c.nontrivial = true;
}
static Reg r01("C01", c01, "one run = a random write/reopen/append/read history of one file (1..10 typed items with random shapes and bit patterns, 1..3 write sessions, in one or several simulated processes, EINTR/short/slow I/O); distinct = different item kinds, shapes, contents and session split");

} // namespace sim
