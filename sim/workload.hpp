// Something that saves data to one file and loads it back, with the bytes a correct load yields.
#pragma once
#include "simrt.hpp"
namespace sim {

struct Workload
{
   std::string name;                         // kind, for coverage and messages
   std::string file;                         // the file that is written
   std::string what;                         // short description
   std::function<void(const std::string &)> setup; // host side: input files needed on a disk
   std::function<void(Out &)> save;          // in a node
   std::function<void(Out &)> load;          // in a node: canonical bytes of what was loaded
   std::string expected;                     // what load must yield after save
   std::function<void(Out &)> older;         // in a node: an earlier, different save to the same file
   std::string old_expected;                 // what load yields when only `older` ran ("" = it may only fail)
   std::string filter;                       // faults only on paths that contain this
   std::vector<std::string> dset_optional;   // items whose absence is legitimate
};

Workload h5_workload(Ctx &c, int flavour); // flavour 0 any history, 1 one session that creates the file
Workload romlib_workload(Ctx &c);
Workload any_workload(Ctx &c, bool load_only);
Workload port_workload(Ctx &c);
Workload global_workload(Ctx &c);            // global configuration file: load only

#define NODE_REQUIRE(x) do { if (!(x)) { fprintf(stderr, "harness: %s failed\n", #x); fflush(stderr); _exit(97); } } while (0)
} // namespace sim
