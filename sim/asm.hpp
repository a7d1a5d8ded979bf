// Random assemblies of component meshes, as plain data (host side), and their use in nodes.
#pragma once
#include "simrt.hpp"
#include "component_topology_handler.hpp"

namespace sim {

struct AComp { std::string name, file, mesh; std::vector<int> attr; bool simplex; int nbdr; };
struct ACell { int pos[3]; int comp; int rot; };
struct ARef { std::string name; int c1, c2, a1, a2; double conf[6]; };
struct AIf { int m1, m2, a1, a2, type; };
struct ABdr { int g, m, a; };
struct Lib { bool upright = false; int dim = 2, n = 1; double L = 1.0; double org[3] = {0, 0, 0}; std::vector<AComp> comps; };
struct Assembly
{
   int dim, n; double L; double org[3];
   std::vector<AComp> comps;       // components of this assembly, in its own order
   std::vector<ACell> cells;
   std::vector<ARef> refs;
   std::vector<AIf> ifs;
   std::vector<ABdr> bdr;
   std::string key(int ref) const; // comp1:comp2-attr1:attr2
   std::string str() const;
};
enum PortSrc { PS_YAML, PS_H5, PS_FILE, PS_FILE_ONLY }; // description in yaml / in global file / yaml with file / file without description
struct AsmOpt
{
   std::string global = "global.h5", bdrfile;   // bdrfile set: boundary rows stored there
   std::vector<int> src;                        // per reference port
   std::vector<std::string> pfile;              // per reference port
   std::vector<int> yorder;                     // order of the entries in the input file
   bool write_ports = false;
   int refine = 0;
   bool verbose = false;
   std::vector<AComp> extra;                    // components listed but not used
   std::string decoy_bdr;                       // bdr_config given although the global file has the rows
};

Lib make_lib(Ctx &c, int maxcomp, int dim = 0);
Assembly make_assembly(Ctx &c, const Lib &l, const std::vector<int> &subset, int maxcells);
// another assembly that needs only components and ports of the given one (no rotations); false: there is none
bool grow_assembly(Ctx &c, const Assembly &a, int maxcells, Assembly &b);
// the same assembly with other numbers; cell k of the result is cell perm[k] of the given one
Assembly renumber(Ctx &c, const Assembly &a, std::vector<int> &perm);
std::vector<int> shuffled(Ctx &c, int n);
AsmOpt plain_opt(const Assembly &a);                                   // everything described in the input file
void put_meshes(const Lib &l, const std::string &disk);                // host
void put_global(Ctx &c, const Assembly &a, const AsmOpt &o, const std::string &disk);  // host: runs a harness process
void merge_ports(Ctx &c, const std::string &d, const std::vector<std::string> &from, const std::string &to); // host
std::string asm_yaml(const Assembly &a, const AsmOpt &o);
std::string make_mesh_text(int dim, int n, double L, bool simplex, const std::vector<int> &attr, Rng &g, int nsub = 0, std::vector<int> *grid = nullptr);

// in nodes
ComponentTopologyHandler *build_topology(const std::string &yaml);
void canon_topology(ComponentTopologyHandler *t, Out &o);
} // namespace sim
