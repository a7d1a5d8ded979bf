// Solver configurations for the scenarios that run whole solvers and workflows.
#pragma once
#include "asm.hpp"
#include "main_workflow.hpp"

namespace sim {

struct FullCfg
{
   Lib lib; Assembly a; AsmOpt o;
   std::string solver, problem;
   int order = 1, print_level = -1;
   bool full_dg = false, direct = false, amg = false, separate = false, rom = false;
   bool sub = false, nodd = false;         // one decomposed mesh; not decomposed after all
   std::string mesh_file, mesh_text; int refine = 0;
   std::map<std::string, double> params;   // single_run
   std::vector<std::string> fixed;         // parameters that are not sampled
   std::vector<std::string> free_params() const;
   bool connected() const;                 // every subdomain is joined to the first
   std::string more;                       // further top-level sections
   std::string mr;                         // further lines of model_reduction
   std::string disc;                       // further lines of discretization
   std::string solver_opt;                 // further lines of solver
   int nvar() const { return solver == "poisson" || solver == "linelast" || solver == "adv-diff" ? 1 : 2; }
   std::string yaml() const;
   std::string str() const;
};
// kinds: solvers to choose from; every component of the assembly is used; one in subs is a decomposed mesh
FullCfg draw_full(Ctx &c, const std::vector<std::string> &kinds, int maxcomp, int maxcells, int maxn = 2, bool upright = false, int subs = 0);
// another assembly of the same library for the same problem
void redraw_assembly(Ctx &c, FullCfg &f, int maxcells, const std::string &global);
// another assembly of components and ports of f's; false: there is none
bool regrow_assembly(Ctx &c, FullCfg &f, int maxcells, const std::string &global);
// an enclosed flow, whose pressure is determined up to a constant (not for a decomposed mesh)
void enclose(Ctx &c, FullCfg &f);
void put_full(Ctx &c, const FullCfg &f, const std::string &disk);
void real_snapshots(Ctx &c);   // a scenario of C15
std::string read_all(const std::string &path);
} // namespace sim
