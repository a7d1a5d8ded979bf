#pragma once
#include "asm.hpp"
#include "h5items.hpp"
#include "rom_element_collection.hpp"
namespace sim {
struct RomSpec { u64 seed = 1; int nvar = 1; bool separate = false; int bs() const { return separate ? nvar : 1; } };
// contents by name: same name, same matrices
struct Blocks { int n; std::vector<Csr> b; std::vector<char> absent; };
Blocks rom_blocks(const RomSpec &s, const std::string &key, int n);
void canon_blocks(Out &o, const Blocks &b);
std::string rom_expected(const Assembly &a, const RomSpec &s);
// in nodes
struct RomNode { ComponentTopologyHandler *topo; std::vector<FiniteElementCollection *> fec; Array<FiniteElementSpace *> fes; ROMLinearElement *el; };
RomNode rom_node(const std::string &yaml, const RomSpec &s, bool build_paused);
void rom_fill(RomNode &r, const Assembly &a, const RomSpec &s);
void rom_canon(RomNode &r, Out &o);
}
