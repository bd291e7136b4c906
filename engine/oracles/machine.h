// Explicit machines printed by the program, and symbolic conditions on them.
#ifndef MACHINE_H
#define MACHINE_H
#include "harness.h"
struct Node { int id = -1; int rank = 0, rank2 = 0; int state = -1; bool deadlock = false; std::vector<int> succ; };
struct Machine { std::vector<Node> nodes; std::map<int, int> byId; const Node &n(int id) const { return nodes[byId.at(id)]; } bool has(int id) const { return byId.count(id) > 0; } };
Machine parseText(const Spec &s, const std::string &out);        // plain text explicit strategy
Machine parseJson(const Spec &s, const std::string &out);        // strict JSON
Machine parsePermissive(const Spec &s, const std::string &out);
void wellFormed(const Machine &m);                               // unique ids, existing successors
struct Edge { int from, to; Lit live; };                         // node indices; live: the edge may be taken
// Is there an infinite path along edges, all edges in 'live', that sees every set inf[i] infinitely often?
Lit fairPath(int n, const std::vector<Edge> &e, const std::vector<std::vector<Lit>> &inf, const std::vector<Lit> &start);
struct MachineMode { bool robotics = false, recovery = false, permissive = false, cooperative = false, cost = false; int firstRank = 0; };
void checkController(const Spec &s, const Machine &m, const MachineMode &mode);
#endif
