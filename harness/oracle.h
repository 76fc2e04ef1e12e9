// Reference computations on small graphs (edge sets are 64-bit masks).
// Compiled without instrumentation.
#ifndef ORACLE_H
#define ORACLE_H
#include <cstdint>
#include <vector>
#include <utility>
typedef uint64_t mask_t;
struct GSpec { int n = 0; std::vector<std::pair<int, int>> e; };
int orc_components(const GSpec &g);
bool orc_simple_cycle(const GSpec &g, mask_t c);               // non-empty, connected, all degrees 2
int orc_rank(const std::vector<mask_t> &v);
const std::vector<mask_t> &orc_cycles(const GSpec &g);         // all simple cycles (cached)
// coefficients: bit i set iff basis[i] is needed to write c; false if c is not in the span
bool orc_represent(const std::vector<mask_t> &basis, mask_t c, mask_t &coef);
bool orc_forest(const GSpec &g, mask_t edges);
bool orc_acyclic_without(const GSpec &g, const std::vector<bool> &removed);
// all simple paths u->v as edge masks (cached)
const std::vector<mask_t> &orc_paths(const GSpec &g, int u, int v);
int orc_hops(const GSpec &g, mask_t edges, int u, int v);      // BFS distance, -1 if unreachable
int orc_girth(const GSpec &g, mask_t edges);                   // 0 if acyclic
// graphs with any number of edges (edge sets are lists of edge numbers)
bool orc_big_simple(const GSpec &g, const std::vector<int> &c);
int orc_big_rank(const GSpec &g, const std::vector<std::vector<int>> &v);
std::vector<int> orc_big_independent(const GSpec &g, const std::vector<std::vector<int>> &v);   // the members a greedy choice in this order takes
int orc_big_hops(const GSpec &g, const std::vector<char> &in, int u, int v, int limit = 0);   // -1: not reachable (within limit)
void orc_big_mcb(const GSpec &g, const std::vector<int64_t> &w, std::vector<int> &mult);   // how often each edge occurs in an optimum basis
#endif
