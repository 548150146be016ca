// Support for the concrete replay searches: random PSDDs, brute-force oracles.
#pragma once
#include <psdd/psdd_manager.h>
#include <psdd/psdd_unique_table.h>
#include <psdd/psdd_node.h>
#include <psdd/psdd_parameter.h>
#include <psdd/binary_data.h>
#include <psdd/cnf.h>
#include <psdd/random_double_generator.h>
extern "C" {
#include <sdd/sddapi.h>
}
#include <algorithm>
#include <bitset>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

typedef std::bitset<MAX_VAR> Bits;
typedef long double LD;
extern std::string g_scratch;       // private scratch directory
extern std::string g_ctx;           // description of the current input

extern long g_trial;
[[noreturn]] void fail(const char *fmt, ...);
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  int operator()(int n) { return (int)(g() % (uint64_t)n); }            // 0..n-1
  int in(int a, int b) { return a + (*this)(b - a + 1); }
  bool p(double x) { return real() < x; }
  double real() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
};

inline bool leaf(Vtree *v) { return sdd_vtree_is_leaf(v); }
inline void vtree_vars(Vtree *v, std::vector<int> &out) {
  if (leaf(v)) { out.push_back((int)sdd_vtree_var(v)); return; }
  vtree_vars(sdd_vtree_left(v), out);
  vtree_vars(sdd_vtree_right(v), out);
}
inline std::vector<int> vars_of(Vtree *v) { std::vector<int> r; vtree_vars(v, r); return r; }
inline void vtree_nodes(Vtree *v, std::vector<Vtree *> &out) {
  out.push_back(v);
  if (!leaf(v)) { vtree_nodes(sdd_vtree_left(v), out); vtree_nodes(sdd_vtree_right(v), out); }
}
inline std::string vtree_str(Vtree *v) {
  if (leaf(v)) return std::to_string(sdd_vtree_var(v));
  return "(" + vtree_str(sdd_vtree_left(v)) + " " + vtree_str(sdd_vtree_right(v)) + ")";
}
inline Vtree *rand_vtree_rec(Rng &r, const std::vector<int> &vs, size_t a, size_t b, int shape) {
  if (b - a == 1) return new_leaf_vtree(vs[a]);
  size_t m = shape == 1 ? a + 1 : shape == 2 ? b - 1 : a + 1 + r((int)(b - a - 1));
  return new_internal_vtree(rand_vtree_rec(r, vs, a, m, shape), rand_vtree_rec(r, vs, m, b, shape));
}
inline Vtree *rand_vtree(Rng &r, std::vector<int> vs) {
  std::shuffle(vs.begin(), vs.end(), r.g);
  Vtree *v = rand_vtree_rec(r, vs, 0, vs.size(), r(5));
  set_vtree_properties(v);
  return v;
}
// contiguous (1..n) or scattered variable indices
inline std::vector<int> rand_vars(Rng &r, int n, bool contiguous) {
  std::vector<int> vs;
  if (contiguous) { for (int i = 1; i <= n; ++i) vs.push_back(i); return vs; }
  std::set<int> s;
  while ((int)s.size() < n) s.insert(r.in(1, r.p(0.1) ? 4000 : 3 * n));
  vs.assign(s.begin(), s.end());
  return vs;
}

// ---------------------------------------------------------------- oracles
inline LD val(const PsddParameter &p) { return std::exp((LD)p.parameter()); }
inline bool close(LD a, LD b, LD rel = 2e-5L) {
  if (std::isnan((double)a) || std::isnan((double)b)) return false;
  return std::fabs((double)(a - b)) <= rel * std::max(std::fabs((double)a), std::fabs((double)b)) + 1e-300L;
}
struct Assign {                                   // all assignments to vars
  std::vector<int> vs;
  explicit Assign(std::vector<int> v) : vs(std::move(v)) { std::sort(vs.begin(), vs.end()); }
  size_t count() const { return (size_t)1 << vs.size(); }
  Bits get(size_t k) const { Bits b; for (size_t i = 0; i < vs.size(); ++i) if (k >> i & 1) b.set(vs[i]); return b; }
  Bits mask() const { Bits b; for (int v : vs) b.set(v); return b; }
};
// weight of a partial assignment (mask, x)
inline LD W(PsddNode *n, const Bits &mask, const Bits &x) {
  if (n->node_type() == LITERAL_NODE_TYPE) {
    auto *l = n->psdd_literal_node();
    int v = std::abs(l->literal());
    if (!mask[v]) return 1;
    return x[v] == (l->literal() > 0) ? 1 : 0;
  }
  if (n->node_type() == TOP_NODE_TYPE) {
    auto *t = n->psdd_top_node();
    if (!mask[t->variable_index()]) return 1;
    return x[t->variable_index()] ? val(t->true_parameter()) : val(t->false_parameter());
  }
  auto *d = n->psdd_decision_node();
  LD s = 0;
  for (size_t i = 0; i < d->primes().size(); ++i) {
    LD p = val(d->parameters()[i]);
    if (p == 0) continue;
    s += p * W(d->primes()[i], mask, x) * W(d->subs()[i], mask, x);
  }
  return s;
}
// the partial assignment extends to a supported one
inline bool S(PsddNode *n, const Bits &mask, const Bits &x) {
  if (n->node_type() == LITERAL_NODE_TYPE) {
    int l = n->psdd_literal_node()->literal();
    return !mask[std::abs(l)] || x[std::abs(l)] == (l > 0);
  }
  if (n->node_type() == TOP_NODE_TYPE) return true;
  auto *d = n->psdd_decision_node();
  for (size_t i = 0; i < d->primes().size(); ++i)
    if (S(d->primes()[i], mask, x) && S(d->subs()[i], mask, x)) return true;
  return false;
}
inline void reach(PsddNode *n, std::set<PsddNode *> &out) {
  if (!out.insert(n).second) return;
  if (auto *d = n->psdd_decision_node())
    if (n->node_type() == DECISION_NODE_TYPE)
      for (size_t i = 0; i < d->primes().size(); ++i) { reach(d->primes()[i], out); reach(d->subs()[i], out); }
}
inline std::set<PsddNode *> reach(const std::vector<PsddNode *> &ns) { std::set<PsddNode *> r; for (auto n : ns) reach(n, r); return r; }

std::string dump(PsddNode *n);       // structure and parameters, children first
std::string tree(PsddNode *n);       // canonical text of the content
void well_formed(PsddNode *n, Vtree *at, const char *what, bool normal = false);
void clean(const std::vector<PsddNode *> &roots, const char *what);

struct GenOpt {
  double zero = 0;          // chance that an element / top parameter is zero
  bool normal = true;       // local parameters sum to one
  double uncompressed = 0.3;
  double coarse = 0.5;      // parameters from a small set (more sharing)
  double sparse = 0.35;     // chance that an assignment is left out of the support
  bool ones = false;        // all parameters one
  double tiny = 0;          // chance of a parameter below the smallest double
  int flags = 1;            // number of flags drawn from
};
PsddNode *gen_psdd(Rng &r, PsddManager *m, Vtree *v, const GenOpt &o, uintmax_t flag = 0);
struct Env {
  std::vector<int> vs;
  Vtree *vt;
  PsddManager *m;
  Env(Rng &r, int nmin, int nmax, bool contiguous = false);
  ~Env();
};
inline std::string bits_str(const Bits &b, const std::vector<int> &vs) {
  std::string s;
  for (int v : vs) s += std::to_string(v) + "=" + (b[v] ? "1" : "0") + " ";
  return s;
}
std::string tmpfile_path(const char *suffix);
// SDD side
SddNode *rand_sdd(Rng &r, SddManager *m, int n);
bool sdd_eval(SddNode *n, const std::function<bool(int)> &x);
