// C18 and C24: the factor compiler and the elimination-order vtree. Built with
// the stand-in headers of stubs/ in front of /repo/include.
#include "common.h"
#include <psdd/pgm_compiler.h>
#include <psdd/minfill_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/hypergraph_decomposition_vtree.h>
#include "stubs/htd/main.hpp"
#include <iostream>
typedef PsddParameter P;
// the other two vtree methods need libhtd / libkahypar
Vtree *JointreeVtree::ConstructVtree() { abort(); }
Vtree *HypergraphDecompositionVtree::ConstructVtree() { abort(); }

struct Net {
  int n;
  std::vector<std::vector<int>> scope;
  std::vector<std::vector<double>> table;
};
static double entry(const Net &w, size_t f, const Bits &x) {
  size_t i = 0;
  for (int v : w.scope[f]) i = i * 2 + (x[v] ? 1 : 0);     // last variable is the least significant bit
  return w.table[f][i];
}
static Net rand_net(Rng &r, int nmax, int fmax, bool tables) {
  Net w;
  w.n = r.in(1, nmax);
  int k = r.in(1, fmax);
  double zero = r.p(0.4) ? 0 : r.p(0.8) ? 0.3 : 0.6;
  for (int i = 0; i < k; ++i) {
    std::vector<int> s;
    for (int v = 1; v <= w.n; ++v) s.push_back(v);
    std::shuffle(s.begin(), s.end(), r.g);
    s.resize(r.in(1, std::min(w.n, 4)));
    w.scope.push_back(s);
    std::vector<double> t;
    if (tables) for (size_t j = 0; j < (size_t)1 << s.size(); ++j) t.push_back(r.p(zero) ? 0 : r.p(0.3) ? r.in(1, 4) : std::floor(r.real() * 1e6) / 1e5 + 1e-3);
    w.table.push_back(t);
  }
  return w;
}
static std::string uai(const Net &w, Rng &r) {
  std::ostringstream o;
  o.precision(12);
  o << (r.p(0.5) ? "MARKOV" : "BAYES") << "\n" << w.n << "\n";
  for (int i = 0; i < w.n; ++i) o << "2 ";
  o << "\n" << w.scope.size() << "\n";
  for (auto &s : w.scope) { o << s.size(); for (int v : s) o << " " << v - 1; o << "\n"; }
  for (auto &t : w.table) {
    if (r.p(0.7)) o << "\n";
    o << t.size();
    if (r.p(0.5)) o << "\n";
    size_t i = 0;
    for (double d : t) { o << " " << d; if (++i < t.size() && r.p(0.2)) o << "\n"; }
    o << "\n";
  }
  return o.str();
}
// A vtree as elimination orders give it: one variable split off while the
// remaining interaction graph is connected, components apart otherwise. The
// scope of each factor then lies on one right spine, which compile_factor needs.
static Vtree *elim_vtree(Rng &r, std::set<int> vars, const std::vector<std::set<int>> &adj) {
  if (vars.size() == 1) return new_leaf_vtree(*vars.begin());
  std::set<int> c{*vars.begin()};
  std::vector<int> q{*vars.begin()};
  while (!q.empty()) { int u = q.back(); q.pop_back(); for (int t : adj[u]) if (vars.count(t) && c.insert(t).second) q.push_back(t); }
  std::set<int> rest;
  if (c.size() == vars.size()) {
    auto it = vars.begin();
    std::advance(it, r(vars.size()));
    int v = *it;
    vars.erase(it);
    return new_internal_vtree(new_leaf_vtree(v), elim_vtree(r, vars, adj));
  }
  for (int v : vars) if (!c.count(v)) rest.insert(v);
  if (r(2)) std::swap(c, rest);
  Vtree *a = elim_vtree(r, c, adj), *b = elim_vtree(r, rest, adj);
  return new_internal_vtree(a, b);
}
void t_C18(Rng &r) {
  Net w = rand_net(r, 5, 5, true);
  std::string text = uai(w, r), f = tmpfile_path(".uai"), vf = tmpfile_path(".vtree");
  std::ofstream(f) << text;
  std::vector<int> vs;
  for (int v = 1; v <= w.n; ++v) vs.push_back(v);
  std::vector<std::set<int>> adj(w.n + 1);
  for (auto &s : w.scope) for (int v : s) for (int u : s) if (u != v) adj[v].insert(u);
  Vtree *vt = elim_vtree(r, std::set<int>(vs.begin(), vs.end()), adj);
  set_vtree_properties(vt);
  g_ctx = "vtree " + vtree_str(vt) + " network " + text;
  sdd_vtree_save(vf.c_str(), vt);
  sdd_vtree_free(vt);
  PgmCompiler pc(g_scratch);
  pc.read_uai_file(f.c_str());
  pc.init_psdd_manager_from_vtree(vf.c_str());
  Assign a(vs);
  auto compare = [&](std::pair<PsddNode *, P> res, const std::function<LD(const Bits &)> &want, const char *what) {
    LD z = val(res.second);
    for (size_t i = 0; i < a.count(); ++i) {
      LD t = want(a.get(i));
      LD g = res.first ? z * W(res.first, a.mask(), a.get(i)) : 0;
      if (res.first == nullptr) { CHECK(t == 0, "%s: no node, but entry %.9Lg on {%s}", what, t, bits_str(a.get(i), vs).c_str()); continue; }
      CHECK(close(g, t, 1e-4L), "%s: %.9Lg on {%s}, the table says %.9Lg", what, g, bits_str(a.get(i), vs).c_str(), t);
    }
    if (res.first) well_formed(res.first, pc.psdd_manager()->vtree(), what);
    else CHECK(z == 0, "%s: no node with constant %.9Lg", what, z);
  };
  for (size_t k = 0; k < w.scope.size(); ++k) compare(pc.compile_factor(k), [&](const Bits &x) { return (LD)entry(w, k, x); }, "factor");
  auto all = [&](const Bits &x) { LD p = 1; for (size_t k = 0; k < w.scope.size(); ++k) p *= entry(w, k, x); return p; };
  size_t gc = r.in(1, 4);
  std::streambuf *b = std::cout.rdbuf(nullptr);
  int which = r(3);   // the three strategies
  g_ctx += " strategy " + std::to_string(which) + " gc " + std::to_string(gc);
  auto res = which == 0 ? pc.compile_network(gc) : which == 1 ? pc.compile_network_with_vtree(gc) : pc.compile_network_dc(gc);
  std::cout.rdbuf(b);
  compare(res, all, "network");
  unlink(f.c_str());
  unlink(vf.c_str());
}
static void split(Vtree *v, std::set<int> vars, const std::vector<std::set<int>> &adj, bool top) {
  auto have = vars_of(v);
  CHECK(std::set<int>(have.begin(), have.end()) == vars && have.size() == vars.size(), "subtree holds %d leaves for %d variables", (int)have.size(), (int)vars.size());
  if (vars.size() == 1) return;
  auto comp = [&](int s) {
    std::set<int> c{s};
    std::vector<int> q{s};
    while (!q.empty()) { int u = q.back(); q.pop_back(); for (int t : adj[u]) if (vars.count(t) && c.insert(t).second) q.push_back(t); }
    return c;
  };
  auto lv = vars_of(sdd_vtree_left(v)), rv = vars_of(sdd_vtree_right(v));
  std::set<int> L(lv.begin(), lv.end()), R(rv.begin(), rv.end());
  if (comp(*vars.begin()).size() != vars.size()) {
    for (int u : vars) { auto c = comp(u); bool l = L.count(u); for (int t : c) CHECK((bool)L.count(t) == l, "a connected component is spread over both subtrees of a split"); }
    split(sdd_vtree_left(v), L, adj, false);
    split(sdd_vtree_right(v), R, adj, false);
  } else {
    CHECK(L.size() == 1 || R.size() == 1, "a connected graph is not split off by one variable");
    split(L.size() == 1 ? sdd_vtree_right(v) : sdd_vtree_left(v), L.size() == 1 ? R : L, adj, false);
  }
}
void t_C24(Rng &r) {
  Net w = rand_net(r, r.p(0.2) ? 30 : 9, r.in(1, 8), false);
  if (r.p(0.5)) for (auto &s : w.scope) if (s.size() > 2) s.resize(2);
  std::vector<std::vector<size_t>> cl;
  std::vector<std::set<int>> adj(w.n + 1);
  g_ctx = "variables " + std::to_string(w.n) + " scopes";
  for (auto &s : w.scope) {
    cl.emplace_back(s.begin(), s.end());
    g_ctx += " {";
    for (int v : s) { g_ctx += std::to_string(v) + " "; for (int u : s) if (u != v) adj[v].insert(u); }
    g_ctx += "}";
  }
  htd::ordering_rng().seed(r.g());
  auto probe = htd::ordering_rng();
  UaiNetwork net(w.n, cl.size(), MARKOV_NETWORK_TYPE, cl, {});
  MinFillVtree mf(&net);
  Vtree *v = mf.ConstructVtree();
  CHECK(v, "no vtree");
  g_ctx += " vtree " + vtree_str(v);
  std::set<int> all;
  for (int i = 1; i <= w.n; ++i) all.insert(i);
  split(v, all, adj, true);
  sdd_vtree_free(v);
}
