#include "common.h"
extern "C" {
#include <psdd/csvparser.h>
}
#include <limits>
#include <sys/stat.h>
#include <sys/wait.h>
typedef PsddParameter P;
static P dec(double d) { return P::CreateFromDecimal(d); }
static GenOpt opt(Rng &r, bool zeros = true, bool normal = true) {
  GenOpt o;
  if (zeros && r.p(0.35)) o.zero = 0.3;
  o.normal = normal;
  return o;
}
static void ctx(PsddNode *n, const char *name = "psdd") { g_ctx += std::string(" ") + name + " " + dump(n); }

// ------------------------------------------------------------------ C01
static P rand_param(Rng &r) {
  switch (r(9)) {
  case 0: return dec(0);
  case 1: return dec(1);
  case 2: return P::CreateFromLog(-r.real() * 800);
  case 3: return P::CreateFromLog(-r.real() * 1e-5);
  case 4: return dec(r.in(1, 1000));
  case 5: return P();
  case 6: return P::CreateFromLog(-std::numeric_limits<double>::infinity());
  default: return dec(r.real());
  }
}
static LD logadd(LD a, LD b) {
  if (std::isinf((double)a)) return b;
  if (std::isinf((double)b)) return a;
  return std::max(a, b) + std::log1p(std::exp(-std::fabs((double)(a - b))));
}
static bool samelog(LD a, LD b) {
  if (std::isinf((double)a) || std::isinf((double)b)) return std::isinf((double)a) && std::isinf((double)b) && (a < 0) == (b < 0);
  return std::fabs((double)(a - b)) <= 1e-9 * (1 + std::fabs((double)a));
}
static void same_as_fresh(const P &p, const char *what) {
  P f = P::CreateFromLog(p.parameter());
  CHECK(p == f && !(p != f) && !(p < f) && !(p > f), "%s: a probability of log value %.17g does not equal a fresh one of the same value", what, p.parameter());
  CHECK(p.hash_value() == f.hash_value(), "%s: hash depends on more than the value (log value %.17g)", what, p.parameter());
  for (double d : {p.parameter() - 1e-5, p.parameter() + 1e-5}) {
    if (std::isinf(d)) continue;
    P g = P::CreateFromLog(d);
    CHECK(p != g && !(p == g), "%s: values 1e-5 apart compare equal", what);
    CHECK((p < g) == (p.parameter() < d) && (p > g) == (p.parameter() > d), "%s: order of %.17g and %.17g is wrong", what, p.parameter(), d);
    CHECK((g < p) == (d < p.parameter()) && (g > p) == (d > p.parameter()), "%s: order of %.17g and %.17g is wrong (reversed)", what, d, p.parameter());
  }
}
static void t_C01(Rng &r) {
  P a = rand_param(r), b = rand_param(r);
  char buf[200];
  snprintf(buf, sizeof buf, "a=exp(%.17g) b=exp(%.17g)", a.parameter(), b.parameter());
  g_ctx = buf;
  LD la = a.parameter(), lb = b.parameter();
  P s = a + b, m = a * b;
  CHECK(samelog(s.parameter(), logadd(la, lb)), "a+b has log value %.17g, not %.17Lg", s.parameter(), logadd(la, lb));
  CHECK(samelog(m.parameter(), la + lb), "a*b has log value %.17g", m.parameter());
  CHECK(samelog(a.parameter(), la) && samelog(b.parameter(), lb), "operands changed");
  P sc = a, mc = a;
  P &rs = (sc += b), &rm = (mc *= b);
  CHECK(&rs == &sc && &rm == &mc, "compound assignment does not return the object");
  CHECK(samelog(sc.parameter(), logadd(la, lb)), "a+=b has log value %.17g, not %.17Lg", sc.parameter(), logadd(la, lb));
  CHECK(samelog(mc.parameter(), la + lb), "a*=b has log value %.17g", mc.parameter());
  same_as_fresh(a, "a"); same_as_fresh(s, "a+b"); same_as_fresh(m, "a*b");
  same_as_fresh(sc, "a+=b"); same_as_fresh(mc, "a*=b");
  if (!std::isinf((double)lb)) {
    P d = a / b, dc = a;
    dc /= b;
    CHECK(samelog(d.parameter(), la - lb), "a/b has log value %.17g", d.parameter());
    CHECK(samelog(dc.parameter(), la - lb), "a/=b has log value %.17g", dc.parameter());
    same_as_fresh(d, "a/b"); same_as_fresh(dc, "a/=b");
  }
  P aa = a; aa += aa;
  CHECK(samelog(aa.parameter(), logadd(la, la)), "a+=a has log value %.17g", aa.parameter());
  if (std::fabs((double)(la - lb)) > 1e-6 || (std::isinf((double)la) != std::isinf((double)lb))) {
    CHECK((a < b) == (la < lb) && (a > b) == (la > lb), "order of a and b is wrong");
    CHECK(a != b && !(a == b), "different values compare equal");
  }
  double x = r.p(0.2) ? 0 : r.real();
  CHECK(samelog(dec(x).parameter(), std::log((LD)x)), "CreateFromDecimal(%.17g) has log value %.17g", x, dec(x).parameter());
  CHECK(P().parameter() == -std::numeric_limits<double>::infinity(), "default probability is not zero");
}


// Elements of two decision nodes over the same vtree shape, paired by the
// support of their primes (the order of elements carries no meaning).
static std::vector<bool> support_sig(PsddNode *p) {
  Assign a(vars_of(p->vtree_node()));
  std::vector<bool> s;
  for (size_t i = 0; i < a.count(); ++i) s.push_back(S(p, a.mask(), a.get(i)));
  return s;
}
static std::vector<size_t> match_elements(PsddDecisionNode *d, PsddDecisionNode *h, const char *what) {
  CHECK(d->primes().size() == h->primes().size(), "%s: %d elements became %d", what, (int)d->primes().size(), (int)h->primes().size());
  std::map<std::vector<bool>, size_t> at;
  for (size_t i = 0; i < h->primes().size(); ++i) CHECK(at.insert({support_sig(h->primes()[i]), i}).second, "%s: two elements have the same prime", what);
  std::vector<size_t> r;
  for (auto p : d->primes()) { auto it = at.find(support_sig(p)); CHECK(it != at.end(), "%s: an element lost its prime", what); r.push_back(it->second); }
  return r;
}
// ------------------------------------------------------------------ C02
struct Content {
  int type, x = 0;
  P a, b;
  std::vector<PsddNode *> ps, ss;
  std::vector<P> pp;
  uintmax_t flag = 0;
  Vtree *v = nullptr;
  bool operator==(const Content &o) const {
    auto eq = [](const P &p, const P &q) { return std::fabs(p.parameter() - q.parameter()) < 1e-6 || p.parameter() == q.parameter(); };
    if (type != o.type || flag != o.flag || v != o.v || x != o.x) return false;
    if (type == 3) return eq(a, o.a) && eq(b, o.b);
    if (ps.size() != o.ps.size()) return false;
    for (size_t i = 0; i < ps.size(); ++i) {
      size_t k = std::find(o.ps.begin(), o.ps.end(), ps[i]) - o.ps.begin();
      if (k == ps.size() || ss[i] != o.ss[k] || !eq(pp[i], o.pp[k])) return false;
    }
    return true;
  }
};
static PsddNode *request(PsddManager *m, const Content &c) {
  if (c.type == 1) return m->GetPsddLiteralNode(c.x, c.flag);
  if (c.type == 3) return m->GetPsddTopNode(c.x, c.flag, c.a, c.b);
  return m->GetConformedPsddDecisionNode(c.ps, c.ss, c.pp, c.flag);
}
static void check_content(PsddNode *n, const Content &c) {
  auto eq = [](const P &p, const P &q) { return p.parameter() == q.parameter() || std::fabs(p.parameter() - q.parameter()) < 1e-6; };
  CHECK(n->node_type() == c.type, "asked for a node of type %d, got type %d", c.type, n->node_type());
  CHECK(n->vtree_node() == c.v, "node returned at another vtree position");
  CHECK(n->flag_index() == c.flag, "node returned with flag %d, not %d", (int)n->flag_index(), (int)c.flag);
  if (c.type == 1) {
    CHECK(n->psdd_literal_node()->literal() == c.x, "asked for literal %d, got %d", c.x, n->psdd_literal_node()->literal());
    CHECK(n->psdd_literal_node()->sign() == (c.x > 0) && (int)n->psdd_literal_node()->variable_index() == std::abs(c.x), "sign or variable of literal %d wrong", c.x);
  } else if (c.type == 3) {
    auto *t = n->psdd_top_node();
    CHECK((int)t->variable_index() == c.x, "true node of another variable");
    CHECK(eq(t->true_parameter(), c.a), "true node has true parameter %.9Lg, asked for %.9Lg", val(t->true_parameter()), val(c.a));
    CHECK(eq(t->false_parameter(), c.b), "true node has false parameter %.9Lg, asked for %.9Lg", val(t->false_parameter()), val(c.b));
  } else {
    auto *d = n->psdd_decision_node();
    CHECK(d->primes().size() == c.ps.size() && d->subs().size() == c.ps.size(), "decision node has other elements than asked for");
    CHECK(d->parameters().size() == c.pp.size(), "decision node has %d parameters, asked for %d", (int)d->parameters().size(), (int)c.pp.size());
    for (size_t i = 0; i < c.pp.size(); ++i) {       // primes are distinct
      size_t k = std::find(d->primes().begin(), d->primes().end(), c.ps[i]) - d->primes().begin();
      CHECK(k < c.ps.size() && d->subs()[k] == c.ss[i], "decision node has other elements than asked for");
      CHECK(eq(d->parameters()[k], c.pp[i]), "parameter of element %d is %.9Lg, asked for %.9Lg", (int)i, val(d->parameters()[k]), val(c.pp[i]));
    }
  }
}
static void t_C02(Rng &r) {
  Env e(r, 1, 4);
  static const double grid[] = {0, 0.1, 0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1};
  auto gp = [&] { double d = grid[r(10)]; return r.p(0.3) ? P::CreateFromLog(std::log(d)) : r.p(0.2) ? dec(d / 2) + dec(d / 2) : dec(d); };
  std::vector<Vtree *> vn; vtree_nodes(e.vt, vn);
  std::map<int, Vtree *> lf;
  for (auto v : vn) if (leaf(v)) lf[(int)sdd_vtree_var(v)] = v;
  std::vector<std::pair<Content, PsddNode *>> got;
  std::map<Vtree *, std::vector<PsddNode *>> at;
  int steps = r.in(20, 120);
  for (int s = 0; s < steps; ++s) {
    Content c;
    if (!got.empty() && r.p(0.3)) {
      c = got[r(got.size())].first;                  // again, or with one detail changed
      if (r.p(0.6)) {
        int w = r(5);
        if (c.type == 1) { if (w == 0) c.x = -c.x; else if (w == 1) c.flag = r(3); }
        else if (c.type == 3) { if (w == 0) c.a = gp(); else if (w == 1) c.b = gp(); else if (w == 2) c.flag = r(3); else if (w == 3) std::swap(c.a, c.b); }
        else if (w == 0) c.pp[r(c.pp.size())] = gp();
        else if (w == 1) c.flag = r(3);
        else if (w == 2) { auto &o = at[sdd_vtree_right(c.v)]; c.ss[r(c.ss.size())] = o[r(o.size())]; }
        else if (w == 3) { auto &o = at[sdd_vtree_left(c.v)]; c.ps[r(c.ps.size())] = o[r(o.size())]; }
        else if (c.ps.size() > 1) { c.ps.pop_back(); c.ss.pop_back(); c.pp.pop_back(); }
      }
    } else {
      Vtree *v = vn[r(vn.size())];
      c.flag = r(3);
      c.v = v;
      if (leaf(v)) {
        c.x = (int)sdd_vtree_var(v);
        if (r.p(0.5)) { c.type = 1; if (r.p(0.5)) c.x = -c.x; } else { c.type = 3; c.a = gp(); c.b = gp(); }
      } else {
        auto &ls = at[sdd_vtree_left(v)], &rs = at[sdd_vtree_right(v)];
        if (ls.empty() || rs.empty()) continue;
        c.type = 2;
        int k = r.in(1, 3);
        for (int i = 0; i < k; ++i) { c.ps.push_back(ls[r(ls.size())]); c.ss.push_back(rs[r(rs.size())]); c.pp.push_back(gp()); }
      }
    }
    if (c.type == 2 && std::set<PsddNode *>(c.ps.begin(), c.ps.end()).size() != c.ps.size()) continue;
    if (c.type == 2 && r.p(0.3) && c.ps.size() > 1) { std::swap(c.ps[0], c.ps[1]); std::swap(c.ss[0], c.ss[1]); std::swap(c.pp[0], c.pp[1]); }
    PsddNode *n = request(e.m, c);
    CHECK(n, "no node returned");
    check_content(n, c);
    for (auto &g : got) {
      bool same = g.first == c;
      CHECK(!same || g.second == n, "equal requests returned two nodes: %s and %s", dump(g.second).c_str(), dump(n).c_str());
      CHECK(same || g.second != n, "different requests returned one node: %s", dump(n).c_str());
      CHECK(g.second == n || g.second->node_index() != n->node_index(), "two live nodes share identifier %d", (int)n->node_index());
    }
    bool fresh = true;
    for (auto &g : got) if (g.second == n) fresh = false;
    if (fresh) { got.push_back({c, n}); at[c.v].push_back(n); }
    if (r.p(0.02)) {                                 // every earlier node is still itself
      for (auto &g : got) { check_content(g.second, g.first); CHECK(request(e.m, g.first) == g.second, "asking again returned another node"); }
    }
  }
}

// ------------------------------------------------------------------ C03
static void check_serial(const std::vector<PsddNode *> &s, const std::vector<PsddNode *> &roots, const char *what) {
  auto want = reach(roots);
  std::map<PsddNode *, size_t> pos;
  for (size_t i = 0; i < s.size(); ++i) {
    CHECK(!pos.count(s[i]), "%s: node listed twice", what);
    CHECK(want.count(s[i]), "%s: unreachable node listed", what);
    pos[s[i]] = i;
  }
  CHECK(pos.size() == want.size(), "%s: %d of %d reachable nodes listed", what, (int)pos.size(), (int)want.size());
  for (auto n : s)
    if (n->node_type() == DECISION_NODE_TYPE) {
      auto *d = n->psdd_decision_node();
      for (auto c : d->primes()) CHECK(pos[c] > pos[n], "%s: prime listed before its parent", what);
      for (auto c : d->subs()) CHECK(pos[c] > pos[n], "%s: sub listed before its parent", what);
    }
}
static void t_C03(Rng &r) {
  Env e(r, 1, 6);
  GenOpt o = opt(r); o.flags = r.in(1, 2);
  std::vector<PsddNode *> roots;
  int k = r.in(1, 3);
  for (int i = 0; i < k; ++i) { roots.push_back(gen_psdd(r, e.m, e.vt, o)); ctx(roots.back(), "root"); }
  auto s = psdd_node_util::SerializePsddNodes(roots[0]);
  CHECK(!s.empty() && s[0] == roots[0], "serialisation does not start with the root");
  check_serial(s, {roots[0]}, "serialisation");
  auto ms = psdd_node_util::SerializePsddNodes(roots);
  std::set<PsddNode *> distinct(roots.begin(), roots.end());
  check_serial(ms, roots, "serialisation of several roots");
  for (size_t i = 0; i < distinct.size(); ++i) CHECK(distinct.count(ms[i]), "serialisation does not start with the roots");
  auto cov = psdd_node_util::GetCoveredPsddNodes(roots);
  auto want = reach(roots);
  CHECK(cov.size() == want.size(), "coverage lists %d nodes, %d are reachable", (int)cov.size(), (int)want.size());
  for (auto &kv : cov) CHECK(want.count(kv.second) && kv.first == kv.second->node_index(), "coverage lists a wrong node");
  // roots at different depths, one possibly below the other
  std::vector<PsddNode *> mixed(roots);
  for (int i = 0; i < 2; ++i) { auto w = reach({roots[0]}); auto it = w.begin(); std::advance(it, r(w.size())); mixed.insert(mixed.begin() + r(mixed.size() + 1), *it); }
  check_serial(psdd_node_util::SerializePsddNodes(mixed), mixed, "serialisation of roots at several depths");
  if (mixed.size() > 2) {
    std::vector<PsddNode *> two(mixed.begin(), mixed.begin() + 2);
    check_serial(psdd_node_util::SerializePsddNodes(two), two, "serialisation of two roots");
  }
  auto cov2 = psdd_node_util::GetCoveredPsddNodes(mixed);
  CHECK(cov2.size() == reach(mixed).size(), "coverage of several depths lists %d nodes, %d are reachable", (int)cov2.size(), (int)reach(mixed).size());
  clean(roots, "traversal");
}

// ------------------------------------------------------------------ C04
static void t_C04(Rng &r) {
  Env e(r, 1, 6);
  PsddNode *n = gen_psdd(r, e.m, e.vt, opt(r, true, r.p(0.7)));
  ctx(n);
  auto s = psdd_node_util::SerializePsddNodes(n);
  Assign a(e.vs);
  for (int t = 0; t < 40; ++t) {
    Bits mask, x = a.get(r(a.count()));
    int k = r(4);
    for (int v : e.vs) if (k == 0 || (k < 3 && r.p(0.6))) mask.set(v);
    if (r.p(0.2)) mask.set(MAX_VAR - 1);
    LD w = W(n, mask, x);
    for (int q = 0; q < 2; ++q) {
      Probability p = q ? psdd_node_util::Evaluate(mask, x, n) : psdd_node_util::Evaluate(mask, x, s);
      CHECK(close(val(p), w), "evaluation gives %.12Lg, the distribution %.12Lg for mask {%s} assignment {%s}", val(p), w, bits_str(mask, e.vs).c_str(), bits_str(x, e.vs).c_str());
      if (w == 0) CHECK(p == dec(0), "zero weight not reported as zero");
    }
  }
}
// ------------------------------------------------------------------ C05
static void t_C05(Rng &r) {
  Env e(r, 1, 6);
  GenOpt o = opt(r, true, r.p(0.7)); o.sparse = 0.5;
  PsddNode *n = gen_psdd(r, e.m, e.vt, o);
  ctx(n);
  auto s = psdd_node_util::SerializePsddNodes(n);
  Assign a(e.vs);
  int maxv = *std::max_element(e.vs.begin(), e.vs.end());
  for (int t = 0; t < 40; ++t) {
    Bits mask, x = a.get(r(a.count()));
    int k = r(4);
    for (int v : e.vs) if (k == 0 || (k < 3 && r.p(0.6))) mask.set(v);
    bool want = S(n, mask, x);
    std::unordered_map<uint32_t, bool> ev;
    for (int v : e.vs) if (mask[v]) ev[v] = x[v];
    const char *f = "%s says %d for mask {%s} assignment {%s}";
    bool g1 = psdd_node_util::IsConsistent(s, mask, x), g2 = psdd_node_util::IsConsistent(n, mask, x), g3 = n->IsConsistent(ev);
    CHECK(g1 == want, f, "query by node list", g1, bits_str(mask, e.vs).c_str(), bits_str(x, e.vs).c_str());
    CHECK(g2 == want, f, "query by root", g2, bits_str(mask, e.vs).c_str(), bits_str(x, e.vs).c_str());
    CHECK(g3 == want, f, "query by map", g3, bits_str(mask, e.vs).c_str(), bits_str(x, e.vs).c_str());
    bool full = S(n, a.mask(), x), g4 = n->IsConsistent(x, (uint32_t)maxv);
    CHECK(g4 == full, f, "query by full assignment", g4, "all", bits_str(x, e.vs).c_str());
    psdd_node_util::SetActivationFlag(x, s);
    for (auto c : s) {
      CHECK(c->activation_flag() == S(c, a.mask(), x), "activation marking is %d on %s for assignment {%s}", c->activation_flag(), dump(c).c_str(), bits_str(x, e.vs).c_str());
    }
    for (auto c : s) c->ResetActivationFlag();
    for (auto c : s) CHECK(!c->activation_flag(), "activation flag cannot be reset");
  }
}
// ------------------------------------------------------------------ C06
static mpz_class count(PsddNode *n, std::map<PsddNode *, mpz_class> &c) {
  auto it = c.find(n);
  if (it != c.end()) return it->second;
  mpz_class s = n->node_type() == TOP_NODE_TYPE ? 2 : 1;
  if (n->node_type() == DECISION_NODE_TYPE) {
    s = 0;
    auto *d = n->psdd_decision_node();
    for (size_t i = 0; i < d->primes().size(); ++i) s += count(d->primes()[i], c) * count(d->subs()[i], c);
  }
  return c[n] = s;
}
static void t_C06(Rng &r) {
  if (r.p(0.7)) {
    Env e(r, 1, 6);
    GenOpt o = opt(r); o.uncompressed = 0;
    PsddNode *n = gen_psdd(r, e.m, e.vt, o);
    ctx(n);
    Assign a(e.vs);
    unsigned long k = 0;
    for (size_t i = 0; i < a.count(); ++i) k += S(n, a.mask(), a.get(i));
    mpz_class got = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(n));
    CHECK(got == k, "model count %s, brute force %lu", got.get_str().c_str(), k);
  } else {
    Env e(r, 20, 300);
    // wide, deep structure: true node with a literal forced here and there
    int extra = 40;
    std::function<PsddNode *(Vtree *)> g = [&](Vtree *v) -> PsddNode * {
      if (leaf(v)) { int x = (int)sdd_vtree_var(v); return r.p(0.85) ? (PsddNode *)e.m->GetPsddTopNode(x, 0, dec(0.5), dec(0.5)) : (PsddNode *)e.m->GetPsddLiteralNode(r(2) ? x : -x, 0); }
      auto a = g(sdd_vtree_left(v)), b = g(sdd_vtree_right(v));
      std::vector<PsddNode *> ps{a}, ss{b};
      if (extra > 0 && r.p(0.2)) { --extra; ps.push_back(g(sdd_vtree_left(v))); ss.push_back(b); }
      if (ps.size() == 2 && ps[0] == ps[1]) { ps.pop_back(); ss.pop_back(); }
      return e.m->GetConformedPsddDecisionNode(ps, ss, std::vector<P>(ps.size(), dec(1.0 / ps.size())), 0);
    };
    PsddNode *n = g(e.vt);
    g_ctx = "large random structure";
    std::map<PsddNode *, mpz_class> c;
    mpz_class w = count(n, c), got = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(n));
    CHECK(got == w, "model count %s, recursive definition %s", got.get_str().c_str(), w.get_str().c_str());
  }
}
// ------------------------------------------------------------------ C07
static void t_C07(Rng &r) {
  Env e(r, 1, 7);
  PsddNode *n = gen_psdd(r, e.m, e.vt, opt(r, true, r.p(0.7)));
  ctx(n);
  Assign a(e.vs);
  LD best = 0;
  for (size_t i = 0; i < a.count(); ++i) best = std::max(best, W(n, a.mask(), a.get(i)));
  auto s = psdd_node_util::SerializePsddNodes(n);
  for (int q = 0; q < 2; ++q) {
    auto res = q ? psdd_node_util::GetMPESolution(n) : psdd_node_util::GetMPESolution(s);
    CHECK(close(val(res.second), best), "reported probability %.12Lg, maximum %.12Lg", val(res.second), best);
    LD w = W(n, a.mask(), res.first);
    CHECK(close(w, val(res.second)), "assignment {%s} has probability %.12Lg, reported %.12Lg", bits_str(res.first, e.vs).c_str(), w, val(res.second));
    CHECK((res.first & ~a.mask()).none(), "assignment sets variables the PSDD does not have");
  }
  clean({n}, "MPE query");
}
// ------------------------------------------------------------------ C08
static void t_C08(Rng &r) {
  Env e(r, 1, 6);
  PsddNode *n = gen_psdd(r, e.m, e.vt, opt(r));
  ctx(n);
  Assign a(e.vs);
  auto m = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(n));
  CHECK(m.size() == e.vs.size(), "marginals of %d variables, the PSDD has %d", (int)m.size(), (int)e.vs.size());
  for (int v : e.vs) {
    CHECK(m.count(v), "no marginal for variable %d", v);
    Bits mask, x; mask.set(v);
    LD f = W(n, mask, x); x.set(v);
    LD t = W(n, mask, x);
    CHECK(close(val(m[v].first), f) || std::fabs((double)(val(m[v].first) - f)) < 1e-9, "Pr(%d false) reported %.12Lg, is %.12Lg", v, val(m[v].first), f);
    CHECK(close(val(m[v].second), t) || std::fabs((double)(val(m[v].second) - t)) < 1e-9, "Pr(%d true) reported %.12Lg, is %.12Lg", v, val(m[v].second), t);
    CHECK(close(val(m[v].first) + val(m[v].second), 1), "marginals of %d do not sum to one", v);
  }
  clean({n}, "marginals query");
}
// ------------------------------------------------------------------ C09
static void check_product(PsddManager *m, PsddNode *a, PsddNode *b, const std::vector<int> &vs, const std::pair<PsddNode *, P> &res, const char *what) {
  Assign as(vs);
  bool any = false;
  for (size_t i = 0; i < as.count(); ++i) {
    Bits x = as.get(i);
    LD w = (a ? W(a, as.mask(), x) : 0) * (b ? W(b, as.mask(), x) : 0);
    if (w > 0) any = true;
    if (res.first) {
      LD g = val(res.second) * W(res.first, as.mask(), x);
      CHECK(close(g, w), "%s: product is %.12Lg, the result gives %.12Lg on {%s}", what, w, g, bits_str(x, vs).c_str());
    }
  }
  CHECK(any == (res.first != nullptr), "%s: product is %szero but %s node returned", what, any ? "non" : "", res.first ? "a" : "no");
  if (!res.first) CHECK(val(res.second) == 0, "%s: no node but constant %.9Lg", what, val(res.second));
}
static void t_C09(Rng &r) {
  Env e(r, 1, 5);
  GenOpt o = opt(r, true, r.p(0.7)), o2 = opt(r, true, r.p(0.7));
  if (r.p(0.15)) { o2.zero = 0; o2.ones = true; }
  o.sparse = o2.sparse = 0.5;
  bool mix = r.p(0.5);
  PsddNode *a = gen_psdd(r, e.m, e.vt, o), *b = r.p(0.1) ? a : gen_psdd(r, e.m, e.vt, o2, mix ? 1 : 0);
  ctx(a, "first"); ctx(b, "second");
  std::string ta = tree(a), tb = tree(b);
  auto res = e.m->Multiply(a, b, 2);
  check_product(e.m, a, b, e.vs, res, "multiply");
  if (res.first) {
    well_formed(res.first, e.vt, "product", true);
    CHECK(res.first->flag_index() == 2, "product carries another flag");
  }
  auto res2 = e.m->Multiply(b, a, 2);
  check_product(e.m, b, a, e.vs, res2, "multiply (swapped)");
  CHECK(tree(a) == ta && tree(b) == tb, "multiplication changed an operand");
  if (res.first && r.p(0.3)) {                 // product of a product
    PsddNode *c = gen_psdd(r, e.m, e.vt, o);
    ctx(c, "third");
    auto r3 = e.m->Multiply(res.first, c, 1);
    check_product(e.m, res.first, c, e.vs, r3, "repeated multiply");
    if (r3.first) well_formed(r3.first, e.vt, "repeated product", true);
  }
  auto rn = e.m->Multiply(nullptr, a, 1);
  CHECK(rn.first == nullptr && val(rn.second) == 0, "false times a PSDD is not false");
  rn = e.m->Multiply(a, nullptr, 1);
  CHECK(rn.first == nullptr && val(rn.second) == 0, "a PSDD times false is not false");
  clean({a, b}, "multiplication");
}
// ------------------------------------------------------------------ C10
static Vtree *relabel(Vtree *v, const std::map<int, int> &m) {
  if (leaf(v)) return new_leaf_vtree(m.at((int)sdd_vtree_var(v)));
  return new_internal_vtree(relabel(sdd_vtree_left(v), m), relabel(sdd_vtree_right(v), m));
}
static void check_no_vtree_data(Vtree *v, const char *what) {
  std::vector<Vtree *> ns; vtree_nodes(v, ns);
  for (auto n : ns) CHECK(sdd_vtree_data(n) == nullptr, "%s: leaves data on the vtree", what);
}
static void t_C10(Rng &r) {
  Env e(r, 1, 6);
  std::vector<Vtree *> vn; vtree_nodes(e.vt, vn);
  Vtree *sub = r.p(0.5) ? e.vt : vn[r(vn.size())];
  std::vector<int> sv = vars_of(sub), ids;
  for (size_t i = 0; i < sv.size(); ++i) ids.push_back((int)i + 1);
  if (r.p(0.5)) std::shuffle(ids.begin(), ids.end(), r.g);
  std::map<int, int> to, back;
  for (size_t i = 0; i < sv.size(); ++i) { to[sv[i]] = ids[i]; back[ids[i]] = sv[i]; }
  Vtree *st = relabel(sub, to);
  set_vtree_properties(st);
  SddManager *sm = sdd_manager_new(st);
  sdd_vtree_free(st);
  sdd_manager_auto_gc_and_minimize_off(sm);
  PsddManager *pm = e.m;
  PsddManager *own = nullptr;
  int way = r(4);
  if (sub != e.vt && way >= 2) way -= 2;
  if (way == 3) {
    std::unordered_map<uint32_t, uint32_t> mp(back.begin(), back.end());
    own = pm = PsddManager::GetPsddManagerFromSddVtree(sdd_manager_vtree(sm), mp);
    sub = pm->vtree();
    CHECK(vars_of(sub) == sv, "manager from SDD vtree has variables in another order");
    check_no_vtree_data(sdd_manager_vtree(sm), "building a manager");
  }
  SddNode *f = rand_sdd(r, sm, (int)sv.size());
  g_ctx += " sub-vtree " + vtree_str(sub) + " way " + std::to_string(way) + " models:";
  Assign a(sv);
  std::vector<bool> model;
  for (size_t i = 0; i < a.count(); ++i) {
    Bits x = a.get(i);
    model.push_back(sdd_eval(f, [&](int v) { return x[back[v]]; }));
    if (model.back()) g_ctx += " {" + bits_str(x, a.vs) + "}";
  }
  PsddNode *n;
  if (way == 0) n = pm->FromSdd(f, sdd_manager_vtree(sm), 3, sub);
  else if (way == 1) n = pm->FromSdd(f, sdd_manager_vtree(sm), 3, std::unordered_set<SddLiteral>(sv.begin(), sv.end()));
  else n = pm->ConvertSddToPsdd(f, sdd_manager_vtree(sm), 3);
  bool anym = std::find(model.begin(), model.end(), true) != model.end();
  CHECK(anym == (n != nullptr), "SDD is %ssatisfiable but %s node returned", anym ? "" : "un", n ? "a" : "no");
  if (n) {
    well_formed(n, sub, "compiled SDD");
    for (PsddNode *c : reach({n}))
      if (c->node_type() == DECISION_NODE_TYPE)
        CHECK(c->psdd_decision_node()->parameters().size() == c->psdd_decision_node()->primes().size(), "decision node with %d elements carries %d parameters", (int)c->psdd_decision_node()->primes().size(), (int)c->psdd_decision_node()->parameters().size());
    for (size_t i = 0; i < a.count(); ++i) {
      LD w = W(n, a.mask(), a.get(i));
      CHECK(close(w, model[i] ? 1 : 0) || (w == 0 && !model[i]), "weight %.9Lg on %s {%s}", w, model[i] ? "model" : "non-model", bits_str(a.get(i), sv).c_str());
      CHECK(S(n, a.mask(), a.get(i)) == model[i], "support differs from the models on {%s}", bits_str(a.get(i), sv).c_str());
    }
    for (PsddNode *c : reach({n})) CHECK(c->flag_index() == 3, "compiled node carries another flag");
    clean({n}, "compilation");
    PsddNode *again = way == 0 ? pm->FromSdd(f, sdd_manager_vtree(sm), 3, sub) : n;
    CHECK(again == n, "compiling the same SDD twice gives two nodes");
  }
  check_no_vtree_data(sdd_manager_vtree(sm), "compilation");
  check_no_vtree_data(pm->vtree(), "compilation");
  PsddNode *t = pm->GetTrueNode(sub, 3);
  well_formed(t, sub, "true node");
  for (size_t i = 0; i < a.count(); ++i) CHECK(close(W(t, a.mask(), a.get(i)), 1), "true node has weight %.9Lg", W(t, a.mask(), a.get(i)));
  if (own) delete own;
  sdd_manager_free(sm);
}
// ------------------------------------------------------------------ C11
static void t_C11(Rng &r) {
  Env e(r, 1, 6);
  std::vector<Vtree *> vn; vtree_nodes(e.vt, vn);
  GenOpt o = opt(r, true, r.p(0.6));
  Assign a(e.vs);
  int what = r(3);
  auto same = [&](PsddNode *n, const std::function<LD(const Bits &)> &w, Vtree *at, const char *nm) {
    well_formed(n, at, nm);
    Assign b(vars_of(at));
    for (size_t i = 0; i < b.count(); ++i) {
      Bits x = b.get(i);
      LD g = W(n, b.mask(), x), q = w(x);
      CHECK(close(g, q) || (g == 0 && q == 0), "%s: weight %.12Lg, source %.12Lg on {%s}", nm, g, q, bits_str(x, b.vs).c_str());
      CHECK((g > 0) == (q > 0), "%s: zero weight on one side only", nm);
    }
  };
  if (what == 0) {                                           // lift
    Vtree *v = vn[r(vn.size())], *t = v;
    while (sdd_vtree_parent(t) && r.p(0.7)) t = sdd_vtree_parent(t);
    PsddNode *n = gen_psdd(r, e.m, v, o, 1);
    ctx(n);
    g_ctx += " lifted to " + vtree_str(t);
    PsddNode *g = e.m->NormalizePsddNode(t, n, 1);
    if (t == v) CHECK(g == n, "lifting to its own position changed the node");
    same(g, [&](const Bits &x) { return W(n, a.mask(), x); }, t, "lifted node");
    // support is that of the source
    Assign b(vars_of(t));
    for (size_t i = 0; i < b.count(); ++i) CHECK(S(g, b.mask(), b.get(i)) == S(n, b.mask(), b.get(i)), "lifting changed the support");
  } else if (what == 1) {                                    // conform
    std::vector<Vtree *> in;
    for (auto v : vn) if (!leaf(v)) in.push_back(v);
    if (in.empty()) return;
    Vtree *t = in[r(in.size())];
    auto below = [&](Vtree *v) { while (!leaf(v) && r.p(0.45)) v = r(2) ? sdd_vtree_left(v) : sdd_vtree_right(v); return v; };
    std::vector<PsddNode *> ps, ss;
    std::vector<P> pp;
    int k = r.in(1, 3);
    for (int i = 0; i < k; ++i) {
      ps.push_back(gen_psdd(r, e.m, below(sdd_vtree_left(t)), o));
      ss.push_back(gen_psdd(r, e.m, below(sdd_vtree_right(t)), o));
      pp.push_back(dec(r.p(0.1) ? 0 : r.real()));
      ctx(ps.back(), "prime"); ctx(ss.back(), "sub");
      g_ctx += " parameter " + std::to_string((double)val(pp.back()));
    }
    PsddNode *g = e.m->GetConformedPsddDecisionNode(ps, ss, pp, 5);
    g_ctx += " at " + vtree_str(t);
    CHECK(g && g->vtree_node() == t, "conformed node at the wrong position");
    CHECK(g->flag_index() == 5, "conformed node carries another flag");
    CHECK(g->psdd_decision_node()->primes().size() == ps.size(), "conformed node has another number of elements");
    same(g, [&](const Bits &x) { LD s = 0; for (int i = 0; i < k; ++i) s += val(pp[i]) * W(ps[i], a.mask(), x) * W(ss[i], a.mask(), x); return s; }, t, "conformed node");
  } else {                                                   // load from another manager
    Vtree *v = vn[r(vn.size())], *up = v;
    PsddNode *n = gen_psdd(r, e.m, v, o);
    ctx(n);
    PsddManager *m2 = PsddManager::GetPsddManagerFromVtree(e.vt);
    std::vector<Vtree *> vn2; vtree_nodes(m2->vtree(), vn2);
    while (sdd_vtree_parent(up) && r.p(0.5)) up = sdd_vtree_parent(up);
    Vtree *t = nullptr;
    for (auto w : vn2) if (sdd_vtree_position(w) == sdd_vtree_position(up)) t = w;
    std::string before = tree(n);
    if (r.p(0.5)) gen_psdd(r, m2, m2->vtree(), o);
    PsddNode *g = m2->LoadPsddNode(t, n, 7);
    g_ctx += " loaded at " + vtree_str(t);
    same(g, [&](const Bits &x) { return W(n, a.mask(), x); }, t, "loaded node");
    CHECK(tree(n) == before, "loading changed the source");
    for (auto c : reach({g})) CHECK(c->flag_index() == 7, "loaded node carries another flag");
    std::vector<Vtree *> at = vn2;
    for (auto c : reach({g})) CHECK(std::find(at.begin(), at.end(), c->vtree_node()) != at.end(), "loaded node refers to a vtree of the other manager");
    CHECK(m2->LoadPsddNode(t, n, 7) == g, "loading twice gives two nodes");
    clean({n}, "loading");
    clean({g}, "loading (result)");
    delete m2;
  }
}
// ------------------------------------------------------------------ C12
static void t_C12(Rng &r) {
  Env e(r, 1, 5);
  GenOpt o = opt(r);
  PsddNode *n = gen_psdd(r, e.m, e.vt, o);
  ctx(n);
  size_t N = r.p(0.1) ? 0 : r.in(1, 12);
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  Assign a(e.vs);
  std::vector<Bits> rec;
  std::vector<Bits> supp;
  for (size_t i = 0; i < a.count(); ++i) if (S(n, a.mask(), a.get(i))) supp.push_back(a.get(i));
  g_ctx += " examples";
  bool noise = r.p(0.3);
  for (size_t i = 0; i < N; ++i) { rec.push_back(noise && r.p(0.5) ? a.get(r(a.count())) : supp[r(supp.size())]); g_ctx += " {" + bits_str(rec.back(), e.vs) + "}"; }
  for (int v : e.vs) { BatchedPsddValue b; for (auto &x : rec) b.push_back(x[v]); ex[v] = b; }
  // reference: contexts top down
  std::map<PsddNode *, std::vector<char>> cx;
  auto s = psdd_node_util::SerializePsddNodes(n);
  std::vector<PsddNode *> order;
  {
    std::set<PsddNode *> done;
    order.clear();
    std::function<void(PsddNode *)> post = [&](PsddNode *c) {
      if (!done.insert(c).second) return;
      if (c->node_type() == DECISION_NODE_TYPE) { for (auto q : c->psdd_decision_node()->primes()) post(q); for (auto q : c->psdd_decision_node()->subs()) post(q); }
      order.push_back(c);
    };
    post(n);
    std::reverse(order.begin(), order.end());
  }
  for (auto c : order) cx[c].assign(N, 0);
  cx[n].assign(N, 1);
  std::map<PsddNode *, std::vector<double>> cnt;
  for (auto c : order) {
    if (c->node_type() == TOP_NODE_TYPE) {
      cnt[c] = {0, 0};
      for (size_t j = 0; j < N; ++j) if (cx[c][j]) cnt[c][rec[j][c->psdd_top_node()->variable_index()] ? 0 : 1] += 1;
    } else if (c->node_type() == DECISION_NODE_TYPE) {
      auto *d = c->psdd_decision_node();
      cnt[c].assign(d->primes().size(), 0);
      for (size_t i = 0; i < d->primes().size(); ++i)
        for (size_t j = 0; j < N; ++j)
          if (cx[c][j] && S(d->primes()[i], a.mask(), rec[j]) && S(d->subs()[i], a.mask(), rec[j])) { cnt[c][i] += 1; cx[d->primes()[i]][j] = 1; cx[d->subs()[i]][j] = 1; }
    }
  }
  double alpha = r.p(0.4) ? 1 : r.p(0.5) ? 0.01 + r.real() * 3 : 0;
  if (alpha == 0) for (auto &kv : cnt) { double t = 0; for (double q : kv.second) t += q; if (t == 0) alpha = 0.5; }
  g_ctx += " alpha " + std::to_string(alpha);
  std::string before = tree(n);
  PsddNode *first = nullptr;
  for (int rep = 0; rep < 2; ++rep) {
    PsddNode *g = e.m->LearnPsddParameters(n, ex, N, dec(alpha), 4);
    CHECK(g, "no node returned");
    CHECK(tree(n) == before, "learning changed the source structure");
    clean({n}, "learning");
    if (rep) CHECK(g == first, "learning the same data again gives another answer: %s then %s", dump(first).c_str(), dump(g).c_str());
    first = g;
    std::function<void(PsddNode *, PsddNode *)> cmp = [&](PsddNode *x, PsddNode *y) {
      CHECK(x->node_type() == y->node_type() && x->vtree_node() == y->vtree_node(), "learned structure differs");
      CHECK(y->flag_index() == 4, "learned node carries another flag");
      if (x->node_type() == LITERAL_NODE_TYPE) { CHECK(x->psdd_literal_node()->literal() == y->psdd_literal_node()->literal(), "learned literal differs"); return; }
      double tot = 0;
      for (double q : cnt[x]) tot += q + alpha;
      auto ok = [&](LD got, double c) { LD w = (c + alpha) / tot; return close(got, w) || (w == 0 && got == 0); };
      if (x->node_type() == TOP_NODE_TYPE) {
        CHECK(x->psdd_top_node()->variable_index() == y->psdd_top_node()->variable_index(), "learned true node differs");
        CHECK(ok(val(y->psdd_top_node()->true_parameter()), cnt[x][0]), "true parameter %.9Lg, counts %g/%g", val(y->psdd_top_node()->true_parameter()), cnt[x][0], cnt[x][1]);
        CHECK(ok(val(y->psdd_top_node()->false_parameter()), cnt[x][1]), "false parameter %.9Lg, counts %g/%g", val(y->psdd_top_node()->false_parameter()), cnt[x][0], cnt[x][1]);
        return;
      }
      auto *d = x->psdd_decision_node(), *h = y->psdd_decision_node();
      auto to = match_elements(d, h, "learning");
      for (size_t i = 0; i < d->primes().size(); ++i) {
        size_t k = to[i];
        CHECK(ok(val(h->parameters()[k]), cnt[x][i]), "parameter %d is %.9Lg, count %g of smoothed total %g", (int)i, val(h->parameters()[k]), cnt[x][i], tot);
        cmp(d->primes()[i], h->primes()[k]);
        cmp(d->subs()[i], h->subs()[k]);
      }
    };
    cmp(n, g);
    if (r.p(0.5)) psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(n));
  }
}
// ------------------------------------------------------------------ C13
struct Scripted : RandomDoubleFromUniformGenerator {
  std::vector<double> draws;
  size_t i = 0;
  Scripted(double lo, double hi) : RandomDoubleFromUniformGenerator(lo, hi, 1) {}
  double generate() override { if (i < draws.size()) return min() + (max() - min()) * draws[i++]; return RandomDoubleFromUniformGenerator::generate(); }
};
struct AnyGen : RandomDoubleGenerator {
  Rng &r;
  explicit AnyGen(Rng &r) : r(r) {}
  double generate() override { return r.p(0.05) ? 1e-6 : r.real() * 5 + 1e-4; }
};
static void t_C13(Rng &r) {
  Env e(r, 1, 5);
  GenOpt o = opt(r);
  if (r.p(0.5)) {
    std::vector<PsddNode *> roots;
    int k = r.in(1, 3);
    for (int i = 0; i < k; ++i) { roots.push_back(gen_psdd(r, e.m, e.vt, o)); ctx(roots.back(), "root"); }
    if (r.p(0.4)) { auto w = reach({roots[0]}); auto it = w.begin(); std::advance(it, r(w.size())); roots.insert(roots.begin() + r(roots.size() + 1), *it); ctx(*it, "also"); }
    AnyGen g(r);
    std::vector<PsddNode *> res;
    std::string before;
    for (auto n : roots) before += tree(n);
    if (roots.size() == 1 && r.p(0.5)) res.push_back(e.m->SampleParameters(&g, roots[0], 6));
    else res = e.m->SampleParametersForMultiplePsdds(&g, roots, 6);
    CHECK(res.size() == roots.size(), "%d results for %d roots", (int)res.size(), (int)roots.size());
    std::string after;
    for (auto n : roots) after += tree(n);
    CHECK(before == after, "sampling parameters changed the source");
    std::map<PsddNode *, PsddNode *> img;
    std::function<void(PsddNode *, PsddNode *)> cmp = [&](PsddNode *x, PsddNode *y) {
      CHECK(y && x->node_type() == y->node_type() && x->vtree_node() == y->vtree_node(), "sampled structure differs");
      CHECK(y->flag_index() == 6, "sampled node carries another flag");
      if (img.count(x)) { CHECK(img[x] == y, "a shared node became two nodes"); return; }
      img[x] = y;
      if (x->node_type() == LITERAL_NODE_TYPE) CHECK(x->psdd_literal_node()->literal() == y->psdd_literal_node()->literal(), "sampled literal differs");
      else if (x->node_type() == DECISION_NODE_TYPE) {
        auto *d = x->psdd_decision_node(), *h = y->psdd_decision_node();
        auto to = match_elements(d, h, "sampling parameters");
        for (size_t i = 0; i < d->primes().size(); ++i) { cmp(d->primes()[i], h->primes()[to[i]]); cmp(d->subs()[i], h->subs()[to[i]]); }
      } else CHECK(x->psdd_top_node()->variable_index() == y->psdd_top_node()->variable_index(), "sampled true node differs");
    };
    for (size_t i = 0; i < roots.size(); ++i) { cmp(roots[i], res[i]); well_formed(res[i], roots[i]->vtree_node(), "sampled parameters", true); }
    clean(roots, "sampling parameters");
    return;
  }
  PsddNode *n = gen_psdd(r, e.m, e.vt, o);
  ctx(n);
  Assign a(e.vs);
  for (int t = 0; t < 20; ++t) {
    double lo = r.p(0.5) ? 0 : r.real() * 3 - 2, hi = lo + (r.p(0.5) ? 1 : 0.5 + r.real());
    Scripted g(lo, hi);
    bool nearb = false;
    for (int i = 0; i < 60; ++i) g.draws.push_back(r.p(0.05) ? 0 : r.p(0.05) ? std::nextafter(1.0, 0.0) : r.p(0.03) ? 1 - 1e-9 : r.p(0.2) ? r(8) / 8.0 : r.real());
    Bits b;
    n->DirectSample(&b, &g);
    LD w = W(n, a.mask(), b);
    std::string dr;
    for (size_t i = 0; i < g.i; ++i) { char q[40]; snprintf(q, sizeof q, " %.17g", g.draws[i]); dr += q; }
    CHECK((b & ~a.mask()).none(), "sample sets variables the PSDD does not have");
    CHECK(w > 0, "sample {%s} has probability zero; draws%s", bits_str(b, e.vs).c_str(), dr.c_str());
    // oracle: follow the draws
    size_t i = 0;
    Bits want;
    std::function<void(PsddNode *)> go = [&](PsddNode *c) {
      if (nearb) return;
      if (c->node_type() == LITERAL_NODE_TYPE) { int l = c->psdd_literal_node()->literal(); if (l > 0) want.set(l); return; }
      if (i >= g.draws.size()) { nearb = true; return; }
      LD u = g.draws[i++];
      auto clear = [&](LD x) { if (std::fabs((double)(u - x)) < 1e-5 * (LD)(u + x) + 1e-12) nearb = true; };
      if (c->node_type() == TOP_NODE_TYPE) { LD p = val(c->psdd_top_node()->true_parameter()); if (p > 0) clear(p); if (u < p) want.set(c->psdd_top_node()->variable_index()); return; }
      auto *d = c->psdd_decision_node();
      LD acc = 0;
      for (size_t k = 0; k < d->primes().size(); ++k) {
        LD p = val(d->parameters()[k]);
        acc += p;
        if (p > 0) clear(acc);
        if (u < acc) { go(d->primes()[k]); go(d->subs()[k]); return; }
      }
      nearb = true;
    };
    go(n);
    if (!nearb) {
      CHECK(want == b, "draws%s select {%s}, sampled {%s}", dr.c_str(), bits_str(want, e.vs).c_str(), bits_str(b, e.vs).c_str());
      CHECK(i == g.i, "sampling used %d draws, %d decide", (int)g.i, (int)i);
    }
  }
  clean({n}, "sampling");
}
// ------------------------------------------------------------------ C14
static void check_psdd_file(const std::string &f, PsddNode *n) {
  std::ifstream in(f);
  std::string line;
  long declared = -1;
  std::map<long, char> seen;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == 'c') continue;
    std::stringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "psdd") { ss >> declared; continue; }
    long id, v;
    CHECK((bool)(ss >> id >> v), "file line cannot be parsed: %s", line.c_str());
    CHECK(!seen.count(id), "file uses identifier %ld twice", id);
    if (k == "D") {
      long q;
      ss >> q;
      CHECK(q >= 1, "file has a decision node without elements");
      for (long i = 0; i < q; ++i) {
        long p, s; std::string w;
        CHECK((bool)(ss >> p >> s >> w), "file line cannot be parsed: %s", line.c_str());
        CHECK(seen.count(p) && seen.count(s), "file lists a node before its children: %s", line.c_str());
      }
    } else CHECK(k == "L" || k == "T", "file line cannot be parsed: %s", line.c_str());
    seen[id] = k[0];
  }
  CHECK(declared == (long)seen.size() && seen.size() == reach({n}).size(), "file declares %ld nodes, lists %d, the PSDD has %d", declared, (int)seen.size(), (int)reach({n}).size());
}
static void t_C14(Rng &r) {
  Env e(r, 1, 6);
  GenOpt o = opt(r, true, r.p(0.8));
  if (r.p(0.2)) o.tiny = 0.1;
  PsddNode *n = gen_psdd(r, e.m, e.vt, o);
  ctx(n);
  std::string f = tmpfile_path(".psdd");
  std::string before = tree(n);
  psdd_node_util::WritePsddToFile(n, f.c_str());
  CHECK(before == tree(n), "writing changed the PSDD");
  clean({n}, "writing");
  check_psdd_file(f, n);
  PsddManager *m2 = r.p(0.3) ? e.m : PsddManager::GetPsddManagerFromVtree(e.vt);
  if (m2 != e.m && r.p(0.4)) gen_psdd(r, m2, m2->vtree(), opt(r));
  PsddNode *g = m2->ReadPsddFile(f.c_str(), 9);
  CHECK(g, "no node read back");
  std::function<void(PsddNode *, PsddNode *)> cmp = [&](PsddNode *x, PsddNode *y) {
    CHECK(x->node_type() == y->node_type() && sdd_vtree_position(x->vtree_node()) == sdd_vtree_position(y->vtree_node()), "structure read back differs");
    auto near = [](LD p, LD q) { return (p == 0) == (q == 0) && close(p, q, 1e-5L); };
    if (x->node_type() == LITERAL_NODE_TYPE) CHECK(x->psdd_literal_node()->literal() == y->psdd_literal_node()->literal(), "literal read back differs");
    else if (x->node_type() == TOP_NODE_TYPE) {
      auto *s = x->psdd_top_node(), *t = y->psdd_top_node();
      CHECK(s->variable_index() == t->variable_index(), "true node read back for another variable");
      CHECK(near(val(s->true_parameter()), val(t->true_parameter())) && near(val(s->false_parameter()), val(t->false_parameter())), "true node parameters (%.9Lg,%.9Lg) read back as (%.9Lg,%.9Lg)", val(s->true_parameter()), val(s->false_parameter()), val(t->true_parameter()), val(t->false_parameter()));
    } else {
      auto *d = x->psdd_decision_node(), *h = y->psdd_decision_node();
      auto to = match_elements(d, h, "reading back");
      for (size_t i = 0; i < d->primes().size(); ++i) {
        size_t k = to[i];
        CHECK(near(val(d->parameters()[i]), val(h->parameters()[k])), "parameter %.9Lg read back as %.9Lg", val(d->parameters()[i]), val(h->parameters()[k]));
        cmp(d->primes()[i], h->primes()[k]);
        cmp(d->subs()[i], h->subs()[k]);
      }
    }
  };
  cmp(n, g);
  for (auto c : reach({g})) CHECK(c->flag_index() == 9, "node read back carries another flag");
  well_formed(g, m2->vtree(), "PSDD read back");
  Assign a(e.vs);
  for (size_t i = 0; i < a.count(); ++i) CHECK(close(W(n, a.mask(), a.get(i)), W(g, a.mask(), a.get(i)), 1e-4L), "probability changed on {%s}", bits_str(a.get(i), e.vs).c_str());
  if (m2 != e.m) delete m2;
}
// ------------------------------------------------------------------ C15
static void t_C15(Rng &r) {
  Env e(r, 1, 5);
  std::vector<std::vector<SddLiteral>> cl;
  std::string text;
  auto noise = [&] {
    while (r.p(0.3)) {
      int k = r(4);
      if (k == 0) text += "c a comment 1 2 0\n";
      else if (k == 1) text += "\n";
      else if (k == 2) text += "c\n";
      else text += r.p(0.5) ? "   \n" : "\r\n";
    }
  };
  noise();
  if (r.p(0.7)) text += "p cnf " + std::to_string(e.vs.size()) + " 3\n";
  int nc = r(5);
  for (int i = 0; i < nc; ++i) {
    noise();
    std::vector<SddLiteral> c;
    int w = r.p(0.05) ? 0 : r.in(1, 3);
    std::string l;
    for (int j = 0; j < w; ++j) { int x = e.vs[r(e.vs.size())]; c.push_back(r(2) ? x : -x); l += std::to_string(c.back()) + (r.p(0.1) ? "  " : " "); }
    if (w == 0 || r.p(0.7)) l += "0"; else if (r.p(0.5)) l.pop_back();
    text += l + (i + 1 == nc && r.p(0.3) ? "" : "\n");
    cl.push_back(c);
  }
  if (!text.empty() && text.back() == '\n') noise();
  std::string q;
  for (char c : text) q += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : std::string(1, c);
  g_ctx += " cnf \"" + q + "\"";
  std::string f = tmpfile_path(".cnf");
  std::ofstream(f) << text;
  CNF fromfile(f.c_str()), direct(cl);
  CHECK(direct.clauses() == cl, "clauses given are not kept");
  CHECK(fromfile.clauses() == cl, "file read as %d clauses, it has %d (or they differ)", (int)fromfile.clauses().size(), (int)cl.size());
  PsddNode *n = (r(2) ? fromfile : direct).Compile(e.m, 8);
  Assign a(e.vs);
  bool any = false;
  for (size_t i = 0; i < a.count(); ++i) {
    Bits x = a.get(i);
    bool sat = true;
    for (auto &c : cl) { bool h = false; for (auto l : c) if (x[std::abs(l)] == (l > 0)) h = true; sat = sat && h; }
    any = any || sat;
    if (n) {
      LD w = W(n, a.mask(), x);
      CHECK(sat ? close(w, 1) : w == 0, "weight %.9Lg on %s assignment {%s}", w, sat ? "satisfying" : "falsifying", bits_str(x, e.vs).c_str());
    }
  }
  CHECK(any == (n != nullptr), "CNF is %ssatisfiable but %s node returned", any ? "" : "un", n ? "a" : "no");
  if (n) { well_formed(n, e.vt, "compiled CNF"); for (auto c : reach({n})) CHECK(c->flag_index() == 8, "compiled node carries another flag"); clean({n}, "CNF compilation"); }
  check_no_vtree_data(e.vt, "CNF compilation");
}
// ------------------------------------------------------------------ C16
static void t_C16(Rng &r) {
  Env e(r, 1, 6);
  GenOpt o = opt(r, true, r.p(0.7)); o.sparse = 0.5;
  PsddNode *n = gen_psdd(r, e.m, e.vt, o);
  ctx(n);
  std::map<int, int> to;
  std::vector<int> ids;
  for (size_t i = 0; i < e.vs.size(); ++i) ids.push_back((int)i + 1);
  std::shuffle(ids.begin(), ids.end(), r.g);
  for (size_t i = 0; i < e.vs.size(); ++i) to[e.vs[i]] = ids[i];
  Vtree *st = r.p(0.6) ? relabel(e.vt, to) : rand_vtree(r, ids);
  set_vtree_properties(st);
  SddManager *sm = sdd_manager_new(st);
  sdd_vtree_free(st);
  sdd_manager_auto_gc_and_minimize_off(sm);
  std::unordered_map<SddLiteral, SddLiteral> mp(to.begin(), to.end());
  SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(n), mp, sm);
  Assign a(e.vs);
  std::map<int, int> back;
  for (auto &kv : to) back[kv.second] = kv.first;
  for (size_t i = 0; i < a.count(); ++i) {
    Bits x = a.get(i);
    bool g = sdd_eval(f, [&](int v) { return x[back[v]]; });
    CHECK(g == S(n, a.mask(), x), "SDD is %d on {%s}, the support %d", g, bits_str(x, e.vs).c_str(), !g);
  }
  clean({n}, "conversion to SDD");
  sdd_manager_free(sm);
}
// ------------------------------------------------------------------ C17
static bool same_shape(Vtree *a, Vtree *b, const std::function<int(int)> &f) {
  if (leaf(a) != leaf(b)) return false;
  if (leaf(a)) return f((int)sdd_vtree_var(a)) == (int)sdd_vtree_var(b);
  return same_shape(sdd_vtree_left(a), sdd_vtree_left(b), f) && same_shape(sdd_vtree_right(a), sdd_vtree_right(b), f);
}
static std::string proj(Vtree *v, const std::set<int> &keep) {
  if (leaf(v)) return keep.count((int)sdd_vtree_var(v)) ? std::to_string(sdd_vtree_var(v)) : "";
  std::string a = proj(sdd_vtree_left(v), keep), b = proj(sdd_vtree_right(v), keep);
  if (a.empty()) return b;
  if (b.empty()) return a;
  return "(" + a + " " + b + ")";
}
static void check_links(Vtree *v, const char *what) {
  CHECK(sdd_vtree_parent(v) == nullptr, "%s: root has a parent", what);
  std::vector<Vtree *> ns; vtree_nodes(v, ns);
  long k = 0;
  std::function<void(Vtree *)> in = [&](Vtree *x) {
    if (!leaf(x)) { CHECK(sdd_vtree_parent(sdd_vtree_left(x)) == x && sdd_vtree_parent(sdd_vtree_right(x)) == x, "%s: parent links are wrong", what); in(sdd_vtree_left(x)); }
    CHECK(sdd_vtree_position(x) == k, "%s: position %ld where %ld expected", what, (long)sdd_vtree_position(x), k);
    ++k;
    if (!leaf(x)) in(sdd_vtree_right(x));
  };
  in(v);
}
static void t_C17(Rng &r) {
  std::vector<int> vs = rand_vars(r, r.in(1, 9), r.p(0.5));
  Vtree *v = rand_vtree(r, vs);
  std::string orig = vtree_str(v);
  g_ctx = "vtree " + orig;
  auto unmarked = [&](const char *w) { check_no_vtree_data(v, w); CHECK(vtree_str(v) == orig, "%s changed the vtree", w); check_links(v, w); };
  auto s = vtree_util::SerializeVtree(v);
  std::vector<Vtree *> all; vtree_nodes(v, all);
  std::set<Vtree *> as(all.begin(), all.end()), ss(s.begin(), s.end());
  CHECK(s.size() == all.size() && as == ss && s[0] == v, "vtree serialisation lists %d of %d nodes", (int)s.size(), (int)all.size());
  std::map<Vtree *, size_t> pos;
  for (size_t i = 0; i < s.size(); ++i) pos[s[i]] = i;
  for (auto x : all) if (!leaf(x)) CHECK(pos[sdd_vtree_left(x)] > pos[x] && pos[sdd_vtree_right(x)] > pos[x], "vtree child listed before its parent");
  unmarked("serialisation");
  Vtree *c = vtree_util::CopyVtree(v);
  CHECK(c != v && same_shape(v, c, [](int x) { return x; }), "copy is %s", vtree_str(c).c_str());
  check_links(c, "copy"); check_no_vtree_data(c, "copy");
  sdd_vtree_free(c);
  unmarked("copying");
  std::unordered_map<SddLiteral, SddLiteral> mp;
  std::vector<int> img = rand_vars(r, (int)vs.size(), false);
  std::shuffle(img.begin(), img.end(), r.g);
  for (size_t i = 0; i < vs.size(); ++i) mp[vs[i]] = img[i];
  c = vtree_util::CopyVtree(v, mp);
  CHECK(same_shape(v, c, [&](int x) { return (int)mp[x]; }), "renamed copy is %s", vtree_str(c).c_str());
  check_links(c, "renamed copy"); check_no_vtree_data(c, "renamed copy");
  sdd_vtree_free(c);
  unmarked("renaming");
  std::set<int> keep;
  for (int x : vs) if (r.p(0.5)) keep.insert(x);
  if (keep.empty()) keep.insert(vs[r(vs.size())]);
  std::vector<SddLiteral> kv(keep.begin(), keep.end());
  std::shuffle(kv.begin(), kv.end(), r.g);
  g_ctx += " variables";
  for (auto x : kv) g_ctx += " " + std::to_string(x);
  c = vtree_util::ProjectVtree(v, kv);
  CHECK(c && vtree_str(c) == proj(v, keep), "projection is %s, expected %s", vtree_str(c).c_str(), proj(v, keep).c_str());
  check_links(c, "projection"); check_no_vtree_data(c, "projection");
  sdd_vtree_free(c);
  unmarked("projection");
  auto find = [&](const std::set<int> &q) -> Vtree * { for (auto x : all) { auto l = vars_of(x); if (std::set<int>(l.begin(), l.end()) == q) return x; } return nullptr; };
  for (int t = 0; t < 6; ++t) {
    std::set<int> q;
    if (t == 0) q = keep;
    else { auto l = vars_of(all[r(all.size())]); q.insert(l.begin(), l.end()); if (r.p(0.3)) { if (r.p(0.5) && q.size() > 1) q.erase(q.begin()); else q.insert(vs[r(vs.size())]); } }
    Vtree *w = find(q), *g = vtree_util::SubVtreeByVariables(v, std::unordered_set<SddLiteral>(q.begin(), q.end()));
    std::string qs;
    for (int x : q) qs += " " + std::to_string(x);
    CHECK(w == g, "sub-vtree for variables%s is %s", qs.c_str(), g ? vtree_str(g).c_str() : "none");
    unmarked("sub-vtree query");
  }
  auto l1 = vtree_util::VariablesUnderVtree(v);
  std::multiset<int> m1(l1.begin(), l1.end()), mv(vs.begin(), vs.end());
  CHECK(m1 == mv, "variable listing does not list each variable once");
  auto l2 = vtree_util::LeftToRightLeafTraverse(v);
  auto want = vars_of(v);
  CHECK(std::vector<int>(l2.begin(), l2.end()) == want, "left-to-right listing is out of order");
  unmarked("leaf listing");
  sdd_vtree_free(v);
}
// ------------------------------------------------------------------ C19
typedef std::map<std::string, uintmax_t> Table;
static Table table(const BinaryData &d, uint32_t n) {
  Table t;
  for (auto &kv : d.data()) { std::string s; for (uint32_t i = 1; i <= n; ++i) s += kv.first[i] ? '1' : '0'; Bits rest = kv.first; for (uint32_t i = 1; i <= n; ++i) rest.reset(i); if (rest.any()) s += "+"; CHECK(!t.count(s), "record table lists a record twice"); t[s] = kv.second; }
  return t;
}
static Bits rec_of(const std::string &s) { Bits b; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '1') b.set(i + 1); return b; }
static void t_C19(Rng &r) {
  uint32_t n = r.in(1, 6);
  BinaryData *d;
  {
    // storage with old contents: a fresh dataset must not show it
    static void *store = malloc(sizeof(BinaryData));
    memset(store, r.p(0.5) ? 0xA5 : 0x00, sizeof(BinaryData));
    d = new (store) BinaryData;
  }
  g_ctx = "fresh dataset";
  CHECK(d->data_size() == 0 && d->data().empty(), "a fresh dataset has size %llu", (unsigned long long)d->data_size());
  CHECK(d->variable_size() == 0, "a fresh dataset has %u variables", d->variable_size());
  Table want;
  d->set_variable_size(n);
  CHECK(d->variable_size() == n, "variable size not kept");
  uintmax_t total = 0;
  auto some = [&] { std::string s; for (uint32_t i = 0; i < n; ++i) s += r.p(0.4) ? '1' : '0'; return s; };
  auto check = [&](const BinaryData &b, const Table &t, const char *what) {
    uintmax_t z = 0;
    for (auto &kv : t) z += kv.second;
    CHECK(table(b, n) == t, "%s: record table differs", what);
    CHECK(b.data_size() == z, "%s: size %llu, %llu records", what, (unsigned long long)b.data_size(), (unsigned long long)z);
  };
  int k = r(25);
  g_ctx = "records";
  for (int i = 0; i < k; ++i) { std::string s = some(); g_ctx += " " + s; d->AddRecord(rec_of(s)); want[s]++; ++total; if (r.p(0.2)) check(*d, want, "adding records"); }
  check(*d, want, "adding records");
  std::string f = tmpfile_path(".csv");
  d->WriteFile(f.c_str());
  check(*d, want, "writing");
  {
    BinaryData e;
    if (r.p(0.5)) { int q = r.in(1, 4); e.set_variable_size(r.in(1, 8)); for (int i = 0; i < q; ++i) e.AddRecord(rec_of(some())); }
    e.ReadFile(f.c_str());
    check(e, want, "reading a written file");
    if (k) CHECK(e.variable_size() == n, "reading a written file: %u variables", e.variable_size());
    e.ReadFile(f.c_str());
    check(e, want, "reading a file again");
    std::string s = some();
    e.AddRecord(rec_of(s));
    Table w2 = want; w2[s]++;
    check(e, w2, "adding to a dataset read");
  }
  {
    std::string g = tmpfile_path(".json");
    std::ofstream o(g);
    Table jw;
    o << "{\"variable_size\": " << n << ", \"data\": [";
    int q = r(10);
    for (int i = 0; i < q; ++i) {
      std::string s = some();
      bool bad = r.p(0.1);
      o << (i ? ", " : "") << "[";
      bool first = true;
      for (uint32_t j = 0; j < n; ++j) if (s[j] == '1') { o << (first ? "" : ",") << j + 1; first = false; }
      if (bad) o << (first ? "" : ",") << n + 1 + r(5);
      o << "]";
      if (!bad) jw[s]++;
    }
    o << "]}";
    o.close();
    BinaryData *j = BinaryData::ReadSparseDataJsonFile(g.c_str());
    CHECK(j, "sparse file not read");
    check(*j, jw, "reading a sparse file");
    CHECK(j->variable_size() == n, "reading a sparse file: %u variables", j->variable_size());
    delete j;
  }
  d->~BinaryData();
}
// ------------------------------------------------------------------ C20
// reference reading of the documented dialect
static void t_C20(Rng &r) {
  std::string text;
  int len = r.p(0.3) ? r(6) : r.p(0.02) ? r(2000) : r(60);
  bool wild = r.p(0.4);
  if (wild) {
    static const char al[] = "a1,\"\n\r ,\"\n\\;x";
    for (int i = 0; i < len; ++i) text += r.p(0.03) ? (char)r(256) : al[r(sizeof al - 1)];
    for (auto &c : text) if (c == 0) c = 'z';
    if (r.p(0.1)) text += '\0';
  }
  std::vector<std::vector<std::string>> rows;
  if (!wild) {
    int nr = r(5);
    for (int i = 0; i < nr; ++i) {
      std::vector<std::string> row;
      // now and then more fields than one allocation of the table holds
      int nf = r.p(0.02) ? r.in(60, 400) : r.in(1, 4);
      std::string line;
      for (int j = 0; j < nf; ++j) {
        std::string f, raw;
        int fl = r.p(0.05) ? r.in(60, 300) : r(5);
        if (j == 0 && nf == 1 && fl == 0) fl = 1;
        bool quoted = r.p(0.35);
        for (int q = 0; q < fl; ++q) f += quoted ? "ab,1 2\"\n"[r(8)] : "ab12 x"[r(6)];
        if (quoted) { raw = "\""; for (char c : f) { raw += c; if (c == '"') raw += c; } raw += "\""; } else raw = f;
        row.push_back(f);
        line += (j ? "," : "") + raw;
      }
      text += line;
      if (i + 1 < nr || r.p(0.7)) text += r.p(0.2) ? "\r\n" : "\n";
      rows.push_back(row);
    }
  }
  std::string q;
  for (char c : text) { char b[8]; if (c >= 32 && c < 127) b[0] = c, b[1] = 0; else snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); q += b; }
  g_ctx = "csv text \"" + q + "\"";
  for (int src = 0; src < 2; ++src) {
    CsvParser *p;
    std::string f;
    if (src == 0) { f = tmpfile_path(".csv"); std::ofstream(f, std::ios::binary) << text; p = CsvParser_new(f.c_str(), ",", 0); }
    else { if (text.empty() || text.find('\0') != std::string::npos) continue; p = CsvParser_new_from_string(text.c_str(), ",", 0); }
    CHECK(p, "no parser");
    CsvRow *row;
    size_t i = 0;
    std::string got;
    while ((row = CsvParser_getRow(p))) {
      const char **fs = CsvParser_getFields(row);
      int n = CsvParser_getNumFields(row);
      size_t total = 0;
      for (int j = 0; j < n; ++j) total += strlen(fs[j]);
      if (!wild) {
        CHECK(i < rows.size(), "more rows than lines (row %d)", (int)i);
        CHECK(n == (int)rows[i].size(), "row %d has %d fields, expected %d", (int)i, n, (int)rows[i].size());
        for (int j = 0; j < n; ++j) CHECK(rows[i][j] == fs[j], "row %d field %d is \"%s\", expected \"%s\"", (int)i, j, fs[j], rows[i][j].c_str());
      }
      CsvParser_destroy_row(row);
      ++i;
      CHECK(i <= text.size() + 2, "parsing does not end");
    }
    if (!wild) CHECK(i == rows.size(), "%d rows read, %d written", (int)i, (int)rows.size());
    CsvParser_destroy(p);
    if (!f.empty()) unlink(f.c_str());
  }
}
// ------------------------------------------------------------------ C21
static std::string content_key(PsddNode *n) {
  char b[160];
  if (n->node_type() == LITERAL_NODE_TYPE) snprintf(b, sizeof b, "L%d@%d", n->psdd_literal_node()->literal(), (int)n->flag_index());
  else if (n->node_type() == TOP_NODE_TYPE) snprintf(b, sizeof b, "T%d@%d;%.5f;%.5f", (int)n->psdd_top_node()->variable_index(), (int)n->flag_index(), n->psdd_top_node()->true_parameter().parameter(), n->psdd_top_node()->false_parameter().parameter());
  else return tree(n);
  return b;
}
static PsddNode *ask_again(PsddManager *m, PsddNode *n) {
  if (n->node_type() == LITERAL_NODE_TYPE) return m->GetPsddLiteralNode(n->psdd_literal_node()->literal(), n->flag_index());
  if (n->node_type() == TOP_NODE_TYPE) { auto *t = n->psdd_top_node(); return m->GetPsddTopNode(t->variable_index(), n->flag_index(), t->true_parameter(), t->false_parameter()); }
  auto *d = n->psdd_decision_node();
  return m->GetConformedPsddDecisionNode(d->primes(), d->subs(), d->parameters(), n->flag_index());
}
static void t_C21(Rng &r) {
  if (r.p(0.6)) {
    Env e(r, 1, 5);
    GenOpt o = opt(r); o.flags = r.in(1, 2);
    std::vector<PsddNode *> all;
    int k = r.in(1, 4);
    for (int i = 0; i < k; ++i) all.push_back(gen_psdd(r, e.m, e.vt, o));
    for (int round = 0; round < 3; ++round) {
      std::vector<PsddNode *> keep;
      for (auto n : all) if (r.p(0.5)) keep.push_back(n);
      if (r.p(0.3) && !keep.empty()) { auto w = reach(keep); auto it = w.begin(); std::advance(it, r(w.size())); keep.insert(keep.begin() + r(keep.size() + 1), *it); }
      if (r.p(0.2) && !keep.empty()) { auto w = reach(keep); auto it = w.begin(); std::advance(it, r(w.size())); keep.assign(1, *it); }
      g_ctx = "vtree " + vtree_str(e.vt);
      for (auto n : all) ctx(n, "live");
      for (auto n : keep) ctx(n, "kept");
      std::map<PsddNode *, std::string> tr;
      std::map<PsddNode *, uintmax_t> ix;
      for (auto n : reach(keep)) { tr[n] = tree(n); ix[n] = n->node_index(); }
      std::set<std::string> before;
      uintmax_t top = 0;
      for (auto n : reach(all)) { top = std::max(top, n->node_index()); before.insert(content_key(n)); }
      std::set<std::string> kept;
      for (auto n : reach(keep)) kept.insert(content_key(n));
      std::set<uintmax_t> gone;
      auto ra = reach(all), rk = reach(keep);
      std::map<std::string, uintmax_t> goneix;
      for (auto n : ra) if (!rk.count(n)) { goneix[content_key(n)] = n->node_index(); }
      std::vector<Content> ask;             // requests for forgotten leaf contents
      for (auto n : ra) if (!rk.count(n) && n->node_type() != DECISION_NODE_TYPE) { Content c; c.type = n->node_type(); c.flag = n->flag_index(); if (c.type == 1) c.x = n->psdd_literal_node()->literal(); else { c.x = n->psdd_top_node()->variable_index(); c.a = n->psdd_top_node()->true_parameter(); c.b = n->psdd_top_node()->false_parameter(); } ask.push_back(c); }
      e.m->DeleteUnusedPsddNodes(keep);
      for (auto n : reach(keep)) {
        CHECK(tr.count(n) && tree(n) == tr[n] && n->node_index() == ix[n], "a kept node changed");
        CHECK(ask_again(e.m, n) == n, "asking for a kept node's content returns another node: %s", dump(n).c_str());
      }
      clean(keep, "collection");
      for (auto &c : ask) {
        PsddNode *n = request(e.m, c);
        CHECK(!rk.count(n), "a forgotten content is answered by a kept node");
        CHECK(n->node_index() > top, "a forgotten node was returned again (identifier %d was in use before the collection)", (int)n->node_index());
        CHECK(request(e.m, c) == n, "a content requested after collection is not canonical");
      }
      if (r.p(0.5)) e.m->DeleteUnusedPsddNodes(keep);
      all = keep;
      all.push_back(gen_psdd(r, e.m, e.vt, o));
      if (r.p(0.5)) all.push_back(gen_psdd(r, e.m, e.vt, o));
      std::map<std::string, PsddNode *> uniq;
      for (auto n : reach(all)) { auto &u = uniq[tree(n)]; CHECK(u == nullptr || u == n, "two nodes with one content after collection"); u = n; }
      std::set<uintmax_t> ids;
      for (auto n : reach(all)) CHECK(ids.insert(n->node_index()).second, "identifier %d used twice", (int)n->node_index());
    }
    return;
  }
  // the table itself, by flag
  std::vector<int> vs = rand_vars(r, r.in(1, 4), false);
  Vtree *v = rand_vtree(r, vs);
  std::vector<Vtree *> vn; vtree_nodes(v, vn);
  PsddUniqueTable *t = PsddUniqueTable::GetPsddUniqueTable();
  uintmax_t idx = 1;
  std::vector<PsddNode *> nodes;
  std::vector<Content> cs;
  auto mk = [&](const Content &c) -> PsddNode * {
    PsddNode *n;
    if (c.type == 1) n = new PsddLiteralNode(idx, c.v, c.flag, c.x);
    else if (c.type == 3) n = new PsddTopNode(idx, c.v, c.flag, c.x, c.a, c.b);
    else n = new PsddDecisionNode(idx, c.v, c.flag, c.ps, c.ss, c.pp);
    return t->GetUniqueNode(n, &idx);
  };
  g_ctx = "table over vtree " + vtree_str(v);
  std::map<Vtree *, std::vector<PsddNode *>> at;
  int k = r.in(5, 40);
  for (int i = 0; i < k; ++i) {
    Content c;
    c.v = vn[r(vn.size())];
    c.flag = r(4);
    if (leaf(c.v)) { c.x = (int)sdd_vtree_var(c.v); if (r(2)) { c.type = 1; if (r(2)) c.x = -c.x; } else { c.type = 3; c.a = dec(0.25 * r.in(1, 3)); c.b = dec(0.25 * r.in(1, 3)); } }
    else {
      std::vector<PsddNode *> ls, rs;
      for (auto n : at[sdd_vtree_left(c.v)]) if (n->flag_index() == c.flag) ls.push_back(n);
      for (auto n : at[sdd_vtree_right(c.v)]) if (n->flag_index() == c.flag) rs.push_back(n);
      if (ls.empty() || rs.empty()) continue;
      c.type = 2;
      c.ps.push_back(ls[r(ls.size())]); c.ss.push_back(rs[r(rs.size())]); c.pp.push_back(dec(1));
    }
    PsddNode *n = mk(c);
    bool known = false;
    for (size_t j = 0; j < cs.size(); ++j) if (cs[j] == c) { known = true; CHECK(nodes[j] == n, "equal requests to the table return two nodes"); }
    if (!known) { cs.push_back(c); nodes.push_back(n); at[c.v].push_back(n); }
  }
  std::unordered_set<uintmax_t> keep;
  for (int i = 0; i < 4; ++i) if (r.p(0.5)) keep.insert(i);
  std::vector<uintmax_t> ids;
  for (auto n : nodes) ids.push_back(n->node_index());
  uintmax_t top = idx;
  t->DeletePsddNodesWithoutFlagIndexes(keep);
  for (size_t j = 0; j < cs.size(); ++j) {
    if (keep.count(cs[j].flag)) {
      CHECK(nodes[j]->node_index() == ids[j] && nodes[j]->flag_index() == cs[j].flag, "a node with a listed flag changed");
      check_content(nodes[j], cs[j]);
      CHECK(mk(cs[j]) == nodes[j], "a node with a listed flag was forgotten");
    } else if (cs[j].type != 2) {
      PsddNode *n = mk(cs[j]);
      CHECK(n->node_index() >= top, "a node without a listed flag is still answered");
    }
  }
  delete t;
  sdd_vtree_free(v);
}
// ------------------------------------------------------------------ C22
static std::string answer(int q, PsddManager *m, PsddNode *a, PsddNode *b, const std::vector<int> &vs, uint64_t seed) {
  Rng r(seed);
  Assign as(vs);
  Bits x = as.get(r(as.count())), mask;
  for (int v : vs) if (r.p(0.6)) mask.set(v);
  char buf[200];
  auto s = psdd_node_util::SerializePsddNodes(a);
  auto dist = [&](PsddNode *n) { std::string o; if (!n) return std::string("none"); for (size_t i = 0; i < as.count(); ++i) { snprintf(buf, sizeof buf, "%.5Lg ", W(n, as.mask(), as.get(i))); o += buf; } return o; };
  switch (q) {
  case 0: snprintf(buf, sizeof buf, "%.9g", psdd_node_util::Evaluate(mask, x, s).parameter()); return buf;
  case 1: return std::to_string(psdd_node_util::IsConsistent(s, mask, x));
  case 2: return psdd_node_util::ModelCount(s).get_str();
  case 3: { auto p = psdd_node_util::GetMPESolution(s); snprintf(buf, sizeof buf, "%.9g ", p.second.parameter()); return buf + bits_str(p.first, vs); }
  case 4: { auto mm = psdd_node_util::GetMarginals(s); std::string o; for (int v : vs) { snprintf(buf, sizeof buf, "%d:%.7Lf,%.7Lf ", v, val(mm[v].first), val(mm[v].second)); o += buf; } return o; }
  case 5: { auto p = m->Multiply(a, b, 5); snprintf(buf, sizeof buf, "%.7g ", p.second.parameter()); return buf + dist(p.first); }
  case 6: {
    size_t N = 5;
    std::unordered_map<int32_t, BatchedPsddValue> ex;
    std::vector<Bits> rec;
    for (size_t i = 0; i < N; ++i) rec.push_back(as.get(r(as.count())));
    for (int v : vs) { BatchedPsddValue y; for (auto &z : rec) y.push_back(z[v]); ex[v] = y; }
    return dist(m->LearnPsddParameters(a, ex, N, dec(1), 6));
  }
  case 7: { RandomDoubleFromUniformGenerator g(0.1, 1, 7); return dist(m->SampleParameters(&g, a, 7)); }
  case 8: { std::string f = tmpfile_path(".p"); psdd_node_util::WritePsddToFile(a, f.c_str()); std::ifstream in(f); std::string l, o; long n = 0; while (std::getline(in, l)) if (l[0] != 'c') n += l.size(); unlink(f.c_str()); return std::to_string(n); }
  case 9: return dist(m->LoadPsddNode(m->vtree(), a, 9));
  case 10: {
    std::unordered_map<SddLiteral, SddLiteral> mp;
    int k = 0;
    for (int v : vs) mp[v] = ++k;
    Vtree *st = sdd_vtree_new(k, "balanced");
    SddManager *sm = sdd_manager_new(st);
    sdd_vtree_free(st);
    SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(s, mp, sm);
    std::string o;
    for (size_t i = 0; i < as.count(); ++i) o += sdd_eval(f, [&](int v) -> bool { return as.get(i)[vs[v - 1]]; }) ? '1' : '0';
    sdd_manager_free(sm);
    return o;
  }
  case 11: { std::unordered_map<uint32_t, bool> ev; for (int v : vs) if (mask[v]) ev[v] = x[v]; return std::to_string(a->IsConsistent(ev)); }
  case 12: { auto c = psdd_node_util::GetCoveredPsddNodes({a, b}); return std::to_string(c.size()) + " " + std::to_string(psdd_node_util::GetPsddSize(a)); }
  case 13: {
    Bits o; RandomDoubleFromUniformGenerator g(0, 1, (unsigned)seed); a->DirectSample(&o, &g); return bits_str(o, vs);
  }
  case 14: { CNF c({{(SddLiteral)vs[0]}}); return dist(c.Compile(m, 4)); }
  case 15: return dist(m->NormalizePsddNode(m->vtree(), a, 3));
  }
  return "";
}
static void t_C22(Rng &r) {
  Env e(r, 1, 4);
  GenOpt o = opt(r, false);
  PsddNode *a = gen_psdd(r, e.m, e.vt, o), *b = gen_psdd(r, e.m, e.vt, o);
  ctx(a, "first"); ctx(b, "second");
  std::string ta = tree(a), tb = tree(b);
  int k = r.in(2, 8);
  g_ctx += " calls";
  for (int i = 0; i < k; ++i) {
    int q = r(16);
    bool sw = r(2);
    uint64_t seed = r.g();
    g_ctx += " " + std::to_string(q) + (sw ? "b" : "a");
    std::string got = answer(q, e.m, sw ? b : a, sw ? a : b, e.vs, seed);
    // the same call on a fresh copy in a fresh manager
    PsddManager *m2 = PsddManager::GetPsddManagerFromVtree(e.vt);
    PsddNode *a2 = nullptr, *b2 = nullptr;
    {
      std::map<PsddNode *, PsddNode *> cp;
      std::function<PsddNode *(PsddNode *)> copy = [&](PsddNode *n) -> PsddNode * {
        auto it = cp.find(n);
        if (it != cp.end()) return it->second;
        if (n->node_type() == LITERAL_NODE_TYPE) return cp[n] = m2->GetPsddLiteralNode(n->psdd_literal_node()->literal(), n->flag_index());
        if (n->node_type() == TOP_NODE_TYPE) { auto *t = n->psdd_top_node(); return cp[n] = m2->GetPsddTopNode(t->variable_index(), n->flag_index(), t->true_parameter(), t->false_parameter()); }
        auto *d = n->psdd_decision_node();
        std::vector<PsddNode *> ps, ss;
        for (size_t i = 0; i < d->primes().size(); ++i) { ps.push_back(copy(d->primes()[i])); ss.push_back(copy(d->subs()[i])); }
        return cp[n] = m2->GetConformedPsddDecisionNode(ps, ss, d->parameters(), n->flag_index());
      };
      auto all = reach({a, b});                      // in the order of creation, which is part of the content
      std::vector<PsddNode *> ord(all.begin(), all.end());
      std::sort(ord.begin(), ord.end(), [](PsddNode *p, PsddNode *q) { return p->node_index() < q->node_index(); });
      for (auto n : ord) copy(n);
      a2 = copy(a); b2 = copy(b);
    }
    std::string want = answer(q, m2, sw ? b2 : a2, sw ? a2 : b2, e.vs, seed);
    CHECK(got == want, "call %d after earlier calls answers \"%s\", on a fresh copy \"%s\"", q, got.c_str(), want.c_str());
    CHECK(tree(a) == ta && tree(b) == tb, "call %d changed a queried PSDD", q);
    clean({a, b}, ("call " + std::to_string(q)).c_str());
    check_no_vtree_data(e.vt, ("call " + std::to_string(q)).c_str());
    delete m2;
  }
}
// ------------------------------------------------------------------ C23
static std::string run(const std::string &cmd, int &rc) {
  std::string out;
  FILE *p = popen(cmd.c_str(), "r");
  char b[4096];
  size_t k;
  while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k);
  rc = pclose(p);
  return out;
}
std::string g_tool;
static void t_C23(Rng &r) {
  std::vector<int> vs = rand_vars(r, r.in(1, 5), r.p(0.5));
  Vtree *v = rand_vtree(r, vs);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  std::string vf = tmpfile_path(".vtree"), pf = tmpfile_path(".psdd"), cf = tmpfile_path(".cnf");
  sdd_vtree_save(vf.c_str(), v);
  g_ctx = "vtree " + vtree_str(v);
  sdd_vtree_free(v);
  GenOpt o = opt(r);
  PsddNode *n = gen_psdd(r, m, m->vtree(), o);
  ctx(n);
  psdd_node_util::WritePsddToFile(n, pf.c_str());
  std::vector<std::vector<int>> cl;
  std::string text = "p cnf 5 2\n";
  int nc = r(4);
  for (int i = 0; i < nc; ++i) { std::vector<int> c; int w = r.in(1, 2); for (int j = 0; j < w; ++j) { int x = vs[r(vs.size())]; c.push_back(r(2) ? x : -x); text += std::to_string(c.back()) + " "; } text += "0\n"; cl.push_back(c); }
  bool evid = r.p(0.85);
  if (!evid) cl.clear();
  std::ofstream(cf) << text;
  g_ctx += evid ? " evidence " + text : " no evidence";
  int rc;
  std::string out = run(g_tool + " --mpe_query --mar_query" + (evid ? " --cnf_evid " + cf : std::string()) + " " + pf + " " + vf + " 2>/dev/null", rc);
  CHECK(rc == 0, "the tool ends with status %d; output: %s", rc, out.c_str());
  Assign a(vs);
  std::vector<LD> w;
  LD z = 0, best = 0;
  for (size_t i = 0; i < a.count(); ++i) {
    Bits x = a.get(i);
    bool sat = true;
    for (auto &c : cl) { bool h = false; for (int l : c) if (x[std::abs(l)] == (l > 0)) h = true; sat = sat && h; }
    w.push_back(sat ? W(n, a.mask(), x) : 0);
    z += w.back();
    best = std::max(best, w.back());
  }
  if (z == 0) { CHECK(out.find("UNSATISFIED") != std::string::npos, "impossible evidence not reported: %s", out.c_str()); delete m; return; }
  CHECK(out.find("UNSATISFIED") == std::string::npos, "possible evidence reported impossible");
  size_t p = out.find("MPE result="), q = out.find("MAR result=");
  CHECK(p != std::string::npos && q != std::string::npos, "answer missing: %s", out.c_str());
  Bits x;
  std::set<int> seen;
  {
    std::stringstream ss(out.substr(p + 11, out.find('\n', p) - p - 11));
    std::string item;
    while (std::getline(ss, item, ',')) { int var, b; if (sscanf(item.c_str(), "%d:%d", &var, &b) == 2) { seen.insert(var); if (b) x.set(var); } }
  }
  CHECK(seen == std::set<int>(vs.begin(), vs.end()), "MPE does not list each variable: %s", out.c_str());
  size_t k = 0;
  for (size_t i = 0; i < a.count(); ++i) if (a.get(i) == x) k = i;
  CHECK(close(w[k], best, 1e-4L), "MPE assignment has weight %.9Lg, maximum %.9Lg: %s", w[k], best, out.c_str());
  size_t pp = out.find("MPE pr=");
  if (pp != std::string::npos) { LD g = std::exp((LD)atof(out.c_str() + pp + 7)); CHECK(close(g, best / z, 1e-3L), "MPE probability %.9Lg, expected %.9Lg", g, best / z); }
  seen.clear();
  {
    std::stringstream ss(out.substr(q + 11, out.find('\n', q) - q - 11));
    std::string item;
    while (std::getline(ss, item, ',')) {
      char f[100], t[100];
      int var;
      if (sscanf(item.c_str(), "%d:%90[^|]|%90s", &var, f, t) != 3) continue;
      seen.insert(var);
      LD wf = 0, wt = 0;
      for (size_t i = 0; i < a.count(); ++i) (a.get(i)[var] ? wt : wf) += w[i] / z;
      LD gf = std::exp((LD)strtod(f, nullptr)), gt = std::exp((LD)strtod(t, nullptr));
      CHECK(std::fabs((double)(gf - wf)) < 1e-4 && std::fabs((double)(gt - wt)) < 1e-4, "marginal of %d reported %.7Lg|%.7Lg, is %.7Lg|%.7Lg", var, gf, gt, wf, wt);
    }
  }
  CHECK(seen == std::set<int>(vs.begin(), vs.end()), "marginals do not list each variable: %s", out.c_str());
  delete m;
}
void __attribute__((weak)) t_C18(Rng &);
void __attribute__((weak)) t_C24(Rng &);
struct T { const char *id; void (*f)(Rng &); };
extern const T trials[] = {{"C01", t_C01}, {"C02", t_C02}, {"C03", t_C03}, {"C04", t_C04}, {"C05", t_C05}, {"C06", t_C06}, {"C07", t_C07}, {"C08", t_C08}, {"C09", t_C09}, {"C10", t_C10}, {"C11", t_C11}, {"C12", t_C12}, {"C13", t_C13}, {"C14", t_C14}, {"C15", t_C15}, {"C16", t_C16}, {"C17", t_C17}, {"C18", t_C18}, {"C19", t_C19}, {"C20", t_C20}, {"C21", t_C21}, {"C22", t_C22}, {"C23", t_C23}, {"C24", t_C24}, {nullptr, nullptr}};
