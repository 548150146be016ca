#include "common.h"
std::string g_scratch, g_ctx;
long g_trial;
void fail(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  printf("FAIL in trial %ld: %s\nINPUT %s\n", g_trial, buf, g_ctx.c_str());
  fflush(stdout);
  _exit(3);
}
std::string tmpfile_path(const char *suffix) {
  static int k = 0;
  return g_scratch + "/f" + std::to_string(k++) + suffix;
}
static void dump_rec(PsddNode *n, std::map<PsddNode *, int> &id, std::string &out) {
  if (id.count(n)) return;
  char b[200];
  if (n->node_type() == LITERAL_NODE_TYPE) {
    id[n] = id.size();
    snprintf(b, sizeof b, "n%d=L(%d) ", id[n], n->psdd_literal_node()->literal());
    out += b;
  } else if (n->node_type() == TOP_NODE_TYPE) {
    auto *t = n->psdd_top_node();
    id[n] = id.size();
    snprintf(b, sizeof b, "n%d=T(%d;%.9Lg,%.9Lg) ", id[n], (int)t->variable_index(), val(t->true_parameter()), val(t->false_parameter()));
    out += b;
  } else {
    auto *d = n->psdd_decision_node();
    for (size_t i = 0; i < d->primes().size(); ++i) { dump_rec(d->primes()[i], id, out); dump_rec(d->subs()[i], id, out); }
    id[n] = id.size();
    snprintf(b, sizeof b, "n%d=D(", id[n]);
    out += b;
    for (size_t i = 0; i < d->primes().size(); ++i) {
      snprintf(b, sizeof b, "[n%d n%d %.9Lg]", id[d->primes()[i]], id[d->subs()[i]], val(d->parameters()[i]));
      out += b;
    }
    out += ") ";
  }
}
std::string dump(PsddNode *n) {
  if (!n) return "null";
  std::map<PsddNode *, int> id;
  std::string s;
  dump_rec(n, id, s);
  return s;
}
std::string tree(PsddNode *n) {
  char b[200];
  std::string pre = std::to_string((long)sdd_vtree_position(n->vtree_node())) + "@" + std::to_string(n->flag_index());
  if (n->node_type() == LITERAL_NODE_TYPE) { snprintf(b, sizeof b, "L%d", n->psdd_literal_node()->literal()); return pre + b; }
  if (n->node_type() == TOP_NODE_TYPE) {
    auto *t = n->psdd_top_node();
    snprintf(b, sizeof b, "T%d;%.17g;%.17g", (int)t->variable_index(), t->true_parameter().parameter(), t->false_parameter().parameter());
    return pre + b;
  }
  auto *d = n->psdd_decision_node();
  std::string s = pre + "D(";
  for (size_t i = 0; i < d->primes().size(); ++i) {
    snprintf(b, sizeof b, ",%.17g]", d->parameters()[i].parameter());
    s += "[" + tree(d->primes()[i]) + "," + tree(d->subs()[i]) + b;
  }
  return s + ")";
}
void well_formed(PsddNode *root, Vtree *at, const char *what, bool normal) {
  CHECK(root != nullptr, "%s: no node returned", what);
  CHECK(at == nullptr || root->vtree_node() == at, "%s: root sits at the wrong vtree position", what);
  for (PsddNode *n : reach({root})) {
    Vtree *v = n->vtree_node();
    if (n->node_type() == LITERAL_NODE_TYPE) {
      CHECK(leaf(v) && sdd_vtree_var(v) == std::abs(n->psdd_literal_node()->literal()), "%s: literal at wrong vtree leaf", what);
    } else if (n->node_type() == TOP_NODE_TYPE) {
      auto *t = n->psdd_top_node();
      CHECK(leaf(v) && sdd_vtree_var(v) == (SddLiteral)t->variable_index(), "%s: true node at wrong vtree leaf", what);
      if (normal) CHECK(close(val(t->true_parameter()) + val(t->false_parameter()), 1), "%s: true node parameters do not sum to one", what);
    } else {
      auto *d = n->psdd_decision_node();
      CHECK(!leaf(v), "%s: decision node at a leaf", what);
      CHECK(!d->primes().empty() && d->primes().size() == d->subs().size(), "%s: element lists differ in size", what);
      CHECK(d->parameters().size() >= d->primes().size(), "%s: missing parameters", what);
      LD s = 0;
      for (size_t i = 0; i < d->primes().size(); ++i) {
        CHECK(d->primes()[i]->vtree_node() == sdd_vtree_left(v), "%s: prime not at the left child of its parent's vtree node", what);
        CHECK(d->subs()[i]->vtree_node() == sdd_vtree_right(v), "%s: sub not at the right child of its parent's vtree node", what);
        s += val(d->parameters()[i]);
      }
      if (normal) CHECK(close(s, 1), "%s: decision parameters sum to %Lg", what, s);
    }
  }
}
void clean(const std::vector<PsddNode *> &roots, const char *what) {
  for (PsddNode *n : reach(roots)) {
    CHECK(n->user_data() == 0, "%s: user data left on a node", what);
    CHECK(!n->activation_flag(), "%s: activation flag left on a node", what);
    CHECK(n->batched_psdd_value().empty() && n->batched_psdd_context_value().empty(), "%s: batched values left on a node", what);
    if (n->node_type() == TOP_NODE_TYPE)
      CHECK(n->psdd_top_node()->true_data_count() == 0 && n->psdd_top_node()->false_data_count() == 0, "%s: data counts left on a true node", what);
    if (n->node_type() == DECISION_NODE_TYPE)
      for (auto c : n->psdd_decision_node()->data_counts()) CHECK(c == 0, "%s: data counts left on a decision node", what);
  }
}
static double param(Rng &r, const GenOpt &o) {
  if (r.p(o.zero)) return 0;
  if (r.p(o.coarse)) { static const double c[] = {0.5, 0.25, 0.75, 0.125, 1.0}; return c[r(5)]; }
  if (r.p(0.03)) return 1e-9;
  return r.real() + 1e-3;
}
static void params(Rng &r, const GenOpt &o, std::vector<double> &p) {
  for (;;) {
    double s = 0;
    for (auto &x : p) { x = o.ones ? 1 : param(r, o); s += x; }
    if (s <= 0) continue;
    if (o.normal && !o.ones) for (auto &x : p) x /= s;
    return;
  }
}
static PsddParameter as_param(Rng &r, const GenOpt &o, double x) {
  if (o.tiny > 0 && r.p(o.tiny)) return PsddParameter::CreateFromLog(-r.real() * 1500);
  return PsddParameter::CreateFromDecimal(x);
}
typedef std::set<unsigned> Sup;                     // assignments as bit strings over vars_of(v), first variable lowest
static PsddNode *gen_rec(Rng &r, PsddManager *m, Vtree *v, const GenOpt &o, const Sup &s, uintmax_t flag) {
  auto f = flag + (o.flags > 1 ? r(o.flags) : 0);
  if (leaf(v)) {
    int x = (int)sdd_vtree_var(v);
    if (s.size() == 2) {
      std::vector<double> p(2);
      params(r, o, p);
      return m->GetPsddTopNode(x, f, as_param(r, o, p[0]), as_param(r, o, p[1]));
    }
    return m->GetPsddLiteralNode(s.count(1) ? x : -x, f);
  }
  int nl = (int)vars_of(sdd_vtree_left(v)).size();
  std::map<unsigned, Sup> row;
  for (unsigned a : s) row[a & ((1u << nl) - 1)].insert(a >> nl);
  std::vector<std::pair<Sup, Sup>> el;
  for (auto &kv : row) {
    bool put = false;
    for (auto &e : el)
      if (e.second == kv.second && !(r.p(o.uncompressed * 0.4))) { e.first.insert(kv.first); put = true; break; }
    if (!put) el.push_back({Sup{kv.first}, kv.second});
  }
  std::shuffle(el.begin(), el.end(), r.g);
  std::vector<PsddNode *> ps, ss;
  std::vector<double> pv(el.size());
  params(r, o, pv);
  std::vector<PsddParameter> pp;
  for (size_t i = 0; i < el.size(); ++i) {
    ps.push_back(gen_rec(r, m, sdd_vtree_left(v), o, el[i].first, flag));
    ss.push_back(gen_rec(r, m, sdd_vtree_right(v), o, el[i].second, flag));
    pp.push_back(as_param(r, o, pv[i]));
  }
  return m->GetConformedPsddDecisionNode(ps, ss, pp, f);
}
PsddNode *gen_psdd(Rng &r, PsddManager *m, Vtree *v, const GenOpt &o, uintmax_t flag) {
  int n = (int)vars_of(v).size();
  Sup s;
  double sp = r.p(0.2) ? 0 : o.sparse * 2 * r.real();
  int bias = r(4);
  for (unsigned a = 0; a < (1u << n); ++a) {
    bool keep = !r.p(sp);
    if (bias == 1 && n >= 2 && (a & 3) == 3) keep = false;
    if (keep) s.insert(a);
  }
  if (s.empty()) s.insert(r(1 << n));
  return gen_rec(r, m, v, o, s, flag);
}
Env::Env(Rng &r, int nmin, int nmax, bool contiguous) {
  vs = rand_vars(r, r.in(nmin, nmax), contiguous || r.p(0.4));
  Vtree *v = rand_vtree(r, vs);
  m = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
  vt = m->vtree();
  g_ctx = "vtree " + vtree_str(vt);
}
Env::~Env() { delete m; }
SddNode *rand_sdd(Rng &r, SddManager *m, int n) {
  int k = r(10);
  if (k == 0) return r(2) ? sdd_manager_true(m) : sdd_manager_literal(r(2) ? r.in(1, n) : -r.in(1, n), m);
  SddNode *a = sdd_manager_true(m);
  int nc = r.in(1, n + 2);
  for (int i = 0; i < nc; ++i) {
    SddNode *c = sdd_manager_false(m);
    int w = r.in(1, 3);
    for (int j = 0; j < w; ++j) { int x = r.in(1, n); c = sdd_disjoin(c, sdd_manager_literal(r(2) ? x : -x, m), m); }
    a = r.p(0.8) ? sdd_conjoin(a, c, m) : sdd_disjoin(sdd_negate(a, m), c, m);
  }
  return a;
}
bool sdd_eval(SddNode *n, const std::function<bool(int)> &x) {
  if (sdd_node_is_true(n)) return true;
  if (sdd_node_is_false(n)) return false;
  if (sdd_node_is_literal(n)) { int l = (int)sdd_node_literal(n); return x(std::abs(l)) == (l > 0); }
  SddNode **e = sdd_node_elements(n);
  for (SddSize i = 0; i < sdd_node_size(n); ++i) if (sdd_eval(e[2 * i], x)) return sdd_eval(e[2 * i + 1], x);
  return false;
}
