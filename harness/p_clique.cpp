// C11: clique separation is complete below its thresholds, and what it returns
// are cliques of the graph of the model
#include "flow.hpp"
using namespace pbt;

static void c11(Ctx &c)
{
  Src &s = c.s;
  bool packing = s.pct(25);
  Model m;
  int n = s.in(2, 11);
  std::vector< char > bin(n, 1);
  for (int j = 0; j < n; j++) {
    if (!packing && s.pct(6)) {
      bin[j] = 0;
      m.addCol(s.pct(20) ? -1 : 0, s.in(1, 3), false, 0);
    } else if (!packing && s.pct(4)) {
      bin[j] = 0;
      m.addCol(0, 2, true, 0);
    } else
      m.addCol(0, 1, true, 0);
  }
  // rows: edges and cliques of a random graph, and rows of other kinds
  int style = s.weighted({ 3, 2, 2 }); // edges only, cliques, both
  int k = s.in(1, 14);
  int hub = s.pct(50) ? s.in(3, std::max(3, std::min(n, 6))) : 0; // plant the edges of a clique
  if (hub > n)
    hub = 0;
  if (hub)
    for (int a = 0; a < hub; a++)
      for (int b = a + 1; b < hub; b++)
        if (!s.pct(4)) {
          Row r;
          r.push_back(std::make_pair(a, 1.0));
          r.push_back(std::make_pair(b, 1.0));
          m.addRow(r, s.pct(10) ? 1 : -INF, 1);
        }
  for (int i = 0; i < k; i++) {
    Row r;
    bool edge = style == 0 || (style == 2 && s.pct(60));
    int len = edge ? 2 : s.in(1, 4);
    std::vector< char > in(n, 0);
    for (int q = 0; q < len; q++)
      in[s.raw(n)] = 1;
    for (int j = 0; j < n; j++)
      if (in[j])
        r.push_back(std::make_pair(j, 1.0));
    double lo = s.pct(20) ? 1 : -INF, up = 1;
    if (!packing) {
      if (s.pct(6) && !r.empty())
        r[s.raw((uint32_t)r.size())].second = s.dpick({ 2, 0.5, -1 });
      if (s.pct(6))
        up = s.dpick({ 2, 0, 1.5 }), lo = -INF;
      if (s.pct(3))
        lo = 1, up = INF;
      if (s.pct(3))
        lo = -1;
    }
    if (s.pct(20))
      for (size_t q = 0; q < r.size(); q++)
        std::swap(r[q], r[s.raw((uint32_t)r.size())]);
    m.addRow(r, lo, up);
  }
  // permute the columns so that planted cliques are not in front
  if (s.pct(50)) {
    std::vector< int > perm(n);
    for (int j = 0; j < n; j++)
      perm[j] = j;
    for (int j = 0; j < n; j++)
      if (bin[j]) {
        int o = (int)s.raw(n);
        if (bin[o])
          std::swap(perm[j], perm[o]);
      }
    for (auto &r : m.rows)
      for (auto &e : r)
        e.first = perm[e.first];
  }
  Vec x(n);
  double base = s.dpick({ 0.5, 1.0 / 3, 0.25, 0.4 });
  for (int j = 0; j < n; j++)
    x[j] = s.weighted({ 6, 1, 1, 1, 2 }) == 0 ? base : s.dpick({ 0, 1, 0.5, 0.125, 0.75, 0.375, 1e-8, 0.9999999999, 0.25, 1.0 / 3 });
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.getColType(true);
  si.setColSolution(&x[0]);
  bool just = s.pct(15);
  CglClique g(packing, just);
  bool star = !s.pct(15), row = !s.pct(30);
  int st = s.pct(30) ? s.in(1, 8) : 12, rt = s.pct(30) ? s.in(1, 8) : 12;
  g.setDoStarClique(star);
  g.setDoRowClique(row);
  g.setStarCliqueReport(false);
  g.setRowCliqueReport(false);
  g.setStarCliqueCandidateLengthThreshold(st);
  g.setRowCliqueCandidateLengthThreshold(rt);
  int rule = s.in(0, 2);
  g.setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)rule);
  double mv = -1;
  if (s.pct(40)) {
    mv = s.dpick({ 1e-4, 0.01, 0.1, 0.3, 1e-7 });
    g.setMinViolation(mv);
  }
  CglTreeInfo info;
  info.formulation_rows = m.m();
  info.inTree = s.pct(25);
  if (info.inTree) {
    info.level = 1;
    if (s.pct(60))
      info.formulation_rows = s.in(0, m.m());
  }
  c.d << m.str() << "point " << strPoint(&x[0], n) << "\npacking " << packing << " just " << just << " star " << star << "/" << st << " row " << row << "/" << rt << " rule " << rule
      << " minViolation " << mv << " inTree " << info.inTree << " formulation rows " << info.formulation_rows << "\n";
  OsiCuts cs;
  g.generateCuts(si, cs, info);

  // the graph, from the definition
  const double pt = 1e-7, p = mv == -1 ? pt : mv;
  std::vector< int > F;
  std::vector< char > inF(n, 0);
  for (int j = 0; j < n; j++)
    if (packing ? (x[j] > pt && x[j] < 1 - pt) : (bin[j] && x[j] > pt && x[j] < 1 - p)) {
      inF[j] = 1;
      F.push_back(j);
    }
  int nf = (int)F.size();
  std::vector< int > pos(n, -1);
  for (int a = 0; a < nf; a++)
    pos[F[a]] = a;
  std::vector< unsigned > adj(nf, 0), rowSets;
  for (int i = 0; i < m.m(); i++) {
    if (just && info.inTree && i >= info.formulation_rows)
      continue;
    bool ok = packing || m.ru[i] == 1.0;
    unsigned set = 0;
    for (auto &e : m.rows[i]) {
      if (!packing && (e.second < 0 || m.lo[e.first] < 0 || (inF[e.first] && e.second != 1.0)))
        ok = false;
      if (inF[e.first])
        set |= 1u << pos[e.first];
    }
    if (!ok)
      continue;
    rowSets.push_back(set);
    for (int a = 0; a < nf; a++)
      if (set >> a & 1)
        adj[a] |= set & ~(1u << a);
  }
  int maxdeg = 0;
  for (int a = 0; a < nf; a++)
    maxdeg = std::max(maxdeg, __builtin_popcount(adj[a]));
  auto isClique = [&](unsigned q) {
    for (int a = 0; a < nf; a++)
      if ((q >> a & 1) && ((q & ~(1u << a)) & ~adj[a]))
        return false;
    return true;
  };
  auto common = [&](unsigned q) {
    unsigned r = ~0u;
    for (int a = 0; a < nf; a++)
      if (q >> a & 1)
        r &= adj[a];
    return q ? r & ((1u << nf) - 1) : (1u << nf) - 1;
  };
  auto value = [&](unsigned q) {
    double v = 0;
    for (int a = 0; a < nf; a++)
      if (q >> a & 1)
        v += x[F[a]];
    return v;
  };
  auto text = [&](unsigned q) {
    std::string t = "{";
    for (int a = 0; a < nf; a++)
      if (q >> a & 1)
        t += cat(" x", F[a]);
    return t + " }";
  };
  bool starGreedy = star && maxdeg >= st;
  std::vector< unsigned > got;
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    const OsiRowCut &rc = cs.rowCut(i);
    unsigned q = 0;
    bool form = rc.ub() == 1.0 && rc.lb() <= -1e20;
    for (int e = 0; e < rc.row().getNumElements(); e++) {
      int j = rc.row().getIndices()[e];
      if (j < 0 || j >= n || rc.row().getElements()[e] != 1.0 || !inF[j])
        form = false;
      else
        q |= 1u << pos[j];
    }
    if (!form)
      c.fail("not-a-clique-cut", cat("cut ", str(rc), " is not of the form sum of fractional 0-1 columns <= 1"));
    if (!isClique(q))
      c.fail("not-a-clique", cat("the columns of ", str(rc), " do not all conflict"));
    if (value(q) < 1 + p - 1e-9)
      c.fail("not-violated", cat("cut ", str(rc), " has value ", value(q), " at the point"));
    if (!starGreedy && common(q))
      c.fail("not-maximal", cat("clique ", text(q), " can be extended by ", text(common(q))));
    if (std::find(got.begin(), got.end(), q) != got.end())
      c.fail("twice", cat("clique ", text(q), " is returned twice"));
    got.push_back(q);
  }
  if (cs.sizeColCuts())
    c.fail("column-cut", "the clique generator returned a column cut");
  int must = 0;
  if (nf >= 2)
    for (unsigned q = 1; q < (1u << nf); q++) {
      if (__builtin_popcount(q) < 2 || !isClique(q) || common(q) || value(q) < 1 + p + 1e-6)
        continue;
      bool need = star && !starGreedy && __builtin_popcount(q) >= 3;
      const char *why = "star";
      if (!need && row)
        for (unsigned r : rowSets)
          if (r && (r & ~q) == 0 && r != q && __builtin_popcount(common(r)) <= rt) {
            need = true;
            why = "row";
            break;
          }
      if (!need)
        continue;
      must++;
      if (std::find(got.begin(), got.end(), q) == got.end())
        c.fail(cat("missed-", why), cat("the ", why, " method does not return the violated maximal clique ", text(q), " of value ", value(q)));
    }
  if (must || !got.empty())
    c.nontrivial = true;
  if (must)
    c.label("violated cliques exist");
  if (must > 1)
    c.label("several violated cliques");
  if (starGreedy)
    c.label("star greedy");
  if (packing)
    c.label("pure packing");
}
static Reg r11({ "C11", "CliqueSeparation", c11, 1200000, 14400000,
  "a case = packing rows (mixed with others), a point, thresholds and method; non-trivial = a violated clique exists within the thresholds or was returned" });
