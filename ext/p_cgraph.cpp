// C40, C41: the parts of coin-or/Cgl that work on the conflict graph of a newer
// CoinUtils (stand-in in compat/)
#include "flow.hpp"
#include "CglBKClique.hpp"
#include "CglCliqueStrengthening.hpp"
#include "CglOddWheel.hpp"
#include "CoinConflictGraph.hpp"
using namespace pbt;

static Model binModel(Ctx &c)
{
  static const int kinds[] = { CLIQUE, ODDHOLE, KNAP, DUPROW };
  Model m = genModelFor(c, kinds[c.s.raw(4)]);
  // some rows in complemented columns
  for (int i = 0; i < m.m(); i++)
    if (c.s.pct(25)) {
      for (auto &e : m.rows[i])
        if (m.isInt[e.first] && m.lo[e.first] == 0 && m.up[e.first] == 1 && c.s.pct(40)) {
          if (m.rl[i] > -1e20)
            m.rl[i] -= e.second;
          if (m.ru[i] < 1e20)
            m.ru[i] -= e.second;
          e.second = -e.second;
        }
    }
  return m;
}

static GenPtr makeBK(Ctx &c)
{
  Src &s = c.s;
  CglBKClique *g = new CglBKClique;
  if (s.pct(50))
    g->setExtendingMethod(s.in(0, 5));
  if (s.pct(30))
    g->setMinViol(s.dpick({ 0.02, 0.1, 0.25, 0.001 }));
  if (s.pct(30))
    g->setMinFrac(s.dpick({ 0.001, 0.05, 0.2 }));
  if (s.pct(20))
    g->setMaxCallsBK(s.ipick({ 1000, 3, 8, 20 }));
  if (s.pct(20))
    g->setMaxInducedSize(s.ipick({ 10000, 3, 5, 8 }));
  if (s.pct(20))
    g->setPivotingStrategy((CoinBronKerbosch::PivotingStrategy)s.in(0, 5));
  return GenPtr(g);
}
static std::string bkParams(const CglBKClique &g)
{
  return cat("ext=", g.getExtendingMethod(), " calls=", g.getMaxCallsBK(), " frac=", g.getMinFrac(), " viol=", g.getMinViol(), " induced=", g.getMaxInducedSize(), " seconds=", g.getMaxSeconds(), " aggr=", g.getAggressiveness());
}
static std::string owParams(const CglOddWheel &g)
{
  return cat("ext=", g.getExtendingMethod(), " aggr=", g.getAggressiveness());
}

static void graphCuts(Ctx &c)
{
  Src &s = c.s;
  bool bk = s.pct(50);
  Model m = binModel(c);
  c.d << m.str() << (bk ? "BK clique " : "odd wheel ");
  GenPtr g = bk ? makeBK(c) : GenPtr(new CglOddWheel(s.in(0, 2)));
  if (s.pct(20))
    g->setAggressiveness(s.in(1, 100));
  auto par = [&](const CglCutGenerator &x) { return bk ? bkParams(static_cast< const CglBKClique & >(x)) : owParams(static_cast< const CglOddWheel & >(x)); };
  std::string p0 = par(*g);
  c.d << p0 << "\n";
  GenPtr same(g->clone());
  // an earlier use on another model changes nothing
  if (s.pct(50)) {
    Model o = binModel(c);
    c.d << "used before on\n"
        << o.str();
    OsiClpSolverInterface so;
    loadModel(o, so);
    g->refreshSolver(&so);
    if (place(c, CLIQUE, o, so)) {
      OsiCuts dump;
      g->generateCuts(so, dump);
    }
  }
  OsiClpSolverInterface si;
  loadModel(m, si);
  g->refreshSolver(&si);
  if (!place(c, CLIQUE, m, si)) {
    c.label("no LP optimum");
    return;
  }
  CglTreeInfo info = genInfo(c, m, s.pct(30));
  Vec x(si.getColSolution(), si.getColSolution() + m.n);
  if (par(*g) != p0)
    c.fail("parameters", cat("parameters were ", p0, " and are ", par(*g), " after use"));
  GenPtr used(g->clone());
  OsiCuts cs, cs2, cs3;
  OsiRowCut prior;
  int pi = 0;
  double pv = 1;
  prior.setRow(1, &pi, &pv);
  prior.setUb(7.5);
  bool hasPrior = s.pct(20);
  if (hasPrior)
    cs.insert(prior);
  int r0 = cs.sizeRowCuts();
  g->generateCuts(si, cs, info);
  if (hasPrior && (cs.sizeRowCuts() < 1 || !(cs.rowCut(0) == prior)))
    c.fail("prior-cut", "the cut that was in the collection before is gone or changed");
  for (int j = 0; j < m.n; j++)
    if (si.getColSolution()[j] != x[j] || si.getColLower()[j] != m.lo[j] || si.getColUpper()[j] != m.up[j])
      c.fail("solver", "the solver changed");
  same->generateCuts(si, cs2, info);
  used->generateCuts(si, cs3, info);
  auto sa = cutSigs(cs, true, r0), sb = cutSigs(cs2), sc = cutSigs(cs3);
  if (sa != sb)
    c.fail("history", cat("a used generator returns ", sa.size(), " cuts, an unused one with the same parameters ", sb.size(), " or others"));
  if (sa != sc)
    c.fail("copy", cat("a copy returns ", sc.size(), " cuts, its source ", sa.size(), " or others"));
  OsiCuts cs4;
  g->generateCuts(si, cs4, info);
  if (cutSigs(cs4) != sa)
    c.fail("repeat", cat("the second call returns ", cs4.sizeRowCuts(), " cuts, the first ", sa.size(), " or others"));
  if (par(*g) != p0 || par(*used) != p0 || par(*same) != p0)
    c.fail("parameters", cat("parameters were ", p0, " and are ", par(*g), " after use"));
  Points pts = enumerate(m);
  int k = cs.sizeRowCuts() - r0;
  if (pts.size()) {
    checkWellFormed(c, "malformed", cs, m.n, r0);
    checkValid(c, "invalid", cs, pts, 1e-6, r0);
    bool all = bk || static_cast< CglOddWheel & >(*g).getExtendingMethod() == 0;
    for (int i = r0; i < cs.sizeRowCuts() && all; i++)
      if (!cutsOff(cs.rowCut(i), &x[0], 1e-4))
        c.fail("not-violated", cat("cut ", str(cs.rowCut(i)), " is satisfied by the point to separate"));
    if (k)
      c.nontrivial = true;
  }
  for (int i = r0; i < cs.sizeRowCuts(); i++)
    if (cs.rowCut(i).globallyValid() && info.inTree)
      c.fail("global", "a cut from the tree is marked as globally valid");
  if (bk && !k && pts.size()) {
    // a violated triangle of literals must lead to a cut
    CglBKClique &b = static_cast< CglBKClique & >(*g);
    if (b.getMaxCallsBK() >= 1000 && b.getMaxInducedSize() >= 10000) {
      const CoinConflictGraph *gr = si.getCGraph();
      std::vector< size_t > v;
      auto val = [&](size_t l) { return l < (size_t)m.n ? x[l] : 1 - x[l - m.n]; };
      for (size_t l = 0; l < gr->size(); l++)
        if (gr->degree(l) >= 2 && val(l) > b.getMinFrac() + 1e-4)
          v.push_back(l);
      for (size_t a = 0; a < v.size(); a++)
        for (size_t d = 0; d < a; d++)
          if (gr->conflicting(v[a], v[d]))
            for (size_t e = 0; e < d; e++)
              if (gr->conflicting(v[a], v[e]) && gr->conflicting(v[d], v[e]) && val(v[a]) + val(v[d]) + val(v[e]) > 1.002 + b.getMinViol())
                c.fail("missed", cat("no cut although literals ", v[a], ",", v[d], ",", v[e], " are a violated triangle"));
    }
  }
  c.label(bk ? "BK clique cuts" : "odd wheel cuts", k);
}

static std::vector< std::string > pointSet(const Points &p)
{
  std::vector< std::string > r;
  for (size_t k = 0; k < p.size(); k++) {
    std::string t;
    for (int j = 0; j < p.n; j++) {
      char b[32];
      double v = floor(p.at(k)[j] * 1e5 + 0.5) / 1e5;
      snprintf(b, 32, "%.6g,", v == 0 ? 0.0 : v);
      t += b;
    }
    r.push_back(t);
  }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}

static void strengthen(Ctx &c)
{
  Src &s = c.s;
  Model m = binModel(c);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.getColType(true);
  if (s.pct(70))
    si.initialSolve();
  int dom, ext;
  {
    CoinMessageHandler h;
    h.setLogLevel(0);
    CglCliqueStrengthening q(&si, &h);
    size_t method = s.ipick({ 4, 0, 1, 2, 3, 5 });
    bool part = s.pct(30);
    c.d << "method " << method;
    if (part) {
      std::vector< size_t > rows;
      for (int i = 0; i < m.m(); i++)
        if (s.pct(50))
          rows.push_back(i);
      c.d << " " << rows.size() << " rows";
      q.strengthenCliques(rows.size(), rows.data(), method);
    } else
      q.strengthenCliques(method);
    c.d << "\n";
    dom = q.constraintsDominated();
    ext = q.constraintsExtended();
  }
  Model w(m);
  w.rows.clear();
  w.rl.clear();
  w.ru.clear();
  const CoinPackedMatrix *a = si.getNumRows() ? si.getMatrixByRow() : nullptr;
  for (int i = 0; i < si.getNumRows(); i++) {
    Row r;
    for (CoinBigIndex k = a->getVectorFirst(i); k < a->getVectorLast(i); k++)
      r.push_back({ a->getIndices()[k], a->getElements()[k] });
    w.addRow(r, si.getRowLower()[i], si.getRowUpper()[i]);
  }
  c.d << "becomes\n"
      << w.str();
  if (si.getNumCols() != m.n)
    c.fail("columns", "the number of columns changed");
  for (int j = 0; j < m.n; j++)
    if (si.getColLower()[j] != m.lo[j] || si.getColUpper()[j] != m.up[j] || (bool)si.isInteger(j) != (bool)m.isInt[j] || si.getObjCoefficients()[j] != m.obj[j])
      c.fail("columns", cat("column ", j, " changed"));
  Points before = enumerate(m), after = enumerate(w);
  if (!before.complete || !after.complete) {
    c.label("enumeration truncated");
    return;
  }
  auto pa = pointSet(before), pb = pointSet(after);
  for (auto &t : pa)
    if (!std::binary_search(pb.begin(), pb.end(), t))
      c.fail("lost", cat("(", t, ") was feasible and is not any more"));
  for (auto &t : pb)
    if (!std::binary_search(pa.begin(), pa.end(), t))
      c.fail("gained", cat("(", t, ") was infeasible and is feasible now"));
  if (ext && pa.size())
    c.nontrivial = true;
  c.label("rows extended", ext);
  c.label("rows dominated", dom);
}
static Reg r40({ "C40", "clique and odd wheel cuts from the conflict graph", graphCuts, 200000, 3000000, "a case = model, parameters, point, optional earlier use; non-trivial = at least one cut returned and an integer-feasible point exists" });
static Reg r41({ "C41", "clique strengthening", strengthen, 100000, 1200000, "a case = model, method, optional list of rows; non-trivial = at least one row extended and the model has a feasible point" });
