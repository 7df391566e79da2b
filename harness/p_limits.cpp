// C19: limits and row selections set by the caller
#include "flow.hpp"
#include "flow.hpp"
using namespace pbt;

static Model limModel(Ctx &c, int gen)
{
  if (c.s.pct(15)) {
    Points w;
    return wideModel(c, gen, w);
  }
  return genModelFor(c, gen);
}

static double lhsOf(const OsiRowCut &rc, const double *x)
{
  double a = 0;
  for (int k = 0; k < rc.row().getNumElements(); k++)
    a += rc.row().getElements()[k] * x[rc.row().getIndices()[k]];
  return a;
}
static double violationOf(const OsiRowCut &rc, const double *x)
{
  double a = lhsOf(rc, x);
  return std::max(rc.lb() > -1e20 ? rc.lb() - a : -INF, rc.ub() < 1e20 ? a - rc.ub() : -INF);
}
static Model withRows(const Model &m, const std::vector< char > &keep)
{
  Model r(m);
  r.rows.clear();
  r.rl.clear();
  r.ru.clear();
  for (int i = 0; i < m.m(); i++)
    if (keep[i])
      r.addRow(m.rows[i], m.rl[i], m.ru[i]);
  return r;
}

static void knap(Ctx &c)
{
  Src &s = c.s;
  Model m = limModel(c, KNAP);
  bool lists = s.pct(50);
  if (lists) // variable bound rows of continuous columns may be used besides the rows listed
    for (int j = 0; j < m.n; j++)
      if (!m.isInt[j] || m.lo[j] != 0 || m.up[j] != 1) {
        m.isInt[j] = 1;
        m.lo[j] = 0;
        m.up[j] = 1;
      }
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  CglKnapsackCover g;
  if (s.pct(40))
    g.switchOnExpensive();
  int limit = s.ipick({ 50, 3, 4, 5, 6, 7 });
  g.setMaxInKnapsack(limit);
  std::vector< char > keep(m.m(), lists ? 0 : 1);
  if (lists) {
    std::vector< int > w;
    for (int i = 0; i < m.m(); i++)
      if (s.pct(50)) {
        keep[i] = 1;
        w.push_back(i);
      }
    if (w.empty() && m.m()) {
      keep[0] = 1;
      w.push_back(0);
    }
    if (s.pct(20))
      w.push_back(s.pct(50) ? -1 : m.m());
    if (w.empty())
      throw Discard();
    if (s.pct(30) && w.size() > 1)
      std::swap(w[0], w.back());
    c.d << "tested rows";
    for (int i : w)
      c.d << " " << i;
    c.d << "\n";
    g.setTestedRowIndices((int)w.size(), w.data());
  }
  c.d << "limit " << limit << "\n";
  if (!place(c, KNAP, m, si))
    return;
  OsiCuts cs;
  CglTreeInfo info = genInfo(c, m);
  g.generateCuts(si, cs, info);
  if (!cs.sizeRowCuts())
    return;
  c.nontrivial = true;
  std::vector< int > len(m.m(), 0);
  for (int i = 0; i < m.m(); i++)
    for (auto &e : m.rows[i])
      if (m.lo[e.first] < m.up[e.first] && e.second)
        len[i]++;
  bool cont = false;
  for (int j = 0; j < m.n; j++)
    cont |= !m.isInt[j] || (m.lo[j] < m.up[j] && (m.lo[j] != 0 || m.up[j] != 1));
  for (int k = 0; k < cs.sizeRowCuts(); k++) {
    int nz = 0;
    const CoinPackedVector &r = cs.rowCut(k).row();
    for (int q = 0; q < r.getNumElements(); q++)
      if (m.lo[r.getIndices()[q]] < m.up[r.getIndices()[q]])
        nz++;
    if (nz > limit)
      c.fail("knapsack-limit", cat("cut with ", nz, " entries, limit ", limit, ": ", str(cs.rowCut(k))));
    // some row that was allowed must hold all of the cut
    if (!cont) {
      bool ok = false;
      for (int i = 0; i < m.m() && !ok; i++) {
        if (!keep[i] || len[i] > limit)
          continue;
        bool in = true;
        for (int q = 0; q < r.getNumElements() && in; q++) {
          bool f = false;
          for (auto &e : m.rows[i])
            f |= e.first == r.getIndices()[q];
          in = f;
        }
        ok = in;
      }
      if (!ok)
        c.fail("knapsack-rows", cat("no tested row within the limit holds all columns of ", str(cs.rowCut(k))));
    }
  }
  if (!cont) {
    std::vector< char > kk(keep);
    for (int i = 0; i < m.m(); i++)
      if (len[i] > limit)
        kk[i] = 0;
    checkValid(c, "knapsack-rows-invalid", cs, enumerate(withRows(m, kk)), 1e-6);
  }
}

static void clique(Ctx &c)
{
  Src &s = c.s;
  Model m = limModel(c, CLIQUE);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  bool orig = s.pct(60);
  CglClique g(false, orig);
  double mv = s.dpick({ 1e-6, 1e-3, 0.1, 0.25, 0.4, 1e-9 });
  bool setmv = s.pct(70);
  if (setmv)
    g.setMinViolation(mv);
  else
    si.getDblParam(OsiPrimalTolerance, mv);
  g.setDoRowClique(s.pct(70));
  g.setDoStarClique(s.pct(70));
  if (!place(c, CLIQUE, m, si))
    return;
  CglTreeInfo info = genInfo(c, m, true);
  int fr = m.m();
  if (s.pct(70))
    fr = s.in(0, m.m());
  info.formulation_rows = fr;
  c.d << "original rows only " << orig << ", " << fr << " of " << m.m() << " rows, min violation " << mv << "\n";
  OsiCuts cs;
  g.generateCuts(si, cs, info);
  if (!cs.sizeRowCuts())
    return;
  c.nontrivial = true;
  for (int k = 0; k < cs.sizeRowCuts(); k++)
    if (violationOf(cs.rowCut(k), si.getColSolution()) < mv - 1e-9)
      c.fail("clique-violation", cat("violation ", violationOf(cs.rowCut(k), si.getColSolution()), " below ", mv, ": ", str(cs.rowCut(k))));
  if (orig) {
    std::vector< char > keep(m.m(), 0);
    for (int i = 0; i < fr; i++)
      keep[i] = 1;
    checkValid(c, "clique-rows", cs, enumerate(withRows(m, keep)), 1e-6);
  }
}

static void oddhole(Ctx &c)
{
  Src &s = c.s;
  Model m = limModel(c, ODDHOLE);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.getColType(true);
  CglOddHole g;
  double mv = g.getMinimumViolation(), per = g.getMinimumViolationPer();
  int ent = g.getMaximumEntries();
  if (s.pct(60))
    g.setMinimumViolation(mv = s.dpick({ 0.2, 0.01, 0.4, 1e-6, 0.3 }));
  if (s.pct(50))
    g.setMinimumViolationPer(per = s.dpick({ 0.1, 0.05, 0.15, 1e-4, 0.01 }));
  if (s.pct(60))
    g.setMaximumEntries(ent = s.ipick({ 3, 4, 5, 6, 7 }));
  std::vector< char > keep(m.m(), 1);
  int how = s.in(0, 3);
  std::vector< int > w(m.m() + 1, 1);
  if (how) {
    for (int i = 0; i < m.m(); i++)
      w[i] = keep[i] = s.pct(80);
    if (how == 1)
      g.createRowList(m.m(), w.data());
    else if (how == 2)
      g.createRowList(si, w.data());
    else {
      int k = s.in(0, m.m()); // a list shorter than the model: later rows are not candidates
      g.createRowList(k, w.data());
      for (int i = k; i < m.m(); i++)
        keep[i] = 0;
      if (!k)
        how = 4; // no list
    }
    c.d << "rows";
    for (int i = 0; i < m.m(); i++)
      if (keep[i])
        c.d << " " << i;
    c.d << "\n";
  }
  c.d << "min violation " << mv << " per entry " << per << " entries " << ent << "\n";
  if (!place(c, ODDHOLE, m, si))
    return;
  OsiCuts cs;
  CglTreeInfo info = genInfo(c, m);
  g.generateCuts(si, cs, info);
  if (!cs.sizeRowCuts())
    return;
  c.nontrivial = true;
  for (int k = 0; k < cs.sizeRowCuts(); k++) {
    const OsiRowCut &rc = cs.rowCut(k);
    double v = violationOf(rc, si.getColSolution());
    int n = rc.row().getNumElements();
    if (v < mv - 1e-6)
      c.fail("oddhole-violation", cat("violation ", v, " below ", mv, ": ", str(rc)));
    if (n > ent)
      c.fail("oddhole-entries", cat(n, " entries, limit ", ent, ": ", str(rc)));
    if (v < per * n - 1e-6)
      c.fail("oddhole-per-entry", cat("violation ", v, " with ", n, " entries, below ", per, " per entry: ", str(rc)));
  }
  if (how && how != 4)
    checkValid(c, "oddhole-rows", cs, enumerate(withRows(m, keep)), 1e-6);
}

static void redsplit(Ctx &c)
{
  Src &s = c.s;
  Model m = limModel(c, REDSPLIT);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  CglRedSplit g;
  CglRedSplitParam p = g.getParam();
  if (s.pct(70))
    p.setMAX_SUPPORT(s.in(1, 6));
  if (s.pct(50)) {
    double d = s.dpick({ 3, 10, 50, 1.5, 1000 });
    p.setMAXDYN(d);
    if (s.pct(70))
      p.setMAXDYN_LUB(d * s.dpick({ 1, 2, 10 }));
  }
  if (s.pct(50))
    p.setMINVIOL(s.dpick({ 0.01, 0.05, 0.1, 0.001 }));
  if (s.pct(50))
    p.setAway(s.dpick({ 0.2, 0.05, 0.01, 0.3, 0.45 }));
  if (s.pct(40))
    p.setUSE_CG2(1);
  if (s.pct(20))
    p.setEPS_COEFF(s.dpick({ 1e-8, 1e-3, 0.05 }));
  g.setParam(p);
  c.d << params(REDSPLIT, g) << "\n";
  if (!place(c, REDSPLIT, m, si))
    return;
  double away = 0;
  for (int j = 0; j < m.n; j++)
    if (m.isInt[j]) {
      double x = si.getColSolution()[j], f = x - std::floor(x);
      away = std::max(away, std::min(f, 1 - f));
    }
  OsiCuts cs;
  CglTreeInfo info = genInfo(c, m);
  g.generateCuts(si, cs, info);
  if (cs.sizeRowCuts() || (away > 1e-6 && away < p.getAway()))
    c.nontrivial = true;
  if (cs.sizeRowCuts() && away < p.getAway() - 1e-7)
    c.fail("redsplit-away", cat("cuts although no integer column is further than ", away, " from an integer, limit ", p.getAway()));
  for (int k = 0; k < cs.sizeRowCuts(); k++) {
    const OsiRowCut &rc = cs.rowCut(k);
    int n = rc.row().getNumElements();
    if (n > p.getMAX_SUPPORT())
      c.fail("redsplit-support", cat(n, " entries, limit ", p.getMAX_SUPPORT(), ": ", str(rc)));
    double v = violationOf(rc, si.getColSolution());
    if (v > 1e-5 && v < p.getMINVIOL() * n - 1e-6)
      c.fail("redsplit-violation", cat("violation ", v, " below ", p.getMINVIOL(), " per entry: ", str(rc)));
    double mx = 0, mn = INF;
    bool lub = false;
    for (int q = 0; q < n; q++) {
      double e = std::fabs(rc.row().getElements()[q]);
      int j = rc.row().getIndices()[q];
      mx = std::max(mx, e);
      mn = std::min(mn, e);
      lub |= std::fabs(m.lo[j]) > p.getLUB() || std::fabs(m.up[j]) > p.getLUB();
      if (e <= p.getEPS_COEFF() && !(std::fabs(m.lo[j]) > p.getLUB() || std::fabs(m.up[j]) > p.getLUB()))
        c.fail("redsplit-small", cat("coefficient ", e, " not above EPS_COEFF ", p.getEPS_COEFF(), ": ", str(rc)));
    }
    if (mn > 60 * p.getEPS_COEFF() && mx > (1 + 1e-6) * (lub ? std::max(p.getMAXDYN_LUB(), p.getMAXDYN()) : p.getMAXDYN()) * mn)
      c.fail("redsplit-dyn", cat("coefficient ratio ", mx / mn, " limit ", lub ? p.getMAXDYN_LUB() : p.getMAXDYN(), ": ", str(rc)));
  }
}

// at most MAXAGGR rows, besides variable bounds, are behind a cut
static void mir(Ctx &c)
{
  Src &s = c.s;
  Model m = genModelFor(c, MIR);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  int ag = s.pct(70) ? 1 : 2;
  CglMixedIntegerRounding g(ag, s.pct(60), s.in(1, 3), s.ipick({ -1, 0, 1 }));
  c.d << params(MIR, g) << "\n";
  g.refreshSolver(&si);
  if (!place(c, MIR, m, si))
    return;
  OsiCuts cs;
  CglTreeInfo info = genInfo(c, m);
  g.generateCuts(si, cs, info);
  if (!cs.sizeRowCuts())
    return;
  int big = 0;
  std::vector< char > base(m.m(), 0);
  for (int i = 0; i < m.m(); i++) {
    if (m.rows[i].size() <= 2)
      base[i] = 1; // may serve as variable bound
    else
      big++;
  }
  if (big <= ag)
    return; // nothing to tell apart
  c.nontrivial = true;
  std::vector< char > good(cs.sizeRowCuts(), 0);
  std::vector< int > pick(ag, 0);
  for (int i = 0; i < m.m(); i++)
    for (int j = ag == 1 ? i : 0; j <= (ag == 1 ? i : i - 1); j++) {
      if (base[i] || base[j])
        continue;
      std::vector< char > keep(base);
      keep[i] = keep[j] = 1;
      Points pts = enumerate(withRows(m, keep));
      if (!pts.complete) {
        c.label("too large");
        c.nontrivial = false;
        return;
      }
      for (int k = 0; k < cs.sizeRowCuts(); k++) {
        if (good[k])
          continue;
        bool ok = true;
        for (size_t q = 0; q < pts.size() && ok; q++)
          ok = !cutsOff(cs.rowCut(k), pts.at(q), 1e-6);
        good[k] = ok;
      }
    }
  for (int k = 0; k < cs.sizeRowCuts(); k++)
    if (!good[k])
      c.fail("mir-aggregation", cat("cut does not follow from any ", ag, " rows and the variable bounds: ", str(cs.rowCut(k))));
}

static void run(Ctx &c)
{
  int k = c.s.weighted({ 5, 4, 5, 5, 2 });
  static const char *nm[] = { "KnapsackCover", "Clique", "OddHole", "RedSplit", "MixedIntegerRounding" };
  c.d << nm[k] << "\n";
  switch (k) {
  case 0:
    knap(c);
    break;
  case 1:
    clique(c);
    break;
  case 2:
    oddhole(c);
    break;
  case 3:
    redsplit(c);
    break;
  default:
    mir(c);
  }
  if (c.nontrivial)
    c.label(std::string(nm[k]) + " with cuts");
}
static Reg r19({ "C19", "limits", run, 500000, 6000000, "a case = one model, one generator with limits and one call; non-trivial = cuts were returned to check against the limits (or, for RedSplit's Away, the only fractional values are within the limit)" });
