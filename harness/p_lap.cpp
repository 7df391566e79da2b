// C08: lift-and-project cuts: validity and separation
#include "flow.hpp"
using namespace pbt;

// min alpha.x over the normalised cuts alpha.y >= beta of the disjunction on j
// 0 = optimum in val, 1 = anything else
static int reference(const Model &m, const Vec &x, int j, double beta, double &val)
{
  // columns: alpha (free), u, v >= 0, u0, v0 free
  int n = m.n, k = m.m();
  OsiClpSolverInterface lp;
  lp.messageHandler()->setLogLevel(0);
  lp.getModelPtr()->setLogLevel(0);
  Model r;
  for (int q = 0; q < n; q++)
    r.addCol(-INF, INF, false, x[q]);
  int u = r.n;
  for (int i = 0; i < 2 * k; i++)
    r.addCol(0, INF, false, 0);
  int v = u + k, u0 = r.addCol(-INF, INF, false, 0), v0 = r.addCol(-INF, INF, false, 0);
  std::vector< Row > a(n), b(n);
  for (int q = 0; q < n; q++) {
    a[q].push_back(std::make_pair(q, 1.0));
    b[q].push_back(std::make_pair(q, 1.0));
  }
  Row bu, bv;
  for (int i = 0; i < k; i++) {
    for (auto &e : m.rows[i]) {
      a[e.first].push_back(std::make_pair(u + i, -e.second));
      b[e.first].push_back(std::make_pair(v + i, -e.second));
    }
    bu.push_back(std::make_pair(u + i, m.rl[i]));
    bv.push_back(std::make_pair(v + i, m.rl[i]));
  }
  a[j].push_back(std::make_pair(u0, -1.0));
  b[j].push_back(std::make_pair(v0, -1.0));
  bv.push_back(std::make_pair(v0, 1.0));
  for (int q = 0; q < n; q++) {
    r.addRow(a[q], 0, 0);
    r.addRow(b[q], 0, 0);
  }
  r.addRow(bu, beta, beta);
  r.addRow(bv, beta, beta);
  loadModel(r, lp);
  lp.setHintParam(OsiDoDualInInitial, false);
  lp.initialSolve();
  for (int q = 0; q < r.n; q++)
    if (std::fabs(lp.getColSolution()[q]) > 1e6)
      return 1;
  if (!lp.isProvenOptimal())
    return 1;
  val = lp.getObjValue();
  return 0;
}

static void c08(Ctx &c)
{
  Src &s = c.s;
  if (s.pct(30)) {
    validityFlow(c, LIFTPROJ);
    return;
  }
  Model m = genModelFor(c, LIFTPROJ);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  if (!solveLP(si))
    return;
  if (s.pct(25)) {
    // a point between the LP optimum and the centre of the box
    Vec y(si.getColSolution(), si.getColSolution() + m.n);
    double t = s.in(1, 3) * 0.25;
    for (int j = 0; j < m.n; j++) {
      double up = std::min(m.up[j], m.lo[j] + 4);
      y[j] = (1 - t) * y[j] + t * 0.5 * (m.lo[j] + up);
    }
    si.setColSolution(&y[0]);
  }
  Vec x(si.getColSolution(), si.getColSolution() + m.n);
  printPoint(c, si);
  CglLiftAndProject g;
  if (s.pct(40))
    g.setBeta(s.pct(60) ? -1 : 1);
  c.d << "beta " << g.getBeta() << "\n";
  si.getColType(true);
  OsiCuts cs;
  g.generateCuts(si, cs, genInfo(c, m, false));
  int frac = 0;
  for (int j = 0; j < m.n; j++)
    if (m.isInt[j] && x[j] != 0 && x[j] != 1)
      frac++;
  if (cs.sizeColCuts() || cs.sizeRowCuts() > frac)
    c.fail("too-many", cat(cs.sizeRowCuts(), " cuts for ", frac, " fractional columns"));
  for (int j = 0; j < m.n; j++) {
    if (!m.isInt[j] || m.lo[j] != 0 || m.up[j] != 1 || x[j] < 1e-3 || x[j] > 1 - 1e-3)
      continue;
    double v;
    if (reference(m, x, j, g.getBeta(), v)) {
      c.label("no normalised cut");
      continue;
    }
    double viol = g.getBeta() - v;
    if (viol < 1e-4 || std::fabs(v) > 1e6) {
      c.label("disjunction does not cut");
      continue;
    }
    c.label("separable disjunctions");
    c.nontrivial = true;
    double best = -1e30;
    for (int i = 0; i < cs.sizeRowCuts(); i++) {
      const OsiRowCut &rc = cs.rowCut(i);
      double a = 0;
      for (int q = 0; q < rc.row().getNumElements(); q++)
        a += rc.row().getElements()[q] * x[rc.row().getIndices()[q]];
      best = std::max(best, rc.lb() - a);
    }
    if (best < viol - 1e-5 * (1 + std::fabs(viol)))
      c.fail("not-separated", cat("the disjunction on x", j, " has a normalised cut violated by ", viol, "; the best of ", cs.sizeRowCuts(), " returned cuts is violated by ", best));
  }
  if (cs.sizeRowCuts()) {
    Points p = enumerate(m);
    checkWellFormed(c, "malformed", cs, m.n);
    checkValid(c, "invalid", cs, p, spec(LIFTPROJ).tol);
  }
}
static Reg r8({ "C08", "LiftAndProject", c08, 400000, 4800000,
  "a case = canonical mixed 0-1 model and point; non-trivial = some fractional 0-1 column whose disjunction has a violated normalised cut (reference LP), or, in the validity part, a cut was returned and an integer point exists" });
