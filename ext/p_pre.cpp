// C44, C45: preprocessing keeps the optimum and its solutions can be carried back
#include "flow.hpp"
#include "CglPreProcess.hpp"
#include "CglProbing.hpp"
#include "CglDuplicateRow.hpp"
#include "CglKnapsackCover.hpp"
using namespace pbt;

// plain branch and bound with Clp; status 0 optimal, 1 infeasible, 2 gave up
struct BB {
  OsiClpSolverInterface si;
  int nodes = 0;
  bool gaveUp = false;
  double best = 1e50;
  Vec x;
  explicit BB(const OsiSolverInterface &m) : si(*dynamic_cast< const OsiClpSolverInterface * >(&m))
  {
    si.getModelPtr()->setSpecialOptions(0);
    si.setSpecialOptions(0);
    si.setHintParam(OsiDoReducePrint, true, OsiHintTry);
    si.messageHandler()->setLogLevel(0);
    si.getModelPtr()->setLogLevel(0);
    si.setDblParam(OsiDualObjectiveLimit, 1e50);
  }
  void node()
  {
    if (!si.getNumRows()) {
      // no rows: every column by itself
      ++nodes;
      int n = si.getNumCols();
      double off = 0, obj = 0;
      si.getDblParam(OsiObjOffset, off);
      Vec y(n);
      for (int j = 0; j < n; j++) {
        double l = si.getColLower()[j], u = si.getColUpper()[j], c = si.getObjCoefficients()[j] * si.getObjSense();
        if (si.isInteger(j)) {
          l = ceil(l - 1e-6);
          u = floor(u + 1e-6);
        }
        if (l > u + 1e-6)
          return;
        y[j] = c >= 0 ? l : u;
        if (fabs(y[j]) > 1e20)
          y[j] = l > -1e20 ? l : u < 1e20 ? u : 0;
        obj += y[j] * si.getObjCoefficients()[j];
      }
      best = (obj - off) * si.getObjSense();
      x = y;
      return;
    }
    if (gaveUp || ++nodes > 3000) {
      gaveUp = true;
      return;
    }
    si.initialSolve();
    if (si.isProvenPrimalInfeasible())
      return;
    if (!si.isProvenOptimal()) {
      gaveUp = true;
      return;
    }
    double obj = si.getObjValue() * si.getObjSense();
    if (obj >= best - 1e-9)
      return;
    int n = si.getNumCols(), at = -1;
    double f = 1e-6;
    const double *y = si.getColSolution();
    for (int j = 0; j < n; j++)
      if (si.isInteger(j)) {
        double d = fabs(y[j] - floor(y[j] + 0.5));
        if (d > f) {
          f = d;
          at = j;
        }
      }
    if (at < 0) {
      best = obj;
      x.assign(y, y + n);
      return;
    }
    double v = y[at], l = si.getColLower()[at], u = si.getColUpper()[at];
    si.setColUpper(at, floor(v));
    node();
    si.setColUpper(at, u);
    si.setColLower(at, ceil(v));
    node();
    si.setColLower(at, l);
  }
  int run()
  {
    node();
    return gaveUp ? 2 : best < 1e49 ? 0 : 1;
  }
};

static Model preModel(Ctx &c)
{
  Src &s = c.s;
  static const int kinds[] = { KNAP, CLIQUE, ZEROHALF, MIR, DUPROW, PROBING, FLOWCOVER, GOMORY };
  Model m = genModelFor(c, kinds[s.raw(8)]);
  for (int j = 0; j < m.n; j++) {
    if (m.lo[j] < -20)
      m.lo[j] = -5;
    if (m.up[j] > 40)
      m.up[j] = m.lo[j] + 5 + (m.isInt[j] ? 0 : 25);
  }
  return m;
}

// known finding (known_findings.txt): only this model, with the default preprocessing
static void singletonCost(Ctx &c)
{
  Model m;
  for (int j = 0; j < 4; j++)
    m.addCol(0, 1, true, -4.5);
  m.addCol(0, 2, false, 0.5);
  m.rows = { { { 1, 3. }, { 2, 3. }, { 3, 4. } }, { { 2, -1. }, { 4, -1. } } };
  m.rl = { 4, -1e50 };
  m.ru = { 6, -1 };
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.initialSolve();
  CglPreProcess p;
  p.messageHandler()->setLogLevel(0);
  OsiSolverInterface *q = p.preProcess(si, false, 1);
  if (!q)
    c.fail("infeasible", "preprocessing says infeasible, but x = (1, 1, 1, 0, 0) is feasible");
  BB bb(*q);
  int st = bb.run();
  if (st == 0 && fabs(bb.best + 13) < 1e-2)
    c.label("known: preprocess-singleton-cost");
  else if (st != 2 && (st || fabs(bb.best + 13.5) > 1e-2))
    c.fail("optimum", cat("optimum ", bb.best, " after preprocessing, -13.5 before"));
}

static void preFlow(Ctx &c, bool post)
{
  Src &s = c.s;
  if (!post && s.raw(1000) == 7) {
    singletonCost(c);
    return;
  }
  Model m = preModel(c);
  bool dflt = s.pct(30), prob = dflt || s.pct(70);
  if (prob) {
    // as for C32 and C43: probing moves costed columns of one slack row; see also singletonCost
    for (int j = 0; j < m.n; j++) {
      int in = 0;
      for (int i = 0; i < m.m(); i++) {
        bool has = false;
        for (auto &e : m.rows[i])
          has |= e.first == j;
        in += has;
      }
      if (in < 2)
        m.obj[j] = 0;
    }
  }
  c.d << m.str();
  bool maxi = s.pct(25);
  if (maxi) {
    for (double &o : m.obj)
      o = -o;
    c.d << "maximise the negative of the objective\n";
  }
  OsiClpSolverInterface si;
  loadModel(m, si);
  if (maxi)
    si.setObjSense(-1);
  si.initialSolve();
  CglPreProcess p;
  p.messageHandler()->setLogLevel(0);
  CglProbing probing;
  CglDuplicateRow dup(&si);
  CglKnapsackCover knapsack;
  std::vector< char > keep;
  OsiSolverInterface *q;
  int passes = s.in(1, 5);
  if (dflt) {
    bool eq = s.pct(30);
    c.d << "preProcess(" << eq << "," << passes << ")\n";
    q = p.preProcess(si, eq, passes);
  } else {
    int eq = s.ipick({ 0, 0, 0, 1, 1, 2, 3 });
    int tuning = s.ipick({ 0, 0, 6, 4, 2, 32, 4096 });
    if (prob) {
      probing.setUsingObjective(s.ipick({ 0, 1, 1, 2 }));
      probing.setMaxPass(s.ipick({ 1, 3 }));
      probing.setMaxPassRoot(s.ipick({ 1, 3 }));
      probing.setRowCuts(s.ipick({ 0, 1, 3, 3, -3 }));
      probing.setMaxElements(300);
      probing.setMaxLookRoot(50);
      p.addCutGenerator(&probing);
      c.d << "probing ";
    }
    if (s.pct(25)) {
      p.addCutGenerator(&dup);
      c.d << "duplicate rows ";
    }
    if (s.pct(15)) {
      p.addCutGenerator(&knapsack);
      c.d << "knapsack ";
    }
    if (s.pct(15)) {
      for (int j = 0; j < m.n; j++)
        keep.push_back(s.pct(30));
      p.passInProhibited(keep.data(), m.n);
      c.d << "prohibited";
      for (int j = 0; j < m.n; j++)
        if (keep[j])
          c.d << " x" << j;
      c.d << " ";
    }
    c.d << "preProcessNonDefault(" << eq << "," << passes << "," << tuning << ")\n";
    q = p.preProcessNonDefault(si, eq, passes, tuning);
  }
  Points pts = enumerate(m);
  if (!pts.complete) {
    c.label("enumeration truncated");
    return;
  }
  double best = 1e50;
  for (size_t k = 0; k < pts.size(); k++) {
    double o = 0;
    for (int j = 0; j < m.n; j++)
      o += m.obj[j] * pts.at(k)[j];
    best = std::min(best, maxi ? -o : o);
  }
  if (!q) {
    c.label("found infeasible");
    if (pts.size() && post)
      return;
    if (pts.size())
      c.fail("infeasible", cat("preprocessing says infeasible, but ", strPoint(pts.at(0), m.n), " is feasible"));
    c.nontrivial = !post;
    return;
  }
  if (q->getNumCols() < m.n || q->getNumRows() < m.m())
    c.label("reduced");
  {
    double off = 0;
    q->getDblParam(OsiObjOffset, off);
    c.d << "preprocessed: offset " << off << ", " << q->getNumCols() << " columns:";
    for (int j = 0; j < q->getNumCols(); j++)
      c.d << " y" << j << (q->isInteger(j) ? "i" : "c") << "[" << q->getColLower()[j] << "," << q->getColUpper()[j] << "]*" << q->getObjCoefficients()[j];
    c.d << "\n";
    for (int i = 0; i < q->getNumRows(); i++) {
      c.d << "  " << q->getRowLower()[i] << " <=";
      const CoinPackedMatrix *a = q->getMatrixByRow();
      for (CoinBigIndex k = a->getVectorFirst(i); k < a->getVectorLast(i); k++)
        c.d << " " << a->getElements()[k] << " y" << a->getIndices()[k];
      c.d << " <= " << q->getRowUpper()[i] << "\n";
    }
  }
  BB bb(*q);
  int st = bb.run();
  if (st == 2) {
    c.label("branch and bound gave up");
    return;
  }
  if (st == 1) {
    if (pts.size() && post)
      return;
    if (pts.size())
      c.fail("lost", cat("the preprocessed model is infeasible, the original has optimum ", best));
    c.label("infeasible model");
    return;
  }
  if (!pts.size() && post)
    return;
  if (!pts.size())
    c.fail("gained", "the preprocessed model has a solution, the original has none");
  double tol = 1e-3 * (1 + fabs(best)); // bounds are loosened by 1e-5
  if (fabs(bb.best - best) > tol && post) {
    c.label("optimum changed by preprocessing (C44)");
    return;
  }
  if (fabs(bb.best - best) > tol)
    c.fail("optimum", cat("optimum ", bb.best, " after preprocessing, ", best, " before"));
  c.nontrivial = q->getNumCols() < m.n || q->getNumRows() < m.m();
  if (!post)
    return;
  // the usual way back: integers fixed, LP solved
  for (int j = 0; j < q->getNumCols(); j++)
    if (q->isInteger(j)) {
      double v = floor(bb.x[j] + 0.5);
      q->setColBounds(j, v, v);
    }
  q->resolve();
  if (!q->isProvenOptimal()) {
    c.label("fixed model not optimal");
    return;
  }
  p.postProcess(*q);
  const double *x = si.getColSolution();
  double o = 0;
  for (int j = 0; j < m.n; j++) {
    o += m.obj[j] * x[j];
    if (x[j] < m.lo[j] - 1e-5 || x[j] > m.up[j] + 1e-5)
      c.fail("post-bound", cat("x", j, " = ", x[j], " out of bounds after postprocessing"));
    if (m.isInt[j] && fabs(x[j] - floor(x[j] + 0.5)) > 1e-5)
      c.fail("post-integer", cat("x", j, " = ", x[j], " not integral after postprocessing"));
  }
  for (int i = 0; i < m.m(); i++) {
    double a = act(m.rows[i], x), t = 1e-3 * (1 + fabs(a));
    if (a < m.rl[i] - t || a > m.ru[i] + t)
      c.fail("post-row", cat("row ", i, " has activity ", a, " after postprocessing"));
  }
  if (maxi)
    o = -o;
  if (fabs(o - best) > tol)
    c.fail("post-objective", cat("objective ", o, " after postprocessing, optimum ", best));
}
static void pre(Ctx &c) { preFlow(c, false); }
static void prepost(Ctx &c) { preFlow(c, true); }
static Reg r40({ "C44", "Preprocessing keeps the optimum", pre, 40000, 720000, "a case = model, options of the preprocessing; non-trivial = the model was found infeasible or became smaller" });
static Reg r41({ "C45", "Postprocessing", prepost, 50000, 960000, "a case = model, options of the preprocessing, way back; non-trivial = the model became smaller and a solution was carried back" });
