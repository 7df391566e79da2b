// C43, C44: probing as preprocessing uses it (implications, tightened bounds,
// replaced rows, clique model) and the generators fed by what it finds
#include "flow.hpp"
#include "CglClique.hpp"
#include "CglProbing.hpp"
#include "CglTreeInfo.hpp"
using namespace pbt;

static bool in01(const Model &m, int j) { return m.isInt[j] && m.lo[j] >= 0 && m.up[j] <= 1; }

static std::string cutText(const OsiCuts &cs)
{
  std::string t;
  for (int i = 0; i < cs.sizeRowCuts(); i++)
    t += " " + str(cs.rowCut(i)) + "\n";
  for (int i = 0; i < cs.sizeColCuts(); i++)
    t += " " + str(cs.colCut(i)) + "\n";
  return t;
}

// Known finding: with mode 0 and cliques the call for preprocessing's pass 4
// ties the cliques to the elements of the rows as they are; the next call
// looks at other rows and other elements (fixed columns and free rows are
// left out) through the same positions.
static void mode0Finding(Ctx &c)
{
  const double inf = OsiClpSolverInterface().getInfinity();
  OsiClpSolverInterface si;
  si.messageHandler()->setLogLevel(0);
  CoinPackedMatrix mat(false, 0, 0);
  mat.setDimensions(0, 8);
  std::vector< double > rl, ru, lo(8, 0.0), up(8, 1.0), ob(8, -6.0);
  for (int i = 0; i < 8; i++) {
    int ix[] = { 0, 1, 2, 3 };
    double el[] = { 1, 1, 1, 1 };
    mat.appendRow(i == 3 ? 4 : 2, ix, el);
    rl.push_back(i == 3 ? 1 : -inf);
    ru.push_back(i == 3 ? inf : i ? 1 : 0);
  }
  si.loadProblem(mat, &lo[0], &up[0], &ob[0], &rl[0], &ru[0]);
  for (int j = 0; j < 7; j++)
    si.setInteger(j);
  si.getColType(true);
  si.initialSolve();
  CglProbing g;
  g.snapshot(si, NULL, false);
  OsiClpSolverInterface si2(si);
  si2.getColType(true);
  g.createCliques(si2, 2, 100);
  g.setMode(0);
  CglTreeInfo info;
  info.pass = 4;
  OsiCuts cs;
  int k = g.generateCutsAndModify(si, cs, &info);
  info.pass++;
  if (!k)
    k = g.generateCutsAndModify(si, cs, &info);
  if (k)
    c.label("known: probing-mode0-cliques");
}
// Known finding: mode 0 (looked at only in pass 4) with a snapshot returns
// -3 x0 + x6 <= 0, but x0=0, x6=3 is allowed.
static void mode0Cut(Ctx &c)
{
  OsiClpSolverInterface si;
  si.messageHandler()->setLogLevel(0);
  const double inf = si.getInfinity();
  const int ix[] = { 0, 2, 4, 0, 1, 0, 1, 2, 3, 4, 5, 1, 6, 0, 1, 2 };
  const double el[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -2, 1, -1, 1, -1 };
  const CoinBigIndex st[] = { 0, 3, 5, 10, 12, 14, 16 };
  const double rl[] = { -inf, -inf, -inf, -inf, 0, -inf }, ru[] = { 2, 1, 2, 0, inf, 1 };
  const double lo[] = { 0, 0, 0, 0, 0, 0, -1, 0 }, up[] = { 1, 1, 1, 1, 1, 1, 3, 1 };
  const double ob[] = { -2.5, -1.5, -1.5, -0.5, -2.5, -0.5, -0.5, -0.5 }, x[] = { 0.5, 0.5, 0, 0, 1, 1, 3, 1 };
  CoinPackedMatrix mat(false, 8, 6, 16, el, ix, st, NULL);
  si.loadProblem(mat, lo, up, ob, rl, ru);
  for (int j = 0; j < 5; j++)
    si.setInteger(j);
  si.getColType(true);
  si.initialSolve();
  si.setColSolution(x);
  CglProbing g;
  g.setRowCuts(1);
  g.snapshot(si, NULL, false);
  g.setMode(0);
  CglTreeInfo info;
  info.pass = 4;
  OsiCuts cs;
  g.generateCutsAndModify(si, cs, &info);
  const double p[] = { 0, 0, 0, 0, 0, 0, 3, 0 };
  for (int i = 0; i < cs.sizeRowCuts(); i++)
    if (cs.rowCut(i).violated(p) > 1e-6)
      c.label("known: probing-mode0");
}
static void session(Ctx &c)
{
  Src &s = c.s;
  if (s.raw(400) == 399) {
    mode0Finding(c);
    mode0Cut(c);
    return;
  }
  static const int kinds[] = { PROBING, PROBING, PROBING, KNAP, CLIQUE, DUPROW, ODDHOLE };
  Model m = genModelFor(c, kinds[s.raw(7)]);
  fitModel(PROBING, m);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.getColType(true);
  if (!place(c, PROBING, m, si)) {
    c.label("no LP optimum");
    return;
  }
  GenPtr gp = makeGen(c, PROBING, m);
  CglProbing &g = static_cast< CglProbing & >(*gp);
  Points pts = enumerate(m);
  if (s.pct(40))
    g.setMode(s.ipick({ 1, 2, 2, 8, 10, 66, 9 }));
  int nextra = s.weighted({ 3, 1, 1 });
  bool cliques = false;
  for (int e = 0; e < nextra; e++) {
    if (s.pct(50)) {
      int lo = s.ipick({ 2, 2, 3 }), hi = s.ipick({ 100, 4 });
      OsiClpSolverInterface si2(si);
      si2.getColType(true);
      int k = g.createCliques(si2, lo, hi);
      c.d << "createCliques(" << lo << "," << hi << ") = " << k << "\n";
      for (size_t q = 0; q < pts.size(); q++)
        for (int j = 0; j < m.n; j++)
          if (pts.at(q)[j] < si2.getColLower()[j] - 1e-7 || pts.at(q)[j] > si2.getColUpper()[j] + 1e-7)
            c.fail("cliques-fix", cat("createCliques fixes x", j, ", which removes ", strPoint(pts.at(q), m.n)));
      if (k < 0 && pts.size())
        c.fail("cliques-infeasible", "createCliques says infeasible");
      cliques = k > 0;
      if (k < 0)
        g.deleteCliques();
      if (cliques) {
        std::unique_ptr< OsiSolverInterface > f(g.cliqueModel(&si, s.pct(50) ? 1 : 5));
        const CoinPackedMatrix *mat = f->getMatrixByRow();
        for (int i = 0; i < f->getNumRows(); i++)
          for (size_t q = 0; q < pts.size(); q++) {
            double a = 0;
            for (CoinBigIndex z = mat->getVectorStarts()[i]; z < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; z++)
              a += mat->getElements()[z] * pts.at(q)[mat->getIndices()[z]];
            if (a < f->getRowLower()[i] - 1e-6 || a > f->getRowUpper()[i] + 1e-6)
              c.fail("cliques-row", cat("row ", i, " of cliqueModel removes ", strPoint(pts.at(q), m.n)));
          }
      }
    } else if (s.pct(50)) {
      bool obj = s.pct(50);
      int k = g.snapshot(si, NULL, obj);
      c.d << "snapshot(obj " << obj << ") = " << k << "\n";
      if (k && pts.size())
        c.fail("snapshot-infeasible", "snapshot says infeasible");
      if (!obj || s.pct(50))
        g.setUsingObjective(obj);
      if (s.pct(50))
        g.setMode(0);
    } else {
      GenPtr h(g.clone());
      gp = std::move(h);
      c.d << "cloned\n";
      return;
    }
  }
  CglTreeProbingInfo info(&si);
  info.level = 0;
  info.formulation_rows = m.m();
  info.inTree = s.pct(15);
  info.pass = s.ipick({ 0, 0, 1, 2, 4 });
  info.options = s.pct(40) ? 0 : s.ipick({ 2, 4, 8, 64, 64 | 2048, 2048, 64 | 2048 | 32768, 32768, 128, 32, 64 | 2, 4096 });
  CoinThreadRandom rng(987654321);
  if (s.pct(50))
    info.randomNumberGenerator = &rng;
  if (!(g.getMode() & 15) && !info.inTree && info.pass == 4)
    g.setMode(1); // see mode0Finding
  std::vector< OsiRowCut * > which(m.m() + 1, nullptr);
  bool strengthen = s.pct(40);
  if (strengthen)
    info.strengthenRow = &which[0];
  std::vector< double > lo(m.lo), up(m.up); // bounds as tightened so far
  int calls = 1 + s.weighted({ 3, 1 });
  int total = 0;
  c.d << "mode " << g.getMode() << " inTree " << info.inTree << " options " << info.options << " strengthen " << strengthen << "\n";
  for (int q = 0; q < calls; q++) {
    OsiCuts cs;
    int k = g.generateCutsAndModify(si, cs, &info);
    c.d << "call: " << k << "\n" << cutText(cs);
    total += cs.sizeRowCuts() + cs.sizeColCuts();
    if (k && pts.size())
      c.fail("infeasible", cat("probing says the model is infeasible (", k, ")"));
    if (k)
      break;
    checkWellFormed(c, "malformed", cs, m.n);
    checkValid(c, "invalid", cs, pts, spec(PROBING).tol);
    const double *tl = g.tightLower(), *tu = g.tightUpper();
    for (int j = 0; j < m.n; j++) {
      lo[j] = std::max(lo[j], tl[j]);
      up[j] = std::min(up[j], tu[j]);
    }
    for (size_t z = 0; z < pts.size(); z++)
      for (int j = 0; j < m.n; j++)
        if (pts.at(z)[j] < tl[j] - 1e-5 || pts.at(z)[j] > tu[j] + 1e-5)
          c.fail("tight", cat("tight bounds [", tl[j], ",", tu[j], "] of x", j, " remove ", strPoint(pts.at(z), m.n)));
    info.pass++;
    if (strengthen) {
      for (int i = 0; i < m.m(); i++)
        if (which[i]) {
          c.d << "row " << i << " replaced by " << str(*which[i]) << "\n";
          total++;
          c.label("replaced rows");
          for (size_t z = 0; z < pts.size(); z++)
            if (cutsOff(*which[i], pts.at(z), 1e-6))
              c.fail("replaced-invalid", cat("new row ", i, " removes ", strPoint(pts.at(z), m.n)));
        }
      // nothing new is let in
      Model r(m);
      for (int i = 0; i < m.m(); i++)
        if (which[i]) {
          r.rows[i].clear();
          for (int e = 0; e < which[i]->row().getNumElements(); e++)
            r.rows[i].push_back(std::make_pair(which[i]->row().getIndices()[e], which[i]->row().getElements()[e]));
          r.rl[i] = which[i]->lb() < -1e20 ? -INF : which[i]->lb();
          r.ru[i] = which[i]->ub() > 1e20 ? INF : which[i]->ub();
        }
      for (int j = 0; j < m.n; j++)
        if (m.isInt[j]) {
          r.lo[j] = std::max(r.lo[j], tl[j]);
          r.up[j] = std::min(r.up[j], tu[j]);
        }
      for (int i = 0; i < cs.sizeColCuts(); i++) {
        const CoinPackedVector &l = cs.colCut(i).lbs(), &u = cs.colCut(i).ubs();
        for (int e = 0; e < l.getNumElements(); e++)
          r.lo[l.getIndices()[e]] = std::max(r.lo[l.getIndices()[e]], l.getElements()[e]);
        for (int e = 0; e < u.getNumElements(); e++)
          r.up[u.getIndices()[e]] = std::min(r.up[u.getIndices()[e]], u.getElements()[e]);
      }
      Points after = enumerate(r);
      for (size_t z = 0; z < after.size(); z++)
        if (!feasible(m, after.at(z), 1e-5))
          c.fail("replaced-weaker", cat("with the new rows ", strPoint(after.at(z), m.n), " becomes feasible"));
      for (int i = 0; i <= m.m(); i++)
        for (int z = 0; z < cs.sizeRowCuts(); z++)
          if (which[i] == cs.rowCutPtr(z))
            which[i] = nullptr; // belongs to the collection
      break; // the caller replaces the rows before the next call
    }
  }
  for (auto w : which)
    delete w;
  info.strengthenRow = NULL;
  // implications
  int ni = info.numberIntegers(), found = 0;
  if (info.toZero() && ni) {
    const CliqueEntry *en = info.fixEntries();
    for (int i = 0; i < ni; i++)
      for (int j = info.toZero()[i]; j < info.toZero()[i + 1]; j++) {
        int a = info.integerVariable()[i], av = j >= info.toOne()[i], b = sequenceInCliqueEntry(en[j]);
        b = b < ni ? info.integerVariable()[b] : b - ni;
        double bv = oneFixesInCliqueEntry(en[j]) ? up[b] : lo[b];
        found++;
        for (size_t z = 0; z < pts.size(); z++)
          if (std::fabs(pts.at(z)[a] - av) < 1e-6 && std::fabs(pts.at(z)[b] - bv) > 1e-6)
            c.fail("implication", cat("x", a, "=", av, " is said to imply x", b, "=", bv, ", but not at ", strPoint(pts.at(z), m.n)));
      }
  }
  if (found)
    c.label("sessions with implications");
  if (total + found && pts.size())
    c.nontrivial = true;
  if (m.m() == 0)
    return;
  // what is built from them
  info.packDown();
  OsiCuts ic, ic2;
  CglImplication imp(&info);
  std::unique_ptr< CglCutGenerator > ig(s.pct(50) ? imp.clone() : NULL);
  (ig ? *ig : imp).generateCuts(si, ic, CglTreeInfo());
  static_cast< const CglTreeProbingInfo & >(info).generateCuts(si, ic2, CglTreeInfo());
  if (cutSigs(ic) != cutSigs(ic2))
    c.fail("implication-cuts", "CglImplication returns other cuts than the store");
  checkValid(c, "invalid-implication", ic, pts, 1e-6);
  if (ic.sizeRowCuts())
    c.label("implication cuts");
  std::unique_ptr< OsiSolverInterface > f(info.analyze(si, 1, s.pct(30) ? -1 : 0));
  if (!f)
    return;
  c.label("clique models");
  const CoinPackedMatrix *mat = f->getMatrixByRow();
  for (int i = 0; i < f->getNumRows(); i++)
    for (size_t q = 0; q < pts.size(); q++) {
      double a = 0;
      for (CoinBigIndex z = mat->getVectorStarts()[i]; z < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; z++)
        a += mat->getElements()[z] * pts.at(q)[mat->getIndices()[z]];
      if (a < f->getRowLower()[i] - 1e-6 || a > f->getRowUpper()[i] + 1e-6)
        c.fail("clique-model", cat("row ", i, " of the clique model removes ", strPoint(pts.at(q), m.n)));
    }
  if (f->getNumRows() == 0)
    return;
  CglFakeClique fc(f.get());
  OsiCuts fcuts;
  fc.generateCuts(si, fcuts, CglTreeInfo());
  c.d << "fake clique cuts:\n" << cutText(fcuts);
  checkWellFormed(c, "malformed-fake", fcuts, m.n);
  checkValid(c, "invalid-fake", fcuts, pts, 1e-6);
  if (fcuts.sizeRowCuts())
    c.label("fake clique cuts");
}
static Reg r43({ "C43", "Probing session", session, 240000, 3600000,
  "a case = model, probing parameters, mode, snapshot or cliques, call for preprocessing; non-trivial = a cut, a replaced row or an implication and a feasible point" });
