// C15 solver/cut collection untouched, C16 copies, C17 determinism and history
// independence, C18 well-formed/violated/new cuts, C23 global validity marks
#include "CoinHelperFunctions.hpp"
#include "flow.hpp"
#include <cstring>
using namespace pbt;

// everything a caller can see of a solver
std::string snapshot(const OsiSolverInterface &si)
{
  std::ostringstream o;
  o.precision(17);
  int n = si.getNumCols(), m = si.getNumRows();
  o << n << "x" << m << " sense " << si.getObjSense() << "\n";
  auto vec = [&](const char *nm, const double *v, int k) {
    o << nm;
    for (int i = 0; i < k; i++)
      o << " " << (v ? v[i] + 0.0 : -12345.0); // no negative zeros
    o << "\n";
  };
  vec("lo", si.getColLower(), n);
  vec("up", si.getColUpper(), n);
  vec("ob", si.getObjCoefficients(), n);
  vec("rl", si.getRowLower(), m);
  vec("ru", si.getRowUpper(), m);
  vec("x", si.getColSolution(), n);
  vec("act", si.getRowActivity(), m);
  vec("pi", si.getRowPrice(), m);
  vec("dj", si.getReducedCost(), n);
  o << "int";
  for (int j = 0; j < n; j++)
    o << " " << si.isInteger(j);
  o << "\n";
  const CoinPackedMatrix *r = si.getMatrixByRow();
  for (int i = 0; r && i < m; i++) {
    CoinBigIndex a = r->getVectorStarts()[i];
    o << "r" << i;
    for (int k = 0; k < r->getVectorLengths()[i]; k++)
      o << " " << r->getIndices()[a + k] << ":" << r->getElements()[a + k];
    o << "\n";
  }
  const CoinPackedMatrix *cm = si.getMatrixByCol();
  for (int j = 0; cm && j < n; j++) {
    CoinBigIndex a = cm->getVectorStarts()[j];
    o << "c" << j;
    for (int k = 0; k < cm->getVectorLengths()[j]; k++)
      o << " " << cm->getIndices()[a + k] << ":" << cm->getElements()[a + k];
    o << "\n";
  }
  o << "obj " << si.getObjValue() << " opt " << si.isProvenOptimal() << " inf " << si.isProvenPrimalInfeasible() << "\n";
  CoinWarmStart *ws = si.getWarmStart();
  CoinWarmStartBasis *b = dynamic_cast< CoinWarmStartBasis * >(ws);
  if (b) {
    o << "basis";
    for (int j = 0; j < b->getNumStructural(); j++)
      o << " " << (int)b->getStructStatus(j);
    o << " |";
    for (int i = 0; i < b->getNumArtificial(); i++)
      o << " " << (int)b->getArtifStatus(i);
    o << "\n";
  }
  delete ws;
  return o.str();
}
static std::string firstDiff(const std::string &a, const std::string &b)
{
  std::istringstream x(a), y(b);
  std::string l, r;
  while (true) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, r);
    if (!p && !q)
      return "no difference";
    if (!p || !q || l != r)
      return "before: " + (p ? l : std::string("-")) + " after: " + (q ? r : std::string("-"));
  }
}

static std::string colSig(const OsiColCut &c)
{
  return str(c);
}
std::vector< std::string > fullSig(const OsiCuts &cs)
{
  std::vector< std::string > v;
  for (int i = 0; i < cs.sizeRowCuts(); i++)
    v.push_back(cat("r ", cutSig(cs.rowCut(i)), " eff ", cs.rowCut(i).effectiveness(), " gv ", cs.rowCut(i).globallyValid()));
  for (int i = 0; i < cs.sizeColCuts(); i++)
    v.push_back(cat("c ", colSig(cs.colCut(i)), " eff ", cs.colCut(i).effectiveness(), " gv ", cs.colCut(i).globallyValid()));
  return v;
}

static Model histModel(Ctx &c, int gen)
{
  Model m;
  if ((gen < LIFTPROJ || gen >= NGEN) && c.s.pct(12)) {
    Points w;
    m = wideModel(c, gen, w);
  } else
    m = genModelFor(c, gen);
  fitModel(gen, m);
  return m;
}

// the generators to choose from: the base ones, or those of ext/
static int genFrom = 0, genTo = NGEN - 1;
static int anyGen(Ctx &c)
{
  return c.s.in(genFrom, genTo);
}

static void addRandomCuts(Ctx &c, const Model &m, OsiCuts &cs)
{
  Src &s = c.s;
  int k = s.in(0, 4);
  for (int i = 0; i < k && m.n; i++) {
    if (s.pct(70)) {
      OsiRowCut rc;
      std::vector< int > ix;
      std::vector< double > el;
      for (int j = 0; j < m.n; j++)
        if (s.pct(50)) {
          ix.push_back(j);
          el.push_back(s.in(-4, 4) + 0.5);
        }
      if (!ix.empty())
        rc.setRow((int)ix.size(), &ix[0], &el[0]);
      rc.setLb(s.pct(50) ? -INF : -s.in(0, 9));
      rc.setUb(s.in(0, 9));
      rc.setEffectiveness(s.in(0, 5) * 0.125);
      if (s.pct(30))
        rc.setGloballyValid();
      cs.insert(rc);
    } else {
      OsiColCut cc;
      int j = (int)s.raw(m.n);
      double v = m.lo[j];
      if (s.pct(50))
        cc.setUbs(1, &j, &v);
      else
        cc.setLbs(1, &j, &v);
      cs.insert(cc);
    }
  }
}

static void c15(Ctx &c)
{
  Src &s = c.s;
  int gen = anyGen(c);
  Model m = histModel(c, gen);
  c.d << spec(gen).name << "\n"
      << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  if (gen == LIFTPROJ || gen == SIMPLE || gen == ODDHOLE)
    si.getColType(true);
  if (s.pct(8))
    si.setObjSense(-1);
  GenPtr g = makeGen(c, gen, m);
  if (!place(c, gen, m, si))
    return;
  std::string s0 = snapshot(si);
  std::string s00 = snapshot(si);
  if (s0 != s00)
    throw Discard(); // the snapshot itself must be stable
  refresh(gen, *g, si);
  std::string s1 = snapshot(si);
  if (s0 != s1)
    c.fail("refresh-changed-solver", cat(spec(gen).name, "::refreshSolver changed the solver: ", firstDiff(s0, s1)));
  OsiCuts cs;
  addRandomCuts(c, m, cs);
  int calls = 1 + s.weighted({ 3, 1 });
  for (int k = 0; k < calls; k++) {
    CglTreeInfo info = genInfo(c, m, s.pct(30));
    std::vector< std::string > before = fullSig(cs);
    int r0 = cs.sizeRowCuts(), c0 = cs.sizeColCuts();
    std::vector< const OsiRowCut * > ptr;
    for (int i = 0; i < r0; i++)
      ptr.push_back(cs.rowCutPtr(i));
    g->generateCuts(si, cs, info);
    std::string s2 = snapshot(si);
    if (s1 != s2)
      c.fail("solver-changed", cat(spec(gen).name, "::generateCuts changed the solver: ", firstDiff(s1, s2)));
    if (cs.sizeRowCuts() < r0 || cs.sizeColCuts() < c0)
      c.fail("cuts-removed", cat(spec(gen).name, " removed cuts of the caller"));
    std::vector< std::string > after;
    OsiCuts old;
    for (int i = 0; i < r0; i++)
      old.insert(cs.rowCut(i));
    for (int i = 0; i < c0; i++)
      old.insert(cs.colCut(i));
    after = fullSig(old);
    for (size_t i = 0; i < before.size(); i++)
      if (before[i] != after[i])
        c.fail("cuts-changed", cat(spec(gen).name, " changed cut ", i, " of the caller: ", before[i], " -> ", after[i]));
    if (cs.sizeRowCuts() + cs.sizeColCuts() > r0 + c0) {
      c.nontrivial = true;
      c.label(cat(spec(gen).name, " calls with cuts"));
    } else
      c.label(cat(spec(gen).name, " calls without cuts"));
  }
}

static std::vector< std::string > runOn(Ctx &c, CglCutGenerator &g, const OsiSolverInterface &si, const CglTreeInfo &info)
{
  OsiCuts cs;
  if (genFrom) {
    // the order of the basis inside of Clp, which shows in what some of these
    // return, can change with every access to the factorization
    std::unique_ptr< OsiSolverInterface > s2(si.clone());
    s2->getColType(true);
    CoinSeedRandom(1234567); // LandP draws from the global stream
    g.generateCuts(*s2, cs, info);
  } else
    g.generateCuts(si, cs, info);
  std::vector< std::string > v = fullSig(cs);
  if (CglDuplicateRow *d = dynamic_cast< CglDuplicateRow * >(&g)) {
    for (int i = 0; i < si.getNumRows(); i++)
      if (d->duplicate() && d->duplicate()[i] != -1)
        v.push_back(cat("row ", i, " same as ", d->duplicate()[i]));
  }
  return v;
}
static std::string listDiff(const std::vector< std::string > &a, const std::vector< std::string > &b)
{
  size_t k = 0;
  while (k < a.size() && k < b.size() && a[k] == b[k])
    k++;
  return cat(a.size(), " cuts against ", b.size(), "; first difference: ", k < a.size() ? a[k] : "-", " against ", k < b.size() ? b[k] : "-");
}

// the generator and, from the same choices, a second one
static void twoGens(Ctx &c, int gen, const Model &m, GenPtr &g1, GenPtr &g2)
{
  size_t p0 = c.s.own.size();
  g1 = makeGen(c, gen, m);
  std::vector< uint32_t > part(c.s.own.begin() + p0, c.s.own.end());
  Src sub;
  sub.replay = &part;
  Ctx c2(sub);
  g2 = makeGen(c2, gen, m);
}

// generators that draw random numbers from their own stream, keep a budget of
// cuts or remember the size of the first model
static bool keepsState(int gen, const std::string &par)
{
  if (gen == FLOWCOVER)
    return par.find("maxcuts=2000000") == std::string::npos;
  return gen == TWOMIR || gen == LANDP;
}
static void c17(Ctx &c)
{
  Src &s = c.s;
  int gen = anyGen(c);
  Model m = histModel(c, gen);
  c.d << spec(gen).name << "\n"
      << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  GenPtr g1, g2;
  twoGens(c, gen, m, g1, g2);
  if (!place(c, gen, m, si))
    return;
  CglTreeInfo info = genInfo(c, m, s.pct(20));
  refresh(gen, *g2, si);
  std::string p2 = params(gen, *g2);
  std::vector< std::string > ref = runOn(c, *g2, si, info);
  std::vector< std::string > again = runOn(c, *g2, si, info);
  // what such a generator returns may depend on its own earlier calls, but
  // on nothing else: another object is used instead
  bool keeps = keepsState(gen, p2);
  GenPtr g3;
  if (keeps)
    g3 = copyGen(gen, *g1);
  CglCutGenerator &used = keeps ? *g3 : *g1;
  if (!keeps && ref != again)
    c.fail("not-repeatable", cat(spec(gen).name, ": second call on the same model differs: ", listDiff(ref, again)));
  // other use of g1 first
  int k = oneModel(gen) ? 1 : 1 + s.weighted({ 3, 2, 1 });
  for (int q = 0; q < k; q++) {
    Model o;
    if (oneModel(gen)) {
      o = m;
      for (int j = 0; j < o.n; j++)
        if (o.isInt[j] && s.pct(50))
          o.lo[j] = o.up[j] = s.in((int)std::max(-9.0, m.lo[j]), (int)std::min(9.0, m.up[j]));
    } else
      o = histModel(c, gen);
    c.d << "earlier use:\n"
        << o.str();
    OsiClpSolverInterface so;
    loadModel(o, so);
    refresh(gen, used, so);
    if (!place(c, gen, o, so))
      continue;
    CglTreeInfo io = genInfo(c, o, s.pct(20));
    OsiCuts cs;
    used.generateCuts(so, cs, io);
    c.label("earlier uses");
  }
  refresh(gen, *g1, si);
  std::vector< std::string > got = runOn(c, *g1, si, info);
  if (got != ref)
    c.fail("history-dependent", cat(spec(gen).name, ": a used generator and a new one differ: ", listDiff(ref, got)));
  std::string p1 = params(gen, *g1);
  if (p1 != p2 || params(gen, *g2) != p2)
    c.fail("params-changed", cat(spec(gen).name, ": parameters changed by use: ", p1, " / ", p2));
  // and the new one still gives the same now
  got = keeps ? runOn(c, *g1, si, info) : runOn(c, *g2, si, info);
  if (again != got)
    c.fail("global-state", cat(spec(gen).name, ": use of another generator object changed the result: ", listDiff(again, got)));
  if (!ref.empty()) {
    c.nontrivial = true;
    c.label(cat(spec(gen).name, " with cuts"));
  }
}

void paramHistory(Ctx &c, bool copiesOnly);
static void c16(Ctx &c)
{
  Src &s = c.s;
  if (genFrom == 0 && s.pct(12)) { // parameter objects
    paramHistory(c, true);
    return;
  }
  int gen = anyGen(c);
  Model m = histModel(c, gen);
  c.d << spec(gen).name << "\n"
      << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  GenPtr g = makeGen(c, gen, m);
  // state of the source: new, refreshed, or used before
  int state = s.in(0, 3);
  if (!place(c, gen, m, si))
    return;
  CglTreeInfo info = genInfo(c, m, s.pct(20));
  if (state == 1 || state == 3)
    refresh(gen, *g, si);
  if (state == 2 && !oneModel(gen)) {
    Model o = histModel(c, gen);
    OsiClpSolverInterface so;
    loadModel(o, so);
    refresh(gen, *g, so);
    c.d << "source used on\n"
        << o.str();
    if (place(c, gen, o, so)) {
      OsiCuts cs;
      g->generateCuts(so, cs, genInfo(c, o, false));
    }
  }
  if (state == 3)
    runOn(c, *g, si, info);
  int how = s.in(0, 3);
  if (gen == CLIQUE && how >= 2)
    how = 1;
  GenPtr h;
  const char *names[] = { "copy constructor", "clone", "assignment to a new object", "assignment to a used object" };
  c.d << names[how] << "\n";
  c.label(names[how]);
  if (how == 0)
    h = copyGen(gen, *g);
  else if (how == 1)
    h.reset(g->clone());
  else {
    if (how == 3) {
      h = makeGen(c, gen, m);
      refresh(gen, *h, si);
      runOn(c, *h, si, info);
    } else
      h = freshGen(gen);
    assignGen(gen, *h, *g);
  }
  if (s.pct(10) && gen != CLIQUE) {
    assignGen(gen, *h, *h); // self-assignment
    c.d << "self-assignment\n";
  }
  if (params(gen, *h) != params(gen, *g))
    c.fail("params-differ", cat(spec(gen).name, " ", names[how], ": ", params(gen, *g), " copied as ", params(gen, *h)));
  bool doRefresh = !(state == 1 || state == 3) || s.pct(40);
  std::string pg = params(gen, *g);
  if (doRefresh)
    refresh(gen, *h, si);
  std::vector< std::string > a = runOn(c, *h, si, info);
  // now disturb the copy
  int dist = s.in(0, 3);
  if (dist == 1)
    mutateGen(c, gen, *h);
  if (dist == 2 && !oneModel(gen)) {
    Model o = histModel(c, gen);
    OsiClpSolverInterface so;
    loadModel(o, so);
    refresh(gen, *h, so);
    if (place(c, gen, o, so)) {
      OsiCuts cs;
      h->generateCuts(so, cs, genInfo(c, o, false));
    }
  }
  if (dist == 3)
    h.reset();
  c.label(dist == 0 ? "copy left alone" : dist == 1 ? "copy re-parameterised" : dist == 2 ? "copy used elsewhere" : "copy destroyed");
  if (params(gen, *g) != pg)
    c.fail("not-independent", cat(spec(gen).name, " ", names[how], ": changing the copy changed the source"));
  if (doRefresh)
    refresh(gen, *g, si);
  std::vector< std::string > b = runOn(c, *g, si, info);
  if (a != b)
    c.fail("copy-differs", cat(spec(gen).name, " ", names[how], " (source ", state == 0 ? "new" : state == 1 ? "refreshed" : state == 2 ? "used elsewhere" : "used on this model", doRefresh ? ", then refreshed" : "", "): ", listDiff(b, a)));
  // the source goes away, a copy of it lives on
  if (s.pct(40)) {
    GenPtr k = copyGen(gen, *g);
    if (gen >= NGEN)
      b = runOn(c, *g, si, info);
    g.reset();
    if (doRefresh)
      refresh(gen, *k, si);
    std::vector< std::string > d = runOn(c, *k, si, info);
    if (d != b)
      c.fail("copy-outlives", cat(spec(gen).name, " copy used after the source was destroyed: ", listDiff(b, d)));
  }
  if (!a.empty()) {
    c.nontrivial = true;
    c.label(cat(spec(gen).name, " with cuts"));
  }
}

static bool wideRange(const OsiRowCut &r, const Model &m)
{
  for (int j = 0; j < m.n; j++)
    if (m.up[j] - m.lo[j] > 1e6)
      return true;
  for (int k = 0; k < r.row().getNumElements(); k++) {
    int j = r.row().getIndices()[k];
    if (m.isInt[j] && m.up[j] - m.lo[j] > 10)
      return true;
  }
  return false;
}
static void c18(Ctx &c)
{
  Src &s = c.s;
  int gen = anyGen(c);
  Model m = histModel(c, gen);
  c.d << spec(gen).name << "\n"
      << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  GenPtr g = makeGen(c, gen, m);
  if (!place(c, gen, m, si))
    return;
  refresh(gen, *g, si);
  CglTreeInfo info = genInfo(c, m, s.pct(25));
  OsiCuts cs;
  Vec x(si.getColSolution(), si.getColSolution() + m.n);
  g->generateCuts(si, cs, info);
  if (!cs.sizeRowCuts() && !cs.sizeColCuts())
    return;
  c.nontrivial = true;
  c.label(cat(spec(gen).name, " with cuts"));
  checkWellFormed(c, cat("malformed-", spec(gen).name), cs, m.n);
  if (spec(gen).violated)
    for (int i = 0; i < cs.sizeRowCuts(); i++)
      // (these two relax the right-hand side with the range of columns)
      if (!((gen == GMI || gen == REDSPLIT2) && wideRange(cs.rowCut(i), m)) && !cutsOff(cs.rowCut(i), &x[0], -1e-7))
        c.fail(cat("not-violated-", spec(gen).name), cat("row cut ", str(cs.rowCut(i)), " of ", spec(gen).name, " is satisfied by the point to separate"));
  OsiCuts plain; // without the marks of infeasibility, which several rows may give
  for (int i = 0; i < cs.sizeRowCuts(); i++)
    plain.insert(cs.rowCut(i));
  for (int i = 0; i < cs.sizeColCuts(); i++) {
    OsiColCut cc = cs.colCut(i);
    if (gen < NGEN && !cc.infeasible(si))
      plain.insert(cc);
  }
  std::vector< std::string > v = cutSigs(plain, true);
  for (size_t i = 1; i < v.size() && gen != STORED && gen != PROBING; i++)
    if (v[i] == v[i - 1])
      c.fail(cat("duplicate-", spec(gen).name), cat(spec(gen).name, " returned the same cut twice: ", v[i]));
}

static void c23(Ctx &c)
{
  static const int gens[] = { KNAP, CLIQUE, ODDHOLE, ZEROHALF, MIR, REDSPLIT };
  int gen = genFrom ? anyGen(c) : gens[c.s.in(0, 5)];
  c.d << spec(gen).name << "\n";
  FlowOpt o;
  o.onlyGlobalTree = true;
  o.maxRounds = 2;
  validityFlow(c, gen, o);
}

void extHistory(Ctx &c, int which)
{
  genFrom = NGEN;
  genTo = NALL - 1;
  switch (which) {
  case 0:
    return c15(c);
  case 1:
    return c16(c);
  case 2:
    return c17(c);
  case 3:
    return c18(c);
  case 4:
    return c23(c);
  }
}
static Reg r15({ "C15", "solver and earlier cuts untouched", c15, 250000, 3000000, "a case = generator, model, parameters, point, prior cuts; non-trivial = the call added at least one cut" });
static Reg r16({ "C16", "copies", c16, 50000, 600000, "a case = generator in a generated state, way of copying, disturbance of the copy; non-trivial = source and copy return at least one cut on the probe model" });
static Reg r17({ "C17", "determinism and history independence", c17, 200000, 2400000, "a case = generator, probe model, 1-3 earlier models; non-trivial = the fresh generator returns at least one cut on the probe model" });
static Reg r18({ "C18", "well formed, violated, new", c18, 450000, 5400000, "a case = generator, model, parameters, point; non-trivial = at least one cut returned" });
static Reg r23({ "C23", "global validity marks", c23, 200000, 2400000, "a case = root model, optional root cuts, branching bounds; non-trivial = at least one cut returned at the root or node and the root has an integer-feasible point" });
