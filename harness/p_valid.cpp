// C01-C06: no returned cut removes an integer-feasible point; C23: tree
#include "flow.hpp"
using namespace pbt;

Points filterBounds(const Points &p, const double *lo, const double *up)
{
  Points r;
  r.n = p.n;
  r.complete = p.complete;
  for (size_t k = 0; k < p.size(); k++) {
    const double *x = p.at(k);
    bool ok = true;
    for (int j = 0; j < p.n && ok; j++)
      if (x[j] < lo[j] - 1e-9 || x[j] > up[j] + 1e-9)
        ok = false;
    if (ok)
      r.v.insert(r.v.end(), x, x + p.n);
  }
  return r;
}

static void checkViolated(Ctx &c, int gen, const OsiCuts &cs, const double *x, int row0)
{
  for (int i = row0; i < cs.sizeRowCuts(); i++)
    if (!cutsOff(cs.rowCut(i), x, 1e-9))
      c.fail("not-violated", cat("row cut ", str(cs.rowCut(i)), " of ", spec(gen).name, " is satisfied by the point to separate"));
}

void validityFlow(Ctx &c, int gen, const FlowOpt &o)
{
  Src &s = c.s;
  bool wide = s.pct(o.wide);
  Points wit;
  Model m = wide ? wideModel(c, gen, wit) : genModelFor(c, gen);
  fitModel(gen, m);
  if (wide)
    c.label("wide models");
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  GenPtr g = makeGen(c, gen, m);
  refresh(gen, *g, si);
  if (!place(c, gen, m, si)) {
    c.label("no LP optimum");
    return;
  }
  Points root;
  bool have = false;
  int rounds = 1 + s.weighted({ 5, 2, 1 });
  rounds = std::min(rounds, o.maxRounds);
  bool tree = o.tree && (o.onlyGlobalTree || s.pct(35));
  int total = 0;
  const double tol = spec(gen).tol;
  for (int r = 0; r < rounds; r++) {
    OsiCuts cs;
    CglTreeInfo info = genInfo(c, m, false);
    CoinThreadRandom rng(1234567);
    if (s.pct(15))
      info.randomNumberGenerator = &rng;
    Vec x(si.getColSolution(), si.getColSolution() + m.n);
    g->generateCuts(si, cs, info);
    int k = cs.sizeRowCuts() + cs.sizeColCuts();
    total += k;
    c.label("root calls");
    if (k)
      c.label("root calls with cuts");
    if (k) {
      c.d << "round " << r << ": " << k << " cuts\n";
      checkWellFormed(c, "malformed", cs, m.n);
      if (!have) {
        root = wide ? wit : enumerate(m);
        have = true;
      }
      checkValid(c, "invalid", cs, root, tol);
      if (o.violation && spec(gen).violated)
        checkViolated(c, gen, cs, &x[0], 0);
    }
    if (r + 1 < rounds || tree) {
      // cuts become rows
      if (k == 0)
        break;
      OsiCuts ok;
      for (int i = 0; i < cs.sizeRowCuts() && i < 8; i++)
        if (cs.rowCut(i).consistent() && cs.rowCut(i).lb() <= cs.rowCut(i).ub())
          ok.insert(cs.rowCut(i));
      si.applyCuts(ok);
      si.resolve();
      if (!si.isProvenOptimal())
        break;
      c.d << "after cuts ";
      printPoint(c, si);
      if (s.pct(40))
        refresh(gen, *g, si);
    }
  }
  if (tree) {
    if (!have)
      root = wide ? wit : enumerate(m);
    have = true;
    bool zhGlobal = gen == ZEROHALF && (static_cast< CglZeroHalf & >(*g).getFlags() & 1);
    int nb = 1 + s.weighted({ 4, 3, 1 });
    Vec lo(m.lo), up(m.up);
    bool any = false;
    for (int b = 0; b < nb; b++) {
      int j = (int)s.raw(m.n);
      if (!m.isInt[j] || lo[j] >= up[j])
        continue;
      double hi = up[j] > 1e9 ? lo[j] + 6 : up[j];
      double l = s.in((int)lo[j], (int)hi), u = s.in((int)l, (int)hi);
      if (s.pct(50)) {
        l = lo[j];
        u = std::min(u, hi - 1);
      }
      if (u < l)
        continue;
      lo[j] = l;
      up[j] = u;
      si.setColBounds(j, l, u);
      any = true;
      c.d << "branch x" << j << " in [" << l << "," << u << "]\n";
    }
    si.resolve();
    if (any && si.isProvenOptimal()) {
      c.d << "node ";
      printPoint(c, si);
      if (!spec(gen).needsBasis && s.pct(25)) {
        Model node(m);
        node.lo = lo;
        node.up = up;
        Vec x = genPoint(c, node);
        si.setColSolution(&x[0]);
        c.d << "point ";
        printPoint(c, si);
      }
      if (!zhGlobal && gen != ZEROHALF && s.pct(30))
        refresh(gen, *g, si);
      OsiCuts cs;
      CglTreeInfo info = genInfo(c, m, true);
      Vec x(si.getColSolution(), si.getColSolution() + m.n);
      g->generateCuts(si, cs, info);
      int k = cs.sizeRowCuts() + cs.sizeColCuts();
      c.label("tree calls");
      if (k) {
        c.label("tree calls with cuts");
        if (o.onlyGlobalTree)
          total += k;
        Points loc = filterBounds(root, &lo[0], &up[0]);
        checkWellFormed(c, "malformed", cs, m.n);
        checkValid(c, "invalid-node", cs, loc, tol);
        if (o.violation && spec(gen).violated)
          checkViolated(c, gen, cs, &x[0], 0);
        OsiCuts gl;
        for (int i = 0; i < cs.sizeRowCuts(); i++)
          if (cs.rowCut(i).globallyValid()) {
            gl.insert(cs.rowCut(i));
            c.label("globally valid cuts in tree");
          }
        for (int i = 0; i < cs.sizeColCuts(); i++)
          if (cs.colCut(i).globallyValid())
            gl.insert(cs.colCut(i));
        if (gen == GOMORY && (info.options & 16)) {
          // known finding (known_findings.txt), nothing else is let through
          try {
            checkValid(c, "invalid-global", gl, root, tol);
          } catch (Fail &) {
            c.label("known: gomory-option-16");
          }
        } else
          checkValid(c, "invalid-global", gl, root, tol);
      }
    }
  }
  if (total && have && root.size() > 0)
    c.nontrivial = true;
  if (total && wide)
    c.label("wide models with cuts");
  if (have && !root.complete && !wide)
    c.label("truncated enumeration");
}

#define VRULE "a case = one model + generator parameters + point(s); non-trivial = at least one cut was returned and the model has an integer-feasible point to check it against; distinct = different choice sequence"
static void knap(Ctx &c) { validityFlow(c, KNAP); }
static void cliq(Ctx &c) { validityFlow(c, CLIQUE); }
static void oddh(Ctx &c) { validityFlow(c, ODDHOLE); }
static void zero(Ctx &c) { validityFlow(c, ZEROHALF); }
static void mir(Ctx &c) { validityFlow(c, MIR); }
static void rs(Ctx &c) { validityFlow(c, REDSPLIT); }
static Reg r1({ "C01", "KnapsackCover validity", knap, 600000, 7200000, VRULE });
static Reg r2({ "C02", "Clique validity", cliq, 800000, 9600000, VRULE });
static Reg r3({ "C03", "OddHole validity", oddh, 800000, 9600000, VRULE });
static Reg r4({ "C04", "ZeroHalf validity", zero, 700000, 8400000, VRULE });
static Reg r5({ "C05", "MIR validity", mir, 120000, 1440000, VRULE });
static Reg r6({ "C06", "RedSplit validity", rs, 110000, 1320000, VRULE });
