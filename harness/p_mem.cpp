// C22: memory is used correctly and given back, results do not depend on the
// content of fresh memory, every call returns. Runs in the sanitizer build
// (memory errors, integer overflow) and in the plain build (content of fresh
// memory varied through mallopt).
#include "flow.hpp"
#include <malloc.h>
#include <cstring>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; } // glibc counts cached free blocks, so no leak test here
#endif
using namespace pbt;

std::vector< std::string > fullSig(const OsiCuts &cs);

// the generators to choose from: the base ones, or those of ext/
static int genFrom = 0, genTo = NGEN - 1, lastGen = -1;

// bend a model into an unusual shape
static void bend(Ctx &c, int gen, Model &m)
{
  Src &s = c.s;
  int k = s.in(0, 2);
  for (int q = 0; q < k; q++)
    switch (s.in(0, 9)) {
    case 0: // no rows
      m.rows.clear();
      m.rl.clear();
      m.ru.clear();
      break;
    case 1: // empty rows
      for (int i = 0; i < m.m(); i++)
        if (s.pct(50)) {
          m.rows[i].clear();
          m.rl[i] = -INF;
          m.ru[i] = s.in(0, 2);
        }
      break;
    case 2: // all columns fixed
      for (int j = 0; j < m.n; j++)
        if (m.lo[j] > -INF)
          m.up[j] = m.lo[j];
      break;
    case 3: // all continuous
      if (gen != ALLDIFF)
        for (int j = 0; j < m.n; j++)
          m.isInt[j] = 0;
      break;
    case 4: // columns without entries
      for (int a = s.in(1, 3); a > 0; a--)
        m.addCol(0, 1, true, s.in(-2, 2));
      break;
    case 5: { // a column taken out of all rows
      if (!m.n)
        break;
      int j = (int)s.raw(m.n);
      for (auto &r : m.rows)
        for (size_t t = 0; t < r.size();)
          if (r[t].first == j)
            r.erase(r.begin() + t);
          else
            t++;
      break;
    }
    case 6: // free rows
      for (int i = 0; i < m.m(); i++)
        if (s.pct(40)) {
          m.rl[i] = -INF;
          m.ru[i] = INF;
        }
      break;
    case 7: // same row many times
      if (m.m()) {
        int i = (int)s.raw(m.m());
        for (int a = s.in(1, 12); a > 0; a--)
          m.addRow(m.rows[i], m.rl[i], m.ru[i]);
      }
      break;
    case 8: // infinite bounds
      if (gen != ALLDIFF)
        for (int j = 0; j < m.n; j++)
          if (s.pct(30))
            (s.pct(30) ? m.lo[j] : m.up[j]) = s.pct(30) ? -INF : INF;
      for (int j = 0; j < m.n; j++)
        if (m.up[j] == -INF || m.lo[j] == INF) {
          m.lo[j] = -INF;
          m.up[j] = INF;
        }
      break;
    case 9: // no columns
      if (s.pct(30)) {
        m.n = 0;
        m.obj.clear();
        m.lo.clear();
        m.up.clear();
        m.isInt.clear();
        for (auto &r : m.rows)
          r.clear();
      }
      break;
    }
}

// beyond the sizes for which the generators reserve room at first
static Model hugeModel(Ctx &c, int gen)
{
  Src &s = c.s;
  Model m;
  bool packing = gen == CLIQUE || gen == ODDHOLE || s.pct(20);
  int n = s.in(100, packing ? 330 : 200), nc = packing ? 0 : s.in(0, 20), rows = s.in(1, packing ? 40 : 12);
  for (int j = 0; j < n + nc; j++)
    m.addCol(0, j < n ? 1 : s.in(2, 20), j < n, -s.in(1, 9));
  int dens = s.ipick({ 10, 40, 80, 97 }), pairs = packing ? s.ipick({ 0, 100, 1000 }) : 0;
  for (int i = 0; i < rows; i++) {
    Row r;
    double tot = 0;
    for (int j = 0; j < m.n; j++)
      if (s.pct(gen == KNAP && !packing ? std::min(dens, 3000 / m.n) : i ? dens : 97)) {
        double v = packing ? 1 : s.in(1, 60);
        tot += v;
        r.push_back(std::make_pair(j, v));
      }
    if (!packing)
      m.addRow(r, -INF, std::floor(tot * s.in(10, 70) / 100.0));
    else if (i)
      m.addRow(r, -INF, 1);
    else
      m.addRow(r, s.pct(30) ? 1 : -INF, 1);
  }
  for (int i = 0; i < pairs; i++) {
    int a = (int)s.raw(n), b = (int)s.raw(n);
    if (a != b)
      m.addRow(Row{ { std::min(a, b), 1.0 }, { std::max(a, b), 1.0 } }, -INF, 1);
  }
  c.label("huge models");
  return m;
}

static Model anyModel(Ctx &c, int gen)
{
  Src &s = c.s;
  Model m;
  if (gen <= SIMPLE && s.in(0, 999) < 2)
    return hugeModel(c, gen);
  int kind = s.weighted({ 6, 2, 2, 2 });
  if (kind == 1 && gen != ALLDIFF) { // larger than what is enumerated elsewhere
    Cfg g;
    g.minInt = 6;
    g.maxInt = 30;
    g.maxCont = gen >= NGEN || gen == MIR || gen == REDSPLIT || gen == SIMPLE || gen == LIFTPROJ ? 8 : s.in(0, 2);
    g.maxRow = 24;
    g.wVub = gen == MIR || gen >= NGEN ? 3 : 0;
    g.wEdge = gen == ODDHOLE || gen == CLIQUE || gen == ZEROHALF ? 12 : 1;
    g.infUp = 4;
    m = genModel(c, g);
    pushObjective(c, m);
  } else if (kind == 2 && gen != ALLDIFF) { // several small ones side by side
    int k = s.in(2, 4);
    for (int q = 0; q < k; q++) {
      Model a = genModelFor(c, gen);
      int off = m.n;
      for (int j = 0; j < a.n; j++)
        m.addCol(a.lo[j], a.up[j], a.isInt[j], a.obj[j]);
      for (int i = 0; i < a.m(); i++) {
        Row r = a.rows[i];
        for (auto &e : r)
          e.first += off;
        m.addRow(r, a.rl[i], a.ru[i]);
      }
    }
  } else if (kind == 3 && (gen < LIFTPROJ || gen >= NGEN)) {
    Points w;
    m = wideModel(c, gen, w);
  } else
    m = genModelFor(c, gen);
  if (s.pct(45))
    bend(c, gen, m);
  fitModel(gen, m);
  return m;
}

// a history of one generator and its copies; text of everything it returned
static std::string history(Ctx &c, bool &cuts)
{
  Src &s = c.s;
  std::string out;
  int gen = s.in(genFrom, genTo);
  lastGen = gen;
  c.d << spec(gen).name << "\n";
  Model m = anyModel(c, gen);
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  if (gen == LIFTPROJ || gen == SIMPLE || gen == ODDHOLE)
    si.getColType(true);
  GenPtr g = makeGen(c, gen, m);
  if (gen >= NGEN && !si.getNumElements())
    return "no matrix"; // CoinUtils stops
  if (!place(c, gen, m, si))
    return "no point";
  refresh(gen, *g, si);
  int steps = s.in(1, 4);
  OsiCuts cs;
  for (int q = 0; q < steps; q++) {
    switch (q == 0 ? 0 : s.in(0, 6)) {
    case 0: {
      if (q)
        cs = OsiCuts();
      CglTreeInfo info = genInfo(c, m, s.pct(30));
      g->generateCuts(si, cs, info);
      for (auto &t : fullSig(cs))
        out += t + "\n";
      if (cs.sizeRowCuts() + cs.sizeColCuts())
        cuts = true;
      break;
    }
    case 1: {
      GenPtr h(g->clone());
      g.swap(h);
      c.d << "clone\n";
      break;
    }
    case 2: {
      if (gen == CLIQUE)
        break;
      GenPtr h = s.pct(50) ? freshGen(gen) : makeGen(c, gen, m);
      if (s.pct(50))
        refresh(gen, *h, si);
      assignGen(gen, *h, *g);
      g.swap(h);
      c.d << "assign\n";
      break;
    }
    case 3:
      mutateGen(c, gen, *g);
      break;
    case 4: {
      // the model changes
      if (oneModel(gen))
        break;
      m = anyModel(c, gen);
      c.d << "next model\n"
          << m.str();
      si = OsiClpSolverInterface();
      loadModel(m, si);
      if (gen == LIFTPROJ || gen == SIMPLE || gen == ODDHOLE)
        si.getColType(true);
      if (gen >= NGEN && !si.getNumElements())
        return out + "no matrix";
      if (!place(c, gen, m, si))
        return out + "no point";
      refresh(gen, *g, si);
      break;
    }
    case 5:
      refresh(gen, *g, si);
      break;
    default: { // again, with what was found before still there
      CglTreeInfo info = genInfo(c, m, s.pct(30));
      g->generateCuts(si, cs, info);
      for (auto &t : fullSig(cs))
        out += t + "\n";
    }
    }
  }
  return out;
}

// the case of another property, whatever its verdict: only memory is judged here
static std::string otherCase(Ctx &c, bool &cuts)
{
  static const char *ids[] = { "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C19", "C20", "C21", "C24" };
  const char *id = ids[c.s.in(0, 12)];
  c.d << "case of " << id << "\n";
  for (auto &p : registry())
    if (!strcmp(p.id, id)) {
      try {
        p.run(c);
      } catch (Fail &) {
      } catch (Discard &) {
      } catch (CoinError &) {
      }
    }
  cuts = c.nontrivial;
  return std::string();
}
static std::string scenario(Ctx &c, bool &cuts)
{
  return genFrom == 0 && c.s.pct(30) ? otherCase(c, cuts) : history(c, cuts);
}

static void run(Ctx &c)
{
  bool cuts = false;
  size_t p0 = c.s.own.size();
  std::string first = scenario(c, cuts);
  c.nontrivial = cuts;
  std::vector< uint32_t > part(c.s.own.begin() + p0, c.s.own.end());
  size_t level[3];
  bool leaks = true; // (enabling the simplex interface of a copied OsiClp loses memory in Clp)
  static const int fill[3] = { 0, 0xa5, 0x3c };
  std::string got[3];
  for (auto &t : got)
    t.reserve(first.size() + 1000);
  for (int k = 0; k < 3; k++) {
    mallopt(M_PERTURB, fill[k]);
    {
      Src sub;
      sub.replay = &part;
      Ctx c2(sub);
      c2.scratch = c.scratch;
      bool cc = false;
      std::string t = scenario(c2, cc);
      if (lastGen == LANDP)
        leaks = false;
      got[k] += t.substr(0, first.size() + 900);
    }
    level[k] = allocated();
  }
  mallopt(M_PERTURB, 0);
  for (int k = 0; k < 3; k++)
    if (got[k] != first) {
      size_t at = 0;
      while (at < first.size() && at < got[k].size() && first[at] == got[k][at])
        at++;
      size_t b = first.rfind('\n', at);
      b = b == std::string::npos ? 0 : b + 1;
      c.fail("fresh-memory", cat("the result depends on the content of fresh memory or on earlier histories: ", first.substr(b, 300), " against ", got[k].substr(b, 300)));
    }
  if (leaks && level[2] > level[1] && level[1] > level[0])
    c.fail("leak", cat("memory not given back: ", level[1] - level[0], " and ", level[2] - level[1], " bytes in two repetitions"));
}
void extMemory(Ctx &c)
{
  genFrom = NGEN;
  genTo = NALL - 1;
  run(c);
}
static Reg r22({ "C22", "memory", run, 30000, 500000, "a case = one generator, its copies and 1-3 models of any shape, repeated four times; non-trivial = at least one cut returned" });
