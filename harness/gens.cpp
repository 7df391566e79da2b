#include "CoinHelperFunctions.hpp"
#include "gens.hpp"
using namespace pbt;

ExtOps extOps[NALL];
static const GenSpec specs[NALL] = {
  { "KnapsackCover", false, true, 1e-6 },
  { "Clique", false, true, 1e-6 },
  { "OddHole", false, true, 1e-6 },
  { "ZeroHalf", false, true, 1e-6 },
  { "MixedIntegerRounding", false, true, 1e-6 },
  { "RedSplit", true, true, 1e-5 },
  { "SimpleRounding", false, false, 1e-6 },
  { "LiftAndProject", true, false, 1e-5 },
  { "AllDifferent", false, false, 1e-6 },
  { "DuplicateRow", false, false, 1e-6 },
  { "Stored", false, true, 1e-6 },
  { "Gomory", true, true, 1e-5 },
  { "TwoMIR", true, false, 1e-5 },
  { "MixedIntegerRounding2", false, true, 1e-6 },
  { "FlowCover", false, true, 1e-6 },
  { "ResidualCapacity", false, true, 1e-6 },
  { "GMI", true, true, 1e-5 },
  { "RedSplit2", true, true, 1e-5 },
  { "Probing", false, false, 1e-6 },
  { "LandP", true, true, 1e-5 },
};
const GenSpec &spec(int gen) { return specs[gen]; }

static Model lapModel(Ctx &c)
{
  Cfg g;
  g.minInt = 2;
  g.maxInt = 5;
  g.maxCont = 2;
  g.genInt = 0;
  g.fixedCol = 0;
  g.minRow = 1;
  g.maxRow = 4;
  g.emptyRow = 0;
  g.infeasRhs = 0;
  g.negLb = 0;
  Model a = genModel(c, g), m;
  for (int j = 0; j < a.n; j++)
    m.addCol(a.lo[j], a.up[j], a.isInt[j], a.obj[j]);
  auto neg = [](Row r) {
    for (auto &e : r)
      e.second = -e.second;
    return r;
  };
  for (int i = 0; i < a.m(); i++) {
    if (a.rl[i] > -1e20)
      m.addRow(a.rows[i], a.rl[i], INF);
    if (a.ru[i] < 1e20)
      m.addRow(neg(a.rows[i]), -a.ru[i], INF);
  }
  // bounds as rows
  for (int j = 0; j < m.n; j++) {
    m.addRow(Row{ { j, 1.0 } }, m.lo[j], INF);
    m.addRow(Row{ { j, -1.0 } }, -m.up[j], INF);
  }
  return m;
}

// ------------------------------------------------------ structured families
static void permuteColumns(Ctx &c, Model &m)
{
  std::vector< int > to(m.n);
  for (int j = 0; j < m.n; j++)
    to[j] = j;
  for (int j = 0; j + 1 < m.n; j++)
    std::swap(to[j], to[j + (int)c.s.raw(m.n - j)]);
  Model r;
  r.n = m.n;
  r.obj.resize(m.n);
  r.lo.resize(m.n);
  r.up.resize(m.n);
  r.isInt.resize(m.n);
  for (int j = 0; j < m.n; j++) {
    r.obj[to[j]] = m.obj[j];
    r.lo[to[j]] = m.lo[j];
    r.up[to[j]] = m.up[j];
    r.isInt[to[j]] = m.isInt[j];
  }
  for (int i = 0; i < m.m(); i++) {
    Row w;
    for (auto &e : m.rows[i])
      w.push_back(std::make_pair(to[e.first], e.second));
    std::sort(w.begin(), w.end());
    r.addRow(w, m.rl[i], m.ru[i]);
  }
  m = r;
}
// some extra random rows over the columns present
static void extraRows(Ctx &c, Model &m, int maxExtra)
{
  Src &s = c.s;
  int k = s.in(0, maxExtra);
  for (int i = 0; i < k; i++) {
    Row r;
    double mn = 0, mx = 0;
    for (int j = 0; j < m.n; j++)
      if (s.pct(40)) {
        double v = s.pct(50) ? 1 : s.in(1, 5);
        if (s.pct(30))
          v = -v;
        r.push_back(std::make_pair(j, v));
        double lo = std::max(m.lo[j], -10.0), up = std::min(m.up[j], 10.0);
        mn += v > 0 ? v * lo : v * up;
        mx += v > 0 ? v * up : v * lo;
      }
    double t = std::floor(mn + (mx - mn) * s.in(2, 9) / 10.0);
    if (s.pct(70))
      m.addRow(r, -INF, t);
    else
      m.addRow(r, std::floor(mn + (mx - mn) * s.in(0, 5) / 10.0), INF);
  }
}
// conflict/cover cycles, with shared, fixed and free-riding columns
static Model holeModel(Ctx &c, bool allowCover)
{
  Src &s = c.s;
  Model m;
  int k = s.ipick({ 3, 5, 5, 7, 4 });
  int extra = s.in(0, 3);
  bool cover = allowCover && s.pct(40);
  for (int j = 0; j < k + extra; j++)
    m.addCol(0, 1, true, 0);
  // columns fixed at some value
  int nf = s.pct(45) ? s.in(1, 2) : 0;
  int f0 = m.n;
  for (int q = 0; q < nf; q++) {
    double v = s.in(-1, 2);
    m.addCol(v, v, s.pct(70), 0);
  }
  for (int i = 0; i < k; i++) {
    Row r;
    r.push_back(std::make_pair(i, 1.0));
    r.push_back(std::make_pair((i + 1) % k, 1.0));
    for (int j = k; j < k + extra; j++)
      if (s.pct(35))
        r.push_back(std::make_pair(j, 1.0));
    if (!cover && k > 4 && s.pct(15)) {
      int j = (i + 3) % k;
      r.push_back(std::make_pair(j, 1.0));
    }
    double rhs = 1;
    for (int q = 0; q < nf; q++)
      if (s.pct(60)) {
        double v = s.ipick({ 1, 1, -1, 2 });
        r.push_back(std::make_pair(f0 + q, v));
        int how = s.in(0, 99);
        if (how < 85)
          rhs += v * m.lo[f0 + q];
        else if (how < 93)
          rhs += m.lo[f0 + q];
      }
    std::sort(r.begin(), r.end());
    bool eq = s.pct(5);
    double far = s.pct(10) ? (double)s.in(1, 2) : INF;
    if (cover)
      m.addRow(r, rhs, eq ? rhs : far < 1e20 ? rhs + far : INF);
    else
      m.addRow(r, eq ? rhs : far < 1e20 ? rhs - far : -INF, rhs);
  }
  extraRows(c, m, 2);
  for (int j = 0; j < m.n; j++)
    m.obj[j] = (cover ? 1 : -1) * (s.pct(70) ? 1.0 : s.in(1, 3)) + (j >= k && s.pct(60) ? (cover ? 2 : 3) : 0);
  permuteColumns(c, m);
  return m;
}
// cliques given by edges (and longer rows)
static Model cliqueModel(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int n = s.in(3, 10);
  for (int j = 0; j < n; j++) {
    double lo = 0, up = 1;
    if (s.pct(6))
      lo = s.pct(50) ? -1 : 1;
    if (s.pct(4))
      up = 2;
    bool integer = !s.pct(4);
    m.addCol(lo, std::max(lo, up), integer, -1 - s.in(0, 3) * 0.25);
  }
  int dens = s.ipick({ 60, 80, 40, 95 });
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
      if (s.pct(dens) && m.m() < 30) {
        Row r{ { i, 1.0 }, { j, 1.0 } };
        if (s.pct(15)) {
          int q = (int)s.raw(n);
          if (q != i && q != j)
            r.push_back(std::make_pair(q, s.pct(80) ? 1.0 : -1.0));
        }
        double sc = s.pct(6) ? 2.0 : 1.0;
        for (auto &e : r)
          e.second *= sc;
        std::sort(r.begin(), r.end());
        double rhs = s.pct(4) ? 2 : s.pct(4) ? 1.5 : 1;
        m.addRow(r, s.pct(5) ? rhs : -INF, rhs);
      }
  extraRows(c, m, 1);
  return m;
}
// knapsack rows against which the objective pushes
static Model knapModel(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int n = s.in(3, 12);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, 0);
  int nc = s.pct(30) ? s.in(1, 2) : 0;
  for (int j = 0; j < nc; j++) {
    double lo = -s.in(0, 3), up = s.in(0, 6);
    m.addCol(lo, up, s.pct(30), s.in(-1, 1));
  }
  int k = s.in(1, 3);
  int mag = s.ipick({ 6, 12, 30, 100 });
  for (int i = 0; i < k; i++) {
    Row r;
    double tot = 0, neg = 0;
    int neg0 = s.ipick({ 0, 0, 20, 50 });
    bool frac = s.pct(10);
    for (int j = 0; j < m.n; j++) {
      if (s.pct(j < n ? 15 : 50))
        continue;
      double v = s.in(std::max(1, mag / 4), mag);
      if (frac)
        v *= 0.5;
      if (s.pct(neg0))
        v = -v;
      r.push_back(std::make_pair(j, v));
      double lo = m.lo[j], up = m.up[j];
      tot += std::fabs(v) * (up - lo);
      neg += v > 0 ? v * lo : v * up;
    }
    double rhs = std::floor(neg + tot * s.in(2, 9) / 10.0) + (s.pct(8) ? 0.5 : 0);
    int sense = s.weighted({ 6, 3, 1, 1 });
    if (sense == 1) {
      for (auto &e : r)
        e.second = -e.second;
      m.addRow(r, -rhs, INF);
    } else
      m.addRow(r, sense == 2 ? rhs : sense == 3 ? rhs - s.in(1, mag) : -INF, rhs);
  }
  // variable bounds on the continuous columns, of every kind
  for (int j = n; j < m.n; j++)
    if (!m.isInt[j] && s.pct(60)) {
      int b = (int)s.raw(n), q = s.in(1, 2);
      while (q--) {
        double sy = s.ipick({ 1, 1, 2, -1 }), M = s.in(-6, 6), d = s.ipick({ 0, 0, 1, -1, 2 });
        Row r;
        if (M)
          r.push_back(std::make_pair(b, sy * M));
        r.push_back(std::make_pair(j, sy));
        int k = s.weighted({ 4, 4, 1, 2 });
        m.addRow(r, k == 0 ? -INF : d, k == 1 ? INF : k == 3 ? d + s.in(1, 6) : d);
      }
    }
  // objective: profits near the weights
  pushObjective(c, m);
  if (s.pct(50))
    for (int j = 0; j < m.n; j++)
      m.obj[j] += s.in(-4, 4);
  return m;
}
// integer rows with many even coefficients
static Model halfModel(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int n = s.in(2, 7);
  double box = 1;
  for (int j = 0; j < n; j++) {
    double lo = 0, up = 1;
    if (s.pct(35) && box < 2000) {
      lo = s.in(-2, 2);
      up = lo + s.in(1, 4);
      if (s.pct(10))
        up = INF;
    }
    box *= up > 1e9 ? 10 : up - lo + 1;
    m.addCol(lo, up, true, 0);
  }
  if (s.pct(20))
    m.addCol(0, s.in(1, 4), false, 0);
  int k = s.in(2, 7);
  for (int i = 0; i < k; i++) {
    Row r;
    double mn = 0, mx = 0;
    for (int j = 0; j < m.n; j++) {
      int t = s.weighted({ 5, 4, 3 });
      if (!t || (j >= n && s.pct(70)))
        continue;
      double v = t == 1 ? 2 * s.in(0, 2) + 1 : 2 * s.in(1, 3);
      if (s.pct(25))
        v = -v;
      r.push_back(std::make_pair(j, v));
      double lo = m.lo[j], up = m.up[j] > 1e9 ? lo + 5 : m.up[j];
      mn += v > 0 ? v * lo : v * up;
      mx += v > 0 ? v * up : v * lo;
    }
    double rhs = std::floor(mn + (mx - mn) * s.in(2, 8) / 10.0);
    if (std::fmod(std::fabs(rhs), 2) != 1 && s.pct(75))
      rhs += 1;
    int sense = s.weighted({ 6, 2, 1, 1 });
    if (sense == 0)
      m.addRow(r, -INF, rhs);
    else if (sense == 1) {
      for (auto &e : r)
        e.second = -e.second;
      m.addRow(r, -rhs, INF);
    } else if (sense == 2)
      m.addRow(r, rhs, rhs);
    else
      m.addRow(r, rhs - s.in(1, 5), rhs);
  }
  pushObjective(c, m);
  return m;
}
// lot sizing / fixed charge flow: stock balance, setup bounds
static Model flowModel(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int T = 1 + s.weighted({ 10, 9, 1 });
  bool gen = s.pct(30);
  int prevStock = -1;
  for (int t = 0; t < T; t++) {
    double cap = s.in(3, 12), dem = s.in(1, 9) * (s.pct(20) ? 0.5 : 1);
    int y = m.addCol(s.pct(4) ? 1 : 0, gen ? s.in(1, 3) : 1, true, s.in(2, 9));
    int x = m.addCol(s.pct(6) ? -1 : 0, s.pct(15) ? INF : cap * (gen ? 3 : 1), false, s.in(0, 3));
    int st = m.addCol(0, s.pct(15) ? INF : s.in(2, 12), false, s.in(0, 2));
    Row v{ { y, -cap }, { x, 1.0 } };
    if (s.pct(15))
      for (auto &e : v)
        e.second = e.second * (s.pct(50) ? 2 : 0.5);
    if (s.pct(75))
      m.addRow(v, -INF, 0);
    else {
      for (auto &e : v)
        e.second = -e.second;
      m.addRow(v, 0, INF);
    }
    if (s.pct(15))
      m.addRow(Row{ { y, -(double)s.in(1, 2) }, { x, 1.0 } }, 0, INF); // variable lower bound
    Row b{ { x, 1.0 }, { st, -1.0 } };
    if (prevStock >= 0)
      b.push_back(std::make_pair(prevStock, 1.0));
    std::sort(b.begin(), b.end());
    bool eq = s.pct(65);
    double hi = eq ? dem : INF;
    if (s.pct(20)) {
      for (auto &e : b)
        e.second = -e.second;
      m.addRow(b, eq ? -dem : -INF, -dem);
    } else
      m.addRow(b, dem, hi);
    prevStock = st;
  }
  if (s.pct(30)) {
    // one general integer knapsack over the set-ups
    Row r;
    for (int j = 0; j < m.n; j++)
      if (m.isInt[j])
        r.push_back(std::make_pair(j, (double)s.in(2, 9)));
    m.addRow(r, s.in(2, 12), INF);
  }
  return m;
}

Model packModel(Ctx &c, std::vector< int > &kind);
// capacities in modules: flow through an arc at most a multiple of the module
static Model moduleModel(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int K = s.in(1, 2);
  for (int k = 0; k < K; k++) {
    int nc = s.in(1, 3), nz = s.in(1, 2);
    double d = s.in(2, 9);
    Row r;
    double tot = 0;
    for (int i = 0; i < nc; i++) {
      double up = s.in(1, 9) * (s.pct(15) ? 0.5 : 1);
      int j = m.addCol(s.pct(10) ? s.in(-2, 1) : 0, up, false, -s.in(1, 6));
      if (m.lo[j] > m.up[j])
        m.up[j] = m.lo[j] + 1;
      double a = s.pct(80) ? 1 : s.in(1, 3);
      r.push_back(std::make_pair(j, a));
      tot += a * m.up[j];
    }
    for (int i = 0; i < nz; i++) {
      int j = m.addCol(s.pct(10) ? 1 : 0, s.in(1, 4), true, s.in(1, 20));
      r.push_back(std::make_pair(j, -d * (s.pct(5) ? 2 : 1)));
    }
    double b = s.pct(60) ? 0 : s.in(-3, 4);
    double sc = s.pct(85) ? 1 : 2;
    for (auto &e : r)
      e.second *= sc;
    if (s.pct(25)) {
      for (auto &e : r)
        e.second = -e.second;
      m.addRow(r, -b * sc, s.pct(20) ? -b * sc : INF);
    } else
      m.addRow(r, s.pct(20) ? b * sc : -INF, b * sc);
  }
  extraRows(c, m, 2);
  return m;
}
void fitModel(int gen, Model &m)
{
  if (gen == LANDP) // range rows are outside of what it handles, see DESIGN.md
    for (int i = 0; i < m.m(); i++)
      if (m.rl[i] > -1e20 && m.ru[i] < 1e20 && m.rl[i] != m.ru[i])
        m.rl[i] = -INF;
  if (gen == LANDP) // it refuses a free column out of the basis
    for (int j = 0; j < m.n; j++)
      if (m.lo[j] < -1e20 && m.up[j] > 1e20)
        m.lo[j] = -3;
  if (gen == PROBING) { // it moves costed columns of one row to their better side, see DESIGN.md
    std::vector< int > len(m.n, 0);
    for (auto &r : m.rows)
      for (auto &e : r)
        len[e.first] += e.second != 0;
    for (int j = 0; j < m.n; j++)
      if (len[j] < 2)
        m.obj[j] = 0;
  }
}
static Model plainModelFor(Ctx &c, int gen);
Model genModelFor(Ctx &c, int gen)
{
  Model m = plainModelFor(c, gen);
  if (gen != DUPROW && gen != LIFTPROJ && gen != ALLDIFF && c.s.pct(8)) {
    fixedColumn(c, m, c.s.pct(70));
    fitModel(gen, m);
  }
  return m;
}
static Model plainModelFor(Ctx &c, int gen)
{
  if (gen >= NGEN) {
    switch (gen) {
    case FLOWCOVER:
      return c.s.pct(60) ? flowModel(c) : plainModelFor(c, MIR);
    case RESCAP:
      return c.s.pct(60) ? moduleModel(c) : c.s.pct(50) ? flowModel(c) : plainModelFor(c, MIR);
    case PROBING: {
      static const int k[] = { KNAP, CLIQUE, MIR, ODDHOLE, ZEROHALF, REDSPLIT };
      return c.s.pct(20) ? flowModel(c) : plainModelFor(c, k[c.s.in(0, 5)]);
    }
    case MIR2:
      return plainModelFor(c, MIR);
    default: {
      static const int k[] = { REDSPLIT, REDSPLIT, MIR, KNAP, ZEROHALF, ODDHOLE };
      return plainModelFor(c, k[c.s.in(0, 5)]);
    }
    }
  }
  if (gen == DUPROW) {
    std::vector< int > kind;
    return packModel(c, kind);
  }
  Cfg g;
  if (gen != LIFTPROJ && gen != ALLDIFF && c.s.pct(45)) {
    switch (gen) {
    case KNAP:
      return c.s.pct(90) ? knapModel(c) : halfModel(c);
    case CLIQUE:
      return c.s.pct(80) ? cliqueModel(c) : holeModel(c, false);
    case ODDHOLE:
      return c.s.pct(85) ? holeModel(c, true) : cliqueModel(c);
    case ZEROHALF:
      return c.s.pct(75) ? halfModel(c) : holeModel(c, true);
    case MIR:
    case REDSPLIT:
      return c.s.pct(60) ? flowModel(c) : c.s.pct(50) ? knapModel(c) : halfModel(c);
    case SIMPLE:
      return halfModel(c);
    }
  }
  switch (gen) {
  case KNAP:
    g.minInt = 3;
    g.maxInt = 9;
    g.maxCont = 2;
    g.genInt = 6;
    g.wPack = 1;
    g.wCover = 1;
    g.wPart = 0;
    g.wKnap = 7;
    g.wGen = 2;
    g.wVub = 2;
    g.maxRow = 5;
    g.fracCoef = 10;
    g.bigCoef = 30;
    break;
  case CLIQUE:
    g.minInt = 3;
    g.maxInt = 10;
    g.maxCont = 1;
    g.genInt = 5;
    g.wPack = 4;
    g.wCover = 1;
    g.wPart = 2;
    g.wKnap = 1;
    g.wGen = 1;
    g.wEdge = 9;
    g.minRow = 2;
    g.maxRow = 14;
    break;
  case ODDHOLE:
    g.minInt = 3;
    g.maxInt = 9;
    g.maxCont = 1;
    g.genInt = 4;
    g.wPack = 4;
    g.wCover = 5;
    g.wPart = 2;
    g.wKnap = 1;
    g.wGen = 1;
    g.wEdge = 9;
    g.minRow = 3;
    g.maxRow = 12;
    break;
  case ZEROHALF:
    g.minInt = 2;
    g.maxInt = 8;
    g.maxCont = 1;
    g.genInt = 25;
    g.negLb = 20;
    g.wPack = 2;
    g.wCover = 2;
    g.wPart = 1;
    g.wKnap = 3;
    g.wGen = 5;
    g.wEdge = 3;
    g.minRow = 2;
    g.maxRow = 8;
    g.bigCoef = 10;
    g.infUp = 5;
    break;
  case MIR:
    g.minInt = 1;
    g.maxInt = 6;
    g.maxCont = 4;
    g.genInt = 35;
    g.negLb = 10;
    g.wPack = 1;
    g.wCover = 1;
    g.wKnap = 3;
    g.wGen = 5;
    g.wVub = 4;
    g.maxRow = 7;
    g.fracCoef = 15;
    g.infUp = 8;
    break;
  case REDSPLIT:
    g.minInt = 1;
    g.maxInt = 6;
    g.maxCont = 4;
    g.genInt = 35;
    g.negLb = 15;
    g.wPack = 1;
    g.wCover = 1;
    g.wKnap = 3;
    g.wGen = 5;
    g.wVub = 2;
    g.maxRow = 6;
    g.fracCoef = 10;
    g.infUp = 8;
    break;
  case SIMPLE:
    g.minInt = 1;
    g.maxInt = 6;
    g.maxCont = 3;
    g.genInt = 50;
    g.negLb = 20;
    g.wPack = 1;
    g.wCover = 1;
    g.wKnap = 4;
    g.wGen = 7;
    g.maxRow = 6;
    g.fracCoef = 25;
    g.infUp = 5;
    break;
  case LIFTPROJ:
    return lapModel(c);
  case ALLDIFF: {
    Model m;
    int n = c.s.in(2, 6);
    for (int j = 0; j < n; j++) {
      if (c.s.pct(8)) {
        m.addCol(0, c.s.in(1, 4), false, 0);
        continue;
      }
      double lo = c.s.in(0, 5) - 2, up = lo + c.s.in(0, 4);
      m.addCol(lo, up, true, c.s.in(-3, 3));
    }
    return m;
  }
  default:
    break;
  }
  return genModel(c, g);
}

GenPtr freshGen(int gen)
{
  if (gen >= NGEN)
    return extOps[gen].fresh();
  switch (gen) {
  case KNAP:
    return GenPtr(new CglKnapsackCover);
  case CLIQUE:
    return GenPtr(new CglClique);
  case ODDHOLE:
    return GenPtr(new CglOddHole);
  case ZEROHALF:
    return GenPtr(new CglZeroHalf);
  case MIR:
    return GenPtr(new CglMixedIntegerRounding);
  case REDSPLIT:
    return GenPtr(new CglRedSplit);
  case SIMPLE:
    return GenPtr(new CglSimpleRounding);
  case LIFTPROJ:
    return GenPtr(new CglLiftAndProject);
  case ALLDIFF:
    return GenPtr(new CglAllDifferent);
  case DUPROW:
    return GenPtr(new CglDuplicateRow);
  case STORED:
    return GenPtr(new CglStored);
  }
  return GenPtr();
}

template < class T >
static void as(CglCutGenerator &d, const CglCutGenerator &s) { static_cast< T & >(d) = static_cast< const T & >(s); }
template < class T >
static GenPtr cp(const CglCutGenerator &s) { return GenPtr(new T(static_cast< const T & >(s))); }

void assignGen(int gen, CglCutGenerator &d, const CglCutGenerator &s)
{
  if (gen >= NGEN)
    return extOps[gen].assign(d, s);
  switch (gen) {
  case KNAP:
    as< CglKnapsackCover >(d, s);
    break;
  case CLIQUE: // the class declares no usable assignment
    break;
  case ODDHOLE:
    as< CglOddHole >(d, s);
    break;
  case ZEROHALF:
    as< CglZeroHalf >(d, s);
    break;
  case MIR:
    as< CglMixedIntegerRounding >(d, s);
    break;
  case REDSPLIT:
    as< CglRedSplit >(d, s);
    break;
  case SIMPLE:
    as< CglSimpleRounding >(d, s);
    break;
  case LIFTPROJ:
    as< CglLiftAndProject >(d, s);
    break;
  case ALLDIFF:
    as< CglAllDifferent >(d, s);
    break;
  case DUPROW:
    as< CglDuplicateRow >(d, s);
    break;
  case STORED:
    as< CglStored >(d, s);
    break;
  }
}
GenPtr copyGen(int gen, const CglCutGenerator &s)
{
  if (gen >= NGEN)
    return extOps[gen].copy(s);
  switch (gen) {
  case KNAP:
    return cp< CglKnapsackCover >(s);
  case CLIQUE:
    return cp< CglClique >(s);
  case ODDHOLE:
    return cp< CglOddHole >(s);
  case ZEROHALF:
    return cp< CglZeroHalf >(s);
  case MIR:
    return cp< CglMixedIntegerRounding >(s);
  case REDSPLIT:
    return cp< CglRedSplit >(s);
  case SIMPLE:
    return cp< CglSimpleRounding >(s);
  case LIFTPROJ:
    return cp< CglLiftAndProject >(s);
  case ALLDIFF:
    return cp< CglAllDifferent >(s);
  case DUPROW:
    return cp< CglDuplicateRow >(s);
  case STORED:
    return cp< CglStored >(s);
  }
  return GenPtr();
}

void mutateGen(Ctx &c, int gen, CglCutGenerator &g)
{
  Src &s = c.s;
  if (s.pct(15))
    g.setAggressiveness(s.ipick({ 0, 100, 50, -1, 200 }));
  if (gen >= NGEN)
    return extOps[gen].mutate(c, g);
  switch (gen) {
  case KNAP: {
    CglKnapsackCover &k = static_cast< CglKnapsackCover & >(g);
    switch (s.in(0, 2)) {
    case 0:
      k.setMaxInKnapsack(s.ipick({ 50, 3, 4, 5, 8 }));
      break;
    case 1:
      k.switchOnExpensive();
      break;
    case 2:
      k.switchOffExpensive();
      break;
    }
    break;
  }
  case CLIQUE: {
    CglClique &k = static_cast< CglClique & >(g);
    switch (s.in(0, 6)) {
    case 0:
      k.setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)s.in(0, 2));
      break;
    case 1:
      k.setStarCliqueCandidateLengthThreshold(s.ipick({ 12, 0, 1, 3, 20 }));
      break;
    case 2:
      k.setRowCliqueCandidateLengthThreshold(s.ipick({ 12, 0, 1, 3, 20 }));
      break;
    case 3:
      k.setDoStarClique(s.pct(60));
      break;
    case 4:
      k.setDoRowClique(s.pct(60));
      break;
    case 5:
      k.setMinViolation(s.dpick({ 1e-6, 1e-3, 0.1, 0.3 }));
      break;
    case 6:
      k.setMaxNumber(s.ipick({ 1000, 1, 2, 5 }));
      break;
    }
    break;
  }
  case ODDHOLE: {
    CglOddHole &k = static_cast< CglOddHole & >(g);
    switch (s.in(0, 2)) {
    case 0:
      k.setMinimumViolation(s.dpick({ 0.001, 0.01, 0.2, 1e-5 }));
      break;
    case 1:
      k.setMinimumViolationPer(s.dpick({ 0.0003, 0.01, 0.1 }));
      break;
    case 2:
      k.setMaximumEntries(s.ipick({ 100, 3, 5, 7 }));
      break;
    }
    break;
  }
  case ZEROHALF: {
    CglZeroHalf &k = static_cast< CglZeroHalf & >(g);
    switch (s.in(0, 3)) {
    case 0:
      k.setFlags(s.in(0, 1));
      break;
    case 1:
      k.setSepGraphSparseThreshold(s.ipick({ 4, 0, 1, 10, 1000 }) + 0);
      break;
    case 2:
      k.setRowMaxPairCount(s.ipick({ 0, 1, 5, 100000 }));
      break;
    case 3:
      k.setRowMaxFractionalCount(s.ipick({ 0, 2, 4, 100000 }));
      break;
    }
    break;
  }
  case MIR: {
    CglMixedIntegerRounding &k = static_cast< CglMixedIntegerRounding & >(g);
    switch (s.in(0, 3)) {
    case 0:
      k.setMAXAGGR_(s.in(1, 5));
      break;
    case 1:
      k.setMULTIPLY_(s.pct(50));
      break;
    case 2:
      k.setCRITERION_(s.in(1, 3));
      break;
    case 3:
      k.setDoPreproc(s.ipick({ -1, 0, 1 }));
      break;
    }
    break;
  }
  case REDSPLIT: {
    CglRedSplit &k = static_cast< CglRedSplit & >(g);
    CglRedSplitParam p = k.getParam();
    switch (s.in(0, 6)) {
    case 0:
      p.setAway(s.dpick({ 0.05, 0.01, 0.2, 0.005 }));
      break;
    case 1:
      p.setUSE_CG2(s.in(0, 1));
      break;
    case 2:
      p.setMAX_SUPPORT(s.ipick({ 50, 2, 3, 5, 1000 }));
      break;
    case 3:
      p.setMINVIOL(s.dpick({ 1e-7, 1e-4, 0.05 }));
      break;
    case 4:
      p.setMinReduc(s.dpick({ 0.05, 0.01, 0.3 }));
      break;
    case 5:
      p.setMaxTab(s.dpick({ 1e7, 11, 100, 1000 }));
      break;
    case 6:
      p.setMAXDYN(s.dpick({ 1e8, 1e4, 20 }));
      break;
    }
    k.setParam(p);
    break;
  }
  case LIFTPROJ: {
    static_cast< CglLiftAndProject & >(g).setBeta(s.pct(50) ? -1 : 1);
    break;
  }
  case ALLDIFF: {
    CglAllDifferent &k = static_cast< CglAllDifferent & >(g);
    if (s.pct(50))
      k.setLogLevel(s.in(0, 2));
    else
      k.setMaxLook(s.in(0, 5));
    break;
  }
  case DUPROW: {
    CglDuplicateRow &k = static_cast< CglDuplicateRow & >(g);
    switch (s.in(0, 3)) {
    case 0:
      k.setMaximumRhs(s.in(0, 4));
      break;
    case 1:
      k.setMaximumDominated(s.in(0, 5));
      break;
    case 2:
      k.setLogLevel(s.in(0, 1));
      break;
    default:
      k.setMode(s.ipick({ 8, 8, 8, 1, 3 }));
    }
    break;
  }
  case STORED:
    static_cast< CglStored & >(g).setRequiredViolation(s.dpick({ 1e-5, 1e-3, 0.1, 0.5 }));
    break;
  default:
    break;
  }
}

std::string params(int gen, const CglCutGenerator &g)
{
  std::ostringstream o;
  o.precision(17);
  o << specs[gen].name << " aggr=" << g.getAggressiveness() << " global=" << g.canDoGlobalCuts() << " maxsec=" << g.getMaxSeconds();
  if (gen >= NGEN)
    extOps[gen].params(o, const_cast< CglCutGenerator & >(g));
  switch (gen) {
  case KNAP: {
    const CglKnapsackCover &k = static_cast< const CglKnapsackCover & >(g);
    o << " maxIn=" << k.getMaxInKnapsack();
    break;
  }
  case CLIQUE: {
    const CglClique &k = static_cast< const CglClique & >(g);
    o << " minViol=" << k.getMinViolation();
    break;
  }
  case ODDHOLE: {
    const CglOddHole &k = static_cast< const CglOddHole & >(g);
    o << " minViol=" << k.getMinimumViolation() << " per=" << k.getMinimumViolationPer() << " maxEnt=" << k.getMaximumEntries();
    break;
  }
  case ZEROHALF: {
    const CglZeroHalf &k = static_cast< const CglZeroHalf & >(g);
    o << " flags=" << k.getFlags() << " sparse=" << k.getSepGraphSparseThreshold() << " pair=" << k.getRowMaxPairCount() << " frac=" << k.getRowMaxFractionalCount();
    break;
  }
  case MIR: {
    const CglMixedIntegerRounding &k = static_cast< const CglMixedIntegerRounding & >(g);
    o << " aggr=" << k.getMAXAGGR_() << " mult=" << k.getMULTIPLY_() << " crit=" << k.getCRITERION_() << " pre=" << k.getDoPreproc();
    break;
  }
  case REDSPLIT: {
    const CglRedSplit &k = static_cast< const CglRedSplit & >(g);
    CglRedSplitParam p = k.getParam();
    o << " away=" << p.getAway() << " cg2=" << p.getUSE_CG2() << " supp=" << p.getMAX_SUPPORT() << " minviol=" << p.getMINVIOL() << " minreduc=" << p.getMinReduc()
      << " maxtab=" << p.getMaxTab() << " maxdynlub=" << p.getMAXDYN_LUB() << " maxdyn=" << p.getMAXDYN() << " lub=" << p.getLUB() << " elim=" << p.getEPS_ELIM()
      << " rabs=" << p.getEPS_RELAX_ABS() << " rrel=" << p.getEPS_RELAX_REL() << " coeflub=" << p.getEPS_COEFF_LUB() << " norm=" << p.getNormIsZero()
      << " eps=" << p.getEPS() << " epsc=" << p.getEPS_COEFF() << " inf=" << p.getINFINIT() << " is=" << p.getUSE_INTSLACKS();
    break;
  }
  case LIFTPROJ:
    o << " beta=" << static_cast< const CglLiftAndProject & >(g).getBeta();
    break;
  case ALLDIFF: {
    const CglAllDifferent &k = static_cast< const CglAllDifferent & >(g);
    o << " log=" << k.getLogLevel() << " look=" << k.getMaxLook();
    break;
  }
  case DUPROW: {
    const CglDuplicateRow &k = static_cast< const CglDuplicateRow & >(g);
    o << " rhs=" << k.maximumRhs() << " dom=" << k.maximumDominated() << " log=" << k.logLevel() << " mode=" << k.mode();
    break;
  }
  case STORED: {
    const CglStored &k = static_cast< const CglStored & >(g);
    o << " viol=" << k.getRequiredViolation() << " stored=" << k.sizeRowCuts();
    for (int i = 0; i < k.sizeRowCuts(); i++)
      o << " {" << cutSig(*k.rowCutPointer(i)) << "}";
    break;
  }
  }
  return o.str();
}

GenPtr makeGen(Ctx &c, int gen, const Model &m, bool plain)
{
  Src &s = c.s;
  GenPtr g;
  if (gen == ALLDIFF) {
    // random family of sets
    std::vector< int > ints;
    for (int j = 0; j < m.n; j++)
      if (m.isInt[j])
        ints.push_back(j);
    int ns = s.in(1, 3);
    std::vector< int > st(1, 0), wh;
    for (int q = 0; q < ns; q++) {
      std::vector< int > f(ints);
      int len = ints.size() < 2 ? (int)ints.size() : s.in(2, (int)std::min< size_t >(6, ints.size()));
      for (int t = 0; t < len; t++) {
        int k = (int)s.raw((uint32_t)f.size());
        wh.push_back(f[k]);
        f.erase(f.begin() + k);
      }
      st.push_back((int)wh.size());
    }
    c.d << "sets:";
    for (int q = 0; q < ns; q++) {
      c.d << " {";
      for (int k = st[q]; k < st[q + 1]; k++)
        c.d << " " << wh[k];
      c.d << " }";
    }
    c.d << "\n";
    if (wh.empty())
      wh.push_back(0);
    g.reset(new CglAllDifferent(ns, &st[0], &wh[0]));
  } else if (gen == STORED) {
    CglStored *st = new CglStored(s.pct(50) ? m.n : 0);
    g.reset(st);
    int k = s.in(0, 4);
    for (int i = 0; i < k && m.n; i++) {
      std::vector< int > ix;
      Vec el;
      for (int j = 0; j < m.n; j++)
        if (s.pct(50)) {
          ix.push_back(j);
          el.push_back(s.in(-4, 4) + 0.5);
        }
      if (ix.empty())
        continue;
      double u = s.in(-3, 6) * 0.5;
      if (s.pct(50))
        st->addCut(-INF, u, (int)ix.size(), &ix[0], &el[0]);
      else
        st->addCut(s.pct(50) ? u : u - 2, s.pct(50) ? INF : u, CoinPackedVector((int)ix.size(), &ix[0], &el[0]));
    }
  } else if (gen == MIR && !plain && s.pct(30)) {
    g.reset(new CglMixedIntegerRounding(s.in(1, 4), s.pct(60), s.in(1, 3), s.ipick({ -1, 0, 1, 2 })));
  } else if (gen == CLIQUE && !plain && s.pct(20)) {
    // only rows of the original formulation
    g.reset(new CglClique(false, true));
  } else
    g = freshGen(gen);
  if (gen == DUPROW)
    static_cast< CglDuplicateRow & >(*g).setMode(8);
  if (!plain && s.pct(60)) {
    int k = s.in(1, 3);
    for (int i = 0; i < k; i++)
      mutateGen(c, gen, *g);
  }
  if (!plain && gen == KNAP && s.pct(15)) {
    std::vector< int > w;
    for (int i = 0; i < m.m(); i++)
      if (s.pct(50))
        w.push_back(i);
    if (s.pct(20))
      w.push_back(m.m() + 3); // ignored by the generator
    if (!w.empty()) {
      static_cast< CglKnapsackCover & >(*g).setTestedRowIndices((int)w.size(), &w[0]);
      c.d << "tested rows:";
      for (int i : w)
        c.d << " " << i;
      c.d << "\n";
    }
  }
  c.d << "generator: " << params(gen, *g) << "\n";
  return g;
}

void refresh(int gen, CglCutGenerator &g, OsiSolverInterface &si)
{
  g.refreshSolver(&si);
  if (gen >= NGEN && extOps[gen].refresh)
    extOps[gen].refresh(g);
}

CglTreeInfo genInfo(Ctx &c, const Model &m, bool inTree)
{
  CglTreeInfo t;
  Src &s = c.s;
  t.formulation_rows = m.m();
  t.inTree = inTree;
  t.level = s.pct(15) ? s.in(-1, 0) : inTree ? s.in(1, 5) : 0;
  t.pass = s.weighted({ 6, 2, 1, 1 });
  int o = 0;
  for (int b : { 1, 4, 8, 16, 32, 64, 128, 256, 1024 })
    if (s.pct(12))
      o |= b;
  t.options = o;
  c.d << "info: inTree=" << t.inTree << " level=" << t.level << " pass=" << t.pass << " options=" << t.options << "\n";
  return t;
}

bool place(Ctx &c, int gen, const Model &m, OsiClpSolverInterface &si)
{
  if (gen == LANDP)
    CoinSeedRandom(1234567);
  bool lp = specs[gen].needsBasis || c.s.pct(65);
  if (lp) {
    if (m.m() == 0 && m.n == 0)
      return false;
    if (!solveLP(si))
      return false;
    // a solver without matrix entries has no factorization to read
    if (specs[gen].needsBasis && si.getNumElements() == 0)
      return false;
    if (specs[gen].needsBasis && gen != LIFTPROJ) {
      // OsiClp recomputes its solution from the factorization: settle that
      if (gen == LANDP) {
        si.enableSimplexInterface(0);
        si.disableSimplexInterface();
      } else {
        si.enableFactorization();
        si.disableFactorization();
      }
    }
  } else {
    // some solution must exist in the solver first
    solveLP(si);
    Vec x = genPoint(c, m);
    si.setColSolution(x.empty() ? NULL : &x[0]);
  }
  c.d << (lp ? "LP optimum " : "point ");
  printPoint(c, si);
  return true;
}
void printPoint(Ctx &c, const OsiSolverInterface &si)
{
  c.d << strPoint(si.getColSolution(), si.getNumCols()) << "\n";
}
