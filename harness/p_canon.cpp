// C12: on canonical models each generator finds the cut its class offers
#include "gens.hpp"
using namespace pbt;

static double viol(const OsiRowCut &rc, const double *x)
{
  double a = 0;
  for (int k = 0; k < rc.row().getNumElements(); k++)
    a += rc.row().getElements()[k] * x[rc.row().getIndices()[k]];
  return std::max(rc.lb() > -1e20 ? rc.lb() - a : -INF, rc.ub() < 1e20 ? a - rc.ub() : -INF);
}
static double best(const OsiCuts &cs, const double *x)
{
  double v = 0;
  for (int i = 0; i < cs.sizeRowCuts(); i++)
    v = std::max(v, viol(cs.rowCut(i), x));
  return v;
}
static std::vector< int > perm(Ctx &c, int n)
{
  std::vector< int > to(n);
  for (int j = 0; j < n; j++)
    to[j] = j;
  for (int j = 0; j + 1 < n; j++)
    std::swap(to[j], to[j + (int)c.s.raw(n - j)]);
  return to;
}
// shuffle rows and columns of model and point
static void shuffle(Ctx &c, Model &m, Vec &x)
{
  std::vector< int > to = perm(c, m.n), ro = perm(c, m.m());
  Model r;
  r.n = m.n;
  r.obj.resize(m.n);
  r.lo.resize(m.n);
  r.up.resize(m.n);
  r.isInt.resize(m.n);
  Vec y(m.n);
  for (int j = 0; j < m.n; j++) {
    r.obj[to[j]] = m.obj[j];
    r.lo[to[j]] = m.lo[j];
    r.up[to[j]] = m.up[j];
    r.isInt[to[j]] = m.isInt[j];
    y[to[j]] = x[j];
  }
  for (int i : ro) {
    Row w;
    for (auto &e : m.rows[i])
      w.push_back(std::make_pair(to[e.first], e.second));
    std::sort(w.begin(), w.end());
    r.addRow(w, m.rl[i], m.ru[i]);
  }
  m = r;
  x = y;
}

// one odd cycle, for odd hole and zero-half
static void oddCycle(Ctx &c, bool half)
{
  Src &s = c.s;
  bool cover = s.pct(40);
  int k = 2 * s.in(1, 6) + 1;
  Model m;
  Vec x;
  double sl = 0; // total slack allowed: < 1
  for (int j = 0; j < k; j++) {
    m.addCol(0, 1, true, 0);
    x.push_back(0.5);
  }
  if (s.pct(50)) {
    // move the point off the middle, rows stay satisfied
    double d = s.dpick({ 0.01, 0.02, 0.03 });
    int j = (int)s.raw(k);
    x[j] += cover ? d : -d;
    sl = 2 * d;
    if (s.pct(50)) {
      int j2 = (j + 1) % k;
      x[j2] += cover ? -d : d;
      // neighbours beyond j2
      int j3 = (j2 + 1) % k;
      if (j3 != j) {
        x[j3] += cover ? d : -d;
        sl += 0;
      } else
        x[j2] = 0.5;
    }
  }
  int extra = s.in(0, 3), fix = s.in(0, 2);
  for (int j = 0; j < extra; j++) {
    m.addCol(0, 1, true, 0);
    x.push_back(0);
  }
  for (int j = 0; j < fix; j++) {
    double v = s.in(0, 2);
    m.addCol(v, v, true, 0);
    x.push_back(v);
  }
  double off = 0;
  for (int i = 0; i < k; i++) {
    Row r{ { i, 1.0 }, { (i + 1) % k, 1.0 } };
    double rhs = 1;
    double mult = 1;
    for (int j = 0; j < extra; j++)
      if (s.pct(25))
        r.push_back({ k + j, half ? (cover ? -2.0 : 2.0) * s.in(0, 1) + (cover ? 0.0 : 0.0) + (cover ? 2.0 : 0.0) : 1.0 });
    for (int j = 0; j < fix; j++)
      if (s.pct(40)) {
        double a = half ? 2.0 : (double)s.ipick({ 1, 2, -1 });
        r.push_back({ k + extra + j, a });
        rhs += a * m.lo[k + extra + j];
      }
    Row q;
    for (auto &e : r)
      if (e.second)
        q.push_back({ e.first, e.second * mult });
    std::sort(q.begin(), q.end());
    (void)off;
    bool eq = s.pct(10) && std::fabs(act(q, x.data()) - rhs) < 1e-9;
    if (cover)
      m.addRow(q, rhs, eq ? rhs : INF);
    else if (half && s.pct(30)) {
      for (auto &e : q)
        e.second = -e.second;
      m.addRow(q, -rhs, eq ? -rhs : INF);
    } else
      m.addRow(q, eq ? rhs : -INF, rhs);
  }
  // an unrelated row
  if (s.pct(30)) {
    int a = m.addCol(0, 3, true, 0), b = m.addCol(0, 5, false, 0);
    x.push_back(1);
    x.push_back(0.5);
    m.addRow(Row{ { a, 2.0 }, { b, 1.0 } }, -INF, 7);
  }
  shuffle(c, m, x);
  c.d << m.str() << "point " << strPoint(x.data(), m.n) << "\n";
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.getColType(true);
  solveLP(si);
  si.setColSolution(x.data());
  for (int i = 0; i < m.m(); i++) {
    double a = act(m.rows[i], x.data());
    if (a < m.rl[i] - 1e-9 || a > m.ru[i] + 1e-9)
      throw Discard();
  }
  OsiCuts cs;
  double want = 0.5 - 0.5 * sl - 1e-5;
  if (!half) {
    CglOddHole g;
    g.generateCuts(si, cs, genInfo(c, m));
  } else {
    CglZeroHalf g;
    g.refreshSolver(&si);
    g.generateCuts(si, cs, genInfo(c, m));
  }
  c.nontrivial = true;
  double v = best(cs, x.data());
  if (v < want)
    c.fail(half ? "zerohalf" : "oddhole", cat("best violation ", v, " of ", cs.sizeRowCuts(), " cuts, the odd cycle of length ", k, " offers ", want));
}

static void cover(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int n = s.in(3, 10);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, 0);
  Row r;
  double tot = 0;
  std::vector< double > a;
  std::vector< char > comp(n, 0);
  for (int j = 0; j < n; j++) {
    double v = s.in(3, 40);
    a.push_back(v);
    tot += v;
  }
  double b = std::floor(tot * s.in(3, 8) / 10.0), rhs;
  for (int j = 0; j < n; j++)
    b = std::max(b, a[j]); // no column excluded by the row alone
  rhs = b;
  for (int j = 0; j < n; j++) {
    double v = a[j];
    if (s.pct(20)) {
      comp[j] = 1;
      rhs -= v;
      v = -v;
    }
    r.push_back({ j, v });
    m.obj[j] = -v - (v > 0 ? 1 : -1) * s.in(0, 8);
  }
  if (s.pct(30)) {
    for (auto &e : r)
      e.second = -e.second;
    m.addRow(r, -rhs, INF);
  } else
    m.addRow(r, -INF, rhs);
  Vec x(n, 0.0);
  shuffle(c, m, x);
  for (int j = 0; j < n; j++) {
    double v = m.rows[0][j].second * (m.ru[0] < 1e20 ? 1 : -1);
    a[m.rows[0][j].first] = std::fabs(v);
    comp[m.rows[0][j].first] = v < 0;
  }
  OsiClpSolverInterface si;
  loadModel(m, si);
  if (!solveLP(si))
    throw Discard();
  Vec z(n);
  if (s.pct(50)) {
    // any point of the row, not only a vertex
    double left = b;
    std::vector< int > ord = perm(c, n);
    Vec w(n);
    for (int j : ord) {
      double v = s.ipick({ 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8 }) / 8.0;
      z[j] = std::min(v, std::floor(left / a[j] * 64) / 64);
      left -= z[j] * a[j];
      w[j] = comp[j] ? 1 - z[j] : z[j];
    }
    si.setColSolution(w.data());
    c.label("knapsack, inner point");
  }
  for (int j = 0; j < n; j++) {
    x[j] = si.getColSolution()[j];
    z[j] = comp[j] ? 1 - x[j] : x[j];
  }
  c.d << m.str() << "point " << strPoint(x.data(), n) << "\n";
  // most violated minimal cover by enumeration
  double bestV = 0;
  int mask = 0;
  for (int t = 1; t < (1 << n); t++) {
    double w = 0, v = 1, mn = 1e9;
    for (int j = 0; j < n; j++)
      if (t >> j & 1) {
        w += a[j];
        v -= 1 - z[j];
        mn = std::min(mn, a[j]);
      }
    if (w > b + 1e-9 && w - mn <= b + 1e-9 && v > bestV) {
      bestV = v;
      mask = t;
    }
  }
  double amin = *std::min_element(a.begin(), a.end()), amax = *std::max_element(a.begin(), a.end());
  if (bestV < 0.02 || amax - amin < 2e-3 * amax)
    return;
  c.nontrivial = true;
  CglKnapsackCover g;
  bool ex = s.pct(50);
  if (ex)
    g.switchOnExpensive();
  OsiCuts cs;
  CglTreeInfo info = genInfo(c, m);
  double use = 0;
  for (int j = 0; j < n; j++)
    use += a[j] * z[j];
  if (use < b - 1e-6) { // loose rows are only looked at in the first pass at the root
    info.inTree = false;
    info.pass = 0;
  }
  g.generateCuts(si, cs, info);
  c.d << "expensive " << ex << "\n";
  c.label(ex ? "knapsack, expensive" : "knapsack");
  double v = best(cs, x.data());
  if (v < bestV - 1e-6)
    c.fail("cover", cat("best violation ", v, " of ", cs.sizeRowCuts(), " cuts, a minimal cover (mask ", mask, ") offers ", bestV));
}

static void mir(Ctx &c)
{
  Src &s = c.s;
  Model m;
  int n = s.in(1, 4);
  Vec x;
  Vec a;
  Row r;
  double den = s.ipick({ 1, 1, 2, 4 });
  for (int j = 0; j < n; j++) {
    m.addCol(0, s.in(1, 6), true, -s.in(1, 9));
    a.push_back(s.in(1, 12) / den * (s.pct(15) ? -1 : 1));
    r.push_back({ j, a[j] });
  }
  int q = s.in(0, 2);
  for (int j = 0; j < q; j++) {
    m.addCol(0, s.pct(30) ? INF : 20, false, s.in(1, 9));
    r.push_back({ m.n - 1, -(double)s.in(1, 5) });
  }
  double b = s.in(1, 40) / den / s.ipick({ 1, 2, 3 });
  double sc = s.dpick({ 1, 2, 0.5, 10 });
  for (auto &e : r)
    e.second *= sc;
  b *= sc;
  if (s.pct(30)) {
    for (auto &e : r)
      e.second = -e.second;
    m.addRow(r, -b, INF);
  } else
    m.addRow(r, s.pct(15) ? b : -INF, b);
  x.assign(m.n, 0);
  shuffle(c, m, x);
  OsiClpSolverInterface si;
  loadModel(m, si);
  if (!solveLP(si))
    throw Discard();
  x.assign(si.getColSolution(), si.getColSolution() + m.n);
  if (s.pct(25) && m.rl[0] != m.ru[0]) {
    // some other point of the row
    Vec y(m.n);
    for (int j = 0; j < m.n; j++)
      y[j] = std::min(m.up[j], s.in(0, 24) / 4.0);
    double ay = act(m.rows[0], y.data());
    if (ay <= m.ru[0] && ay >= m.rl[0]) {
      x = y;
      si.setColSolution(y.data());
    }
  }
  c.d << m.str() << "point " << strPoint(x.data(), m.n) << "\n";
  int crit = s.in(1, 3);
  bool mult = s.pct(60);
  // c-MIR inequality of the row (and of its negative), complementing the
  // integers at or above half of their bound, dividing by any positive
  // coefficient of a column strictly between its bounds
  double bestV = 0, bd = 0;
  bool lrow = m.rl[0] < -1e20;
  double ax = act(m.rows[0], x.data());
  for (int sg = 1; sg >= (mult ? -1 : 1); sg -= 2) {
    double beta = sg * (lrow ? m.ru[0] : m.rl[0]), ss = 0;
    int ns = 0;
    for (auto &e : m.rows[0])
      if (!m.isInt[e.first]) {
        double ae = sg * e.second, v = x[e.first], l = m.lo[e.first], u = m.up[e.first];
        bool low;
        if (crit == 1)
          low = v - l < u - v;
        else if (u > 1e20 || v == l)
          low = true;
        else if (v == u)
          low = false;
        else
          low = crit == 2 ? ae < 0 : ae > 0;
        beta -= ae * (low ? l : u);
        if (low ? ae < 0 : ae > 0) {
          ns++;
          ss += low ? -ae * (v - l) : ae * (u - v);
        }
      }
    if (m.rl[0] != m.ru[0]) {
      double as = sg * (lrow ? 1 : -1);
      if (as < 0) {
        ns++;
        ss += lrow ? m.ru[0] - ax : ax - m.rl[0];
      }
    }
    if (!ns)
      continue;
    for (auto &e : m.rows[0])
      if (m.isInt[e.first] && x[e.first] >= m.up[e.first] / 2)
        beta -= sg * e.second * m.up[e.first];
    for (auto &e : m.rows[0]) {
      int t = e.first;
      double d = sg * e.second;
      if (!m.isInt[t] || x[t] < 1e-5 || x[t] > m.up[t] - 1e-5 || d < 1e-5)
        continue;
      double q = beta / d, f = q - std::floor(q);
      if (f < 0.01 || f > 0.99)
        continue;
      double v = -std::floor(q) - ss / (d * (1 - f)), nn = 1 / (d * (1 - f)) / (d * (1 - f));
      for (auto &g : m.rows[0])
        if (m.isInt[g.first]) {
          bool cp = x[g.first] >= m.up[g.first] / 2;
          double al = sg * g.second / d * (cp ? -1 : 1), fa = al - std::floor(al);
          double G = std::floor(al) + std::max(0.0, fa - f) / (1 - f);
          v += G * (cp ? m.up[g.first] - x[g.first] : x[g.first]);
          nn += G * G;
        }
      v /= std::sqrt(nn);
      if (v > bestV) {
        bestV = v;
        bd = d;
      }
    }
  }
  if (bestV < 0.02)
    return;
  c.nontrivial = true;
  CglMixedIntegerRounding g(s.in(1, 4), mult, crit, s.ipick({ -1, 0, 1 }));
  c.d << params(MIR, g) << "\n";
  g.refreshSolver(&si);
  OsiCuts cs;
  g.generateCuts(si, cs, genInfo(c, m));
  double v = best(cs, x.data());
  c.label("mir");
  if (v < 1e-5) {
    c.label("mir missed");
    c.fail("mir", cat("best violation ", v, " of ", cs.sizeRowCuts(), " cuts, rounding with delta ", bd, " offers ", bestV));
  }
}

// Gomory mixed-integer cut of the tableau row of the basic column p, worked out from the model
// data and the basis status alone: alpha x >= delta; false if the basis is not a proper one
static bool gmi(const Model &m, const double *x, const std::vector< int > &cst, const std::vector< int > &rst, int p, Vec &alpha, double &f0)
{
  std::vector< int > B, R;
  for (int j = 0; j < m.n; j++) {
    if (cst[j] == 0)
      return false;
    if (cst[j] == 1)
      B.push_back(j);
    else if (x[j] != m.lo[j] && x[j] != m.up[j])
      return false;
  }
  Vec act(m.m(), 0);
  for (int i = 0; i < m.m(); i++) {
    if (rst[i] == 0)
      return false;
    for (auto &e : m.rows[i])
      act[i] += e.second * x[e.first];
    if (rst[i] != 1)
      R.push_back(i);
  }
  int K = (int)B.size();
  if (K != (int)R.size() || !K)
    return false;
  // inverse of the active rows restricted to the basic columns
  std::vector< Vec > T(K, Vec(2 * K, 0));
  std::vector< int > pos(m.n, -1);
  for (int k = 0; k < K; k++)
    pos[B[k]] = k;
  for (int i = 0; i < K; i++) {
    for (auto &e : m.rows[R[i]])
      if (pos[e.first] >= 0)
        T[i][pos[e.first]] += e.second;
    T[i][K + i] = 1;
  }
  for (int k = 0; k < K; k++) {
    int piv = k;
    for (int i = k; i < K; i++)
      if (std::fabs(T[i][k]) > std::fabs(T[piv][k]))
        piv = i;
    if (std::fabs(T[piv][k]) < 1e-6)
      return false;
    std::swap(T[piv], T[k]);
    double d = T[k][k];
    for (auto &v : T[k])
      v /= d;
    for (int i = 0; i < K; i++)
      if (i != k && T[i][k] != 0) {
        double q = T[i][k];
        for (int l = 0; l < 2 * K; l++)
          T[i][l] -= q * T[k][l];
      }
  }
  Vec w(T[pos[p]].begin() + K, T[pos[p]].end());
  f0 = x[p] - std::floor(x[p]);
  double rat = f0 / (1 - f0);
  alpha.assign(m.n, 0);
  auto coef = [&](double d, bool integer) {
    if (!integer)
      return d > 0 ? d : -d * rat;
    double f = d - std::floor(d);
    return f <= f0 ? f : rat * (1 - f);
  };
  Vec d(m.n, 0);
  for (int k = 0; k < K; k++)
    for (auto &e : m.rows[R[k]])
      if (pos[e.first] < 0)
        d[e.first] += w[k] * e.second;
  for (int j = 0; j < m.n; j++)
    if (pos[j] < 0) {
      bool up = m.up[j] > m.lo[j] ? x[j] == m.up[j] : cst[j] == 2;
      double y = coef(up ? -d[j] : d[j], m.isInt[j]);
      alpha[j] += up ? -y : y;
    }
  for (int k = 0; k < K; k++) {
    int i = R[k];
    if (m.ru[i] - m.rl[i] < 1e-6)
      return false; // several forms of the same cut
    bool up = std::fabs(act[i] - m.ru[i]) < 1e-7;
    if (!up && std::fabs(act[i] - m.rl[i]) > 1e-7)
      return false;
    // a x + t = ru, or a x - t = rl
    double t = coef(up ? w[k] : -w[k], false);
    for (auto &e : m.rows[i])
      alpha[e.first] += (up ? -t : t) * e.second;
  }
  return true;
}

static void redsplit(Ctx &c)
{
  Src &s = c.s;
  Model m = genModelFor(c, REDSPLIT);
  OsiClpSolverInterface si;
  loadModel(m, si);
  c.d << m.str();
  if (!place(c, REDSPLIT, m, si))
    throw Discard();
  int nf = 0, p = -1;
  double fr = 0;
  const double *x = si.getColSolution();
  for (int j = 0; j < m.n; j++) {
    if (m.isInt[j]) {
      double f = x[j] - std::floor(x[j]), d = std::min(f, 1 - f);
      if (d > 1e-7) {
        nf++;
        fr = d;
        p = j;
      }
    } else if (m.lo[j] == m.up[j])
      return; // may be taken for an integer column
    if (m.lo[j] < -900 || m.up[j] > 900)
      return;
  }
  if (nf != 1 || fr < 0.06)
    return;
  std::vector< int > cst(m.n), rst(m.m() + 1);
  si.getBasisStatus(cst.data(), rst.data());
  Vec alpha;
  double f0;
  if (cst[p] != 1 || !gmi(m, x, cst, rst, p, alpha, f0))
    return;
  double nrm = 0;
  int nel = 0;
  for (double v : alpha) {
    if (std::fabs(v) > 1e-10 && std::fabs(v) < 1e-3)
      return; // around the tolerances of the generator
    if (std::fabs(v) > 1e-3) {
      nrm += v * v;
      nel++;
    }
  }
  // cuts with large or tiny coefficients are dropped by the generator
  if (!nel || nrm > 95 * nel || nrm < 0.01 * nel)
    return;
  double eff = f0 / std::sqrt(nrm);
  if (eff < 1e-3)
    return;
  c.nontrivial = true;
  CglRedSplit g;
  if (s.pct(50)) {
    CglRedSplitParam q = g.getParam();
    q.setUSE_CG2(1);
    g.setParam(q);
  }
  OsiCuts cs;
  g.generateCuts(si, cs, genInfo(c, m));
  c.label("split");
  double got = 0;
  for (int k = 0; k < cs.sizeRowCuts(); k++) {
    const CoinPackedVector &r = cs.rowCut(k).row();
    double q = 0;
    for (int l = 0; l < r.getNumElements(); l++)
      q += r.getElements()[l] * r.getElements()[l];
    if (q > 0)
      got = std::max(got, cs.rowCut(k).violated(x) / std::sqrt(q));
  }
  if (got < eff - 1e-4)
    c.fail("split", cat("the cut of the tableau row of x", p, " is at distance ", eff, " from the point, the best of ", cs.sizeRowCuts(), " cuts returned at ", got));
}

static void run(Ctx &c)
{
  switch (c.s.weighted({ 2, 2, 3, 3, 3 })) {
  case 0:
    c.label("odd cycle");
    oddCycle(c, false);
    break;
  case 1:
    c.label("odd cycle, zero-half");
    oddCycle(c, true);
    break;
  case 2:
    cover(c);
    break;
  case 3:
    mir(c);
    break;
  default:
    redsplit(c);
  }
}
static Reg r12({ "C12", "canonical models", run, 800000, 9600000, "a case = one canonical model and point; non-trivial = the independent oracle finds a violated cut of the class" });
