#include "mip.hpp"
#include <iomanip>
using namespace pbt;

std::string Model::str() const
{
  std::ostringstream o;
  o.precision(17);
  auto b = [&](double x) {
    std::ostringstream q;
    q.precision(12);
    if (x > 1e29)
      q << "inf";
    else if (x < -1e29)
      q << "-inf";
    else
      q << x;
    return q.str();
  };
  o << "columns:";
  for (int j = 0; j < n; j++)
    o << " x" << j << (isInt[j] ? "i" : "c") << "[" << b(lo[j]) << "," << b(up[j]) << "]*" << b(obj[j]);
  o << "\n";
  for (int i = 0; i < m(); i++) {
    o << " r" << i << ": " << b(rl[i]) << " <=";
    for (auto &e : rows[i])
      o << " " << (e.second >= 0 ? "+" : "") << e.second << " x" << e.first;
    o << " <= " << b(ru[i]) << "\n";
  }
  return o.str();
}

void loadModel(const Model &m, OsiClpSolverInterface &si)
{
  si.messageHandler()->setLogLevel(0);
  si.getModelPtr()->setLogLevel(0);
  CoinPackedMatrix mat(false, 0, 0);
  mat.setDimensions(0, m.n);
  for (auto &r : m.rows) {
    CoinPackedVector v;
    for (auto &e : r)
      v.insert(e.first, e.second);
    mat.appendRow(v);
  }
  Vec rl(m.rl), ru(m.ru);
  si.loadProblem(mat, m.n ? &m.lo[0] : NULL, m.n ? &m.up[0] : NULL, m.n ? &m.obj[0] : NULL, rl.empty() ? NULL : &rl[0], ru.empty() ? NULL : &ru[0]);
  for (int j = 0; j < m.n; j++)
    if (m.isInt[j])
      si.setInteger(j);
    else
      si.setContinuous(j);
  si.getColType(true);
}

bool feasible(const Model &m, const double *x, double tol)
{
  for (int j = 0; j < m.n; j++)
    if (x[j] < m.lo[j] - tol || x[j] > m.up[j] + tol)
      return false;
  for (int i = 0; i < m.m(); i++) {
    double a = act(m.rows[i], x);
    double t = tol * (1 + fabs(a));
    if (a < m.rl[i] - t || a > m.ru[i] + t)
      return false;
  }
  return true;
}

static bool solveSquare(std::vector< Vec > a, Vec b, Vec &x)
{
  int k = (int)b.size();
  for (int c = 0; c < k; c++) {
    int p = c;
    for (int r = c + 1; r < k; r++)
      if (fabs(a[r][c]) > fabs(a[p][c]))
        p = r;
    if (fabs(a[p][c]) < 1e-7)
      return false;
    std::swap(a[p], a[c]);
    std::swap(b[p], b[c]);
    for (int r = 0; r < k; r++)
      if (r != c) {
        double f = a[r][c] / a[c][c];
        if (f == 0)
          continue;
        for (int q = c; q < k; q++)
          a[r][q] -= f * a[c][q];
        b[r] -= f * b[c];
      }
  }
  x.resize(k);
  for (int c = 0; c < k; c++)
    x[c] = b[c] / a[c][c];
  return true;
}

Points enumerate(const Model &m, size_t limit, int intSpan, double contBox)
{
  return enumerate(m, m.n ? &m.lo[0] : NULL, m.n ? &m.up[0] : NULL, limit, intSpan, contBox);
}

Points enumerate(const Model &m, const double *colLo, const double *colUp, size_t limit, int intSpan, double contBox)
{
  Points P;
  P.n = m.n;
  std::vector< int > I, C;
  Vec lo(colLo, colLo + m.n), up(colUp, colUp + m.n);
  for (int j = 0; j < m.n; j++) {
    bool il = lo[j] < -1e9, iu = up[j] > 1e9;
    if (m.isInt[j]) {
      if (il && iu) {
        lo[j] = -intSpan;
        up[j] = intSpan;
      } else if (il)
        lo[j] = up[j] - 2 * intSpan;
      else if (iu)
        up[j] = lo[j] + 2 * intSpan;
      lo[j] = ceil(lo[j] - 1e-9);
      up[j] = floor(up[j] + 1e-9);
      I.push_back(j);
    } else {
      if (il && iu) {
        lo[j] = -contBox;
        up[j] = contBox;
      } else if (il)
        lo[j] = up[j] - contBox;
      else if (iu)
        up[j] = lo[j] + contBox;
      C.push_back(j);
    }
    if (lo[j] > up[j])
      return P;
  }
  // order of rows: activity bounds for pruning on integers
  int k = (int)C.size();
  Vec x(m.n, 0.0);
  std::vector< int > posC(m.n, -1);
  for (int q = 0; q < k; q++)
    posC[C[q]] = q;
  size_t nodes = 0;
  const size_t nodeLimit = 400000;
  std::vector< size_t > seen;
  // min/max activity of the undecided columns, per depth
  int d = (int)I.size();
  std::vector< Vec > minA(d + 1, Vec(m.m(), 0.0)), maxA(d + 1, Vec(m.m(), 0.0));
  std::vector< int > depthOf(m.n, -1);
  for (int q = 0; q < d; q++)
    depthOf[I[q]] = q;
  for (int i = 0; i < m.m(); i++) {
    Vec mn(d + 1, 0.0), mx(d + 1, 0.0);
    for (auto &e : m.rows[i]) {
      int j = e.first;
      double a = e.second * lo[j], b = e.second * up[j];
      if (a > b)
        std::swap(a, b);
      int upto = m.isInt[j] ? depthOf[j] : d; // undecided at depths <= upto
      for (int q = 0; q <= upto; q++) {
        mn[q] += a;
        mx[q] += b;
      }
    }
    for (int q = 0; q <= d; q++) {
      minA[q][i] = mn[q];
      maxA[q][i] = mx[q];
    }
  }
  Vec cur(m.m(), 0.0);
  std::vector< Row > colEnt(m.n);
  for (int i = 0; i < m.m(); i++)
    for (auto &e : m.rows[i])
      colEnt[e.first].push_back(std::make_pair(i, e.second));

  std::function< void() > leaf = [&]() {
    if (k == 0) {
      P.v.insert(P.v.end(), x.begin(), x.end());
      return;
    }
    // constraints on y
    struct H {
      Vec a;
      double l, u;
    };
    std::vector< H > hs;
    for (int i = 0; i < m.m(); i++) {
      H h;
      h.a.assign(k, 0.0);
      double s = 0;
      bool any = false;
      for (auto &e : m.rows[i])
        if (posC[e.first] >= 0) {
          h.a[posC[e.first]] += e.second;
          any = true;
        } else
          s += e.second * x[e.first];
      if (!any)
        continue;
      h.l = m.rl[i] > -1e20 ? m.rl[i] - s : -INF;
      h.u = m.ru[i] < 1e20 ? m.ru[i] - s : INF;
      hs.push_back(h);
    }
    for (int q = 0; q < k; q++) {
      H h;
      h.a.assign(k, 0.0);
      h.a[q] = 1;
      h.l = lo[C[q]];
      h.u = up[C[q]];
      hs.push_back(h);
    }
    // candidate hyperplanes
    std::vector< std::pair< int, double > > pl;
    for (size_t h = 0; h < hs.size(); h++) {
      if (hs[h].l > -1e20)
        pl.push_back(std::make_pair((int)h, hs[h].l));
      if (hs[h].u < 1e20 && hs[h].u != hs[h].l)
        pl.push_back(std::make_pair((int)h, hs[h].u));
    }
    std::vector< int > sel;
    std::vector< Vec > found;
    std::function< void(size_t) > rec = [&](size_t from) {
      if ((int)sel.size() == k) {
        std::vector< Vec > a;
        Vec b, y;
        for (int t : sel) {
          a.push_back(hs[pl[t].first].a);
          b.push_back(pl[t].second);
        }
        if (!solveSquare(a, b, y))
          return;
        for (auto &h : hs) {
          double s = 0, mag = 1;
          for (int q = 0; q < k; q++) {
            s += h.a[q] * y[q];
            mag += fabs(h.a[q] * y[q]);
          }
          if (s < h.l - 1e-9 * mag || s > h.u + 1e-9 * mag)
            return;
        }
        for (auto &f : found) {
          double df = 0;
          for (int q = 0; q < k; q++)
            df = std::max(df, fabs(f[q] - y[q]));
          if (df < 1e-8)
            return;
        }
        found.push_back(y);
        for (int q = 0; q < k; q++)
          x[C[q]] = y[q];
        P.v.insert(P.v.end(), x.begin(), x.end());
        return;
      }
      for (size_t t = from; t < pl.size(); t++) {
        if (!sel.empty() && pl[sel.back()].first == pl[t].first)
          continue;
        sel.push_back((int)t);
        rec(t + 1);
        sel.pop_back();
      }
    };
    rec(0);
  };
  std::function< void(int) > dfs = [&](int q) {
    if (!P.complete)
      return;
    if (++nodes > nodeLimit || P.v.size() / std::max(1, m.n) > limit) {
      P.complete = false;
      return;
    }
    for (int i = 0; i < m.m(); i++) {
      double t = 1e-9 * (1 + fabs(cur[i]));
      if (cur[i] + minA[q][i] > m.ru[i] + t || cur[i] + maxA[q][i] < m.rl[i] - t)
        return;
    }
    if (q == d) {
      leaf();
      return;
    }
    int j = I[q];
    for (double v = lo[j]; v <= up[j] + 1e-9; v += 1.0) {
      x[j] = v;
      for (auto &e : colEnt[j])
        cur[e.first] += e.second * v;
      dfs(q + 1);
      for (auto &e : colEnt[j])
        cur[e.first] -= e.second * v;
    }
    x[j] = 0;
  };
  dfs(0);
  return P;
}

std::string str(const OsiRowCut &c)
{
  std::ostringstream o;
  o.precision(17);
  o << c.lb() << " <=";
  const CoinPackedVector &r = c.row();
  for (int k = 0; k < r.getNumElements(); k++)
    o << " " << (r.getElements()[k] >= 0 ? "+" : "") << r.getElements()[k] << " x" << r.getIndices()[k];
  o << " <= " << c.ub();
  return o.str();
}
std::string str(const OsiColCut &c)
{
  std::ostringstream o;
  o.precision(17);
  for (int k = 0; k < c.lbs().getNumElements(); k++)
    o << " x" << c.lbs().getIndices()[k] << ">=" << c.lbs().getElements()[k];
  for (int k = 0; k < c.ubs().getNumElements(); k++)
    o << " x" << c.ubs().getIndices()[k] << "<=" << c.ubs().getElements()[k];
  return o.str();
}
std::string strPoint(const double *x, int n)
{
  std::ostringstream o;
  o.precision(17);
  o << "(";
  for (int j = 0; j < n; j++)
    o << (j ? "," : "") << x[j];
  o << ")";
  return o.str();
}

bool cutsOff(const OsiRowCut &c, const double *x, double tol)
{
  const CoinPackedVector &r = c.row();
  double s = 0, mag = 1;
  for (int k = 0; k < r.getNumElements(); k++) {
    double t = r.getElements()[k] * x[r.getIndices()[k]];
    s += t;
    // coefficients beyond 1e6 bring their own round-off
    mag = std::max(mag, std::max(fabs(t), 1e-6 * fabs(r.getElements()[k])));
  }
  if (!(s == s))
    return true;
  double t = tol * mag;
  return s < c.lb() - t || s > c.ub() + t;
}
bool cutsOff(const OsiColCut &c, const double *x, double tol)
{
  for (int k = 0; k < c.lbs().getNumElements(); k++)
    if (x[c.lbs().getIndices()[k]] < c.lbs().getElements()[k] - tol)
      return true;
  for (int k = 0; k < c.ubs().getNumElements(); k++)
    if (x[c.ubs().getIndices()[k]] > c.ubs().getElements()[k] + tol)
      return true;
  return false;
}

void checkValid(Ctx &c, const std::string &tag, const OsiCuts &cs, const Points &pts, double tol, int row0, int col0)
{
  for (int i = row0; i < cs.sizeRowCuts(); i++) {
    const OsiRowCut &rc = cs.rowCut(i);
    for (size_t p = 0; p < pts.size(); p++)
      if (cutsOff(rc, pts.at(p), tol))
        c.fail(tag, cat("row cut ", str(rc), " removes the feasible point ", strPoint(pts.at(p), pts.n)));
  }
  for (int i = col0; i < cs.sizeColCuts(); i++) {
    const OsiColCut &cc = cs.colCut(i);
    for (size_t p = 0; p < pts.size(); p++)
      if (cutsOff(cc, pts.at(p), tol))
        c.fail(tag + "-col", cat("column cut ", str(cc), " removes the feasible point ", strPoint(pts.at(p), pts.n)));
  }
}

void checkWellFormed(Ctx &c, const std::string &tag, const OsiCuts &cs, int ncol, int row0, int col0)
{
  for (int i = row0; i < cs.sizeRowCuts(); i++) {
    const OsiRowCut &rc = cs.rowCut(i);
    const CoinPackedVector &r = rc.row();
    std::vector< char > seen(ncol, 0);
    for (int k = 0; k < r.getNumElements(); k++) {
      int j = r.getIndices()[k];
      double v = r.getElements()[k];
      if (j < 0 || j >= ncol)
        c.fail(tag + "-index", cat("cut refers to column ", j, " of ", ncol, ": ", str(rc)));
      if (seen[j])
        c.fail(tag + "-dup", cat("cut has column ", j, " twice: ", str(rc)));
      seen[j] = 1;
      if (!std::isfinite(v))
        c.fail(tag + "-coef", cat("cut has a coefficient that is not finite: ", str(rc)));
    }
    if (rc.lb() != rc.lb() || rc.ub() != rc.ub())
      c.fail(tag + "-nan", cat("cut bound is not a number: ", str(rc)));
  }
  for (int i = col0; i < cs.sizeColCuts(); i++) {
    const OsiColCut &cc = cs.colCut(i);
    const CoinPackedVector *pv[2] = { &cc.lbs(), &cc.ubs() };
    for (int q = 0; q < 2; q++) {
      std::vector< char > seen(ncol, 0);
      for (int k = 0; k < pv[q]->getNumElements(); k++) {
        int j = pv[q]->getIndices()[k];
        if (j < 0 || j >= ncol)
          c.fail(tag + "-index", cat("column cut refers to column ", j, " of ", ncol));
        if (seen[j])
          c.fail(tag + "-dup", cat("column cut has column ", j, " twice: ", str(cc)));
        seen[j] = 1;
        if (pv[q]->getElements()[k] != pv[q]->getElements()[k])
          c.fail(tag + "-nan", cat("column cut bound is not a number: ", str(cc)));
      }
    }
  }
}

std::string cutSig(const OsiRowCut &c)
{
  std::ostringstream o;
  o << std::setprecision(17);
  std::vector< std::pair< int, double > > v;
  const CoinPackedVector &r = c.row();
  for (int k = 0; k < r.getNumElements(); k++)
    v.push_back(std::make_pair(r.getIndices()[k], r.getElements()[k]));
  std::sort(v.begin(), v.end());
  o << "R " << c.lb() << " " << c.ub() << " g" << (c.globallyValid() ? 1 : 0);
  for (auto &e : v)
    o << " " << e.first << ":" << e.second;
  return o.str();
}
std::vector< std::string > cutSigs(const OsiCuts &cs, bool sorted, int row0, int col0)
{
  std::vector< std::string > r;
  for (int i = row0; i < cs.sizeRowCuts(); i++)
    r.push_back(cutSig(cs.rowCut(i)));
  for (int i = col0; i < cs.sizeColCuts(); i++)
    r.push_back("C" + str(cs.colCut(i)));
  if (sorted)
    std::sort(r.begin(), r.end());
  return r;
}

double boxSize(const Model &m, int intSpan)
{
  double s = 1;
  for (int j = 0; j < m.n; j++)
    if (m.isInt[j]) {
      double w = m.up[j] - m.lo[j];
      if (w > 1e9)
        w = 2 * intSpan;
      s *= std::max(1.0, w + 1);
    }
  return s;
}

Model genModel(Ctx &c, const Cfg &g)
{
  Src &s = c.s;
  Model m;
  int nI = s.in(g.minInt, g.maxInt);
  int nC = s.in(0, g.maxCont);
  Vec plant;
  double box = 1;
  for (int j = 0; j < nI + nC; j++) {
    double lo = 0, up = 1;
    bool integer = j < nI;
    if (integer) {
      if (s.pct(g.genInt) && box < 3000) {
        up = s.in(2, 5);
        if (s.pct(g.negLb)) {
          double sh = s.in(1, 3);
          lo -= sh;
          up -= sh;
        }
        if (s.pct(20)) {
          double sh = s.in(1, 4);
          lo += sh;
          up += sh;
        }
        if (s.pct(g.infUp))
          up = INF;
      }
      box *= up > 1e9 ? 11 : up - lo + 1;
    } else {
      up = s.in(1, 12);
      if (s.pct(30))
        up = up * 0.5;
      if (s.pct(g.negLb))
        lo = -s.in(1, 6);
      if (s.pct(g.infUp))
        up = INF;
    }
    if (s.pct(g.fixedCol)) {
      double v = up > 1e9 ? lo : (integer ? s.in((int)lo, (int)up) : (s.pct(50) ? lo : up));
      lo = up = v;
    }
    double ob = s.in(-6, 6);
    m.addCol(lo, up, integer, ob);
    double hi = up > 1e9 ? lo + 4 : up;
    double v = integer ? s.in((int)lo, (int)hi) : lo + (hi - lo) * s.in(0, 4) / 4.0;
    plant.push_back(v);
  }
  int nR = s.in(g.minRow, g.maxRow);
  for (int i = 0; i < nR; i++) {
    Row r;
    int kind = s.weighted({ g.wPack, g.wCover, g.wPart, g.wKnap, g.wGen, g.wVub, g.wEdge, g.wCopy });
    if (s.pct(g.emptyRow)) {
      m.addRow(r, s.pct(50) ? -INF : 0, s.in(0, 2));
      continue;
    }
    double rl = -INF, ru = INF;
    std::vector< int > B; // candidate 0-1 columns for set rows
    for (int j = 0; j < nI; j++)
      B.push_back(j);
    auto subset = [&](const std::vector< int > &from, int lowLen, int highLen) {
      std::vector< int > f(from), r2;
      int len = s.in(std::min(lowLen, (int)f.size()), std::min(highLen, (int)f.size()));
      for (int t = 0; t < len && !f.empty(); t++) {
        int q = (int)s.raw((uint32_t)f.size());
        r2.push_back(f[q]);
        f.erase(f.begin() + q);
      }
      std::sort(r2.begin(), r2.end());
      return r2;
    };
    std::vector< int > all;
    for (int j = 0; j < m.n; j++)
      all.push_back(j);
    if (kind == 7 && m.rows.empty())
      kind = 0;
    switch (kind) {
    case 0:
    case 1:
    case 2: {
      for (int j : subset(B, 2, 8))
        r.push_back(std::make_pair(j, 1.0));
      double a = act(r, &plant[0]);
      double rhs = s.pct(g.infeasRhs) ? 1 : (kind == 0 ? std::max(1.0, a) : kind == 1 ? std::min(1.0, a) : (a == 1 || s.pct(70) ? a : 1));
      if (kind == 0)
        ru = rhs;
      else if (kind == 1)
        rl = rhs;
      else
        rl = ru = rhs;
      break;
    }
    case 3: { // knapsack
      bool big = s.pct(g.bigCoef), frac = s.pct(g.fracCoef);
      for (int j : subset(s.pct(70) ? B : all, 2, 9)) {
        double v = big ? s.in(5, 60) : s.in(1, 9);
        if (frac)
          v = v / 4;
        if (s.pct(12))
          v = -v;
        r.push_back(std::make_pair(j, v));
      }
      double a = act(r, &plant[0]);
      double slack = s.in(0, big ? 20 : 4);
      if (frac)
        slack /= 4;
      bool ge = s.pct(25);
      if (s.pct(g.infeasRhs))
        a = s.in(1, 12);
      if (ge) {
        for (auto &e : r)
          e.second = -e.second;
        rl = -a - slack;
      } else
        ru = a + slack;
      if (g.range && s.pct(8)) {
        if (ge)
          ru = rl + s.in(1, 8);
        else
          rl = ru - s.in(1, 8);
      }
      break;
    }
    case 4: { // general
      bool big = s.pct(g.bigCoef), frac = s.pct(g.fracCoef);
      for (int j : subset(all, 1, 6)) {
        double v = big ? s.in(1, 40) : s.in(1, 7);
        if (frac)
          v = v / 4;
        if (s.pct(40))
          v = -v;
        r.push_back(std::make_pair(j, v));
      }
      double a = act(r, &plant[0]);
      if (s.pct(g.infeasRhs))
        a = s.in(-6, 10);
      int sense = s.weighted({ 40, 30, g.eq ? 15 : 0, g.range ? 10 : 0, g.freeRow ? 2 : 0 });
      double slack = s.in(0, 4) * (frac ? 0.25 : 1);
      if (sense == 0)
        ru = a + slack;
      else if (sense == 1)
        rl = a - slack;
      else if (sense == 2)
        rl = ru = a;
      else if (sense == 3) {
        rl = a - slack;
        ru = rl + slack + s.in(1, 6);
      }
      break;
    }
    case 5: { // variable bound on a continuous (or integer) column
      int x = nC ? nI + (int)s.raw(nC) : (int)s.raw(nI);
      int y = (int)s.raw(nI);
      if (x == y)
        y = (y + 1) % nI;
      if (x == y) {
        r.push_back(std::make_pair(x, 1.0));
        ru = plant[x];
        break;
      }
      double u = s.in(1, 10) * (s.pct(30) ? 0.5 : 1);
      bool lower = s.pct(25);
      double sc = s.pct(20) ? 2 : 1;
      if (s.pct(15))
        u = -u;
      r.push_back(std::make_pair(x, sc));
      r.push_back(std::make_pair(y, -u * sc));
      double a = act(r, &plant[0]);
      if (lower)
        rl = std::min(0.0, a);
      else
        ru = std::max(0.0, a);
      if (s.pct(20)) { // written the other way round
        for (auto &e : r)
          e.second = -e.second;
        double t = rl;
        rl = ru > 1e20 ? -INF : -ru;
        ru = t < -1e20 ? INF : -t;
      }
      break;
    }
    case 6: { // edge: x+y<=1, x<=y, x+y>=1
      std::vector< int > e = subset(B, 2, 2);
      if (e.size() < 2) {
        r.push_back(std::make_pair(e[0], 1.0));
        ru = std::max(1.0, plant[e[0]]);
        break;
      }
      int t = s.weighted({ 6, 1, 1 });
      r.push_back(std::make_pair(e[0], 1.0));
      r.push_back(std::make_pair(e[1], t == 1 ? -1.0 : 1.0));
      double a = act(r, &plant[0]);
      if (t == 0)
        ru = std::max(1.0, a);
      else if (t == 1)
        ru = std::max(0.0, a);
      else
        rl = std::min(1.0, a);
      break;
    }
    case 7: { // copy of an earlier row, maybe scaled, shortened or with other rhs
      int q = (int)s.raw((uint32_t)m.rows.size());
      r = m.rows[q];
      rl = m.rl[q];
      ru = m.ru[q];
      int how = s.in(0, 4);
      if (how == 1 && !r.empty())
        r.erase(r.begin() + s.raw((uint32_t)r.size()));
      if (how == 2)
        for (auto &e : r)
          e.second *= 2;
      if (how == 3)
        for (auto &e : r)
          e.second = -e.second;
      if (how == 4) {
        int j = (int)s.raw(m.n);
        bool have = false;
        for (auto &e : r)
          if (e.first == j)
            have = true;
        if (!have)
          r.push_back(std::make_pair(j, 1.0));
      }
      double a = r.empty() ? 0 : act(r, &plant[0]);
      if (how != 0) {
        if (how == 3) {
          double t = rl;
          rl = ru > 1e20 ? -INF : -ru;
          ru = t < -1e20 ? INF : -t;
        }
        if (how == 2) {
          if (rl > -1e20)
            rl *= 2;
          if (ru < 1e20)
            ru *= 2;
        }
        if (rl > a)
          rl = a;
        if (ru < a)
          ru = a;
      }
      break;
    }
    }
    m.addRow(r, rl, ru);
  }
  if (s.pct(55))
    pushObjective(c, m);
  return m;
}

// a fixed column with any coefficient in some rows, the right-hand sides moved
// along (mostly) so that the rows keep their meaning for the other columns
void fixedColumn(Ctx &c, Model &m, bool integer)
{
  Src &s = c.s;
  double v = s.ipick({ 1, 1, 1, 0, 2, 3, -1 });
  int j = m.n;
  m.addCol(v, v, integer, s.in(-2, 2));
  bool unit = s.pct(15);
  for (int i = 0; i < m.m(); i++) {
    if (!s.pct(50))
      continue;
    double a = s.dpick({ 1, -1, 2, -2, 3, -3, 0.5, -0.5 });
    m.rows[i].push_back(std::make_pair(j, a));
    double sh = unit ? v : s.pct(85) ? a * v : 0;
    if (m.rl[i] > -1e20)
      m.rl[i] += sh;
    if (m.ru[i] < 1e20)
      m.ru[i] += sh;
  }
}

void pushObjective(Ctx &c, Model &m)
{
  Src &s = c.s;
  Vec o(m.n, 0.0);
  for (int i = 0; i < m.m(); i++) {
    int w = s.in(0, 3);
    if (!w)
      continue;
    double sg = m.ru[i] < 1e20 ? -1 : m.rl[i] > -1e20 ? 1 : 0;
    for (auto &e : m.rows[i])
      o[e.first] += sg * w * e.second;
  }
  for (int j = 0; j < m.n; j++)
    m.obj[j] = o[j] + s.in(-2, 2) * 0.25;
}

bool solveLP(OsiClpSolverInterface &si)
{
  si.setHintParam(OsiDoPresolveInInitial, false, OsiHintTry);
  si.setHintParam(OsiDoScale, false, OsiHintTry);
  si.initialSolve();
  return si.isProvenOptimal();
}

Vec genPoint(Ctx &c, const Model &m)
{
  Vec x(m.n);
  for (int j = 0; j < m.n; j++) {
    double lo = std::max(m.lo[j], -20.0), up = std::min(m.up[j], lo + 20.0);
    int k = c.s.in(0, 12);
    if (k == 0)
      x[j] = lo;
    else if (k == 12)
      x[j] = up;
    else if (k == 11)
      x[j] = lo + 0.5 * (up - lo);
    else
      x[j] = lo + (up - lo) * k / 11.0;
  }
  return x;
}
