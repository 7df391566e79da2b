// Models too large to enumerate, built around integer points that are feasible
// by construction. Points found from them by single and double changes are
// added, so a cut can be tested against a few hundred feasible points.
#include "flow.hpp"
using namespace pbt;

static double act(const Row &r, const Vec &x)
{
  double a = 0;
  for (auto &e : r)
    a += e.second * x[e.first];
  return a;
}

Model wideModel(Ctx &c, int gen, Points &wit)
{
  Src &s = c.s;
  Model m;
  bool mixed = gen == MIR || gen == REDSPLIT || gen >= NGEN || (gen == KNAP && s.pct(30)) || (gen == SIMPLE && s.pct(10));
  bool packing = gen == CLIQUE || gen == ODDHOLE || (gen == ZEROHALF && s.pct(50));
  bool large = s.pct(5);
  int nb = large ? s.in(35, 110) : s.in(8, packing ? 28 : 34), ng = packing ? 0 : s.ipick({ 0, 0, 1, 3 }), nc = mixed ? s.in(1, large ? 20 : 6) : 0;
  for (int j = 0; j < nb; j++)
    m.addCol(0, 1, true, 0);
  for (int j = 0; j < ng; j++)
    m.addCol(s.ipick({ 0, 0, -2 }), s.in(1, 5), true, 0);
  for (int j = 0; j < nc; j++)
    m.addCol(0, s.in(2, 20), false, 0);
  // planted points
  int K = s.in(2, 8);
  int dens = packing ? s.ipick({ 10, 20, 30 }) : s.ipick({ 30, 50, 70 });
  std::vector< Vec > W(K, Vec(m.n, 0.0));
  for (auto &x : W)
    for (int j = 0; j < m.n; j++)
      if (j < nb)
        x[j] = s.pct(dens);
      else if (m.isInt[j])
        x[j] = s.in((int)m.lo[j], (int)m.up[j]);
      else
        x[j] = s.pct(40) ? 0 : 0.5 * s.in(0, (int)(2 * m.up[j]));
  auto add = [&](Row r, int sense, double slack) {
    if (r.empty())
      return;
    std::sort(r.begin(), r.end());
    double hi = -1e100, lo = 1e100;
    for (auto &x : W) {
      double a = act(r, x);
      hi = std::max(hi, a);
      lo = std::min(lo, a);
    }
    if (sense == 0)
      m.addRow(r, -INF, hi + slack);
    else if (sense == 1)
      m.addRow(r, lo - slack, INF);
    else
      m.addRow(r, lo - slack, hi + slack);
  };
  int rows = s.in(1, large ? 20 : 6);
  if (packing) {
    rows = s.in(6, large ? 160 : 40);
    for (int i = 0; i < rows; i++) {
      int want = gen == ODDHOLE ? s.ipick({ 2, 2, 2, 3, 4 }) : s.ipick({ 2, 2, 3, 4, 6 });
      if (large && s.pct(15))
        want = s.in(5, 30);
      Row r;
      std::vector< int > used(K, 0);
      for (int t = 0; t < 4 * want && (int)r.size() < want; t++) {
        int j = (int)s.raw(nb);
        bool ok = true;
        for (auto &e : r)
          ok = ok && e.first != j;
        for (int k = 0; k < K && ok; k++)
          if (W[k][j] && used[k])
            ok = false;
        if (!ok)
          continue;
        for (int k = 0; k < K; k++)
          used[k] += W[k][j] > 0;
        r.push_back(std::make_pair(j, 1.0));
      }
      if (r.size() < 2)
        continue;
      std::sort(r.begin(), r.end());
      m.addRow(r, -INF, 1);
    }
  } else {
    int mag = s.ipick({ 5, 12, 40, 100 });
    for (int i = 0; i < rows; i++) {
      int cover = s.ipick({ 100, 90, 60, 30 });
      if (gen == KNAP && large) // exact lifting takes exponential time in the length
        cover = std::min(cover, 3000 / m.n);
      int neg = s.ipick({ 0, 0, 15, 50 }), even = gen == ZEROHALF ? s.ipick({ 0, 60, 85 }) : 0;
      Row r;
      for (int j = 0; j < m.n; j++)
        if (s.pct(cover)) {
          double v = s.in(gen == KNAP ? std::max(1, mag / 5) : 1, gen == ZEROHALF ? 7 : mag);
          if (s.pct(even))
            v = 2 * s.in(1, 3);
          if (s.pct(neg))
            v = -v;
          if (!m.isInt[j] && s.pct(50))
            v = s.pct(50) ? 1 : -1;
          r.push_back(std::make_pair(j, v));
        }
      add(r, s.weighted({ 6, 3, 1 }), s.weighted({ 3, 1, 1 }));
    }
  }
  // variable bounds
  for (int j = 0; j < m.n; j++)
    if (!m.isInt[j] && s.pct(60)) {
      double M = m.up[j];
      int b = (int)s.raw(nb);
      for (auto &x : W)
        if (x[j] > 0)
          x[b] = 1;
      // the rows made so far must still hold
      bool ok = true;
      for (auto &x : W)
        ok = ok && feasible(m, &x[0], 1e-9);
      if (ok)
        m.addRow(Row{ { b, -M }, { j, 1.0 } }, -INF, 0);
      else {
        for (size_t k = 0; k < W.size();)
          if (!feasible(m, &W[k][0], 1e-9))
            W.erase(W.begin() + k);
          else
            k++;
        if (W.empty())
          throw Discard();
      }
    }
  pushObjective(c, m);
  if (packing || s.pct(30))
    for (int j = 0; j < m.n; j++)
      m.obj[j] = -s.in(1, 9);
  // neighbours
  wit.n = m.n;
  wit.complete = false;
  size_t cap = 300;
  std::set< Vec > seen;
  auto push = [&](const Vec &x) {
    if (seen.size() < cap && feasible(m, &x[0], 1e-9) && seen.insert(x).second)
      wit.v.insert(wit.v.end(), x.begin(), x.end());
  };
  for (auto &x : W)
    push(x);
  uint64_t st = 88172645463325252ull + (uint64_t)s.raw(1 << 16);
  auto rnd = [&](int k) {
    st ^= st << 13;
    st ^= st >> 7;
    st ^= st << 17;
    return (int)(st % k);
  };
  for (size_t k = 0; k < wit.size() && k < 60; k++) {
    Vec x(wit.at(k), wit.at(k) + m.n);
    for (int t = 0; t < 50; t++) {
      Vec y(x);
      int moves = 1 + rnd(3);
      for (int q = 0; q < moves; q++) {
        int j = rnd(m.n);
        if (m.isInt[j])
          y[j] = m.lo[j] + rnd((int)(m.up[j] - m.lo[j]) + 1);
        else
          y[j] = rnd(2) ? m.lo[j] : rnd(2) ? m.up[j] : 0.5 * rnd((int)(2 * m.up[j]) + 1);
      }
      push(y);
    }
    // climb: add what still fits
    Vec y(x);
    for (int t = 0; t < m.n; t++) {
      int j = rnd(m.n);
      double old = y[j];
      y[j] = rnd(4) ? m.up[j] : m.lo[j];
      if (!feasible(m, &y[0], 1e-9))
        y[j] = old;
    }
    push(y);
  }
  return m;
}
