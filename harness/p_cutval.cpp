// C24: the lift-and-project cut validator only accepts cuts that follow from
// the one it was given, within its limits, and rejects for the stated reason.
#include "mip.hpp"
#include "CglLandPValidator.hpp"
#include "CglParam.hpp"
using namespace pbt;

static void run(Ctx &c)
{
  Src &s = c.s;
  int n = s.in(1, 8);
  Model m;
  Vec x;
  for (int j = 0; j < n; j++) {
    double l = s.dpick({ 0, -3, -0.5, -999, -1001, -9999, -10001, -INF, 1, 0 });
    double w = s.dpick({ 1, 0, 2.5, 998, 1002, 9998, 10002, INF, 1, 10 });
    double u = w == INF || l == -INF ? (w == INF ? INF : w) : l + w;
    if (u < l)
      std::swap(l, u);
    m.addCol(l, u, s.pct(60));
    double f = s.dpick({ 0, 0.5, 1, 0.25, 0.9 });
    double a = l == -INF ? (u == INF ? -5 : u - 10) : l, b = u == INF ? a + 10 : u;
    x.push_back(a + f * (b - a));
  }
  OsiClpSolverInterface si;
  Row r0;
  for (int j = 0; j < n; j++)
    r0.push_back({ j, 1.0 });
  m.addRow(r0, -INF, INF);
  loadModel(m, si);
  // separate box handed over by the caller
  bool own = s.pct(50);
  Vec lo = m.lo, up = m.up;
  if (own)
    for (int j = 0; j < n; j++) {
      if (s.pct(40) && lo[j] > -INF && up[j] < INF)
        (s.pct(50) ? lo[j] : up[j]) = 0.5 * (lo[j] + up[j]);
      if (s.pct(10)) {
        lo[j] = -INF;
      }
      if (s.pct(10))
        up[j] = INF;
    }
  CglParam par;
  double eps = s.dpick({ 1e-6, 1e-9, 1e-3, 0, 0.1, 1e-12 });
  par.setEPS(eps);
  std::vector< int > ind;
  Vec el;
  std::vector< int > perm;
  for (int j = 0; j < n; j++)
    perm.push_back(j);
  for (int j = n - 1; j > 0; j--)
    if (s.pct(50))
      std::swap(perm[j], perm[s.in(0, j)]);
  for (int k = 0; k < n; k++) {
    if (s.pct(25))
      continue;
    double v;
    switch (s.weighted({ 6, 4, 2, 1, 1, 2 })) {
    case 0:
      v = s.in(1, 20) * 0.25;
      break;
    case 1:
      v = s.in(1, 9) * std::pow(10.0, -s.in(3, 12));
      break;
    case 2:
      v = s.in(1, 9) * std::pow(10.0, s.in(1, 6));
      break;
    case 3:
      v = 0;
      break;
    case 4:
      v = 1e-22;
      break;
    default:
      v = s.dpick({ eps, eps * 0.5, eps * 2, 1 });
    }
    if (s.pct(50))
      v = -v;
    ind.push_back(perm[k]);
    el.push_back(v);
  }
  double ax = 0, scale = 1;
  for (size_t k = 0; k < ind.size(); k++) {
    ax += el[k] * x[ind[k]];
    scale = std::max(scale, std::fabs(el[k] * x[ind[k]]));
  }
  double viol0 = s.dpick({ 0.5, 0.1, 1e-3, 1e-5, 2, 0, -0.5, 10, 1e-8 });
  double b = ax + viol0;
  if (s.pct(20))
    b = std::floor(b) + s.in(0, 1);
  OsiRowCut cut;
  cut.setRow((int)ind.size(), ind.data(), el.data());
  cut.setLb(b);
  cut.setUb(INF);
  double fill = s.dpick({ 1, 0.5, 0.8, 0.25, 2 }), ratio = s.dpick({ 1e8, 1e3, 100, 1e5, 10, 1e12 }), mv = s.dpick({ 0, 1e-4, 1e-2, 0.2, 1e-6 }), rs = s.dpick({ 1, 10, 1e3, 0.1 });
  LAP::Validator v(fill, ratio, mv, s.pct(50), rs);
  if (s.pct(30)) {
    fill = s.dpick({ 1, 0.5, 0.3 });
    v.setMaxFillIn(fill);
  }
  if (s.pct(30)) {
    ratio = s.dpick({ 1e6, 50, 1e10 });
    v.setMaxRatio(ratio);
  }
  if (s.pct(30)) {
    mv = s.dpick({ 1e-7, 1e-3, 0.05 });
    v.setMinViolation(mv);
  }
  if (s.pct(30)) {
    rs = s.dpick({ 1, 100, 7 });
    v.setRhsScale(rs);
  }
  if (v.getMaxFillIn() != fill || v.getMaxRatio() != ratio || v.getMinViolation() != mv)
    c.fail("limits", "limits read differ from those set");
  int how = s.in(0, 2);
  c.d << "columns";
  for (int j = 0; j < n; j++)
    c.d << " [" << lo[j] << "," << up[j] << "]=" << x[j];
  c.d << "\ncut ";
  for (size_t k = 0; k < ind.size(); k++)
    c.d << el[k] << " x" << ind[k] << " ";
  c.d << ">= " << cat(b) << "  method " << how << " eps " << eps << " fill " << fill << " ratio " << ratio << " minviol " << mv << " rhsscale " << rs << "\n";
  const double *pl = own ? lo.data() : nullptr, *pu = own ? up.data() : nullptr;
  std::vector< int > before;
  for (int k = 0; k < (int)LAP::Validator::DummyEnd; k++)
    before.push_back(v.numRejected(k));
  int rc = how == 0 ? v.cleanCut(cut, x.data(), si, par, pl, pu) : how == 1 ? v.cleanCut2(cut, x.data(), si, par, pl, pu)
                                                                              : v(cut, x.data(), si, par, pl, pu);
  c.label(cat(how == 1 ? "second method" : "first method", ", code ", rc));
  if (rc < 0 || rc >= (int)LAP::Validator::DummyEnd)
    c.fail("code", cat("unknown code ", rc));
  if (v.failureString(rc) == nullptr)
    c.fail("code", "no text for the code");
  for (int k = 0; k < (int)LAP::Validator::DummyEnd; k++) {
    int d = v.numRejected(k) - before[k];
    if (d != 0 && (k != rc || d != 1 || rc == 0))
      c.fail("count", cat("rejection counter ", k, " changed by ", d, " on code ", rc));
  }
  double big = 0, small = 1e100;
  int nnz = 0;
  for (double e : el)
    if (e != 0) {
      nnz++;
      big = std::max(big, std::fabs(e));
      if (std::fabs(e) > 1e-20)
        small = std::min(small, std::fabs(e));
    }
  double trueViol = b - ax, tol = 1e-9 * scale + 1e-12 * std::fabs(b);
  int maxNnz = (int)(fill * n);
  if (rc == 0) {
    c.nontrivial = true;
    Vec a0(n, 0.0), a1(n, 0.0);
    for (size_t k = 0; k < ind.size(); k++)
      a0[ind[k]] += el[k];
    const CoinPackedVector &row = cut.row();
    int nn = row.getNumElements();
    int jb = -1;
    double big1 = 0, small1 = 1e100;
    for (int k = 0; k < nn; k++) {
      int j = row.getIndices()[k];
      double e = row.getElements()[k];
      if (j < 0 || j >= n || a1[j] != 0 || !std::isfinite(e) || (e == 0 && a0[j] != 0))
        c.fail("shape", "accepted cut has a bad, repeated or zero entry: " + str(cut));
      a1[j] = e;
      if (std::fabs(a0[j]) <= 1e-20 && how == 1) {
        continue; // the second method may leave a negligible entry of the caller alone
      }
      big1 = std::max(big1, std::fabs(e));
      small1 = std::min(small1, std::fabs(e));
      if (jb < 0 || std::fabs(e) > std::fabs(a1[jb]))
        jb = j;
    }
    if (jb < 0 && how == 1 && big <= 1e-20)
      throw Discard(); // nothing but negligible entries
    if (jb < 0)
      c.fail("empty", "accepted an empty cut");
    if (cut.ub() < 1e50)
      c.fail("shape", "accepted cut has an upper bound");
    if (nn > maxNnz)
      c.fail("dense", cat("accepted ", nn, " entries, limit ", maxNnz, ": ", str(cut)));
    if (big1 > ratio * small1 * (1 + 1e-9))
      c.fail("ratio", cat("accepted coefficient ratio ", big1 / small1, " limit ", ratio, ": ", str(cut)));
    if (how != 1 && small1 <= eps)
      c.fail("small", "accepted a cut with a coefficient of at most EPS: " + str(cut));
    double k = a0[jb] == 0 ? 0 : a1[jb] / a0[jb];
    if (!(k > 0))
      c.fail("implied", "accepted cut is no positive multiple of the original: " + str(cut));
    // a1 x >= b1 must follow from k(a0 x >= b) on the box
    double worst = 0, mag = k * std::fabs(b);
    for (int j = 0; j < n; j++) {
      double d = a1[j] - k * a0[j];
      if (std::fabs(d) <= 1e-12 * std::fabs(a1[j]) + 1e-19 * k)
        continue;
      double at = d > 0 ? lo[j] : up[j];
      if (std::fabs(at) > 1e20)
        c.fail("implied", cat("coefficient of unbounded x", j, " changed: ", str(cut)));
      worst += d * at;
      mag += std::fabs(d * at);
    }
    double need = k * b + worst; // strongest right-hand side that follows
    if (cut.lb() > need + 1e-10 * mag + 1e-15)
      c.fail("implied", cat("accepted cut is not implied: rhs ", cut.lb(), " but only ", need, " follows: ", str(cut)));
    if (cut.lb() < need - 2e-7 * std::max(1.0, k) - 1e-9 * mag)
      c.fail("weak", cat("accepted cut is weaker than needed: rhs ", cut.lb(), " but ", need, " follows: ", str(cut)));
    double a1x = 0, sc1 = 1e-12;
    for (int j = 0; j < n; j++) {
      a1x += a1[j] * x[j];
      sc1 = std::max(sc1, std::fabs(a1[j] * x[j]));
    }
    if (std::max(0.0, cut.lb() - a1x) < mv - 1e-9 * sc1 - 1e-9 * std::fabs(cut.lb()))
      c.fail("violation", cat("accepted violation ", cut.lb() - a1x, " limit ", mv, ": ", str(cut)));
  } else {
    // the reason must be real
    double thr = how == 1 ? big / ratio : eps;
    double thrLo = thr;
    if (how == 1) {
      thrLo = std::max(big, std::fabs(b) - 1e-9) / ratio;
      thr = std::max(big, std::fabs(b) + 1e-9) / ratio;
    }
    int nsmall = 0, stuck = 0, kept = 0, sure = 0;
    double red = 0, mag = std::fabs(b), kbig = 0, ksmall = 1e100;
    for (size_t k = 0; k < ind.size(); k++) {
      double e = std::fabs(el[k]);
      int j = ind[k];
      bool sm = e <= thr * (1 + 1e-5), certainly = e <= thrLo * (1 - 1e-5);
      if (!certainly) {
        kept++;
        kbig = std::max(kbig, e);
        ksmall = std::min(ksmall, e);
      }
      if (sm) {
        nsmall++;
        sure += certainly;
        if (e > 0) {
          double at = el[k] > 0 ? up[j] : lo[j];
          if (el[k] > 0 ? at >= 999.999 : at <= -999.999)
            stuck++;
          red += el[k] * (std::fabs(at) > 1e20 ? 0 : at) - el[k] * x[j];
          mag += std::fabs(el[k] * at);
        }
      }
    }
    if (rc == LAP::Validator::SmallViolation) {
      double k = 1;
      if (how == 1) {
        double bb = std::max(big, std::fabs(b));
        k = bb > 0 ? rs / bb : 1;
      }
      // either at the start or after weakening the violation is too small
      if (trueViol > mv + tol && k * (trueViol - std::max(0.0, red) - 1.01e-7) > mv + k * (tol + 1e-9 * std::min(mag, 1e15)))
        c.fail("reason", cat("rejected for violation ", trueViol, " (", k * (trueViol - red), " after cleaning), limit ", mv));
    } else if (rc == LAP::Validator::SmallCoefficient) {
      if (!stuck)
        c.fail("reason", "rejected for a small coefficient, but each can be removed");
      c.nontrivial = true;
    } else if (rc == LAP::Validator::BigDynamic) {
      if (how == 1 ? std::max(big, std::fabs(b)) < 1e9 * (1 - 1e-9) : !(kbig > ratio * ksmall * (1 - 1e-9)))
        c.fail("reason", cat("rejected for coefficient ratio ", kbig / ksmall, " limit ", ratio));
      c.nontrivial = true;
    } else if (rc == LAP::Validator::DenseCut) {
      if (how == 1)
        for (double e : el)
          kept += std::fabs(e) <= 1e-20; // may be left in by the second method
      if ((int)kept <= maxNnz)
        c.fail("reason", cat("rejected as too dense with ", kept, " entries, limit ", maxNnz));
      c.nontrivial = true;
    } else if (rc == LAP::Validator::EmptyCut) {
      if (nsmall < (int)ind.size())
        c.fail("reason", "rejected as empty but has entries to keep");
    }
  }
}
static Reg r24({ "C24", "cut validator", run, 2000000, 24000000, "the cut was accepted, or rejected for a coefficient, dynamics or density reason" });
