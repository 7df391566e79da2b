#include "CoinConflictGraph.hpp"
#include <deque>
#include <memory>
const CoinConflictGraph *verifGraph(const OsiSolverInterface *si)
{
  static std::deque< std::unique_ptr< CoinConflictGraph > > keep;
  int n = si->getNumCols(), m = si->getNumRows();
  const double *lo = si->getColLower(), *up = si->getColUpper();
  std::vector< char > bin(n, 0);
  for (int j = 0; j < n; j++)
    bin[j] = si->isInteger(j) && (lo[j] == 0 || lo[j] == 1) && (up[j] == 0 || up[j] == 1) && lo[j] <= up[j];
  auto *g = new CoinConflictGraph(2 * (size_t)n);
  for (int j = 0; j < n; j++)
    if (bin[j])
      g->add(j, n + j);
  const CoinPackedMatrix *a = m ? si->getMatrixByRow() : nullptr;
  for (int i = 0; i < m; i++)
    for (int sgn = -1; sgn <= 1; sgn += 2) {
      double rhs = sgn > 0 ? si->getRowUpper()[i] : -si->getRowLower()[i];
      if (rhs > 1e20)
        continue;
      CoinBigIndex s = a->getVectorFirst(i), e = a->getVectorLast(i);
      double min = 0;
      bool ok = true;
      // the bounds in force count for columns that are not 0-1 only
      for (CoinBigIndex k = s; k < e && ok; k++) {
        int j = a->getIndices()[k];
        double v = sgn * a->getElements()[k];
        double b = bin[j] ? (v > 0 ? 0.0 : 1.0) : (v > 0 ? lo[j] : up[j]);
        if (fabs(b) > 1e20)
          ok = false;
        min += v * b;
      }
      if (!ok)
        continue;
      for (CoinBigIndex k = s; k < e; k++) {
        int j = a->getIndices()[k];
        double v = sgn * a->getElements()[k];
        if (!bin[j] || v == 0)
          continue;
        for (CoinBigIndex k2 = s; k2 < k; k2++) {
          int j2 = a->getIndices()[k2];
          double v2 = sgn * a->getElements()[k2];
          if (!bin[j2] || v2 == 0)
            continue;
          if (min + fabs(v) + fabs(v2) > rhs + 1e-7)
            g->add(v > 0 ? j : n + j, v2 > 0 ? j2 : n + j2);
        }
      }
    }
  keep.emplace_back(g);
  if (keep.size() > 64)
    keep.pop_front();
  return g;
}
bool CoinCliqueExtender::extendClique(const size_t *el, size_t n)
{
  if (method_ == 0)
    return false;
  std::vector< size_t > cand, q(el, el + n);
  for (size_t v = 0; v < g_->size(); v++) {
    bool ok = true;
    for (size_t k = 0; k < n && ok; k++)
      ok = v != el[k] && g_->conflicting(v, el[k]);
    if (ok)
      cand.push_back(v);
  }
  if (method_ == 1)
    std::reverse(cand.begin(), cand.end());
  else if (method_ >= 4 && rc_)
    std::stable_sort(cand.begin(), cand.end(), [&](size_t a, size_t b) { return rc_[a] < rc_[b]; });
  else
    std::stable_sort(cand.begin(), cand.end(), [&](size_t a, size_t b) { return g_->degree(a) > g_->degree(b); });
  for (size_t v : cand) {
    bool ok = true;
    for (size_t w : q)
      ok = ok && g_->conflicting(v, w);
    if (ok)
      q.push_back(v);
  }
  if (q.size() == n)
    return false;
  list_.addClique(q.size(), q.data());
  return true;
}
void CoinBronKerbosch::rec(std::vector< size_t > &r, std::vector< size_t > p, std::vector< size_t > x)
{
  if (calls_ >= maxCalls_) {
    complete_ = false;
    return;
  }
  calls_++;
  if (p.empty()) {
    if (x.empty() && r.size() > 1) {
      double w = 0;
      for (size_t v : r)
        w += w_[v];
      if (w >= min_)
        list_.addClique(r.size(), r.data());
    }
    return;
  }
  while (!p.empty()) {
    size_t v = p.back();
    std::vector< size_t > p2, x2;
    for (size_t w : p)
      if (g_->conflicting(v, w))
        p2.push_back(w);
    for (size_t w : x)
      if (g_->conflicting(v, w))
        x2.push_back(w);
    r.push_back(v);
    rec(r, p2, x2);
    r.pop_back();
    p.pop_back();
    x.push_back(v);
  }
}
void CoinBronKerbosch::findCliques()
{
  std::vector< size_t > r, p;
  for (size_t v = 0; v < g_->size(); v++)
    p.push_back(v);
  rec(r, p, {});
}
void CoinOddWheelSeparator::grow(std::vector< size_t > &p, size_t len)
{
  if (hole_.size() >= 40)
    return;
  size_t n = g_->size();
  for (size_t v = p[0] + 1; v < n; v++) {
    if (!g_->conflicting(p.back(), v) || x_[v] < 1e-6)
      continue;
    bool ok = true;
    for (size_t k = 0; k + 1 < p.size() && ok; k++)
      ok = v != p[k] && (!g_->conflicting(v, p[k]) || (k == 0 && p.size() + 1 == len));
    if (!ok)
      continue;
    if (p.size() + 1 == len && !g_->conflicting(v, p[0]))
      continue;
    p.push_back(v);
    if (p.size() == len) {
      double w = 0;
      for (size_t u : p)
        w += x_[u];
      std::vector< size_t > key(p);
      std::sort(key.begin(), key.end());
      if (w > floor(len / 2.0) + 0.02 && seen_.insert(key).second) {
        std::vector< size_t > c;
        if (ext_)
          for (size_t u = 0; u < n; u++) {
            bool all = true;
            for (size_t q : p)
              all = all && g_->conflicting(u, q);
            for (size_t q : c)
              all = all && g_->conflicting(u, q);
            if (all && (ext_ > 1 || c.empty()))
              c.push_back(u);
          }
        hole_.push_back(p);
        center_.push_back(c);
      }
    } else
      grow(p, len);
    p.pop_back();
  }
}
void CoinOddWheelSeparator::searchOddWheels()
{
  for (size_t len = 5; len <= 7; len += 2)
    for (size_t v = 0; v < g_->size(); v++)
      if (x_[v] > 1e-6) {
        std::vector< size_t > p(1, v);
        grow(p, len);
      }
}
