// C09: all-different reductions against a reference propagation
#include "flow.hpp"
#include <set>
using namespace pbt;

typedef std::vector< std::set< int > > Dom;

static bool extend(const std::vector< int > &set, const Dom &d, size_t k, std::vector< int > &cur, std::vector< std::set< int > > &supp)
{
  if (k == set.size()) {
    for (size_t i = 0; i < set.size(); i++)
      supp[i].insert(cur[i]);
    return true;
  }
  bool any = false;
  for (int v : d[set[k]]) {
    bool used = false;
    for (size_t i = 0; i < k; i++)
      if (cur[i] == v)
        used = true;
    if (used)
      continue;
    cur[k] = v;
    if (extend(set, d, k + 1, cur, supp))
      any = true;
  }
  return any;
}

// false = infeasible
static bool propagate(const std::vector< std::vector< int > > &sets, Dom &d, bool full)
{
  bool change = true;
  while (change) {
    change = false;
    for (auto &st : sets) {
      for (int a : st)
        if (d[a].empty())
          return false;
      if (full) {
        std::vector< int > cur(st.size());
        std::vector< std::set< int > > supp(st.size());
        extend(st, d, 0, cur, supp);
        for (size_t i = 0; i < st.size(); i++)
          if (supp[i] != d[st[i]]) {
            d[st[i]] = supp[i];
            change = true;
          }
      } else
        for (int a : st)
          if (d[a].size() == 1)
            for (int b : st)
              if (b != a && d[b].erase(*d[a].begin()))
                change = true;
    }
  }
  for (auto &st : sets)
    for (int a : st)
      if (d[a].empty())
        return false;
  return true;
}

// all assignments of the columns used, within bounds and different in each set
static void brute(const std::vector< std::vector< int > > &sets, const std::vector< int > &used, const Model &m, size_t k, std::vector< int > &val, std::vector< int > &mn, std::vector< int > &mx, long &budget, long &count)
{
  if (budget <= 0)
    return;
  if (k == used.size()) {
    count++;
    for (int j : used) {
      mn[j] = std::min(mn[j], val[j]);
      mx[j] = std::max(mx[j], val[j]);
    }
    return;
  }
  int j = used[k];
  for (int v = (int)m.lo[j]; v <= (int)m.up[j]; v++) {
    budget--;
    bool ok = true;
    for (auto &st : sets) {
      bool in = false;
      for (int a : st)
        in |= a == j;
      if (!in)
        continue;
      for (size_t q = 0; q < k && ok; q++)
        for (int a : st)
          if (a == used[q] && val[a] == v)
            ok = false;
    }
    if (!ok)
      continue;
    val[j] = v;
    brute(sets, used, m, k + 1, val, mn, mx, budget, count);
  }
}

static void c09(Ctx &c)
{
  Src &s = c.s;
  int n = s.in(2, 8);
  bool wide = s.pct(20);
  Model m;
  int base = s.pct(60) ? 0 : s.in(-40, 100);
  int span = s.in(1, wide ? 40 : 8);
  for (int j = 0; j < n; j++) {
    int l = base + s.in(0, span), u = l + (s.pct(30) ? 0 : s.pct(60) ? s.in(0, 2) : s.in(0, wide ? 40 : 5));
    if (!wide)
      u = std::min(u, base + 9);
    m.addCol(l, std::max(l, u), true, s.in(-2, 2));
  }
  if (s.pct(30))
    m.addRow(Row{ { 0, 1.0 } }, -INF, INF);
  int ns = s.in(1, 4);
  std::vector< std::vector< int > > sets;
  std::vector< int > start(1, 0), which;
  for (int q = 0; q < ns; q++) {
    std::vector< int > f(n), st;
    for (int j = 0; j < n; j++)
      f[j] = j;
    int len = s.pct(4) ? 1 : s.in(2, std::min(n, 6));
    for (int t = 0; t < len; t++) {
      int k = (int)s.raw((uint32_t)f.size());
      st.push_back(f[k]);
      f.erase(f.begin() + k);
    }
    sets.push_back(st);
    which.insert(which.end(), st.begin(), st.end());
    start.push_back((int)which.size());
  }
  c.d << m.str() << "sets:";
  for (auto &st : sets) {
    c.d << " {";
    for (int j : st)
      c.d << " " << j;
    c.d << " }";
  }
  c.d << "\n";
  OsiClpSolverInterface si;
  loadModel(m, si);
  CglAllDifferent g(ns, &start[0], &which[0]);
  if (s.pct(30))
    g.setMaxLook(s.in(0, 6));
  if (s.pct(20))
    g.setLogLevel(s.in(0, 2));
  std::set< int > usedSet(which.begin(), which.end());
  std::vector< int > used(usedSet.begin(), usedSet.end());
  int calls = 1 + s.weighted({ 3, 2, 1 });
  GenPtr copy;
  CglAllDifferent *p = &g;
  if (s.pct(15)) {
    copy.reset(g.clone());
    p = static_cast< CglAllDifferent * >(copy.get());
    c.d << "clone\n";
  }
  for (int call = 0; call < calls; call++) {
    int lowest = 1 << 30, highest = -(1 << 30);
    for (int j : used) {
      lowest = std::min(lowest, (int)m.lo[j]);
      highest = std::max(highest, (int)m.up[j]);
    }
    bool full = highest - lowest + 1 < 30;
    c.label(full ? "calls with search" : "calls with value propagation only");
    Dom d(n);
    for (int j = 0; j < n; j++)
      for (int v = (int)m.lo[j]; v <= (int)m.up[j]; v++)
        d[j].insert(v);
    bool feas = propagate(sets, d, full);
    OsiCuts cs;
    p->generateCuts(si, cs, genInfo(c, m, call > 0));
    bool inf = false;
    Vec lo(m.lo), up(m.up);
    for (int i = 0; i < cs.sizeRowCuts(); i++) {
      const OsiRowCut &rc = cs.rowCut(i);
      if (rc.row().getNumElements() == 0 && rc.lb() > rc.ub())
        inf = true;
      else
        c.fail("row-cut", "unexpected row cut " + str(rc));
    }
    bool cut = false;
    for (int i = 0; i < cs.sizeColCuts(); i++) {
      const OsiColCut &cc = cs.colCut(i);
      const CoinPackedVector *b[2] = { &cc.lbs(), &cc.ubs() };
      for (int w = 0; w < 2; w++)
        for (int k = 0; k < b[w]->getNumElements(); k++) {
          int j = b[w]->getIndices()[k];
          double v = b[w]->getElements()[k];
          if (j < 0 || j >= n || !usedSet.count(j))
            c.fail("foreign-column", cat("bound change for column ", j, " which is in no set"));
          if (w ? v >= up[j] : v <= lo[j])
            c.fail("not-tighter", cat("bound ", v, " of column ", j, " is not tighter than [", lo[j], ",", up[j], "]"));
          (w ? up : lo)[j] = v;
          cut = true;
        }
    }
    // soundness, independently of the reference
    std::vector< int > val(n), mn(n, 1 << 30), mx(n, -(1 << 30));
    long budget = 60000, count = 0;
    brute(sets, used, m, 0, val, mn, mx, budget, count);
    if (inf && count)
      c.fail("false-infeasible", cat("reported infeasible although there is a valid assignment"));
    if (!inf)
      for (int j : used)
        if (count && (mn[j] < lo[j] || mx[j] > up[j]))
          c.fail("unsound", cat("column ", j, " restricted to [", lo[j], ",", up[j], "] but valid assignments use [", mn[j], ",", mx[j], "]"));
    // strength
    if (inf != !feas)
      c.fail(inf ? "infeasible-differs" : "missed-infeasible", cat("reported ", inf ? "infeasible" : "feasible", ", reference propagation says ", feas ? "feasible" : "infeasible"));
    if (!inf)
      for (int j : used)
        if (lo[j] != *d[j].begin() || up[j] != *d[j].rbegin())
          c.fail("bounds-differ", cat("column ", j, " gets [", lo[j], ",", up[j], "], reference propagation gives [", *d[j].begin(), ",", *d[j].rbegin(), "]"));
    if (inf || cut)
      c.nontrivial = true;
    if (inf) {
      c.label("infeasible");
      return;
    }
    if (cut)
      c.label("calls with tightened bounds");
    // continue with the tightened bounds and a branch
    m.lo = lo;
    m.up = up;
    int j = used[s.raw((uint32_t)used.size())];
    if (s.pct(60))
      m.up[j] = s.in((int)m.lo[j], (int)m.up[j]);
    else
      m.lo[j] = m.up[j];
    for (int q = 0; q < n; q++)
      si.setColBounds(q, m.lo[q], m.up[q]);
    if (call + 1 < calls)
      c.d << "then bounds: " << m.str();
  }
}
static Reg r9({ "C09", "AllDifferent", c09, 900000, 10800000,
  "a case = family of sets, integral bounds, 1-3 calls with branching in between; non-trivial = some call tightens a bound or reports infeasibility" });
