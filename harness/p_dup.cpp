// C10: duplicate-row reductions keep the set of integer points
#include "flow.hpp"
using namespace pbt;

Model packModel(Ctx &c, std::vector< int > &kind)
{
  Src &s = c.s;
  Model m;
  int n = s.in(2, 8);
  std::vector< int > bin;
  for (int j = 0; j < n; j++) {
    if (s.pct(6)) {
      double v = s.in(0, 2);
      m.addCol(v, v, true, s.in(-3, 3));
    } else if (s.pct(4)) {
      double l = s.in(-1, 1);
      m.addCol(l, l + s.in(2, 3), true, s.in(-3, 3));
    } else {
      bin.push_back(j);
      m.addCol(0, 1, true, s.in(-3, 3));
    }
  }
  int k = s.in(1, 9);
  for (int i = 0; i < k; i++) {
    Row r;
    int how = s.weighted({ 4, 3, 3, 2, 1 });
    if (i && how >= 1 && how <= 3 && !m.rows[0].empty()) {
      // copy, subset or superset of an earlier row
      const Row &o = m.rows[s.raw(i)];
      for (int j = 0; j < n; j++) {
        bool in = false;
        for (auto &e : o)
          in |= e.first == j;
        if (how == 2 && in && s.pct(35))
          in = false;
        else if (how == 3 && !in && s.pct(30))
          in = true;
        if (in)
          r.push_back(std::make_pair(j, 1.0));
      }
    } else
      for (int j = 0; j < n; j++)
        if (s.pct(45))
          r.push_back(std::make_pair(j, how == 4 && s.pct(30) ? (double)s.in(-2, 3) : 1.0));
    for (size_t q = 0; q < r.size(); q++)
      if (r[q].second == 0)
        r[q].second = 1;
    if (s.pct(10))
      for (size_t q = 0; q < r.size(); q++)
        std::swap(r[q], r[s.raw((uint32_t)r.size())]);
    double up = s.weighted({ 7, 1, 1, 1 }) ? s.in(0, 3) : 1;
    // keep the effective right-hand side at one when fixed columns are in the row
    if (s.pct(80))
      for (auto &e : r)
        if (m.lo[e.first] == m.up[e.first])
          up += e.second * m.lo[e.first];
    int t = s.weighted({ 6, 4, 2, 1 });
    double lo = t == 0 ? -INF : t == 1 ? up : t == 2 ? std::min(up, (double)s.in(-1, 1)) : -INF;
    if (t == 3)
      m.addRow(r, up, INF);
    else
      m.addRow(r, lo, up);
  }
  // kind: row as the documentation of the clique mode sees it
  // 0 other, 1 packing row (<=1), 2 partitioning row (=1)
  for (int i = 0; i < m.m(); i++) {
    double lo = m.rl[i], up = m.ru[i];
    bool ok = true;
    int cnt = 0;
    for (auto &e : m.rows[i]) {
      if (m.lo[e.first] == m.up[e.first]) {
        lo -= e.second * m.lo[e.first];
        up -= e.second * m.lo[e.first];
      } else if (m.lo[e.first] == 0 && m.up[e.first] == 1 && e.second == 1)
        cnt++;
      else
        ok = false;
    }
    kind.push_back(ok && cnt >= 2 && up == 1 ? (lo == 1 ? 2 : lo <= 0 ? 1 : 0) : 0);
  }
  return m;
}
static std::string ptDiff(const Model &a, const Model &b)
{
  Points p = enumerate(a);
  for (size_t k = 0; k < p.size(); k++)
    if (!feasible(b, p.at(k), 1e-6))
      return strPoint(p.at(k), a.n);
  return "";
}

static void compare(Ctx &c, const Model &m, const std::vector< char > &keep, const Vec &lo, const Vec &up, bool inf, const char *what)
{
  Model r;
  for (int j = 0; j < m.n; j++)
    r.addCol(lo[j], up[j], m.isInt[j], m.obj[j]);
  int dropped = 0;
  for (int i = 0; i < m.m(); i++)
    if (keep[i])
      r.addRow(m.rows[i], m.rl[i], m.ru[i]);
    else
      dropped++;
  Points p = enumerate(m);
  if (inf && p.size())
    c.fail("false-infeasible", cat(what, " reports infeasibility but ", strPoint(p.at(0), m.n), " is feasible"));
  if (inf)
    return;
  std::string d = ptDiff(m, r);
  if (!d.empty())
    c.fail("point-lost", cat(what, " removes the feasible point ", d));
  d = ptDiff(r, m);
  if (!d.empty())
    c.fail("point-added", cat(what, " drops a row that excludes the point ", d));
  if (p.size())
    c.label("feasible models");
  (void)dropped;
}

static void c10(Ctx &c)
{
  Src &s = c.s;
  std::vector< int > kind;
  int mode = s.weighted({ 90, 5, 5 });
  mode = mode == 0 ? 8 : mode == 1 ? 3 : 1;
  Model m = packModel(c, kind);
  c.d << "mode " << mode << "\n"
      << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  CglDuplicateRow g0(&si);
  g0.setMode(mode);
  if (s.pct(20))
    g0.setMaximumRhs(s.in(0, 3));
  if (s.pct(20))
    g0.setMaximumDominated(s.in(0, 5));
  // copies and earlier use must not matter
  CglDuplicateRow other;
  int how = s.in(0, 4);
  CglDuplicateRow g1(g0);
  if (how == 3) {
    std::vector< int > k2;
    Model o = packModel(c, k2);
    OsiClpSolverInterface so;
    loadModel(o, so);
    other.refreshSolver(&so);
    other.setMode(8);
    OsiCuts cs;
    other.generateCuts(so, cs, CglTreeInfo());
    other = g0;
    if (s.pct(50)) {
      other.refreshSolver(&si);
    }
  }
  CglDuplicateRow &g = how == 1 ? g1 : how == 3 ? other : g0;
  OsiCuts cs;
  CglTreeInfo info;
  info.formulation_rows = m.m();
  if (s.pct(8)) {
    info.inTree = true;
    info.level = 1;
  }
  g.generateCuts(si, cs, info);
  int calls = s.pct(20) ? 2 : 1;
  if (calls == 2) {
    cs = OsiCuts();
    g.generateCuts(si, cs, info);
  }
  std::vector< char > keep(m.m(), 1);
  int nd = 0;
  for (int i = 0; i < m.m(); i++)
    if (g.duplicate()[i] == -2 || g.duplicate()[i] >= 0) {
      keep[i] = 0;
      nd++;
      c.d << "dropped r" << i << " (" << g.duplicate()[i] << ")\n";
    }
  Vec lo(m.lo), up(m.up);
  bool inf = false;
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    if (cs.rowCut(i).row().getNumElements() == 0 && cs.rowCut(i).lb() > cs.rowCut(i).ub())
      inf = true;
    else
      c.fail("row-cut", "unexpected row cut " + str(cs.rowCut(i)));
  }
  int nf = 0;
  for (int i = 0; i < cs.sizeColCuts(); i++) {
    const OsiColCut &cc = cs.colCut(i);
    c.d << str(cc) << "\n";
    const CoinPackedVector *b[2] = { &cc.lbs(), &cc.ubs() };
    for (int w = 0; w < 2; w++)
      for (int k = 0; k < b[w]->getNumElements(); k++) {
        int j = b[w]->getIndices()[k];
        double v = b[w]->getElements()[k];
        if (j < 0 || j >= m.n)
          c.fail("foreign-column", cat("bound change for column ", j));
        if (w)
          up[j] = std::min(up[j], v);
        else
          lo[j] = std::max(lo[j], v);
        nf++;
      }
  }
  for (int j = 0; j < m.n; j++)
    if (lo[j] > up[j])
      inf = true;
  compare(c, m, keep, lo, up, inf, "generateCuts");
  c.label(cat("mode ", mode));
  if (nd)
    c.label(cat("mode ", mode, " rows dropped"));
  if (nf)
    c.label(cat("mode ", mode, " columns fixed"));
  if (nd || nf || inf)
    c.nontrivial = true;
  // of identical packing rows one stays
  if (mode == 8 && !info.inTree && !inf)
    for (int i = 0; i < m.m(); i++)
      for (int k = 0; k < m.m(); k++)
        if (i < k && keep[i] && keep[k] && kind[i] && kind[k]) {
          bool sub = true;
          for (auto &e : m.rows[i]) {
            if (m.lo[e.first] == m.up[e.first])
              continue;
            bool in = false;
            for (auto &f : m.rows[k])
              in |= f.first == e.first;
            sub = sub && in;
          }
          for (auto &e : m.rows[k]) {
            if (m.lo[e.first] == m.up[e.first])
              continue;
            bool in = false;
            for (auto &f : m.rows[i])
              in |= f.first == e.first;
            sub = sub && in;
          }
          if (sub)
            c.fail("redundant-kept", cat("packing rows r", i, " and r", k, " are identical and both are kept"));
        }
  // the call that changes the solver itself
  if (s.pct(40)) {
    CglDuplicateRow h(&si);
    h.setMode(mode);
    OsiClpSolverInterface sj(si);
    h.outDuplicates(&sj);
    Model r;
    for (int j = 0; j < m.n; j++)
      r.addCol(sj.getColLower()[j], sj.getColUpper()[j], m.isInt[j], 0);
    const CoinPackedMatrix *rm = sj.getMatrixByRow();
    for (int i = 0; i < sj.getNumRows(); i++) {
      Row row;
      for (int k = 0; k < rm->getVectorLengths()[i]; k++)
        row.push_back(std::make_pair(rm->getIndices()[rm->getVectorStarts()[i] + k], rm->getElements()[rm->getVectorStarts()[i] + k]));
      double l = sj.getRowLower()[i], u = sj.getRowUpper()[i];
      r.addRow(row, l < -1e20 ? -INF : l, u > 1e20 ? INF : u);
    }
    std::string d = ptDiff(m, r);
    if (!d.empty())
      c.fail("outdup-point-lost", cat("outDuplicates removes the feasible point ", d));
    if (!inf) {
      d = ptDiff(r, m);
      if (!d.empty())
        c.fail("outdup-point-added", cat("outDuplicates drops a row that excludes the point ", d));
    }
  }
}
static Reg r10({ "C10", "DuplicateRow", c10, 1200000, 14400000,
  "a case = model with duplicated, nested and overlapping packing/partitioning rows and a mode; non-trivial = rows dropped, columns fixed or infeasibility reported" });
