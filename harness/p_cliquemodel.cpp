// C42: the clique model CglTreeProbingInfo::analyze builds from the rows of a
// model and the implications recorded
#include "flow.hpp"
using namespace pbt;

std::string snapshot(const OsiSolverInterface &si);

namespace {
struct Lit {
  int col;
  bool one; // column at one (otherwise at zero)
  bool operator<(const Lit &o) const { return col != o.col ? col < o.col : one < o.one; }
  bool operator==(const Lit &o) const { return col == o.col && one == o.one; }
};
typedef std::vector< Lit > Clique; // at most one of these holds
struct Implication {
  Lit a, b; // a implies b
};
std::string text(const Lit &l) { return cat("x", l.col, "=", (int)l.one); }
// at most (or exactly) one of the literals, as a row
void rowOf(Model &m, const Clique &q, bool equal)
{
  Row r;
  double rhs = 1;
  for (auto &l : q) {
    r.push_back(std::make_pair(l.col, l.one ? 1.0 : -1.0));
    if (!l.one)
      rhs -= 1;
  }
  m.addRow(r, equal ? rhs : -INF, rhs);
}
}

static void c42(Ctx &c)
{
  Src &s = c.s;
  int n = s.in(2, 10);
  Model m;
  std::vector< int > bin;
  for (int j = 0; j < n; j++) {
    int t = s.weighted({ 14, 1, 1 });
    if (t == 0 || (j >= n - 2 && bin.size() < 2)) {
      m.addCol(0, 1, true, s.in(-3, 3));
      bin.push_back(j);
    } else
      m.addCol(s.in(-1, 0), s.in(2, 3), t == 1, s.in(-2, 2));
  }
  int nb = (int)bin.size();
  bool positive = s.pct(60); // only conflicts between columns at one
  std::vector< int > pt(n);
  for (int j = 0; j < n; j++)
    pt[j] = positive ? 0 : s.in(0, 1);
  bool keepPoint = s.pct(85); // everything holds at one 0-1 point
  if (positive && s.pct(50))
    pt[bin[s.raw(nb)]] = 1;
  auto setOfLits = [&](int lo, int hi) {
    Clique q;
    std::vector< int > p(bin);
    int k = std::min(nb, s.in(lo, hi)), trues = 0;
    for (int i = 0; i < k; i++) {
      std::swap(p[i], p[i + s.raw(nb - i)]);
      Lit l = { p[i], positive ? true : s.pct(65) };
      if (keepPoint && (pt[l.col] == 1) == l.one && ++trues > 1) {
        if (positive)
          continue;
        l.one = !l.one;
      }
      q.push_back(l);
    }
    return q;
  };
  std::vector< Clique > known; // conflicts that rows show by definition
  int nr = s.in(1, 6);
  for (int i = 0; i < nr; i++) {
    int kind = s.weighted({ 6, 1, 1, 1 });
    Clique q = setOfLits(kind ? 1 : 2, std::min(nb, 5));
    if (kind == 0 && q.size() >= 2) {
      int hold = 0;
      for (auto &l : q)
        hold += (pt[l.col] == 1) == l.one;
      rowOf(m, q, s.pct(20) && (hold == 1 || !keepPoint));
      known.push_back(q);
      continue;
    }
    // a row that is no clique: other coefficients, sides or columns
    Row r;
    double act = 0;
    for (auto &l : q) {
      r.push_back(std::make_pair(l.col, s.dpick({ 1, 1, 1, 2, -1, 0.5, 1.5 })));
      act += r.back().second * pt[l.col];
    }
    if (s.pct(40)) {
      int j = (int)s.raw(n);
      bool in = false;
      for (auto &e : r)
        in = in || e.first == j;
      if (!in) {
        r.push_back(std::make_pair(j, s.dpick({ 1, -1, 2 })));
        act += r.back().second * (m.isInt[j] && m.up[j] == 1 ? pt[j] : 0);
      }
    }
    double rhs = keepPoint ? act + s.dpick({ 0, 1, 0.5, 2 }) : s.dpick({ 0, 1, 2, 1.5, -1 });
    if (s.pct(20))
      m.addRow(r, rhs - s.dpick({ 1, 2, 4 }), rhs);
    else if (s.pct(15))
      m.addRow(r, act - s.dpick({ 0, 1, 2 }), INF);
    else
      m.addRow(r, -INF, rhs);
  }
  // columns fixed before or after the store sees the model
  bool anyFixed = false;
  OsiClpSolverInterface si;
  auto fixSome = [&](int p) {
    for (int j : bin)
      if (s.pct(p)) {
        m.lo[j] = m.up[j] = keepPoint ? pt[j] : s.in(0, 1);
        anyFixed = true;
      }
  };
  if (s.pct(10))
    fixSome(20);
  loadModel(m, si);
  std::unique_ptr< CglTreeProbingInfo > t(s.pct(50) ? new CglTreeProbingInfo() : new CglTreeProbingInfo(&si));
  if (t->initializeFixing(&si) <= 0)
    c.fail("init", "initializeFixing refuses a new store");
  // implications
  std::vector< Implication > imp;
  std::vector< Clique > conflicts;
  auto record = [&](Lit a, Lit b) {
    if (a.col == b.col)
      return;
    imp.push_back({ a, b });
    if (!t->fixes(a.col, a.one ? 1 : -1, b.col, !b.one))
      c.fail("room", "no room for an implication");
  };
  int k = s.in(0, 4);
  for (int i = 0; i < k; i++) {
    // every pair of a set of literals, both ways round
    Clique q = setOfLits(2, std::min(nb, s.pct(30) ? 6 : 3));
    for (size_t a = 0; a < q.size(); a++)
      for (size_t b = 0; b < a; b++)
        if (!s.pct(4)) {
          record(q[a], { q[b].col, !q[b].one });
          if (s.pct(94)) {
            record(q[b], { q[a].col, !q[a].one });
            conflicts.push_back({ q[a], q[b] });
          }
        }
  }
  int one = s.weighted({ 4, 2, 1, 1 });
  for (int i = 0; i < one; i++) {
    // one way only, possibly to a column that is not 0-1
    Lit a = { bin[s.raw(nb)], s.pct(50) };
    Lit b = { (int)s.raw(n), s.pct(50) };
    bool b01 = m.isInt[b.col] && m.up[b.col] <= 1;
    if (keepPoint && b01 && (pt[a.col] == 1) == a.one)
      b.one = pt[b.col] == 1;
    if (positive && b01 && b.col != a.col) {
      // keep to conflicts of columns at one
      a.one = true;
      b.one = false;
    }
    record(a, b);
  }
  if (s.pct(10)) {
    fixSome(20);
    for (int j = 0; j < n; j++)
      si.setColBounds(j, m.lo[j], m.up[j]);
  }
  // cliques handed over with the call
  std::vector< Clique > extra;
  std::vector< CoinBigIndex > starts(1, 0);
  std::vector< CliqueEntry > entries;
  std::string types;
  int create = 1, nExtra = 0;
  if (s.pct(25)) {
    nExtra = s.in(1, 3);
    for (int i = 0; i < nExtra; i++) {
      Clique q = setOfLits(2, std::min(nb, 4));
      if (q.size() < 2)
        continue;
      int hold = 0;
      for (auto &l : q) {
        CliqueEntry e;
        e.fixes = 0;
        setSequenceInCliqueEntry(e, t->backward()[l.col]);
        setOneFixesInCliqueEntry(e, l.one);
        entries.push_back(e);
        hold += (pt[l.col] == 1) == l.one;
      }
      starts.push_back((CoinBigIndex)entries.size());
      types += s.pct(20) && hold == 1 ? 'E' : 'S';
      extra.push_back(q);
    }
    nExtra = (int)extra.size();
  }
  bool always = !nExtra && s.pct(40);
  int pack = s.in(0, 3);
  c.d << m.str();
  for (auto &i : imp)
    c.d << text(i.a) << " implies " << text(i.b) << "\n";
  for (int i = 0; i < nExtra; i++) {
    c.d << "extra clique " << types[i] << ":";
    for (auto &l : extra[i])
      c.d << " " << text(l);
    c.d << "\n";
  }
  c.d << "always " << always << " pack/copy " << pack << "\n";
  if (pack == 1)
    t->packDown();
  else if (pack == 2)
    t.reset(new CglTreeProbingInfo(*t));
  std::string before = snapshot(si);
  if (t->analyze(si, 0) != NULL)
    c.fail("asked", "a model is returned although none was asked for");
  auto call = [&]() {
    return std::unique_ptr< OsiSolverInterface >(t->analyze(si, create, always ? -1 : nExtra, nExtra ? &starts[0] : NULL, nExtra ? &entries[0] : NULL, nExtra ? types.c_str() : NULL));
  };
  std::unique_ptr< OsiSolverInterface > f(call());
  if (snapshot(si) != before)
    c.fail("input", "the model given is changed");
  if (!f) {
    c.label("no model");
    if (always)
      c.fail("always", "no model although one is always to be made");
  } else
    c.label("model returned");
  // the rows it has
  int held = 0;
  std::vector< std::set< Lit > > rows;
  std::string sig;
  std::vector< Row > fr;
  if (f) {
    if (f->getNumCols() != n)
      c.fail("columns", cat(f->getNumCols(), " columns"));
    for (int j = 0; j < n; j++)
      if (f->getColLower()[j] != m.lo[j] || f->getColUpper()[j] != m.up[j] || f->getObjCoefficients()[j] != si.getObjCoefficients()[j] || f->isInteger(j) != si.isInteger(j))
        c.fail("columns", cat("column ", j, " is not the column of the model"));
    const CoinPackedMatrix *mat = f->getMatrixByRow();
    for (int i = 0; i < f->getNumRows(); i++) {
      Row r;
      std::set< Lit > lits;
      for (CoinBigIndex q = mat->getVectorStarts()[i]; q < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; q++) {
        r.push_back(std::make_pair(mat->getIndices()[q], mat->getElements()[q]));
        lits.insert({ r.back().first, r.back().second > 0 });
      }
      fr.push_back(r);
      rows.push_back(lits);
      sig += cat(f->getRowLower()[i], " ", f->getRowUpper()[i]);
      for (auto &e : r)
        sig += cat(" ", e.first, "*", e.second);
      sig += "\n";
    }
    c.d << "clique model:\n" << sig;
  }
  // nothing the model and the implications allow is lost
  Points p = enumerate(m);
  for (size_t q = 0; q < p.size(); q++) {
    const double *x = p.at(q);
    bool ok = true;
    for (auto &i : imp)
      if (std::fabs(x[i.a.col] - (i.a.one ? 1 : 0)) < 1e-6) {
        double want = i.b.one ? m.up[i.b.col] : m.lo[i.b.col];
        if (m.isInt[i.b.col] && (m.up[i.b.col] <= 1 && m.lo[i.b.col] >= 0))
          want = i.b.one;
        ok = ok && std::fabs(x[i.b.col] - want) < 1e-6;
      }
    for (int e = 0; e < nExtra && ok; e++) {
      int h = 0;
      for (auto &l : extra[e])
        h += (x[l.col] > 0.5) == l.one;
      ok = types[e] == 'E' ? h == 1 : h <= 1;
    }
    if (!ok)
      continue;
    held++;
    for (size_t i = 0; i < fr.size(); i++) {
      double a = act(fr[i], x);
      if (a < f->getRowLower()[i] - 1e-6 || a > f->getRowUpper()[i] + 1e-6)
        c.fail("invalid-row", cat("row ", i, " of the clique model removes ", strPoint(x, n), ", which the model and the implications allow"));
    }
  }
  if (f) {
    if (held && f->getNumRows())
      c.nontrivial = true;
    std::unique_ptr< OsiSolverInterface > f2(call());
    if (!f2 || f2->getNumRows() != f->getNumRows())
      c.fail("again", "a second call builds another model");
  }
  // every conflict is kept
  if (held && !anyFixed) {
    std::vector< Clique > all(conflicts), mat(known);
    all.insert(all.end(), extra.begin(), extra.end());
    if (f)
      all.insert(all.end(), known.begin(), known.end());
    for (auto &q : all)
      for (size_t a = 0; a < q.size(); a++)
        for (size_t b = 0; b < a; b++) {
          if (q[a].col == q[b].col)
            continue;
          bool have = false;
          if (f)
            for (auto &r : rows)
              have = have || (r.count(q[a]) && r.count(q[b]));
          else {
            mat = known;
            mat.insert(mat.end(), extra.begin(), extra.end());
            for (auto &r : mat)
              have = have || (std::count(r.begin(), r.end(), q[a]) && std::count(r.begin(), r.end(), q[b]));
            // rows that are cliques without having been made as ones
            for (int i = 0; i < m.m() && !have; i++) {
              bool ok = true;
              int neg = 0, in = 0;
              for (auto &e : m.rows[i]) {
                ok = ok && std::fabs(e.second) == 1 && m.isInt[e.first] && m.lo[e.first] == 0 && m.up[e.first] == 1;
                neg += e.second < 0;
                Lit l = { e.first, e.second > 0 };
                in += l == q[a] || l == q[b];
              }
              have = ok && in == 2 && m.ru[i] == 1 - neg;
            }
          }
          if (!have)
            c.fail("lost", cat("no row of the clique model has ", text(q[a]), " and ", text(q[b]), ", which exclude each other"));
        }
    if (f && !conflicts.empty())
      c.label("models judged for completeness");
  }
}
static Reg r42({ "C42", "Clique model", c42, 150000, 1800000,
  "a case = model, implications, extra cliques, way of calling; non-trivial = a clique model with rows is returned and the model has points that satisfy the implications" });
