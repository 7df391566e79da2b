// C13: stored cuts; C14: implication store.  Model-based: the reference is a
// plain list kept beside the object.
#include "flow.hpp"
#include <set>
#include <unistd.h>
using namespace pbt;

// ------------------------------------------------------------------ C13
namespace {
struct RCut {
  Row row;
  double lb, ub;
};
struct RStore {
  std::vector< RCut > cuts;
  double req = 1e-5;
  int ncol = 0;
  bool saved = false, hasSol = false;
  double obj = COIN_DBL_MAX;
  Vec sol, lo, up;
};
RCut genCut(Src &s, int n, const std::vector< RCut > &have = std::vector< RCut >())
{
  if (!have.empty() && s.pct(15))
    return have[s.raw((uint32_t)have.size())]; // the same again
  RCut r;
  std::vector< char > in(n, 0);
  int len = s.in(0, std::min(n, 4));
  for (int q = 0; q < len; q++) {
    int j = (int)s.raw(n);
    if (in[j])
      continue;
    in[j] = 1;
    r.row.push_back(std::make_pair(j, s.dpick({ 1, -1, 2, 0.5, -3, 1e-3, 7, 1.0 / 3 })));
  }
  double b = s.in(-4, 4) + s.dpick({ 0, 0.5, 0.25 });
  int t = s.weighted({ 5, 3, 1, 1, 1 });
  r.lb = t == 0 || t == 4 ? -INF : b;
  r.ub = t == 1 || t == 4 ? INF : t == 3 ? b + s.in(1, 3) : b;
  return r;
}
OsiRowCut toOsi(const RCut &r)
{
  OsiRowCut c;
  std::vector< int > i;
  Vec e;
  for (auto &x : r.row) {
    i.push_back(x.first);
    e.push_back(x.second);
  }
  c.setRow((int)i.size(), i.data(), e.data(), false);
  c.setLb(r.lb);
  c.setUb(r.ub);
  return c;
}
bool sameCut(const OsiRowCut &a, const RCut &b)
{
  if (a.lb() != b.lb || a.ub() != b.ub || a.row().getNumElements() != (int)b.row.size())
    return false;
  Row x;
  for (int k = 0; k < a.row().getNumElements(); k++)
    x.push_back(std::make_pair(a.row().getIndices()[k], a.row().getElements()[k]));
  Row y(b.row);
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  return x == y;
}
std::string text(const RCut &r)
{
  return str(toOsi(r));
}
void compareStore(Ctx &c, const CglStored &g, const RStore &r, const char *when)
{
  if (g.sizeRowCuts() != (int)r.cuts.size())
    c.fail("count", cat(when, ": ", g.sizeRowCuts(), " cuts are held instead of ", r.cuts.size()));
  for (size_t i = 0; i < r.cuts.size(); i++)
    if (!sameCut(*g.rowCutPointer((int)i), r.cuts[i]))
      c.fail("changed", cat(when, ": cut ", i, " is ", str(*g.rowCutPointer((int)i)), " instead of ", text(r.cuts[i])));
  if (g.getRequiredViolation() != r.req)
    c.fail("required", cat(when, ": required violation is ", g.getRequiredViolation(), " instead of ", r.req));
  if (r.saved) {
    if (!g.tightLower())
      c.fail("bounds", cat(when, ": saved bounds are gone"));
    for (int j = 0; j < r.ncol; j++)
      if (g.tightLower()[j] != r.lo[j] || g.tightUpper()[j] != r.up[j])
        c.fail("bounds", cat(when, ": saved bounds of column ", j, " changed"));
  } else if (g.tightLower())
    c.fail("bounds", cat(when, ": there are bounds that were never saved"));
  if (r.hasSol) {
    if (!g.bestSolution())
      c.fail("solution", cat(when, ": saved solution is gone"));
    for (int j = 0; j < r.ncol; j++)
      if (g.bestSolution()[j] != r.sol[j])
        c.fail("solution", cat(when, ": saved solution changed at column ", j));
    if (g.bestObjective() != r.obj)
      c.fail("solution", cat(when, ": saved objective is ", g.bestObjective(), " instead of ", r.obj));
  } else if (g.bestSolution() || g.bestObjective() != COIN_DBL_MAX)
    c.fail("solution", cat(when, ": there is a solution that was never saved"));
}
}

namespace {
struct Imp {
  int i, to, k, val; // x_i at 'to' puts column k at its upper (val=1) or lower bound
  bool operator<(const Imp &o) const { return std::make_tuple(i, to, k, val) < std::make_tuple(o.i, o.to, o.k, o.val); }
  bool operator==(const Imp &o) const { return i == o.i && to == o.to && k == o.k && val == o.val; }
};
std::string text(const Imp &p) { return cat("x", p.i, "=", p.to, " -> x", p.k, p.val ? " at upper" : " at lower"); }

}
// cuts of a stored-cut generator that owns an implication store
static void storedImplications(Ctx &c, const Model &m, OsiSolverInterface &si, const std::set< Imp > &ref, const Vec &x)
{
  Src &s = c.s;
  std::unique_ptr< CglTreeProbingInfo > u(new CglTreeProbingInfo());
  u->initializeFixing(&si);
  std::set< Imp > all;
  for (auto &p : ref) {
    if (s.pct(20))
      continue;
    u->fixes(p.i, p.to ? 1 : -1, p.k, p.val == 0);
    all.insert(p);
  }
  CglStored st;
  st.setProbingInfo(u.release());
  double req = s.dpick({ 1e-5, 0.1 });
  st.setRequiredViolation(req);
  CglStored st2;
  bool cp = s.pct(30);
  if (cp)
    st2 = st;
  OsiCuts cs;
  (cp ? st2 : st).generateCuts(si, cs);
  std::vector< RCut > must;
  for (auto &p : all) {
    double L = m.lo[p.k], U = m.up[p.k], D = U - L;
    RCut r;
    r.lb = -INF;
    if (p.to && p.val) {
      r.row = { { p.i, D }, { p.k, -1.0 } };
      r.ub = -L;
    } else if (p.to) {
      r.row = { { p.i, D }, { p.k, 1.0 } };
      r.ub = U;
    } else if (p.val) {
      r.row = { { p.i, -D }, { p.k, -1.0 } };
      r.ub = -U;
    } else {
      r.row = { { p.i, -D }, { p.k, 1.0 } };
      r.ub = L;
    }
    double viol = act(r.row, x.data()) - r.ub;
    if (fabs(viol - req) < 1e-9)
      return;
    if (viol > req)
      must.push_back(r);
  }
  auto same = [&](const OsiRowCut &a, const RCut &b) {
    if (sameCut(a, b))
      return true;
    RCut q(b);
    for (auto &e : q.row)
      e.second = -e.second;
    q.lb = -b.ub;
    q.ub = INF;
    for (auto &e : q.row)
      if (e.second == 0)
        return true;
    return sameCut(a, q);
  };
  for (auto &r : must) {
    bool ok = false;
    for (int i = 0; i < cs.sizeRowCuts(); i++)
      ok |= same(cs.rowCut(i), r);
    if (!ok)
      c.fail("stored-missing", cat("violated implication ", text(r), " is not returned by the stored-cut generator"));
  }
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    bool ok = false;
    for (auto &r : must)
      ok |= same(cs.rowCut(i), r);
    if (!ok)
      c.fail("stored-extra", cat("cut ", str(cs.rowCut(i)), " of the stored-cut generator is no violated implication"));
  }
  if (!must.empty())
    c.label("stored implications");
}

static void c13(Ctx &c)
{
  Src &s = c.s;
  if (s.pct(8)) {
    // cuts from an implication store that was handed over
    int n = s.in(2, 6);
    Model m;
    for (int j = 0; j < n; j++)
      if (j == 0 || s.pct(70))
        m.addCol(0, 1, true, 0);
      else {
        double l = s.in(-2, 2);
        m.addCol(l, l + s.in(1, 4), s.pct(50), 0);
      }
    std::set< Imp > ref;
    int k = s.in(1, 8);
    Vec x(n);
    for (int j = 0; j < n; j++)
      x[j] = m.lo[j] + s.dpick({ 0, 0.5, 1, 0.25, 0.75, 0.3 }) * (m.up[j] - m.lo[j]);
    c.d << m.str() << "implications";
    for (int q = 0; q < k; q++) {
      Imp p = { (int)s.raw(n), s.in(0, 1), (int)s.raw(n), s.in(0, 1) };
      if (p.i == p.k || m.lo[p.i] != 0 || m.up[p.i] != 1 || !m.isInt[p.i])
        continue;
      ref.insert(p);
      c.d << " " << text(p) << ";";
    }
    c.d << "\ncuts at " << strPoint(x.data(), n) << "\n";
    OsiClpSolverInterface si;
    loadModel(m, si);
    si.setColSolution(x.data());
    storedImplications(c, m, si, ref, x);
    c.nontrivial = !ref.empty();
    return;
  }
  int n = s.in(1, 6);
  OsiClpSolverInterface si;
  Model m;
  for (int j = 0; j < n; j++)
    m.addCol(-5, 5, s.pct(50), 0);
  loadModel(m, si);
  std::vector< std::unique_ptr< CglStored > > g(3);
  std::vector< RStore > r(3);
  for (int k = 0; k < 3; k++) {
    int nc = k == 2 ? s.in(0, n) : n;
    g[k].reset(new CglStored(nc));
    r[k].ncol = nc;
  }
  int ops = s.in(1, 18);
  bool gen = false, copied = false;
  std::string file = cat(c.scratch, "/stored.", (long)getpid());
  for (int o = 0; o < ops; o++) {
    int a = (int)s.raw(3), b = (int)s.raw(3);
    int op = s.weighted({ 4, 3, 2, 2, 2, 1, 2, 2, 2, 1, 8, 1 });
    switch (op) {
    case 0: {
      RCut k = genCut(s, n, r[a].cuts);
      c.d << "g" << a << ".add " << text(k) << "\n";
      g[a]->addCut(toOsi(k));
      r[a].cuts.push_back(k);
      break;
    }
    case 1: {
      RCut k = genCut(s, n, r[a].cuts);
      c.d << "g" << a << ".add arrays " << text(k) << "\n";
      std::vector< int > i;
      Vec e;
      for (auto &x : k.row) {
        i.push_back(x.first);
        e.push_back(x.second);
      }
      g[a]->addCut(k.lb, k.ub, (int)i.size(), i.data(), e.data());
      r[a].cuts.push_back(k);
      break;
    }
    case 2: {
      RCut k = genCut(s, n, r[a].cuts);
      c.d << "g" << a << ".add vector " << text(k) << "\n";
      g[a]->addCut(k.lb, k.ub, toOsi(k).row());
      r[a].cuts.push_back(k);
      break;
    }
    case 3: {
      OsiCuts cs;
      int q = s.in(0, 4);
      c.d << "g" << a << ".add collection of " << q << "\n";
      for (int t = 0; t < q; t++) {
        RCut k = genCut(s, n, r[a].cuts);
        cs.insert(toOsi(k));
        r[a].cuts.push_back(k);
      }
      if (s.pct(30)) {
        OsiColCut cc;
        int j = 0;
        double v = 0;
        cc.setUbs(1, &j, &v);
        cs.insert(cc);
      }
      g[a]->addCut(cs);
      break;
    }
    case 4: {
      double v = s.dpick({ 1e-5, 0.1, 1e-9, 0.5, 2, 0.0 });
      c.d << "g" << a << ".required " << v << "\n";
      g[a]->setRequiredViolation(v);
      r[a].req = v;
      break;
    }
    case 5:
      if (r[a].ncol) {
        RStore &x = r[a];
        x.saved = true;
        x.hasSol = s.pct(60);
        x.lo.assign(x.ncol, 0);
        x.up = x.sol = x.lo;
        for (int j = 0; j < x.ncol; j++) {
          x.lo[j] = s.in(-3, 3);
          x.up[j] = x.lo[j] + s.in(0, 2);
          x.sol[j] = s.in(-9, 9) * 0.25;
        }
        x.obj = x.hasSol ? s.in(-99, 99) * 0.5 : COIN_DBL_MAX;
        c.d << "g" << a << ".saveStuff solution " << x.hasSol << "\n";
        g[a]->saveStuff(x.obj, x.hasSol ? x.sol.data() : NULL, x.lo.data(), x.up.data());
      }
      break;
    case 6:
      c.d << "g" << a << " = copy of g" << b << "\n";
      if (a != b) {
        g[a].reset(new CglStored(*g[b]));
        r[a] = r[b];
        copied = true;
      }
      break;
    case 7:
      c.d << "g" << a << " = g" << b << "\n";
      *g[a] = *g[b];
      r[a] = r[b];
      copied = true;
      break;
    case 8:
      c.d << "g" << a << " = clone of g" << b << "\n";
      if (a != b) {
        g[a].reset(static_cast< CglStored * >(g[b]->clone()));
        r[a] = r[b];
        copied = true;
      }
      break;
    case 9: {
      // file with the given cuts
      RStore x;
      FILE *fp = fopen(file.c_str(), "wb");
      if (!fp)
        break;
      int q = s.in(0, 4);
      for (int t = 0; t < q; t++) {
        RCut k = genCut(s, n, x.cuts);
        int len = (int)k.row.size();
        fwrite(&len, sizeof(int), 1, fp);
        double b2[2] = { k.lb, k.ub };
        fwrite(b2, sizeof(double), 2, fp);
        for (auto &e : k.row)
          fwrite(&e.first, sizeof(int), 1, fp);
        for (auto &e : k.row)
          fwrite(&e.second, sizeof(double), 1, fp);
        x.cuts.push_back(k);
      }
      int end = -1;
      if (!s.pct(20)) // otherwise the file just ends
        fwrite(&end, sizeof(int), 1, fp);
      fclose(fp);
      c.d << "g" << a << " from file with " << q << " cuts\n";
      g[a].reset(new CglStored(file.c_str()));
      unlink(file.c_str());
      r[a] = x;
      break;
    }
    case 10: {
      Vec x(n);
      for (int j = 0; j < n; j++)
        x[j] = s.in(-12, 12) * 0.25;
      si.setColSolution(x.data());
      c.d << "g" << a << ".generate at " << strPoint(x.data(), n) << "\n";
      OsiCuts cs;
      int before = s.pct(20) ? 1 : 0;
      RCut old = genCut(s, n);
      if (before)
        cs.insert(toOsi(old));
      CglTreeInfo info;
      info.inTree = s.pct(30);
      g[a]->generateCuts(si, cs, info);
      std::vector< RCut > exp, may;
      for (auto &k : r[a].cuts) {
        double v = act(k.row, x.data());
        double viol = std::max(k.lb - v, v - k.ub);
        viol = std::max(viol, 0.0);
        if (fabs(viol - r[a].req) < 1e-9 && viol != 0)
          throw Discard(); // exactly at the threshold
        if (viol >= r[a].req)
          exp.push_back(k);
      }
      if (cs.sizeRowCuts() != (int)exp.size() + before || cs.sizeColCuts())
        c.fail("returned", cat(cs.sizeRowCuts() - before, " cuts are returned where ", exp.size(), " are violated by more than ", r[a].req));
      for (size_t i = 0; i < exp.size(); i++)
        if (!sameCut(cs.rowCut((int)i + before), exp[i]))
          c.fail("returned", cat("returned cut ", i, " is ", str(cs.rowCut((int)i + before)), " instead of ", text(exp[i])));
      if (!exp.empty() && exp.size() < r[a].cuts.size())
        c.label("some of the cuts violated");
      if (!exp.empty())
        gen = true;
      break;
    }
    case 11:
      c.d << "g" << a << " new\n";
      g[a].reset(new CglStored(n));
      r[a] = RStore();
      r[a].ncol = n;
      break;
    }
    for (int k = 0; k < 3; k++)
      compareStore(c, *g[k], r[k], cat("after step ", o, ", g", k).c_str());
  }
  if (gen)
    c.nontrivial = true;
  if (gen && copied)
    c.label("with copies");
}
static Reg r13({ "C13", "Stored", c13, 1500000, 18000000,
  "a case = sequence of up to 18 operations on three stored-cut generators; non-trivial = at least one generate call that must return cuts" });

// ------------------------------------------------------------------ C14
namespace {
// views of the store as a set of implications
std::set< Imp > view(Ctx &c, CglTreeProbingInfo &t, int ncol, bool packed)
{
  std::set< Imp > res;
  int ni = t.numberIntegers();
  const CliqueEntry *e = t.fixEntries();
  const int *z = t.toZero(), *o = t.toOne();
  if (ni && z[0] != 0)
    c.fail("view", "list of the first column does not start at zero");
  for (int i = 0; i < ni; i++) {
    if (o[i] < z[i] || z[i + 1] < o[i])
      c.fail("view", "starts of the lists are out of order");
    for (int j = z[i]; j < z[i + 1]; j++) {
      int k = sequenceInCliqueEntry(e[j]);
      if (k < ni)
        k = t.integerVariable()[k];
      else {
        if (packed)
          c.fail("view", "a packed list has an entry that is no 0-1 column");
        k -= ni;
      }
      if (k < 0 || k >= ncol)
        c.fail("view", cat("entry for column ", k));
      Imp p = { t.integerVariable()[i], j >= o[i], k, oneFixesInCliqueEntry(e[j]) };
      res.insert(p);
    }
  }
  return res;
}
}

static void c14(Ctx &c)
{
  Src &s = c.s;
  int n = s.in(2, 7);
  Model m;
  std::vector< int > bin, other;
  for (int j = 0; j < n; j++) {
    int t = s.weighted({ 7, 1, 1 });
    if (t == 0) {
      m.addCol(0, 1, true, 0);
      bin.push_back(j);
    } else {
      double l = s.in(-2, 2);
      m.addCol(l, l + s.in(1, 4) + (t == 2 ? 0 : 1), t == 1, 0);
      other.push_back(j);
    }
  }
  OsiClpSolverInterface si;
  loadModel(m, si);
  c.d << m.str();
  std::unique_ptr< CglTreeProbingInfo > t(s.pct(50) ? new CglTreeProbingInfo() : new CglTreeProbingInfo(&si));
  int rc = t->initializeFixing(&si);
  if (rc <= 0)
    c.fail("init", cat("initializeFixing returns ", rc, " for a new store"));
  // backward look-up
  if (t->numberVariables() != n || t->numberIntegers() != (int)bin.size())
    c.fail("init", cat("store has ", t->numberVariables(), " columns and ", t->numberIntegers(), " 0-1 columns"));
  for (size_t q = 0; q < bin.size(); q++)
    if (t->integerVariable()[q] != bin[q] || t->backward()[bin[q]] != (int)q)
      c.fail("init", "list of 0-1 columns is wrong");
  std::set< Imp > ref;
  int k = s.pct(10) ? s.in(90, 400) : s.in(0, 14);
  bool consistent = s.pct(70); // from one 0-1 point, so that nothing contradicts
  std::vector< int > pt(n);
  for (int j = 0; j < n; j++)
    pt[j] = s.in(0, 1);
  auto copyStep = [&]() {
    int how = s.in(1, 4);
    if (how == 1)
      t.reset(new CglTreeProbingInfo(*t));
    else if (how == 2)
      t.reset(static_cast< CglTreeProbingInfo * >(t->clone()));
    else if (how == 3) {
      // over a store that is in use
      std::unique_ptr< CglTreeProbingInfo > u(new CglTreeProbingInfo());
      if (s.pct(70)) {
        u->initializeFixing(&si);
        if (bin.size() >= 2 && s.pct(70)) {
          u->fixes(bin[0], 1, bin[1], true);
          if (s.pct(50))
            u->packDown();
        }
      }
      *u = *t;
      t = std::move(u);
    } else
      *t = *t;
    c.d << "copy " << how << "\n";
  };
  for (int q = 0; q < k; q++) {
    Imp p;
    p.i = (int)s.raw(n);
    p.to = s.in(0, 1);
    p.k = (int)s.raw(n);
    p.val = s.in(0, 1);
    if (p.i == p.k)
      continue;
    if (consistent && p.to == pt[p.i])
      p.val = pt[p.k];
    if (k < 20)
      c.d << "fixes " << text(p) << "\n";
    if (!t->fixes(p.i, p.to ? 1 : -1, p.k, p.val == 0))
      c.fail("room", "no room for an implication");
    if (m.lo[p.i] == 0 && m.up[p.i] == 1 && m.isInt[p.i])
      ref.insert(p);
    if (s.pct(5))
      copyStep();
  }
  if (s.pct(30))
    copyStep();
  if (s.pct(50)) {
    std::set< Imp > v = view(c, *t, n, false);
    for (auto &p : ref)
      if (!v.count(p))
        c.fail("lost", cat("implication ", text(p), " is not in the store"));
    for (auto &p : v)
      if (!ref.count(p))
        c.fail("invented", cat("implication ", text(p), " was never recorded"));
    c.label("views before packing");
    if (s.pct(30))
      copyStep();
  }
  std::set< Imp > pr;
  for (auto &p : ref)
    if (m.isInt[p.k] && m.lo[p.k] == 0 && m.up[p.k] == 1)
      pr.insert(p);
  int left = t->packDown();
  if (s.pct(20))
    copyStep();
  std::set< Imp > v = view(c, *t, n, true);
  for (auto &p : pr)
    if (!v.count(p))
      c.fail("lost", cat("implication ", text(p), " is not in the packed store"));
  for (auto &p : v)
    if (!pr.count(p))
      c.fail("invented", cat("implication ", text(p), " was never recorded"));
  if (left < (int)pr.size())
    c.fail("pack", cat("packDown returns ", left, " with ", pr.size(), " implications between 0-1 columns"));
  if (t->initializeFixing(&si) >= 0)
    c.fail("init", "initializeFixing on a store in use does not say that it is to be used");

  // bounds as after some branching
  Vec lo(m.lo), up(m.up);
  for (int j : bin)
    if (s.pct(30)) {
      int b = s.pct(60) ? pt[j] : s.in(0, 1);
      lo[j] = up[j] = b;
      si.setColBounds(j, b, b);
      c.d << "x" << j << " fixed at " << b << "\n";
    }
  Vec x(n);
  for (int j = 0; j < n; j++)
    x[j] = lo[j] == up[j] ? lo[j] : lo[j] + s.dpick({ 0, 0.5, 1, 0.25, 0.75, 0.3 }) * (up[j] - lo[j]);
  si.setColSolution(x.data());
  auto isFixed = [&](const Vec &l, const Vec &u, int j, int b) { return l[j] == b && u[j] == b; };
  // what follows directly, and the closure
  bool direct = false, contra = false;
  std::set< std::pair< int, int > > dir;
  for (auto &p : pr)
    if (isFixed(lo, up, p.i, p.to)) {
      if (isFixed(lo, up, p.k, 1 - p.val))
        direct = true;
      else if (lo[p.k] < up[p.k])
        dir.insert(std::make_pair(p.k, p.val));
    }
  for (auto &d : dir)
    if (dir.count(std::make_pair(d.first, 1 - d.second)))
      direct = true;
  Vec cl(lo), cu(up);
  for (bool again = true; again && !contra;) {
    again = false;
    for (auto &p : pr)
      if (isFixed(cl, cu, p.i, p.to)) {
        if (isFixed(cl, cu, p.k, 1 - p.val))
          contra = true;
        else if (cl[p.k] < cu[p.k]) {
          cl[p.k] = cu[p.k] = p.val;
          again = true;
        }
      }
  }
  // cuts
  {
    OsiCuts cs;
    c.d << "cuts at " << strPoint(x.data(), n) << "\n";
    static_cast< const CglTreeProbingInfo & >(*t).generateCuts(si, cs, CglTreeInfo());
    std::vector< RCut > must, may;
    for (auto &p : pr) {
      if (lo[p.i] == up[p.i] || lo[p.k] == up[p.k])
        continue;
      // x_i = to implies x_k = val as an inequality
      RCut r;
      double si1 = p.to ? 1 : -1, sk = p.val ? -1 : 1;
      // to=1,val=0: xi+xk<=1; to=1,val=1: xi-xk<=0; to=0,val=0: xk-xi<=0; to=0,val=1: -xi-xk<=-1
      double rhs = p.to ? (p.val ? 0 : 1) : (p.val ? -1 : 0);
      r.row.push_back(std::make_pair(p.i, si1));
      r.row.push_back(std::make_pair(p.k, sk));
      r.lb = -INF;
      r.ub = rhs;
      double viol = act(r.row, x.data()) - rhs;
      if (viol > 2e-5)
        must.push_back(r);
      else if (viol > 0.5e-5)
        may.push_back(r);
    }
    auto same = [&](const OsiRowCut &a, const RCut &b) {
      if (sameCut(a, b))
        return true;
      RCut q(b);
      for (auto &e : q.row)
        e.second = -e.second;
      q.lb = -b.ub;
      q.ub = INF;
      return sameCut(a, q);
    };
    bool inf = false;
    for (int i = 0; i < cs.sizeRowCuts(); i++) {
      const OsiRowCut &rcut = cs.rowCut(i);
      if (rcut.lb() > rcut.ub()) {
        inf = true;
        continue;
      }
      bool ok = false;
      for (auto &r : must)
        ok |= same(rcut, r);
      for (auto &r : may)
        ok |= same(rcut, r);
      if (!ok)
        c.fail("cut", cat("cut ", str(rcut), " is no violated implication"));
    }
    if (inf && !direct)
      c.fail("infeasible", "cuts report infeasibility although no implication is broken");
    if (!inf && direct)
      c.fail("infeasible", "a broken implication is not reported");
    if (!inf) {
      for (auto &r : must) {
        bool ok = false;
        for (int i = 0; i < cs.sizeRowCuts(); i++)
          ok |= same(cs.rowCut(i), r);
        if (!ok)
          c.fail("cut", cat("violated implication ", text(r), " is not returned"));
      }
      std::set< std::pair< int, int > > got;
      for (int i = 0; i < cs.sizeColCuts(); i++) {
        const OsiColCut &cc = cs.colCut(i);
        for (int e = 0; e < cc.lbs().getNumElements(); e++) {
          if (cc.lbs().getElements()[e] != 1.0)
            c.fail("fix", "lower bound that is not one");
          got.insert(std::make_pair(cc.lbs().getIndices()[e], 1));
        }
        for (int e = 0; e < cc.ubs().getNumElements(); e++) {
          if (cc.ubs().getElements()[e] != 0.0)
            c.fail("fix", "upper bound that is not zero");
          got.insert(std::make_pair(cc.ubs().getIndices()[e], 0));
        }
      }
      if (got != dir)
        c.fail("fix", cat("column cuts fix ", got.size(), " columns where ", dir.size(), " follow"));
    }
    if (cs.sizeRowCuts() + cs.sizeColCuts())
      c.nontrivial = true;
    if (inf)
      c.label("infeasible");
    if (!dir.empty())
      c.label("fixings");
    if (!must.empty())
      c.label("row cuts");
  }
  // fixing in the solver, one column
  if (!bin.empty() && s.pct(50)) {
    OsiClpSolverInterface sj(si);
    int j = bin[s.raw((uint32_t)bin.size())];
    int b = s.in(0, 1);
    c.d << "fixColumns(" << j << "," << b << ")\n";
    int nf = t->fixColumns(j, b, sj);
    bool bad = false;
    Vec l2(lo), u2(up);
    int cnt = 0;
    std::set< std::pair< int, int > > w;
    for (auto &p : pr)
      if (p.i == j && p.to == b)
        w.insert(std::make_pair(p.k, p.val));
    for (auto &q : w) {
      if (w.count(std::make_pair(q.first, 1 - q.second)) || (lo[q.first] == up[q.first] && lo[q.first] != q.second))
        bad = true;
      else if (lo[q.first] < up[q.first]) {
        l2[q.first] = u2[q.first] = q.second;
        cnt++;
      }
    }
    if (bad != (nf < 0))
      c.fail("fixone", cat("fixColumns returns ", nf, " where the implications ", bad ? "contradict" : "agree with", " the bounds"));
    if (!bad) {
      if (nf != cnt)
        c.fail("fixone", cat("fixColumns returns ", nf, " and ", cnt, " columns follow"));
      for (int q = 0; q < n; q++)
        if (sj.getColLower()[q] != l2[q] || sj.getColUpper()[q] != u2[q])
          c.fail("fixone", cat("column ", q, " has bounds [", sj.getColLower()[q], ",", sj.getColUpper()[q], "]"));
    }
  }
  // fixing in the solver, all
  if (s.pct(60)) {
    OsiClpSolverInterface sj(si);
    c.d << "fixColumns\n";
    int nf = t->fixColumns(sj);
    if (nf < 0 && !contra)
      c.fail("fixall", "fixColumns reports infeasibility although the implications are consistent with the bounds");
    if (nf >= 0 && direct)
      c.fail("fixall", "fixColumns does not report a broken implication");
    int cnt = 0;
    for (int q = 0; q < n && nf >= 0 && !contra; q++) {
      double l = sj.getColLower()[q], u = sj.getColUpper()[q];
      if (l == lo[q] && u == up[q]) {
        if (dir.count(std::make_pair(q, 0)) || dir.count(std::make_pair(q, 1)))
          c.fail("fixall", cat("column ", q, " follows from a fixed column and is left free"));
        continue;
      }
      cnt++;
      if (l != cl[q] || u != cu[q])
        c.fail("fixall", cat("column ", q, " gets bounds [", l, ",", u, "] that do not follow"));
    }
    if (nf >= 0 && !contra && nf != cnt)
      c.fail("fixall", cat("fixColumns returns ", nf, " and changed ", cnt, " columns"));
  }
  // cuts of a stored-cut generator that owns the store: all implications count
  if (s.pct(40)) {
    for (int j : bin)
      if (lo[j] == up[j])
        si.setColBounds(j, m.lo[j], m.up[j]);
    storedImplications(c, m, si, ref, x);
  }
}
static Reg r14({ "C14", "Implications", c14, 1500000, 18000000,
  "a case = history of recording, copying, packing and using an implication store; non-trivial = the store returned cuts or fixings" });
