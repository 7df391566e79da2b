// C07: simple rounding cuts = rows divided by the gcd with the rhs rounded down
#include "flow.hpp"
#include <numeric>
#include <set>
using namespace pbt;

static long long floorDiv(long long a, long long b)
{
  long long q = a / b;
  if (a % b != 0 && ((a < 0) != (b < 0)))
    q--;
  return q;
}
static const long long P10[] = { 1, 10, 100, 1000 };

static void exact(Ctx &c)
{
  Src &s = c.s;
  // all data are decimals: coefficients in 1/1000, bounds in 1/10, rhs in 1/10000
  int n = s.in(1, 6);
  Model m;
  std::vector< long long > lo10(n), up10(n);
  std::vector< char > loF(n), upF(n);
  for (int j = 0; j < n; j++) {
    bool integer = !s.pct(30);
    loF[j] = !s.pct(12);
    upF[j] = !s.pct(12);
    long long l = s.in(-6, 6), len = s.pct(15) ? 0 : s.in(1, 6);
    if (integer) {
      lo10[j] = 10 * l;
      up10[j] = 10 * (l + len);
    } else {
      int q = s.in(0, 1) ? 10 : 1;
      lo10[j] = l * q + (q == 1 ? s.in(-9, 9) : 0);
      up10[j] = lo10[j] + len * q;
    }
    m.addCol(loF[j] ? lo10[j] / 10.0 : -INF, upF[j] ? up10[j] / 10.0 : INF, integer, s.in(-3, 3));
  }
  int k = s.in(1, 5);
  std::set< std::string > allowed, required;
  for (int i = 0; i < k; i++) {
    int p = s.weighted({ 5, 3, 2, 1 });
    long long unit = P10[3 - p]; // coefficient unit in 1/1000
    int mag = s.ipick({ 6, 12, 40, 1000, 20000 });
    long long mult = s.pct(50) ? s.in(1, 12) : 1;
    bool huge = s.pct(3);
    Row r;
    std::vector< std::pair< int, long long > > rc;
    for (int j = 0; j < n; j++) {
      if (s.pct(30))
        continue;
      long long v = s.in(1, mag) * mult * unit;
      if (huge && m.isInt[j] && up10[j] != lo10[j] && s.pct(50))
        v *= 100000;
      if (s.pct(40))
        v = -v;
      if (s.pct(3))
        v = 0;
      rc.push_back(std::make_pair(j, v));
      r.push_back(std::make_pair(j, v / 1000.0));
    }
    long long hi4 = (long long)s.in(-60, 120) * (s.pct(30) ? mult : 1) * P10[4 - 1 - s.in(0, 3)] * (s.pct(20) ? 1 : 10);
    int sense = s.weighted({ 5, 4, 2, 1, 1 });
    long long lo4 = hi4 - 10000LL * s.in(1, 9);
    double hi = hi4 / 10000.0, lo = lo4 / 10000.0;
    if (sense == 0)
      m.addRow(r, -INF, hi);
    else if (sense == 1)
      m.addRow(r, hi, INF);
    else if (sense == 2)
      m.addRow(r, lo, hi);
    else if (sense == 3)
      m.addRow(r, hi, hi);
    else
      m.addRow(r, -INF, INF);
    // the reference
    if (sense >= 3)
      continue;
    int sg = sense == 1 ? -1 : 1;
    long long b4 = sg * hi4;
    bool ok = true, fits = true;
    std::vector< std::pair< int, long long > > ir;
    for (auto &e : rc) {
      int j = e.first;
      long long v = sg * e.second;
      if (v == 0)
        continue;
      if (!m.isInt[j]) {
        if (v > 0 ? !loF[j] : !upF[j])
          ok = false;
        else
          b4 -= v * (v > 0 ? lo10[j] : up10[j]);
      } else if (loF[j] && upF[j] && lo10[j] == up10[j])
        b4 -= v * up10[j];
      else
        ir.push_back(std::make_pair(j, v));
    }
    if (!ok || ir.empty())
      continue;
    long long g = 0;
    for (auto &e : ir)
      g = std::gcd(g, std::llabs(e.second));
    long long least = 1000; // smallest power of ten that makes all integral
    for (int q = 0; q <= 3; q++) {
      bool all = true;
      for (auto &e : ir)
        if (e.second * P10[q] % 1000)
          all = false;
      if (all) {
        least = P10[q];
        break;
      }
    }
    for (auto &e : ir)
      if (std::llabs(e.second) / 1000.0 * least > 2.0e9)
        fits = false;
    long long rhs = floorDiv(b4, 10 * g);
    OsiRowCut cut;
    std::vector< int > ix;
    std::vector< double > el;
    for (auto &e : ir) {
      ix.push_back(e.first);
      el.push_back((double)(e.second / g));
    }
    cut.setRow((int)ix.size(), &ix[0], &el[0]);
    cut.setLb(-INF);
    cut.setUb((double)rhs);
    std::string sig = cutSig(cut);
    allowed.insert(sig);
    // within round-off of the next integer: either value will do
    bool near = rhs * 10 * g != b4 && ((rhs + 1) * 10 * g - b4) < 1e-7 * (10.0 * g);
    if (near) {
      cut.setUb((double)(rhs + 1));
      allowed.insert(cutSig(cut));
      c.label("right-hand sides within round-off of an integer");
    }
    if (rhs * 10 * g != b4 && fits && !near) {
      required.insert(sig);
      c.label("rows that rounding strengthens");
    }
    if (!fits)
      c.label("rows too large for 32-bit integers");
  }
  c.d << m.str();
  OsiClpSolverInterface si;
  loadModel(m, si);
  si.getColType(true);
  CglSimpleRounding g;
  OsiCuts cs;
  if (s.pct(20)) {
    CglSimpleRounding h(g);
    h.generateCuts(si, cs);
  } else
    g.generateCuts(si, cs, genInfo(c, m, s.pct(30)));
  std::set< std::string > got;
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    std::string sig = cutSig(cs.rowCut(i));
    got.insert(sig);
    if (!allowed.count(sig))
      c.fail("not-a-rounded-row", cat("cut ", str(cs.rowCut(i)), " is not a row divided by its gcd with the rhs rounded down"));
  }
  if (cs.sizeColCuts())
    c.fail("column-cut", "column cuts returned");
  for (auto &q : required)
    if (!got.count(q))
      c.fail("missing-rounded-row", cat("the strengthened row ", q, " was not returned; ", cs.sizeRowCuts(), " cuts"));
  if (!required.empty())
    c.nontrivial = true;
}
static void c07(Ctx &c)
{
  if (c.s.pct(35))
    validityFlow(c, SIMPLE);
  else
    exact(c);
}
static Reg r7({ "C07", "SimpleRounding", c07, 800000, 9600000,
  "a case = one model; non-trivial = some row is strictly strengthened by rounding (exact part), or a cut was returned and the model has an integer point (enumeration part)" });
