// Small mixed-integer programs, their exhaustive solution sets, and checks of
// cuts against those sets.  Nothing in here uses the code under test.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <utility>

#include "CglCutGenerator.hpp"
#include "CglTreeInfo.hpp"
#include "CoinPackedMatrix.hpp"
#include "CoinPackedVector.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiCuts.hpp"

typedef std::vector< double > Vec;
typedef std::vector< std::pair< int, double > > Row;
const double INF = COIN_DBL_MAX;

struct Model {
  int n = 0;
  Vec obj, lo, up;
  std::vector< char > isInt;
  std::vector< Row > rows;
  Vec rl, ru;
  int m() const { return (int)rows.size(); }
  int addCol(double l, double u, bool integer, double c = 0)
  {
    lo.push_back(l);
    up.push_back(u);
    isInt.push_back(integer);
    obj.push_back(c);
    return n++;
  }
  void addRow(const Row &r, double l, double u)
  {
    rows.push_back(r);
    rl.push_back(l);
    ru.push_back(u);
  }
  std::string str() const;
};

// all points of a finite subset of the feasible set that contains every
// integer assignment (inside the box) and, for each, every vertex of the
// continuous part
struct Points {
  int n = 0;
  std::vector< double > v; // flattened
  bool complete = true;    // false if the limit was hit (still sound)
  size_t size() const { return n ? v.size() / n : (v.empty() ? 0 : v.size()); }
  const double *at(size_t k) const { return &v[k * n]; }
};

void loadModel(const Model &m, OsiClpSolverInterface &si);
// box used for infinite bounds
Points enumerate(const Model &m, size_t limit = 60000, int intSpan = 5, double contBox = 40.0);
// same with other column bounds
Points enumerate(const Model &m, const double *lo, const double *up, size_t limit = 60000, int intSpan = 5, double contBox = 40.0);

inline double act(const Row &r, const double *x)
{
  double s = 0;
  for (auto &e : r)
    s += e.second * x[e.first];
  return s;
}
bool feasible(const Model &m, const double *x, double tol = 1e-9);

std::string str(const OsiRowCut &c);
std::string str(const OsiColCut &c);
std::string strPoint(const double *x, int n);

// amount by which x violates the cut beyond the tolerance (0 = satisfied)
bool cutsOff(const OsiRowCut &c, const double *x, double tol);
bool cutsOff(const OsiColCut &c, const double *x, double tol);

struct CutRange {
  int row0 = 0, row1 = 0, col0 = 0, col1 = 0;
};

// fail the case if a cut (from index row0/col0) removes one of the points
void checkValid(pbt::Ctx &c, const std::string &tag, const OsiCuts &cs, const Points &pts, double tol = 1e-6, int row0 = 0, int col0 = 0);
// index range, duplicates, finiteness, bounds order
void checkWellFormed(pbt::Ctx &c, const std::string &tag, const OsiCuts &cs, int ncol, int row0 = 0, int col0 = 0);
// signature of a set of cuts (exact)
std::string cutSig(const OsiRowCut &c);
std::vector< std::string > cutSigs(const OsiCuts &cs, bool sorted = true, int row0 = 0, int col0 = 0);

// ---------------------------------------------------------------- generators
struct Cfg {
  int minInt = 2, maxInt = 8;  // integer columns
  int maxCont = 0;             // continuous columns
  int genInt = 20;             // % of the integer columns that are general
  int negLb = 10;              // % of general columns with negative lower bound
  int fixedCol = 5;            // % of columns fixed
  int minRow = 1, maxRow = 6;
  int infeasRhs = 10;          // % of rows whose rhs ignores the planted point
  int fracCoef = 0;            // % of rows with multiples of 1/4
  int bigCoef = 10;            // % of rows with coefficients up to 60
  int infUp = 0;               // % of columns with infinite upper bound
  int emptyRow = 2;            // % rows without entries
  // weights of row kinds: pack, cover, part, knap, general, vub, edge, copyish
  int wPack = 2, wCover = 2, wPart = 1, wKnap = 3, wGen = 3, wVub = 0, wEdge = 0, wCopy = 1;
  bool eq = true, range = true, freeRow = true;
};
Model genModel(pbt::Ctx &c, const Cfg &g);
// objective that pushes the LP optimum against the rows
void fixedColumn(pbt::Ctx &c, Model &m, bool integer);
void pushObjective(pbt::Ctx &c, Model &m);
// solve the LP relaxation; false if not optimal
bool solveLP(OsiClpSolverInterface &si);
// random fractional/integer point inside the bounds (infinite ones capped)
Vec genPoint(pbt::Ctx &c, const Model &m);
// product of the integer ranges
double boxSize(const Model &m, int intSpan = 5);
