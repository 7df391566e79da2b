// Stand-ins for the conflict graph classes of a newer CoinUtils: literals
// 0..n-1 are the columns, n..2n-1 their complements.
#pragma once
#include "OsiSolverInterface.hpp"
#include <algorithm>
#include <cstddef>
#include <cstdlib>
#include <cmath>
#include <set>
#include <vector>
class CoinConflictGraph {
public:
  CoinConflictGraph(size_t n = 0) : n_(n), a_(n * n, 0) {}
  virtual ~CoinConflictGraph() {}
  size_t size() const { return n_; }
  bool conflicting(size_t i, size_t j) const { return i != j && a_[i * n_ + j]; }
  size_t degree(size_t i) const { return (size_t)std::count(a_.begin() + i * n_, a_.begin() + (i + 1) * n_, 1); }
  void computeModifiedDegree() {}
  void add(size_t i, size_t j) { a_[i * n_ + j] = a_[j * n_ + i] = 1; }

protected:
  size_t n_;
  std::vector< char > a_;
};
class CoinStaticConflictGraph : public CoinConflictGraph {
public:
  CoinStaticConflictGraph(const CoinConflictGraph *g, size_t n, const size_t *el) : CoinConflictGraph(n)
  {
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < i; j++)
        if (g->conflicting(el[i], el[j]))
          add(i, j);
  }
};
// pairs of literals that cannot both be true because of one row and the bounds
const CoinConflictGraph *verifGraph(const OsiSolverInterface *si);
class CoinCliqueList {
public:
  CoinCliqueList(size_t, size_t) {}
  void addClique(size_t n, const size_t *el) { q_.emplace_back(el, el + n); }
  size_t nCliques() const { return q_.size(); }
  size_t cliqueSize(size_t i) const { return q_[i].size(); }
  const size_t *cliqueElements(size_t i) const { return q_[i].data(); }
  size_t totalElements() const
  {
    size_t t = 0;
    for (auto &c : q_)
      t += c.size();
    return t;
  }

protected:
  std::vector< std::vector< size_t > > q_;
};
class CoinCliqueSet : public CoinCliqueList {
public:
  using CoinCliqueList::CoinCliqueList;
  bool insertIfNotDuplicate(size_t n, const size_t *el)
  {
    std::vector< size_t > k(el, el + n);
    std::sort(k.begin(), k.end());
    if (!have_.insert(k).second)
      return false;
    addClique(n, el);
    return true;
  }

private:
  std::set< std::vector< size_t > > have_;
};
// greedy extension; the method only decides the order of the candidates
class CoinCliqueExtender {
public:
  CoinCliqueExtender(const CoinConflictGraph *g, size_t method, const double *rc, double = 100.0) : g_(g), method_(method), rc_(rc), list_(0, 0) {}
  void setMaxCandidates(size_t) {}
  bool extendClique(const size_t *el, size_t n);
  size_t nCliques() const { return list_.nCliques(); }
  size_t getCliqueSize(size_t i) const { return list_.cliqueSize(i); }
  const size_t *getClique(size_t i) const { return list_.cliqueElements(i); }

private:
  const CoinConflictGraph *g_;
  size_t method_;
  const double *rc_;
  CoinCliqueList list_;
};
class CoinCutPool {
public:
  CoinCutPool(const double *, int) {}
  bool add(const int *idx, const double *coef, int n, double rhs)
  {
    c_.push_back({ std::vector< int >(idx, idx + n), std::vector< double >(coef, coef + n), rhs });
    return true;
  }
  void removeNullCuts() {}
  size_t numCuts() const { return c_.size(); }
  int cutSize(size_t i) const { return (int)c_[i].idx.size(); }
  const int *cutIdxs(size_t i) const { return c_[i].idx.data(); }
  const double *cutCoefs(size_t i) const { return c_[i].coef.data(); }
  double cutRHS(size_t i) const { return c_[i].rhs; }

private:
  struct C {
    std::vector< int > idx;
    std::vector< double > coef;
    double rhs;
  };
  std::vector< C > c_;
};
// all maximal cliques of at least the given weight
class CoinBronKerbosch {
public:
  enum PivotingStrategy { Off, Random, Degree, Weight, ModifiedDegree, ModifiedWeight, ModifiedDegreeWeight };
  CoinBronKerbosch(const CoinConflictGraph *g, const double *w, PivotingStrategy) : g_(g), w_(w), list_(0, 0) {}
  void setMaxCalls(size_t k) { maxCalls_ = k; }
  void setMinWeight(double w) { min_ = w; }
  void findCliques();
  bool completedSearch() const { return complete_; }
  size_t numCalls() const { return calls_; }
  size_t nCliques() const { return list_.nCliques(); }
  size_t getCliqueSize(size_t i) const { return list_.cliqueSize(i); }
  const size_t *getClique(size_t i) const { return list_.cliqueElements(i); }

private:
  void rec(std::vector< size_t > &r, std::vector< size_t > p, std::vector< size_t > x);
  const CoinConflictGraph *g_;
  const double *w_;
  CoinCliqueList list_;
  size_t maxCalls_ = (size_t)-1, calls_ = 0;
  double min_ = 0;
  bool complete_ = true;
};
// chordless odd cycles (5 and 7) of violated weight, with literals or cliques
// that conflict with the whole cycle as centre
class CoinOddWheelSeparator {
public:
  CoinOddWheelSeparator(const CoinConflictGraph *g, const double *x, const double *rc, size_t ext) : g_(g), x_(x), ext_(ext) { (void)rc; }
  void setMaxSeconds(double) {}
  void searchOddWheels();
  size_t numOddWheels() const { return hole_.size(); }
  const size_t *oddHole(size_t i) const { return hole_[i].data(); }
  size_t oddHoleSize(size_t i) const { return hole_[i].size(); }
  double oddWheelRHS(size_t i) const { return floor(hole_[i].size() / 2.0); }
  size_t wheelCenterSize(size_t i) const { return center_[i].size(); }
  const size_t *wheelCenter(size_t i) const { return center_[i].data(); }

private:
  void grow(std::vector< size_t > &p, size_t len);
  const CoinConflictGraph *g_;
  const double *x_;
  size_t ext_;
  std::vector< std::vector< size_t > > hole_, center_;
  std::set< std::vector< size_t > > seen_;
};
