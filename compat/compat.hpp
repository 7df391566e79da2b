// What the part of coin-or/Cgl that is written against a newer CoinUtils, Osi
// and Clp needs from them; included ahead of each of its files.
// insertIfNotDuplicateAndClean: without the cleaning, so that the cut itself is seen.
// OsiSolverInterfaceX.hpp: the installed header with checkCGraph and getCGraph
// added (made by harness/Makefile); no layout changes, both are not virtual.
#pragma once
#include "OsiSolverInterfaceX.hpp"
#include "OsiCuts.hpp"
#include "OsiRowCut.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiPresolve.hpp"
#include "CoinWarmStartBasis.hpp"
#include <vector>
// A stand-in for the presolve of CoinUtils that does little, but that surely:
// it takes out fixed columns and rows without entries or sides. With it, what becomes
// of a model is Cgl's doing. No semi-continuous columns, no "mini" presolve.
class VerifPresolve : public OsiPresolve {
  OsiSolverInterface *orig_ = nullptr, *model_ = nullptr;
  std::vector< int > col_, row_;

public:
  OsiSolverInterface *presolvedModel(OsiSolverInterface &m, double = 0, bool = true, int = 5, const char *prohibited = nullptr, bool = true, const char *rowProhibited = nullptr, double * = nullptr)
  {
    orig_ = &m;
    OsiSolverInterface *q = m.clone();
    int n = m.getNumCols(), nr = m.getNumRows();
    const double *l = m.getColLower(), *u = m.getColUpper();
    std::vector< double > shift(nr, 0.0);
    std::vector< int > gone, goneRow, left(nr, 0);
    bool infeasible = false;
    double off = 0;
    m.getDblParam(OsiObjOffset, off);
    const CoinPackedMatrix *a = m.getMatrixByCol();
    col_.clear();
    row_.clear();
    for (int j = 0; j < n; j++) {
      bool out = l[j] == u[j] && !(prohibited && prohibited[j]);
      for (CoinBigIndex k = a->getVectorFirst(j); k < a->getVectorLast(j); k++)
        if (out)
          shift[a->getIndices()[k]] += a->getElements()[k] * l[j];
        else
          left[a->getIndices()[k]]++;
      if (out) {
        gone.push_back(j);
        off -= m.getObjCoefficients()[j] * l[j];
      } else
        col_.push_back(j);
    }
    for (int i = 0; i < nr; i++) {
      double lo = m.getRowLower()[i], up = m.getRowUpper()[i];
      if (lo > -1e30)
        lo -= shift[i];
      if (up < 1e30)
        up -= shift[i];
      if (shift[i])
        q->setRowBounds(i, lo, up);
      if (!left[i] && (lo > 1e-6 || up < -1e-6))
        infeasible = true;
      if (((!left[i] && lo <= 1e-9 && up >= -1e-9) || (lo < -1e20 && up > 1e20)) && !(rowProhibited && rowProhibited[i]))
        goneRow.push_back(i);
      else
        row_.push_back(i);
    }
    if (infeasible) {
      delete q;
      return model_ = nullptr;
    }
    q->deleteRows((int)goneRow.size(), goneRow.data());
    q->deleteCols((int)gone.size(), gone.data());
    q->setDblParam(OsiObjOffset, off);
    model_ = q;
    return q;
  }
  OsiSolverInterface *model() const { return model_; }
  OsiSolverInterface *originalModel() const { return orig_; }
  void setOriginalModel(OsiSolverInterface *m) { orig_ = m; }
  const int *originalColumns() const { return col_.data(); }
  const int *originalRows() const { return row_.data(); }
  int getNumRows() const { return (int)row_.size(); }
  int getNumCols() const { return (int)col_.size(); }
  void postsolve(bool updateStatus = true)
  {
    std::vector< double > x(orig_->getColLower(), orig_->getColLower() + orig_->getNumCols());
    for (size_t j = 0; j < col_.size(); j++)
      x[col_[j]] = model_->getColSolution()[j];
    if (updateStatus) {
      CoinWarmStartBasis b;
      b.setSize(orig_->getNumCols(), orig_->getNumRows());
      for (int j = 0; j < orig_->getNumCols(); j++)
        b.setStructStatus(j, CoinWarmStartBasis::atLowerBound);
      for (int i = 0; i < orig_->getNumRows(); i++)
        b.setArtifStatus(i, CoinWarmStartBasis::basic);
      if (CoinWarmStartBasis *w = dynamic_cast< CoinWarmStartBasis * >(model_->getWarmStart())) {
        for (size_t j = 0; j < col_.size() && (int)j < w->getNumStructural(); j++)
          b.setStructStatus(col_[j], w->getStructStatus((int)j));
        for (size_t i = 0; i < row_.size() && (int)i < w->getNumArtificial(); i++)
          b.setArtifStatus(row_[i], w->getArtifStatus((int)i));
        delete w;
      }
      orig_->setWarmStart(&b);
    }
    orig_->setColSolution(x.data());
  }
  OsiSolverInterface *miniPresolvedModel(OsiSolverInterface &) { return nullptr; }
};
#define OsiPresolve VerifPresolve
#define getMutableMatrixByRow getMatrixByRow
#define insertIfNotDuplicateAndClean(rc, code, ...) insertIfNotDuplicate(rc __VA_OPT__(, ) __VA_ARGS__)
#ifndef CBC_SKIP_CLP_TEST
#define CBC_SKIP_CLP_TEST 0
#endif
inline OsiClpSolverInterface *getClpSolver(OsiSolverInterface *s) { return dynamic_cast< OsiClpSolverInterface * >(s); }
inline const OsiClpSolverInterface *getConstClpSolver(const OsiSolverInterface *s) { return dynamic_cast< const OsiClpSolverInterface * >(s); }
inline int hashCut(const OsiRowCut &x, int size)
{
  unsigned long h = 1469598103934665603ul;
  auto mix = [&](double v) {
    if (v == 0)
      v = 0;
    unsigned long b;
    __builtin_memcpy(&b, &v, sizeof b);
    h = (h ^ b) * 1099511628211ul;
    h ^= h >> 29;
  };
  mix(x.lb());
  mix(x.ub());
  for (int i = 0; i < x.row().getNumElements(); i++) {
    mix(x.row().getIndices()[i]);
    mix(x.row().getElements()[i]);
  }
  return (int)(h % (unsigned long)size);
}
inline bool same(const OsiRowCut &a, const OsiRowCut &b)
{
  if (a.row().getNumElements() != b.row().getNumElements() || a.lb() != b.lb() || a.ub() != b.ub())
    return false;
  for (int i = 0; i < a.row().getNumElements(); i++)
    if (a.row().getIndices()[i] != b.row().getIndices()[i] || a.row().getElements()[i] != b.row().getElements()[i])
      return false;
  return true;
}
