// The generators of the part of coin-or/Cgl that is written against a newer
// CoinUtils (see compat/): construction, copies, parameters.
#include "gens.hpp"
#include "CglFlowCover.hpp"
#include "CglGMI.hpp"
#include "CglGomory.hpp"
#include "CglLandP.hpp"
#include "CglMixedIntegerRounding2.hpp"
#include "CglProbing.hpp"
#include "CglRedSplit2.hpp"
#include "CglResidualCapacity.hpp"
#include "CglTwomir.hpp"
using namespace pbt;

template < class T >
static GenPtr fresh() { return GenPtr(new T); }
template < class T >
static void assign(CglCutGenerator &d, const CglCutGenerator &s) { static_cast< T & >(d) = static_cast< const T & >(s); }
template < class T >
static GenPtr copy(const CglCutGenerator &s) { return GenPtr(new T(static_cast< const T & >(s))); }

// ---- Gomory
static void mGomory(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglGomory &g = static_cast< CglGomory & >(gg);
  switch (s.in(0, 6)) {
  case 0:
    g.setLimit(s.ipick({ 50, 2, 3, 5, 1000 }));
    break;
  case 1:
    g.setLimitAtRoot(s.ipick({ 50, 2, 3, 5, 1000 }));
    break;
  case 2:
    g.setAway(s.dpick({ 0.05, 0.005, 0.2, 0.4 }));
    break;
  case 3:
    g.setAwayAtRoot(s.dpick({ 0.05, 0.005, 0.2, 0.4 }));
    break;
  case 4:
    g.setConditionNumberMultiplier(s.dpick({ 1e-18, 1e-14, 1e-10 }));
    break;
  case 5:
    g.setLargestFactorMultiplier(s.dpick({ 1e-13, 1e-11, 1e-9 }));
    break;
  case 6:
    g.useAlternativeFactorization(s.pct(50));
    break;
  }
}
static void pGomory(std::ostream &o, CglCutGenerator &gg)
{
  CglGomory &g = static_cast< CglGomory & >(gg);
  o << " limit=" << g.getLimit() << " root=" << g.getLimitAtRoot() << " away=" << g.getAway() << " awayRoot=" << g.getAwayAtRoot() << " cond=" << g.getConditionNumberMultiplier()
    << " largest=" << g.getLargestFactorMultiplier() << " alt=" << g.alternativeFactorization() << " type=" << g.gomoryType();
}
// ---- TwoMIR
static void mTwomir(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglTwomir &g = static_cast< CglTwomir & >(gg);
  switch (s.in(0, 7)) {
  case 0: {
    int a = s.in(1, 3);
    g.setMirScale(a, a + s.in(0, 3));
    break;
  }
  case 1: {
    int a = s.in(1, 3);
    g.setTwomirScale(a, a + s.in(0, 3));
    break;
  }
  case 2:
    g.setAMax(s.in(1, 5));
    break;
  case 3:
    g.setMaxElements(s.ipick({ 50000, 2, 4, 8 }));
    break;
  case 4:
    g.setMaxElementsRoot(s.ipick({ 50000, 2, 4, 8 }));
    break;
  case 5:
    g.setCutTypes(s.pct(60), s.pct(60), s.pct(60), s.pct(60));
    break;
  case 6:
    g.setFormulationRows(s.in(0, 5));
    break;
  case 7:
    if (s.pct(50))
      g.setAway(s.dpick({ 0.0005, 0.05, 0.2 }));
    else
      g.setAwayAtRoot(s.dpick({ 0.0005, 0.05, 0.2 }));
    break;
  }
}
static void pTwomir(std::ostream &o, CglCutGenerator &gg)
{
  CglTwomir &g = static_cast< CglTwomir & >(gg);
  o << " t=" << g.getTmin() << ".." << g.getTmax() << " q=" << g.getQmin() << ".." << g.getQmax() << " amax=" << g.getAmax() << " maxel=" << g.getMaxElements() << " root=" << g.getMaxElementsRoot()
    << " types=" << g.getIfMir() << g.getIfTwomir() << g.getIfTableau() << g.getIfFormulation() << " away=" << g.getAway() << " awayRoot=" << g.getAwayAtRoot() << " type=" << g.twomirType();
}
// ---- MIR2
static void mMir2(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglMixedIntegerRounding2 &g = static_cast< CglMixedIntegerRounding2 & >(gg);
  switch (s.in(0, 3)) {
  case 0:
    g.setMAXAGGR_(s.in(1, 5));
    break;
  case 1:
    g.setMULTIPLY_(s.pct(50));
    break;
  case 2:
    g.setCRITERION_(s.in(1, 3));
    break;
  case 3:
    g.setDoPreproc(s.ipick({ -1, 0, 1 }));
    break;
  }
}
static void pMir2(std::ostream &o, CglCutGenerator &gg)
{
  CglMixedIntegerRounding2 &g = static_cast< CglMixedIntegerRounding2 & >(gg);
  o << " aggr=" << g.getMAXAGGR_() << " mult=" << g.getMULTIPLY_() << " crit=" << g.getCRITERION_() << " pre=" << g.getDoPreproc();
}
// ---- flow cover
static void mFlow(Ctx &c, CglCutGenerator &gg)
{
  static_cast< CglFlowCover & >(gg).setMaxNumCuts(c.s.ipick({ 2000000, 2000000, 1, 3, 10 }));
}
static void pFlow(std::ostream &o, CglCutGenerator &gg)
{
  o << " maxcuts=" << static_cast< CglFlowCover & >(gg).getMaxNumCuts();
}
// ---- residual capacity
static void mRes(Ctx &c, CglCutGenerator &gg)
{
  CglResidualCapacity &g = static_cast< CglResidualCapacity & >(gg);
  switch (c.s.in(0, 2)) {
  case 0:
    g.setEpsilon(c.s.dpick({ 1e-6, 1e-8, 1e-5 }));
    break;
  case 1:
    g.setTolerance(c.s.dpick({ 1e-4, 1e-6, 1e-2 }));
    break;
  case 2:
    g.setDoPreproc(c.s.ipick({ -1, 0, 1 }));
    break;
  }
}
static void pRes(std::ostream &o, CglCutGenerator &gg)
{
  CglResidualCapacity &g = static_cast< CglResidualCapacity & >(gg);
  o << " eps=" << g.getEpsilon() << " tol=" << g.getTolerance() << " pre=" << g.getDoPreproc();
}
static void fRes(CglCutGenerator &g) { static_cast< CglResidualCapacity & >(g).refreshPrep(); }
// ---- GMI
static void mGmi(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglGMI &g = static_cast< CglGMI & >(gg);
  CglGMIParam p = g.getParam();
  switch (s.in(0, 7)) {
  case 0:
    p.setAway(s.dpick({ 0.005, 0.05, 0.2 }));
    break;
  case 1:
    p.setMAXDYN(s.dpick({ 1e6, 1e4, 20 }));
    break;
  case 2:
    p.setMINVIOL(s.dpick({ 1e-4, 1e-7, 0.05 }));
    break;
  case 3:
    p.setMAX_SUPPORT_REL(s.dpick({ 0.1, 0.5, 1 }));
    break;
  case 4:
    p.setUSE_INTSLACKS(s.pct(50));
    break;
  case 5:
    p.setCLEAN_PROC((CglGMIParam::CleaningProcedure)s.in(0, 6));
    break;
  case 6:
    p.setINTEGRAL_SCALE_CONT(s.pct(50));
    break;
  case 7:
    p.setENFORCE_SCALING(s.pct(50));
    break;
  }
  if (s.pct(20))
    p.setCHECK_DUPLICATES(s.pct(50));
  g.setParam(p);
}
static void pGmi(std::ostream &o, CglCutGenerator &gg)
{
  CglGMIParam p = static_cast< CglGMI & >(gg).getParam();
  o << " away=" << p.getAway() << " maxdyn=" << p.getMAXDYN() << " minviol=" << p.getMINVIOL() << " supp=" << p.getMAX_SUPPORT() << " rel=" << p.getMAX_SUPPORT_REL() << " is=" << p.getUSE_INTSLACKS()
    << " clean=" << (int)p.getCLEAN_PROC() << " isc=" << p.getINTEGRAL_SCALE_CONT() << " es=" << p.getENFORCE_SCALING() << " dup=" << p.getCHECK_DUPLICATES() << " elim=" << p.getEPS_ELIM()
    << " rabs=" << p.getEPS_RELAX_ABS() << " rrel=" << p.getEPS_RELAX_REL();
}
// ---- RedSplit2
static void mRs2(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglRedSplit2 &g = static_cast< CglRedSplit2 & >(gg);
  CglRedSplit2Param p = g.getParam();
  switch (s.in(0, 10)) {
  case 0:
    p.setAway(s.dpick({ 0.005, 0.05, 0.2 }));
    break;
  case 1:
    p.setMAXDYN(s.dpick({ 1e6, 1e4, 20 }));
    break;
  case 2:
    p.setMINVIOL(s.dpick({ 1e-3, 1e-7, 0.05 }));
    break;
  case 3:
    p.setMAX_SUPP_REL(s.dpick({ 0.1, 0.5, 1 }));
    break;
  case 4:
    p.setUSE_INTSLACKS(s.in(0, 1));
    break;
  case 5:
    p.setNormIsZero(s.dpick({ 1e-5, 1e-3 }));
    break;
  case 6:
    p.setMinNormReduction(s.dpick({ 0.1, 0.01, 0.5 }));
    break;
  case 7:
    p.setMaxSumMultipliers(s.ipick({ 10, 2, 30 }));
    break;
  case 8:
    p.addNumRowsReduction(s.ipick({ 2, 5, 8 }));
    break;
  case 9:
    p.addColumnSelectionStrategy((CglRedSplit2Param::ColumnSelectionStrategy)s.in(0, 9));
    break;
  case 10:
    p.addRowSelectionStrategy((CglRedSplit2Param::RowSelectionStrategy)s.in(0, 8));
    break;
  }
  if (s.pct(25))
    p.setSkipGomory(s.in(0, 1));
  p.setTimeLimit(1e9);
  g.setParam(p);
}
static void pRs2(std::ostream &o, CglCutGenerator &gg)
{
  CglRedSplit2Param p = static_cast< CglRedSplit2 & >(gg).getParam();
  o << " away=" << p.getAway() << " maxdyn=" << p.getMAXDYN() << " minviol=" << p.getMINVIOL() << " supp=" << p.getMAX_SUPPORT() << " rel=" << p.getMAX_SUPP_REL() << " is=" << p.getUSE_INTSLACKS()
    << " norm0=" << p.getNormIsZero() << " red=" << p.getMinNormReduction() << " sum=" << p.getMaxSumMultipliers() << " skip=" << p.getSkipGomory();
}
// ---- probing
static void mProb(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglProbing &g = static_cast< CglProbing & >(gg);
  switch (s.in(0, 8)) {
  case 0:
    g.setMode(s.ipick({ 1, 2, 2, 0 }));
    break;
  case 1:
    g.setMaxPass(s.in(1, 5));
    g.setMaxPassRoot(s.in(1, 5));
    break;
  case 2:
    g.setMaxProbe(s.ipick({ 100, 1, 3, 10 }));
    break;
  case 3:
    g.setMaxProbeRoot(s.ipick({ 100, 1, 3, 10 }));
    break;
  case 4:
    g.setMaxLook(s.ipick({ 50, 2, 5 }));
    break;
  case 5:
    g.setMaxLookRoot(s.ipick({ 50, 2, 5 }));
    break;
  case 6:
    g.setMaxElements(s.ipick({ 1000, 3, 6 }));
    g.setMaxElementsRoot(s.ipick({ 10000, 3, 6 }));
    break;
  case 7:
    g.setRowCuts(s.in(0, 3));
    break;
  case 8:
    g.setUsingObjective(s.ipick({ 0, -1 }));
    break;
  }
}
static void pProb(std::ostream &o, CglCutGenerator &gg)
{
  CglProbing &g = static_cast< CglProbing & >(gg);
  o << " mode=" << g.getMode() << " pass=" << g.getMaxPass() << "/" << g.getMaxPassRoot() << " probe=" << g.getMaxProbe() << "/" << g.getMaxProbeRoot() << " look=" << g.getMaxLook() << "/" << g.getMaxLookRoot()
    << " el=" << g.getMaxElements() << "/" << g.getMaxElementsRoot() << " cuts=" << g.rowCuts() << " obj=" << g.getUsingObjective() << " log=" << g.getLogLevel();
}
// ---- lift-and-project in the simplex tableau
static void mLandP(Ctx &c, CglCutGenerator &gg)
{
  Src &s = c.s;
  CglLandP::Parameters &p = static_cast< CglLandP & >(gg).parameter();
  switch (s.in(0, 9)) {
  case 0:
    p.pivotLimit = s.ipick({ 20, 0, 1, 3 });
    break;
  case 1:
    p.maxCutPerRound = s.ipick({ 5000, 1, 2 });
    break;
  case 2:
    p.sepSpace = (CglLandP::SeparationSpaces)s.in(0, 2);
    break;
  case 3:
    p.normalization = (CglLandP::Normalization)s.in(0, 3);
    break;
  case 4:
    p.lhs_norm = (CglLandP::LHSnorm)s.in(0, 5);
    break;
  case 5:
    p.maximumCandidates = s.ipick({ 1000, 1, 3 });
    break;
  case 6:
    p.pivotSelection = (CglLandP::SelectionRules)s.in(0, 2);
    break;
  case 7:
    p.modularize = s.pct(50);
    break;
  case 8:
    p.strengthen = s.pct(50);
    break;
  case 9:
    p.perturb = s.pct(50);
    break;
  }
  if (s.pct(20))
    p.away = s.dpick({ 5e-4, 0.05, 0.2 });
  if (s.pct(10))
    p.useTableauRow = s.pct(50);
}
static void pLandP(std::ostream &o, CglCutGenerator &gg)
{
  CglLandP::Parameters &p = static_cast< CglLandP & >(gg).parameter();
  o << " pivots=" << p.pivotLimit << "/" << p.pivotLimitInTree << " maxcut=" << p.maxCutPerRound << " failed=" << p.failedPivotLimit << " degen=" << p.degeneratePivotLimit << " extra=" << p.extraCutsLimit
    << " tol=" << p.pivotTol << " away=" << p.away << " rhsw=" << p.rhsWeight << " flags=" << p.useTableauRow << p.modularize << p.strengthen << p.countMistakenRc << p.perturb << " space=" << (int)p.sepSpace
    << " norm=" << (int)p.normalization << " rhst=" << (int)p.rhsWeightType << " lhs=" << (int)p.lhs_norm << " extra=" << (int)p.generateExtraCuts << " sel=" << (int)p.pivotSelection;
}

static GenPtr freshRs2()
{
  CglRedSplit2 *g = new CglRedSplit2;
  g->getParam().setTimeLimit(1e9);
  return GenPtr(g);
}
static GenPtr freshLandP()
{
  CglLandP *g = new CglLandP;
  g->parameter().rhsWeightType = CglLandP::Fixed; // Dynamic is not implemented (throws)
  g->parameter().timeLimit = 1e9;
  g->parameter().singleCutTimeLimit = 1e9;
  g->setLogLevel(0);
  return GenPtr(g);
}
static struct Fill {
  Fill()
  {
    extOps[GOMORY] = { fresh< CglGomory >, assign< CglGomory >, copy< CglGomory >, mGomory, pGomory };
    extOps[TWOMIR] = { fresh< CglTwomir >, assign< CglTwomir >, copy< CglTwomir >, mTwomir, pTwomir };
    extOps[MIR2] = { fresh< CglMixedIntegerRounding2 >, assign< CglMixedIntegerRounding2 >, copy< CglMixedIntegerRounding2 >, mMir2, pMir2 };
    extOps[FLOWCOVER] = { fresh< CglFlowCover >, assign< CglFlowCover >, copy< CglFlowCover >, mFlow, pFlow };
    extOps[RESCAP] = { fresh< CglResidualCapacity >, assign< CglResidualCapacity >, copy< CglResidualCapacity >, mRes, pRes, fRes };
    extOps[GMI] = { fresh< CglGMI >, assign< CglGMI >, copy< CglGMI >, mGmi, pGmi };
    extOps[REDSPLIT2] = { freshRs2, assign< CglRedSplit2 >, copy< CglRedSplit2 >, mRs2, pRs2 };
    extOps[PROBING] = { fresh< CglProbing >, assign< CglProbing >, copy< CglProbing >, mProb, pProb };
    extOps[LANDP] = { freshLandP, assign< CglLandP >, copy< CglLandP >, mLandP, pLandP };
  }
} fill;
