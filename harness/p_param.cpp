// C20: setters and getters (model-based histories over parameter objects and
// generators), C21: generated C++ text.
#include "flow.hpp"
#include "CglGMIParam.hpp"
#include "CglParam.hpp"
#include "CglRedSplit2Param.hpp"
#include "CglLandPValidator.hpp"
#include "CoinError.hpp"
#include <cstdlib>
#include <cstring>
using namespace pbt;

namespace {

// one parameter: any number of setters (aliases) and getters
struct Par {
  std::string name;
  std::vector< std::function< double() > > get;
  std::vector< std::function< void(double) > > set;
  std::function< bool(double) > ok; // is the value allowed
  std::vector< double > vals;       // candidate values, allowed and not
  bool integer = false;
  // value after an attempt to set v when the parameter had the value old
  std::function< double(double) > refused; // special rule for refused values
};

struct Object {
  virtual ~Object() {}
  virtual std::vector< Par > pars() = 0;
  virtual Object *copy(int how) const = 0; // 0 copy constructor, 1 clone
  virtual void assign(const Object &o) = 0;
  virtual const char *name() const = 0;
};

typedef std::vector< double > Vals;
const Vals unitV = { 0.05, 1e-6, 0.3, 0.5, 0.1, 0.2, 1.0, 0.0, -0.1, -1, 0.5000001, 0.1000001, 1.0001, 2, 1e-9, 1e-13, 0.75, 0.999 };
const Vals bigV = { 1e7, 10, 11, 10.5, 1000, 1e8, 1.0, 1.5, 1.0000001, 0.999, 0, -5, 1e13, 20, 1e30 };
const Vals intV = { 1, 2, 3, 5, 12, 50, 1000, 0, -1, -3, 100000, 2147483647, 4, 7 };
const Vals boolV = { 0, 1 };
bool any(double) { return true; }
bool pos(double v) { return v > 0; }
bool nonneg(double v) { return v >= 0; }
bool gt1(double v) { return v > 1; }
bool ge1(double v) { return v >= 1; }
bool gt10(double v) { return v > 10; }
bool half(double v) { return v > 0 && v <= 0.5; }
bool tenth(double v) { return v > 0 && v <= 0.1; }
bool unit(double v) { return v > 0 && v <= 1; }
bool unit0(double v) { return v >= 0 && v <= 1; }

Vals mix(const Vals &a, const Vals &b)
{
  Vals r(a);
  r.insert(r.end(), b.begin(), b.end());
  return r;
}

#define D(field, OK, VALS) \
  r.push_back({ #field, { [p] { return (double)p->get##field(); } }, { [p](double v) { p->set##field(v); } }, OK, VALS, false, nullptr })
#define I(field, OK, VALS) \
  r.push_back({ #field, { [p] { return (double)p->get##field(); } }, { [p](double v) { p->set##field((int)v); } }, OK, VALS, true, nullptr })
#define ALIAS_D(g, s)                                         \
  r.back().get.push_back([p] { return (double)p->get##g(); }); \
  r.back().set.push_back([p](double v) { p->set##s(v); })
#define ALIAS_I(g, s)                                         \
  r.back().get.push_back([p] { return (double)p->get##g(); }); \
  r.back().set.push_back([p](double v) { p->set##s((int)v); })

void baseParam(std::vector< Par > &r, CglParam *p)
{
  D(INFINIT, pos, mix(bigV, Vals{ COIN_DBL_MAX }));
  D(EPS, nonneg, unitV);
  D(EPS_COEFF, nonneg, unitV);
  I(MAX_SUPPORT, pos, intV);
}
std::vector< Par > parsOf(CglParam *p)
{
  std::vector< Par > r;
  baseParam(r, p);
  return r;
}
std::vector< Par > parsOf(CglRedSplitParam *p)
{
  std::vector< Par > r;
  baseParam(r, p);
  D(Away, half, unitV);
  D(LUB, pos, mix(bigV, unitV));
  D(EPS_ELIM, nonneg, unitV);
  D(EPS_RELAX_ABS, nonneg, unitV);
  D(EPS_RELAX_REL, nonneg, unitV);
  D(MAXDYN, gt1, bigV);
  D(MAXDYN_LUB, gt1, bigV);
  D(EPS_COEFF_LUB, tenth, unitV);
  D(MINVIOL, tenth, unitV);
  I(USE_INTSLACKS, any, boolV);
  I(USE_CG2, any, boolV);
  D(NormIsZero, unit, unitV);
  D(MinReduc, unit, unitV);
  D(MaxTab, gt10, bigV);
  return r;
}
std::vector< Par > parsOf(CglGMIParam *p)
{
  std::vector< Par > r;
  baseParam(r, p);
  // aliases of the base parameters
  r[0].get.push_back([p] { return p->getInfinity(); });
  r[0].set.push_back([p](double v) { p->setInfinity(v); });
  r[1].get.push_back([p] { return p->getEps(); });
  r[1].set.push_back([p](double v) { p->setEps(v); });
  r[2].get.push_back([p] { return p->getEpsCoeff(); });
  r[2].set.push_back([p](double v) { p->setEpsCoeff(v); });
  r[3].get.push_back([p] { return (double)p->getMaxSupport(); });
  r[3].get.push_back([p] { return (double)p->getMaxSupportAbs(); });
  r[3].get.push_back([p] { return (double)p->getMAX_SUPPORT_ABS(); });
  r[3].set.push_back([p](double v) { p->setMaxSupport((int)v); });
  r[3].set.push_back([p](double v) { p->setMaxSupportAbs((int)v); });
  D(Away, half, unitV);
  ALIAS_D(AWAY, AWAY);
  D(EPS_ELIM, nonneg, unitV);
  ALIAS_D(EpsElim, EpsElim);
  D(EPS_RELAX_ABS, nonneg, unitV);
  ALIAS_D(EpsRelaxAbs, EpsRelaxAbs);
  D(EPS_RELAX_REL, nonneg, unitV);
  ALIAS_D(EpsRelaxRel, EpsRelaxRel);
  D(MAXDYN, ge1, bigV);
  ALIAS_D(MaxDyn, MaxDyn);
  D(MINVIOL, nonneg, unitV);
  ALIAS_D(MinViol, MinViol);
  D(MAX_SUPPORT_REL, unit0, unitV);
  ALIAS_D(MaxSupportRel, MaxSupportRel);
  I(USE_INTSLACKS, any, boolV);
  ALIAS_I(UseIntSlacks, UseIntSlacks);
  I(CHECK_DUPLICATES, any, boolV);
  ALIAS_I(CheckDuplicates, CheckDuplicates);
  I(INTEGRAL_SCALE_CONT, any, boolV);
  ALIAS_I(IntegralScaleCont, IntegralScaleCont);
  I(ENFORCE_SCALING, any, boolV);
  ALIAS_I(Enforcescaling, EnforceScaling);
  r.push_back({ "CLEAN_PROC", { [p] { return (double)p->getCLEAN_PROC(); }, [p] { return (double)p->getCleaningProcedure(); } },
    { [p](double v) { p->setCLEAN_PROC((CglGMIParam::CleaningProcedure)(int)v); }, [p](double v) { p->setCleanProc((CglGMIParam::CleaningProcedure)(int)v); } },
    any, { 0, 1, 2, 3, 4, 5, 6 }, true, nullptr });
  return r;
}
std::vector< Par > parsOf(CglRedSplit2Param *p)
{
  std::vector< Par > r;
  baseParam(r, p);
  r[3].get.push_back([p] { return (double)p->getMAX_SUPP_ABS(); });
  r[3].set.push_back([p](double v) { p->setMAX_SUPP_ABS((int)v); });
  D(Away, half, unitV);
  D(EPS_ELIM, nonneg, unitV);
  D(EPS_RELAX_ABS, nonneg, unitV);
  D(EPS_RELAX_REL, nonneg, unitV);
  D(MAXDYN, gt1, bigV);
  D(MINVIOL, tenth, unitV);
  D(MAX_SUPP_REL, unit0, unitV);
  I(USE_INTSLACKS, any, boolV);
  D(NormIsZero, unit, unitV);
  D(MinNormReduction, unit, unitV);
  I(MaxSumMultipliers, gt1, intV);
  D(Normalization, nonneg, mix(unitV, bigV));
  D(TimeLimit, nonneg, mix(unitV, bigV));
  r.back().refused = [](double) { return 0.0; }; // a negative limit counts as none
  I(MaxNumCuts, nonneg, intV);
  I(MaxNumComputedCuts, nonneg, intV);
  I(MaxNonzeroesTab, nonneg, intV);
  D(ColumnScalingBoundLAP, nonneg, mix(unitV, bigV));
  I(SkipGomory, unit0, intV);
  r.push_back({ "ColumnScalingStrategyLAP", { [p] { return (double)p->getColumnScalingStrategyLAP(); } },
    { [p](double v) { p->setColumnScalingStrategyLAP((CglRedSplit2Param::ColumnScalingStrategy)(int)v); } }, any, { 0, 1, 2, 3, 4, 5 }, true, nullptr });
  return r;
}
void baseGen(std::vector< Par > &r, CglCutGenerator *p)
{
  I(Aggressiveness, any, intV);
  D(MaxSeconds, any, Vals({ 0, 1, 2.5, 1e6, 0.125 }));
  r.push_back({ "GlobalCuts", { [p] { return (double)p->canDoGlobalCuts(); } }, { [p](double v) { p->setGlobalCuts(v != 0); } }, any, boolV, true, nullptr });
}
std::vector< Par > parsOf(CglAllDifferent *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  I(LogLevel, any, intV);
  I(MaxLook, any, intV);
  return r;
}
std::vector< Par > parsOf(CglClique *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  D(MinViolation, any, Vals({ 1e-5, 0.001, 0.1, 0.3 }));
  return r;
}
std::vector< Par > parsOf(CglDuplicateRow *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  r.push_back({ "LogLevel", { [p] { return (double)p->logLevel(); } }, { [p](double v) { p->setLogLevel((int)v); } }, any, intV, true, nullptr });
  r.push_back({ "MaximumRhs", { [p] { return (double)p->maximumRhs(); } }, { [p](double v) { p->setMaximumRhs((int)v); } }, any, intV, true, nullptr });
  r.push_back({ "MaximumDominated", { [p] { return (double)p->maximumDominated(); } }, { [p](double v) { p->setMaximumDominated((int)v); } }, any, intV, true, nullptr });
  r.push_back({ "Mode", { [p] { return (double)p->mode(); } }, { [p](double v) { p->setMode((int)v); } }, any, { 3, 1, 2, 8, 0, 4 }, true, nullptr });
  return r;
}
std::vector< Par > parsOf(CglKnapsackCover *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  I(MaxInKnapsack, pos, intV);
  return r;
}
std::vector< Par > parsOf(CglLiftAndProject *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  I(Beta, [](double v) { return v == 1 || v == -1; }, Vals({ 1, -1, 0, 2, -2, 3 }));
  return r;
}
std::vector< Par > parsOf(CglMixedIntegerRounding *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  I(MAXAGGR_, pos, intV);
  I(MULTIPLY_, any, boolV);
  I(CRITERION_, [](double v) { return v >= 1 && v <= 3; }, Vals({ 1, 2, 3, 0, 4, -1 }));
  I(DoPreproc, [](double v) { return v >= -1 && v <= 1; }, Vals({ -1, 0, 1, -2, 3, 2 }));
  return r;
}
std::vector< Par > parsOf(CglOddHole *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  D(MinimumViolation, [](double v) { return v > 1e-8 && v <= 0.5; }, unitV);
  D(MinimumViolationPer, [](double v) { return v > 1e-8 && v <= 0.25; }, mix(unitV, Vals({ 0.25, 0.2500001, 0.001 })));
  I(MaximumEntries, [](double v) { return v > 2; }, intV);
  return r;
}
std::vector< Par > parsOf(CglSimpleRounding *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  return r;
}
std::vector< Par > parsOf(CglStored *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  D(RequiredViolation, any, Vals({ 1e-5, 1e-3, 0.1, 1 }));
  return r;
}
std::vector< Par > parsOf(CglZeroHalf *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  I(Flags, any, Vals({ 0, 1 }));
  I(SepGraphSparseThreshold, any, intV);
  I(RowMaxPairCount, any, intV);
  I(RowMaxFractionalCount, any, intV);
  return r;
}
std::vector< Par > parsOf(CglRedSplit *p)
{
  std::vector< Par > r;
  baseGen(r, p);
  // through the generator, and through its parameter object
#define RS(NAME, FIELD, OK, VALS)                                                                          \
  r.push_back({ #NAME, { [p] { return (double)p->get##NAME(); }, [p] { return (double)p->getParam().get##FIELD(); } }, \
    { [p](double v) { p->set##NAME(v); },                                                                   \
      [p](double v) {                                                                                      \
        if (!OK(v))                                                                                        \
          return;                                                                                          \
        CglRedSplitParam q(p->getParam());                                                                 \
        q.set##FIELD(v);                                                                                   \
        p->setParam(q);                                                                                    \
      } },                                                                                                 \
    OK, VALS, false, nullptr })
#define RP(FIELD, OK, VALS)                                                       \
  r.push_back({ #FIELD, { [p] { return (double)p->getParam().get##FIELD(); } },   \
    { [p](double v) {                                                             \
      CglRedSplitParam q(p->getParam());                                          \
      q.set##FIELD(v);                                                            \
      p->setParam(q);                                                             \
    } },                                                                          \
    OK, VALS, false, nullptr })
  RS(Limit, MAX_SUPPORT, pos, intV);
  r.back().integer = true;
  RS(Away, Away, half, unitV);
  RS(LUB, LUB, pos, bigV);
  RS(EPS, EPS, tenth, unitV);
  RS(EPS_COEFF, EPS_COEFF, tenth, unitV);
  RS(EPS_COEFF_LUB, EPS_COEFF_LUB, tenth, unitV);
  RS(EPS_RELAX, EPS_RELAX_ABS, tenth, unitV);
  RS(NormIsZero, NormIsZero, unit, unitV);
  RS(MinReduc, MinReduc, unit, unitV);
  RS(MaxTab, MaxTab, gt10, bigV);
  RP(MINVIOL, tenth, unitV);
  RP(MAXDYN, gt1, bigV);
  RP(MAXDYN_LUB, gt1, bigV);
  RP(EPS_ELIM, nonneg, unitV);
  RP(EPS_RELAX_REL, nonneg, unitV);
  RP(USE_CG2, any, boolV);
  RP(INFINIT, pos, bigV);
  return r;
}
std::vector< Par > parsOf(LAP::Validator *p)
{
  std::vector< Par > r;
  D(MaxFillIn, any, unitV);
  D(MaxRatio, any, bigV);
  D(MinViolation, any, unitV);
  return r;
}

template < class T >
Object *cloneOf(const T *);

template < class T >
struct Holder : Object {
  std::unique_ptr< T > p;
  const char *nm;
  Holder(T *q, const char *n) : p(q), nm(n) {}
  std::vector< Par > pars() override { return parsOf(p.get()); }
  Object *copy(int how) const override { return doCopy(how, 0); }
  // clone() where the class has one
  template < class U = T >
  auto doCopy(int how, int) const -> decltype(std::declval< const U & >().clone(), (Object *)nullptr)
  {
    if (how == 0)
      return new Holder(new T(*p), nm);
    auto *q = p->clone();
    T *t = dynamic_cast< T * >(q);
    if (!t) {
      delete q;
      return nullptr;
    }
    return new Holder(t, nm);
  }
  Object *doCopy(int, long) const { return new Holder(new T(*p), nm); }
  void assign(const Object &o) override { doAssign(static_cast< const Holder & >(o)); }
  void doAssign(const Holder &o);
  const char *name() const override { return nm; }
};
template < class T >
void Holder< T >::doAssign(const Holder &o) { *p = *o.p; }
// the class declares an assignment operator but does not define one
template <>
void Holder< CglClique >::doAssign(const Holder &o) { p.reset(new CglClique(*o.p)); }

const int NCLASS = 16;

// values for a constructor: checked by nobody, so only sensible ones
double dv(Src &s) { return s.dpick({ 1e-6, 1e-3, 0.05, 0.1, 0.25, 0.5, 1e-9 }); }
double bv(Src &s) { return s.dpick({ 100, 1e4, 1e6, 12, 1e8 }); }

// a new object and, where it was constructed with arguments, what they were
Object *newObject(Ctx &c, int cls, std::map< std::string, double > &expect)
{
  Src &s = c.s;
  bool args = s.pct(35);
  switch (cls) {
  case 0:
    if (args) {
      double a = bv(s), b = dv(s), d = dv(s);
      int e = s.in(1, 99);
      expect = { { "INFINIT", a }, { "EPS", b }, { "EPS_COEFF", d }, { "MAX_SUPPORT", (double)e } };
      return new Holder< CglParam >(new CglParam(a, b, d, e), "CglParam");
    }
    expect = { { "INFINIT", COIN_DBL_MAX }, { "EPS", 1e-6 }, { "EPS_COEFF", 1e-5 }, { "MAX_SUPPORT", COIN_INT_MAX } };
    return new Holder< CglParam >(new CglParam, "CglParam");
  case 1: {
    static const char *nm[] = { "LUB", "EPS_ELIM", "EPS_RELAX_ABS", "EPS_RELAX_REL", "MAXDYN", "MAXDYN_LUB", "EPS_COEFF_LUB", "MINVIOL", "USE_INTSLACKS", "USE_CG2", "NormIsZero", "MinReduc", "Away", "MaxTab" };
    Vals v = { 1000.0, 1e-12, 1e-8, 0.0, 1e8, 1e13, 1e-13, 1e-7, 0, 0, 1e-5, 0.05, 0.05, 1e7 };
    CglParam base;
    bool from = s.pct(40);
    if (from)
      base = CglParam(bv(s), dv(s), dv(s), s.in(1, 99));
    if (args)
      v = { bv(s), dv(s), dv(s), dv(s), bv(s), bv(s), dv(s), dv(s), (double)s.in(0, 1), (double)s.in(0, 1), dv(s), dv(s), dv(s), bv(s) };
    for (int i = 0; i < 14; i++)
      expect[nm[i]] = v[i];
    expect["INFINIT"] = base.getINFINIT();
    expect["EPS"] = base.getEPS();
    expect["EPS_COEFF"] = base.getEPS_COEFF();
    expect["MAX_SUPPORT"] = base.getMAX_SUPPORT();
    CglRedSplitParam *p;
    if (from)
      p = args ? new CglRedSplitParam(base, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], (int)v[8], (int)v[9], v[10], v[11], v[12], v[13]) : new CglRedSplitParam(base);
    else
      p = args ? new CglRedSplitParam(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], (int)v[8], (int)v[9], v[10], v[11], v[12], v[13]) : new CglRedSplitParam;
    return new Holder< CglRedSplitParam >(p, "CglRedSplitParam");
  }
  case 2: {
    static const char *nm[] = { "EPS", "Away", "EPS_COEFF", "EPS_ELIM", "EPS_RELAX_ABS", "EPS_RELAX_REL", "MAXDYN", "MINVIOL", "MAX_SUPPORT", "MAX_SUPPORT_REL", "CLEAN_PROC", "USE_INTSLACKS", "CHECK_DUPLICATES", "INTEGRAL_SCALE_CONT", "ENFORCE_SCALING" };
    Vals v = { 1e-12, 0.005, 1e-11, 0, 1e-11, 1e-13, 1e6, 1e-4, 1000, 0.1, 0, 0, 0, 0, 1 };
    bool from = s.pct(40);
    CglParam base;
    if (from)
      base = CglParam(bv(s), dv(s), dv(s), s.in(1, 99));
    if (args)
      v = { dv(s), dv(s), dv(s), dv(s), dv(s), dv(s), bv(s), dv(s), (double)s.in(1, 99), dv(s), (double)s.in(0, 6), (double)s.in(0, 1), (double)s.in(0, 1), (double)s.in(0, 1), (double)s.in(0, 1) };
    CglGMIParam *p;
    typedef CglGMIParam::CleaningProcedure CP;
    if (from) {
      if (!args)
        v[3] = 1e-12;
      p = args ? new CglGMIParam(base, v[1], v[3], v[4], v[5], v[6], v[7], v[9], (CP)(int)v[10], v[11] != 0, v[12] != 0, v[13] != 0, v[14] != 0) : new CglGMIParam(base);
      v[0] = base.getEPS();
      v[2] = base.getEPS_COEFF();
      v[8] = base.getMAX_SUPPORT();
    } else
      p = args ? new CglGMIParam(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], (int)v[8], v[9], (CP)(int)v[10], v[11] != 0, v[12] != 0, v[13] != 0, v[14] != 0) : new CglGMIParam;
    for (int i = 0; i < 15; i++)
      expect[nm[i]] = v[i];
    expect["INFINIT"] = from ? base.getINFINIT() : COIN_DBL_MAX;
    return new Holder< CglGMIParam >(p, "CglGMIParam");
  }
  case 3: {
    static const char *nm[] = { "EPS", "EPS_COEFF", "EPS_ELIM", "EPS_RELAX_ABS", "EPS_RELAX_REL", "MAXDYN", "MINVIOL", "MAX_SUPPORT", "MAX_SUPP_REL", "USE_INTSLACKS", "NormIsZero", "MinNormReduction", "MaxSumMultipliers", "Normalization", "Away", "TimeLimit", "MaxNumCuts", "MaxNumComputedCuts", "MaxNonzeroesTab", "ColumnScalingBoundLAP", "SkipGomory" };
    Vals v = { 1e-12, 1e-11, 0, 1e-11, 1e-13, 1e6, 1e-3, 1000, 0.1, 0, 1e-5, 0.1, 10, 0.0001, 0.005, 60, 10000, 10000, 1000, 5.0, 1 };
    bool from = s.pct(40), def = args ? s.pct(50) : true;
    CglParam base;
    if (from)
      base = CglParam(bv(s), dv(s), dv(s), s.in(1, 99));
    if (args)
      v = { dv(s), dv(s), dv(s), dv(s), dv(s), bv(s), dv(s), (double)s.in(1, 99), dv(s), (double)s.in(0, 1), dv(s), dv(s), (double)s.in(2, 20), dv(s), dv(s), bv(s), (double)s.in(0, 50), (double)s.in(0, 50), (double)s.in(0, 50), bv(s), (double)s.in(0, 1) };
    CglRedSplit2Param *p;
    if (from) {
      p = args ? new CglRedSplit2Param(base, def, v[2], v[3], v[4], v[5], v[6], v[8], (int)v[9], v[10], v[11], (int)v[12], v[13], v[14], v[15], (int)v[16], (int)v[17], (int)v[18], v[19], (int)v[20]) : new CglRedSplit2Param(base);
      v[0] = base.getEPS();
      v[1] = base.getEPS_COEFF();
      v[7] = base.getMAX_SUPPORT();
    } else
      p = args ? new CglRedSplit2Param(def, v[0], v[1], v[2], v[3], v[4], v[5], v[6], (int)v[7], v[8], (int)v[9], v[10], v[11], (int)v[12], v[13], v[14], v[15], (int)v[16], (int)v[17], (int)v[18], v[19], (int)v[20]) : new CglRedSplit2Param;
    for (int i = 0; i < 21; i++)
      expect[nm[i]] = v[i];
    expect["INFINIT"] = from ? base.getINFINIT() : COIN_DBL_MAX;
    if (def)
      expect["ColumnScalingStrategyLAP"] = CglRedSplit2Param::SC_UNIFORM_NZ;
    return new Holder< CglRedSplit2Param >(p, "CglRedSplit2Param");
  }
  case 4:
    return new Holder< CglAllDifferent >(new CglAllDifferent, "CglAllDifferent");
  case 5:
    return new Holder< CglClique >(args ? new CglClique(s.pct(50), s.pct(50)) : new CglClique, "CglClique");
  case 6:
    return new Holder< CglDuplicateRow >(new CglDuplicateRow, "CglDuplicateRow");
  case 7:
    expect["MaxInKnapsack"] = 50;
    return new Holder< CglKnapsackCover >(new CglKnapsackCover, "CglKnapsackCover");
  case 8:
    expect["Beta"] = 1;
    return new Holder< CglLiftAndProject >(new CglLiftAndProject, "CglLiftAndProject");
  case 9: {
    expect = { { "MAXAGGR_", 1 }, { "MULTIPLY_", 1 }, { "CRITERION_", 1 }, { "DoPreproc", -1 } };
    if (!args)
      return new Holder< CglMixedIntegerRounding >(new CglMixedIntegerRounding, "CglMixedIntegerRounding");
    int a = s.in(1, 6), m = s.in(0, 1), k = s.in(1, 3), q = s.in(-1, 1);
    expect = { { "MAXAGGR_", (double)a }, { "MULTIPLY_", (double)m }, { "CRITERION_", (double)k }, { "DoPreproc", (double)q } };
    return new Holder< CglMixedIntegerRounding >(new CglMixedIntegerRounding(a, m != 0, k, q), "CglMixedIntegerRounding");
  }
  case 10:
    return new Holder< CglOddHole >(new CglOddHole, "CglOddHole");
  case 11:
    return new Holder< CglSimpleRounding >(new CglSimpleRounding, "CglSimpleRounding");
  case 12:
    return new Holder< CglStored >(new CglStored, "CglStored");
  case 13:
    return new Holder< CglZeroHalf >(new CglZeroHalf, "CglZeroHalf");
  case 14:
    if (args) {
      double x[14] = { bv(s), dv(s), dv(s), dv(s), bv(s), bv(s), dv(s), dv(s), 0, (double)s.in(0, 1), dv(s), dv(s), dv(s), bv(s) };
      CglRedSplitParam q(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], (int)x[8], (int)x[9], x[10], x[11], x[12], x[13]);
      expect = { { "LUB", x[0] }, { "EPS_ELIM", x[1] }, { "EPS_RELAX", x[2] }, { "EPS_RELAX_REL", x[3] }, { "MAXDYN", x[4] }, { "MAXDYN_LUB", x[5] }, { "EPS_COEFF_LUB", x[6] }, { "MINVIOL", x[7] }, { "USE_CG2", x[9] }, { "NormIsZero", x[10] }, { "MinReduc", x[11] }, { "Away", x[12] }, { "MaxTab", x[13] } };
      return new Holder< CglRedSplit >(new CglRedSplit(q), "CglRedSplit");
    }
    return new Holder< CglRedSplit >(new CglRedSplit, "CglRedSplit");
  case 15:
    if (args) {
      double a = dv(s), b = bv(s), d = dv(s);
      expect = { { "MaxFillIn", a }, { "MaxRatio", b }, { "MinViolation", d } };
      return new Holder< LAP::Validator >(new LAP::Validator(a, b, d), "LAP::Validator");
    }
    expect = { { "MaxFillIn", 1 }, { "MaxRatio", 1e8 }, { "MinViolation", 0 } };
    return new Holder< LAP::Validator >(new LAP::Validator, "LAP::Validator");
  }
  return nullptr;
}

// strategy lists of CglRedSplit2Param are lists, not values
void strategyLists(Ctx &c)
{
  Src &s = c.s;
  typedef CglRedSplit2Param P;
  bool def = s.pct(50);
  P p(def);
  std::vector< int > nr, nl;
  std::vector< P::RowSelectionStrategy > rs, rl;
  std::vector< P::ColumnSelectionStrategy > cs, cl;
  auto best = [](std::vector< P::ColumnSelectionStrategy > &v) {
    for (int k : { 3, 4, 5, 6, 7, 8, 9, 10, 11, 17, 18, 19, 20 })
      v.push_back((P::ColumnSelectionStrategy)k);
  };
  if (def) {
    nr.push_back(5);
    nl.push_back(3);
    best(cs);
    rs = { P::RS7, P::RS8 };
    rl = { P::RS8 };
    cl = { P::CS1 };
  }
  int n = s.in(1, 10);
  c.d << "CglRedSplit2Param strategies, default=" << def << ":";
  for (int q = 0; q <= n; q++) {
    auto check = [&](const P &x, const char *what) {
      if (x.getNumRowsReduction() != nr || x.getNumRowsReductionLAP() != nl || x.getRowSelectionStrategy() != rs || x.getRowSelectionStrategyLAP() != rl || x.getColumnSelectionStrategy() != cs || x.getColumnSelectionStrategyLAP() != cl)
        c.fail("strategies", cat("CglRedSplit2Param: strategy lists differ from those added, ", what));
    };
    check(p, "in the object");
    P copy(p);
    check(copy, "in a copy");
    P other(false);
    other = p;
    check(other, "in an assigned object");
    std::unique_ptr< P > cp(p.clone());
    check(*cp, "in a clone");
    if (q == n)
      break;
    int op = s.in(0, 11);
    int k = s.in(-1, 7);
    int rsv = s.in(0, (int)P::RS_BEST), csv = s.in(0, (int)P::CS_LAP_NONBASICS);
    c.d << " " << op << "(" << k << "," << rsv << "," << csv << ")";
    switch (op) {
    case 0:
      p.addNumRowsReduction(k);
      if (k >= 0)
        nr.push_back(k);
      break;
    case 1:
      p.addNumRowsReductionLAP(k);
      if (k >= 0)
        nl.push_back(k);
      break;
    case 2:
      p.addRowSelectionStrategy((P::RowSelectionStrategy)rsv);
      if (rsv == P::RS_ALL)
        for (int t = 0; t < 8; t++)
          rs.push_back((P::RowSelectionStrategy)t);
      else if (rsv == P::RS_BEST) {
        rs.push_back(P::RS7);
        rs.push_back(P::RS8);
      } else
        rs.push_back((P::RowSelectionStrategy)rsv);
      break;
    case 3:
      p.addRowSelectionStrategyLAP((P::RowSelectionStrategy)rsv);
      if (rsv == P::RS_BEST)
        rl.push_back(P::RS8);
      else if (rsv != P::RS_ALL)
        rl.push_back((P::RowSelectionStrategy)rsv);
      break;
    case 4:
      p.addColumnSelectionStrategy((P::ColumnSelectionStrategy)csv);
      if (csv == P::CS_ALL)
        for (int t = 0; t < 21; t++)
          cs.push_back((P::ColumnSelectionStrategy)t);
      else if (csv == P::CS_BEST)
        best(cs);
      else if (csv != P::CS_LAP_NONBASICS)
        cs.push_back((P::ColumnSelectionStrategy)csv);
      break;
    case 5:
      p.addColumnSelectionStrategyLAP((P::ColumnSelectionStrategy)csv);
      if (csv == P::CS_BEST)
        cl.push_back(P::CS1);
      else if (csv != P::CS_ALL)
        cl.push_back((P::ColumnSelectionStrategy)csv);
      break;
    case 6:
      p.resetNumRowsReduction();
      nr.clear();
      break;
    case 7:
      p.resetNumRowsReductionLAP();
      nl.clear();
      break;
    case 8:
      p.resetRowSelectionStrategy();
      rs.clear();
      break;
    case 9:
      p.resetRowSelectionStrategyLAP();
      rl.clear();
      break;
    case 10:
      p.resetColumnSelectionStrategy();
      cs.clear();
      break;
    case 11:
      p.resetColumnSelectionStrategyLAP();
      cl.clear();
      break;
    }
  }
  c.nontrivial = true;
  c.label("strategy lists");
}
} // namespace

// history of set / copy / clone / assign on up to three objects of one class
void paramHistory(Ctx &c, bool copiesOnly)
{
  Src &s = c.s;
  if (s.pct(6)) {
    strategyLists(c);
    return;
  }
  int cls = copiesOnly ? s.in(0, NCLASS - 1) : s.in(0, NCLASS - 1);
  const int K = 3;
  std::unique_ptr< Object > o[K];
  std::map< std::string, double > model[K];
  auto readAll = [&](int k) {
    std::map< std::string, double > r;
    for (auto &p : o[k]->pars())
      r[p.name] = p.get[0]();
    return r;
  };
  auto check = [&](const char *after) {
    for (int k = 0; k < K; k++)
      if (o[k])
        for (auto &p : o[k]->pars())
          for (size_t g = 0; g < p.get.size(); g++) {
            double v = p.get[g]();
            if (v != model[k][p.name])
              c.fail("wrong-value", cat(o[k]->name(), " object ", k, ": ", p.name, " (getter ", g, ") reads ", v, " instead of ", model[k][p.name], " after ", after));
          }
  };
  auto fresh = [&](int k) {
    std::map< std::string, double > e;
    o[k].reset(newObject(c, cls, e));
    model[k] = readAll(k);
    for (auto &x : e) {
      if (!model[k].count(x.first))
        continue;
      if (model[k][x.first] != x.second)
        c.fail("constructor", cat(o[k]->name(), ": ", x.first, " is ", model[k][x.first], " after construction instead of ", x.second));
    }
    c.d << k << " = new " << o[k]->name() << "\n";
  };
  fresh(0);
  int n = 1 + s.in(0, 14);
  int sets = 0;
  for (int q = 0; q < n; q++) {
    int k = s.in(0, K - 1);
    if (!o[k])
      k = 0;
    int op = s.weighted({ 70, 10, 10, 8, 4 });
    if (op == 0) {
      std::vector< Par > ps = o[k]->pars();
      int i = s.in(0, (int)ps.size() - 1);
      Par &p = ps[i];
      int w = s.in(0, (int)p.set.size() - 1);
      double v = p.vals[s.raw((uint32_t)p.vals.size())];
      if (p.integer)
        v = std::trunc(v);
      bool ok = p.ok(v);
      c.d << k << "." << p.name << "[" << w << "] := " << v << (ok ? "" : " (to be refused)") << "\n";
      double want = ok ? v : p.refused ? p.refused(v) : model[k][p.name];
      bool threw = false;
      try {
        p.set[w](v);
      } catch (CoinError &) {
        threw = true;
      }
      if (threw && ok)
        c.fail("allowed-refused", cat(o[k]->name(), ": the allowed value ", v, " of ", p.name, " is refused"));
      model[k][p.name] = want;
      sets++;
      c.label(ok ? "allowed values" : "values to be refused");
      check(cat("setting ", p.name, " to ", v).c_str());
    } else if (op == 1 || op == 2) {
      int t = s.in(0, K - 1);
      if (t == k)
        t = (k + 1) % K;
      Object *x = o[k]->copy(op == 1 ? 0 : 1);
      if (!x)
        c.fail("clone-type", cat(o[k]->name(), ": clone() has another type"));
      o[t].reset(x);
      model[t] = model[k];
      c.d << t << " = " << (op == 1 ? "copy" : "clone") << " of " << k << "\n";
      check("copying");
    } else if (op == 3) {
      int t = s.in(0, K - 1);
      if (!o[t])
        fresh(t);
      o[t]->assign(*o[k]);
      model[t] = model[k];
      c.d << t << " := " << k << "\n";
      check("assignment");
    } else {
      int t = s.in(0, K - 1);
      fresh(t);
      check("construction of another object");
    }
  }
  c.label(o[0]->name());
  if (sets)
    c.nontrivial = true;
}

static void c20(Ctx &c) { paramHistory(c, false); }

// ------------------------------------------------------------------- C21
namespace {
// a setting that the text may mention
struct Setting {
  const char *setter; // text between "name." and "("
  // how to set it (argument as written in the text); returns false if the text is not a valid argument
  std::function< bool(const std::string &) > apply;
  // choose a value: sets it and returns the text expected (as a number)
  Vals vals;
};
bool num(const std::string &t, double &v)
{
  if (t.empty())
    return false;
  char *e = nullptr;
  v = strtod(t.c_str(), &e);
  if (*e)
    return false;
  for (char ch : t)
    if (!strchr("0123456789+-.e", ch))
      return false;
  return true;
}
#define SI(T, NAME, VALS)                                     \
  r.push_back({ #NAME, [p](const std::string &t) {            \
                 double v;                                    \
                 if (!num(t, v) || v != std::floor(v))        \
                   return false;                              \
                 static_cast< T * >(p)->NAME((int)v);         \
                 return true;                                 \
               },                                             \
    VALS })
#define SD(T, NAME, VALS)                                     \
  r.push_back({ #NAME, [p](const std::string &t) {            \
                 double v;                                    \
                 if (!num(t, v))                              \
                   return false;                              \
                 static_cast< T * >(p)->NAME(v);              \
                 return true;                                 \
               },                                             \
    VALS })
#define SB(T, NAME)                                                                \
  r.push_back({ #NAME, [p](const std::string &t) {                                 \
                 if (t != "true" && t != "false" && t != "1" && t != "0")          \
                   return false;                                                   \
                 static_cast< T * >(p)->NAME(t == "true" || t == "1");             \
                 return true;                                                      \
               },                                                                  \
    Vals{ 0, 1 } })

std::vector< Setting > settings(int gen, CglCutGenerator *p)
{
  std::vector< Setting > r;
  SI(CglCutGenerator, setAggressiveness, Vals({ 0, 100, 50, -1, 3 }));
  switch (gen) {
  case KNAP:
    SI(CglKnapsackCover, setMaxInKnapsack, Vals({ 50, 3, 10, 100 }));
    break;
  case CLIQUE:
    r.push_back({ "setStarCliqueNextNodeMethod", [p](const std::string &t) {
                   static const char *n[] = { "CglClique::SCL_MIN_DEGREE", "CglClique::SCL_MAX_DEGREE", "CglClique::SCL_MAX_XJ_MAX_DEG" };
                   static const CglClique::scl_next_node_method m[] = { CglClique::SCL_MIN_DEGREE, CglClique::SCL_MAX_DEGREE, CglClique::SCL_MAX_XJ_MAX_DEG };
                   for (int k = 0; k < 3; k++)
                     if (t == n[k] || t == cat("", k)) {
                       static_cast< CglClique * >(p)->setStarCliqueNextNodeMethod(m[k]);
                       return true;
                     }
                   return false;
                 },
      Vals({ 0, 1, 2 }) });
    SI(CglClique, setStarCliqueCandidateLengthThreshold, Vals({ 12, 0, 5, 20 }));
    SI(CglClique, setRowCliqueCandidateLengthThreshold, Vals({ 12, 0, 5, 20 }));
    SB(CglClique, setStarCliqueReport);
    SB(CglClique, setRowCliqueReport);
    SB(CglClique, setDoStarClique);
    SB(CglClique, setDoRowClique);
    SD(CglClique, setMinViolation, Vals({ 1e-5, 0.001, 0.1, 0.25, 0.0625, 1e-7 }));
    SI(CglClique, setMaxNumber, Vals({ 1000, 5, 1, 12345 }));
    break;
  case MIR:
    SI(CglMixedIntegerRounding, setMAXAGGR_, Vals({ 1, 2, 6 }));
    SB(CglMixedIntegerRounding, setMULTIPLY_);
    SI(CglMixedIntegerRounding, setCRITERION_, Vals({ 1, 2, 3 }));
    SI(CglMixedIntegerRounding, setDoPreproc, Vals({ -1, 0, 1 }));
    break;
  case REDSPLIT:
    SI(CglRedSplit, setLimit, Vals({ 50, 1, 3, 1000 }));
    SD(CglRedSplit, setAway, Vals({ 0.05, 0.005, 0.5, 0.1 }));
    SD(CglRedSplit, setLUB, Vals({ 1000, 1e6, 12.5 }));
    SD(CglRedSplit, setEPS, Vals({ 1e-6, 1e-7, 0.001, 1e-12 }));
    SD(CglRedSplit, setEPS_COEFF, Vals({ 1e-5, 1e-8, 0.001 }));
    SD(CglRedSplit, setEPS_COEFF_LUB, Vals({ 1e-13, 1e-12, 0.001 }));
    SD(CglRedSplit, setEPS_RELAX, Vals({ 1e-8, 1e-7, 0.001 }));
    SD(CglRedSplit, setNormIsZero, Vals({ 1e-5, 1e-6, 0.5 }));
    SD(CglRedSplit, setMinReduc, Vals({ 0.05, 0.1, 1.0 }));
    SD(CglRedSplit, setMaxTab, Vals({ 1e7, 100, 11, 12345.5 }));
    break;
  case LIFTPROJ:
    SI(CglLiftAndProject, setBeta, Vals({ 1, -1 }));
    break;
  case ALLDIFF:
    SI(CglAllDifferent, setLogLevel, Vals({ 0, 1, 2 }));
    SI(CglAllDifferent, setMaxLook, Vals({ 2, 1, 4 }));
    break;
  case ZEROHALF:
    SI(CglZeroHalf, setFlags, Vals({ 0, 1 }));
    SI(CglZeroHalf, setSepGraphSparseThreshold, Vals({ 4, 1, 100 }));
    SI(CglZeroHalf, setRowMaxPairCount, Vals({ 5, 1, 100 }));
    SI(CglZeroHalf, setRowMaxFractionalCount, Vals({ 5, 1, 100 }));
    break;
  case NGEN: // duplicate rows
    SI(CglDuplicateRow, setLogLevel, Vals({ 0, 1, 2 }));
    SI(CglDuplicateRow, setMaximumRhs, Vals({ 1, 2, 5 }));
    SI(CglDuplicateRow, setMaximumDominated, Vals({ 1000, 5, 10 }));
    SI(CglDuplicateRow, setMode, Vals({ 3, 1, 8, 2 }));
    break;
  }
  return r;
}
struct Line {
  char key;
  std::string var, setter, arg;
};
std::string textOf(Ctx &c, CglCutGenerator &g, std::string &ret)
{
  char *buf = nullptr;
  size_t len = 0;
  FILE *fp = open_memstream(&buf, &len);
  ret = g.generateCpp(fp);
  fclose(fp);
  std::string t(buf, len);
  free(buf);
  return t;
}
// "3  name.setX(arg);" -> parts
bool parseCall(const std::string &l, Line &out)
{
  size_t i = 1;
  while (i < l.size() && l[i] == ' ')
    i++;
  size_t a = i;
  while (i < l.size() && (isalnum(l[i]) || l[i] == '_'))
    i++;
  out.key = l[0];
  out.var = l.substr(a, i - a);
  if (i >= l.size() || l[i] != '.')
    return false;
  a = ++i;
  while (i < l.size() && (isalnum(l[i]) || l[i] == '_'))
    i++;
  out.setter = l.substr(a, i - a);
  if (i >= l.size() || l[i] != '(')
    return false;
  size_t e = l.rfind(");");
  if (e == std::string::npos || e < i || l.find_first_not_of(" ", e + 2) != std::string::npos)
    return false;
  out.arg = l.substr(i + 1, e - i - 1);
  return true;
}
bool close(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }
} // namespace

static void c21(Ctx &c)
{
  Src &s = c.s;
  static const int gens[] = { KNAP, CLIQUE, MIR, REDSPLIT, LIFTPROJ, ALLDIFF, ZEROHALF, SIMPLE, NGEN };
  static const char *cls[] = { "CglKnapsackCover", "CglClique", "CglMixedIntegerRounding", "CglRedSplit", "CglLiftAndProject", "CglAllDifferent", "CglZeroHalf", "CglSimpleRounding", "CglDuplicateRow" };
  int gi = s.in(0, 8), gen = gens[gi];
  auto mk = [&]() { return gen == NGEN ? GenPtr(new CglDuplicateRow) : freshGen(gen); };
  GenPtr g = mk();
  std::vector< Setting > st = settings(gen, g.get());
  std::map< std::string, std::string > want; // last value set
  bool expensiveSet = false, expensive = false;
  c.d << cls[gi] << ":";
  int n = s.in(0, 2 * (int)st.size());
  for (int q = 0; q < n; q++) {
    if (gen == KNAP && s.pct(25)) {
      expensive = s.pct(50);
      expensiveSet = true;
      CglKnapsackCover *k = static_cast< CglKnapsackCover * >(g.get());
      if (expensive)
        k->switchOnExpensive();
      else
        k->switchOffExpensive();
      c.d << (expensive ? " expensive on" : " expensive off");
      continue;
    }
    Setting &t = st[s.raw((uint32_t)st.size())];
    double v = t.vals[s.raw((uint32_t)t.vals.size())];
    std::string a = cat("", v);
    if (!t.apply(a))
      c.fail("harness", cat("cannot apply ", t.setter, " ", a));
    want[t.setter] = a;
    c.d << " " << t.setter << "(" << a << ")";
  }
  c.d << "\n";
  if (s.pct(25)) {
    g.reset(g->clone());
    c.d << "cloned\n";
  }
  std::string name, text = textOf(c, *g, name);
  std::string dname, dtext;
  {
    GenPtr d = mk();
    dtext = textOf(c, *d, dname);
  }
  c.d << text;
  // defaults, as the text of a new object states them
  auto lines = [&](const std::string &t) {
    std::vector< std::string > v;
    std::istringstream i(t);
    std::string l;
    while (std::getline(i, l))
      v.push_back(l);
    return v;
  };
  auto value = [&](const std::string &a, double &v) {
    static const char *n[] = { "CglClique::SCL_MIN_DEGREE", "CglClique::SCL_MAX_DEGREE", "CglClique::SCL_MAX_XJ_MAX_DEG" };
    for (int k = 0; k < 3; k++)
      if (a == n[k]) {
        v = k;
        return true;
      }
    if (a == "true" || a == "false") {
      v = a == "true";
      return true;
    }
    return num(a, v);
  };
  // run the text: 'with4' also runs the lines for defaults
  auto run = [&](bool with4, GenPtr &h) {
    std::vector< Setting > hs;
    bool declared = false;
    std::string var;
    for (auto &l : lines(text)) {
      if (l.empty())
        continue;
      if (l[0] == '0') {
        if (l.find(cat("#include \"", cls[gi], ".hpp\"")) == std::string::npos)
          c.fail("include", cat("wrong include line: ", l));
        continue;
      }
      if (l[0] != '3' && l[0] != '4')
        c.fail("key", cat("unknown key in line: ", l));
      std::string decl = cat(cls[gi], " ", name, ";");
      if (l.find(decl) != std::string::npos) {
        if (l[0] != '3')
          c.fail("declaration", cat("declaration marked as default: ", l));
        declared = true;
        hs = settings(gen, h.get());
        continue;
      }
      Line k;
      if (!parseCall(l, k))
        c.fail("does-not-compile", cat("line is no call of a setter: ", l));
      if (!declared || k.var != name)
        c.fail("does-not-compile", cat("line uses an object that is not declared: ", l));
      if (gen == KNAP && (k.setter == "switchOnExpensive" || k.setter == "switchOffExpensive") && k.arg.empty()) {
        if (l[0] == '3' || with4) {
          CglKnapsackCover *kc = static_cast< CglKnapsackCover * >(h.get());
          if (k.setter == "switchOnExpensive")
            kc->switchOnExpensive();
          else
            kc->switchOffExpensive();
        }
        continue;
      }
      bool found = false;
      for (auto &t : hs)
        if (k.setter == t.setter) {
          found = true;
          if (l[0] == '3' || with4)
            if (!t.apply(k.arg))
              c.fail("does-not-compile", cat("bad argument: ", l));
          double v;
          if (!value(k.arg, v))
            c.fail("does-not-compile", cat("bad argument: ", l));
          auto w = want.find(k.setter);
          double x;
          if (w != want.end() && num(w->second, x) && !close(x, v))
            c.fail("wrong-value", cat("line ", l, " but the value set is ", w->second));
          // a default line must state the default: it must be in the text of a new object as well
          if (l[0] == '4' && dtext.find(l.substr(1)) == std::string::npos)
            c.fail("default-mark", cat("line marked as default is not the default: ", l));
        }
      if (!found)
        c.fail("does-not-compile", cat("unknown setter: ", l));
    }
    if (!declared)
      c.fail("declaration", "the generator is not declared");
  };
  int changed = 0;
  for (int with4 = 0; with4 < 2; with4++) {
    GenPtr h = mk();
    run(with4 != 0, h);
    // same settings: everything that can be read, and the text itself
    std::string n2, t2 = textOf(c, *h, n2);
    if (t2 != text)
      c.fail("not-recreated", cat("the generated lines build a generator that describes itself differently:\n", t2));
    if (gen != NGEN && params(gen, *g) != params(gen, *h)) {
      // numbers are written with six digits
      c.fail("not-recreated", cat("recreated generator has ", params(gen, *h), " instead of ", params(gen, *g)));
    }
    if (gen == NGEN) {
      CglDuplicateRow *a = static_cast< CglDuplicateRow * >(g.get()), *b = static_cast< CglDuplicateRow * >(h.get());
      if (a->mode() != b->mode() || a->maximumRhs() != b->maximumRhs() || a->maximumDominated() != b->maximumDominated() || a->logLevel() != b->logLevel())
        c.fail("not-recreated", "recreated CglDuplicateRow differs");
    }
  }
  // every setting made that is not the default must be there, marked 3
  for (auto &w : want) {
    double x, dx = 0;
    num(w.second, x);
    bool isDefault = false, there3 = false;
    for (auto &l : lines(dtext)) {
      Line k;
      if (!l.empty() && l[0] == '4' && parseCall(l, k) && k.setter == w.first && value(k.arg, dx) && close(dx, x))
        isDefault = true;
    }
    for (auto &l : lines(text)) {
      Line k;
      double v;
      if (!l.empty() && l[0] == '3' && parseCall(l, k) && k.setter == w.first && value(k.arg, v) && close(v, x))
        there3 = true;
    }
    if (there3)
      changed++;
    if (isDefault || there3)
      continue;
    // no default line for this setting in the text of a new object: find out
    // whether the value is the default by setting it in a new object
    GenPtr d = mk();
    std::string n3, before = textOf(c, *d, n3);
    for (auto &t : settings(gen, d.get()))
      if (w.first == t.setter) {
        // another value first, to see that the text shows this setting
        t.apply(w.second);
      }
    if (textOf(c, *d, n3) != before)
      c.fail("setting-lost", cat(w.first, "(", w.second, ") was set but is not in the text"));
    // either the default, or never shown at all: some other value must show
    bool shows = false;
    for (auto &t : settings(gen, d.get()))
      if (w.first == t.setter)
        for (double v : t.vals) {
          GenPtr e = mk();
          for (auto &u : settings(gen, e.get()))
            if (w.first == u.setter)
              u.apply(cat("", v));
          if (textOf(c, *e, n3) != before)
            shows = true;
        }
    if (!shows)
      c.fail("setting-lost", cat(w.first, " never appears in the text"));
  }
  if (expensiveSet) {
    bool on = text.find("switchOnExpensive") != std::string::npos, off = text.find("switchOffExpensive") != std::string::npos;
    if ((expensive && (!on || off)) || (!expensive && on))
      c.fail("setting-lost", "expensive cuts are described wrongly");
    if (expensive)
      changed++;
  }
  c.label(cls[gi]);
  if (changed)
    c.nontrivial = true;
}

static Reg r20({ "C20", "setters and getters", c20, 1500000, 18000000, "a case = class, constructor arguments, history of up to 15 set/copy/clone/assign operations on up to three objects; non-trivial = at least one setter call was judged" });
static Reg r21({ "C21", "generated C++", c21, 1500000, 18000000, "a case = generator class and history of setter calls, then its text is parsed and run; non-trivial = at least one setting differs from its default" });
