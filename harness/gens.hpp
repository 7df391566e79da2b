// Registry of cut generators: how to build models of the kind they accept and
// how to construct and parameterise them from a choice sequence.
#pragma once
#include "mip.hpp"

#include "CglAllDifferent.hpp"
#include "CglClique.hpp"
#include "CglDuplicateRow.hpp"
#include "CglKnapsackCover.hpp"
#include "CglLiftAndProject.hpp"
#include "CglMixedIntegerRounding.hpp"
#include "CglOddHole.hpp"
#include "CglRedSplit.hpp"
#include "CglSimpleRounding.hpp"
#include "CglStored.hpp"
#include "CglZeroHalf.hpp"

typedef std::unique_ptr< CglCutGenerator > GenPtr;

enum GenId { KNAP, CLIQUE, ODDHOLE, ZEROHALF, MIR, REDSPLIT, SIMPLE, LIFTPROJ, ALLDIFF, DUPROW, STORED, NGEN,
  // generators written against a newer CoinUtils, built with compat/ (see ext/)
  GOMORY = NGEN, TWOMIR, MIR2, FLOWCOVER, RESCAP, GMI, REDSPLIT2, PROBING, LANDP, NALL };

struct GenSpec {
  const char *name;
  bool needsBasis; // only meaningful at an optimal basis
  bool violated;   // returns only cuts violated by the current point
  double tol;      // relative tolerance of validity
};
const GenSpec &spec(int gen);
// what ext/ supplies for the generators from GOMORY on
struct ExtOps {
  GenPtr (*fresh)();
  void (*assign)(CglCutGenerator &, const CglCutGenerator &);
  GenPtr (*copy)(const CglCutGenerator &);
  void (*mutate)(pbt::Ctx &c, CglCutGenerator &g);
  void (*params)(std::ostream &o, CglCutGenerator &g);
  void (*refresh)(CglCutGenerator &g);
};
extern ExtOps extOps[NALL];

// the generator belongs to one model (column numbers in its data)
inline bool oneModel(int gen) { return gen == ALLDIFF || gen == STORED; }
// model of a kind that suits the generator
Model genModelFor(pbt::Ctx &c, int gen);
// make the model one the generator is meant for
void fitModel(int gen, Model &m);
// generator with parameters chosen by the case; 'plain' = default parameters
GenPtr makeGen(pbt::Ctx &c, int gen, const Model &m, bool plain = false);
// same class, default constructed
GenPtr freshGen(int gen);
// assignment dst = src of the concrete class
void assignGen(int gen, CglCutGenerator &dst, const CglCutGenerator &src);
// copy construction of the concrete class
GenPtr copyGen(int gen, const CglCutGenerator &src);
// random parameter change through a public setter
void mutateGen(pbt::Ctx &c, int gen, CglCutGenerator &g);
// every readable parameter as text
std::string params(int gen, const CglCutGenerator &g);

// tell the generator that the model is another one
void refresh(int gen, CglCutGenerator &g, OsiSolverInterface &si);

CglTreeInfo genInfo(pbt::Ctx &c, const Model &m, bool inTree = false);

// load the model, refresh, put the solver at the point to separate:
// an LP optimum or (if the generator allows it) an arbitrary point.
// false if there is no such point (LP not optimal)
bool place(pbt::Ctx &c, int gen, const Model &m, OsiClpSolverInterface &si);
void printPoint(pbt::Ctx &c, const OsiSolverInterface &si);
