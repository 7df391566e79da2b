// C25-C33: no cut of the generators in ext/ removes an integer-feasible point
#include "flow.hpp"
using namespace pbt;
template < int G >
static void valid(Ctx &c) { validityFlow(c, G); }
static const char *rule = "a case = model, parameters, point, 1-3 rounds and possibly a tree node; non-trivial = at least one cut returned and an integer-feasible point exists";
static Reg r25({ "C25", "Gomory validity", valid< GOMORY >, 60000, 720000, rule });
static Reg r26({ "C26", "two-step MIR validity", valid< TWOMIR >, 60000, 720000, rule });
static Reg r27({ "C27", "MIR (second version) validity", valid< MIR2 >, 60000, 720000, rule });
static Reg r28({ "C28", "flow cover validity", valid< FLOWCOVER >, 60000, 720000, rule });
static Reg r29({ "C29", "residual capacity validity", valid< RESCAP >, 60000, 720000, rule });
static Reg r30({ "C30", "GMI validity", valid< GMI >, 60000, 720000, rule });
static Reg r31({ "C31", "reduce-and-split (second version) validity", valid< REDSPLIT2 >, 60000, 720000, rule });
static Reg r32({ "C32", "probing validity", valid< PROBING >, 60000, 720000, rule });
static Reg r33({ "C33", "lift-and-project in the tableau validity", valid< LANDP >, 60000, 720000, rule });

// C34-C38: C15, C16, C17, C18, C23 for these generators
void extHistory(Ctx &c, int which);
template < int W >
static void hist(Ctx &c) { extHistory(c, W); }
static Reg r34({ "C34", "solver and earlier cuts untouched", hist< 0 >, 60000, 720000, "a case = generator, model, parameters, point, prior cuts; non-trivial = the call added at least one cut" });
static Reg r35({ "C35", "copies", hist< 1 >, 60000, 720000, "a case = generator in a generated state, way of copying, disturbance of the copy; non-trivial = source and copy return at least one cut on the probe model" });
static Reg r36({ "C36", "determinism and history independence", hist< 2 >, 60000, 720000, "a case = generator, probe model, 1-3 earlier models; non-trivial = the fresh generator returns at least one cut on the probe model" });
static Reg r37({ "C37", "well formed, violated, new", hist< 3 >, 60000, 720000, "a case = generator, model, parameters, point; non-trivial = at least one cut returned" });
static Reg r38({ "C38", "global validity marks", hist< 4 >, 60000, 720000, "a case = root model, optional root cuts, branching bounds; non-trivial = at least one cut returned at the root or node and the root has an integer-feasible point" });

void extMemory(Ctx &c);
static Reg r39({ "C39", "memory", extMemory, 20000, 300000, "a case = one generator, its copies and 1-3 models of any shape, repeated four times; non-trivial = at least one cut returned" });
