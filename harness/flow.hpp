#pragma once
#include "gens.hpp"
struct FlowOpt {
  bool tree = true;
  bool onlyGlobalTree = false; // C23: always go into the tree
  bool violation = false;      // check that the point violates the cuts
  int maxRounds = 3;
  int wide = 20;               // % of cases on models too large to enumerate
};
// generate model, generator, point; several rounds; node bounds; check all cuts
void validityFlow(pbt::Ctx &c, int gen, const FlowOpt &o = FlowOpt());
Points filterBounds(const Points &p, const double *lo, const double *up);
// a model too large to enumerate with feasible points that are known by construction
Model wideModel(pbt::Ctx &c, int gen, Points &wit);
