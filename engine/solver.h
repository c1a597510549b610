#pragma once
#include "expr.h"
#include <set>
#include <memory>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, external = 0, orderUnsat = 0, merges = 0;
  double time = 0, maxTime = 0;
  std::vector<std::string> externalWinners;
};
extern SolverStats gSS;

struct SolverCfg {
  unsigned fastMs = 4000;      // in-process budget before the portfolio is started
  unsigned extSec = 120;       // portfolio budget per query
  std::string workDir = "/tmp";
  std::string portfolio;       // script; empty = no portfolio
  std::string dumpDir;         // if set, every query is dumped
  bool proveAll = false;
  double icpSec = 0;           // >0: branch-and-prune first, with this budget per query
};
extern SolverCfg gCfg;
extern double gDeadline;  // absolute, seconds (monotonic); 0 = none
double nowSec();

// Decide the conjunction of cs. On Sat the model assigns all variables of cs.
Res solve(const std::vector<Ex> &cs, Model *m);

struct IcpStats { uint64_t calls = 0, sat = 0, unsat = 0, boxes = 0; double time = 0; };
extern IcpStats gIcp;
Res icpSolve(const std::vector<Ex> &cs, double budget, uint64_t maxBoxes, Model *out, Ex cut = nullptr);
bool cutRefutes(const std::vector<Ex> &cs, double budget);
