// Stands in for ceres::Solve (the executable's definition wins over the library's) so that the harness knows how
// every solve ended and can cut solves off.  The solve itself is Ceres's own.
#include "hcommon.h"
#include <ceres/ceres.h>

static thread_local std::vector<SolveRecord> rec;
std::vector<SolveRecord>& solveRecords() { return rec; }
thread_local int g_force_iterations = -1;
thread_local int g_force_from_blocks = 0;
thread_local std::set<int> g_cut_sizes;

namespace ceres
{
void Solve(const Solver::Options& options, Problem* problem, Solver::Summary* summary)
{
  Solver::Options o = options;
  if (g_force_iterations >= 0 && problem->NumParameterBlocks() >= g_force_from_blocks) o.max_num_iterations = g_force_iterations;
  if (g_cut_sizes.count(problem->NumResiduals())) o.max_num_iterations = 0;
  Solver s;
  s.Solve(o, problem, summary);
  rec.push_back({ static_cast<int>(summary->termination_type), summary->num_residuals, summary->initial_cost,
                  summary->final_cost, static_cast<int>(summary->iterations.size()) });
}
}  // namespace ceres
