// Instantiates the library's class templates so that their bodies are type-checked and dumped.
// Never compiled to code: it is parsed with -fsyntax-only by the extractor, after the includes
// of every header and source file of the library that the runner puts in front of it.
namespace verif_driver {
using namespace altro;
constexpr int NX = 6;
constexpr int NU = 2;

inline void UseMemberTemplates(augmented_lagrangian::AugmentedLagrangianiLQR<NX, NU>& al,
                               augmented_lagrangian::ALCost<NX, NU>& cost, problem::Problem& prob,
                               const Trajectory<NX, NU>& Z, SolverStats& stats, SolverLogger& logger,
                               LogEntry& entry, ThreadPool& pool, ilqr::iLQR<NX, NU>& solver,
                               ilqr::CostExpansion<NX, NU>& cexp, ilqr::DynamicsExpansion<NX, NU>& dexp,
                               std::shared_ptr<problem::CostFunction> cf,
                               std::shared_ptr<problem::DiscreteDynamics> dyn) {
  al.MaxViolation();
  al.MaxViolation(Z);
  al.GetMaxViolation();
  cost.MaxViolation();
  cost.SetPenalty<constraints::Equality>(1.0, 0);
  cost.SetPenalty<constraints::Inequality>(1.0, 0);
  cost.SetPenaltyScaling<constraints::Equality>(1.0, 0);
  cost.SetPenaltyScaling<constraints::Inequality>(1.0, 0);
  augmented_lagrangian::BuildAugLagProblem<NX, NU>(prob);
  stats.Log("x", 1.0);
  stats.Log("x", 1);
  logger.Log("x", 1.0);
  entry.Log(1.0);
  entry.Print(1.0);
  pool.SetTimeoutPerTask(std::chrono::seconds(1));
  pool.AddTask(std::function<void()>());
  solver.CopyFromProblem(prob, 0, 1);
  solver.InitializeFromProblem(prob);
  cexp.CalcExpansion(cf, Z.GetKnotPoint(0));
  dexp.CalcExpansion(dyn, Z.GetKnotPoint(0));
  std::vector<std::shared_ptr<problem::CostFunction>> cfs;
  prob.SetCostFunction(cfs);
  std::vector<std::shared_ptr<problem::DiscreteDynamics>> dyns;
  prob.SetDynamics(dyns);
  prob.SetConstraint(std::make_shared<examples::GoalConstraint>(VectorXd()), 0);
  prob.SetConstraint(std::make_shared<examples::ControlBound>(1), 0);
}
}  // namespace verif_driver

template class altro::ilqr::iLQR<6, 2>;
template class altro::augmented_lagrangian::AugmentedLagrangianiLQR<6, 2>;
template class altro::augmented_lagrangian::ALCost<6, 2>;
template class altro::ilqr::KnotPointFunctions<6, 2>;
template class altro::ilqr::CostExpansion<6, 2>;
template class altro::ilqr::DynamicsExpansion<6, 2>;
template class altro::Trajectory<6, 2>;
