// Second part of the instantiations (parsed in parallel with driver_core.cpp).
namespace verif_driver {
using namespace altro;
inline void UseMisc() {
  examples::CircleConstraint circ;
  circ.AddObstacle(1.0, 1.0, 1.0);
  utils::Benchmark<std::chrono::microseconds>([]() {});
  utils::BenchmarkResults<std::chrono::microseconds> res{};
  res.Print();
}
inline KnotPoint<6, 2> Convert(const KnotPoint<-1, -1>& z) { return KnotPoint<6, 2>(z); }
}  // namespace verif_driver

template class altro::constraints::ConstraintValues<6, 2, altro::constraints::Equality>;
template class altro::constraints::ConstraintValues<6, 2, altro::constraints::Inequality>;
template class altro::constraints::Constraint<altro::constraints::Equality>;
template class altro::constraints::Constraint<altro::constraints::Inequality>;
template class altro::KnotPoint<6, 2>;
template class altro::StateControlSized<6, 2>;
template class altro::StateControlSized<-1, -1>;
template class altro::problem::RungeKutta4<6, 2>;
template class altro::problem::RungeKutta4<-1, -1>;
template class altro::problem::DiscretizedModel<altro::examples::Unicycle>;
template class altro::problem::DiscretizedModel<altro::examples::TripleIntegrator, altro::problem::ExplicitEuler>;
template class altro::ThreadSafeQueue<std::packaged_task<void()>>;
template struct altro::utils::BenchmarkResults<std::chrono::microseconds>;
template class altro::problems::TripleIntegratorProblem<2>;
