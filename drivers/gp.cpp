#include <limbo/limbo.hpp>
#include <limbo/kernel/exp.hpp>
using namespace limbo;
namespace verif {
struct Params {
  struct kernel { static double noise(); static bool optimize_noise(); };
  struct kernel_maternfivehalves { static double sigma_sq(); static double l(); };
};
// abstract kernel and mean: declared, never defined; the proofs use only their contracts
struct K {
  K(size_t dim = 1);
  double operator()(const Eigen::VectorXd&, const Eigen::VectorXd&, int i = -1, int j = -2) const;
  Eigen::VectorXd grad(const Eigen::VectorXd&, const Eigen::VectorXd&, int i = -1, int j = -2) const;
  size_t h_params_size() const; Eigen::VectorXd h_params() const; void set_h_params(const Eigen::VectorXd&); double noise() const;
};
struct M {
  M(size_t dim = 1);
  template <typename GP> Eigen::VectorXd operator()(const Eigen::VectorXd&, const GP&) const;
  template <typename GP> Eigen::MatrixXd grad(const Eigen::VectorXd&, const GP&) const;
  size_t h_params_size() const; Eigen::VectorXd h_params() const; void set_h_params(const Eigen::VectorXd&);
};
using GP = model::GP<Params, K, M, model::gp::NoLFOpt<Params>>;
}
template class limbo::model::GP<verif::Params, verif::K, verif::M, model::gp::NoLFOpt<verif::Params>>;
