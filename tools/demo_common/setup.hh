// Common part of the demonstrations: a small Laplace problem for the assembled and
// the matrix-free backend, taken from the repository's own test helpers.
#define BOOST_TEST_NO_MAIN
#include <boost/test/unit_test.hpp>
#include "test_hierarchy_helpers.hpp"
#include <mfmg/common/hierarchy.hpp>
#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/dealii_hierarchy_helpers.hpp>
#include <mfmg/dealii/dealii_matrix_free_hierarchy_helpers.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
#include <deal.II/base/mpi.h>
#include <cmath>
#include <iostream>
using DVector = dealii::LinearAlgebra::distributed::Vector<double>;
using Params = boost::property_tree::ptree;
inline std::shared_ptr<Params> params(int n_ref = 4)
{
  auto p = std::make_shared<Params>();
  p->put("eigensolver.number of eigenvectors", 2);
  p->put("eigensolver.tolerance", 1e-14);
  p->put("smoother.type", "Gauss-Seidel");
  p->put("is preconditioner", false);
  p->put("agglomeration.partitioner", "block");
  p->put("agglomeration.nx", 2);
  p->put("agglomeration.ny", 2);
  p->put("agglomeration.nz", 2);
  p->put("material_property.type", "constant");
  p->put("laplace.distort_random", false);
  p->put("laplace.reordering", "None");
  p->put("laplace.n_refinements", n_ref);
  return p;
}
template <int dim = 2>
struct Assembled
{
  using ME = mfmg::DealIIMeshEvaluator<dim>;
  Laplace<dim, DVector> laplace;
  std::shared_ptr<Coefficient<dim>> material;
  Source<dim> source;
  std::shared_ptr<TestMeshEvaluator<ME>> evaluator;
  Assembled(std::shared_ptr<Params> p) : laplace(MPI_COMM_WORLD, 1)
  {
    material = MaterialPropertyFactory<dim>::create_material_property(
        p->template get<std::string>("material_property.type"));
    laplace.setup_system(p->get_child("laplace"));
    laplace.assemble_system(source, *material);
    evaluator = std::make_shared<TestMeshEvaluator<ME>>(
        laplace._dof_handler, laplace._constraints, 1, laplace._system_matrix,
        material);
  }
  DVector vec() const { return DVector(laplace._locally_owned_dofs, MPI_COMM_WORLD); }
  DVector random(unsigned seed) const
  {
    DVector v = vec();
    std::mt19937 g(seed + 17 * dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD));
    std::uniform_real_distribution<double> u(-1., 1.);
    for (auto i : laplace._locally_owned_dofs)
      v[i] = laplace._constraints.is_constrained(i) ? 0. : u(g);
    return v;
  }
};
inline double rel(DVector const &a, DVector const &b)
{
  DVector d(a);
  d.add(-1., b);
  double n = b.l2_norm();
  return d.l2_norm() / (n > 0 ? n : 1.);
}
#define EXPECT(c)                                                              \
  do                                                                           \
  {                                                                            \
    if (!(c))                                                                  \
    {                                                                          \
      std::cerr << "FAILED: " #c << std::endl;                                 \
      MPI_Abort(MPI_COMM_WORLD, 1);                                            \
    }                                                                          \
  } while (0)
