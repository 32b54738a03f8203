// Instantiates the header-only templates of the library so that the analyser
// sees their type-checked bodies. Never compiled to code and never run.
#include <mfmg/common/hierarchy.hpp>
#include <mfmg/common/lanczos.templates.hpp>
#include <mfmg/dealii/anasazi.templates.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/vector.h>

using DVector = dealii::LinearAlgebra::distributed::Vector<double>;
using SVector = dealii::Vector<double>;
using SMatrix = dealii::SparseMatrix<double>;

template class mfmg::Hierarchy<DVector>;
template class mfmg::Level<DVector>;
template class mfmg::HierarchyHelpers<DVector>;
template class mfmg::DeflatedOperator<SMatrix, SVector>;
template class mfmg::Lanczos<SMatrix, SVector>;
template class mfmg::MultiVector<SVector>;
template class Anasazi::MultiVecTraits<double, mfmg::MultiVector<SVector>>;
template class Anasazi::OperatorTraits<double, mfmg::MultiVector<SVector>, SMatrix>;

void mfmg_driver_use(std::vector<unsigned> a, std::vector<unsigned> b,
                     SMatrix const &m, boost::property_tree::ptree const &p,
                     std::vector<std::shared_ptr<SVector>> const &g)
{
  auto s = mfmg::sort_permutation(a, b);
  mfmg::apply_permutation_in_place(s, a);
  mfmg::AnasaziSolver<SMatrix, SVector> solver(m);
  solver.solve(p, g);
}
