"""Planted changes: which lines of the library each one edits, and what it needs to manifest."""
SEEDS = {}
def seed(sid, prop, needs, breaks, edits, np=1):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, np=np)

H = 'include/mfmg/common/hierarchy.hpp'
seed('s01', 'C01', 'the number of smoothing steps configured as zero (a legal value, e.g. to look at the coarse correction alone)',
     'the post-smoother runs once more than configured, so the cycle is no longer the symmetric one',
     {H: [("""      // apply post-smoother
      for (unsigned int i = 0; i < _n_smoothing_steps; ++i)
        smoother->apply(b, x);
""", """      // apply post-smoother
      unsigned int step = 0;
      do
      {
        smoother->apply(b, x);
      } while (++step < _n_smoothing_steps);
""")]})

SM = 'source/dealii/dealii_smoother.cc'
SMF = 'source/dealii/dealii_matrix_free_smoother.cc'
seed('s02', 'C04', 'a configuration that gives both the smoothing range and the largest eigenvalue of the Chebyshev smoother',
     'the largest eigenvalue is only looked at when no smoothing range is given, so that the smoother silently works with an estimate',
     {SMF: [("""      data.smoothing_range = *smoothing_range;
    }
    if (auto max_eigenvalue =
""", """      data.smoothing_range = *smoothing_range;
    }
    else if (auto max_eigenvalue =
""")]})

TO = 'source/dealii/dealii_trilinos_matrix_operator.cc'
seed('s03', 'C05', 'a square but unsymmetric matrix applied in transposed mode',
     'a square operator is taken to be symmetric: its transposed application multiplies by A instead of A^T',
     {TO: [("""  (mode == OperatorMode::NO_TRANS ? _sparse_matrix->vmult(y, x)
                                  : _sparse_matrix->Tvmult(y, x));
""", """  // for square operators the faster row-wise product will do
  bool const row_wise =
      mode == OperatorMode::NO_TRANS || _sparse_matrix->m() == _sparse_matrix->n();
  (row_wise ? _sparse_matrix->vmult(y, x) : _sparse_matrix->Tvmult(y, x));
""")]})

UH = 'include/mfmg/dealii/dealii_utils.hpp'
seed('s04', 'C06', 'an operator whose entries are between 1e-14 and 1e-7 in magnitude (a matter of units)',
     'the threshold meant for the magnitude of an entry is applied to its square, so that entries up to 1e-7 are dropped from A B^T',
     {UH: [("""        auto const value = dst[i];
        if (std::abs(value) > 1e-14) // is that an appropriate epsilon?
""", """        auto const value = dst[i];
        if (value * value > 1e-14) // is that an appropriate epsilon?
""")]})

CT = 'include/mfmg/common/amge.templates.hpp'
seed('s05', 'C07', 'agglomerates with different numbers of eigenvectors, in the version that also delivers the eigenvector matrices',
     'rows are numbered by agglomerate times its own eigenvector count, so eigenvectors land in the rows of other eigenvectors',
     {CT: [("""        // Fill eigenvector sparse matrix
        eigenvector_sparse_matrix->add(local_range.first + pos, global_pos,
""", """        // Fill eigenvector sparse matrix
        eigenvector_sparse_matrix->add(local_range.first + i * n_local_eig + k,
                                       global_pos,
""")]})

LA = 'include/mfmg/common/lanczos.templates.hpp'
AT = 'include/mfmg/dealii/anasazi_traits.hpp'
seed('s06', 'C26', 'a patch cell with two boundary faces that carry different boundary ids (a corner of a mesh whose sides are marked)',
     'only one boundary id per cell is remembered, so that all boundary faces of a corner cell get the id of the first one',
     {CT: [("""      for (auto &boundary_face : boundary.second)
        agg_cell->first->face(boundary_face.first)
            ->set_boundary_id(boundary_face.second);
""", """      for (auto &boundary_face : boundary.second)
        agg_cell->first->face(boundary_face.first)
            ->set_boundary_id(boundary.second.front().second);
""")]})

seed('s08', 'C25', 'a number of requested agglomerates for which the partitioner leaves some parts empty (47 on a 16x16 mesh)',
     'the number of agglomerates is taken from the request instead of the result, so that agglomerates without any cell are reported',
     {CT: [("""  _n_agglomerates = n_zoltan_agglomerates;

  return _n_agglomerates;
""", """  // there cannot be more agglomerates than cells
  _n_agglomerates = std::min(n_agglomerates, local_index);

  return _n_agglomerates;
""")]})

seed('s07', 'C15', 'a product where the second factor is an operator of another kind than the first',
     'the other factor is taken to be a Trilinos matrix without asking: the check that follows never fails and foreign memory is read',
     {TO: [("""DealIITrilinosMatrixOperator<VectorType>::multiply(
    std::shared_ptr<Operator<VectorType> const> b) const
{
  // Downcast to TrilinosMatrixOperator
  auto downcast_b =
      std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
          b);
""", """DealIITrilinosMatrixOperator<VectorType>::multiply(
    std::shared_ptr<Operator<VectorType> const> b) const
{
  // Products are only ever formed with a restrictor, which is a matrix
  auto downcast_b =
      std::static_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
          b);
""")]})

DO = 'include/mfmg/common/lanczos_deflatedop.templates.hpp'
seed('s09', 'C24', 'deflation vectors added in at least three batches',
     'vectors added later are made orthogonal only to the latest of the earlier ones, so that deflating no longer removes everything found before',
     {DO: [("""  auto vnew_start = vold_end;
""", """  // earlier batches have been deflated out of the operator already
  vold_start = vold_end - std::min(num_old, num_new);
  auto vnew_start = vold_end;
""")]})

seed('s10', 'C22', 'an operator that is not positive definite, solved by Lanczos in more than one deflated cycle',
     'the eigenpairs of several cycles are ordered by magnitude instead of value, unlike those of a single cycle',
     {LA: [("""              [&](int i, int j) { return evals[i] < evals[j]; });
""", """              [&](int i, int j) {
                return std::abs(evals[i]) < std::abs(evals[j]);
              });
""")]})

seed('s11', 'C28', 'a copy of a contiguous part of a multivector, followed by a change of the copy or of the original',
     'the copy of a range of columns shares its vectors with the original',
     {AT: [("""      *(*new_mv)[i] = *mv[index.lbound() + i];

    return new_mv;
  }

  static Teuchos::RCP<MultiVectorType>
  CloneViewNonConst(""", """      (*new_mv)[i] = mv[index.lbound() + i];

    return new_mv;
  }

  static Teuchos::RCP<MultiVectorType>
  CloneViewNonConst(""")]})

UC = 'source/common/utils.cc'
seed('s12', 'C17', 'an option whose value is the empty string',
     'options with an empty value are left out of the parameter list, so that the library falls back to its default',
     {UC: [("""      else
      {
        plist.set(item.first, item.second.data());
""", """      else if (!item.second.data().empty())
      {
        plist.set(item.first, item.second.data());
""")]})
