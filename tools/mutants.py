U = "include/mfmg/dealii/dealii_utils.hpp"
UC = "source/dealii/dealii_utils.cc"
MUTANTS = []


def m(id_, expect, checks, *edits, **kw):
    MUTANTS.append(dict(id=id_, expect=expect, checks=checks.split(), edits=list(edits), **kw))


m("c06-noabs", "bad", "C06", (U, "std::abs(value) > 1e-14", "value > 1e-14"))
m("c06-eps", "bad", "C06", (U, "> 1e-14)", "> 1e-4)"))
m("c06-cols", "bad", "C06", (U, "int const global_n_columns = B.m();", "int const global_n_columns = B.m() - 1;"))
m("c06-n", "bad", "C06", (U, "int const global_n_columns = B.m();", "int const global_n_columns = B.n();"))
m("c06-row", "bad", "C06", (U, "C->set(i, j, value)", "C->set(i, local_i, value)"))
m("c06-dst", "bad", "C06", (U, "auto const value = dst[i];", "auto const value = src[i];"))
m("c06-local", "bad", "C06", (U, "C->set(i, j, value)", "C->set(local_i, j, value)"))
m("c06-insert", "bad", "C06", (UC, "compress(dealii::VectorOperation::add)", "compress(dealii::VectorOperation::insert)"))
m("c06-grid", "bad", "C06", (UC, "auto const global_index = matrix.trilinos_matrix().GCID", "auto const global_index = matrix.trilinos_matrix().GRID"))
m("c06-k", "bad", "C06", (UC, "= values[k]", "= values[0]"))
m("c06-dom", "bad", "C06", (UC, "matrix.locally_owned_range_indices().index_within_set", "matrix.locally_owned_domain_indices().index_within_set"))
m("c06-last", "bad", "C06", (UC, "k < num_entries; ++k)\n  {\n    auto const", "k < num_entries - 1; ++k)\n  {\n    auto const"))
m("c06-q1", "quiet", "C06", (U, """    for (int i = 0; i < global_n_rows; ++i)
    {
      auto const local_i = index_set.index_within_set(i);
      if (local_i != dealii::numbers::invalid_dof_index)
      {""", """    for (auto const i : index_set)
    {
      {"""))
m("c06-q2", "quiet", "C06", (U, """      auto const local_i = index_set.index_within_set(i);
      if (local_i != dealii::numbers::invalid_dof_index)
      {""", """      if (!index_set.is_element(i))
        continue;
      {"""))
m("c06-q3", "quiet", "C06", (U, "if (std::abs(value) > 1e-14)", "bool const keep = !(value >= -1e-14 && value <= 1e-14);\n        if (keep)"))
m("c06-q4", "quiet", "C06", (UC, """  for (int k = 0; k < num_entries; ++k)
  {
    auto const global_index""", """  int k = 0;
  while (k < num_entries)
  {
    auto const global_index"""), (UC, "ghosted_vector[global_index] = values[k];", "ghosted_vector[global_index] += values[k];\n    ++k;"))
m("c06-q5", "quiet", "C06", (U, "C->set(i, j, value);", "dealii::types::global_dof_index const row = i;\n          C->set(row, static_cast<unsigned int>(j), value);"))
A = "include/mfmg/common/amge.templates.hpp"
m("c07-nodiv", "bad", "C07", (A, "diag_elements[i][j] / locally_relevant_global_diag[global_pos] *\n                eigenvectors[pos][j]);\n      }", "diag_elements[i][j] *\n                eigenvectors[pos][j]);\n      }"))
m("c07-posk", "bad", "C07", (A, "restriction_sparse_matrix->add(\n            local_range.first + pos,", "restriction_sparse_matrix->add(\n            local_range.first + k,"))
m("c07-evi", "bad", "C07", (A, "eigenvector_sparse_matrix->add(local_range.first + pos, global_pos,\n                                       eigenvectors[pos][j])", "eigenvector_sparse_matrix->add(local_range.first + pos, global_pos,\n                                       eigenvectors[k][j])"))
m("c07-first", "bad", "C07", (A, "restriction_sparse_matrix.add(\n            local_range.first + pos", "restriction_sparse_matrix.add(\n            pos"))
m("c07-d", "bad", "C07", (A, "(diag_elements[i][j] / locally_relevant_global_diag[global_pos] -\n             1.) *", "(1. - diag_elements[i][j] / locally_relevant_global_diag[global_pos]) *"))
m("c07-before", "bad", "C07", (A, "n_rows_per_proc.begin() + rank,", "n_rows_per_proc.begin() + rank + 1,"))
m("c07-posinc", "bad", "C07", (A, "      }\n      ++pos;\n    }\n  }\n\n  // Compress the matrix\n", "      }\n    }\n    ++pos;\n  }\n\n  // Compress the matrix\n"))
m("c07-spn", "bad", "C07", (A, "dof_indices_maps[i].begin(),\n                     dof_indices_maps[i].end());", "dof_indices_maps[i].begin(),\n                     dof_indices_maps[i].end() - 1);"))
m("c07-skip", "bad", "C07", (A, "        restriction_sparse_matrix.add(\n", "        if (diag_elements[i][j] < locally_relevant_global_diag[global_pos])\n        restriction_sparse_matrix.add(\n"))
m("c07-agg1", "bad", "C07", (A, "diag_elements[i][j] / locally_relevant_global_diag[global_pos] *\n                eigenvectors[pos][j]);\n      }", "diag_elements[0][j] / locally_relevant_global_diag[global_pos] *\n                eigenvectors[pos][j]);\n      }"))
m("c07-gdj", "bad", "C07", (A, "locally_relevant_global_diag[global_pos] *", "locally_relevant_global_diag[j] *"))
m("c07-send", "bad", "C07", (A, "n_rows_per_proc[rank] = n_local_rows;", "n_rows_per_proc[rank] = n_local_eigenvectors.size();"))
m("c07-q1", "quiet", "C07", (A, "restriction_sparse_matrix.reinit(restriction_sp);\n  std::pair", "restriction_sparse_matrix.reinit(restriction_sp);\n  auto weight = [&](unsigned int a, unsigned int e) { return diag_elements[a][e] / locally_relevant_global_diag[dof_indices_maps[a][e]]; };\n  std::pair"),
  (A, "diag_elements[i][j] / locally_relevant_global_diag[global_pos] *\n                eigenvectors[pos][j]);\n      }\n      ++pos", "weight(i, j) *\n                eigenvectors[pos][j]);\n      }\n      ++pos"))
m("c07-q2", "quiet", "C07", (A, """        delta_eigenvector_matrix->set(
            local_range.first + pos, global_pos,
            (diag_elements[i][j] / locally_relevant_global_diag[global_pos] -
             1.) *
                eigenvectors[pos][j]);""", """        auto const r = eigenvectors[pos][j] * diag_elements[i][j] / locally_relevant_global_diag[global_pos];
        delta_eigenvector_matrix->set(
            local_range.first + pos, global_pos, r - eigenvectors[pos][j]);"""))
m("c07-q3", "quiet", "C07", (A, """  unsigned int pos = 0;
  ASSERT(n_agglomerates == dof_indices_maps.size(),
         "dof_indices_maps has the wrong size: " +
             std::to_string(dof_indices_maps.size()) + " instead of " +
             std::to_string(n_agglomerates));
  for (unsigned int i = 0; i < n_agglomerates; ++i)
  {
    unsigned int const n_local_eig = n_local_eigenvectors[i];
    for (unsigned int k = 0; k < n_local_eig; ++k)
    {
""", """  unsigned int first = 0;
  for (unsigned int i = 0; i < n_agglomerates; first += n_local_eigenvectors[i], ++i)
  {
    for (unsigned int pos = first; pos < first + n_local_eigenvectors[i]; ++pos)
    {
"""), (A, "                eigenvectors[pos][j]);\n      }\n      ++pos;", "                eigenvectors[pos][j]);\n      }"))
m("c07-q4", "quiet", "C07", (A, """      sp.add_entries(n_rows_before + row, dof_indices_maps[i].begin(),
                     dof_indices_maps[i].end());""", "      for (auto const c : dof_indices_maps[i]) sp.add(n_rows_before + row, c);"))
m("c07-q5", "quiet", "C07", (A, "unsigned int const n_elem = eigenvectors[pos].size();\n", "auto const &ev = eigenvectors[pos];\n auto const &dg = diag_elements[i];\n      unsigned int const n_elem = dof_indices_maps[i].size();\n"),
  (A, "diag_elements[i][j] / locally_relevant_global_diag[global_pos] *\n                eigenvectors[pos][j]);", "(dg[j] / locally_relevant_global_diag(global_pos)) * ev(j));"))

m("c01-do-guarded", "quiet", "C01", ("include/mfmg/common/hierarchy.hpp", """      // apply post-smoother
      for (unsigned int i = 0; i < _n_smoothing_steps; ++i)
        smoother->apply(b, x);
""", """      // apply post-smoother
      if (_n_smoothing_steps > 0)
      {
        unsigned int step = 0;
        do
        {
          smoother->apply(b, x);
        } while (++step < _n_smoothing_steps);
      }
"""))

DH = "source/dealii/dealii_hierarchy_helpers.cc"
MH = "source/dealii/dealii_matrix_free_hierarchy_helpers.cc"
m("c08-halo-d-only", "bad", "C08", (DH, "                                                   dof_indices_map[k]) +\n                      eigenvector_matrix->el(global_row, dof_indices_map[k]);", "                                                   dof_indices_map[k]);"))
m("c08-flag-inverted", "bad", "C08", (DH, "if (is_halo_agglomerate)", "if (!is_halo_agglomerate)"))
m("c08-row-no-offset", "bad", "C08", (DH, "local_row = i * n_local_eigenvectors + j", "local_row = i + j * interior_agglomerates.size()"))
m("c08-not-transposed", "bad", "C08", (DH, "bool const transpose = true;", "bool const transpose = false;"))
m("c08-maps", "bad", "C08", (DH, "ap->FillComplete(domain_map, range_map)", "ap->FillComplete(range_map, domain_map)"))
m("c08-onepatch", "bad", "C08", (DH, "{interior_agglomerates, halo_agglomerates})", "{interior_agglomerates})"))
m("c08-scale-wrong", "bad", "C08", (DH, "std::iota(local_indices.begin(), local_indices.end(), range_start);", "std::iota(local_indices.begin(), local_indices.end(), range_start + 1);"))
m("c08-lastcol", "bad", "C08", (DH, "local_copy_data.rows[i], local_copy_data.cols.size(),", "local_copy_data.rows[i], local_copy_data.cols.size() - 1,"))
m("c08-mf-halo", "bad", "C08", (MH, "is_halo_agglomerate = true;", "is_halo_agglomerate = !amge.build_boundary_agglomerates().first.empty() && false;"))
m("c08-q-weight", "bad", "C08", (DH, "delta_correction_matrix.trilinos_matrix(), transpose, 1., ap", "delta_correction_matrix.trilinos_matrix(), transpose, -1., ap"))
m("c08-q-swap-add", "quiet", "C08", (DH, """        eigenvector_matrix->trilinos_matrix(), transpose, 1.,
        delta_correction_matrix.trilinos_matrix(), transpose, 1., ap);""", """        delta_correction_matrix.trilinos_matrix(), true, 1.,
        eigenvector_matrix->trilinos_matrix(), true, 1., ap);"""))
m("c08-q-row", "quiet", "C08", (DH, """                  eigenvector_matrix->locally_owned_range_indices()
                      .nth_index_in_set(local_row);""", """                  eigenvector_matrix->local_range().first + local_row;"""))
m("c08-q-loop", "quiet", "C08", (DH, """              std::transform(correction.begin(), correction.end(),
                             local_copy_data.values_per_row[j].begin(),
                             local_copy_data.values_per_row[j].begin(),
                             std::plus<double>());""", """              for (unsigned int k = 0; k < n_elem; ++k)
                local_copy_data.values_per_row[j][k] += correction[k];"""))
m("c08-q-assign", "quiet", "C08", (DH, """              std::transform(correction.begin(), correction.end(),
                             local_copy_data.values_per_row[j].begin(),
                             local_copy_data.values_per_row[j].begin(),
                             std::plus<double>());""", """              std::copy(correction.begin(), correction.end(),
                             local_copy_data.values_per_row[j].begin());"""),
  (DH, """            std::fill(local_copy_data.values_per_row.begin(),
                      local_copy_data.values_per_row.end(),
                      std::vector<dealii::TrilinosScalar>(n_elem));""", """            for (auto &values : local_copy_data.values_per_row)
              values.assign(n_elem, 0.);"""))
m("c08-q-delta", "quiet", "C08", (DH, """              if (is_halo_agglomerate)
              {
                for (unsigned int k = 0; k < n_elem; ++k)
                {
                  delta_eig[k] =
                      delta_eigenvector_matrix->el(global_row,
                                                   dof_indices_map[k]) +
                      eigenvector_matrix->el(global_row, dof_indices_map[k]);
                }
              }
              else
              {
                for (unsigned int k = 0; k < n_elem; ++k)
                {
                  delta_eig[k] = delta_eigenvector_matrix->el(
                      global_row, dof_indices_map[k]);
                }
              }""", """              unsigned int k = 0;
              for (auto const index : dof_indices_map)
              {
                delta_eig[k] = delta_eigenvector_matrix->el(global_row, index);
                if (is_halo_agglomerate)
                  delta_eig[k] += eigenvector_matrix->el(global_row, index);
                ++k;
              }"""))
m("c08-q-eigmat-R", "quiet", "C08", (DH, """                  delta_eig[k] =
                      delta_eigenvector_matrix->el(global_row,
                                                   dof_indices_map[k]) +
                      eigenvector_matrix->el(global_row, dof_indices_map[k]);""", """                  delta_eig[k] = restrictor_matrix->el(global_row, dof_indices_map[k]);"""))

AH = "include/mfmg/dealii/amge_host.templates.hpp"
m("c09-ids-from-zero", "bad", "C09", (AH, "std::iota(agglomerate_ids.begin(), agglomerate_ids.end(), 1);", "std::iota(agglomerate_ids.begin(), agglomerate_ids.end(), 0);"))
m("c09-twice", "bad", "C09", (AH, "  diag_elements.push_back(copy_data.diag_elements);", "  diag_elements.push_back(copy_data.diag_elements);\n  if (copy_data.local_eigenvectors.size() > 1)\n    n_local_eigenvectors.push_back(copy_data.local_eigenvectors.size());"))
m("c09-skip-empty", "bad", "C09", (AH, "  dof_indices_maps.push_back(copy_data.local_dof_indices_map);", "  if (dof_indices_maps.empty() || dof_indices_maps.back() != copy_data.local_dof_indices_map)\n    dof_indices_maps.push_back(copy_data.local_dof_indices_map);"))
m("c09-count-eigvals", "bad", "C09", (AH, "n_local_eigenvectors.push_back(copy_data.local_eigenvectors.size());", "n_local_eigenvectors.push_back(copy_data.local_eigenvectors.size() - 1);"))
m("c09-front", "bad", "C09", (AH, "eigenvectors.insert(eigenvectors.end(), copy_data", "eigenvectors.insert(eigenvectors.begin(), copy_data"))
m("c09-abs", "bad", "C09", (AH, "return z.real();", "return z.imag();"))
m("c09-lessones", "bad", "C09", (AH, "WorkStream::run(\n      agglomerate_ids.begin(), agglomerate_ids.end(),", "WorkStream::run(\n      agglomerate_ids.begin() + 1, agglomerate_ids.end(),"))
m("c09-q-loop", "quiet", "C09", (AH, """  eigenvectors.insert(eigenvectors.end(), copy_data.local_eigenvectors.begin(),
                      copy_data.local_eigenvectors.end());
""", """  for (auto const &v : copy_data.local_eigenvectors)
    eigenvectors.push_back(v);
"""))
m("c09-q-eig", "quiet", "C09", (AH, """  std::transform(copy_data.local_eigenvalues.begin(),
                 copy_data.local_eigenvalues.end(),
                 std::back_inserter(eigenvalues),
                 [](std::complex<double> const &z) { return z.real(); });""", """  eigenvalues.reserve(eigenvalues.size() + copy_data.local_eigenvalues.size());
  for (unsigned int i = 0; i < copy_data.local_eigenvalues.size(); ++i)
    eigenvalues.emplace_back(std::real(copy_data.local_eigenvalues[i]));"""))
m("c09-q-ids", "quiet", "C09", (AH, """  std::iota(agglomerate_ids.begin(), agglomerate_ids.end(), 1);""", """  for (unsigned int i = 0; i < n_agglomerates; ++i)
    agglomerate_ids[i] = i + 1;"""))

CT = "include/mfmg/common/amge.templates.hpp"
HI = "include/mfmg/common/hierarchy.hpp"
m("c10-sp", "bad", "C10", (CT, "  sp.compress();\n", "  if (n_agglomerates > 0)\n    sp.compress();\n"))
m("c10-eig", "bad", "C10", (DH, "    vector_eigenvalues.compress(dealii::VectorOperation::insert);", "    if (!eigenvalues.empty())\n      vector_eigenvalues.compress(dealii::VectorOperation::insert);"))
m("c10-range", "bad", "C10", (MH, "    delta_correction_matrix.compress(dealii::VectorOperation::insert);", "    if (!interior_agglomerates.empty())\n      delta_correction_matrix.compress(dealii::VectorOperation::insert);"))
m("c10-apply", "bad", "C10", (U, "    A.apply(src, dst);\n", "    if (B.locally_owned_range_indices().is_element(j))\n      A.apply(src, dst);\n"))
m("c10-loop", "bad", "C10", (U, "  for (int j = 0; j < global_n_columns; ++j)\n  {\n    auto const src", "  for (int j : j_indices)\n  {\n    auto const src"))
m("c10-extract", "bad", "C10", (UC, "  ghosted_vector.compress(dealii::VectorOperation::add);", "  if (num_entries > 0)\n    ghosted_vector.compress(dealii::VectorOperation::add);"))
m("c10-early", "bad", "C10", (UC, "  dealii::IndexSet ghost_indices(", "  if (local_j == dealii::numbers::invalid_dof_index)\n    return dealii::LinearAlgebra::distributed::Vector<double>();\n\n  dealii::IndexSet ghost_indices("))
m("c10-in-worker", "bad", "C10", (DH, "            unsigned int const i = agglomerate_it - agglomerates_vector.begin();", "            delta_correction_matrix.compress(dealii::VectorOperation::insert);\n            unsigned int const i = agglomerate_it - agglomerates_vector.begin();"))
m("c10-rank", "bad", "C10", (CT, "  MPI_Allgather(", "  if (n_procs > 1 && rank < n_procs)\n  MPI_Allgather("))
m("c10-q-procs", "quiet", "C10", (CT, "  MPI_Allgather(", "  if (n_procs > 1)\n  MPI_Allgather("))
m("c10-q-both", "quiet", "C10", (UC, "  ghosted_vector.compress(dealii::VectorOperation::add);", "  if (num_entries > 0)\n    ghosted_vector.compress(dealii::VectorOperation::add);\n  else\n    ghosted_vector.compress(dealii::VectorOperation::add);"))
m("c10-q-loop", "quiet", "C10", (U, "  for (int j = 0; j < global_n_columns; ++j)\n  {\n    auto const src", "  int j = -1;\n  while (++j < global_n_columns)\n  {\n    auto const src"))

EC = "source/dealii/dealii_mesh_evaluator.cc"
LA = "include/mfmg/common/lanczos.templates.hpp"
AT = "include/mfmg/dealii/anasazi_traits.hpp"
m("c11-outer-copy", "bad", "C11", (AH, """        this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,
                           local_scratch_data, local_copy_data);""", """        this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,
                           scratch_data, local_copy_data);"""))
m("c11-noclone", "bad", "C11", (AH, ": _mesh_evaluator(mesh_evaluator.clone()), _dof_handler(dof_handler),", ": _mesh_evaluator(&mesh_evaluator), _dof_handler(dof_handler),"),
  (AH, "  std::unique_ptr<MeshEvaluator const> const _mesh_evaluator;", "  MeshEvaluator const *const _mesh_evaluator;"))
m("c11-static", "bad", "C11 C13", (EC, "  std::default_random_engine generator;", "  static std::default_random_engine generator;"))
m("c11-hoist", "bad", "C11", (DH, "      auto worker =\n", "      dealii::SparseMatrix<ScalarType> agglomerate_system_matrix;\n      auto worker =\n"), (DH, "            dealii::SparseMatrix<ScalarType> agglomerate_system_matrix;\n", ""))
m("c11-read", "bad", "C11", (AH, "        this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,", "        local_copy_data.local_eigenvectors.reserve(eigenvectors.size());\n        this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,"))
m("c11-worker-adds", "bad", "C11", (MH, "          local_copy_data.rows[j] = global_row;", "              local_copy_data.rows[j] = global_row;\n          delta_correction_acc[std::make_pair(global_row, j)] = 1.;"))
m("c11-q-local", "quiet", "C11", (AH, "        this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,", "        auto const id = *agg_id;\n        std::vector<unsigned int> ids(1, id);\n        ids[0] += 0;\n        this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,"))
m("c12-clear", "bad", "C12", (DH, "              local_copy_data.rows.clear();\n", ""))
m("c12-clearcols", "bad", "C12", (MH, "          local_copy_data.rows.clear();\n", "          local_copy_data.cols.clear();\n"))
m("c12-fill", "bad", "C12", (DH, """            std::fill(local_copy_data.values_per_row.begin(),
                      local_copy_data.values_per_row.end(),
                      std::vector<dealii::TrilinosScalar>(n_elem));
""", """            for (auto &row : local_copy_data.values_per_row)
              row.resize(n_elem);
"""))
m("c12-early", "bad", "C12", (AH, "  std::tie(copy_data.local_eigenvalues, copy_data.local_eigenvectors,", "  if (agglomerate_to_global_tria_map.empty())\n    return;\n\n  std::tie(copy_data.local_eigenvalues, copy_data.local_eigenvectors,"))
m("c12-map", "bad", "C12", (AH, """           copy_data.diag_elements, copy_data.local_dof_indices_map) =
      compute_local_eigenvectors(
          n_eigenvectors, tolerance, agglomerate_triangulation,
          agglomerate_to_global_tria_map, evaluator, scratch_data);
""", """           copy_data.diag_elements, std::ignore) =
      compute_local_eigenvectors(
          n_eigenvectors, tolerance, agglomerate_triangulation,
          agglomerate_to_global_tria_map, evaluator, scratch_data);
"""))
m("c12-q-flag", "quiet", "C12", (DH, "        std::vector<dealii::types::global_dof_index> rows;\n        std::vector", "        bool empty = true;\n        std::vector<dealii::types::global_dof_index> rows;\n        std::vector"),
  (DH, "              local_copy_data.rows.clear();\n              return;\n            }\n", "              local_copy_data.empty = true;\n              return;\n            }\n            local_copy_data.empty = false;\n"),
  (DH, "        for (unsigned int i = 0; i < local_copy_data.rows.size(); ++i)", "        if (local_copy_data.empty)\n          return;\n        for (unsigned int i = 0; i < local_copy_data.rows.size(); ++i)"))
m("c12-q-fresh", "quiet", "C12", (MH, "          local_copy_data.rows.clear();\n", "          local_copy_data = CopyData();\n"))
m("c13-rd", "bad", "C13", (LA, "  std::mt19937 gen(seed);", "  std::mt19937 gen(std::random_device{}());", ), )
m("c13-addr", "bad", "C13", (AT, "std::mt19937 gen(1337)", "static std::mt19937 gen(1337)"))
m("c13-rank", "bad", "C13", (CT, "Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);", "Zoltan_Srand(ZOLTAN_RAND_INIT + dealii::Utilities::MPI::this_mpi_process(_comm), NULL);"))
m("c13-noseed", "bad", "C13", (CT, "    Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);", "    if (_n_agglomerates == 0)\n      Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);"))
m("c13-metis", "bad", "C13", (CT, "    Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);", "    if (partitioner_type == \"metis\")\n      Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);"))
m("c13-unord", "bad", "C13", (CT, "  _n_agglomerates = n_zoltan_agglomerates;", "  n_zoltan_agglomerates = 0;\n  for (auto &entry : agglomerate_renumbering)\n    entry.second = ++n_zoltan_agglomerates;\n  _n_agglomerates = n_zoltan_agglomerates;"))
m("c13-q-seed", "quiet", "C13", (CT, "    Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);", "    unsigned int const seed = ZOLTAN_RAND_INIT;\n    Zoltan_Srand(seed, NULL);"))
m("c13-q-inline", "quiet", "C13", (CT, "    Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);", "    if (partitioner_type == \"zoltan\" || partitioner_type != \"block\")\n      Zoltan_Srand(ZOLTAN_RAND_INIT, NULL);"))
SM = "source/dealii/dealii_smoother.cc"
m("c04-small2", "bad", "C04", (SM, "  r.add(-1., b);\n", "  r.add(-1., b);\n  if (r.l2_norm() < 1e-20)\n    return;\n"))
m("c04-q-zero", "quiet", "C04", (SM, "  r.add(-1., b);\n", "  r.add(-1., b);\n  if (r.l2_norm() == 0.)\n    return;\n"))
m("c04-q-zero2", "quiet", "C04", (SM, "  r.add(-1., b);\n", "  r.add(-1., b);\n  if (!(r.linfty_norm() > 0.))\n    return;\n"))
SO = "source/dealii/dealii_solver.cc"
HH = "include/mfmg/common/hierarchy.hpp"
TO = "source/dealii/dealii_trilinos_matrix_operator.cc"
MO = "source/dealii/dealii_matrix_free_operator.cc"
AZ = "include/mfmg/dealii/anasazi.templates.hpp"
UT = "source/dealii/dealii_utils.cc"
m("c14-fallback", "bad", "C14", (SM, '''    ASSERT_THROW(false, "Unknown smoother name: \\"" + prec_name + "\\"");''', '''    _smoother.reset(new dealii::TrilinosWrappers::PreconditionSSOR());
    static_cast<dealii::TrilinosWrappers::PreconditionSSOR *>(_smoother.get())
        ->initialize(*sparse_matrix);'''))
m("c14-debugonly", "bad", "C14", (SO, '''      ASSERT_THROW(false,
''', '''      ASSERT(false,
'''))
m("c14-case", "bad", "C14", (SO, '''  if (coarse_type_lower == "direct")''', '''  if (coarse_type == "direct")'''))
m("c14-dim", "bad", "C14", (HH, '''    else if (dim == 3)
      hierarchy_helpers.reset(new DealIIHierarchyHelpers<3, VectorType>());
    else
      ASSERT_THROW_NOT_IMPLEMENTED();''', '''    else
      hierarchy_helpers.reset(new DealIIHierarchyHelpers<3, VectorType>());'''))
m("c14-metis", "bad", "C14", (CT, '''  if (partitioner_type == "metis")
    partitioner =''', '''  if (partitioner_type == "Metis")
    partitioner ='''))
m("c14-swap", "bad", "C14", (SM, '''  else if (prec_name == "gauss-seidel")''', '''  else if (prec_name == "jacobi")'''), (SM, '''  else if (prec_name == "jacobi")
  {
    _smoother.reset(new dealii::TrilinosWrappers::PreconditionJacobi''', '''  else if (prec_name == "gauss-seidel")
  {
    _smoother.reset(new dealii::TrilinosWrappers::PreconditionJacobi'''))
m("c14-q-early", "quiet", "C14", (SM, '''  if (prec_name == "symmetric gauss-seidel")
''', '''  bool const known = prec_name == "symmetric gauss-seidel" || prec_name == "gauss-seidel" || prec_name == "jacobi" || prec_name == "ilu";
  if (!known)
    throw std::runtime_error("unknown smoother " + prec_name);
  if (prec_name == "symmetric gauss-seidel")
'''))
m("c14-q-switch", "quiet", "C14", (HH, '''    if (dim == 2)
      hierarchy_helpers.reset(new DealIIHierarchyHelpers<2, VectorType>());
    else if (dim == 3)
      hierarchy_helpers.reset(new DealIIHierarchyHelpers<3, VectorType>());
    else
      ASSERT_THROW_NOT_IMPLEMENTED();''', '''    switch (dim)
    {
    case 2:
      hierarchy_helpers.reset(new DealIIHierarchyHelpers<2, VectorType>());
      break;
    case 3:
      hierarchy_helpers.reset(new DealIIHierarchyHelpers<3, VectorType>());
      break;
    default:
      ASSERT_THROW_NOT_IMPLEMENTED();
    }'''))
m("c15-debug", "bad", "C15", (TO, '''  ASSERT_THROW(downcast_b != nullptr,
               "The operator must be a DealIITrilinosMatrixOperator");

  auto a_mat''', '''  ASSERT(downcast_b != nullptr,
               "The operator must be a DealIITrilinosMatrixOperator");

  auto a_mat'''))
m("c15-late", "bad", "C15", (MO, '''  ASSERT_THROW(downcast_b != nullptr,
               "The operator must be a DealIITrilinosMatrixOperator");

  auto tmp = this->build_range_vector();
  auto b_mat = downcast_b->get_matrix();
''', '''  auto tmp = this->build_range_vector();
  auto b_mat = downcast_b->get_matrix();
  ASSERT_THROW(downcast_b != nullptr,
               "The operator must be a DealIITrilinosMatrixOperator");
'''))
m("c15-static", "bad", "C15", (SM, '''std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(''', '''std::static_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>('''))
m("c15-silent", "bad", "C15", (DH, '''  ASSERT_THROW(dealii_mesh_evaluator != nullptr, "downcasting failed");

  auto system_matrix =''', '''  if (dealii_mesh_evaluator == nullptr)
    return nullptr;

  auto system_matrix ='''))
m("c15-q-throw", "quiet", "C15", (TO, '''  ASSERT_THROW(downcast_b != nullptr,
               "The operator must be a DealIITrilinosMatrixOperator");

  auto a_mat''', '''  if (!downcast_b)
    throw std::invalid_argument("The operator must be a DealIITrilinosMatrixOperator");

  auto a_mat'''))
m("c15-q-ref", "quiet", "C15", (TO, '''  // Downcast to TrilinosMatrixOperator
  auto downcast_b =
      std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
          b);
  ASSERT_THROW(downcast_b != nullptr,
               "The operator must be a DealIITrilinosMatrixOperator");

  auto a_mat = this->get_matrix();
  auto b_mat = downcast_b->get_matrix();
''', '''  auto const &downcast_b = dynamic_cast<DealIITrilinosMatrixOperator<VectorType> const &>(*b);
  auto a_mat = this->get_matrix();
  auto b_mat = downcast_b.get_matrix();
'''))
m("c16-drop", "bad", "C16", (TO, '''  ASSERT(error_code == 0, "EpetraExt::MatrixMatrix::Multiply() returned "
                          "non-zero error code in "
                          "DealIITrilinosMatrixOperator::multiply_transpose()");
''', "  (void)error_code;\n"))
m("c16-cond", "bad", "C16", (UT, '''    ASSERT(error_code == 0,''', '''    if (num_entries > 0)
      ASSERT(error_code == 0,'''))
m("c16-polarity", "bad", "C16", (UT, '''  ASSERT(rv == 0, "EpetraExt::RowMatrixToMatrixMarketFile return value is " +
                      std::to_string(rv));
}

void matrix_market_output_file(std::string const &filename,
                               dealii''', '''  ASSERT(rv, "EpetraExt::RowMatrixToMatrixMarketFile return value is " +
                      std::to_string(rv));
}

void matrix_market_output_file(std::string const &filename,
                               dealii'''))
m("c16-q-throw", "quiet", "C16", (UT, '''    ASSERT(error_code == 0,
           "Non-zero error code (" + std::to_string(error_code) +
               ") returned by Epetra_CrsMatrix::ExtractMyRowView()");''', '''    if (error_code != 0)
      throw std::runtime_error("Non-zero error code returned by Epetra_CrsMatrix::ExtractMyRowView()");'''))
UTC = "source/common/utils.cc"
INTB = '''      if (auto const int_value = item.second.get_value_optional<int>())
      {
        plist.set(item.first, *int_value);
      }
      else if (auto const double_value =
                   item.second.get_value_optional<double>())
      {
        plist.set(item.first, *double_value);
      }
'''
m("c17-double", "bad", "C17", (UTC, INTB, '''      if (auto const double_value = item.second.get_value_optional<double>())
      {
        plist.set(item.first, *double_value);
      }
      else if (auto const int_value = item.second.get_value_optional<int>())
      {
        plist.set(item.first, *int_value);
      }
'''))
m("c17-bool", "bad", "C17", (UTC, "      if (auto const int_value = item", '''      if (auto const flag = item.second.get_value_optional<bool>())
      {
        plist.set(item.first, *flag);
      }
      else if (auto const int_value = item'''))
m("c17-float", "bad", "C17", (UTC, "get_value_optional<double>", "get_value_optional<float>"))
m("c17-cast", "bad", "C17", (UTC, "plist.set(item.first, *bool_value)", "plist.set(item.first, static_cast<int>(*bool_value))"))
m("c17-skip", "bad", "C17", (UTC, '''      else
      {
        plist.set(item.first, item.second.data());''', '''      else if (!item.second.data().empty())
      {
        plist.set(item.first, item.second.data());'''))
m("c17-flat", "bad", "C17", (UTC, "ptree2plist_internal(item.second, plist.sublist(item.first));", '''plist.sublist(item.first);
      ptree2plist_internal(item.second, plist);'''))
m("c17-keep", "bad", "C17", (UTC, '''  plist = Teuchos::ParameterList();
  if (ptree.empty())''', '''  if (ptree.empty())'''))
m("c17-break", "bad", "C17", (UTC, "    bool child_is_sublist = !item.second.empty();", '''    if (item.first.empty())
      break;
    bool child_is_sublist = !item.second.empty();'''))
m("c17-q-iter", "quiet", "C17", (UTC, "  for (auto const &item : node)\n  {", '''  for (auto it = node.begin(); it != node.end(); ++it)
  {
    auto const &item = *it;'''))
m("c17-q-cont", "quiet", "C17", (UTC, '''      ptree2plist_internal(item.second, plist.sublist(item.first));
    }
    else
    {''', '''      auto &sub = plist.sublist(item.first);
      ptree2plist_internal(item.second, sub);
      continue;
    }
    {'''))
m("c17-q-leaf", "quiet", "C17", (UTC, "static void ptree2plist_internal(", '''static void set_leaf(Teuchos::ParameterList &l, std::string const &name, boost::property_tree::ptree const &v)
{
  auto const i = v.get_value_optional<int>();
  if (i)
  {
    l.set(name, i.get());
    return;
  }
  auto const d = v.get_value_optional<double>();
  if (d)
  {
    l.set<double>(name, d.value());
    return;
  }
  if (auto const b = v.get_value_optional<bool>())
    l.set(name, *b);
  else
    l.set(name, v.get_value<std::string>());
}

static void ptree2plist_internal('''), (UTC, '''      if (auto const int_value = item.second.get_value_optional<int>())
      {
        plist.set(item.first, *int_value);
      }
      else if (auto const double_value =
                   item.second.get_value_optional<double>())
      {
        plist.set(item.first, *double_value);
      }
      else if (auto const bool_value = item.second.get_value_optional<bool>())
      {
        plist.set(item.first, *bool_value);
      }
      else
      {
        plist.set(item.first, item.second.data());
      }
''', "      set_leaf(plist, item.first, item.second);\n"))

# -- C28
m("c28-clone-range", "bad", "C28", (AT, """      *(*new_mv)[i] = *mv[index.lbound() + i];

    return new_mv;
  }

  static Teuchos::RCP<MultiVectorType>
  CloneViewNonConst(""", """      (*new_mv)[i] = mv[index.lbound() + i];

    return new_mv;
  }

  static Teuchos::RCP<MultiVectorType>
  CloneViewNonConst("""))
m("c28-timesmat-beta", "bad", "C28", (AT, "      *mv[j] *= beta;\n", "      if (n_vectors > 0)\n        *mv[j] *= beta;\n"))
m("c28-timesmat-idx", "bad", "C28", (AT, "alpha * B(k, j)", "alpha * B(j, k)"))
m("c28-timesmat-range", "bad", "C28", (AT, "for (int j = 0; j < B.numCols(); j++)", "for (int j = 0; j < B.numRows(); j++)"))
m("c28-transmv", "bad", "C28", (AT, "        C(i, j) = alpha * (*A[i] * *B[j]);", "        C(i, j) = (i < B.n_vectors() ? alpha * (*A[i] * *B[j]) : 0.);"))
m("c28-dot", "bad", "C28", (AT, "      b[i] = *mv[i] * *A[i];", "      b[i] = *A[i] * *A[i];"))
m("c28-setblock", "bad", "C28", (AT, "      *mv[index.lbound() + i] = *A[i];", "      mv[index.lbound() + i] = A[i];"))
m("c28-setblock2", "bad", "C28", (AT, "      *mv[index[i]] = *A[i];", "      *mv[i] = *A[index[i]];"))
m("c28-alias", "bad", "C28", (AT, """      VectorType sum(*A[i]);
      sum.sadd(alpha, beta, *B[i]);
      *mv[i] = sum;
""", """      *mv[i] = *A[i];
      mv[i]->sadd(alpha, beta, *B[i]);
"""))
m("c28-scale", "bad", "C28", (AT, "      *mv[i] *= alpha[i];", "      *mv[i] *= alpha[n_vectors - 1 - i];"))
m("c28-norm", "bad", "C28", (AT, "(*mv[i]).l2_norm()", "(*mv[i]).l1_norm()"))
m("c28-view", "bad", "C28", (AT, """  CloneView(MultiVectorType &mv, const Teuchos::Range1D &index)
  {
    auto n_vectors = index.size();

    auto new_mv = Teuchos::rcp(new MultiVectorType(n_vectors));
    for (int i = 0; i < n_vectors; i++)
      (*new_mv)[i] = mv[index.lbound() + i];
""", """  CloneView(MultiVectorType &mv, const Teuchos::Range1D &index)
  {
    auto n_vectors = index.size();

    auto new_mv = Teuchos::rcp(new MultiVectorType(n_vectors));
    for (int i = 0; i < n_vectors; i++)
      (*new_mv)[i] = mv[i];
"""))
m("c28-opapply", "bad", "C28", (AT, "    for (int i = 0; i < n_vectors; i++)\n      op.vmult(*y[i], *x[i]);", "    for (int i = 0; i < n_vectors; i++)\n      op.vmult_add(*y[i], *x[i]);"))
m("c28-q-range", "quiet", "C28", (AT, """    for (int i = 0; i < n_vectors; i++)
      *(*new_mv)[i] = *mv[index.lbound() + i];
""", """    int const first = index.lbound();
    for (int j = 0; j < n_vectors; ++j)
    {
      auto const &from = *mv[first + j];
      auto &to = *(*new_mv)[j];
      to = from;
    }
"""))
m("c28-q-timesmat", "quiet", "C28", (AT, """      *mv[j] *= beta;
      for (int k = 0; k < n_vectors; k++)
        (*mv[j]).add(alpha * B(k, j), *A[k]);
""", """      auto &column = *mv[j];
      column *= beta;
      for (int k = 0; k < B.numRows(); k++)
      {
        double const factor = B(k, j) * alpha;
        column.add(factor, *A[k]);
      }
"""))
m("c28-q-trans", "quiet", "C28", (AT, """    for (int i = 0; i < A.n_vectors(); i++)
      for (int j = 0; j < B.n_vectors(); j++)
        C(i, j) = alpha * (*A[i] * *B[j]);
""", """    for (int j = 0; j < C.numCols(); j++)
      for (int i = 0; i < C.numRows(); i++)
      {
        double const product = *A[i] * *B[j];
        C(i, j) = alpha * product;
      }
"""))
m("c28-q-alias", "quiet", "C28", (AT, """      VectorType sum(*A[i]);
      sum.sadd(alpha, beta, *B[i]);
      *mv[i] = sum;
""", """      VectorType sum(*B[i]);
      sum *= beta;
      sum.add(alpha, *A[i]);
      mv[i]->swap(sum);
"""))
m("c28-q-norm", "quiet", "C28", (AT, "      normvec[i] = (*mv[i]).l2_norm();", "      normvec[i] = std::sqrt((*mv[i]).norm_sqr());"))
m("c28-q-clone", "quiet", "C28", (AT, """    auto n_vectors = mv.n_vectors();

    auto new_mv = Teuchos::rcp(new MultiVectorType(n_vectors));
    for (int i = 0; i < n_vectors; i++)
      *(*new_mv)[i] = *mv[i];

    return new_mv;
""", """    std::vector<std::shared_ptr<VectorType>> columns;
    for (int i = 0; i < mv.n_vectors(); i++)
      columns.push_back(std::make_shared<VectorType>(*mv[i]));

    return Teuchos::rcp(new MultiVectorType(columns));
"""))

# -- C24
LZ = "include/mfmg/common/lanczos.templates.hpp"
LD = "include/mfmg/common/lanczos_deflatedop.templates.hpp"
m("c24-oldwindow", "bad", "C24", (LD, "  auto vnew_start = vold_end;\n", "  vold_start = vold_end - std::min(num_old, num_new);\n  auto vnew_start = vold_end;\n"))
m("c24-vmult", "bad", "C24", (LD, "  _base_op.vmult(y, x);\n\n  deflate(y);", "  _base_op.vmult(y, x);\n\n  if (_deflation_vecs.size() > 1)\n    deflate(y);"))
m("c24-vmult2", "bad", "C24", (LD, "  deflate(y);\n", ""))
m("c24-deflate", "bad", "C24", (LD, "std::for_each(_deflation_vecs.begin(), _deflation_vecs.end(),", "std::for_each(_deflation_vecs.begin() + (_deflation_vecs.size() > 1 ? 1 : 0), _deflation_vecs.end(),"))
m("c24-sign", "bad", "C24", (LD, "vec.add(-(vec * dvec), dvec)", "vec.add(vec * dvec, dvec)"))
m("c24-norm", "bad", "C24", (LD, "double norm = std::sqrt(dot_best);", "double norm = dot_best;"))
m("c24-nonorm", "bad", "C24", (LD, "    _deflation_vecs[perm_ind[i]] /= norm;\n", ""))
m("c24-mutual", "bad", "C24", (LD, "for (int j = i + 1; j < num_new; ++j)\n    {\n      double a", "for (int j = i + 2; j < num_new; ++j)\n    {\n      double a"))
m("c24-mutual2", "bad", "C24", (LD, "_deflation_vecs[perm_ind[j]].add(-a, _deflation_vecs[perm_ind[i]]);", "_deflation_vecs[perm_ind[j]].add(-.5 * a, _deflation_vecs[perm_ind[i]]);"))
m("c24-best", "bad", "C24", (LD, "        std::swap(perm_ind[i], perm_ind[j]);\n", "        if (j > i + 1)\n          std::swap(perm_ind[i], perm_ind[j]);\n"))
m("c24-guess", "bad", "C24", (LZ, "    deflated_op.deflate(initial_guess);\n", "    if (cycle == 0)\n      deflated_op.deflate(initial_guess);\n"))
m("c24-guess2", "bad", "C24", (LZ, """    if (cycle > 0)
      internal::details_set_initial_guess(initial_guess, cycle);

    deflated_op.deflate(initial_guess);
""", """    deflated_op.deflate(initial_guess);

    if (cycle > 0)
      internal::details_set_initial_guess(initial_guess, cycle);
"""))
m("c24-lastcycle", "bad", "C24", (LZ, "if (cycle != num_cycles - 1)", "if (cycle < num_cycles - 2)"))
m("c24-first", "bad", "C24", (LZ, "if (cycle != num_cycles - 1)", "if (cycle == 0)"))
m("c24-lambda-init", "bad", "C24", (LZ, "        deflated_op, num_evecs_per_cycle, params, initial_guess);", "        _op, num_evecs_per_cycle, params, initial_guess);"))
m("c24-q1", "quiet", "C24", (LZ, "if (cycle != num_cycles - 1)", "if (cycle + 1 < num_cycles)"))
m("c24-q2", "quiet", "C24", (LZ, "    if (cycle != num_cycles - 1)\n    {", "    {"))
m("c24-q3", "quiet", "C24", (LD, """  std::for_each(_deflation_vecs.begin(), _deflation_vecs.end(),
                [&vec](auto const &dvec) { vec.add(-(vec * dvec), dvec); });""", """  for (unsigned int i = 0; i < _deflation_vecs.size(); ++i)
  {
    auto const c = vec * _deflation_vecs[i];
    vec.add(-c, _deflation_vecs[i]);
  }"""))
m("c24-q4", "quiet", "C24", (LD, """  for (auto const &v : vecs)
    _deflation_vecs.push_back(v);""", """  _deflation_vecs.insert(_deflation_vecs.end(), vecs.begin(), vecs.end());"""))
m("c24-q5", "quiet", "C24", (LD, """  std::for_each(vnew_start, vnew_end, [&](auto &new_v) {
    std::for_each(vold_start, vold_end,
                  [&new_v](auto const &v) { new_v.add(-(new_v * v), v); });
  });""", """  for (int i = 0; i < num_new; ++i)
    for (int j = 0; j < num_old; ++j)
    {
      double const a = _deflation_vecs[num_old + i] * _deflation_vecs[j];
      _deflation_vecs[num_old + i].add(-a, _deflation_vecs[j]);
    }"""))
m("c24-q6", "quiet", "C24", (LD, "  _base_op.vmult(y, x);\n\n  deflate(y);", "  _base_op.vmult(y, x);\n\n  if (!_deflation_vecs.empty())\n    deflate(y);"))
m("c24-q7", "quiet", "C24", (LD, "    double norm = std::sqrt(dot_best);\n", "    double const norm = _deflation_vecs[perm_ind[i]].l2_norm();\n"))
m("c24-q8", "quiet", "C24", (LD, """      _deflation_vecs[perm_ind[j]].add(-a, _deflation_vecs[perm_ind[i]]);""", """      auto &later = _deflation_vecs[perm_ind[j]];
      later.sadd(1., -a, _deflation_vecs[perm_ind[i]]);"""))
m("c24-q9", "quiet", "C24", (LZ, """    if (cycle > 0)
      internal::details_set_initial_guess(initial_guess, cycle);

    deflated_op.deflate(initial_guess);
""", """    if (cycle > 0)
    {
      internal::details_set_initial_guess(initial_guess, cycle);
      deflated_op.deflate(initial_guess);
    }
    else
      deflated_op.deflate(initial_guess);
"""))

# -- C25, C29
m("c25-clear", "bad", "C25", (A, """  for (auto cell : _dof_handler.active_cell_iterators())
    cell->clear_user_index();
""", ""))
m("c25-min", "bad", "C25", (A, "  _n_agglomerates = n_zoltan_agglomerates;\n", "  _n_agglomerates = std::min(n_agglomerates, local_index);\n"))
m("c25-retmin", "bad", "C25", (A, "  _n_agglomerates = n_zoltan_agglomerates;\n\n  return _n_agglomerates;", "  _n_agglomerates = n_zoltan_agglomerates;\n\n  return n_agglomerates;"))
m("c25-x", "bad", "C25", (A, "if (neighbor_cell->is_locally_owned())\n                current_cell", "current_cell"))
m("c25-y", "bad", "C25", (A, "            if (neighbor_y_cell->is_locally_owned())\n            {", "            {"))
m("c25-z", "bad", "C25", (A, "          if (neighbor_z_cell->is_locally_owned())\n          {", "          if (current_z_cell->is_locally_owned())\n          {"))
m("c25-start", "bad", "C25", (A, "  unsigned int n_zoltan_agglomerates = 0;", "  unsigned int n_zoltan_agglomerates = 1;"))
m("c25-norenum", "bad", "C25", (A, """  for (auto cell : _dof_handler.active_cell_iterators())
    if (cell->is_locally_owned())
      cell->set_user_index(new_index[cell->user_index()]);

  _n_agglomerates = new_index.back();""", "  _n_agglomerates = agglomerate - 1;"))
m("c25-count2", "bad", "C25", (A, "  _n_agglomerates = new_index.back();", "  _n_agglomerates = agglomerate - 1;"))
m("c25-noclearghost-read", "bad", "C25", (A, "    if ((cell->is_locally_owned()) && (cell->user_index() == 0))", "    if (cell->user_index() == 0)"))
m("c25-direct", "bad", "C25", (A, "        cell->set_user_index(agg_id->second);", "        cell->set_user_index(partition_indices[index] + 1);"))
m("c25-renum", "bad", "C25", (A, "new_index[cell->user_index()] = 1;", "new_index[cell->user_index()] += 1;"))
m("c25-nostore", "bad", "C25", (A, "  _n_agglomerates = n_zoltan_agglomerates;\n\n  return _n_agglomerates;", "  if (n_zoltan_agglomerates != n_agglomerates)\n    _n_agglomerates = n_zoltan_agglomerates;\n\n  return n_zoltan_agglomerates;"))
m("c25-q1", "quiet", "C25", (A, "    cell->clear_user_index();\n\n", "    cell->set_user_index(0);\n\n"))
m("c25-q2", "quiet", "C25", (A, """      auto agg_id = agglomerate_renumbering.find(partition_indices[index]);
      if (agg_id == agglomerate_renumbering.end())
      {
        ++n_zoltan_agglomerates;
        agglomerate_renumbering[partition_indices[index]] =
            n_zoltan_agglomerates;
        cell->set_user_index(n_zoltan_agglomerates);
      }
      else
        cell->set_user_index(agg_id->second);""", """      unsigned int const part = partition_indices[index];
      if (agglomerate_renumbering.count(part) == 0)
      {
        n_zoltan_agglomerates += 1;
        agglomerate_renumbering[part] = n_zoltan_agglomerates;
      }
      cell->set_user_index(agglomerate_renumbering.at(part));"""))
m("c25-q3", "quiet", "C25", (A, """    if ((cell->is_locally_owned()) && (cell->user_index() == 0))
    {""", """    if (!cell->is_locally_owned())
      continue;
    if (cell->user_index() == 0)
    {"""))
m("c25-q4", "quiet", "C25", (A, "              if (neighbor_cell->is_locally_owned())\n                current_cell = neighbor_cell;", "              if (!neighbor_cell->is_locally_owned())\n                break;\n              current_cell = neighbor_cell;"))
m("c25-q5", "quiet", "C25", (A, "  _n_agglomerates = new_index.back();\n\n  return _n_agglomerates;", "  unsigned int const n_used = new_index[new_index.size() - 1];\n  _n_agglomerates = n_used;\n\n  return n_used;"))
m("c25-q6", "quiet", "C25", (A, "  std::partial_sum(new_index.begin(), new_index.end(), new_index.begin());", "  for (unsigned int i = 1; i < new_index.size(); ++i)\n    new_index[i] += new_index[i - 1];"))
m("c29-rank0", "bad", "C29", (A, """      filename +
      std::to_string(dealii::Utilities::MPI::this_mpi_process(_comm));""", """      filename +
      (dealii::Utilities::MPI::n_mpi_processes(_comm) > 1
           ? std::to_string(dealii::Utilities::MPI::this_mpi_process(_comm))
           : std::string());"""))
m("c29-owned", "bad", "C29", (A, "    if (cell->is_locally_owned())\n      agglomerates(n) = cell->user_index();\n    ++n;", "    if (cell->is_locally_owned())\n      agglomerates(n++) = cell->user_index();"))
m("c29-ghost", "bad", "C29", (A, "    if (cell->is_locally_owned())\n      agglomerates(n) = cell->user_index();\n    ++n;", "    agglomerates(n) = cell->user_index();\n    ++n;"))
m("c29-n", "bad", "C29", (A, "std::vector<std::string> full_filenames(comm_size);", "std::vector<std::string> full_filenames(comm_size + 1);"))
m("c29-skip", "bad", "C29", (A, "for (unsigned int i = 0; i < comm_size; ++i)\n      full_filenames", "for (unsigned int i = 1; i < comm_size; ++i)\n      full_filenames"))
m("c29-ext", "bad", "C29", (A, 'filename + std::to_string(i) + ".vtu";', 'filename + "_" + std::to_string(i) + ".vtu";'))
m("c29-all", "bad", "C29", (A, "  if (dealii::Utilities::MPI::this_mpi_process(_comm) == 0)\n  {\n    unsigned int const comm_size", "  {\n    unsigned int const comm_size"))
m("c29-q1", "quiet", "C29", (A, "full_filenames[i] = filename + std::to_string(i) + \".vtu\";", "{\n      std::string name = filename;\n      name += std::to_string(i);\n      name += \".vtu\";\n      full_filenames[i] = name;\n    }"))
m("c29-q2", "quiet", "C29", (A, """    std::vector<std::string> full_filenames(comm_size);
    for (unsigned int i = 0; i < comm_size; ++i)
      full_filenames[i] = filename""", """    std::vector<std::string> full_filenames;
    for (unsigned int i = 0; i < comm_size; ++i)
      full_filenames.push_back(filename"""), (A, 'std::to_string(i) + ".vtu";', 'std::to_string(i) + ".vtu");'))
m("c29-q3", "quiet", "C29", (A, "  std::ofstream output((full_filename + \".vtu\").c_str());", "  std::ofstream output(full_filename + \".vtu\");"))
m("c29-q4", "quiet", "C29", (A, "    if (cell->is_locally_owned())\n      agglomerates(n) = cell->user_index();\n    ++n;", "    agglomerates(n) = cell->is_locally_owned() ? cell->user_index() : 0;\n    ++n;"))
m("c27-anasazi", "bad", "C27", (AH, "  for (unsigned int i = 0; i < n_eigenvectors; ++i)\n    eigenvalues[i] -= average_diagonal;", "  if (eigensolver_type != \"anasazi\")\n    for (unsigned int i = 0; i < n_eigenvectors; ++i)\n      eigenvalues[i] -= average_diagonal;"))
m("c27-nm1", "bad", "C27", (AH, "  for (unsigned int i = 0; i < n_eigenvectors; ++i)\n    eigenvalues[i] -= average_diagonal;", "  for (unsigned int i = 1; i < n_eigenvectors; ++i)\n    eigenvalues[i] -= average_diagonal;"))
m("c27-scale", "bad", "C27", (AH, "diag_elements.end(), 0.) / size;", "diag_elements.end(), 0.) / size;\n  double const shift = 1.0;"), (AH, "diag_element(i) += average_diagonal;", "diag_element(i) += shift;"))
m("c27-diagafter", "bad", "C27", (AH, "    agglomerate_system_matrix.diag_element(i) += average_diagonal;", "  {\n    agglomerate_system_matrix.diag_element(i) += average_diagonal;\n    diag_elements[i] = agglomerate_system_matrix.diag_element(i);\n  }"))
m("c27-200", "bad", "C27", (AH, "        2. * eigenvalue_bound;\n", "        200.;\n"))
m("c27-weak", "bad", "C27", (AH, "std::max(100., 2. * agglomerate_system_matrix.linfty_norm());", "std::max(100., 0.25 * agglomerate_system_matrix.linfty_norm());"))
m("c27-upper", "bad", "C27", (AH, "double const upper_bound = eigenvalue_bound;", "double const upper_bound = 100.;"))
m("c27-upper2", "bad", "C27", (AH, "double const upper_bound = eigenvalue_bound;", "double const upper_bound = 3. * eigenvalue_bound;"))
m("c27-which", "bad", "C27", (AH, "dealii::ArpackSolver::WhichEigenvalues::largest_magnitude;", "dealii::ArpackSolver::WhichEigenvalues::smallest_magnitude;"))
m("c27-rows", "bad", "C27", (AH, "eigenvectors[i][j] = lapack_eigenvectors[j][i];", "eigenvectors[i][j] = lapack_eigenvectors[i][j];"))
m("c27-order", "bad", "C27", (AH, "  for (unsigned int i = 0; i < size; ++i)\n    agglomerate_system_matrix.diag_element(i) += average_diagonal;\n", "  for (unsigned int i = 0; i + 1 < size; ++i)\n    agglomerate_system_matrix.diag_element(i) += average_diagonal;\n"))
m("c27-first", "bad", "C27", (AH, "  for (unsigned int i = 0; i < size; ++i)\n    agglomerate_system_matrix.diag_element(i) += average_diagonal;\n", "  for (unsigned int i = 1; i < size; ++i)\n    agglomerate_system_matrix.diag_element(i) += average_diagonal;\n"))
m("c27-lm", "bad", "C27", (AZ, '"Which", "SM"', '"Which", "LM"'))
m("c27-lapshift", "bad", "C27", (AH, "      eigenvalues[i] = lapack_eigenvalues[i];", "      eigenvalues[i] = lapack_eigenvalues[i] - average_diagonal;"))
m("c27-mf", "bad", "C27", (AH, "  // Compute the map between the local and the global dof indices.", "  for (auto &e : eigenvalues)\n    e += 1.;\n"))
m("c27-q1", "quiet", "C27", (AH, "  for (unsigned int i = 0; i < n_eigenvectors; ++i)\n    eigenvalues[i] -= average_diagonal;", "  for (auto &eigenvalue : eigenvalues)\n    eigenvalue = eigenvalue - average_diagonal;"))
m("c27-q2", "quiet", "C27", (AH, "  for (unsigned int i = 0; i < size; ++i)\n    diag_elements[i] = agglomerate_system_matrix.diag_element(i);\n", "  double sum = 0.;\n  for (unsigned int i = 0; i < size; ++i)\n  {\n    diag_elements[i] = agglomerate_system_matrix.diag_element(i);\n    sum += diag_elements[i];\n  }\n"), (AH, "      std::accumulate(diag_elements.begin(), diag_elements.end(), 0.) / size;", "      sum / size;"), (AH, "  for (unsigned int i = 0; i < size; ++i)\n    agglomerate_system_matrix.diag_element(i) += average_diagonal;", "  for (unsigned int i = 0; i < size; ++i)\n    agglomerate_system_matrix.diag_element(i) = diag_elements[i] + average_diagonal;"))
m("c27-q3", "quiet", "C27", (AH, "  for (auto const constraint : agglomerate_constraints.get_lines())\n  {\n    agglomerate_system_matrix.diag_element(constraint.index) =\n        2. * eigenvalue_bound;\n  }", "  double const constrained_value = eigenvalue_bound + eigenvalue_bound;\n  for (auto const &line : agglomerate_constraints.get_lines())\n  {\n    auto const row = line.index;\n    agglomerate_system_matrix.diag_element(row) = constrained_value;\n  }"))
m("c27-q4", "quiet", "C27", (AH, "    for (unsigned int i = 0; i < n_eigenvectors; ++i)\n      eigenvalues[i] = lapack_eigenvalues[i];\n\n    for (unsigned int i = 0; i < n_eigenvectors; ++i)\n      for (unsigned int j = 0; j < n_dofs_agglomerate; ++j)\n        eigenvectors[i][j] = lapack_eigenvectors[j][i];", "    for (unsigned int i = 0; i < n_eigenvectors; ++i)\n    {\n      eigenvalues[i] = std::complex<double>(lapack_eigenvalues[i], 0.);\n      auto &vector = eigenvectors[i];\n      for (unsigned int j = 0; j < n_dofs_agglomerate; ++j)\n        vector[j] = lapack_eigenvectors(j, i);\n    }"))
m("c27-q5", "quiet", "C27", (AH, "  for (unsigned int i = 0; i < n_eigenvectors; ++i)\n    eigenvalues[i] -= average_diagonal;", "  std::transform(eigenvalues.begin(), eigenvalues.end(), eigenvalues.begin(),\n                 [average_diagonal](std::complex<double> const &e) {\n                   return e - average_diagonal;\n                 });"))

# -- C23 -------------------------------------------------------------------
m("c23-order", "bad", "C23", (LZ, "lanc_vectors[it].add(-beta, lanc_vectors[it - 2]);", "lanc_vectors[it].add(-alpha, lanc_vectors[it - 2]);"))
m("c23-prev", "bad", "C23", (LZ, "    if (it != 1)\n    {", "    if (it > 2)\n    {"))
m("c23-beta2", "bad", "C23", (LZ, "lanc_vectors[it].add(-beta, lanc_vectors[it - 2]);", "lanc_vectors[it].add(-beta * beta, lanc_vectors[it - 2]);"))
m("c23-noalpha", "bad", "C23", (LZ, "    lanc_vectors[it].add(-alpha, lanc_vectors[it - 1]);\n", "    if (it < maxit)\n      lanc_vectors[it].add(-alpha, lanc_vectors[it - 2 + 1]);\n    else\n      lanc_vectors[it].add(-2. * alpha, lanc_vectors[it - 1]);\n"))
m("c23-alpha", "bad", "C23", (LZ, "alpha = lanc_vectors[it - 1] * lanc_vectors[it];", "alpha = lanc_vectors[it] * lanc_vectors[it];"))
m("c23-sub", "bad", "C23", (LZ, "sub_diagonal.push_back(beta);", "sub_diagonal.push_back(beta * beta);"))
m("c23-main", "bad", "C23", (LZ, "main_diagonal.push_back(alpha);", "main_diagonal.push_back(alpha + beta * 1e-12);"))
m("c23-bound", "bad", "C23", (LZ, "evecs[num_evecs - 1 + num_evecs * i]", "evecs[num_evecs - 1 + num_requested * i]"))
m("c23-bound2", "bad", "C23", (LZ, "evecs[num_evecs - 1 + num_evecs * i]", "evecs[num_evecs * i]"))
m("c23-bound3", "bad", "C23", (LZ, "double const bound = beta * std::abs", "double const bound = std::abs"))
m("c23-all", "bad", "C23", (LZ, "  for (int i = 0; i < num_requested; ++i)\n  {\n    double const bound", "  for (int i = 0; i < num_requested - 1; ++i)\n  {\n    double const bound"))
m("c23-first", "bad", "C23", (LZ, "  for (int i = 0; i < num_requested; ++i)\n  {\n    double const bound", "  for (int i = 0; i < 1; ++i)\n  {\n    double const bound"))
m("c23-any", "bad", "C23", (LZ, "is_converged = is_converged && bound <= tol;", "is_converged = bound <= tol;"))
m("c23-or", "bad", "C23", (LZ, "is_converged = is_converged && bound <= tol;", "is_converged = is_converged && (bound <= tol || num_evecs > 50);"))
m("c23-limit", "bad", "C23", (LZ, "it <= maxit; ++it)", "it <= maxit + 1; ++it)"))
m("c23-norm", "bad", "C23", (LZ, "    lanc_vectors[it - 1] /= beta;\n", "    if (it > 1)\n      lanc_vectors[it - 1] /= beta;\n"))
m("c23-tol", "bad", "C23", (LZ, "double const tol = params.get<double>(\"tolerance\");", "double const tol = 10. * params.get<double>(\"tolerance\");"))
m("c23-q1", "quiet", "C23", (LZ, "is_converged = is_converged && bound <= tol;", "if (bound > tol)\n      is_converged = false;"))
m("c23-q2", "quiet", "C23", (LZ, "    alpha = lanc_vectors[it - 1] * lanc_vectors[it];", "    auto const &q = lanc_vectors[it - 1];\n    alpha = lanc_vectors[it] * q;"))
m("c23-q3", "quiet", "C23", (LZ, "is_converged = is_converged && bound <= tol;", "if (bound > tol)\n      return false;"))
m("c23-ret", "bad", "C23", (LZ, "is_converged = is_converged && bound <= tol;", "if (bound > 2 * tol)\n      return false;"))
m("c23-ret2", "bad", "C23", (LZ, "is_converged = is_converged && bound <= tol;", "if (i > 0 && bound > tol)\n      return false;"))
m("c23-q4", "quiet", "C23", (LZ, """    if (it != 1)
    {
      lanc_vectors[it].add(-beta, lanc_vectors[it - 2]);
      sub_diagonal.push_back(beta);
    }
""", """    if (it > 1)
    {
      sub_diagonal.push_back(beta);
      auto &w = lanc_vectors[it];
      w.add(-sub_diagonal.back(), lanc_vectors[it - 2]);
    }
"""))
m("c23-q5", "quiet", "C23", (LZ, """    if (lanc_vectors.size() < static_cast<size_t>(it + 1))
    {
      // Add new Lanczos vector
      lanc_vectors.push_back(VectorType(n));
    }

    // Apply operator.
    op.vmult(lanc_vectors[it], lanc_vectors[it - 1]);
""", """    // Apply operator.
    VectorType w(n);
    op.vmult(w, lanc_vectors[it - 1]);
    lanc_vectors.push_back(w);
"""))
m("c23-q6", "quiet", "C23", (LZ, """    alpha = lanc_vectors[it - 1] * lanc_vectors[it]; // = tridiag_{it,it}

    main_diagonal.push_back(alpha);

    lanc_vectors[it].add(-alpha, lanc_vectors[it - 1]);
""", """    main_diagonal.push_back(lanc_vectors[it - 1] * lanc_vectors[it]);

    lanc_vectors[it].add(-main_diagonal.back(), lanc_vectors[it - 1]);
"""))
m("c23-q7", "quiet", "C23", (LZ, """  bool is_converged = true;
""", """  if (num_requested == 0)
    return true;
  bool is_converged = true;
"""))

# -- C22: eigenpairs -------------------------------------------------------------
CMP = "[&](int i, int j) { return evals[i] < evals[j]; });"
m("c22-abs", "bad", "C22", (LZ, CMP, "[&](int i, int j) { return std::abs(evals[i]) < std::abs(evals[j]); });"))
m("c22-desc", "bad", "C22", (LZ, CMP, "[&](int i, int j) { return evals[i] > evals[j]; });"))
m("c22-cmp2", "bad", "C22", (LZ, CMP, "[&](int i, int j) { return evals[i] < evals[j] - 1e-8; });"))
m("c22-evonly", "bad", "C22", (LZ, "      sorted_evecs[i] = evecs[perm_index[i]];", "      sorted_evecs[perm_index[i]] = evecs[i];"))
m("c22-evonly2", "bad", "C22", (LZ, "      sorted_evecs[i] = evecs[perm_index[i]];", "      sorted_evecs[i] = evecs[i];"))
m("c22-cutfirst", "bad", "C22", (LZ, "    int const n_found = evals.size();\n", "    int const n_found = n_eigenvectors;\n"))
m("c22-from2", "bad", "C22", (LZ, "  if (num_cycles > 1)\n  {\n    int const n_found", "  if (num_cycles > 2)\n  {\n    int const n_found"))
m("c22-sortlen", "bad", "C22", (LZ, "std::sort(perm_index.begin(), perm_index.end(),", "std::sort(perm_index.begin(), perm_index.begin() + n_eigenvectors,"))
m("c22-noresize", "bad", "C22", (LZ, "  evecs.resize(n_eigenvectors);\n", "  if (num_cycles > 1)\n    evecs.resize(n_eigenvectors);\n"))
m("c22-push", "bad", "C22", (LZ, "evecs.push_back(cycle_evecs[i]);", "evecs.push_back(cycle_evecs[num_evecs_per_cycle - 1 - i]);"))
m("c22-fewcyc", "bad", "C22", (LZ, "    for (int i = 0; i < num_evecs_per_cycle; ++i)\n    {\n      evals.push", "    for (int i = 0; i < num_evecs_per_cycle - (cycle > 0); ++i)\n    {\n      evals.push"))
m("c22-erase", "bad", "C22", (LZ, "      evals.erase(evals.begin() + i);\n", "      if (is_spurious[i])\n        evals.erase(evals.begin() + i);\n"))
m("c22-erase2", "bad", "C22", (LZ, "evecs_aux.begin() + n * (i + 1));", "evecs_aux.begin() + n * i + num_requested);"))
m("c22-asc", "bad", "C22", (LZ, "for (int i = n - 1; i >= 0; --i)", "for (int i = 0; i < n; ++i)"))
m("c22-avail", "bad", "C22", (LZ, "      num_available--;\n", "      if (is_spurious[i])\n        num_available--;\n"))
m("c22-avail2", "bad", "C22", (LZ, "if (num_available < num_requested)", "if (num_available + 1 < num_requested)"))
m("c22-stride", "bad", "C22", (LZ, "    auto first = evecs.begin() + n * i;", "    auto first = evecs.begin() + num_requested * i;"))
m("c22-stride2", "bad", "C22", (LZ, "    auto aux_first = evecs_aux.begin() + n * i;", "    auto aux_first = evecs_aux.begin() + n * (num_requested - 1 - i);"))
m("c22-ritz", "bad", "C22", (LZ, "evecs[i].add(evecs_tridiag[j + n * i], lanc_vectors[j]);", "evecs[i].add(evecs_tridiag[j + num_requested * i], lanc_vectors[j]);"))
m("c22-ritz2", "bad", "C22", (LZ, "evecs[i].add(evecs_tridiag[j + n * i], lanc_vectors[j]);", "evecs[i].add(evecs_tridiag[i + n * j], lanc_vectors[j]);"))
m("c22-ritz3", "bad", "C22", (LZ, "    for (int j = 0; j < n; ++j)\n      evecs[i].add", "    for (int j = 0; j < n - 1; ++j)\n      evecs[i].add"))
m("c22-it", "bad", "C22", (LZ, "  it = it < maxit ? it : maxit;\n", "  it = it < maxit ? it - 1 : maxit;\n"))
m("c22-it2", "bad", "C22", (LZ, "  it = it < maxit ? it : maxit;\n", "  it = lanc_vectors.size() - 1;\n  if (it > num_requested)\n    --it;\n"))
m("c22-maxit", "bad", "C22", (LZ, "if (first_iteration || max_iterations_reached || percent_overshoot_exceeded)", "if (first_iteration || percent_overshoot_exceeded)"))
m("c22-throw", "bad", "C22", (LZ, """  ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),
               "Lanczos did not find the required number of eigenpairs");
""", ""))
m("c22-throw2", "bad", "C22", (LZ, "ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),", "ASSERT_THROW(evals.size() <= static_cast<size_t>(num_requested),"))
m("c22-throw3", "bad", "C22", (LZ, "ASSERT_THROW(num_cycles * num_evecs_per_cycle >= n_eigenvectors", "ASSERT_THROW((num_cycles + 1) * num_evecs_per_cycle >= n_eigenvectors"))
m("c22-empty", "bad", "C22", (LZ, "  if (num_evecs < num_requested || evecs.empty())\n", "  if (num_evecs < num_requested)\n"))
m("c22-lap", "bad", "C22", (AH, "ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,", "ASSERT_THROW(lapack_eigenvalues.size() > 0,"))
m("c22-lap2", "bad", "C22", (AH, "ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,", "ASSERT(lapack_eigenvalues.size() >= n_eigenvectors,"))
m("c22-lap3", "bad", "C22", (AH, "ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,", "ASSERT_THROW(lapack_eigenvalues.size() + 1 >= n_eigenvectors,"))
m("c22-ana", "bad", "C22", (AH, "  ASSERT_THROW(n_eigenvectors == eigenvectors.size(),", "  ASSERT(n_eigenvectors == eigenvectors.size(),"))
m("c22-ana2", "bad", "C22", (AZ, "    evecs[i] = *((*solution.Evecs)[i]);", "    evecs[i] = *((*solution.Evecs)[a_eigenvalues.size() - 1 - i]);"))
m("c22-ana3", "bad", "C22", (AZ, "std::vector<VectorType> evecs(num_converged);", "std::vector<VectorType> evecs(n_eigenvectors);"))
m("c22-ana4", "bad", "C22", (AZ, "a_eigenvalues[i].realpart", "a_eigenvalues[i].imagpart"))
m("c22-q1", "quiet", "C22", (LZ, "std::sort(perm_index.begin(), perm_index.end(),", "std::stable_sort(perm_index.begin(), perm_index.end(),"))
m("c22-q2", "quiet", "C22", (LZ, CMP, "[&](int i, int j) { return evals[j] > evals[i]; });"))
m("c22-q3", "quiet", "C22", (LZ, "if (num_available < num_requested)", "if (static_cast<int>(evals.size()) < num_requested)"))
m("c22-q4", "quiet", "C22", (LZ, """    for (int i = 0; i < n_found; i++)
    {
      sorted_evals[i] = evals[perm_index[i]];
      sorted_evecs[i] = evecs[perm_index[i]];
    }
""", """    for (int i = 0; i < n_found; i++)
      sorted_evals[i] = evals[perm_index[i]];
    for (int i = 0; i < n_found; i++)
      sorted_evecs[i] = evecs[perm_index[i]];
"""))
m("c22-q5", "quiet", "C22", (LZ, """    for (int i = 0; i < n_found; i++)
    {
      sorted_evals[i] = evals[perm_index[i]];
      sorted_evecs[i] = evecs[perm_index[i]];
    }
""", """    int k = 0;
    for (auto const p : perm_index)
    {
      sorted_evals[k] = evals[p];
      sorted_evecs[k] = evecs[p];
      ++k;
    }
"""))
m("c22-q6", "quiet", "C22", (LZ, """      evecs_aux.erase(evecs_aux.begin() + n * i,
                      evecs_aux.begin() + n * (i + 1));
""", """      auto const from = evecs_aux.begin() + i * n;
      evecs_aux.erase(from, from + n);
"""))
m("c22-q7", "quiet", "C22", (LZ, """  for (int i = n - 1; i >= 0; --i)
  {
    if (is_spurious[i] || !is_marked[i])
    {
""", """  for (int i = n; i-- > 0;)
  {
    bool const keep = is_marked[i] && !is_spurious[i];
    if (!keep)
    {
"""))
m("c22-q8", "quiet", "C22", (LZ, """    evecs[i] = 0.0;
    for (int j = 0; j < n; ++j)
      evecs[i].add(evecs_tridiag[j + n * i], lanc_vectors[j]);
""", """    auto &evec = evecs[i];
    evec = 0.0;
    auto const offset = n * i;
    for (int j = n - 1; j >= 0; --j)
      evec.add(evecs_tridiag[offset + j], lanc_vectors[j]);
"""))
m("c22-q9", "quiet", "C22", (LZ, """    double const norm =
        std::sqrt(std::inner_product(aux_first, aux_last, aux_first, 0.));
    std::transform(aux_first, aux_last, first,
                   [norm](auto &v) { return v / norm; });
""", """    double norm2 = 0.;
    for (int j = 0; j < n; ++j)
      norm2 += evecs_aux[n * i + j] * evecs_aux[n * i + j];
    double const norm = std::sqrt(norm2);
    for (int j = 0; j < n; ++j)
      evecs[n * i + j] = evecs_aux[n * i + j] / norm;
"""))
m("c22-q10", "quiet", "C22", (LZ, "    evals = sorted_evals;\n    evecs = sorted_evecs;\n", "    evals.swap(sorted_evals);\n    evecs = std::move(sorted_evecs);\n"))
m("c22-q11", "quiet", "C22", (LZ, """  ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),
               "Lanczos did not find the required number of eigenpairs");
""", """  if (evals.size() < static_cast<size_t>(num_requested))
    throw std::runtime_error(
        "Lanczos did not find the required number of eigenpairs");
"""))
m("c22-q12", "quiet", "C22", (LZ, "  it = it < maxit ? it : maxit;\n", "  it = std::min(it, maxit);\n"))

# -- C21: guesses ------------------------------------------------------------------
m("c21-inv", "bad", "C21", (EC, "!constraints.is_constrained(i) ? distribution(generator) : 0.", "constraints.is_constrained(i) ? distribution(generator) : 0."))
m("c21-any", "bad", "C21", (EC, "(!constraints.is_constrained(i) ? distribution(generator) : 0.)", "(!constraints.is_constrained(i) ? distribution(generator) : 1e-3 * distribution(generator))"))
m("c21-one", "bad", "C21", (EC, "!constraints.is_constrained(i) ? distribution(generator) : 0.", "!constraints.is_constrained(i) ? 1. : 0."))
m("c21-iden", "bad", "C21", (EC, "!constraints.is_constrained(i) ?", "!constraints.is_inhomogeneously_constrained(i) ?"))
m("c21-add", "bad", "C21", (LZ, "                 [&](auto &v) { return (1. + dist(gen)) * v; });\n}\n\n#ifdef", "                 [&](auto &v) { return dist(gen) + v; });\n}\n\n#ifdef"))
m("c21-add2", "bad", "C21", (LZ, "                 [&](auto &v) { return (1. + dist(gen)) * v; });\n}\n\n#ifdef", "                 [&](auto &v) { return (1. + dist(gen)) * v + 1e-14; });\n}\n\n#ifdef"))
m("c21-first", "bad", "C21", (AH, """        for (unsigned int j = 0; j < n_eigenvectors; ++j)
        {
          (*lobpcg_initial_guess[j])[i] = 0.;
""", """        for (unsigned int j = 1; j < n_eigenvectors; ++j)
        {
          (*lobpcg_initial_guess[j])[i] = 0.;
"""))
m("c21-noreset", "bad", "C21", (AH, "          (*lobpcg_initial_guess[j])[i] = 0.;\n", "          if (i == j)\n            (*lobpcg_initial_guess[j])[i] = 0.;\n"))
m("c21-wrong", "bad", "C21", (AH, "          (*lobpcg_initial_guess[j])[i] = 0.;\n", "          (*lobpcg_initial_guess[j])[i] = lobpcg_vectors[0][i];\n"))
m("c21-fewer", "bad", "C21", (AH, "    unsigned int const eigenvector_size = initial_guess.size();", "    unsigned int const eigenvector_size = initial_guess.size() - 1;"))
m("c21-early", "bad", "C21", (AH, """  evaluator.set_initial_guess(agglomerate_constraints, initial_vector);
""", """  dealii::AffineConstraints<double> no_constraints;
  evaluator.set_initial_guess(no_constraints, initial_vector);
"""))
m("c21-q1", "quiet", "C21", (EC, """    x[i] = (!constraints.is_constrained(i) ? distribution(generator) : 0.);
""", """    if (constraints.is_constrained(i))
      x[i] = 0.;
    else
      x[i] = distribution(generator);
"""))
m("c21-q2", "quiet", "C21", (EC, """    x[i] = (!constraints.is_constrained(i) ? distribution(generator) : 0.);
""", """    double const value = distribution(generator);
    x[i] = (constraints.is_constrained(i) ? 0. : value);
"""))
m("c21-q3", "quiet", "C21", (AH, """      if (initial_guess[i] == 0.)
      {
        for (unsigned int j = 0; j < n_eigenvectors; ++j)
        {
          (*lobpcg_initial_guess[j])[i] = 0.;
        }
      }
      else
      {
        for (unsigned int j = 0; j < n_eigenvectors; ++j)
        {
          if ((*lobpcg_initial_guess[j])[i] == 0.)
          {
            (*lobpcg_initial_guess[j])[i] = initial_guess[i];
          }
        }
      }
""", """      for (unsigned int j = 0; j < n_eigenvectors; ++j)
      {
        auto &guess = *lobpcg_initial_guess[j];
        if (initial_guess[i] == 0.)
          guess[i] = 0.;
        else if (guess[i] == 0.)
          guess[i] = initial_guess[i];
      }
"""))
m("c21-q4", "quiet", "C21", (AH, """    for (unsigned int i = 0; i < eigenvector_size; ++i)
    {
      if (initial_guess[i] == 0.)
      {
        for (unsigned int j = 0; j < n_eigenvectors; ++j)
        {
          (*lobpcg_initial_guess[j])[i] = 0.;
        }
      }
      else
      {
        for (unsigned int j = 0; j < n_eigenvectors; ++j)
        {
          if ((*lobpcg_initial_guess[j])[i] == 0.)
          {
            (*lobpcg_initial_guess[j])[i] = initial_guess[i];
          }
        }
      }
    }
""", """    for (auto const &guess : lobpcg_initial_guess)
      for (unsigned int i = 0; i < eigenvector_size; ++i)
      {
        if (initial_guess[i] == 0. || (*guess)[i] == 0.)
          (*guess)[i] = initial_guess[i];
      }
"""))
m("c21-q5", "quiet", "C21", (LZ, """  std::transform(initial_guess.begin(), initial_guess.end(),
                 initial_guess.begin(),
                 [&](auto &v) { return (1. + dist(gen)) * v; });
}

#ifdef""", """  for (auto &v : initial_guess)
    v *= 1. + dist(gen);
}

#ifdef"""))

# ---- C26
m("c26-b1", "bad", "C26", (A, "std::make_pair(f, cell->face(f)->boundary_id()));", "std::make_pair(f, cell->face(f ^ 1)->boundary_id()));"))
m("c26-b2", "bad", "C26", (A, "    if (cell->at_boundary())\n    {\n      for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell;\n           ++f)\n      {\n        if (cell->face(f)->at_boundary())\n        {\n          boundary_ids", "    if (cell->at_boundary())\n    {\n      for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell - 1;\n           ++f)\n      {\n        if (cell->face(f)->at_boundary())\n        {\n          boundary_ids"))
m("c26-b23", "bad", "C26", (A, "return (agglomerate_cell.second == boundary_cell);", "return (agglomerate_cell.second != boundary_cell);"))
m("c26-b24", "bad", "C26", (A, "return (agglomerate_cell.second == boundary_cell);", "return (agglomerate_cell.second->index() == boundary_cell->index());"))
m("c26-b25", "bad", "C26", (A, "    if (agg_cell != agglomerate_to_global_tria_map.end())\n      for", "    if (agg_cell == agglomerate_to_global_tria_map.begin())\n      for"))
m("c26-b3", "bad", "C26", (A, "std::make_pair(f, cell->face(f)->boundary_id()));", "std::make_pair(f, cell->face(f)->boundary_id()));\n          break;"))
m("c26-b4", "bad", "C26", (A, "agg_cell->first->face(boundary_face.first)\n            ->set_boundary_id(boundary_face.second);", "agg_cell->first->face(boundary_face.second)\n            ->set_boundary_id(boundary_face.first);"))
m("c26-b5", "bad", "C26", (A, "const agg_index = cell->user_index() - 1;", "const agg_index = cell->user_index();"))
m("c26-b6", "bad", "C26", (A, "dof_indices[agg_dof_indices[i]] = global_dof_indices[i];", "dof_indices[agg_dof_indices[i]] = global_dof_indices[dofs_per_cell - 1 - i];"))
m("c26-b7", "bad", "C26", (A, "dof_indices[agg_dof_indices[i]] = global_dof_indices[i];", "dof_indices[agg_dof_indices[i]] = agg_dof_indices[i];"))
m("c26-b8", "bad", "C26", (A, "      bool cell_in_agg = false;\n", ""), (A, "    std::set<unsigned int> halo_cells_in_agg;\n", "    std::set<unsigned int> halo_cells_in_agg;\n    bool cell_in_agg = false;\n"))
m("c26-b9", "bad", "C26", (A, "            cell_in_agg = true;\n", ""))
m("c26-b10", "bad", "C26", (A, "agg_cell.count(connectivity_it->column()) == 0", "agg_cell.count(connectivity_it->column()) != 0"))
m("c26-b11", "bad", "C26", (A, "          halo_cells_in_agg.insert(connectivity_it->column());\n        }\n", "        }\n        else\n          halo_cells_in_agg.insert(connectivity_it->column());\n"))
m("c26-b12", "bad", "C26", (A, "            interior_boundary_cells.push_back(agg_cell_it);\n            cell_in_agg = true;\n          }\n          halo_cells_in_agg.insert(connectivity_it->column());", "            interior_boundary_cells.push_back(agg_cell_it);\n            cell_in_agg = true;\n            halo_cells_in_agg.insert(connectivity_it->column());\n          }"))
m("c26-b13", "bad", "C26", (A, "std::advance(cell, cell_index[i] - cell_index[i - 1]);", "std::advance(cell, cell_index[i] - cell_index[0]);"))
m("c26-b14", "bad", "C26", (A, "    if (cell->user_index() == agglomerate_id)\n", "    if (cell->user_index() >= agglomerate_id)\n"))
m("c26-b15", "bad", "C26", (A, "    for (unsigned int i = 1; i < cell_index.size(); ++i)\n    {\n      std::advance", "    for (unsigned int i = 1; i + 1 < cell_index.size(); ++i)\n    {\n      std::advance"))
m("c26-b16", "bad", "C26", (A, "return {interior_agglomerates, halo_agglomerates};", "return {halo_agglomerates, interior_agglomerates};"))
m("c26-b17", "bad", "C26", (A, "dealii::GridTools::get_vertex_connectivity_of_cells(", "dealii::GridTools::get_face_connectivity_of_cells("))
m("c26-b18", "bad", "C26", (A, "        if (cell->face(f)->at_boundary())\n        {\n          boundary_ids", "        if (cell->face(f)->at_boundary() && f > 0)\n        {\n          boundary_ids"))
m("c26-b19", "bad", "C26", (A, "const active_cell_index = cell->active_cell_index();\n    agg_cell_set", "const active_cell_index = cell->index();\n    agg_cell_set"))
m("c26-b20", "bad", "C26", (A, "          boundary_ids[cell].push_back(\n              std::make_pair(f, cell->face(f)->boundary_id()));", "          boundary_ids[cell] = {\n              std::make_pair(f, cell->face(f)->boundary_id())};"))
m("c26-b21", "bad", "C26", (A, "    for (unsigned int i = 0; i < dofs_per_cell; ++i)\n      dof_indices", "    for (unsigned int i = 1; i < dofs_per_cell; ++i)\n      dof_indices"))
m("c26-b22", "bad", "C26", (A, "      dof_indices[agg_dof_indices[i]] = global_dof_indices[i];", "      dof_indices[global_dof_indices[i]] = agg_dof_indices[i];"))
m("c26-q1", "quiet", "C26", (A, "    if (cell->user_index() == agglomerate_id)\n      agglomerate.push_back(cell);", "  {\n    if (cell->user_index() != agglomerate_id)\n      continue;\n    agglomerate.push_back(cell);\n  }"))
m("c26-q2", "quiet", "C26", (A, """          if (cell_in_agg == false)
          {
            interior_boundary_cells.push_back(agg_cell_it);
            cell_in_agg = true;
          }
          halo_cells_in_agg.insert(connectivity_it->column());""", """          auto const neighbour = connectivity_it->column();
          halo_cells_in_agg.insert(neighbour);
          if (!cell_in_agg)
            interior_boundary_cells.push_back(agg_cell_it);
          cell_in_agg = true;"""))
m("c26-q3", "quiet", "C26", (A, """  if (cell_index.size() > 0)
  {
    auto cell = _dof_handler.begin_active();
    std::advance(cell, cell_index[0]);
    agglomerate.push_back(cell);

    for (unsigned int i = 1; i < cell_index.size(); ++i)
    {
      std::advance(cell, cell_index[i] - cell_index[i - 1]);
      agglomerate.push_back(cell);
    }
  }
""", """  for (auto const index : cell_index)
  {
    auto cell = _dof_handler.begin_active();
    std::advance(cell, index);
    agglomerate.push_back(cell);
  }
"""))
m("c26-q4", "quiet", "C26", (A, """          boundary_ids[cell].push_back(
              std::make_pair(f, cell->face(f)->boundary_id()));""", """          auto const face = cell->face(f);
          boundary_ids[cell].emplace_back(f, face->boundary_id());"""))
m("c26-q5", "quiet", "C26", (A, """  for (auto cell : agglomerate)
    if (cell->at_boundary())
    {
      for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell;
           ++f)
      {
        if (cell->face(f)->at_boundary())
        {
          boundary_ids[cell].push_back(
              std::make_pair(f, cell->face(f)->boundary_id()));
        }
      }
    }
""", """  for (unsigned int i = 0; i < agglomerate.size(); ++i)
  {
    auto const &cell = agglomerate[i];
    for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell;
         ++f)
    {
      if (!cell->face(f)->at_boundary())
        continue;
      auto const id = cell->face(f)->boundary_id();
      boundary_ids[cell].push_back({f, id});
    }
  }
"""))
m("c26-q6", "quiet", "C26", (A, """    auto const boundary_cell = boundary.first;

    auto agg_cell =
        std::find_if(agglomerate_to_global_tria_map.begin(),
                     agglomerate_to_global_tria_map.end(),
                     [&](auto const &agglomerate_cell) {
                       return (agglomerate_cell.second == boundary_cell);
                     });
    if (agg_cell != agglomerate_to_global_tria_map.end())
      for (auto &boundary_face : boundary.second)
        agg_cell->first->face(boundary_face.first)
            ->set_boundary_id(boundary_face.second);""", """    for (auto const &entry : agglomerate_to_global_tria_map)
      if (entry.second == boundary.first)
        for (auto const &boundary_face : boundary.second)
          entry.first->face(boundary_face.first)
              ->set_boundary_id(boundary_face.second);"""))
m("c26-q7", "quiet", "C26", (A, """    for (unsigned int i = 0; i < dofs_per_cell; ++i)
      dof_indices[agg_dof_indices[i]] = global_dof_indices[i];""", """    for (std::size_t i = 0; i < agg_dof_indices.size(); ++i)
      dof_indices[agg_dof_indices[i]] = global_dof_indices[i];"""))
m("c26-q8", "quiet", "C26", (A, """    for (unsigned int i = 0; i < dofs_per_cell; ++i)
      dof_indices[agg_dof_indices[i]] = global_dof_indices[i];""", """    unsigned int position = 0;
    for (auto const agg_index : agg_dof_indices)
      dof_indices[agg_index] = global_dof_indices[position++];"""))
m("c26-q9", "quiet", "C26", (A, """    agg_cell_set[agg_index].insert(active_cell_index);""", """    auto &set = agg_cell_set[agg_index];
    set.emplace(active_cell_index);"""))
m("c26-q10", "quiet", "C26", (A, """        if (agg_cell.count(connectivity_it->column()) == 0)""", """        if (agg_cell.find(connectivity_it->column()) == agg_cell.end())"""))
m("c26-q11", "quiet", "C26", (A, """  for (auto cell : filtered_iterators_range)
  {
    // The cell""", """  for (auto cell : _dof_handler.active_cell_iterators())
  {
    if (!cell->is_locally_owned())
      continue;
    // The cell"""))

# ---- C18
m("c18-b1", "bad", "C18", (HI, "        level_fine.set_solver(coarse_solver);\n        timer_leave_subsection(_timer);\n\n        break;", "        level_fine.set_solver(coarse_solver);\n        break;"))
m("c18-b2", "bad", "C18", (HI, "        ap = hierarchy_helpers->fast_multiply_transpose();\n        timer_leave_subsection(_timer);\n", "        ap = hierarchy_helpers->fast_multiply_transpose();\n"))
m("c18-b3", "bad", "C18", (HI, "      // compute coarse grid correction\n", "      if (_n_smoothing_steps == 7)\n        return;\n      // compute coarse grid correction\n"))
m("c18-b4", "bad", "C18", (HI, "      for (unsigned int i = 0; i < _n_smoothing_steps; ++i)\n        smoother->apply(b, x);\n      timer_leave_subsection(_timer);", "      for (unsigned int i = 0; i < _n_smoothing_steps; ++i)\n        smoother->apply(b, x);\n      if (_is_preconditioner)\n        timer_leave_subsection(_timer);"))
m("c18-b5", "bad", "C18", (HI, "  if (timer)\n    timer->leave_subsection();", "  timer->leave_subsection();"))
m("c18-b6", "bad", "C18", (HI, "        timer_leave_subsection(_timer);\n\n        break;", "        break;\n        timer_leave_subsection(_timer);\n"))
m("c18-b7", "bad", "C18", (HI, "      coarse_solver->apply(b, x);\n      timer_leave_subsection(_timer);", "      coarse_solver->apply(b, x);\n      if (_timer)\n        _timer->leave_subsection(\"Apply\");"))
m("c18-b8", "bad", "C18", (HI, "      level_coarse.set_operator(a_coarse);\n    }\n    timer_leave_subsection(_timer);", "      level_coarse.set_operator(a_coarse);\n      timer_leave_subsection(_timer);\n    }"))
m("c18-b9", "bad", "C18", (HI, "      timer_enter_subsection(_timer, \"Setup: build smoother\");\n", "      timer_enter_subsection(_timer, \"Setup: build smoother\");\n      if (_n_smoothing_steps == 0)\n        continue;\n"))
m("c18-b10", "bad", "C18", (HI, "      smoother->apply(b, x);\n\n      // compute residual", "      {\n        timer_enter_subsection(_timer, \"Apply: smoother\");\n        smoother->apply(b, x);\n      }\n      timer_leave_subsection(_timer);\n\n      // compute residual"))
m("c18-q1", "quiet", "C18", (HI, "      timer_enter_subsection(_timer, \"Apply: coarsest level\");\n      // Coarsest level\n      auto coarse_solver = level_fine.get_solver();\n      coarse_solver->apply(b, x);\n      timer_leave_subsection(_timer);", "      std::unique_ptr<dealii::TimerOutput::Scope> scope;\n      if (_timer)\n        scope = std::make_unique<dealii::TimerOutput::Scope>(*_timer, \"Apply: coarsest level\");\n      // Coarsest level\n      auto coarse_solver = level_fine.get_solver();\n      coarse_solver->apply(b, x);"))
m("c18-q2", "quiet", "C18", (HI, "  if (timer)\n    timer->leave_subsection();", "  if (timer == nullptr)\n    return;\n  timer->leave_subsection();"))
m("c18-q3", "quiet", "C18", (HI, "      if (fast_ap)\n      {\n        timer_enter_subsection(_timer, \"Setup: fast_ap\");\n        ap = hierarchy_helpers->fast_multiply_transpose();\n        timer_leave_subsection(_timer);\n      }\n      else\n      {\n        timer_enter_subsection(_timer, \"Setup: ap\");\n        ap = a->multiply_transpose(restrictor);\n        timer_leave_subsection(_timer);\n      }\n", "      timer_enter_subsection(_timer, fast_ap ? \"Setup: fast_ap\" : \"Setup: ap\");\n      if (fast_ap)\n        ap = hierarchy_helpers->fast_multiply_transpose();\n      else\n        ap = a->multiply_transpose(restrictor);\n      timer_leave_subsection(_timer);\n"))
m("c18-q4", "quiet", "C18", (HI, "        timer_leave_subsection(_timer);\n\n        break;\n      }\n", "        timer_leave_subsection(_timer);\n      }\n      else\n      {\n"), (HI, "      level_coarse.set_operator(a_coarse);\n    }\n", "      level_coarse.set_operator(a_coarse);\n      }\n    }\n"))
m("c18-q5", "quiet", "C18", (HI, "      coarse_solver->apply(b, x);\n      timer_leave_subsection(_timer);\n    }\n    else\n    {\n", "      coarse_solver->apply(b, x);\n      timer_leave_subsection(_timer);\n      return;\n    }\n    {\n"))
m("c18-q6", "quiet", "C18", (HI, "    timer_enter_subsection(_timer, \"Apply\");\n    apply(b, x, 0);\n    timer_leave_subsection(_timer);", "    if (_timer)\n    {\n      _timer->enter_subsection(\"Apply\");\n      apply(b, x, 0);\n      _timer->leave_subsection(\"Apply\");\n    }\n    else\n      apply(b, x, 0);"))

# ---- C19
m("c19-b1", "bad", "C19", (U, "C->compress(dealii::VectorOperation::insert)", "C->compress(dealii::VectorOperation::add)"))
m("c19-b2", "bad", "C19", (U, "  C->compress(dealii::VectorOperation::insert);\n", ""))
m("c19-b3", "bad", "C19", (A, "  // Compress the matrix\n  restriction_sparse_matrix.compress(dealii::VectorOperation::add);\n", ""))
m("c19-b4", "bad", "C19", (A, "  // Compress the matrix\n  restriction_sparse_matrix.compress(dealii::VectorOperation::add);\n", "  if (pos > 0)\n    restriction_sparse_matrix.compress(dealii::VectorOperation::add);\n"))
m("c19-b5", "bad", "C19", (A, "  delta_eigenvector_matrix->compress(dealii::VectorOperation::insert);\n", ""))
m("c19-b6", "bad", "C19", (A, "  eigenvector_sparse_matrix->compress(dealii::VectorOperation::add);\n", "  eigenvector_sparse_matrix->compress(dealii::VectorOperation::insert);\n"))
m("c19-b7", "bad", "C19", (A, "  sp.compress();\n\n  return sp;", "  return sp;"))
m("c19-b8", "bad", "C19", (A, "  sp.compress();\n\n  return sp;", "  if (row != 0)\n    sp.compress();\n\n  return sp;"))
m("c19-b9", "bad", "C19", (DH, "    delta_correction_matrix.compress(dealii::VectorOperation::insert);\n", ""))
m("c19-b10", "bad", "C19", (DH, "    delta_correction_matrix.compress(dealii::VectorOperation::insert);\n", ""), (DH, "    error_code = ap->FillComplete(domain_map, range_map);\n", "    delta_correction_matrix.compress(dealii::VectorOperation::insert);\n    error_code = ap->FillComplete(domain_map, range_map);\n"))
m("c19-b11", "bad", "C19", (DH, "    vector_eigenvalues.compress(dealii::VectorOperation::insert);\n", ""))
m("c19-b12", "bad", "C19", (DH, "    error_code = ap->FillComplete(domain_map, range_map);\n", ""))
m("c19-b13", "bad", "C19", (DH, "    error_code = ap->FillComplete(domain_map, range_map);\n", "    if (eigenvector_matrix->m() > 1)\n      error_code = ap->FillComplete(domain_map, range_map);\n"))
m("c19-b14", "bad", "C19", (MH, "    delta_correction_matrix.compress(dealii::VectorOperation::insert);\n", "    if (eigenvalues.size() > 1)\n      delta_correction_matrix.compress(dealii::VectorOperation::insert);\n"))
m("c19-b15", "bad", "C19", (UC, "  ghosted_vector.compress(dealii::VectorOperation::add);\n", ""))
m("c19-b16", "bad", "C19", (UC, "ghosted_vector.compress(dealii::VectorOperation::add)", "ghosted_vector.compress(dealii::VectorOperation::insert)"))
m("c19-b17", "bad", "C19", (A, "        eigenvector_sparse_matrix->add(local_range.first + pos, global_pos,\n                                       eigenvectors[pos][j]);", "        if (j == 0)\n          eigenvector_sparse_matrix->set(local_range.first + pos, global_pos,\n                                         eigenvectors[pos][j]);\n        else\n          eigenvector_sparse_matrix->add(local_range.first + pos, global_pos,\n                                       eigenvectors[pos][j]);"))
m("c19-b18", "bad", "C19", (MH, "    error_code = ap->FillComplete(domain_map, range_map);\n", ""), (MH, "    dealii_ap->reinit(*ap);\n", "    dealii_ap->reinit(*ap);\n    error_code = ap->FillComplete(domain_map, range_map);\n"))
m("c19-b19", "bad", "C19", (U, "    A.apply(src, dst);\n", "    A.apply(src, dst);\n    if (C->el(j, j) != 0.)\n      continue;\n"))
m("c19-q1", "quiet", "C19", (U, "  C->compress(dealii::VectorOperation::insert);\n\n  return C;\n", "  auto finish = [](dealii::TrilinosWrappers::SparseMatrix &matrix) {\n    matrix.compress(dealii::VectorOperation::insert);\n  };\n  finish(*C);\n\n  return C;\n"))
m("c19-q2", "quiet", "C19", (A, "  // Compress the matrix\n  restriction_sparse_matrix.compress(dealii::VectorOperation::add);\n", "  if (pos > 0)\n  {\n    restriction_sparse_matrix.compress(dealii::VectorOperation::add);\n    return;\n  }\n  restriction_sparse_matrix.compress(dealii::VectorOperation::add);\n"))
m("c19-q3", "quiet", "C19", (A, "  restriction_sparse_matrix->compress(dealii::VectorOperation::add);\n  eigenvector_sparse_matrix->compress(dealii::VectorOperation::add);\n", "  for (auto *matrix :\n       {restriction_sparse_matrix.get(), eigenvector_sparse_matrix.get()})\n    matrix->compress(dealii::VectorOperation::add);\n"))
m("c19-q4", "quiet", "C19", (A, "  restriction_sparse_matrix->compress(dealii::VectorOperation::add);\n  eigenvector_sparse_matrix->compress(dealii::VectorOperation::add);\n", "  eigenvector_sparse_matrix->compress(dealii::VectorOperation::add);\n  restriction_sparse_matrix->compress(dealii::VectorOperation::add);\n"))
m("c19-q5", "quiet", "C19", (DH, "    error_code = ap->FillComplete(domain_map, range_map);\n", "    if (eigenvector_matrix->m() > 0)\n      error_code = ap->FillComplete(domain_map, range_map);\n    else\n      error_code = ap->FillComplete(domain_map, range_map);\n"))
m("c19-q6", "quiet", "C19", (A, "  restriction_sparse_matrix->compress(dealii::VectorOperation::add);\n  eigenvector_sparse_matrix->compress(dealii::VectorOperation::add);\n", "  auto const mode = dealii::VectorOperation::add;\n  restriction_sparse_matrix->compress(mode);\n  eigenvector_sparse_matrix->compress(mode);\n"))
m("c19-q7", "quiet", "C19", (UC, "  ghosted_vector.compress(dealii::VectorOperation::add);\n", "  if (num_entries > 0)\n    ghosted_vector.compress(dealii::VectorOperation::add);\n  else\n    ghosted_vector.compress(dealii::VectorOperation::add);\n"))
m("c19-q8", "quiet", "C19", (DH, "    vector_eigenvalues.set(local_indices, eigenvalues);\n", "    for (unsigned int i = 0; i < eigenvalues.size(); ++i)\n      vector_eigenvalues[local_indices[i]] = eigenvalues[i];\n"))
m("c19-q9", "quiet", "C19", (DH, "    error_code = ap->FillComplete(domain_map, range_map);\n", "    auto complete = [&](Epetra_CrsMatrix &sum) {\n      return sum.FillComplete(domain_map, range_map);\n    };\n    error_code = complete(*ap);\n"))
m("c19-q10", "quiet", "C19", (U, "          C->set(i, j, value);", "          auto &entry_of = *C;\n          entry_of.set(i, j, value);"))

# ---- C20
TS = "source/dealii/dealii_trilinos_matrix_operator.cc"
m("c20-b1", "bad", "C20", (HI, "          params =\n              std::make_shared<boost::property_tree::ptree>(*params);\n", ""))
m("c20-b2", "bad", "C20", (HI, "    timer_enter_subsection(_timer, \"Setup\");", "    timer_enter_subsection(_timer, \"Setup\");\n    params->get_child(\"smoother\").put(\"type\", params->get(\"smoother.type\", \"Jacobi\"));"))
m("c20-b3", "bad", "C20", (TS, "  auto a_mat = this->get_matrix();\n  auto b_mat = downcast_b->get_matrix();\n\n  auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();\n  a_mat->mmult(*c_mat, *b_mat);", "  auto a_mat = this->get_matrix();\n  auto b_mat = downcast_b->get_matrix();\n\n  auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();\n  const_cast<dealii::TrilinosWrappers::SparseMatrix &>(*b_mat).compress(\n      dealii::VectorOperation::insert);\n  const_cast<dealii::TrilinosWrappers::SparseMatrix &>(*b_mat) *= 1.;\n  a_mat->mmult(*c_mat, *b_mat);"))
m("c20-b4", "bad", "C20", (TS, "  auto epetra_matrix = _sparse_matrix->trilinos_matrix();\n", "  auto &epetra_matrix = const_cast<Epetra_CrsMatrix &>(\n      _sparse_matrix->trilinos_matrix());\n  epetra_matrix.Scale(1.);\n"))
m("c20-b5", "bad", "C20", (HI, "      // compute residual", "      if (_n_smoothing_steps > 3)\n        const_cast<VectorType &>(b) *= 1.;\n      // compute residual"))
m("c20-b6", "bad", "C20", (SM, "    _smoother.reset(new dealii::TrilinosWrappers::PreconditionILU());", "    const_cast<dealii::TrilinosWrappers::SparseMatrix &>(*sparse_matrix)\n        .set(0, 0, sparse_matrix->el(0, 0));\n    _smoother.reset(new dealii::TrilinosWrappers::PreconditionILU());"))
m("c20-b8", "bad", "C20", (SO, "  std::string coarse_type_lower = coarse_type;", "  if (coarse_type.empty())\n    const_cast<boost::property_tree::ptree &>(*params).put(\"coarse.type\",\n                                                           \"direct\");\n  std::string coarse_type_lower = coarse_type;"))
m("c20-b9", "bad", "C20", ("source/dealii/dealii_matrix_free_smoother.cc", "  x.add(-1., tmp);", "  x.add(-1., tmp);\n  const_cast<vector_type &>(b).swap(r);"))
m("c20-b10", "bad", "C20", (SO, "    _smoother->vmult(x, b);", "    _smoother->vmult(x, b);\n    if (x.size() == 1)\n      const_cast<VectorType &>(b) = x;"))
m("c20-b11", "bad", "C20", (HI, "    _n_smoothing_steps = params->get(\"smoother.n_smoothing_steps\", 1);", "    _n_smoothing_steps = params->get(\"smoother.n_smoothing_steps\", 1);\n    params->put(\"smoother.n_smoothing_steps\", _n_smoothing_steps);"))
m("c20-b12", "bad", "C20", (DH, "  auto eigensolver_params = params->get_child(\"eigensolver\");", "  auto &eigensolver_params = const_cast<boost::property_tree::ptree &>(\n      params->get_child(\"eigensolver\"));\n  eigensolver_params.put(\"type\", eigensolver_params.get(\"type\", \"lanczos\"));"))
m("c20-b13", "bad", "C20", (AT, "      *mv[index[i]] = *A[i];", "    {\n      *mv[index[i]] = *A[i];\n      *A[i] = 0.;\n    }"))
m("c20-q6", "quiet", "C20", (DH, "  auto eigensolver_params = params->get_child(\"eigensolver\");", "  auto eigensolver_params = params->get_child(\"eigensolver\");\n  eigensolver_params.put(\"type\", eigensolver_params.get(\"type\", \"lanczos\"));"))
m("c20-b14", "bad", "C20", (TS, "  auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();\n  a_mat->mmult(*c_mat, *b_mat);", "  auto c_mat = std::const_pointer_cast<dealii::TrilinosWrappers::SparseMatrix>(\n      downcast_b->get_matrix());\n  a_mat->mmult(*c_mat, *b_mat);"))
m("c20-q1", "quiet", "C20", (HI, "          params =\n              std::make_shared<boost::property_tree::ptree>(*params);\n          params->put(", "          auto own =\n              std::make_shared<boost::property_tree::ptree>(*params);\n          params = own;\n          own->put("))
m("c20-q2", "quiet", "C20", (TS, "  auto epetra_matrix = _sparse_matrix->trilinos_matrix();\n", "  auto epetra_matrix = _sparse_matrix->trilinos_matrix();\n  epetra_matrix.Scale(1.);\n"))
m("c20-q3", "quiet", "C20", (HI, "          params =\n              std::make_shared<boost::property_tree::ptree>(*params);\n          params->put(\"coarse.params.zero starting solution\",\n                      _is_preconditioner);", "          auto with_start = [this](boost::property_tree::ptree tree) {\n            tree.put(\"coarse.params.zero starting solution\",\n                     _is_preconditioner);\n            return std::make_shared<boost::property_tree::ptree>(tree);\n          };\n          params = with_start(*params);"))
m("c20-q4", "quiet", "C20", (SO, "  auto sparse_matrix = trilinos_operator->get_matrix();", "  auto const matrix_copy =\n      std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();\n  matrix_copy->copy_from(*trilinos_operator->get_matrix());\n  matrix_copy->compress(dealii::VectorOperation::insert);\n  auto sparse_matrix = trilinos_operator->get_matrix();"))
m("c20-q5", "quiet", "C20", (HI, "      x = 0.;\n", "      auto clear = [](VectorType &v) { v = 0.; };\n      clear(x);\n"))

# ---- C30
EX = "include/mfmg/common/exceptions.hpp"
m("c30-b1", "bad", "C30", (EX, "inline void ASSERT_THROW(bool cond", "void ASSERT_THROW(bool cond"))
m("c30-b2", "bad", "C30", ("include/mfmg/common/hierarchy_helpers.hpp", "#ifndef MFMG_HIERARCHY_HELPERS_HPP\n#define MFMG_HIERARCHY_HELPERS_HPP", "#ifndef MFMG_HIERARCHY_HPP\n#define MFMG_HIERARCHY_HPP"))
m("c30-b3", "bad", "C30", ("include/mfmg/common/utils.hpp", "template <typename T>\nstd::vector<unsigned int> sort_permutation", "int utils_verbosity = 0;\n\ntemplate <typename T>\nstd::vector<unsigned int> sort_permutation"))
m("c30-b4", "bad", "C30", ("include/mfmg/common/level.hpp", "#include <mfmg/common/solver.hpp>\n", ""))
m("c30-b5", "bad", "C30", ("include/mfmg/dealii/multivector.hpp", "#ifndef MFMG_MULTIVECTOR_HPP\n#define MFMG_MULTIVECTOR_HPP\n", "#ifndef MFMG_MULTIVECTOR_HPP\n"))
m("c30-q1", "quiet", "C30", ("include/mfmg/common/utils.hpp", "template <typename T>\nstd::vector<unsigned int> sort_permutation", "static int const utils_verbosity = 0;\ninline int verbosity() { return utils_verbosity; }\nnamespace\n{\nint other() { return 1; }\n}\n\ntemplate <typename T>\nstd::vector<unsigned int> sort_permutation"))
m("c30-q2", "quiet", "C30", ("include/mfmg/common/level.hpp", "#ifndef MFMG_LEVEL_HPP\n#define MFMG_LEVEL_HPP\n", "#pragma once\n#ifndef MFMG_LEVEL_HPP_\n#define MFMG_LEVEL_HPP_\n"))

# ---- C33
m("c33-b1", "bad", "C33", (MH, "params->get(\"fast_ap\", false)", "params->get(\"fast ap\", false)"))
m("c33-b2", "bad", "C33", (MH, "eigensolver_params.get(\"tolerance\", 1e-14)", "eigensolver_params.get(\"tolerance\", 1e-12)"))
m("c33-b3", "bad", "C33", (MH, "eigensolver_params.get(\"number of eigenvectors\", 1)", "eigensolver_params.get(\"number of eigenvectors\", 2)"))
m("c33-b4", "bad", "C33", (AH, "eigensolver_params.get(\"max_iterations\", 200)", "eigensolver_params.get(\"max iterations\", 200)"))
m("c33-b5", "bad", "C33", (AH, "lanczos_params.put(\"percent_overshoot\",", "lanczos_params.put(\"percent overshoot\","))
m("c33-b6", "bad", "C33", (AH, "  lanczos_params.put(\"max_iterations\",\n                     eigensolver_params.get(\"max_iterations\", 200));", "  lanczos_params.put(\"max_iterations\",\n                     eigensolver_params.get(\"percent_overshoot\", 200));"))
m("c33-b7", "bad", "C33", (AH, "    lanczos_params.put(\"num_eigenpairs_per_cycle\",\n                       eigensolver_params.get<int>(\"num_eigenpairs_per_cycle\"));", "    if (n_eigenvectors > 1)\n      lanczos_params.put(\"num_eigenpairs_per_cycle\",\n                         eigensolver_params.get<int>(\"num_eigenpairs_per_cycle\"));"))
m("c33-b8", "bad", "C33", (AZ, "\"Convergence Tolerance\"", "\"Convergence tolerance\""))
m("c33-b9", "bad", "C33", (AZ, "params.get<int>(\"max_iterations\", 1000)", "params.get<unsigned int>(\"max_iterations\", 1000)"))
m("c33-b10", "bad", "C33", (AZ, "  solverParams.set(\"Full Ortho\", params.get<bool>(\"full_ortho\", true));\n", ""))
m("c33-b11", "bad", "C33", (HI, "params->get(\"fast_ap\", false)", "params->get(\"fast_ap\", true)"))
m("c33-b12", "bad", "C33", (AH, "    lanczos_params.put(\"is_deflated\", true);\n", ""))
m("c33-b13", "bad", "C33", (AH, "lanczos_params.put(\"tolerance\", std::max(tolerance, 1e-4));", "lanczos_params.put(\"tolerance\", 1e-4);"))
m("c33-b14", "bad", "C33", (MH, "params->get_child(\"agglomeration\")", "params->get_child(\"agglomerates\")"))
m("c33-q1", "quiet", "C33", (MH, "params->get(\"fast_ap\", false)", "params->get<bool>(\"fast_ap\", 0 > 1)"))
m("c33-q2", "quiet", "C33", (MH, "  double tolerance = eigensolver_params.get(\"tolerance\", 1e-14);", "  double tolerance = params->get(\"eigensolver.tolerance\", 1e-14);"))
m("c33-q3", "quiet", "C33", (AH, "  lanczos_params.put(\"max_iterations\",\n                     eigensolver_params.get(\"max_iterations\", 200));", "  int const max_iterations = eigensolver_params.get<int>(\"max_iterations\", 200);\n  lanczos_params.put<int>(\"max_iterations\", max_iterations);"))
m("c33-q4", "quiet", "C33", (AH, "  bool is_deflated = eigensolver_params.get(\"is_deflated\", false);\n  if (is_deflated)\n  {\n    lanczos_params.put(\"is_deflated\", true);", "  bool is_deflated = eigensolver_params.get(\"is_deflated\", false);\n  lanczos_params.put(\"is_deflated\", is_deflated);\n  if (is_deflated)\n  {"))
m("c33-q5", "quiet", "C33", (AZ, "  solverParams.set(\"Convergence Tolerance\", params.get<double>(\"tolerance\"));", "  auto const add = [&](std::string const &name, double value) {\n    solverParams.set(name, value);\n  };\n  add(\"Convergence Tolerance\", params.get<double>(\"tolerance\"));"))
m("c33-q6", "quiet", "C33", (AH, "  boost::property_tree::ptree lanczos_params;", "  boost::property_tree::ptree lanczos_params = eigensolver_params;"))
m("c33-q7", "quiet", "C33", (MH, "  double tolerance = eigensolver_params.get(\"tolerance\", 1e-14);", "  double tolerance = 1e-14;\n  if (auto const given = eigensolver_params.get_optional<double>(\"tolerance\"))\n    tolerance = *given;"))

# -- C31 ownership
DEL = "    dealii_ap->reinit(*ap);\n    delete ap;\n"
m("c31-b1", "bad", "C31", (MH, DEL, "    dealii_ap->reinit(*ap);\n"))
m("c31-b2", "bad", "C31", (DH, DEL, "    dealii_ap->reinit(*ap);\n    if (n_eigenvectors > 1)\n      delete ap;\n"))
m("c31-b3", "bad", "C31", (DH, DEL, "    std::unique_ptr<Epetra_CrsMatrix> owner(ap);\n    dealii_ap->reinit(*ap);\n    if (n_eigenvectors > 8)\n      delete ap;\n"))
m("c31-b4", "bad", "C31", (MH, DEL, "    delete ap;\n    dealii_ap->reinit(*ap);\n"))
m("c31-b5", "bad", "C31", (SM, "    _smoother.reset(new dealii::TrilinosWrappers::PreconditionILU());\n    static_cast<dealii::TrilinosWrappers::PreconditionILU *>(_smoother.get())\n        ->initialize(*sparse_matrix);", "    dealii::TrilinosWrappers::SparseMatrix copy;\n    copy.copy_from(*sparse_matrix);\n    _smoother.reset(new dealii::TrilinosWrappers::PreconditionILU());\n    static_cast<dealii::TrilinosWrappers::PreconditionILU *>(_smoother.get())\n        ->initialize(copy);"))
m("c31-b6", "bad", "C31", (SO, "    _solver.reset(new dealii::TrilinosWrappers::SolverDirect(_solver_control));", "    dealii::SolverControl control;\n    _solver.reset(new dealii::TrilinosWrappers::SolverDirect(control));"))
m("c31-b7", "bad", "C31", (LA, "  DeflatedOperator<OperatorType, VectorType> deflated_op(_op);", "  DeflatedOperator<OperatorType, VectorType> deflated_op(OperatorType{_op});"))
m("c31-b8", "bad", "C31", ("source/dealii/dealii_matrix_free_operator.cc", "  auto tmp = this->build_range_vector();\n  auto b_mat = downcast_b->get_matrix();\n\n  auto c_mat = matrix_transpose_matrix_multiply(\n      tmp->locally_owned_elements(), b_mat->locally_owned_range_indices(),\n      tmp->get_mpi_communicator()", "  auto const &tmp = *this->build_range_vector();\n  auto b_mat = downcast_b->get_matrix();\n\n  auto c_mat = matrix_transpose_matrix_multiply(\n      tmp.locally_owned_elements(), b_mat->locally_owned_range_indices(),\n      tmp.get_mpi_communicator()"))
m("c31-b9", "bad", "C31", ("include/mfmg/dealii/dealii_utils.hpp", "  auto tmp = A.build_range_vector();", "  auto *tmp = A.build_range_vector().get();"))
m("c31-b10", "bad", "C31", ("include/mfmg/common/smoother.hpp", "      : _operator(op), _params(params)", "      : _operator(op.get(), [](Operator<vector_type> const *) {}), _params(params)"))
m("c31-b11", "bad", "C31", (DH, "    _ap_operator.reset(new DealIITrilinosMatrixOperator<VectorType>(dealii_ap));", "    auto *ap_operator = new DealIITrilinosMatrixOperator<VectorType>(dealii_ap);\n    if (!eigenvalues.empty())\n      _ap_operator.reset(ap_operator);"))
m("c31-b12", "bad", "C31", (DH, "                          restrictor_matrix, eigenvector_matrix,\n                          delta_eigenvector_matrix, eigenvalues);", "                          restrictor_matrix, eigenvector_matrix,\n                          delta_eigenvector_matrix, eigenvalues);\n    auto &delta = *delta_eigenvector_matrix.release();\n    delta.compress(dealii::VectorOperation::add);\n    delta_eigenvector_matrix.reset(new dealii::TrilinosWrappers::SparseMatrix());\n    delta_eigenvector_matrix->copy_from(delta);"))
m("c31-b13", "bad", "C31", ("include/mfmg/common/smoother.hpp", "  std::shared_ptr<Operator<vector_type> const> _operator;", "  std::weak_ptr<Operator<vector_type> const> _operator_weak;\n  Operator<vector_type> const *_operator_raw = nullptr;\n  std::shared_ptr<Operator<vector_type> const> _operator;"), ("include/mfmg/common/smoother.hpp", "      : _operator(op), _params(params)\n  {\n  }", "      : _operator_weak(op), _operator_raw(op.get()), _operator(op), _params(params)\n  {\n  }"), (SM, "    ASSERT_THROW(false, \"Unknown smoother name: \\\"\" + prec_name + \"\\\"\");\n  }\n", "    ASSERT_THROW(false, \"Unknown smoother name: \\\"\" + prec_name + \"\\\"\");\n  }\n  this->_operator.reset();\n"))
m("c31-b14", "bad", "C31", (AT, "    return Teuchos::rcp(new MultiVectorType(numvecs, mv.size()));", "    MultiVectorType clone(numvecs, mv.size());\n    return Teuchos::rcpFromRef(clone);"))
m("c31-q1", "quiet", "C31", (DH, DEL, "    std::unique_ptr<Epetra_CrsMatrix> const owner(ap);\n    dealii_ap->reinit(*owner);\n"))
m("c31-q2", "quiet", "C31", (DH, "    _ap_operator.reset(new DealIITrilinosMatrixOperator<VectorType>(dealii_ap));", "    _ap_operator = std::make_shared<DealIITrilinosMatrixOperator<VectorType>>(dealii_ap);"))
m("c31-q3", "quiet", "C31", (MH, DEL, "    auto const finish = [](Epetra_CrsMatrix *sum, dealii::TrilinosWrappers::SparseMatrix &copy) {\n      copy.reinit(*sum);\n      delete sum;\n    };\n    finish(ap, *dealii_ap);\n"))
m("c31-q4", "quiet", "C31", (SM, "    _smoother.reset(new dealii::TrilinosWrappers::PreconditionILU());\n    static_cast<dealii::TrilinosWrappers::PreconditionILU *>(_smoother.get())\n        ->initialize(*sparse_matrix);", "    auto ilu = std::make_unique<dealii::TrilinosWrappers::PreconditionILU>();\n    ilu->initialize(*sparse_matrix);\n    _smoother = std::move(ilu);"))
m("c31-q5", "quiet", "C31", (AT, "    return Teuchos::rcp(new MultiVectorType(numvecs, mv.size()));", "    auto *clone = new MultiVectorType(numvecs, mv.size());\n    return Teuchos::rcp(clone);"))
m("c31-q6", "quiet", "C31", (MH, DEL, "    dealii_ap->reinit(*ap);\n    if (n_eigenvectors > 1)\n    {\n      delete ap;\n    }\n    else\n    {\n      delete ap;\n    }\n"))
m("c31-q7", "quiet", "C31", ("include/mfmg/dealii/dealii_utils.hpp", "  auto tmp = A.build_range_vector();\n", "  auto const range_vector = A.build_range_vector();\n  auto *tmp = range_vector.get();\n"))
m("c31-q8", "quiet", "C31", (MH, "    std::unique_ptr<dealii::TrilinosWrappers::SparseMatrix> eigenvector_matrix;", "    std::unique_ptr<dealii::TrilinosWrappers::SparseMatrix> eigenvector_matrix(\n        new dealii::TrilinosWrappers::SparseMatrix());"))
m("c31-q9", "quiet", "C31", (DH, "  std::shared_ptr<Operator<VectorType>> op(\n      new DealIITrilinosMatrixOperator<VectorType>(restrictor_matrix));\n\n  return op;", "  std::unique_ptr<Operator<VectorType>> op(\n      new DealIITrilinosMatrixOperator<VectorType>(restrictor_matrix));\n\n  return std::shared_ptr<Operator<VectorType>>(op.release());"))
