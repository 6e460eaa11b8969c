GEN = "Every obligation of the contracts listed in the evidence file is discharged for all inputs satisfying the preconditions (any sizes, any contents). Assumed: exact real arithmetic for doubles, allocation succeeds, no size_t wrap, termination; assumed callee contracts are listed in trusted_base. The replay harness is a bounded stand-in for the functions without contract and is not counted as proved. "
prop("C02", "Copies are equal and independent",
  "Copying an object (a univariate function, an array of functions, a function train, an optimizer with its settings and history) yields an object with the same shape and the same value at every point. The copy shares no storage with the original: changing or freeing either one never changes the other.",
  ["inputs", "histories"], "every object of any shape, any number of nodes and parameters, and any later use of either copy",
  "tests copy a few fixed objects and compare a few values; they cannot show that no cell of the copy is ever shared with the original",
  ["c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/ft.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c"],
  [("element-wise deep copy", "qmarray_copy, function_train_copy, generic_function_copy, lin_elem_exp_copy, const_elem_exp_copy"), ("optimizers", "c3opt_copy")], GEN)
prop("C04", "Structural operations on function arrays keep layout and shape",
  "Building, transposing, stacking (horizontally, vertically, block-diagonally), taking leading columns, differentiating and evaluating a matrix of univariate functions yields a matrix of the documented shape in which every entry is exactly the documented entry of the operands (or zero in the off-diagonal blocks). The operands are unchanged and the result consists of newly created functions only.",
  ["inputs"], "all numbers of rows and columns (square or not) and all entries",
  "tests use a handful of shapes, mostly square, and compare a few entries",
  ["c3/lib_clinalg/qmarray.c"],
  [("column-major layout of function arrays", "qmarray_alloc, qmarray_transpose, qmarray_stackh, qmarray_stackv, qmarray_blockdiag, qmarray_first_cols, qmarray_zeros, qmarray_deriv, qmarray_eval")], GEN)
prop("C05", "Algebra of function arrays follows matrix algebra",
  "Products of matrices of univariate functions with scalar matrices and with each other (plain, either operand transposed, Kronecker), linear combinations, and integrals of such products have, in every entry, the value given by the textbook sum over the inner index. This holds for every conforming shape, and the operands are unchanged.",
  ["inputs"], "all conforming shapes, all strides, all entries and coefficients, every evaluation point",
  "tests sample fixed sizes; index and stride mistakes that only matter for other shapes stay invisible",
  ["c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c"],
  [("linear combinations and sums of products with strides", "generic_function_lin_comb2, generic_function_sum_prod, generic_function_inner_sum"),
   ("products", "qmam, qmatm, mqma, qmaqma, qmatqma, qmaqmat, qmatqmat, qmarray_kron and the integrated forms")], GEN)
prop("C06", "Arithmetic on function trains is pointwise",
  "Sum, product, scaling, axpy, sums of products, matrix-vector combinations of arrays of function trains, rounding and the standard constructors (constant, zero, rank-one product, linear, sum of univariate functions, nodal re-interpolation) return a well-formed function train: outer ranks one, every core's shape equal to its neighbouring ranks. Its value at every point is the corresponding pointwise combination of the operands' values (for rounding: up to discarded singular values whose squares sum, per core, to less than the threshold times the norm), for every dimension (including one), every rank and every coefficient. Operands the operation does not document as modified are unchanged.",
  ["inputs"], "every dimension, rank profile, coefficient and evaluation point",
  "tests exercise a few dimensions and ranks; boundary cores (first, last, only) and rank bookkeeping for other shapes are not sampled",
  ["c3/lib_clinalg/ft.c"],
  [("core-wise construction", "function_train_sum, function_train_product, function_train_operate, function_train_copy"),
   ("scaling and combination", "function_train_scale, c3axpy, c3vaxpy, c3vprodsum, c3vgemv, ft1d_array_scale"),
   ("constructors and rounding", "function_train_constant, function_train_zeros, function_train_linear, function_train_rankone_prod, function_train_initsum, function_train_create_nodal, function_train_round")], GEN)
prop("C07", "Evaluation and calculus of function trains agree with the represented function",
  "Evaluating a function train (single point, many points, up to a core, at node indices, along coordinate perturbations or a fiber), integrating it (all dimensions or a subset), taking inner products and norms, and differentiating it (gradient, diagonal and full Hessian, Jacobian, gradient at a point) return the value defined by the chain of core matrices: the product of the core values, the product of the core integrals, and the cores differentiated in the corresponding dimension only. This holds for every dimension and rank, repeated calls give the same answer, and the function train is unchanged.",
  ["inputs", "histories"], "every dimension, rank profile, point, index and call sequence",
  "tests check a few low-dimensional polynomials; internal workspace reuse across ranks, boundary cores and one-dimensional trains are not sampled",
  ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c"],
  [("evaluation", "function_train_eval, function_train_evals, function_train_eval_up_to_core, function_train_eval_ind, function_train_eval_co_perturb, function_train_eval_fiber_ind"),
   ("integration and inner products", "function_train_integrate, function_train_integrate_weighted_subset, function_train_inner, function_train_norm2, c3dot"),
   ("derivatives", "function_train_gradient, function_train_gradient_eval, function_train_hessian, function_train_hessian_diag, ft1d_array_jacobian")], GEN)
prop("C08", "Univariate element functions behave as interpolants of their nodal values",
  "A piecewise-linear or piecewise-constant function given by increasing nodes and nodal values reproduces the nodal value at every node, interpolates linearly (respectively takes the nearest node's value) between nodes and is zero outside its domain. Constructors (constant, zero, linear, from parameters, zero/one interpolants, orthonormal bases, adaptive approximation) produce the described function on the requested nodes. Scaling, sign flip, axpy, products on shared nodes, integrals and inner products (nodal quadrature), norms, minima, maxima and absolute maxima with their locations, and difference-quotient and periodic derivatives are the stated functions of nodes and values, for every number of nodes and every position of the evaluation point. Operands not documented as modified are unchanged.",
  ["inputs"], "every strictly increasing node set (any size, any spacing), every nodal value, every evaluation point",
  "tests use smooth functions on large uniform grids and loose tolerances; boundary intervals, few nodes, shared nodes and ties are not sampled",
  ["c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/functions.c"],
  [("piecewise-linear functions", "lin_elem_exp_eval, lin_elem_exp_integrate, lin_elem_exp_inner, lin_elem_exp_axpy, lin_elem_exp_prod, lin_elem_exp_max, lin_elem_exp_min, lin_elem_exp_absmax, lin_elem_exp_deriv, lin_elem_exp_dderiv, lin_elem_exp_dderiv_periodic, lin_elem_exp_orth_basis, lin_elem_exp_onezero, lin_elem_exp_approx"),
   ("piecewise-constant functions", "const_elem_exp_eval, const_elem_exp_integrate, const_elem_exp_inner, const_elem_exp_axpy, const_elem_exp_prod, const_elem_exp_max, const_elem_exp_min, const_elem_exp_absmax, const_elem_exp_deriv, const_elem_exp_orth_basis, const_elem_exp_onezero, const_elem_exp_approx"),
   ("class dispatch", "generic_function_1d_eval, generic_function_inner, generic_function_integrate, generic_function_axpy, generic_function_constant")], GEN)
prop("C03", "Parameter vectors describe functions exactly",
  "A function, an array of functions and a function train expose their parameters as one vector with a fixed layout: cores in order, the functions of a core in column-major order, each function's own parameters in order. The reported count is the length of that vector. Reading after an update returns the vector bit for bit, an update of all, one core's, one function's, or the part outside or inside a rank block changes exactly those parameters, the represented function is always the one the vector describes, and no cell beyond the vector is written. Gradients with respect to the parameters (of one function at one or many points, of an array, of a function train whole or one core at a time, of squared norms, and Hessian-vector products) are the derivatives of the value with respect to the parameter at the same position, for every dimension and rank, and computing them changes nothing.",
  ["inputs", "histories"], "every function class with parameters, every number of parameters, dimension, rank profile, point and update sequence",
  "tests compare finite differences for a few fixed shapes; offsets that are only wrong for other ranks, boundary cores or unequal parameter counts stay invisible",
  ["c3/lib_superlearn/parameterization.c", "c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c"],
  [("layout and update", "function_train_get_params, function_train_update_params, qmarray_get_params, qmarray_update_params, generic_function_update_params, ft_param_update_params, ft_param_update_restricted_ranks, ft_param_update_inside_restricted_ranks, ft_param_update_core_params, ft_param_alloc, ft_param_alloc_with_ft"),
   ("gradients", "generic_function_param_grad_eval, generic_function_param_grad_eval2, generic_function_squared_norm_param_grad, qmarray_param_grad_eval, qmarray_param_grad_eval_sparse_mult, qmarray_linparam_eval, function_train_param_grad_sqnorm, ft_param_gradeval, ft_param_gradeval_lin, ft_param_eval_lin, ft_param_core_gradeval, ft_param_core_gradeval_lin, ft_param_hessvec")], GEN)
prop("C01", "Serialized and saved objects are restored exactly",
  "Serializing a function, an array of functions, a quasimatrix, a function train, an array of function trains, a linear transform or a probability density writes exactly the announced number of bytes and touches no byte outside them. Deserializing reads exactly these bytes, advances the position by the same amount and returns an object of the same shape with every number restored bit for bit, so the value at every point is the same; the original is unchanged. Saving to a file and loading it back restores the object the same way, and the text form restores every number exactly when written with at least 17 significant digits. Objects written one after the other are read back in the same order.",
  ["inputs", "histories"], "every shape, rank profile, number of nodes and parameters, and every finite value",
  "tests round-trip a few fixed objects and compare sampled values with tolerances; a size announced too large or too small, a neighbour overwritten or a field lost for other shapes stays invisible",
  ["c3/lib_array/array.c", "c3/lib_stringmanip/stringmanip.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c", "c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/quasimatrix.c", "c3/lib_clinalg/ft.c", "c3/lib_probability/probability.c"],
  [("primitives", "serialize_size_t, serialize_int, serialize_double, serialize_doublep and the matching deserialize functions"),
   ("functions", "serialize_generic_function, deserialize_generic_function, serialize_lin_elem_exp, deserialize_lin_elem_exp, serialize_const_elem_exp, deserialize_const_elem_exp, serialize_kernel_expansion, deserialize_kernel_expansion"),
   ("arrays and function trains", "qmarray_serialize, qmarray_deserialize, quasimatrix_serialize, quasimatrix_deserialize, function_train_serialize, function_train_deserialize, ft1d_array_serialize, ft1d_array_deserialize, function_train_save, function_train_load, function_train_savetxt, function_train_loadtxt"),
   ("probability", "linear_transform_serialize, linear_transform_deserialize, probability_density_serialize, probability_density_deserialize, probability_density_save, probability_density_load")], GEN)
prop("C09", "Dense array and matrix utilities compute what their names say",
  "Constructing arrays (constant, zero, identity-like, equally spaced, diagonal, concatenated), reductions (products, means, norms, largest element with its position), selecting rows, matrices from vectors, horizontal and block-diagonal concatenation, Kronecker products (dense, column-major with leading dimensions, and applied to a vector), QR and RQ factorizations, singular value decompositions, pseudo-inverses and least squares return exactly the documented array: every entry is the documented one, factors reproduce the matrix and are orthonormal, a truncated decomposition keeps the smallest number of terms (at least one) whose discarded squares sum to less than the tolerance, for every size, shape and leading dimension. Inputs not documented as overwritten are unchanged and nothing outside the outputs is written.",
  ["inputs"], "every size (including one and non-square), leading dimension, content and tolerance",
  "tests use a few fixed small matrices; wrong strides and bounds for other shapes stay invisible",
  ["c3/lib_array/array.c", "c3/lib_linalg/linalg.c", "c3/lib_linalg/matrix_util.c"],
  [("arrays", "dones, darray_val, linspace, logspace, arange, diag, dconcat_cols, dprod, copy_dd, c3vector_alloc, c3vector_copy"),
   ("matrices", "v2m, diagv2m, horizcat, block_diag, mat_ones, kron, kron_col, vec_kron, getrows, rows_to_top_col, maxabselem, norm2, norm2diff, mean"),
   ("factorizations", "qr, rq_with_rmult, svd, truncated_svd, pinv, linear_ls")], GEN)
prop("C10", "Index sets and pivots of cross approximation",
  "An index set is an ordered list of coordinate vectors of one dimension: adding appends exactly one entry and leaves the others unchanged, the k-th entry read is the k-th added, nesting prepends or appends exactly the new coordinate to the chosen old entry, copies are equal and independent, and merging a left and a right set yields, in the documented order, every combination with the free coordinate in between. Maximum-volume pivoting returns distinct row numbers inside the matrix, the selected square submatrix is invertible and no entry of the interpolation matrix exceeds the tolerance; skeleton decompositions built from the pivots reproduce matrices of the given rank.",
  ["inputs", "histories"], "every sequence of additions, every size and dimension, every full-rank matrix",
  "tests print or compare a few hand-made sets and matrices",
  ["c3/lib_clinalg/indmanage.c", "c3/lib_linalg/linalg.c"],
  [("index lists", "cross_index_alloc, cross_index_add_index, cross_index_add_nested, cross_index_get_node, cross_index_get_node_value, cross_index_copy, cross_index_copylast, cross_index_create_nested, cross_index_create_nested_ind, cross_index_merge, cross_index_merge_wspace, cross_index_array_initialize"),
   ("pivoting", "maxvol_rhs, skeleton_decomp, getrows")], GEN)
prop("C11", "Optimization stays in the box and reports what it found",
  "Minimization (BFGS, L-BFGS, gradient descent, brute force over listed points, and the older Newton, projected-gradient and damped-BFGS routines) evaluates the objective only at points inside the given bounds, and returns a point inside them together with exactly the objective's value there; gradient-based minimization does not end above its start. Line searches leave the start unchanged, report the objective's value at the point they return, satisfy their decrease conditions (sufficient decrease; weak Wolfe) when they report success, and do not move along ascent directions. Brute force returns a listed point that no other listed point beats. Evaluation, gradient and iteration counters are exact, the stored history is the sequence of iterates, repeated runs and runs of a copied optimizer give the same result, a copy owns all its data, the derivative check reports the actual deviation, and the limited-memory list holds exactly the last m pairs, whose two-loop recursion equals the BFGS update from them.",
  ["inputs", "histories"], "every dimension, box, start, objective, option setting and number of stored pairs",
  "tests run a few classic objectives with default options to convergence and look at the final point only",
  ["c3/lib_optimization/optimization.c"],
  [("line searches", "c3opt_ls_box, c3opt_ls_zoom, c3opt_ls_strong_wolfe, c3opt_ls_wolfe_bisect, c3opt_ls_x_move, backtrack_line_search, backtrack_line_search_bc"),
   ("drivers", "c3opt_minimize, c3_opt_damp_bfgs, c3_opt_lbfgs, c3_opt_gradient, c3_opt_sgd, box_damp_newton, box_pg_descent, box_damp_bfgs, gradient_descent, newton"),
   ("options, history, copies", "c3opt_copy, c3ls_copy, c3sgd_copy, c3opt_set_storage_options, c3opt_print_stored_values, c3opt_check_deriv, c3opt_lbfgs_list_insert")], GEN)
prop("C12", "String utilities",
  "Concatenating, duplicating, splitting at a separator, cutting off the part before the first separator, stripping leading and trailing characters, integer formatting and reading numbers from text return exactly the documented strings or numbers, for every string (empty ones and separators at either end included). Every result is terminated, and no byte outside the strings is read or written.",
  ["inputs"], "every terminated string, separator, integer and base",
  "tests use a few literal strings",
  ["c3/lib_stringmanip/stringmanip.c"],
  [("strings", "strip_blank_ends, strip_ends, bite_string, bite_string2, parse_string, concat_string, concat_string_ow, mystrdup, itoa, readtxt_double_array")], GEN)
prop("C13", "Decompositions of function arrays and cross approximation",
  "A QR (LQ) factorization of a matrix of univariate functions yields orthonormal columns (rows) and an upper (lower) triangular matrix whose product equals the matrix at every point, also when columns are zero or repeated. The singular value decomposition yields orthonormal left and right vectors and non-negative descending values that reproduce the matrix; the truncated one keeps the smallest number of terms (at least one) whose discarded squares sum to less than the given tolerance. The LU factorization yields a factor with ones at its pivots, zeros at all earlier pivots and no larger entry, and an upper triangular matrix, whose product is the matrix; the number of vanishing pivots is reported. The search for the largest absolute entry returns its row, column, location and value. Maximum-volume pivoting returns distinct row-and-location pairs inside the domain and the inverse of the selected rows, and leaves its operand unchanged. Cross approximation, with fixed ranks or with rank adaptation, of a function that is exactly representable within the starting ranks on the chosen nodes reproduces that function; for functions of two variables rank adaptation also does so from lower starting ranks, as long as the largest allowed rank suffices.",
  ["inputs"], "every shape, node set, coefficient and tolerance; every starting set and rank profile of cross approximation",
  "tests factor one or two fixed matrices of smooth functions and cross-approximate a few fixed functions with default options",
  ["c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/ft.c", "c3/lib_funcs/functions.c", "c3/lib_interface/approximate.c"],
  [("orthogonal factorizations", "qmarray_householder_simple, qmarray_qr, qmarray_lq, qmarray_svd, qmarray_truncated_svd"),
   ("pivoting", "qmarray_lu1d, qmarray_maxvol1d, qmarray_absmax1d, generic_function_array_absmax"),
   ("cross approximation", "ftapprox_cross, ftapprox_cross_rankadapt, c3approx_do_cross, prepCore, init_cross")], GEN)
prop("C14", "Regression minimizes exactly the stated objective",
  "Regression of a function train with parameters against data (piecewise-linear, piecewise-constant or kernel functions; a deterministic optimizer) minimizes the mean of the squared residuals over the data, each weighted by its sample weight when weights are given, plus, when requested, half the regularization weight times the sum of the squared norms of the univariate functions (for alternating regression those of the core being fitted). At every iterate of all-at-once regression, and of the fit of a core in alternating regression, the value and gradient handed to the optimizer are exactly this objective and its derivatives. Both methods start from the given parameters, the objective at the end is not above that at the start, without regularization no step of an alternating sweep raises it, and the returned function train is the one described by the parameters the regression holds afterwards. Data and labels are unchanged. Cross validation (without sample weights) leaves out consecutive folds, together covering every sample once, predicts each from a fit of all other data started from the given parameters, and returns the sum of the squared prediction errors divided by the sum of the squared labels; afterwards the parameters are the ones it was given.",
  ["inputs", "histories"], "every number of samples, dimension, rank profile, number of parameters, weights, regularization weight, starting parameters and number of folds (also when it does not divide the number of samples)",
  "tests fit a few smooth functions and accept an error below a loose tolerance; a wrong weight, an incomplete gradient or a misplaced fold still converges to something acceptable",
  ["c3/lib_superlearn/regress.c", "c3/lib_superlearn/objective_functions.c", "c3/lib_superlearn/superlearn.c", "c3/lib_superlearn/superlearn_util.c", "c3/lib_superlearn/learning_options.c"],
  [("objective", "c3_objective_function_least_squares, ft_param_learning_interface, ft_param_eval_grad, ft_linparam_eval_grad, build_objective, data_get_subset_ref, data_subtract_from_y"),
   ("drivers", "c3_regression_run, c3_regression_run_aio, c3_regression_run_als, ft_regress_run"),
   ("cross validation", "cross_validate_init, cross_validate_run, extract_data")], GEN)

prop("C15", "Dense tensors and discrete tensor trains",
  "Dense tensors store and return their elements in the documented order (first index fastest); copying, transposed copying, joining side by side, stacking, joining block-diagonally, Kronecker products, the all-ones and the vector core, and the weighted sum of slices give exactly the elements their definitions state. For discrete tensor trains of two or more variables the element at an index is the product of the slices it selects; copy, sum, elementwise product, scaling, the train of ones, the train of one coordinate, inner product, norm and weighted sum over all indices agree with that definition; ranks add under sum and multiply under product; operands are unchanged. Compressing a full tensor and rounding a train with a vanishing tolerance reproduce every element, and rounding never raises a rank. Right-to-left orthogonalization keeps the tensor represented and makes the rows of every core but the first orthonormal (when its left rank does not exceed the size of the rest). A canonical decomposition evaluates to its sum of products, and its conversion to a train has the same elements.",
  ["inputs"], "every order, mode size (different per mode), rank profile, index, coefficient and content of the tensors",
  "tests use cubes and a few fixed trains, in which a wrong stride or two swapped sizes give the same numbers",
  ["c3/lib_tensor/tensor.c", "c3/lib_tensdecomp/tensortrain.c", "c3/lib_tensdecomp/tt_multilinalg.c", "c3/lib_tensdecomp/tt_integrate.c", "c3/lib_tensdecomp/candecomp.c", "c3/lib_tensdecomp/convert.c"],
  [("dense tensors", "init_tensor, tensor_elem, tensor_copy_3d, tensor_stack2h_3d, tensor_stack2v_3d, tensor_blockdiag_3d, tensor_kron_3d, tensor_ones_3d, tensor_x_3d, tensor_sum2"),
   ("tensor trains", "ttelem, tt_ones, tt_x, copy_tt, ttadd, ttmult, ttscal, tt_dot, tt_norm, tt_integrate, full_to_tt, tt_round, right_left_orth"),
   ("canonical form", "cdelem, cd2tt, cd2tt_corel, cd2tt_corem, cd2tt_corer")], GEN)

prop("C16", "Quadrature rules and discrete Fourier transforms",
  "Every quadrature rule integrates what its definition promises: trapezoidal weights (two or more points) integrate the piecewise-linear interpolant, Simpson weights (three or more points) the composite Simpson interpolant (for an even number of points Simpson on the leading ones plus one trapezoid); Clenshaw-Curtis has increasing nodes in [-1,1] and is exact for polynomials of degree below the number of points, and rescaling maps nodes and weights to [a,b] so that the integral changes with the interval; Chebyshev-Gauss is exact against its weight, Gauss-Hermite against the normal density, and Gauss-Legendre (positive weights, total 1) against the uniform density on [-1,1], for every degree below twice the number of points, whether read from the table or computed. The fast Fourier transform of a power-of-two length is the discrete Fourier transform of its input, the inverse transform restores the input, strided direct transforms give the same, and inputs are unchanged.",
  ["inputs"], "every number of points, interval, polynomial of the promised degree, transform length, stride and data",
  "tests compare a handful of sizes; one wrong entry in a table of some ten thousand nodes, or a wrong end weight for one parity, is never reached",
  ["c3/lib_quadrature/quadrature.c", "c3/lib_quadrature/legquadrules.c", "c3/lib_quadrature/legquadrules2.c", "c3/lib_fft/fft.c"],
  [("rules", "trap_w, simpson_w, clenshaw_curtis, rescale_cc, cheb_gauss, gauss_hermite, gauss_legendre, getLegPtsWts, getLegPtsWts2"),
   ("transforms", "fft, ifft, fft_slow, ifft_slow")], GEN)
