"""Writes /verif/properties.jsonl (python3 tools/gen_props.py)."""
import json, os
P = 'LinearResponseVariationalBayes/'
PARAMS = [P + 'Parameters.py', P + 'MatrixParameters.py', P + 'SimplexParams.py',
          P + 'ProjectionParams.py', P + 'ParameterDictionary.py']
DISTS = [P + 'NormalParams.py', P + 'GammaParams.py', P + 'WishartParams.py',
         P + 'DirichletParams.py']
OUT = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Free (unconstrained) representation round-trips',
     'For every kind of parameter, including arbitrarily nested collections and the distribution parameter objects, '
     'setting any moderate free vector and reading the free vector back returns the same numbers up to rounding, and '
     'setting any legal value strictly inside its constraints, reading its free vector and setting that free vector '
     'restores the same value up to rounding. This holds for every size, shape, pair of bounds, matrix size, diagonal '
     'lower bound and constraint subspace, and whatever the object held before.',
     ['inputs', 'configurations', 'histories'],
     'all parameter types x sizes/shapes/bounds x free vectors and legal values x prior object state',
     'The tests round-trip one hand-picked value per class, mostly with default bounds and tiny shapes.',
     PARAMS + DISTS,
     [('constrain/unconstrain', P + 'Parameters.py'), ('log-Cholesky packing', P + 'MatrixParameters.py'),
      ('log-ratio simplex transform', P + 'SimplexParams.py'), ('orthonormal basis', P + 'ProjectionParams.py'),
      ('offset helpers', P + 'Parameters.py, ' + P + 'ParameterDictionary.py')],
     ['set_free', 'get_free', 'set', 'get'])

prop('C02', 'Vector representation is a lossless, fixed-order packing',
     'For every kind of parameter the vector representation lists the value\'s numbers exactly, in a fixed documented order '
     '(row-major for arrays, lower triangle row by row for symmetric matrices, arrays of matrices in row-major order), and '
     'setting a vector makes the value exactly the one that vector encodes, with matrices symmetric. Reading back what was set as a '
     'value or as a vector returns exactly those numbers, whatever the memory layout or number type of the input.',
     ['inputs', 'configurations', 'histories'],
     'all parameter types x sizes/shapes x values x memory layouts/dtypes x prior state',
     'Tests check one small contiguous value per class; orderings can agree by symmetry or by unit dimensions.',
     PARAMS,
     [('vectorize/unvectorize lower triangle', P + 'MatrixParameters.py'), ('flatten/reshape', P + 'Parameters.py'),
      ('stacked matrices', P + 'MatrixParameters.py')],
     ['set_vector', 'get_vector', 'set', 'get'])

prop('C03', 'Free vectors always give legal values; defaults are legal and finite',
     'After setting any finite free vector of moderate size the parameter\'s value is finite and satisfies its constraints: elementwise bounds, '
     'symmetric positive definite with the diagonal lower bound respected, rows of a simplex positive and summing to one, '
     'orthogonal to the excluded subspace. A parameter constructed without a value, with any admissible bounds, shape or '
     'size, holds a finite value that satisfies the same constraints, has the declared shape, and has a finite free representation.',
     ['inputs', 'configurations'],
     'all parameter types x bounds (finite, one-sided, negative, tiny or huge ranges) x shapes x free vectors; and all default constructions',
     'The tests construct few defaults and never combine two-sided, negative, narrow or huge bounds with extreme free values.',
     PARAMS + DISTS,
     [('constrain', P + 'Parameters.py'), ('in-bounds default', P + 'Parameters.py'),
      ('exp-diagonal Cholesky plus diagonal bound', P + 'MatrixParameters.py'), ('softmax', P + 'SimplexParams.py'),
      ('projection basis', P + 'ProjectionParams.py')],
     ['constructor', 'set_free', 'get', 'get_free'])

prop('C04', 'Declared sizes are truthful and wrong-sized input is refused',
     'The declared free and vector sizes (and lengths, shapes and dimensions) of every parameter equal the lengths of the one-dimensional '
     'vectors it returns, and equal what its constructor arguments imply. Except for single scalars, a value, vector or free vector of the wrong size, a '
     'multi-dimensional or matrix-valued value of the wrong shape, and a non-symmetric value for a single positive definite matrix, '
     'are refused with an exception, and a refused call leaves the parameter\'s value unchanged.',
     ['inputs', 'configurations', 'histories'],
     'all parameter types x sizes/shapes x wrong sizes (too short, too long, empty, transposed, reshaped, broadcastable) x prior state',
     'Tests try one wrong size per class; broadcasting and same-count reshapes can slip through a weaker check.',
     PARAMS,
     [('size checks in set/set_free/set_vector', ', '.join(PARAMS))],
     ['free_size', 'vector_size', 'size/length/shape/dim', 'set*', 'exceptions'])

prop('C05', 'Values outside the constraints cannot be unconstrained silently',
     'Asking for the free representation of a scalar, vector or array any element of which lies outside its bounds or is NaN, or of a symmetric matrix that is not positive '
     'definite above its diagonal lower bound, raises an exception instead of returning numbers, for a parameter on its own or nested in a collection. '
     'Constructing a bounded parameter whose lower bound is not strictly below its upper bound, or a matrix parameter with a negative diagonal lower bound, raises an exception. '
     'Values inside the bounds are never refused.',
     ['inputs', 'configurations'],
     'all bounded parameter types x bounds x position and size of the violation',
     'Tests place a violation in one position for one set of bounds only.',
     PARAMS,
     [('unconstrain checks', P + 'Parameters.py'), ('constructor checks', P + 'Parameters.py, ' + P + 'MatrixParameters.py'),
      ('Cholesky failure', P + 'MatrixParameters.py')],
     ['get_free', 'constructors', 'exceptions'])

prop('C06', 'Parameter collections concatenate their members in insertion order',
     'The free vector and the vector of a collection are the concatenations, in insertion order, of those of its members, and its '
     'published index ranges for each member are consecutive, disjoint, cover the whole vector and address exactly that member\'s numbers; this holds under any nesting. '
     'Setting one member (directly, or by item through the collection\'s value view) changes only that member\'s entries, setting the whole changes each member to its own slice, and '
     'the index parameter built from a collection holds, in each position, that position in the vector. Adding a second member with a name already in use is refused and leaves the collection unchanged.',
     ['inputs', 'histories', 'configurations'],
     'all member sequences (types, sizes incl. free size != vector size, names, nesting depth) x sequences of set operations',
     'The tests check one fixed collection, so off-by-one or free/vector offset confusions that need particular member types after a simplex are not seen.',
     [P + 'ParameterDictionary.py', P + 'Parameters.py', P + 'SparseObjectives.py'],
     [('push_param offsets', P + 'ParameterDictionary.py'), ('set/get offset helpers', P + 'Parameters.py'), ('index parameter', P + 'SparseObjectives.py')],
     ['push_param', 'set_free', 'set_vector', 'get_free', 'get_vector', 'free_indices_dict', 'vector_indices_dict', 'values', 'make_index_param'])

prop('C07', 'Free-to-vector Jacobian equals the derivative of the executed transform',
     'For every parameter and collection, at every moderate free point, the reported sparse Jacobian from free values to vector values has shape (vector size, free size) '
     'and equals the true derivative of the map "set the free vector, read the vector". The result does not depend on the value the parameter held before the call.',
     ['inputs', 'configurations', 'histories'],
     'all parameter types, sizes, bounds, nestings x free points x prior states',
     'Tests compare with autodiff of the same code at one point per class.',
     PARAMS + DISTS,
     [('per-class Jacobians', ', '.join(PARAMS[:4])), ('block assembly', P + 'ParameterDictionary.py')],
     ['free_to_vector', 'free_to_vector_jac'])

prop('C08', 'Free-to-vector Hessians equal second derivatives of the executed transform',
     'For every parameter and collection, at every moderate free point, the reported list of sparse Hessians has one symmetric matrix of shape (free size, free size) per vector '
     'entry, in vector order, each equal to the second derivative of that entry of the map "set the free vector, read the vector".',
     ['inputs', 'configurations'],
     'all parameter types, sizes, bounds, nestings x free points',
     'Tests compare with autodiff of the same code at one point per class with small shapes.',
     PARAMS + DISTS,
     [('per-class Hessians', ', '.join(PARAMS[:4])), ('offset assembly', P + 'Parameters.py')],
     ['free_to_vector', 'free_to_vector_hess'])

prop('C09', 'Vector-to-free Hessian conversion is the exact chain rule',
     'Converting an objective\'s gradient and Hessian with respect to the vector value into a Hessian with respect to the free value yields the true '
     'second derivative of the composed function, for dense and sparse inputs, whatever the gradient (including zero entries) and the value the parameter held before, leaves its input arrays unchanged, and leaves '
     'the parameter at the given free value.',
     ['inputs', 'configurations'],
     'all parameter types and collections x free points x gradients and symmetric Hessians (dense, sparse, zero) ',
     'Tests check one collection, one objective, one point.',
     [P + 'Parameters.py'],
     [('convert_vector_to_free_hessian', P + 'Parameters.py')],
     ['convert_vector_to_free_hessian'])

prop('C10', 'Parameter objects are transparent to automatic differentiation',
     'Functions that set a parameter from a free vector or vector and then compute from its value, its vector, its free vector or the derived moments can be '
     'differentiated automatically in reverse mode to second order and, unless they read the free vector of a matrix, in forward mode, and the results equal the true derivatives of those functions. This holds for every parameter type, '
     'shape and nesting, including the packing and unpacking of symmetric matrices on their own.',
     ['inputs', 'configurations'],
     'all parameter types and nestings x smooth functions of value/vector/free vector x evaluation points x differentiation mode and order',
     'Tests differentiate one function per class in reverse mode, and check autodiff only against itself.',
     PARAMS,
     [('custom derivative of matrix packing', P + 'MatrixParameters.py'), ('autograd-safe setters', ', '.join(PARAMS))],
     ['set_free', 'set_vector', 'get', 'get_vector', 'get_free', 'vectorize/unvectorize'])

prop('C11', 'Objective values and derivatives are those of the user\'s function',
     'An objective evaluates the user\'s function at the parameter value encoded by the given free vector (or vector), passing through positional and keyword arguments, and its '
     'gradient, Hessian, Jacobian and Hessian-vector product in either parameterization equal the true derivatives of that map, with the declared shapes, at every legal point and in any order of calls.',
     ['inputs', 'configurations', 'histories'],
     'all parameters x smooth objectives (scalar and vector valued) with args/kwargs x points x call sequences',
     'The tests use one quadratic-like model at one point and mostly compare autodiff with autodiff.',
     [P + 'SparseObjectives.py'],
     [('Objective', P + 'SparseObjectives.py')],
     ['fun_free*', 'fun_vector*'])

prop('C12', 'Preconditioned objective is the exact composition with the preconditioner',
     'For any invertible preconditioner matrix, dense or sparse, symmetric or not, the conditioned value, gradient, Hessian and Hessian-vector product at y are those of the function y -> objective(A y), '
     'with positional and keyword arguments passed through, converting a conditioned point back gives A y, and evaluating leaves the parameter at A y. '
     'Changing or replacing the preconditioner takes effect on the next call, and the conditioned functions refuse to run when no preconditioner is set.',
     ['inputs', 'configurations', 'histories'],
     'all objectives x preconditioners (dense/sparse, nonsymmetric, ill scaled) x points x vectors x replacement histories',
     'The tests use a symmetric preconditioner, for which a missing or misplaced transpose cannot be seen.',
     [P + 'SparseObjectives.py'],
     [('fun_free_*_cond, safe_matmul', P + 'SparseObjectives.py')],
     ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond', 'fun_free_hvp_cond', 'uncondition_x'])

prop('C13', 'Two-parameter objective values, gradients and cross Hessians are exact',
     'A two-parameter objective evaluates the user\'s function at both encoded values for every mixture of free and vector parameterization, with arguments passed through; its gradients with respect to either '
     'parameter and its cross Hessians equal the true mixed derivatives, with the first-named parameter in the rows, and afterwards both parameters hold plain numbers at the evaluation point.',
     ['inputs', 'configurations', 'histories'],
     'all parameter pairs of different sizes x coupled objectives x four mixtures of parameterization x points',
     'The tests use two parameters of equal structure and one objective; a transposed or mis-flagged block can go unnoticed.',
     [P + 'SparseObjectives.py'],
     [('TwoParameterObjective', P + 'SparseObjectives.py')],
     ['fun_free', 'fun_vector', 'fun_grad1', 'fun_grad2', 'fun_*_hessian12/21', 'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2'])

prop('C14', 'Parameter converter values and Jacobians are exact',
     'For any smooth conversion from one parameter to another, each of the four converter functions returns the output in the requested parameterization for the input given in the requested parameterization, and each of the four '
     'Jacobians equals the true derivative of the corresponding function, with output in the rows, for every input; computing a Jacobian leaves the input parameter at the evaluation point and the output parameter\'s value unchanged.',
     ['inputs', 'configurations', 'histories'],
     'all pairs of parameters (different sizes, free size != vector size) x smooth converters x points x prior output state',
     'The tests use one converter between two like parameters.',
     [P + 'SparseObjectives.py'],
     [('ParameterConverter', P + 'SparseObjectives.py')],
     ['converter_*', '*_jacobian'])

prop('C15', 'Evaluating derivatives leaves parameters numeric and at the evaluation point',
     'After any value or derivative evaluation made through an objective, a two-parameter objective or a preconditioned objective, in any sequence, the parameters involved hold plain numbers equal to those encoded by '
     'the point just evaluated, and after a transform Jacobian or Hessian is computed the parameter\'s value is still plain numbers. Parameters not involved in the evaluation are not changed.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of evaluations over shared parameters x points x parameterizations',
     'Tests look at state after single calls of a few functions on one model.',
     [P + 'SparseObjectives.py', P + 'Parameters.py', P + 'MatrixParameters.py'],
     [('cache-and-restore wrappers', P + 'SparseObjectives.py'), ('transform derivatives', P + 'Parameters.py, ' + P + 'MatrixParameters.py')],
     ['get', 'get_free', 'get_vector after every evaluation'])

prop('C16', 'Parameter objects are independent of each other',
     'Operations on one parameter object (setting, editing its value in place, reading, computing Jacobians or Hessians, adding members) never change any other, including objects of the same type built with default arguments, '
     'objects built from the same constructor arguments (in-place edits of an array passed to both aside), and a deep copy and its original in either direction; a deep copy behaves exactly like its original. '
     'Returned free vectors and vectors are snapshots that later operations do not change.',
     ['histories', 'configurations'],
     'all interleavings of operations over a pool of objects, including deep copies made mid-history',
     'Tests use one object at a time.',
     PARAMS + DISTS,
     [('instance state', ', '.join(PARAMS))],
     ['pool of objects: every get/get_free/get_vector after every operation', 'copy.deepcopy'])

prop('C17', 'Linear sensitivity is the derivative of the optimum',
     'At an optimum, the linear approximation reports the exact Jacobian of the optimal input parameter with respect to the hyperparameter, in whichever parameterizations (free or vector) were declared for each, '
     'and its prediction is the first-order expansion around the base point. A supplied Hessian is used in place of computing one, a separately supplied functor of the hyperparameter-dependent part gives the same answer, and '
     're-basing at a new optimum gives the answers of a freshly built object; the parameters are left at the base values.',
     ['inputs', 'configurations', 'histories'],
     'all smooth objectives with a unique optimum x parameter types x parameterization flags x re-basing histories',
     'The tests use one quadratic model, for which many errors cancel, with default flags.',
     [P + 'ModelSensitivity.py', P + 'SparseObjectives.py'],
     [('ParametricSensitivityLinearApproximation', P + 'ModelSensitivity.py')],
     ['get_dinput_dhyper', 'predict_input_par_from_hyperparameters', 'set_base_values'])

prop('C18', 'Taylor expansion of the optimum has the exact derivatives at every order',
     'At an optimum, for every order up to the declared one, the reported k-th directional derivative of the optimal input parameter with respect to the hyperparameter equals the true k-th derivative, and the series is the sum '
     'of these over k factorial, truncated at the requested order, with or without the base value. This holds for every combination of declared parameterizations, with a supplied Hessian, with a separately supplied hyperparameter functor, and after changing the order or re-basing; '
     'orders out of range, and evaluation points that are not the base point, are refused, and the parameters are left at the base values.',
     ['inputs', 'configurations', 'histories'],
     'all smooth objectives with a unique optimum x orders 1..5 x directions x flags x histories',
     'The tests check low orders for one or two models whose optimum is nearly linear in the hyperparameter.',
     [P + 'ModelSensitivity.py', P + 'SparseObjectives.py'],
     [('ParametricSensitivityTaylorExpansion', P + 'ModelSensitivity.py')],
     ['evaluate_dkinput_dhyperk', 'evaluate_taylor_series', 'set_order', 'set_base_values'])

prop('C19', 'Derivative-term algebra obeys the rules of differentiation',
     'Appending a Jacobian-vector product to a function of one or more arguments gives its true directional derivative in the chosen argument, recursively to any order, and the two-argument derivative array holds in position (i, j) '
     'the mixed derivative of order i in the first and j in the second argument. Differentiating a derivative term gives terms that sum to its true derivative along the implicitly defined curve, consolidating terms never changes their sum, merges all terms of the same '
     'signature into one and leaves its input unchanged, and evaluating terms gives their sum with or without the highest-order term.',
     ['inputs', 'programs'],
     'all smooth functions x argument numbers x orders x directions; all lists of terms',
     'The tests check orders one to three for one function.',
     [P + 'ModelSensitivity.py'],
     [('append_jvp, DerivativeTerm, consolidate_terms, evaluate_terms', P + 'ModelSensitivity.py')],
     ['append_jvp', 'generate_two_term_derivative_array', 'DerivativeTerm.*', 'consolidate_terms', 'evaluate_terms'])

prop('C20', 'Input/output sensitivity object predicts inputs and outputs to first order',
     'The legacy sensitivity object reports the exact derivative of the optimal free input parameter and of the derived output parameter with respect to the hyperparameter vector, predicts the input linearly, and predicts the output either '
     'linearly or through the conversion at the predicted input, agreeing with the true output to first order. It does so for an optimum passed explicitly or taken from the current state, with a supplied Hessian or hyperparameter functor, and after being re-based.',
     ['inputs', 'configurations', 'histories'],
     'all smooth objectives with a unique optimum x converters x ways of passing the optimum x re-basing',
     'The tests use one model with the optimum already set in the parameter.',
     [P + 'SparseObjectives.py'],
     [('ParametricSensitivity', P + 'SparseObjectives.py')],
     ['get_dinput_dhyper', 'get_doutput_dhyper', 'predict_*', 'set_optimal_input_par'])

prop('C21', 'Minimizers return the minimizer in the original coordinates',
     'On a smooth objective with a unique minimum, the trust-region and BFGS minimizers return a free vector at which the gradient is small and which matches the true minimizer, with or without a preconditioner, together with the '
     'optimizer\'s own result, which refers to the conditioned coordinates when preconditioning. The caller\'s starting vector is left unchanged, the iteration limit and tolerance given are respected, and the evaluation log is restarted unless asked not to be.',
     ['inputs', 'configurations', 'histories'],
     'smooth unimodal objectives x starting points x preconditioners x options',
     'The tests optimize one model from one start, with the identity or inverse-root preconditioner.',
     [P + 'OptimizationUtils.py', P + 'SparseObjectives.py'],
     [('minimize_objective_*', P + 'OptimizationUtils.py')],
     ['minimize_objective_trust_ncg', 'minimize_objective_bfgs', 'objective.logger'])

prop('C22', 'Repeated optimization stops for, and reports, the right reason',
     'Repeated optimization calls the given optimizer from each previous result until, for the latest step, the L1 change in the point, the change in the objective or the L1 norm of the gradient falls below its own tolerance, or the iteration limit is reached, and never calls it again afterwards. '
     'The returned point and optimizer result are those of the last call, each convergence flag states exactly whether its own criterion holds at the last step, the overall flag is their disjunction, the optional initial optimizer runs exactly once first, and intermediate results are kept, in order and including the initial one, exactly when requested.',
     ['histories', 'inputs', 'fault_sequences'],
     'all sequences of optimizer outcomes (progress, stall, cycling) x tolerances x limits x options',
     'The tests run a converging case and check only that it converged.',
     [P + 'OptimizationUtils.py'],
     [('repeatedly_optimize', P + 'OptimizationUtils.py')],
     ['recorded optimizer calls', 'returned tuple'])

prop('C23', 'Inverse square root and preconditioner construction are exact',
     'The matrix inverse square root of the symmetric part of a matrix, with eigenvalues at or beyond the given limits replaced by them, is symmetric and squares to the inverse of the reported corrected matrix, which is the symmetric part with exactly those eigenvalues clamped; the argument is not modified. '
     'Setting an objective\'s preconditioner uses the given Hessian if there is one and otherwise that of the objective at the given point, passes on the eigenvalue limits, installs that inverse root and returns the Hessian, inverse root and corrected matrix; with neither a Hessian nor a point it is refused.',
     ['inputs', 'configurations'],
     'all symmetric and nearly symmetric matrices (indefinite, degenerate, large) x limits',
     'The tests use one matrix.',
     [P + 'OptimizationUtils.py'],
     [('get_sym_matrix_inv_sqrt, set_objective_preconditioner', P + 'OptimizationUtils.py')],
     ['get_sym_matrix_inv_sqrt', 'set_objective_preconditioner'])

prop('C24', 'The evaluation log is a faithful history',
     'The logger records every verbose evaluation exactly once, in order, with the value and the point as they were at that moment, even if the caller later reuses the array, and nothing for non-verbose evaluations. Its counter equals the number of recorded evaluations, the latest value and point are those of the last call, '
     'the print callback fires on exactly every n-th evaluation starting with the first, and re-initializing empties it.',
     ['histories', 'inputs'],
     'all sequences of verbose and silent evaluations, direct, conditioned or logged by hand, buffer reuse, re-initialization, print intervals',
     'The tests check that logging does not crash.',
     [P + 'SparseObjectives.py'],
     [('Logger', P + 'SparseObjectives.py')],
     ['logger.x_array', 'val_array', 'iter', 'x', 'value', 'callback'])

prop('C25', 'Conjugate-gradient solver and masks',
     'The solver returns, for any positive definite Hessian-vector product, the solution of the linear system to its tolerance along with the solver status, with or without a starting point (which is returned as it is when it already meets the tolerance) or preconditioner, and solving for subsets records for every mask in order exactly the masked vector and its solution without altering the inputs. '
     'Masks of a given width partition all indices into consecutive blocks of that width except a shorter last one, splitting a boolean vector gives two disjoint halves of nearly equal size that together restore it, and recursive splitting partitions it into pieces no larger than the limit.',
     ['inputs', 'histories'],
     'all positive definite systems x right-hand sides x masks; all boolean vectors and lengths',
     'There are no tests of these functions.',
     [P + 'ConjugateGradient.py'],
     [('ConjugateGradientSolver, get_masks, split_vector, recursive_split', P + 'ConjugateGradient.py')],
     ['get_hinv_vec', 'get_hinv_vec_subsets', 'get_masks', 'split_vector', 'recursive_split'])

prop('C26', 'Entropies equal minus the expected log density',
     'The entropy functions for univariate and multivariate normal, gamma, beta, Dirichlet, Wishart and categorical distributions equal minus the integral of the density times its logarithm, over the whole legal range of their parameters, '
     'with the documented treatment of arrays: normal, gamma and beta entropies are summed, Dirichlet and categorical entropies are returned per distribution. A Wishart scale matrix that is not square or has no positive determinant is refused.',
     ['inputs'],
     'all legal parameters, dimensions and array shapes',
     'Tests compare with scipy at a handful of parameter values and shapes.',
     [P + 'ExponentialFamilies.py'],
     [('*_entropy', P + 'ExponentialFamilies.py')],
     ['*_entropy'])

prop('C27', 'Closed-form expectations equal the integrals they stand for',
     'The expectations supplied in closed form - lognormal mean and variance, gamma and Dirichlet means and mean logs, Wishart mean log determinant and mean log of the diagonal of the inverse, and the multivariate digamma and log-gamma functions they use - equal the '
     'true expectations under the corresponding density for all legal parameters and array shapes. A Wishart scale matrix that is not square or has no positive determinant is refused.',
     ['inputs'],
     'all legal parameters, dimensions and array shapes',
     'Tests use Monte Carlo with loose tolerances at a few points.',
     [P + 'ExponentialFamilies.py'],
     [('get_e_*, e_log_*, multivariate_*', P + 'ExponentialFamilies.py')],
     ['get_e_lognormal', 'get_var_lognormal', 'get_e_log_gamma', 'get_e_dirichlet', 'get_e_log_dirichlet', 'e_log_det_wishart', 'e_log_inv_wishart_diag'])

prop('C28', 'Quadrature and sampled expectations compute the stated integrals',
     'With Gauss-Hermite nodes of degree n, the normal expectation of any polynomial of degree below 2n is exact, elementwise over arrays of any shape, and the logit-normal, log-logit-normal, logistic-term and Dirichlet-process-prior expectations match their integrals for all moderate means and variances, aggregated or not as requested. '
     'The expectation over supplied standard draws is the average over exactly those draws, and the standard draws are the equally spaced, symmetric, increasing normal quantiles. '
     'Their automatic derivatives in the means and scales are the derivatives of the same expectations.',
     ['inputs', 'configurations'],
     'all means, variances, shapes, degrees and draws; polynomials up to the exactness degree',
     'Tests compare with Monte Carlo at a few values.',
     [P + 'ExponentialFamilies.py', P + 'Modeling.py'],
     [('get_e_fun_normal and users', P + 'ExponentialFamilies.py'), ('get_e_logistic_term*', P + 'Modeling.py')],
     ['get_e_fun_normal', 'get_e_logitnormal', 'get_e_log_logitnormal', 'get_e_dp_prior_logitnorm_approx', 'get_e_logistic_term', 'get_e_logistic_term_guass_hermite', 'get_standard_draws'])

prop('C29', 'Expected log priors and normal log probabilities match their densities',
     'Each expected log prior (univariate and multivariate normal, gamma, exponential, Dirichlet, LKJ) equals the expectation of the corresponding log density under the given moments up to a constant that does not depend on the moments, '
     'natural parameters of a univariate normal convert to the mean and information of the density they define, and the univariate normal log probability is the normalized log density elementwise.',
     ['inputs'],
     'all legal prior parameters and moments, dimensions and shapes',
     'Tests cover a few at one parameter value.',
     [P + 'ExponentialFamilies.py', P + 'Modeling.py'],
     [('*_prior, get_uvn_from_natural_parameters', P + 'ExponentialFamilies.py'), ('univariate_normal_log_prob', P + 'Modeling.py')],
     ['mvn_prior', 'uvn_prior', 'gamma_prior', 'exponential_prior', 'dirichlet_prior', 'expected_ljk_prior', 'get_uvn_from_natural_parameters', 'univariate_normal_log_prob'])

prop('C30', 'Distribution parameter objects report the moments of their distribution',
     'Each distribution parameter object (univariate and multivariate normals in scalar, vector, array and moment form, gamma, Wishart, Dirichlet) has the members, sizes and lower bounds its constructor arguments imply, and its mean, second moment, variance or covariance, lognormal moments, '
     'expected logs, expected inverse and entropy are those of the distribution with the parameters it currently holds, however they were set. The moment form set from another object or from constants has those moments.',
     ['inputs', 'configurations', 'histories'],
     'all distribution objects x sizes/shapes/bounds x legal values set via value, vector or free vector',
     'Tests evaluate each method once for default sizes.',
     DISTS,
     [('moment methods', ', '.join(DISTS))],
     ['e', 'e_outer', 'cov', 'var', 'e_exp', 'var_exp', 'e2_exp', 'e_log', 'e_log_det', 'e_inv', 'entropy', 'e_log_lkj_inv_prior'])

prop('C31', 'Regression utilities implement conjugate Gaussian regression',
     'The batched matrix and matrix-vector products act on the last dimensions for each batch element, summing over extra response dimensions; likelihood and prior natural parameters define the corresponding Gaussian log density in the coefficients; and converting them, '
     'separately or summed, gives the exact least-squares coefficients and Gaussian posterior mean and information, for homoskedastic and full error information, for any batch and response shape.',
     ['inputs', 'configurations'],
     'all designs, responses, batch shapes, extra response dimensions, information scalars or matrices',
     'Tests use a few fixed shapes.',
     [P + 'regression_utils.py'],
     [('einsum products and natural parameters', P + 'regression_utils.py')],
     ['mat_mul_last2dims', 'matvec_mul_last2dims', 'get_nat_params_from_likelihood', 'get_nat_params_from_prior', 'get_mvn_from_nat_params', 'get_regression_coefficients', 'get_posterior_regression_coefficients'])

prop('C32', 'Sparse matrix utilities are lossless',
     'Placing a dense block at given row and column indices yields a sparse matrix of the declared shape equal to the block there (summing where indices repeat) and zero elsewhere; packing and unpacking a compressed sparse matrix, through memory or through JSON text, '
     'restores the same shape, entries and values exactly; multiplication and squeezing helpers agree with dense arithmetic for every mix of sparse and dense operands. None of them alters its arguments.',
     ['inputs', 'configurations'],
     'all shapes (including empty rows and columns), index vectors, dtypes, sparsity patterns, operand mixes',
     'Tests pack one matrix and place none.',
     [P + 'SparseObjectives.py', P + 'Parameters.py'],
     [('get_sparse_sub_matrix, pack/unpack, safe_matmul, compress, offset_sparse_matrix', P + 'SparseObjectives.py, ' + P + 'Parameters.py')],
     ['get_sparse_sub_hessian', 'get_sparse_sub_matrix', 'pack_csr_matrix', 'unpack_csr_matrix', 'json_pack_csr_matrix', 'json_unpack_csr_matrix', 'safe_matmul', 'compress'])

prop('C33', 'Caller-owned arrays are never modified and returned vectors never alias state',
     'No library call modifies an array, list or matrix passed to it, whether it succeeds or is refused, and modifying a free vector, vector, transform Jacobian or Hessian, or objective derivative returned earlier never changes a parameter, an objective or a later result. '
     'A parameter keeps no reference to a free vector it was set from, and sensitivity objects keep their own copy of the base values they are given.',
     ['histories', 'inputs'],
     'all public calls x read-only and writable arguments x later modification of results',
     'Tests never check arguments after a call nor modify results.',
     [P + f for f in ('Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py', 'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py', 'ExponentialFamilies.py', 'Modeling.py', 'regression_utils.py', 'ConjugateGradient.py')],
     [('copying getters, pure functions', 'whole library')],
     ['arguments before/after each call', 'state after scribbling on results'])

prop('C34', 'Names and dictionary snapshots describe the parameter exactly',
     'The dictionary snapshot of any parameter or nested collection is JSON-serialisable, keyed by member name, and after a trip through JSON text contains exactly the current numbers in value layout; it is a snapshot that later changes do not affect. The flat list of names of a collection follows insertion order, with one name per element for vector parameters and '
     'one per parameter for other members, and the printed form shows each member\'s name and works in every state.',
     ['inputs', 'histories', 'configurations'],
     'all parameters and nestings x values x names',
     'Tests check a few parameters once.',
     PARAMS + DISTS,
     [('dictval, names, __str__', ', '.join(PARAMS))],
     ['dictval', 'names', 'str'])

ids = [o['id'] for o in OUT]
assert len(set(ids)) == len(ids)
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for o in OUT:
        f.write(json.dumps(o) + '\n')
print(len(OUT), 'properties')
