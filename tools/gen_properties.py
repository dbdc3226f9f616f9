#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CD = "src/solvers/anderson_cd/mod.rs"; BCD = "src/solvers/anderson_bcd/mod.rs"
EST = "src/estimators/estimators.rs"; HYP = "src/estimators/hyperparams.rs"
SEP = "src/penalties/separable/mod.rs"; BLK = "src/penalties/block_separable/mod.rs"
DF1 = "src/datafits/single_task/mod.rs"; DF2 = "src/datafits/multi_task/mod.rs"
DM = "src/datasets/impl_design_matrix.rs"; UT = "src/utils/mod.rs"; SOL = "src/solvers/impl_solver.rs"
PE = "python/sparseglm/estimators.py"; PU = "python/sparseglm/utils.py"; PS = "python/src"

prop("C01", "Single-task convex fits return a minimiser of the documented objective",
 "For every finite design matrix and target vector and every valid alpha and l1_ratio, a Lasso or ElasticNet fit whose iteration budget is not exhausted returns coefficients of the documented objective (1/(2n)||y-Xw||^2 plus the penalty) that satisfy the first-order optimality conditions of that objective up to the requested tolerance. In particular no other coefficient vector has an objective lower than allowed by that tolerance, and features whose column is all zero get a zero coefficient.",
 ["inputs", "configurations"], "every dense or sparse X, every y, alpha >= 0, 0 <= l1_ratio <= 1, tolerance, working-set size, K, acceleration on/off",
 "The tests fit one seeded Gaussian matrix with one alpha and default knobs; the optimality conditions must hold for every matrix shape, correlation structure, sparsity, scaling and regularisation.",
 [CD, EST, SEP, DF1, DM], [("working-set coordinate descent stopping on the KKT violation", CD + ":coordinate_descent"), ("distance to the subdifferential", SEP + ":subdiff_distance"), ("gradient of the quadratic datafit", DF1 + ":gradient_j")],
 ["coefficients returned by Lasso/ElasticNet fit and by Solver::solve with Quadratic and L1/L1PlusL2"])

prop("C02", "Multi-task convex fits return a minimiser of the documented objective",
 "For every finite design matrix and target matrix and every valid alpha and l1_ratio, a MultiTaskLasso or MultiTaskElasticNet fit whose iteration budget is not exhausted returns a coefficient matrix satisfying the first-order optimality conditions of 1/(2n)||Y-XW||_F^2 plus the row-group penalty up to the requested tolerance. Rows of the solution are zero or non-zero as a whole group across tasks as those conditions demand, for any number of tasks including one.",
 ["inputs", "configurations"], "every dense or sparse X, every Y with 1..many tasks, alpha >= 0, 0 <= l1_ratio <= 1 and every solver knob",
 "The tests use one or a few seeded matrices with a fixed number of tasks; group optimality must hold for every shape, task count, correlation and regularisation.",
 [BCD, EST, BLK, DF2, DM], [("working-set block coordinate descent stopping on the KKT violation", BCD + ":block_coordinate_descent"), ("row-wise distance to the subdifferential", BLK + ":subdiff_distance")],
 ["coefficients returned by MultiTaskLasso/MultiTaskElasticNet fit and by Solver::solve_multi_task"])

prop("C03", "Non-convex fits return stationary points no worse than the null model",
 "A fit with a non-convex penalty (MCP, BlockMCP, or L0.5 through the generic solver) whose budget is not exhausted returns a point that satisfies, up to the tolerance, the stationarity condition of the documented objective: zero distance between minus the gradient and the subdifferential for (Block)MCP, a fixed point of the proximal coordinate update for L0.5. Its objective value is never larger than that of the all-zero coefficients from which the solver starts.",
 ["inputs", "configurations"], "every X, y/Y, alpha >= 0, gamma for which each coordinate problem is convex (gamma times the column's squared norm over n > 1), every solver knob",
 "One seeded example with one gamma cannot exercise every piece of the penalty (zero, concave, flat) nor correlated, rescaled or wide designs.",
 [CD, BCD, SEP, BLK], [("MCP/BlockMCP subdifferential distance used as the stopping test", SEP + ":MCP, " + BLK + ":BlockMCP"), ("fixed-point criterion documented for L0.5", SEP + ":L05")],
 ["coefficients returned by MCPEstimator, BlockMCPEstimator, Solver::solve with L05"])

prop("C04", "Sparse logistic regression reaches a stationary point of its objective",
 "For labels in {-1, 1}, any design matrix and any of the L1, L1+L2 or MCP penalties, the generic solver applied to the logistic datafit returns coefficients whose log-loss gradient satisfies the penalty's optimality conditions up to the tolerance when the budget is not exhausted. The objective returned is never larger than at zero coefficients (log 2).",
 ["inputs", "configurations"], "every dense or sparse X, every label vector including single-class ones, separable data, every penalty and solver knob",
 "There is one test with one seeded matrix; the logistic path (step sizes, sparse gradient, log-loss) must be right on all data.",
 [DF1, CD, SEP], [("Logistic datafit value, gradient and Lipschitz constants", DF1 + ":Logistic"), ("coordinate descent", CD)],
 ["coefficients returned by Solver::solve with Logistic"])

prop("C05", "The objective never increases as the solver is given more budget",
 "For a fixed problem, the documented objective evaluated at the returned coefficients is non-increasing when the epoch budget of a single outer iteration, or the outer-iteration budget at any epoch budget, is increased by one, with or without acceleration, single- or multi-task, from the all-zero start on. An extrapolated point is therefore only ever adopted when it decreases the objective.",
 ["inputs", "configurations", "histories"], "every problem and every prefix of the solver's own iteration history (budgets 0,1,2,...)",
 "Tests only look at the final iterate of one problem; monotonicity is a statement about all intermediate iterates of all problems.",
 [CD, BCD], [("exact coordinate minimisation via the proximal step with the coordinate Lipschitz constant", CD), ("safeguarded extrapolation", CD + ":anderson_accel, " + BCD + ":anderson_accel")],
 ["objective of coefficients returned under increasing max_epochs / max_iterations"])

prop("C06", "The result does not depend on how the data is stored",
 "Fitting the same numbers gives the same coefficients (up to rounding) whether the design matrix is dense or CSC-sparse, row- or column-major, contiguous, strided, reversed or a view, whether sparse columns are sorted, unsorted or contain explicit zeros, and whether targets are owned or viewed. The same holds for regularisation helpers, datafit values and gradients, and the inputs are never modified.",
 ["inputs", "configurations"], "every matrix and every legal memory representation of it",
 "Tests compare one dense matrix with its sparse version; layouts, strides, explicit zeros, empty columns and unsorted indices are not explored.",
 [DM, DF1, DF2, "src/datasets/csc_array.rs", "src/datasets/impl_targets.rs", UT], [("DesignMatrix implementations for dense and CSC", DM), ("separate dense/sparse Datafit implementations", DF1 + ", " + DF2)],
 ["coefficients, datafit value/gradient, alpha_max across representations"])

prop("C07", "alpha_max is exactly the boundary of the null solution",
 "The helper functions return the largest gradient magnitude (largest row norm for multi-task) at zero, so every least-squares fit penalised by L1, L1+L2 or MCP (single- or multi-task) with alpha (times l1_ratio where there is one) at or above that value returns exactly all-zero coefficients, while any alpha clearly below it returns at least one non-zero coefficient. The dense, sparse and multi-task helpers agree with each other and with the definition max_j ||X_j' Y|| / n.",
 ["inputs", "configurations"], "every X, y/Y (n smaller and larger than p), every estimator and every alpha around the boundary",
 "The tests compute alpha_max on one matrix; the boundary behaviour links helper, gradient, proximal operator and stopping rule on every input.",
 [UT, CD, BCD, EST], [("compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse", UT + ":helpers")],
 ["helper return values; support of the fitted coefficients"])

prop("C08", "Proximal operators are exact minimisers",
 "For every input value (vector, for block penalties), step size and hyperparameter, each penalty's proximal operator returns a global minimiser of one half the squared distance to the input plus step times the penalty, returns exact zeros inside the threshold, keeps the sign (direction) of its input and never returns NaN on finite input. For the MCP penalties this holds whenever gamma exceeds the step, including gamma = infinity where it is the soft-thresholding operator.",
 ["inputs", "configurations"], "every finite value/vector including zero and values on thresholds, step > 0, alpha >= 0, l1_ratio in [0,1], gamma > step",
 "Tests evaluate each operator at a handful of points; minimality must hold on every piece, at every breakpoint and in degenerate cases such as zero thresholds.",
 [SEP, BLK, UT], [("soft_thresholding, block_soft_thresholding, prox_05", UT + ":prox_funcs"), ("Penalty::prox / MultiTaskPenalty::prox", SEP + ", " + BLK)],
 ["return values of prox for every penalty"])

prop("C09", "Penalty values and optimality distances match their definitions",
 "Each penalty's value equals its documented formula on any coefficients, and its per-feature optimality distance equals the Euclidean distance from minus the gradient to the penalty's subdifferential at the current coefficient, for any subset and order of features, together with their maximum (L0.5 documents that it has no such distance; only its value is covered). The distance is zero exactly when the coefficient is a fixed point of the proximal step, so features with zero coefficients and small gradients, features in the concave part and features in the flat part are all scored correctly.",
 ["inputs", "configurations"], "every coefficient vector/matrix, gradient, working set and hyperparameter, including breakpoints and all-zero rows",
 "Tests check one vector per penalty; the formulas have several branches whose arguments depend on the working set order.",
 [SEP, BLK], [("value and subdiff_distance of L1, L1PlusL2, MCP, L05, L21, BlockL1PlusL2, BlockMCP", SEP + ", " + BLK)],
 ["return values of value and subdiff_distance"])

prop("C10", "Datafit values, gradients and step constants are mutually consistent",
 "After initialisation on a dataset, each datafit's value equals its documented formula, its coordinate gradients equal the derivative of that value, the full gradient is the collection of the coordinate gradients, and its per-feature constants are the coordinate-wise Lipschitz bounds (squared column norm over n, a quarter of it for logistic), so the quadratic upper bound holds along every coordinate. This holds for dense and sparse matrices, any number of tasks and any predictions, including extreme ones where the value must stay finite and non-negative.",
 ["inputs"], "every X, y, predictions and direction, n up to thousands, T up to dozens",
 "Tests check one small dense and one sparse instance; consistency is needed at every point the solver may visit.",
 [DF1, DF2], [("Quadratic, Logistic, QuadraticMultiTask for dense and CSC", DF1 + ", " + DF2), ("numerically stable log-loss", DF1 + ":Logistic::value")],
 ["return values of initialize/value/gradient_j/full_grad/step_size"])

prop("C11", "Solver knobs change speed, not the solution, and budgets are respected",
 "On a problem with a unique solution, working-set size (below, at or above the number of features), extrapolation depth, acceleration and verbosity do not change the converged coefficients beyond the tolerance. With zero iterations or epochs the result is all zeros, with one outer iteration only features of the first working set (the ones most violating optimality at zero, in the number asked for) can become non-zero, and a looser tolerance never yields more than the tolerance allows.",
 ["inputs", "configurations"], "every strongly convex problem and every pair of knob settings",
 "Tests use the defaults; the knobs interact (working set smaller than K, larger than p, K larger than the epochs) in ways no single example covers.",
 [CD, BCD, SOL, HYP], [("working set construction and growth", CD + ":construct_ws_from_kkt, " + BCD + ":construct_ws_from_kkt"), ("budget loops", CD + ":coordinate_descent")],
 ["coefficients under different knob settings"])

prop("C12", "Models that contain each other agree",
 "ElasticNet with l1_ratio 1 equals Lasso, MultiTaskElasticNet with l1_ratio 1 equals MultiTaskLasso, MCP with infinite gamma equals Lasso (block versions likewise), and every multi-task model on a single task equals its single-task counterpart, all up to the tolerance when the solution is unique (in objective and predictions when it is not). ElasticNet with l1_ratio 0 equals the closed-form ridge solution.",
 ["inputs", "configurations"], "every problem and every nested pair of models",
 "Tests fit each estimator separately on one dataset; the nesting relations tie all penalties, datafits and solvers together on all data.",
 [EST, SEP, BLK, CD, BCD], [("shared documented objectives", "src/estimators/hyperparams.rs"), ("penalty formulas", SEP + ", " + BLK)],
 ["coefficients of nested model pairs"])

prop("C13", "Fits respect the symmetries of the problem",
 "Permuting or sign-flipping features permutes or flips the coefficients, permuting or duplicating all samples and appending all-zero features leaves them unchanged, scaling targets and alpha scales them (for the models that are homogeneous), and for multi-task models permuting or rotating tasks rotates the coefficients. These hold up to the tolerance whenever the solution is unique, and for objective and predictions when a convex solution is not; flipping the sign of features or targets mirrors every intermediate result as well, for the non-convex models too.",
 ["inputs", "configurations"], "every problem with a unique solution and every transformation",
 "Metamorphic relations are not tested at all; they constrain index handling and normalisation by n on all inputs.",
 [CD, BCD, DM, DF1, DF2], [("normalisation by the number of samples", DF1 + ", " + DF2), ("feature indexing through the working set", CD + ", " + BCD)],
 ["coefficients before and after the transformation"])

prop("C14", "Estimators validate and forward every hyperparameter",
 "Building and fitting an estimator fails with the error naming the offending hyperparameter exactly when alpha or the tolerance is negative, K or the working-set size is zero, gamma is below one or l1_ratio outside [0, 1], and succeeds otherwise; setters change only their own field and defaults are the documented ones. A fit of any estimator on dense or sparse data returns what the generic solver returns for the corresponding datafit, penalty and settings.",
 ["inputs", "configurations", "histories"], "every sequence of builder calls with valid and invalid values, every dataset",
 "Tests check the defaults and a few invalid values of some estimators; validation must hold for every combination and every estimator.",
 [HYP, EST, "src/estimators/param_guard.rs"], [("ParamGuard::check_ref of every parameter set", HYP), ("Fit implementations forwarding to the solvers", EST)],
 ["Result of check/check_ref/fit; getters; coefficients versus Solver"])

prop("C15", "Linear solves and Anderson extrapolation are correct and safeguarded",
 "The linear-system helper returns a solution with small residual for every well-conditioned square system whatever its pivot order, and reports an error for systems with a zero row, a zero column or two proportional rows. With acceleration on, the coefficients after a full window of K epochs are either the plain iterate or the extrapolation, a combination of the older K iterates of the window whose weights sum to one and minimise the norm of the combined differences of successive iterates, the latter exactly when it has the lower objective; this holds for every window of every outer iteration, the count of epochs starting afresh with each outer iteration, and for every window length, number of features and tasks, including fewer features than the window.",
 ["inputs", "configurations", "histories"], "every square system; every problem, window length K and epoch count",
 "Tests solve two or three tiny systems and use K = 5 on wide problems; pivoting, K larger than the working set and the choice between iterates are never examined.",
 [UT, CD, BCD], [("solve_lin_sys", UT + ":helpers"), ("anderson_accel", CD + ", " + BCD)],
 ["Result of solve_lin_sys; coefficients after K+1 epochs with and without acceleration"])

prop("C16", "No panic, NaN or runaway on any valid input",
 "Any fit with validated hyperparameters on finite data of any non-empty shape (and of a magnitude whose squares stay within the floating-point range) completes without panicking and returns finite coefficients of the right shape, with an objective not above that of the null model for convex models. This covers constant, zero, duplicated, collinear and badly scaled columns, a single sample or feature, zero targets, alpha zero, working sets larger than the data and windows larger than the working set.",
 ["inputs", "configurations"], "every finite non-empty dataset and every validated hyperparameter set",
 "Tests never fit degenerate data; each degenerate shape exercises different divisions, slices and orderings.",
 [CD, BCD, UT, SEP, BLK], [("zero Lipschitz constants skipped", CD), ("singular extrapolation handled as an error", UT + ":solve_lin_sys"), ("NaN-free ordering", CD + ":construct_ws_from_kkt")],
 ["return value (or unwinding) of every fit entry point"])

prop("C17", "Fits are deterministic and independent of history",
 "Refitting gives bit-identical coefficients: parameter sets, solvers, datafits and penalties can be reused, cloned and interleaved over datasets of different shapes and storage in any order, and each fit returns what a fresh object would return. Fits running concurrently on several threads do not influence each other and no fit alters its dataset.",
 ["histories", "inputs", "schedules"], "every interleaved sequence of fits over a pool of datasets and reused objects",
 "Tests always use fresh objects; stale precomputed quantities can only be seen through reuse on different data.",
 [DF1, DF2, SOL, EST], [("datafit re-initialised at each solve", CD + ":coordinate_descent, " + BCD + ":block_coordinate_descent")],
 ["coefficients of every step of the history; dataset contents before/after"],
 [("precomputed constants", "Lipschitz constants and X'y kept in the datafit between solves", DF1 + ", " + DF2)])

prop("C18", "Python estimators compute the core library's solution",
 "Every Python estimator, fitted on dense (any order, any strides, float32/float64/integer, array-like) or scipy sparse input (without duplicate entries), exposes coef_ equal to the core library's coefficients for the same numbers and hyperparameters (up to rounding; transposed to (tasks, features) for multi-task) and satisfying the optimality conditions recomputed in NumPy. predict(X) returns X times the coefficients, raises before fitting, and neither fit nor predict modifies its inputs. fit writes its progress to standard output when verbose is set and writes nothing otherwise.",
 ["inputs", "configurations", "histories"], "every array-like accepted by the Python API, every estimator and parameter, refits included",
 "The Python tests fit one random dataset and compare with scikit-learn at loose tolerance; predict is never called.",
 [PE, PS + "/lasso.rs", PS + "/mtl_lasso.rs", PS + "/mcp.rs", PS + "/block_mcp.rs", PS + "/elastic_net.rs", PS + "/multi_task_elastic_net.rs"],
 [("check_array / validate_data conversion", PE), ("PyO3 wrappers building dataset views", PS)],
 ["coef_, predict output, input arrays and standard output"])

prop("C19", "Python estimators reject invalid parameters and data with ValueError",
 "Constructing or fitting a Python estimator with an invalid hyperparameter, whether given to the constructor, through set_params or assigned on a new or fitted estimator (non-float or negative alpha, non-float gamma or gamma below one, non-float l1_ratio or outside [0, 1], non-integer or non-positive K or working-set size, non-float or negative tolerance, non-integer or negative budgets), with inconsistent sample counts, 1-D targets for multi-task models, several target columns for single-task models, design matrices that are not two-dimensional or are empty, or non-finite data raises ValueError, never a panic or a silently wrong fit. Every valid combination, including alpha in (0, 1) with gamma >= 1 and alpha > 1 with l1_ratio in [0, 1], is accepted.",
 ["inputs", "configurations"], "every combination of valid and invalid hyperparameters and data shapes for each of the six estimators",
 "No Python test constructs an invalid estimator or an MCP/ElasticNet model outside one lucky alpha.",
 [PE, PS], [("constructor checks and _validate_params", PE), ("check_array, consistent lengths", PE)],
 ["exceptions raised by constructors and fit"])

prop("C20", "Python data helpers do what their documentation says",
 "make_correlated_data returns arrays of the documented shapes, with exactly the requested number int(density * n_features) of non-zero coefficients per task (or the given ones), unit-variance Gaussian features whose correlation is corr**|i-j|, a signal-to-noise ratio equal to the requested one (no noise for np.inf), reproducibly for a given seed, and raises ValueError for correlation or density out of range. The Python alpha_max helper equals its definition and yields null fits at that value (up to rounding) and non-null ones clearly below it, and the squared-sum helper equals the sum of squares for any layout.",
 ["inputs", "configurations"], "every argument combination accepted by the helpers",
 "The helpers are only used by tests with one argument set and are never themselves checked.",
 [PU], [("AR(1) generation, support choice, noise scaling", PU + ":make_correlated_data")],
 ["returned arrays"])

prop("C21", "The solver's running prediction always equals X times its coefficients",
 "At every point where the solver asks a datafit or penalty for a value, gradient or optimality distance, the prediction vector (matrix) it passes equals the design matrix times the current coefficients up to rounding, also right after an extrapolation was adopted or rejected and for sparse matrices. Each coordinate update is the penalty's proximal operator applied to a gradient step with the datafit's own step constant, and features with a zero constant are never touched.",
 ["inputs", "histories", "configurations"], "every problem, every intermediate state of every solver run observed through user-supplied datafits and penalties",
 "Tests only see final coefficients, where an inconsistent state can be masked by later iterations.",
 [CD, BCD, DM], [("incremental model fit update", DM + ":update_model_fit"), ("extrapolated fit", DM + ":compute_extrapolated_fit")],
 ["arguments received by an instrumented user-defined datafit/penalty during solve"],
 [("Xw / XW", "model fit maintained incrementally next to the coefficients", CD + ", " + BCD)])

prop("C22", "Single- and double-precision fits agree",
 "Every public estimator, solver, penalty, datafit and helper works for 32-bit floats and gives the 64-bit answer up to single-precision accuracy on the same (single-precision representable) data and hyperparameters. Fits in single precision satisfy the optimality conditions at single-precision accuracy.",
 ["inputs", "configurations"], "every moderately conditioned dataset representable in f32 and every model",
 "All tests run in f64; nothing executes the generic code in f32.",
 ["src/lib.rs", CD, BCD, EST, UT, SEP, BLK, DF1, DF2], [("Float trait and casts", "src/lib.rs:Float")],
 ["f32 results versus f64 results"])

prop("C23", "User-defined datafits and penalties are solved correctly",
 "A user-supplied single- or multi-task datafit (with its own value, coordinate gradients and step constants) combined with a user-supplied or built-in penalty is solved by the generic solver to the optimality conditions of that user-defined objective up to the tolerance, on dense and sparse matrices. The solver relies only on the documented methods of the two interfaces.",
 ["programs", "inputs", "configurations"], "every datafit/penalty pair satisfying the interfaces' contracts (weighted least squares, Huber, weighted L1, non-negative L1, box constraints, ...), over-estimated step constants and user-written design matrices and targets included",
 "Tests only combine the built-in pieces; extensibility is the library's headline feature and is never exercised.",
 [CD, BCD, DF1, DF2, SEP, BLK], [("generic solver over the Datafit and Penalty traits", CD + ", " + BCD)],
 ["coefficients returned by Solver::solve / solve_multi_task for user-defined objects"])

prop("C24", "The solver stops exactly when the tolerance is met",
 "For a fixed problem and fixed knobs, the fits with outer budgets 0, 1, 2, ... are the prefixes of one history: the solver stops at the first outer iterate whose optimality violation is at most the tolerance, so every larger budget returns those very coefficients, and as long as the violation clearly exceeds the tolerance one more outer iteration with a positive epoch budget keeps working on the coefficients. Exhausting the budget is not an error: the last iterate is returned.",
 ["inputs", "configurations", "histories"], "every problem, model, tolerance, working-set size, epoch budget and outer budget",
 "Tests run one budget per problem; neither a premature stop followed by a lucky result nor wasted iterations after convergence is visible in a single fit.",
 [CD, BCD, EST, HYP, SEP, BLK], [("stopping rule of the outer loop on the largest violation", CD + ":coordinate_descent, " + BCD + ":block_coordinate_descent"), ("default tolerance and budgets", HYP)],
 ["coefficients returned for increasing outer budgets"])

prop("C25", "Every working set holds the support and the worst violators",
 "The features one outer iteration may change are its working set: it contains every feature whose coefficient is non-zero at its start, has min(max(start size, 2 x support size), p) elements (start size capped at p), and its other members are the features with the largest optimality violations at that point (with ties in any order). The first iteration from zero coefficients works on exactly the start size of worst violators.",
 ["inputs", "configurations", "histories"], "every problem, model, start size and outer iteration from the first on",
 "Tests only see final coefficients: a working set that misses violators or support features still converges, only slower, on the problems they use.",
 [CD, BCD, SEP, BLK, UT], [("scoring by distance or by fixed-point residual", SEP + ", " + BLK), ("working-set selection", CD + ":construct_ws_from_kkt, " + BCD + ":construct_ws_from_kkt")],
 ["coefficients returned for consecutive budgets; calls received by an instrumented user-defined datafit/penalty"],
 [("working set", "features optimised by the current outer iteration; grows with the support, keeps every non-zero feature", CD + ", " + BCD)])

prop("C26", "Python estimators keep the scikit-learn contract through any history",
 "A Python estimator is its parameters plus the coefficients of its last fit: get_params returns exactly what the constructor (positional, keyword or default) and set_params stored, fit returns the estimator and sets coef_ to what a fresh estimator with these parameters gives, bit for bit, whatever happened before; clone gives an unfitted equal estimator; pickle, joblib, copy and deepcopy give an equal, independent one, fitted or not; arrays handed out as coef_ never change later. Fits from several threads and inside Pipeline, cross-validation, GridSearchCV and MultiOutputRegressor equal the direct ones.",
 ["histories", "inputs", "schedules"], "every sequence of construction, set_params, fit, predict, clone, serialisation and meta-estimator use over several estimators and datasets",
 "The Python tests fit each estimator once; no test clones, serialises, refits or wraps one.",
 [PE, PS], [("constructor stores its arguments (BaseEstimator protocol)", PE), ("fit builds the native solver anew and stores coef_", PE), ("conversion of the coefficients to NumPy", PS)],
 ["get_params, coef_, predict and meta-estimator results after every step of the history"],
 [("coef_", "None before the first fit, then the coefficients of the last fit", PE)])

prop("C27", "Datasets hand out exactly the data they were built from",
 "A dataset built by From or new from dense (owned, borrowed or referenced, any order and stride), compressed sparse or user-written parts returns these very parts through its getters and public fields; targets report their own numbers of samples and tasks and give a view, not a copy, of the same numbers as a matrix, and as a vector exactly when there is one column (several columns give NonCastableSingleTargets). Design matrices report their number of features and kind, also behind references; clones are independent and datasets are equal exactly when all their numbers are.",
 ["inputs", "histories"], "every element type, shape and storage of the parts and every sequence of cloning, rebuilding and overwriting",
 "No test looks at the dataset types at all; the solvers silently work on whatever the accessors return.",
 ["src/datasets/mod.rs", "src/datasets/impl_datasets.rs", "src/datasets/impl_targets.rs", DM, "src/datasets/csc_array.rs"],
 [("accessors of targets and their references", "src/datasets/impl_targets.rs"), ("single-task cast", "src/datasets/mod.rs:try_single_target"), ("constructors and getters", "src/datasets/impl_datasets.rs")],
 ["values, shapes and addresses returned by the accessors; equality of datasets"])

prop("C28", "Verbose fits report their true progress and other fits print nothing",
 "With verbose off a fit writes nothing to stdout or stderr. With verbose on it returns the same coefficients and its report is true: one line per outer iteration with the largest optimality violation at its start, the iteration's number and the size of its working set, and per epoch report the epoch, the objective and the violation on the working set at that point; the report ends where the solver stops.",
 ["inputs", "configurations"], "every problem, model, estimator or solver, knobs and storage",
 "Tests never capture output.",
 [CD, BCD, HYP, SOL], [("progress lines of the outer and inner loops", CD + ":coordinate_descent, " + BCD + ":block_coordinate_descent"), ("report of an adopted extrapolation or a singular system", CD + ":anderson_accel, " + BCD + ":anderson_accel")],
 ["stdout and stderr of a process that runs one fit at a time"])

prop("C29", "The test helpers generate and compare data as documented",
 "The public closeness assertions panic exactly when the shapes differ or some pair of entries differs by more than the given precision, for vectors and matrices of any layout and both precisions, a NaN never being close to anything. The random data helpers are deterministic, standard normal, prefix-consistent over lengths, and build a column-major design and targets equal to the design times the random coefficients plus the random noise, for one or several tasks.",
 ["inputs"], "every pair of arrays and every size",
 "These helpers decide the project's own tests; nothing tests them.",
 [UT], [("closeness assertions", UT + ":assert_array_all_close, assert_array2d_all_close"), ("random data", UT + ":fill_random_vector, generate_random_data, generate_random_data_mtl")],
 ["panics and returned arrays"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
