#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so the text stays reviewable)"""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None,
            **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))

TESTS = ("the ten existing tests solve three shipped models at first order and compare them with "
         "stored matrices and AR(1)-style facts; ")

prop('C01', 'Expressions evaluate by the conventional rules of arithmetic',
 "Every algebraic expression the package reads, whether given as a string to the expression evaluator, as a parameter "
 "definition, as a model equation or as a comparison, has the value of conventional mathematics: powers bind tightest and to the right, "
 "unary signs below powers and above nothing else, products and quotients before sums, equal-rank operators to the left, parentheses and the supported functions "
 "as written. The value does not depend on redundant parentheses or on white space, and both accepted spellings of the power operator agree.",
 ['inputs'], 'all expressions over numbers, names, + - * / ^, unary signs, parentheses, the supported functions and the comparison operators, at any nesting depth',
 TESTS + 'none evaluates an expression on its own, so operator interactions outside those three files are never seen',
 ['pynare/parsing/parser.py', 'pynare/parsing/base.py', 'pynare/parsing/lexer.py', 'pynare/parsing/api.py'],
 [('precedence climbing', 'parsing/parser.py BaseParser.atom..comp_expr, DynareParser.matom..mexpr'), ('operator dispatch', 'parsing/base.py _BaseEvaluator')],
 ['evaluate(), parse_string()', 'Model.dynamic_repr(values)'])

prop('C02', 'Reading a model file yields exactly the model the file states',
 "For every well-formed model file, the built model has the declared endogenous variables, shocks and parameters in declaration order, the parameter values and starting/terminal/historical values the assignments define, "
 "and the shock covariance matrix the shocks block states (variances, standard errors, correlations and covariances; undeclared variances default as documented). "
 "Each equation's residual, at any values of its variables and at any candidate steady state, equals left side minus right side of the written equation, with equations in file order.",
 ['inputs', 'programs'], 'all model files over the supported grammar: any declarations, parameter definitions, equations, local definitions, tags, boundary blocks and shock statements',
 TESTS + 'they check three fixed files only through their solved matrices',
 ['pynare/parsing/parser.py', 'pynare/parsing/factory.py', 'pynare/parsing/semantics.py', 'pynare/core/expressions.py', 'pynare/core/generic.py', 'pynare/core/model.py'],
 [('outline construction', 'parsing/factory.py DynareModelFactory'), ('shock covariance', 'core/generic.py DynamicModel._define_sigma'), ('residual functions', 'core/expressions.py steady_func, dynamic_func')],
 ['Model.from_path(), read_model()', 'model.endog/stoch/params/initial/sigma', 'model.dynamic_repr(x), model.steady_repr(x)'])

prop('C03', 'Layout, comments and file format never change the model',
 "Rewriting a model file without changing its content - white space, line breaks, indentation, comments of every supported form in any place white space may stand, optional commas, equation tags, an equation written with zero on the right, a missing newline at the end of the file - "
 "yields a model with the same variables, parameters, shock covariances and equation residuals. Building the same model through keyword arguments with equations as strings gives that same model as well.",
 ['inputs', 'programs'], 'all pairs of a model and a content-preserving rewriting of its source',
 TESTS + 'each file has one fixed layout',
 ['pynare/parsing/lexer.py', 'pynare/parsing/parser.py', 'pynare/core/model.py', 'pynare/core/expressions.py'],
 [('comment and white-space skipping', 'parsing/lexer.py BaseLexer.next_token, DynareLexer.skip_*'), ('string equations', 'core/expressions.py ModelExprs')],
 ['Model.from_path(), Model(...)'])

prop('C04', 'Malformed or unsupported input is rejected, and reading always ends',
 "Reading any text as a model file or an expression ends after finitely many steps, with either a result or an exception. "
 "Input outside the language - a missing or unbalanced token, trailing text after a complete expression, an undeclared or twice-declared name, a value assigned to something that is not a parameter, a shock on a variable that is not a shock, a time shift beyond one period, a variable that never appears - is answered with an exception, never with a silently different model.",
 ['inputs', 'fault_sequences'], 'all character sequences, in particular every single-token deletion, insertion, duplication, swap or truncation of a valid model file',
 TESTS + 'none feeds the reader an invalid file',
 ['pynare/parsing/lexer.py', 'pynare/parsing/parser.py', 'pynare/parsing/semantics.py', 'pynare/parsing/factory.py', 'pynare/core/variables.py'],
 [('token matching', 'parsing/parser.py eat/error'), ('semantic checks', 'parsing/semantics.py DynareSemanticAnalyzer'), ('lead/lag incidence bounds', 'core/variables.py VariableIndexManager')],
 ['Model.from_path(), read_model(), parse_string()'])

prop('C05', 'Calibration: definitions are solved in any order, and failures change nothing',
 "Parameters defined in a calibration (a mapping of names to numbers or expressions) through other parameters take the values that satisfy all definitions simultaneously, whatever the order in which they are listed, and redefining one parameter carries through to everything defined in terms of it. A model file states definitions in order: a definition may use what precedes it and is refused if it uses what does not. "
 "A definition that is circular or names something undefined is refused with an exception, and a refused change leaves every value and definition as it was. The mapping given by the caller is not altered by building or editing a calibration.",
 ['inputs', 'histories'], 'all acyclic and cyclic systems of parameter definitions, and all sequences of edits including failing ones',
 TESTS + 'no test edits a parameter or uses a definition out of order',
 ['pynare/core/variables.py', 'pynare/core/generic.py'],
 [('ordering of definitions', 'core/variables.py solve_calibration, order_precedence'), ('update on assignment', 'core/variables.py ModelCalibration.__setitem__')],
 ['model.params[...]', 'Model.add_params()', 'ModelCalibration'])

prop('C06', 'Timing analysis: every variable is classified by where it appears',
 "For every model, each endogenous variable is reported as static, purely backward, mixed or purely forward according to exactly the periods at which it appears in the equations, the groups partition the variables, and the state and forward groups, their counts and the incidence table agree with that classification. "
 "The decision-rule order lists static, then purely backward, mixed and purely forward variables, each in declaration order, and the way back to declaration order is its inverse.",
 ['inputs', 'programs'], 'all models: every assignment of appearance periods to variables and every distribution of the appearances over equations',
 TESTS + 'three incidence patterns only',
 ['pynare/core/variables.py', 'pynare/core/generic.py'],
 [('counting appearances', 'core/variables.py LeadLagCounter, read_lead_lags'), ('classification', 'core/variables.py VariableIndexManager, VariableTyper')],
 ['model.indexes', 'model.state_vars, static_vars, mixed_vars, ...'])

prop('C07', 'Results do not depend on names or on the order of declarations and equations',
 "Renaming variables, shocks or parameters consistently, reordering the declarations of variables or shocks, reordering the equations, swapping the sides of an equation, or multiplying an equation by a non-zero constant leaves the steady state, the policy functions, the moments, simulated paths under the correspondingly arranged shocks and impulse responses the same up to the corresponding reordering. "
 "This holds for any legal names, including names that extend one another.",
 ['inputs', 'programs'], 'all models, all consistent renamings and all permutations of declarations and equations',
 TESTS + 'a single naming and ordering per model',
 ['pynare/core/expressions.py', 'pynare/core/variables.py', 'pynare/core/solve/first_order.py', 'pynare/core/solve/second_order.py', 'pynare/stats/moments.py'],
 [('names of dated variables', 'core/expressions.py dynamic_func'), ('decision-rule reordering', 'core/variables.py dr_order, dc_order')],
 ['model.ss.values, solution arrays, stats, simulate(), impulse_response()'])

prop('C08', 'The reported steady state satisfies the static equations',
 "Whenever a model has a regular steady state and the search starts at or near it, the reported steady-state values make every equation hold, to the accuracy of the optimiser, with all leads and lags at the same value and shocks at zero; they are given in declaration order. "
 "The reported outcome is honest: the reported objective equals the sum of squared equation residuals at the reported values, so a search that failed to find a steady state can be recognised.",
 ['inputs', 'programs'], 'all nonlinear models with a regular steady state, all starting values in a neighbourhood, all parameter values',
 TESTS + 'they never inspect steady-state residuals',
 ['pynare/core/steady.py', 'pynare/core/expressions.py', 'pynare/core/generic.py'],
 [('least-squares search', 'core/steady.py SteadyState.compute, _SteadyStateManager'), ('static equations', 'core/expressions.py steady_func')],
 ['model.ss.values, model.ss.results, model.steady_repr(x), model.initial'])

prop('C09', 'Jacobian and Hessian are the true derivatives of the equations',
 "At the steady state, the reported dynamic Jacobian and Hessian equal the first and second partial derivatives of every equation with respect to every dated variable and shock that enters the model, in the documented order of columns; the reported steady-state Jacobian equals the derivatives of the static equations. "
 "The Hessian is symmetric and is zero for linear equations.",
 ['inputs', 'programs'], 'all differentiable equations over the supported operators and functions, at every regular point',
 TESTS + 'derivatives are only seen through three solved models',
 ['pynare/core/linearizing.py', 'pynare/core/expressions.py', 'pynare/parsing/base.py'],
 [('automatic differentiation', 'core/linearizing.py Linearization, ModelJacobian, ModelHessian'), ('column layout', 'core/linearizing.py Linearization.ss; core/expressions.py dynamic_func')],
 ['model.jacobian.array, model.hessian.array, model.ss.jacobian / steady_repr.jacobian.array'])

prop('C10', 'The first-order solution solves the linearised model and is stable',
 "For every model with a unique stable solution, the reported first-order responses to states and shocks, substituted for current and expected future variables, satisfy the model linearised at its steady state identically in states and shocks. "
 "The implied transition of the states has all eigenvalues inside the unit circle, and the responses equal the unique stable solution for every mixture of static, backward, mixed and forward variables and any number of shocks.",
 ['inputs', 'programs'], 'all determinate models with at least one lead or lag: any dimension, structure (including no static, no backward, no forward, one state, one shock, no shock, complex or negative roots) and parameter values',
 TESTS + 'three models with similar structure',
 ['pynare/core/solve/statespace.py', 'pynare/core/solve/first_order.py', 'pynare/utils/numpy.py'],
 [('structural state space', 'core/solve/statespace.py _compute_structural_state_space'), ('ordered QZ', 'utils/numpy.py partitioned_qz'), ('static and shock responses', 'core/solve/first_order.py')],
 ['Model.solve(order=1).gy/gu'])

prop('C11', 'Models without a unique stable solution are refused',
 "Solving a model is refused with an exception exactly when the linearised model fails the Blanchard-Kahn order or rank condition: with too many explosive roots, with too few, or when the forward variables are not pinned down. "
 "Models that satisfy both conditions are solved, and the reported roots are those of the linearised model.",
 ['inputs', 'programs'], 'all linear(ised) models away from unit roots: every count of explosive roots against forward variables, real, negative or complex',
 TESTS + 'all tested models are determinate',
 ['pynare/core/solve/statespace.py', 'pynare/core/solve/first_order.py', 'pynare/utils/numpy.py', 'pynare/errors/__init__.py'],
 [('order and rank check', 'core/solve/statespace.py StateSpace.verify'), ('classification of roots', 'utils/numpy.py partitioned_qz')],
 ['Model.solve()', 'model.statespace.eigen, model.statespace.verify()'])

prop('C12', 'The second-order solution satisfies the second-order expansion of the model',
 "For every determinate model, the reported second-order coefficients on states, states and shocks, shocks, and uncertainty, together with the first-order ones, form the second-order Taylor expansion of the policy function: substituted into the expectation of the equations they make all second-order terms vanish. "
 "For linear models all second-order terms are zero, and the uncertainty term scales with the shock covariance matrix.",
 ['inputs', 'programs'], 'all determinate differentiable models, any number of states and shocks, any shock covariance matrix',
 TESTS + 'no test computes a second-order solution',
 ['pynare/core/solve/second_order.py', 'pynare/utils/numpy.py', 'pynare/core/linearizing.py'],
 [('Sylvester system', 'core/solve/second_order.py SecondOrderSolver; utils/numpy.py generalized_sylvester'), ('uncertainty correction', 'core/solve/second_order.py solve_del2')],
 ['Model.solve(order=2).ghxx/ghxu/ghuu/del2'])

prop('C13', 'Simulated paths follow the solved policy function period by period',
 "A simulation starts at the given initial values (the steady state by default) and each later period equals the solved policy function, at the requested order, of the previous period and the previous row of shocks, with shocks in standard-deviation units and correlated as the covariance matrix states; paths are levels in declaration order. "
 "Random shocks have the model's covariance matrix, the same shocks give the same path, one path does not affect another, and the number of rows is as requested.",
 ['inputs', 'histories'], 'all solved models with shocks (at first order also with states: the simulator refuses the others), orders, shock paths, initial values, lengths and sequences of simulations',
 TESTS + 'simulation is never run',
 ['pynare/simul.py', 'pynare/core/model.py'],
 [('recursion', 'simul.py LinearSimulator._simulate_first_order/_simulate_second_order'), ('shock scaling', 'simul.py _generate_simul_shocks')],
 ['Model.simulate(...).paths, .shocks'])

prop('C14', 'Impulse responses are the policy response to the named shock alone',
 "An impulse response is zero in its first row, and from the second row on equals the policy function's response to one impulse of the stated size, in standard deviations, to the named shock(s) only (the first declared one by default), as deviation from steady state in declaration order. "
 "At first order it is linear in size, responses to several shocks add up, and it agrees with powers of the state transition.",
 ['inputs'], 'all solved models, every shock or list of shocks, sizes of either sign, lengths and orders',
 TESTS + 'impulse responses are never computed',
 ['pynare/impulse.py', 'pynare/simul.py', 'pynare/core/variables.py'],
 [('single impulse', 'impulse.py impulse_response'), ('lookup by name', 'core/variables.py VarArray.get_loc')],
 ['Model.impulse_response(...).impulse'])

prop('C15', 'Sample statistics of a simulation are those of its recorded paths',
 "The correlation matrix and the autocorrelation coefficients reported for a simulation are the sample statistics of exactly the recorded paths after dropping the requested number of initial periods, labelled by variable and lag in declaration order. "
 "Correlations are symmetric with unit diagonal and within [-1, 1]; requests that leave too few periods or drop a negative number are refused.",
 ['inputs'], 'all simulations, drop counts and lag counts',
 TESTS + 'sample statistics are never computed',
 ['pynare/simul.py'],
 [('sample moments', 'simul.py ModelSimulation.corr/autocorr'), ('dropping', 'simul.py _drop_simulated_paths')],
 ['ModelSimulation.corr(), .autocorr()'])

prop('C16', 'Theoretical second moments are those of the solved process',
 "For every stable solved model, the reported covariance matrix is that of the stationary first-order process: symmetric, positive semidefinite and equal to the sum of the contributions of all past shocks under the shock covariance matrix. "
 "Variances, standard deviations and correlations agree with it; the k-th reported autocovariance and autocorrelation is that between the variables and their values k periods earlier for k = 1, 2, ..., all in declaration order, whatever order the model was solved at.",
 ['inputs', 'programs'], 'all stable solved models, any shock covariance matrix including correlated shocks, any number of lags',
 TESTS + 'moments are not compared with the solution',
 ['pynare/stats/moments.py', 'pynare/core/solve/statespace.py'],
 [('Lyapunov equation', 'core/solve/statespace.py StateSpace.sigma'), ('observation equation', 'stats/moments.py cov, autocov')],
 ['model.stats.cov/var/std/corr/autocov/autocorr'])

prop('C17', 'Variance decompositions attribute all variance to the right shocks',
 "For every solved model, the share of a variable's variance attributed to each shock is the variance the variable would have if only that (orthogonalised, in declaration order) shock moved, divided by its total variance; shares are between 0 and 1 and add to one for every variable that varies. "
 "Rows and columns are in declaration order, or in the order of the names requested, and unknown names are refused.",
 ['inputs'], 'all stable solved models with any number of shocks, correlated or not, and every selection of variables and shocks',
 TESTS + 'decompositions are never computed',
 ['pynare/stats/var.py'],
 [('orthogonalisation', 'stats/var.py var_decomp')],
 ['model.stats.var_decomp(endog=, stoch=)'])

prop('C18', 'Theoretical means include exactly the second-order risk correction',
 "After a first-order solution the reported means are the steady state. After a second-order solution they are the steady state plus the mean of the second-order approximate process, in which squared terms are evaluated at the first-order variances; for a model that is linear they are the steady state, and they agree with long simulated averages of the same second-order policy. Asked of a model that was not solved yet, they are those after solving it by default.",
 ['inputs', 'programs'], 'all stable solved models and shock covariance matrices at both orders',
 TESTS + 'means are never computed',
 ['pynare/stats/moments.py', 'pynare/core/solve/second_order.py'],
 [('mean correction', 'stats/moments.py mean')],
 ['model.stats.mean()'])

prop('C19', 'One occasionally binding constraint: each period satisfies the regime in force',
 "A piecewise solution with one constraint gives a path, as deviation from the reference steady state, that in every period satisfies the linearised equations of the regime in force given that period's shock and the expectation that no further shocks come: the reference equations where the constraint is slack and the alternative ones where it binds. "
 "Where the constraint never binds the path is the ordinary linear one; initial values, shocks, named shocks and length are honoured, and a search that does not settle is reported by a warning; a model whose variables or parameters are not those of the reference, in its order, is refused as a regime.",
 ['inputs', 'histories'], 'all reference/alternative pairs, constraints, shock sequences, initial values and lengths for which a regime sequence is found',
 TESTS + 'no test solves a constrained model',
 ['pynare/core/solve/binding.py', 'pynare/regimes.py', 'pynare/core/model.py'],
 [('guess and verify', 'core/solve/binding.py solve_occbin_one_constraint'), ('backward recursion', 'core/solve/binding.py _simulate_hypothesized_paths')],
 ['Model.solve(constraint=..., exprs=..., shocks=...).paths'])

prop('C20', 'Two occasionally binding constraints: all four regimes are respected',
 "With two constraints and an alternative regime for each and for both together, the piecewise path satisfies in every period the linearised equations of the regime in force - neither, first only, second only, or both - given that period's shock and no further expected shocks. "
 "When only one of the constraints ever binds the path equals the one-constraint solution, and when none does it equals the linear one.",
 ['inputs', 'histories'], 'all reference models with two constraints, shock sequences, initial values and lengths for which a regime sequence is found',
 TESTS + 'no test solves a constrained model',
 ['pynare/core/solve/binding.py', 'pynare/regimes.py'],
 [('guess and verify', 'core/solve/binding.py solve_occbin_two_constraints'), ('backward recursion', 'core/solve/binding.py _simulate_hypothesized_paths_two_constraints')],
 ['Model.solve(constraint=[...], exprs=[...], shocks=...).paths'])

prop('C21', 'An altered model behaves like one built afresh with the alteration',
 "After parameters are changed or added, equations replaced or appended, or variables and shocks added - through the add_... methods, or by assigning to params[...] or exprs[...] and calling update() - everything the model reports once solved again - steady state, indexes, derivatives, solution, simulation, impulse responses, moments, summaries - is what a new model built directly with the final definitions reports. "
 "This holds for every sequence of alterations, whatever was computed in between.",
 ['histories'], 'all sequences of alterations interleaved with computations',
 TESTS + 'no test alters a model',
 ['pynare/core/generic.py', 'pynare/core/model.py', 'pynare/core/expressions.py', 'pynare/core/variables.py'],
 [('staleness flag', 'core/generic.py is_altered, update')],
 ['Model.add_params/add_exprs/add_endog/add_stoch, model.params[...], model.exprs[...], then any accessor'])

prop('C22', 'Computations do not disturb each other, copies are independent',
 "Solving, simulating, computing moments, summarising, plotting or copying a model never changes what the model or any other model reports, nor the arrays, dictionaries and lists passed in by the caller; results do not depend on which computations were run before. "
 "A copy, solved the same way, reports exactly what the original reports, and altering either leaves the other unchanged; solving a model with constraints leaves the reference model as it was.",
 ['histories'], 'all sequences of computations and copies on one or several models sharing inputs',
 TESTS + 'each test makes a few calls on a module-level model',
 ['pynare/core/model.py', 'pynare/core/generic.py', 'pynare/regimes.py', 'pynare/core/expressions.py', 'pynare/core/variables.py'],
 [('copying', 'core/generic.py DynamicModel.copy; regimes.py'), ('substitution on copies of equations', 'parsing/base.py _ASTSubstitution')],
 ['every public accessor before and after'])

prop('C23', 'Summaries print the exact numbers under the right names, omitting nothing',
 "Every number printed by the model, statistics and solution summaries is the corresponding computed quantity, rounded to the requested number of digits, in the row and column labelled with the variables, states and shocks it belongs to. "
 "Nothing above the display threshold is left out - at second order a row is hidden only when all its entries are below the threshold in absolute value - and only the requested blocks are shown.",
 ['inputs', 'configurations'], 'all models, digit counts, thresholds and selections of blocks',
 TESTS + 'no summary is ever printed',
 ['pynare/io/summary.py'],
 [('formatting', 'io/summary.py _summarize_array'), ('row labels and reordering', 'io/summary.py FirstOrderSummary, SecondOrderSummary')],
 ['str(model.summary(...)), str(model.stats.summary(...)), str(solution.summary(...))'])

prop('C24', 'Plots draw every series exactly once under its own label',
 "Plotting a simulation or impulse response draws each variable's recorded series exactly once, unaltered, in a panel whose legend names that variable, for every documented arrangement of panels and for a single panel; no series is dropped, duplicated or mislabelled, whatever the number of variables. "
 "Unrecognised arrangements are refused.",
 ['inputs', 'configurations'], 'all numbers of series, documented layouts and explicit grids',
 TESTS + 'nothing is ever plotted',
 ['pynare/plotting/base.py', 'pynare/simul.py', 'pynare/impulse.py'],
 [('panel layout', 'plotting/base.py arrange_plot, _plot_grid, _plot_column')],
 ['ModelSimulation.plot(), ImpulseResponse.plot()'])

prop('C25', 'The numeric building blocks satisfy their defining equations',
 "The matrix routines the solvers rest on meet their definitions for all conforming inputs: the generalized Sylvester solver returns X with A X B' + C X D' = E, the partitioned QZ routine returns all generalized eigenvalues ordered with the stable ones first and blocks of an orthogonal transformation that reproduces the pencil, the Kronecker product routine returns A (B kron C), the overlap merge, the symmetric inverse, the sorted eigenvalues and the helpers that join, extend and multiply arrays and scalars do what they state. "
 "Inputs whose shapes do not conform are refused.",
 ['inputs'], 'all conforming matrices of moderate size and conditioning, including real matrices with complex eigenvalues and one-row or one-column shapes',
 TESTS + 'the routines are only run on the matrices of three models',
 ['pynare/utils/numpy.py'],
 [('Bartels-Stewart variant', 'utils/numpy.py generalized_sylvester'), ('ordered QZ', 'utils/numpy.py partitioned_qz'), ('Kronecker product', 'utils/numpy.py matrix_kronecker_product')],
 ['pynare.utils.numpy.*'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
