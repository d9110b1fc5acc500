prop('C01', 'Indirect formulation equals the first-order necessary conditions',
     'For every well-posed smooth optimal control problem with a regular Hamiltonian, the two-point boundary value problem '
     'derived by the indirect method with control rates is exactly the first-order necessary conditions: state, time, '
     'costate and control rates on normalised time, every given end condition, every transversality condition, the '
     'free-time Hamiltonian condition and the end stationarity condition. There are exactly as many boundary conditions '
     'as unknowns (dynamic variables, duration, multipliers). Time dependence, initial, path and terminal costs, free, fixed and '
     'nonlinear end conditions, and any symbol names that are legal identifiers are all covered.',
     ['inputs', 'programs'], 'all smooth problems with at least one state and one control and nonsingular Huu, at every regular point',
     'The tests solve a few textbook problems to a tolerance; a wrong sign or a missing term in conditions those problems do not '
     'exercise (time-dependent dynamics, initial costs, several controls, coupled end conditions) leaves them green.',
     [MF, NP, SP, CS], [('dualisation, control law, time normalisation', MF), ('compiled rates and boundary conditions', NP)],
     'symbolic problem and compiled boundary value problem', 'compiled rate and boundary functions at generated points',
     'property-based testing: generated problems, differential oracle (independent symbolic derivation of the necessary conditions)',
     'Generated problems of 1-3 states, 1-2 controls; reference derived independently in sympy and compared numerically at generated '
     'regular points, boundary rows matched up to order and sign; JIT and interpreted compilation.')

prop('C02', 'Geometric formulation and symmetry reduction are equivalent to the classical',
     'For every well-posed smooth problem, the geometric formulation gives the same state, time, control and costate rates and the same '
     'boundary conditions as the classical one on trajectories satisfying stationarity, plus vanishing control costates at the start. '
     'With the control eliminated algebraically the two formulations agree everywhere. For translation symmetries, reduction removes '
     'each ignorable coordinate and its momentum, and the reduced rates, quadrature rates and boundary residuals equal the unreduced '
     'ones for both control treatments.',
     ['inputs', 'programs'], 'all smooth problems, with up to three translation symmetries, at every regular point',
     'Tests reduce one or two fixed problems end to end; equivalence must hold for every problem and every ordering of ignorable coordinates.',
     [MF, DG, NP], [('symplectic form and Hamiltonian vector field', DG), ('reduction', MF)],
     'symbolic problem before and after reduction', 'compiled rates, quadrature rates and boundary functions',
     'property-based testing: generated problems, differential oracle (reference necessary conditions; reduced versus unreduced)',
     'Generated problems of 1-3 states, 1-2 controls, 1-2 ignorable coordinates in any position; points placed on the stationarity '
     'manifold by constants added to the cost.')

prop('C03', 'Solution maps are mutually inverse and agree with the formulation',
     'For every formulation option (classical or geometric, control rates or control law, with or without reduction, with or without '
     'time normalisation or time-as-state), mapping any trajectory with states, controls, costates, time costate and constants to the boundary value '
     'problem and back returns the same trajectory, with controls under trigonometric bounds staying inside their bounds. The mapped '
     'data has the dimensions of the boundary value problem, keeps supplied multipliers, and evaluating the boundary value problem '
     'on it gives the rates and residuals of the original trajectory. (Without time as a state, trajectories start at time zero; a '
     'control given by an algebraic law is recomputed from the law.)',
     ['inputs', 'configurations'], 'all problems, option combinations, grids and trajectory values',
     'Tests only see the inverse map after a converged solve; column permutations, multi-control insertion orders and non-zero start times '
     'do not occur in them.',
     [TM, MF], [('forward and inverse maps', TM), ('map chain', SP)], 'trajectory arrays and parameters', 'mapped and recovered trajectories',
     'property-based testing: round trip both ways plus metamorphic consistency with the compiled problem',
     'Generated problems up to 4 states, 3 controls, 3 symmetries, utm and trigonometric bounds; 2-6 node trajectories.')

prop('C05', 'Manual and bisection continuation visit exactly the promised constants',
     'For every chain of manual and bisection continuation steps, the sequence of constants handed to the solver is the promised one: '
     'manual steps follow the configured spacing from the current value to the exact target, and a bisection step halves the failed '
     'interval, never skips past an unsolved point, ends at the exact target and gives up only after its allowed number of divisions. '
     'Each solve starts from a converged trajectory of the same step nearest in the constants (sum of absolute differences; the incoming trajectory for the first), '
     'constants not named in a step keep their value, and each step starts from the final trajectory of the one before. '
     'The trajectories returned are those of all the solves of each step, in order, with their verdicts. Steps can be reused, on any start, with the same behaviour as fresh ones.',
     ['histories', 'fault_sequences'], 'all step chains, targets, spacings, case numbers and patterns of solver failures',
     'Tests run steps whose solves succeed; the sequence after failures, in long chains, or on reuse is a history property.',
     [CO, BE], [('step iteration and bisection', CO), ('continuation loop', BE)], 'constants, history of solved trajectories',
     'constants and guess of every solver call, returned list of trajectories',
     'model-based property testing: generated step chains with injected solver failures, checked against a reference model of the sequence',
     'Up to 4 steps, 1-3 variables, 2-12 cases, generated failure plans; the solver is a recorder on a real compiled problem.')

prop('C06', 'Product-space continuation covers its whole grid from nearest solutions',
     'For every product-space or sparse product-space continuation step, the constants visited are exactly the points of the grid '
     'spanned from the current values to the targets (for sparse grids the major grid plus the minor points along each direction), '
     'each of them once, including the target corner. A failed solve never aborts the step or hides other points, and every solve '
     'starts from a solved point of the step nearest to it in the sum of the absolute differences of the constants, and constants not named in the step keep their value.',
     ['histories', 'fault_sequences'], 'all grids of up to three variables, all failure patterns, fresh and reused steps',
     'Tests use one grid with all solves succeeding.',
     [CO, BE], [('grid construction and iteration', CO), ('continuation loop', BE)], 'grid of constants, map of solved points',
     'constants and guess of every solver call, returned list of trajectories',
     'model-based property testing: generated grids with injected solver failures against a reference grid',
     'Up to 3 variables with 1-5 cases each, major/minor numbers 2-4 / 1-4, generated failure plans, alone or after another step.')

prop('C07', 'A trajectory evaluates to its own data at every node and in between',
     'A trajectory built from any strictly increasing or decreasing times with any number of state, quadrature and control columns '
     'returns its data exactly at its nodes, the selected interpolation between them, and consistent results for scalar and vector '
     'queries, indexing and slicing. Missing arrays stay empty, copies are independent, and one-column data behaves the same '
     'however it was shaped.',
     ['inputs'], 'all node counts, column counts, shapes, interpolation kinds and query times',
     'Tests use one or two shapes; column mix-ups and one-dimensional arrays appear for particular shapes only.',
     [TR], [('interpolation and indexing', TR)], 'trajectory arrays', 'evaluated values',
     'property-based testing: generated trajectories against a reference interpolation',
     'Up to 8 nodes, 0-3 columns per array, all interpolation kinds supported by SciPy interp1d.')

prop('C08', 'Propagation follows the flow of the equations of motion',
     'For every smooth system, initial state, parameters and time interval (forward or backward), propagation returns a trajectory '
     'that starts at the given time and state, ends at the given final time, and matches the exact flow to the accuracy promised by the '
     'method and tolerances. Quadratures accumulate the integral of the quadrature rates along it from the given initial value, for variable and '
     'fixed step sizes, and reconstruction of quadratures on a given grid equals their propagated values. Integrating quadratures '
     'over part of a trajectory gives their value at the end of that part.',
     ['inputs', 'configurations'], 'all smooth non-stiff systems of 1-3 states and 0-2 quadratures, methods, tolerances and step sizes',
     'Tests integrate two fixed systems forward in time.',
     [IV], [('variable and fixed step propagation', IV), ('quadrature reconstruction', IV)], 'integration state', 'returned trajectory',
     'property-based testing: generated systems, differential oracle (independent high-accuracy integration)',
     'Reference is SciPy DOP853 at 1e-12; RK45-type and Radau steppers, fixed-step orders 1-4.')

prop('C09', 'A solution reported as converged satisfies the boundary value problem',
     'Whenever a boundary value solver reports convergence, the returned trajectory satisfies every boundary condition and the '
     'equations of motion to the tolerance the solver promises, with parameters, multipliers and constants belonging to that trajectory. '
     'A solver never reports success for a residual above its tolerance whatever the guess, never alters the constants, and '
     'from guesses near a regular solution a well-conditioned problem is reported as converged.',
     ['inputs', 'configurations', 'fault_sequences'], 'all smooth boundary value problems, guesses (near, far, arbitrary), algorithms and tolerances',
     'Tests look at problems that converge; a wrong success verdict on a failed solve would make continuation silently accept garbage.',
     [SH, SB], [('shooting, verdict of every algorithm', SH), ('collocation', SB)], 'solver iterates', 'result object of the solver',
     'property-based testing: generated boundary value problems, oracle evaluates the equations on the returned solution',
     'Problems of 1-3 states, 0-2 parameters, quadratures and multipliers; shooting re-propagated with an independent integrator.')

prop('C10', 'Every boundary value solver setting finds the same solution',
     'For every well-conditioned boundary value problem with a known solution and a guess near it, single and multiple shooting with any '
     'number of arcs, any supported root-finding algorithm, with or without a processing pool, and collocation '
     'return that solution to their tolerance, including parameters and multipliers. The answer does not depend on the '
     'solver options chosen.',
     ['inputs', 'configurations'], 'all well-conditioned problems with manufactured solutions and all documented solver options',
     'Tests use default options with fixed problems; option-specific code paths are mostly unexercised.',
     [SH, SB, IV], [('shooting algorithms and sub-arcs', SH), ('collocation', SB)], 'solver iterates', 'returned trajectory and parameters',
     'property-based testing: manufactured solutions, agreement of solver options',
     'Problems of 1-3 states, parameters, quadratures; 1-6 arcs; the pool is an in-process stand-in.')

prop('C04', 'Unit scaling changes numbers only, and unscaling undoes it',
     'For every unit-consistent problem and any choice of positive unit scale factors, the scaled boundary value problem is the same '
     'problem in other units: rates, quadrature rates, boundary residuals and control law at scaled values are the unscaled ones divided '
     'by their units. Scaling a trajectory and unscaling it returns the trajectory (states, time, costates, controls, parameters, '
     'multipliers, quadratures, constants), and the factors computed from a trajectory are the stated expressions of it, whatever '
     'formulation is used.',
     ['inputs', 'configurations'], 'all unit-consistent problems, scale expressions and trajectories',
     'The tests use scaling as a means to converge; a wrong exponent for one component shows only in a problem with that component.',
     [NP, MF, SP], [('scaling factors, scale and unscale', NP), ('unit propagation in the formulation', MF)],
     'scale factors, trajectory', 'scaled trajectories; compiled functions at scaled values',
     'property-based testing: metamorphic covariance (scaled versus unscaled compiled problem) and round trip',
     'Generated unit-consistent problems in metre, second, kilogram with bounded constraints, switches, symmetries, both formulations.')

prop('C13', 'Custom functions and tables enter the conditions with their exact derivatives',
     'For every problem that calls user-defined functions or data tables with any expressions as arguments (states, controls, time, constants, '
     'quantities, nested calls, the same function called with different arguments), the boundary value problem is the one obtained by '
     'writing the function out. A table equals the natural cubic spline through its data at every point including the data points, '
     'has the derivatives of that spline, and extrapolates with the end segments.',
     ['inputs', 'programs'], 'all smooth functions of 1-3 arguments, all tables, all ways to call them',
     'The tests call a function once with plain symbols; crossed arguments, nesting and table ends are not exercised.',
     [CF, TB, NP], [('custom function and derivative nodes', CF), ('spline tables', TB)], 'symbolic problem with calls',
     'compiled boundary value problem and table values',
     'property-based testing: generated problems, differential oracle (written-out problem); generated tables against a reference spline',
     '1-2 functions and 0-1 tables per problem; numeric derivatives compared with relative tolerance 2e-4.')

prop('C14', 'Numerical derivatives approximate the true derivative to their order',
     'For every smooth function of one or more arguments and every supported derivative order and method (forward, backward, central '
     'difference, complex step), the generated numerical derivative equals the exact mixed partial derivative within the truncation '
     'error of the method and rounding, whether the function can be compiled or not. Difference formulas of a stated accuracy order '
     'differentiate all polynomials up to that order exactly.',
     ['inputs', 'configurations'], 'all smooth functions, derivative multi-orders, methods and points',
     'Tests differentiate one or two functions of one argument.',
     [FD, CX], [('finite differences', FD), ('complex step', CX)], 'none (pure functions)', 'value of the generated derivative',
     'property-based testing: generated functions, oracle exact symbolic derivative with error bound',
     'Functions of 1-3 arguments, total order up to 3 (2 for complex step), accuracy orders 1-6.')

prop('C16', 'Named quantities and switches mean the same as writing them out',
     'For every problem, giving names to subexpressions (also in terms of other named ones, in any order of definition) or using smoothed '
     'switches yields the same boundary value problem as writing the expression out: identical rates, boundary conditions and control '
     'equations. A switch is the sum of its functions weighted by the sum over its conditions of logistic functions of the condition over '
     'the switching tolerance.',
     ['inputs', 'programs'], 'all problems with up to four quantities and two switches, nested and used in any expression',
     'Tests with quantities or switches are single fixed problems where a missed chain-rule term would only slow convergence.',
     [MF, CS, SP], [('substitution of quantities', MF), ('smoothed switches', MF)], 'symbolic problem', 'compiled boundary value problem',
     'property-based testing: metamorphic (named versus written-out) with independent necessary conditions',
     'Quantities nested up to 4 deep; switches with 1-3 branches of 1-2 conditions.')

prop('C18', 'Bounded constraints enter only through their documented penalty',
     'For every problem with bounds on path, initial or terminal expressions or on controls, the boundary value problem is that of the '
     'problem with the documented penalty (added to the path, initial or terminal cost, infinite at both bounds, weighted by the '
     'activator) or with the documented trigonometric substitution of the control and its error-control term. Several bounds, bounds given '
     'as expressions of constants, and bounds on expressions mixing states and controls all combine additively.',
     ['inputs', 'programs'], 'all problems with up to three bounded constraints of any location and method',
     'Tests have one bounded constraint with symmetric bounds, where a swapped bound or a lost term is invisible.',
     [MF, SP, CS], [('penalty and substitution', MF)], 'symbolic problem', 'compiled boundary value problem',
     'property-based testing: generated problems, differential oracle (penalised problem derived independently)',
     '1-2 states, up to 3 penalties, asymmetric bounds.')

prop('C20', 'Analytical Jacobians are the derivatives of the compiled functions',
     'For every problem, when analytical Jacobians are requested, those of the equations of motion and of the boundary conditions with respect to '
     'states, parameters, multipliers and quadratures are the derivatives of the compiled functions they belong to, with matching '
     'shapes, in both formulations, with and without reduction. A solver given them finds the same solution as without them.',
     ['inputs', 'programs', 'configurations'], 'all smooth problems and boundary value problems at all regular points',
     'No test compares a Jacobian with its function; a wrong entry only costs iterations or accuracy.',
     [NP, SH, SB, SP], [('symbolic Jacobians and their compilation', NP), ('use in collocation', SB)], 'symbolic problem',
     'compiled Jacobians; solver results',
     'property-based testing: generated problems, oracle high-order differences of the compiled functions; agreement of solvers',
     'Fourth-order central differences with error estimate.')

prop('C11', 'What is saved is what is loaded, in any process',
     'For every problem, formulation and set of solutions, a file written by a solve or by saving any combination of solutions, problem and '
     'boundary value problem can be loaded in the same or in a fresh process and holds exactly what was saved: the same solutions bit for '
     'bit (including empty arrays, infinities and NaN), a problem that formulates to the same conditions, and a boundary value problem '
     'whose compiled functions and solution maps give the same values. Saving again under a name replaces the file; a solve told not to '
     'save writes nothing; saving changes nothing it saves.',
     ['inputs', 'histories'], 'all problems incl. custom functions, tables and switches; all formulations; all solution sets; all save sequences',
     'The tests save and load one solved problem in the same process.',
     [ST, BE, TB, CF, LC], [('save and load', ST), ('saving at the end of a solve', BE)], 'file on disk', 'loaded solutions, problem and functions',
     'property-based testing: generated problems and save sequences, round-trip oracle in the same and in a fresh process',
     'Up to 3 states; up to 4 saves per history; fresh process is a separate Python interpreter.')

prop('C12', 'The cost reported with a solution is the objective on that solution',
     'For every problem, formulation and trajectory, the cost reported when a boundary value solution is handed back equals the initial '
     'cost at the first node plus the terminal cost at the last node plus the integral of the path cost over physical time, penalties of '
     'bounded constraints included, up to the accuracy of quadrature on the nodes, whatever the node spacing, start time and duration.',
     ['inputs', 'configurations'], 'all problems with any costs and penalties, all formulations, all smooth trajectories and node spacings',
     'No test looks at the value of the cost except on a couple of solved examples.',
     [TM, CC, MF], [('cost evaluation', CC), ('map back to the original problem', TM)], 'trajectory', 'reported cost',
     'property-based testing: generated problems and smooth trajectories, oracle independent spline quadrature of the objective',
     '24-61 nodes; integrands whose trapezoid and spline values differ by more than 1 % are skipped.')

prop('C15', 'Differential geometry obeys its laws; symmetries give conserved quantities',
     'Exterior derivatives, total derivatives and Hamiltonian vector fields computed from generated forms, functions and symplectic forms '
     'equal their definitions (antisymmetric, closed, chain rule through dependent variables, i_X omega = dH); forms that are not '
     'antisymmetric or have the wrong size are refused. For every problem with symmetries, each symmetry gives a conserved quantity equal '
     'to its momentum, the quantity is constant along the generated flow, and the flow is Hamiltonian.',
     ['inputs'], 'all differentiable functions and forms on 1-4 coordinates, all problems with translation or linear symmetries, all points',
     'The tests check one or two fixed manifolds.',
     [DG, MF], [('forms and vector fields', DG), ('conserved quantities', MF)], 'none (pure functions)', 'derivative, vector field, conserved quantity',
     'property-based testing: generated forms and problems, oracles are the defining identities and rates of change along the flow',
     'Up to 3 states; conserved quantities judged by their rate along the flow at generated points with stationary control.')

prop('C17', 'Algebraic control laws pick the stationary control of least Hamiltonian',
     'For every problem whose stationarity condition can be solved in closed form, the compiled control law at every point returns real '
     'finite controls that make the Hamiltonian stationary, and among all real stationary controls one with the smallest Hamiltonian; '
     'options that are complex or undefined at a point never win over real ones. The state and costate rates and the controls of '
     'solutions handed back use that same control.',
     ['inputs', 'configurations'], 'all problems with trigonometric, polynomial, exponential or bounded controls, classical and geometric, all points',
     'The tests evaluate at most one law at a few points of converged solutions.',
     [CC, MF, NP, TM], [('choice among options', CC), ('algebraic control law', MF)], 'none (pure functions)', 'value of the control law and rates',
     'property-based testing: generated problems and points, oracle root search over the Hamiltonian of an independent model',
     '1-2 controls, separable; stationary points searched within -60..60 (one period for angles).')

prop('C19', 'Compiled functions compute what their expressions say, compiled or not',
     'For every expression or list or nested list of expressions over any argument layout, the compiled function returns the exact value '
     'of the expressions in the same shape, at every point where they are defined, whether just-in-time compilation is on, off or refused '
     'for that function; compiled Python functions return what the plain function returns, including for complex arguments when asked for.',
     ['inputs', 'programs'], 'all expressions over elementary functions, conditionals, extrema; all argument layouts; all points; compiler on and off',
     'Tests compile a few polynomial expressions.',
     [JI, LC], [('expression compiler', JI), ('symbol table', LC)], 'none (pure functions)', 'value of the compiled function',
     'property-based testing: generated expressions and layouts, oracle arbitrary-precision evaluation',
     'Depth up to 3, up to 4 arguments per group; domain errors skipped.')

prop('C21', 'Solving leaves its inputs alone and gives the same answer again',
     'For every problem, formulation, guess, continuation and algorithm, a solve leaves the problem, the options, the guess trajectory and '
     'the algorithm settings as they were, and running it again, with the same objects, with freshly built ones, with the boundary value '
     'problem passed in ready-made, or after an unrelated solve in between, asks the solver the same questions and returns the same '
     'solutions.',
     ['inputs', 'histories'], 'all problems, formulations, guesses and continuation lists; all sequences of solves',
     'Each test solves once in a fresh state; reuse of objects is not tested.',
     [BE, CO, GG, SH, SB], [('solve', BE), ('continuation', CO), ('guess', GG)], 'user objects passed to a solve', 'solver requests and returned solutions',
     'property-based testing: generated histories of solves, metamorphic oracle (repeat, rebuild, interleave)',
     'Recording solver for the histories; real solvers on small linear-quadratic problems.')

prop('C22', 'End to end, every choice of options returns the optimal trajectory',
     'For optimal control problems with known solution (linear-quadratic, minimum energy, minimum time in a current, brachistochrone), a '
     'solve with any combination of formulation, control method, symmetry reduction, boundary value solver and settings, unit scaling, '
     'guess near the solution and continuation that reports convergence returns the optimal states, costates, controls, final time and '
     'cost at the constants asked for, and well-conditioned linear-quadratic problems do converge.',
     ['inputs', 'configurations', 'histories'], 'all members of the problem families, all option combinations, all continuation sequences',
     'The examples run one configuration each and most check only that something converged.',
     [BE, SH, SB, CO, MF, TM], [('solve', BE), ('solvers', SH), ('solvers', SB)], 'whole pipeline', 'returned trajectory and cost',
     'property-based testing: generated members of solved problem families and option combinations, analytic oracle',
     'Up to 3 states; tolerance follows the solver tolerance.')

prop('C23', 'Problems mean the same in any order of declaration; flawed ones are refused',
     'For every valid problem the order in which states, controls, constants, quantities, switches, constraints, costs and scales are '
     'declared does not change the conditions derived from it, a cost declared again replaces the earlier one, and costs may be set '
     'together or one by one. Ill-formed definitions and calls (a name declared twice, unknown methods, bounds on one side only, a penalty '
     'without activator constant, units of costs that do not match, missing parts, unknown guess or continuation settings) are refused '
     'with an error instead of solving another problem, and a refused declaration leaves the problem as it was.',
     ['inputs', 'programs'], 'all permutations of declarations of all problems; all listed flaws at all places',
     'The tests declare problems in one customary order and hardly exercise refusals.',
     [SP, CS, MF, BE, GG, CO], [('problem definition', SP), ('input structures', CS)], 'problem under construction', 'compiled conditions or the error raised',
     'property-based testing: generated permutations against the reference conditions; generated flaws that have to be refused',
     'Up to 2 states; one flaw at a time.')

prop('C24', 'Composing transformations follows the laws of function composition',
     'Products, powers and nested compositions of problem transformations apply exactly the listed transformations in the composition '
     'order, any bracketing gives the same result, powers repeat, composing leaves the parts unchanged and reusable, and powers that are '
     'not positive integers are refused.',
     ['inputs', 'programs'], 'all composition expressions over any transformations',
     'Tests compose two transformations once.',
     [MF], [('functor algebra', MF)], 'none (pure functions)', 'sequence of transformations applied',
     'property-based testing: generated composition expressions against a reference sequence model',
     'Up to 4 base transformations, depth up to 4.')

prop('C25', 'The solver starts from the guess the user described',
     'For every problem, formulation and guess setting, the first trajectory handed to the boundary value solver by a solve is, in the '
     'variables of the user, the one described: an automatic guess starts at the given states, costates and controls (numbers apply to all '
     'of them) and follows the necessary conditions forward or backward over the given time; a constant guess holds them; a given '
     'trajectory is used as it is and not modified. Constants are those of the problem, except that on request the constants named after '
     'the ends of states and time take the values at the ends of the guess, and no others change.',
     ['inputs', 'configurations'], 'all problems, formulations and guess settings',
     'Tests use one guess per example and look only at the final solution.',
     [GG, BE, TM], [('guess generation', GG), ('constants matched to the guess', GG), ('solve', BE)], 'trajectory handed to the solver',
     'first trajectory the solver receives',
     'property-based testing: generated problems and guess settings through a whole solve with a recording solver, oracle independent integration',
     'Up to 3 states; controls under trigonometric bounds excluded (known finding of C03); sensitive trajectories skipped.')

prop('C26', 'Log messages go where asked, and logging never changes an answer',
     'For every display level, file level and file name, in any sequence of set-ups, a message of the logger of beluga is shown on '
     'standard output exactly when it is at or above the display level, and is in the log file exactly when a file level is set and it is '
     'at or above that, once each and in order. Setting up logging again replaces the earlier set-up completely, and without a file level '
     'no file is written. What a continuation run asks of the solver, what it returns and how it ends do not depend on the logging '
     'settings, and labels of the progress display are padded or cut to their width.',
     ['inputs', 'histories', 'configurations'], 'all sequences of logging set-ups and messages; all continuation runs under all levels',
     'The tests run at one level and look at no log.',
     [LG, BE, CO], [('handlers and levels', LG), ('add_logger', BE), ('messages of a continuation run', CO)], 'logger and its handlers',
     'standard output, files written, solver calls and solutions',
     'property-based testing: generated histories of set-ups and messages against a model of the sinks; metamorphic comparison across levels',
     'Levels DEBUG to CRITICAL and numbers between; up to 14 operations; one process.')

prop('C27', 'Free parameters are optimised along with the trajectory',
     'Declaring a free parameter means the same as declaring a state that does not move and has no conditions at the ends: for every problem '
     'with free parameters (classical formulation, either control method) the rates of states, costates and of the adjoints of the '
     'parameters, and the boundary conditions, have the values they have when each parameter is written as a state of zero rate, in '
     'normalized time as well. Mapping a trajectory to the boundary value problem and back returns its parameters with everything else, '
     'the guess of the parameters is the one the user gave (ones where none is given; too many values are refused), and a solve returns the '
     'optimal parameters with the optimal states, costates, controls and cost, scaled or not.',
     ['inputs', 'configurations'], 'all problems with free parameters, evaluation points, guesses and solve options',
     'No test or example declares a free parameter.',
     [MF, TM, GG, BE], [('adjoints of parameters', MF), ('time normalization', MF), ('maps of parameters and their adjoints', TM), ('param_guess', GG)],
     'formulation, maps, guess and solve', 'rates, boundary residuals, trajectories and solutions returned',
     'property-based testing: generated problems, metamorphic oracle (parameter as a state of zero rate); generated linear-quadratic problems '
     'with closed-form optimum through whole solves',
     'Up to 3 states, 2 controls, 4 parameters; the geometric formulation refuses parameters and is outside; solves compared to 2e-3.')

prop('C28', 'A boundary value problem stated directly is the one that is solved',
     'A two-point boundary value problem without controls can be solved as it stands with the direct method. For every such problem (states, '
     'quadratures, free parameters, multipliers in the end conditions, quantities, switches, conditions at both ends) and every option (time '
     'normalisation, time as a state, analytical Jacobians) the compiled rates are the ones given, times the duration where time is '
     'normalised, the compiled conditions and Jacobians are those of the conditions given, and mapping a trajectory to the solver and back '
     'returns it. The guess that reaches the solver is the one described, quadratures and parameters included. A solve, scaled or not, with '
     'continuation or not, by shooting or collocation, from a guess near the solution returns that '
     'solution with its parameters, multipliers, quadratures and duration.',
     ['inputs', 'configurations'], 'all boundary value problems without controls, evaluation points, guesses and solve options',
     'No test or example uses the direct method.',
     [MF, NP, TM, BE], [('direct method', MF), ('analytical Jacobians', MF), ('time as a state without costates', TM), ('compiled functions', NP)],
     'formulation, maps and solve', 'rates, residuals, Jacobians, trajectories and solutions returned',
     'property-based testing: generated boundary value problems; independent evaluation of the given expressions; manufactured solutions '
     'through whole solves',
     'Up to 3 states, 2 quadratures, 2 parameters, 2 multipliers; solves compared to 2e-3 on problems with well-conditioned shooting Jacobian.')
