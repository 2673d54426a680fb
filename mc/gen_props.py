import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['extensisq/'+f for f in files],mechanism=[dict(name=a,where='extensisq/'+b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ALLF=['common.py','bogacki.py','calvo.py','cash.py','shampine.py','sommeijer.py','fine.py','murua.py','mikkawy.py','prince.py','tsitouras.py','merson.py','hosea.py','kennedy.py','kvaerno.py']
p('F01','Every step ends and a faulty right-hand side never corrupts the result',
 'For every method and whatever values the right-hand side returns (NaN, infinities, overflow, jumps) at whichever calls, each step ends after a bounded number of evaluations, with an accepted step, a reported failure with a message, or (implicit methods only, for numbers unusable in linear algebra) an exception. A failed step leaves time and solution at the last accepted point, and an accepted solution is always finite.',
 ['fault_sequences'],'all answer sequences of the right-hand side that deviate from the nominal ones at any call, transiently or from there on',
 'Tests use smooth, well-behaved right-hand sides; no test lets one call return NaN, inf or a jump, so retry loops, overflow exits and minimum-step exits are practically unexecuted.',
 ALLF,[('step loop, minimum step, overflow exit','common.py RungeKutta._step_impl'),('Newton failure handling','common.py ESDIRK._step_impl'),('failure block 3','shampine.py SWAG._step_impl'),('reject branch and spectral radius','sommeijer.py SSV2stab')],['step()','status','t','y'])
p('I01','Integration stays inside its interval and ends exactly on its end',
 'For every method, start and end time, direction, tolerance and step limits, the times of the accepted steps move strictly from the start towards the end, never pass it, and a successful integration ends at exactly the requested end time (an integration without end, with an infinite end time, can be stepped on). The right-hand side is never evaluated outside the integration interval (up to rounding), and the last steps never make a well-posed integration fail.',
 ['inputs','configurations'],'all start times, end times (also those whose difference is rounded), directions, first and maximum steps',
 'Tests integrate a few round-number intervals; floating point cancellation in t + (t_end - t) and the look-ahead near the end depend on the exact numbers.',
 ['common.py','cash.py','bogacki.py','calvo.py','shampine.py','sommeijer.py'],[('look ahead at the end','common.py _reassess_stepsize'),('initial step evaluations','common.py h_start'),('extrapolation of the last step','shampine.py SWAG._step_impl'),('last step','sommeijer.py SSV2stab._step_impl')],['t','status','arguments of the right-hand side'])
p('H01','Step-size limits are honoured and retries shrink',
 'No accepted or attempted step is larger than the maximum step, and the first attempt uses a given first step (unless it exceeds the maximum step or the interval). After an attempt rejected for its error the next attempt of the same step is strictly smaller; in the Runge-Kutta and implicit methods the step after one with rejected attempts is not larger; and once the integration is on scale the step size changes per step by no more than the safety limits of the method (a factor 0.2 to 10, and at most 4 after the first factor below 4; variable order Runge-Kutta: at most 5; multistep: 0.5 to 2 between steps; stabilised: 0.1 to 10).',
 ['inputs','fault_sequences'],'all maximum steps, first steps and intervals of a grid, all patterns of accepted and rejected attempts up to a length',
 'Tests check a single max_step and first_step on one problem and never a rejection pattern or the last step of the interval.',
 ['common.py','cash.py','bogacki.py','calvo.py','shampine.py','sommeijer.py'],[('step-size controller','common.py RungeKutta._step_impl, ESDIRK._assess_error_and_stepsize'),('limits','common.py _reassess_stepsize')],['t','t_old','arguments of the right-hand side'])
p('T01','The step size follows the documented controller',
 'In the Runge-Kutta, Nystrom and implicit methods that let the user select a step-size controller, a step that follows accepted steps without rejections is h*g**(kb1+kb2)*(h/h_o)**-a*err**-b1*err_o**-b2, with the weighted RMS norms of the embedded error estimates of the last two steps and the parameters given as a tuple, predefined under a name or documented as the default of the method, as long as no limit (maximum step, growth and reduction limits, end of the interval) takes precedence.',
 ['histories','configurations','inputs'],'all combinations of methods, controllers, tolerances, directions and perturbations at any call within a window',
 'Tests only integrate with each named controller once and look at the final error, which any controller makes small.',
 ['common.py','bogacki.py','calvo.py','hosea.py','kennedy.py','kvaerno.py'],[('controllers','common.py RungeKutta._init_sc_control, ESDIRK._init_sc_control'),('second order control','common.py RungeKutta._step_impl, ESDIRK._assess_error_and_stepsize; bogacki.py, calvo.py _step_impl')],['t','t_old','arguments and answers of the right-hand side'])
p('W01','The first step is the one of the published starting algorithms',
 'Unless the user gives it, the first step attempted by a solver is the one of the cited starting algorithm (Watts, for the order of its error estimate; of RKC for the stabilised method) for the derivative values, interval, tolerances and maximum step of the problem, for every start time, direction, real or complex state, zero components or zero initial derivative, and mass matrix, as long as it is within the limits.',
 ['inputs','configurations'],'all combinations of initial values over a finite set, linear, nonlinear and time dependent parts, intervals, tolerances, directions, mass matrices and methods',
 'Tests only see that the integration succeeds, which a first step that is orders of magnitude wrong rarely prevents.',
 ['common.py','shampine.py','sommeijer.py'],[('starting algorithm','common.py h_start'),('calls','common.py RungeKutta.__init__, ESDIRK.__init__; shampine.py SWAG.__init__; sommeijer.py _init_step_size')],['times of right-hand side evaluations of the first step'])
p('E01','Accepted steps are the published formula and pass the error test',
 'For the explicit Runge-Kutta and Runge-Kutta-Nystrom methods, whatever the right-hand side answers, every attempt evaluates it at the stages of the method, every accepted solution is the published combination of these stages, and an attempt is accepted exactly when the weighted RMS norm of its embedded error estimate is below one for the requested tolerances (scalar or per component). In the variable order method every accepted solution is one of its documented embedded solutions that passed its own error test.',
 ['fault_sequences','inputs','configurations'],'all scripts of right-hand side answers up to a length, tolerances and directions',
 'Tests check final errors on smooth problems; a wrong scale, a wrong order of acceptance, stale stages after a rejection or a wrong stage time usually still gives small final errors.',
 ['common.py','cash.py','bogacki.py','calvo.py','prince.py','tsitouras.py','merson.py','fine.py','murua.py','mikkawy.py'],[('attempt, error norm, acceptance','common.py RungeKutta._step_impl, _comp_sol_err, calculate_scale, norm'),('two-stage error test','bogacki.py, calvo.py _step_impl'),('fallback solutions','cash.py CKdisc._step_impl')],['arguments and answers of the right-hand side','t','y'])
p('E02','Accepted implicit steps solve the stage equations and pass the error test',
 'For the implicit methods, whatever the right-hand side answers, every accepted solution is the published combination of stages that satisfy the stage equations of the method (with the mass matrix, if given) up to the tolerance of the Newton iteration, and an attempt is accepted exactly when the weighted RMS norm of the (filtered, where the method documents it) embedded error estimate is below one for the requested tolerances.',
 ['fault_sequences','histories','inputs'],'all scripts of right-hand side answers up to a length, Jacobian modes, mass matrices, tolerances and directions',
 'Tests check final errors on smooth problems; a prematurely accepted Newton iterate, a stale Jacobian or predictor, or a wrong error filter only changes the size of an error that is still below their loose bounds.',
 ['common.py','hosea.py','kennedy.py','kvaerno.py'],[('Newton iteration and decision','common.py ESDIRK._step_impl'),('one stage','common.py ESDIRK._solve_implicit_stage'),('error estimate','common.py ESDIRK._estimate_error')],['arguments and answers of the right-hand side','t','y'])
p('O01','Explicit Runge-Kutta methods have their documented order for every ODE',
 'One step of each explicit Runge-Kutta method reproduces the Taylor series of the exact solution up to its documented order for every smooth, autonomous or time dependent, system of equations; the embedded error estimate vanishes up to the order of the secondary formula and not beyond it; and the continuous solution has its documented order at every point of the step.',
 ['inputs','programs'],'all elementary differentials (rooted trees) up to the order of each method',
 'Existing order condition tests stop at order 7, look at coefficient tables instead of at steps, and do not cover the interpolants that need extra stages.',
 ['common.py','bogacki.py','calvo.py','cash.py','prince.py','tsitouras.py','merson.py'],[('coefficient tables','prince.py, bogacki.py, calvo.py, cash.py, tsitouras.py, merson.py'),('stages and dense output','common.py RungeKutta, HornerDenseOutput')],['y after one step','dense_output()'])
p('O02','Nystrom methods have their documented order for every second order ODE',
 'One step of each Runge-Kutta-Nystrom method reproduces the Taylor series of position and velocity up to its documented order for every smooth second order system (for the velocity independent method: every such system that is velocity independent), and so does its continuous solution for the order of its interpolant.',
 ['inputs','programs'],'all Nystrom trees up to the order of each method',
 'Tests of these methods check a few order conditions on the tables and a single problem; dense output of the interpolants with extra stages is not covered.',
 ['common.py','fine.py','murua.py','mikkawy.py'],[('coefficient tables','fine.py, murua.py, mikkawy.py'),('step and interpolants','common.py RungeKuttaNystrom, HornerDenseOutputNystrom, QuinticHermiteDenseOutput')],['y after one step','dense_output()'])
p('O03','Implicit methods have their documented order for every ODE',
 'One step of each implicit method, with its nonlinear equations solved accurately, reproduces the Taylor series of the exact solution up to the documented order for every smooth, autonomous or time dependent, system, with or without a constant invertible mass matrix, and the continuous solution has its documented order at every point of the step.',
 ['inputs','programs'],'all elementary differentials (rooted trees) up to the order of each method',
 'Tests check order conditions on tables, not that the step (predictor, Newton iteration, mass matrix, dense output) realises them.',
 ['common.py','hosea.py','kennedy.py','kvaerno.py'],[('Newton iteration and solution','common.py ESDIRK._step_impl'),('tables','hosea.py, kennedy.py, kvaerno.py')],['y after one step','dense_output()'])
p('A01','Every multistep step is a variable-step Adams formula on accepted points',
 'Every accepted step of the multistep method equals the Adams predictor-corrector formula (evaluate, predict, evaluate, correct with local extrapolation) of some order not above the maximum one, built on the derivative values at the most recent accepted points with their true spacing. An attempt is accepted exactly when the difference of the formulas of orders k and k-1 passes the error test. Rejected attempts, order changes and step-size changes of any history leave no trace in the formula, and the continuous solution interpolates consistently with it.',
 ['histories','fault_sequences'],'all accept/reject histories, step-size changes and order changes reachable with the scripted right-hand sides, all maximum orders',
 'The divided differences are updated incrementally over the whole history; tests only see final errors of a few runs, which hide a wrong restoration after a failure or order change.',
 ['shampine.py'],[('coefficient recurrences, blocks 1-4','shampine.py SWAG._step_impl'),('interpolation','shampine.py SwagDenseOutput')],['t','y','arguments and answers of the right-hand side'])
p('C01','The stabilised method is second order and stable for every number of stages',
 'For every number of stages the stabilised explicit method chooses, its step is second order accurate for every smooth system, and it damps every component with a negative real eigenvalue within the spectral radius it was given. The number of stages it uses is sufficient for the spectral radius and the step size, accepted steps are those whose published error estimate passes the error test, and the spectral radius it estimates itself is sufficient for every real spectrum with one dominant eigenvalue that is present in the solution.',
 ['inputs','configurations'],'all numbers of stages up to a bound and all eigenvalues of a grid of the stability interval',
 'Tests integrate one problem; the coefficients are computed by recurrences per number of stages and each could be wrong only for some numbers.',
 ['sommeijer.py'],[('stage recurrences','sommeijer.py SSV2stab._stages'),('choice of the number of stages','sommeijer.py SSV2stab._step_impl')],['y','number of right-hand side calls'])
p('L01','Implicit methods are stable for every stiff linear mode',
 'For every linear mode with eigenvalue in the closed left half plane and every step size, one step of each implicit method does not amplify the mode, its stages and solution follow its rational stability function, and modes that are infinitely stiff are damped to zero by the methods documented as L-stable (all but HS2Ia, which is A-stable). This holds for real and complex arithmetic and for modes inside larger systems.',
 ['inputs'],'all products of step size and eigenvalue on a dense grid of the left half plane incl. the imaginary axis and very stiff values',
 'Tests use one or two stiff problems with an error controlled step size, which only visits a few such products and hides a loss of damping behind the step-size control.',
 ['common.py','hosea.py','kennedy.py','kvaerno.py'],[('stage equations','common.py ESDIRK._step_impl'),('tables','hosea.py, kennedy.py, kvaerno.py')],['y after one step'])
p('D01','Continuous solutions match the accepted points and join smoothly',
 'The continuous solution of every accepted step is defined on exactly that step, equals the accepted solutions at both ends, and joins the next one with the documented smoothness. Its values for a scalar time, an array of times and any order of times agree.',
 ['inputs','histories','configurations'],'all methods, interpolants, directions, dtypes and step histories of the bounded runs',
 'Tests evaluate dense output of forward runs of part of the methods at a few points with a loose tolerance.',
 ['common.py','bogacki.py','cash.py','fine.py','murua.py','shampine.py','sommeijer.py','hosea.py','kennedy.py'],[('dense output classes','common.py HornerDenseOutput, CubicDenseOutput, HornerDenseOutputNystrom, QuinticHermiteDenseOutput; shampine.py; hosea.py')],['dense_output()','t_old','t'])
p('D02','Handed-out results never change and looking does not disturb',
 'Solutions and continuous solutions handed out by a solver keep their values whatever the solver does afterwards, and the arrays supplied by the user are never modified. Requesting continuous solutions, events or output points, at any subset of steps, does not change the accepted points (except for the one interpolant that documents this).',
 ['histories'],'all interleavings of step and dense-output requests up to a depth, all methods and interpolants',
 'Tests look at results once, after the run; aliasing between work arrays and handed-out arrays only shows when old results are read again after later steps.',
 ['common.py','bogacki.py','cash.py','fine.py','murua.py','shampine.py','sommeijer.py','hosea.py'],[('copies in dense output','common.py, cash.py, shampine.py, sommeijer.py _dense_output_impl'),('extra stages','bogacki.py, fine.py, murua.py _dense_output_impl')],['y','dense_output()','y0'])
p('S01','Solver instances are independent of each other and of the past',
 'The accepted points, continuous solutions and outcome of an integration depend on its own inputs only: not on other solver instances constructed, stepped, interpolated or failed before, in between or inside its right-hand side. Module and class data are the same after any number of integrations.',
 ['histories','schedules'],'all interleavings of the operations of two solvers up to a depth, all ordered pairs of methods as history',
 'Tests create solvers one after the other and compare with loose tolerances; state that leaks through class arrays or module data changes results only slightly or in later runs.',
 ALLF,[('class level tables and counters','common.py NFS, class arrays of all methods'),('per instance work arrays','all __init__')],['t','y','dense_output()'])
p('S02','Integrations running in different threads do not influence each other',
 'Two integrations that run concurrently in different threads give the same results as when they run alone, for every schedule of their steps and right-hand side evaluations.',
 ['schedules'],'all interleavings of two threads at right-hand side calls up to a preemption bound, and at source lines for shorter runs',
 'No test uses threads.',
 ALLF,[('no shared mutable state except global counters','common.py NFS, NFI, NLS')],['t','y'])
p('R01','A step depends only on the current point and step size',
 'For the one-step methods, an accepted step equals the step of a fresh solver started at the same point with the same step size: earlier steps, rejected attempts, stiffness tests and dense-output requests leave no trace in it.',
 ['histories','fault_sequences'],'all accept/reject histories of the bounded runs, all one-step methods',
 'Tests never restart a solver from an intermediate point after a rejection and compare.',
 ['common.py','bogacki.py','cash.py','calvo.py','fine.py','murua.py','sommeijer.py','hosea.py','kennedy.py','kvaerno.py'],[('first-same-as-last derivative','common.py RungeKutta._step_impl'),('stage storage','common.py'),('smoothed first stage','common.py ESDIRK._step_impl')],['t','y'])
p('Q01','Results are equivariant under exact transformations of the problem',
 'Mirroring time, scaling time or the solution (with its absolute tolerance) by a power of two, permuting or duplicating components, rotating the solution in the complex plane and writing a real problem in complex form transform the accepted points and continuous solutions accordingly (for a given first step, where its estimate is not equivariant), and the vectorized form of a right-hand side gives the same result as the plain one.',
 ['inputs','configurations','programs'],'all methods, a family of small problems and all listed transformations',
 'Tests compare each run with a reference solution only; a sign or direction mistake that only affects backward or complex integrations goes unnoticed within the tolerances.',
 ALLF,[('direction handling','all step implementations'),('norms and complex support','common.py norm, h_start')],['t','y','dense_output()'])
p('J01','How an implicit problem is described does not change its solution',
 'For the implicit methods, the Jacobian may be omitted or given as function, array or sparse matrix, with or without sparsity structure, evaluated each step or reused, and the mass matrix as vector, matrix or sparse matrix: every combination integrates the same problem to the same solution within tolerance, in both directions and for real and complex problems.',
 ['configurations','inputs'],'all combinations of the listed options for a family of small problems',
 'Tests sample a few of the hundreds of combinations, mostly with the identity as mass matrix.',
 ['common.py','hosea.py','kennedy.py','kvaerno.py'],[('Jacobian handling','common.py ESDIRK._validate_jac, _preemptive_lu_and_jac'),('mass matrix handling','common.py ESDIRK._handle_M'),('linear systems','common.py ESDIRK._set_lu_functions')],['t','y','status'])
p('M01','Differential-algebraic problems are classified and solved on their constraint',
 'A linear implicit problem with a singular mass matrix is solved (in real and complex arithmetic) if it has index one, from initial values that are made consistent by changing algebraic components only; all accepted solutions satisfy the algebraic constraints and follow the exact solution. It is refused with an error if its index is higher.',
 ['inputs'],'all small matrix pencils with entries from a small set',
 'Tests use one index-one problem family with a diagonal mass matrix.',
 ['common.py'],[('detection of algebraic equations','common.py ESDIRK._handle_M'),('consistent initial values and index test','common.py ESDIRK._consistent_ICs'),('scaled algebraic equations','common.py ESDIRK._step_impl')],['y','exceptions'])
p('K01','Stiffness diagnosis observes and does not interfere',
 'The stiffness diagnosis of the explicit methods never changes the accepted points, never raises an error, and costs nothing when switched off, for any setting of its frequency. It warns for problems whose step size is limited by a dominant stiff eigenvalue for many steps (in the range of angles in which the method documents its diagnosis; a real one for the Nystrom and multistep methods) and does not warn for non-stiff problems, nor as long as the steps are kept well within the region of stability.',
 ['configurations','inputs'],'all settings of the frequency on a grid, a family of linear spectra, all explicit methods',
 'Tests never trigger the diagnosis on more than one problem or with small frequencies.',
 ['common.py','shampine.py'],[('diagnosis','common.py RungeKutta._diagnose_stiffness, stiff_a..stiff_d')],['warnings','t','y','nfev'])
p('N01','Evaluation and failure counters are exact',
 'The reported number of right-hand side evaluations equals the number actually made (for the explicit methods including interpolation and diagnosis; the evaluations of implicit methods that only estimate Jacobians or the first step are excepted by the convention of the host library), and the reported numbers of failed steps and Jacobian evaluations equal the number of failed attempts and Jacobian calls. Rejected attempts and interpolants cost no more evaluations than the documented number of stages.',
 ['histories','fault_sequences'],'all accept/reject histories of the bounded runs',
 'Tests bound nfev loosely on some problems.',
 ['common.py','bogacki.py','cash.py','calvo.py','shampine.py','sommeijer.py','fine.py','murua.py'],[('counters','common.py NFS, OdeSolver.nfev'),('conventional and first-same-as-last methods','common.py RungeKutta')],['nfev','njev','number of calls'])
p('P01','Sensitivities agree with the exact derivatives',
 'For every problem with known exact sensitivities, forward sensitivity, adjoint sensitivity of an end value and adjoint sensitivity of an integral agree with the exact derivatives (and with each other) within the accuracy implied by the tolerances, including the dependence of the initial state and the goal function on the parameters. This holds for every supported method, form of tolerance, direction of time and reused solution; the tolerances passed on are the documented ones and inconsistent input is refused.',
 ['inputs','configurations'],'all small systems of the family, parameter values incl. zero, all methods and options',
 'Tests use one problem (Robertson) with positive parameters and forward time.',
 ['sensitivity.py'],[('combined forward system','sensitivity.py sens_forward'),('adjoint systems','sensitivity.py sens_adjoint_end, sens_adjoint_int')],['returned sensitivities'])
p('G01','The error of the solution follows the tolerance',
 'For every method, option, direction and problem of a family with known solutions, the error of the accepted points and of the continuous solution stays within a moderate multiple of the requested tolerances and decreases when they are tightened; components with a zero-like solution respect their absolute tolerance.',
 ['inputs','configurations'],'all combinations of methods, options, tolerances, directions and problems in the grid',
 'Tests check one tolerance per problem for part of the methods.',
 ALLF,[('error control','all step implementations')],['y','dense_output()'])
p('X01','Invalid input is refused and every valid form of input is accepted',
 'Every solver refuses invalid tolerances, step sizes, options, shapes and problem structures (as far as visible at the initial point) with an error before integrating, and accepts every documented form of input (lists, tuples, integers, scalars or arrays of tolerances, explicit defaults, sparse formats) with exactly the same result, directly and through the solve_ivp function of the host library.',
 ['configurations'],'all combinations of one invalid or alternative form per argument and method',
 'Tests cover a few invalid values for some methods.',
 ALLF,[('validation','common.py validate_tol, constructors of all methods')],['exceptions','t','y'])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
