import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SOLV="src/core/solvers/"
NT="The stable tests only exercise the box-constrained QP solver and the control parametrizations on a few random draws; "
p("C01","Every solver finds the unique optimum of strictly convex LQ problems",
"For any optimal-control problem with linear dynamics and a strictly convex quadratic cost (any horizon, state size, per-node control sizes, drift and cross terms), and any initial guess, DDP, FDDP, box-DDP, box-FDDP, KKT, Intro and Ipopt all terminate within their iteration limit, report convergence, and return the problem's unique minimiser. The returned state and control trajectories and the reported cost equal those of the exact solution of the equivalent dense quadratic program, up to the solver's tolerance.",
["inputs","configurations"],"all strictly convex LQ problems (horizon, dimensions, mixed control sizes, zero-control nodes, data), all initial guesses, feasible or not, all solvers",
NT+"no listed test runs an optimal-control solver at all, and the claim ranges over all problem data, dimensions and guesses.",
["src/core/solver-base.cpp",SOLV+"ddp.cpp",SOLV+"fddp.cpp",SOLV+"box-ddp.cpp",SOLV+"box-fddp.cpp",SOLV+"kkt.cpp",SOLV+"intro.cpp",SOLV+"ipopt.cpp","include/crocoddyl/core/actions/lqr.hxx"],
[("backward and forward passes","SolverDDP::backwardPass, forwardPass, SolverFDDP::forwardPass"),("KKT assembly","SolverKKT::computePrimalDual"),("NLP transcription",SOLV+"ipopt/ipopt-iface.cpp")])
p("C02","A reported solution is consistent with the problem it was solved for",
"Whenever a solver returns from a run of at least one iteration, whatever the problem, guess, iteration limit or outcome, the trajectories it exposes have the problem's dimensions, and the reported cost is the problem's cost at exactly those trajectories. For the shooting solvers (DDP, FDDP, their box variants, Intro) the reported dynamic feasibility is the one those trajectories have; if they are reported as feasible, they start at the problem's initial state and each state is the result of applying the dynamics to its predecessor. The iteration count never exceeds the limit, and each callback registered with a solver other than Ipopt is called once per completed iteration with the solver's current candidate.",
["inputs","histories","configurations"],"all nonlinear, manifold and LQ problems, guesses, iteration limits (including those that stop early), all solvers and outcomes",
NT+"nothing checks the numbers a solver reports against an independent re-evaluation, over runs that stop for every possible reason.",
["src/core/solver-base.cpp",SOLV+"ddp.cpp",SOLV+"fddp.cpp",SOLV+"kkt.cpp",SOLV+"intro.cpp",SOLV+"ipopt.cpp"],
[("candidate bookkeeping","SolverAbstract::setCandidate, acceptance branch of each solve()"),("gap computation","SolverAbstract::computeDynamicFeasibility")],
[("candidate trajectory","states and controls reported","SolverAbstract xs_, us_, cost_, is_feasible_")])
p("C03","Reported convergence implies first-order optimality",
"Whenever a solver reports convergence on a smooth problem, the candidate is dynamically feasible to tolerance, starts at the problem's initial state, and is a first-order stationary point of the total cost as a function of the controls, up to a bound set by the stopping threshold. For solvers with control bounds the projected gradient vanishes instead. In particular a measure taken at a candidate with gaps does not count for the one without. A run that stops because the iteration limit or the regularization limit was hit is not reported as converged.",
["inputs","configurations"],"all smooth nonlinear problems on Euclidean and Lie-group states, guesses, thresholds, solvers",
NT+"stationarity must hold at every point any run converges to, not at a sampled textbook optimum.",
["src/core/solver-base.cpp",SOLV+"ddp.cpp",SOLV+"fddp.cpp",SOLV+"box-ddp.cpp",SOLV+"box-fddp.cpp",SOLV+"kkt.cpp",SOLV+"intro.cpp",SOLV+"ipopt.cpp"],
[("stopping criteria","stoppingCriteria() of each solver and the loop of solve()")])
p("C04","Search direction, value function and feedback policy solve the local LQ model",
"At any candidate, feasible or not, and for any regularization, the feedback gains, feed-forward terms, value-function gradients and Hessians and the expected improvement of the full step that a shooting solver computes are those of the exact solution of the regularized linear-quadratic approximation of the problem around that candidate (for the box solvers where no control limit is active). A step of any length moves along that direction: the controls follow the policy (within their limits, for the box solvers), DDP closes all gaps, and FDDP and the solvers built on it leave exactly the fraction of every gap that the step length leaves; on linear-quadratic problems the expected improvement of a shortened step is the model's, up to a term of third order in what is left of the gaps. In particular on a linear-quadratic problem the affine policy it returns is the optimal policy from every perturbed initial state. The primal step and multipliers that the KKT solver computes solve its linear system exactly.",
["inputs","configurations"],"all problems, candidates (with and without gaps), regularization values, mixed control dimensions",
NT+"the backward recursion has to be right for all data; an error in one term often still lets runs converge and is invisible in the final optimum.",
[SOLV+"ddp.cpp",SOLV+"fddp.cpp",SOLV+"box-ddp.cpp",SOLV+"kkt.cpp",SOLV+"intro.cpp"],
[("Riccati recursion","SolverDDP::computeActionValueFunction, computeValueFunction, computePolicy"),("expected improvement","expectedImprovement, updateExpectedImprovement")])
p("C05","Line search and regularization keep a run monotone and bounded",
"Along any run from a dynamically feasible candidate, DDP, FDDP and their box variants never accept a candidate with higher cost than the previous one by more than the configured non-descent allowance, step lengths are taken from the configured list, and a candidate that evaluates to NaN or infinity, or whose dynamics raise an error, is never accepted. Regularization always stays within its configured minimum and maximum and grows and shrinks by the configured factors; a run that reaches the maximum is given up, not reported as converged, and every other run that does not converge uses up its iterations. The equality-constrained solver follows the same rules with steps judged by its merit function, whose penalty never shrinks within a run. Parameter setters accept exactly the documented ranges and take effect on the next run.",
["inputs","histories","fault_sequences","configurations"],"all problems, including ones whose models fail or blow up in parts of the space, parameter settings and runs",
NT+"globalization is a property of every iteration of every run, including those in which model evaluations fail.",
[SOLV+"ddp.cpp",SOLV+"fddp.cpp",SOLV+"box-ddp.cpp",SOLV+"box-fddp.cpp",SOLV+"intro.cpp"],
[("acceptance test","solve() of each solver"),("regularization schedule","increaseRegularization, decreaseRegularization"),("divergence detection","raiseIfNaN, tryStep")])
p("C06","Box solvers respect control bounds and reach the constrained optimum",
"On any problem whose models set finite lower and/or upper limits on any subset of the control components (also one-sided), the box solvers return, from a dynamically feasible start with controls within the limits, controls within the limits at every node, from any other guess every candidate a step leads to is within the limits, and on strictly convex linear-quadratic problems the unique minimiser subject to those limits. Feedback gains are zero for every control component that is clamped at its limit. On a problem without limits they behave as the corresponding unconstrained solver.",
["inputs","configurations"],"all problems with arbitrary bounds (two-sided, one-sided, none, mixed over nodes and components), guesses",
NT+"the box-QP tests cover one QP, not its use inside the recursion, and never one-sided or partially infinite limits.",
[SOLV+"box-ddp.cpp",SOLV+"box-fddp.cpp",SOLV+"box-qp.cpp","include/crocoddyl/core/action-base.hxx","include/crocoddyl/core/diff-action-base.hxx"],
[("gains from the box QP","SolverBoxDDP::computePolicy"),("control clamping","forwardPass of SolverBoxDDP and SolverBoxFDDP"),("presence of limits","update_has_control_limits")])
p("C07","The box-constrained QP solver returns the exact KKT point",
"For any positive-definite Hessian, gradient, bounds (possibly infinite or coinciding) and warm start, the box-QP solver returns a point within the bounds that satisfies the optimality conditions of the bound-constrained quadratic program, lists as clamped exactly components at a bound whose gradient points outward and as free the others, and provides the inverse of the free block of the Hessian with zeros elsewhere. The result does not depend on earlier calls or on the warm start. With a positive regularization it solves the correspondingly regularized program, and invalid parameters or inputs of the wrong size are rejected.",
["inputs","histories"],"all dimensions, positive-definite Hessians (also ill-conditioned), gradients, bounds, warm starts, regularizations and sequences of calls",
"The tests use three fixed dimensions with one random Hessian each and hand-picked bounds.",
[SOLV+"box-qp.cpp","include/crocoddyl/core/solvers/box-qp.hpp"],[("projected Newton iteration","BoxQP::solve")])
p("C08","The equality-constrained solver satisfies the constraints and is optimal",
"On strictly convex linear-quadratic problems with stage-wise equality constraints of full row rank in the controls, the Intro solver converges to the unique constrained minimiser, for every null-space or Schur-complement method it offers, and all methods give the same result. At every candidate, the direction it computes satisfies the linearised equality constraints and the local optimality conditions. Whenever it reports convergence on a nonlinear problem, the equality-constraint violation is within the stopping tolerance.",
["inputs","configurations"],"all constrained LQ problems (constraint counts from none to all controls, mixed over nodes), nonlinear problems, guesses and methods",
NT+"no listed test runs this solver.",
[SOLV+"intro.cpp","include/crocoddyl/core/solvers/intro.hpp"],[("null-space / Schur elimination","SolverIntro::computePolicy, computeValueFunction")])
p("C09","The Ipopt transcription is a consistent nonlinear program",
"For any problem, the nonlinear program handed to Ipopt has the problem's total cost as objective, the dynamics gaps and the initial-state condition as equality constraints and the control limits as variable bounds, and its gradient and sparse constraint Jacobian are the derivatives of those functions, for every point. Its sparse Hessian is the Gauss-Newton one: the second derivatives of the node costs that the models give, expressed in the decision variables and scaled by the objective factor, for every point, multiplier vector and objective factor. Sparsity structures are in range, free of duplicates that would add up wrongly, and match the numbers of non-zeros declared. Every callback gives the same answer whatever callbacks, at whatever points, were evaluated before it. Converged runs on convex linear-quadratic problems with control limits give the constrained optimum; runs that fail say so and leave the solver usable. The stopping threshold that is set is Ipopt's tolerance.",
["inputs","histories","configurations"],"all problems (Euclidean and Lie-group states, mixed control sizes), points, multipliers, objective factors, orders of callbacks",
NT+"a wrong derivative entry only slows convergence, so an end-to-end run cannot show it.",
[SOLV+"ipopt/ipopt-iface.cpp",SOLV+"ipopt.cpp"],[("NLP callbacks","IpoptInterface::eval_f, eval_grad_f, eval_g, eval_jac_g, eval_h, get_bounds_info")])
p("C10","Solving depends only on problem, guess and settings, not on history",
"Solving with a solver object that has been used before - on other guesses, with other settings since restored, after failed or interrupted runs, or before the problem's initial state, models or horizon window were edited - gives the same result as solving with a newly created solver on an equivalent problem. Calling solve twice with the same arguments gives the same result. Two solvers that share the same models but have their own problems do not influence each other, even when run within each other's callbacks. (The equality-constrained solver keeps its penalty parameter unless set_zero_upsilon(true); the box solvers warm-start their QPs, so their runs agree to the QP tolerance.)",
["histories","inputs"],"all sequences of solves, parameter changes and problem edits followed by a solve, for every solver",
NT+"the claim quantifies over histories of calls; tests use fresh objects.",
["src/core/solver-base.cpp",SOLV+"ddp.cpp",SOLV+"fddp.cpp",SOLV+"box-ddp.cpp",SOLV+"kkt.cpp",SOLV+"intro.cpp",SOLV+"ipopt.cpp"],
[("buffer resizing","resizeData of every solver, ShootingProblem::is_updated")],[("warm quantities","regularization, step length, feasibility flags kept between runs","solver members")])
p("C11","Feasibility and stopping measures equal their definitions",
"For any candidate the dynamic feasibility a solver reports is the norm - sum of absolute values or largest absolute value over all nodes, as selected - of the gaps between each state and the predicted one, including the initial state; the equality and inequality feasibilities are the same norms of the equality constraint values and of the inequality bound violations over all nodes including the terminal one. Stopping and merit quantities are the documented functions of those. Changing the selected norm changes all three consistently.",
["inputs","configurations"],"all problems with any mix of constraints over running and terminal nodes, candidates, norms",
NT+"the definition has to be followed for all nodes and both norms.",
["src/core/solver-base.cpp"],[("norms","SolverAbstract::computeDynamicFeasibility, computeEqualityFeasibility, computeInequalityFeasibility")])
p("C12","A shooting problem evaluates, differentiates and rolls out node by node",
"For any problem, evaluating it returns the sum of all running costs and the terminal cost, and evaluating, differentiating, rolling out or asking for quasi-static controls has on each node exactly the effect of evaluating that node's model alone at the given state and control. Rolling out produces the trajectory that starts at the initial state and follows the dynamics, with which evaluation yields zero gaps. Inputs with the wrong number or dimension of states or controls are rejected.",
["inputs","configurations"],"all problems (horizons, per-node models and control sizes, Lie-group states), trajectories",
NT+"no listed test builds a shooting problem.",
["include/crocoddyl/core/optctrl/shooting.hxx"],[("node loops","ShootingProblem::calc, calcDiff, rollout, quasiStatic")])
p("C13","Editing a shooting problem has exactly the effect of the edit",
"After any sequence of edits - replacing one node's model and data, appending a node while dropping the first (with or without given data), changing the initial state, all running models or the terminal model - the problem equals one built from scratch with the resulting models and initial state: same sizes, same evaluations, and data objects that belong to their nodes. An edit that is rejected because of incompatible dimensions, foreign data or an out-of-range index raises an error and leaves the problem as it was. The updated flag is raised by every edit that changes models and is cleared by being read.",
["histories"],"all sequences of valid and invalid edits interleaved with evaluations and copies",
NT+"it is a claim about histories of edits against a model of the node list.",
["include/crocoddyl/core/optctrl/shooting.hxx","include/crocoddyl/core/optctrl/shooting.hpp"],[("edits","circularAppend, updateNode, updateModel, set_runningModels, set_terminalModel, set_x0")],[("node lists","running models and data, terminal model and data","ShootingProblem running_models_, running_datas_")])
p("C14","The number of threads never changes results",
"In a build with multithreading, evaluating, differentiating and solving any problem gives bit-identical node data and results for every number of threads, and equal total cost up to summation order, also when a model object is shared by several nodes. Repeating the same call repeats the same result. Setting the number of threads takes effect and is reported back.",
["schedules","configurations","inputs"],"all thread counts and schedules, problems, including shared models whose parameters were just changed",
NT+"the tested build has multithreading off.",
["include/crocoddyl/core/optctrl/shooting.hxx","src/core/solver-base.cpp","include/crocoddyl/core/actions/lqr.hxx","include/crocoddyl/core/activations/weighted-quadratic.hpp"],[("parallel node loops","ShootingProblem::calc, calcDiff")])
p("C15","Model derivatives are the derivatives of model values",
"For every action and differential action model of the library (linear-quadratic, unicycle, and sums of residual costs and constraints integrated by any scheme), at every state and control, the derivatives it computes after evaluation - of dynamics, cost, equality and inequality constraints, in tangent-space coordinates - equal the derivatives of the values it computes, and the cost Hessians equal those of the documented quadratic or Gauss-Newton form. Without control, as used for terminal nodes, the same holds for cost and constraint derivatives with respect to the state. Cost Hessians with respect to state and control are symmetric.",
["inputs","configurations"],"all models, parameters, states (incl. Lie groups), controls; running and terminal variants",
NT+"none of the listed tests evaluates an action model.",
["include/crocoddyl/core/actions/lqr.hxx","include/crocoddyl/core/actions/diff-lqr.hxx","include/crocoddyl/core/actions/unicycle.hxx","include/crocoddyl/core/integrator/euler.hxx","include/crocoddyl/core/integrator/rk.hxx"],[("calc/calcDiff pairs","each model")])
p("C16","Integrators implement their stated schemes exactly",
"For any differential model, time step, state, control and control parametrization, the Euler integrator yields the semi-implicit update, and the Runge-Kutta integrators of order two, three and four the explicit scheme with the stated nodes and weights, on Euclidean and Lie-group states, with the running cost integrated with the same weights and scaled by the time step, or used unscaled and with the state unchanged when evaluated without control. Constraints and control bounds are those of the differential model at the start of the interval. The error against the exact flow of a linear system decreases with the stated order.",
["inputs","configurations"],"all differential models, step lengths (incl. zero), integrators, parametrizations, states and controls, with or without cost residual",
NT+"only the control polynomials are tested, not the integrators.",
["include/crocoddyl/core/integrator/euler.hxx","include/crocoddyl/core/integrator/rk.hxx","include/crocoddyl/core/integ-action-base.hxx"],[("update rules","IntegratedActionModelEuler::calc, IntegratedActionModelRK::calc")])
p("C17","Control parametrizations interpolate, invert and differentiate consistently",
"For every parametrization, control value, time in the unit interval and parameter vector: the value is the stated constant, linear or quadratic interpolation of the parameters; recovering parameters from a control value at a time and evaluating there gives the value back; the derivative is the exact Jacobian of the value; and the two multiply-by-Jacobian operations equal products with that Jacobian or its transpose, honouring set, add and subtract modes. Bounds on controls convert to bounds on parameters such that every control value of admissible parameters at the interpolation nodes is admissible.",
["inputs"],"all parametrizations, control dimensions, times, parameters, matrices and assignment modes",
"The tests try one dimension, a few random times and the set mode.",
["include/crocoddyl/core/controls/poly-zero.hxx","include/crocoddyl/core/controls/poly-one.hxx","include/crocoddyl/core/controls/poly-two-rk.hxx"],[("interpolation","calc, calcDiff, multiplyByJacobian, multiplyJacobianTransposeBy, convertBounds")])
p("C18","State integrate and difference obey the manifold laws with exact Jacobians",
"For any dimension and states, integrating and differencing are inverse to each other, the zero state is neutral, and the Jacobians of both, in either or both arguments, equal their derivatives. Jacobian outputs follow the requested set, add or subtract mode on the whole matrix whatever it held before, and transporting a Jacobian equals multiplying by the stated Jacobian. State bounds and sizes are reported as set, and inputs of the wrong size are rejected without being written.",
["inputs"],"all dimensions, states, tangent vectors, arguments, assignment modes and prior contents of the outputs",
NT+"no listed test touches states.",
["include/crocoddyl/core/states/euclidean.hxx","include/crocoddyl/core/state-base.hxx","include/crocoddyl/core/numdiff/state.hxx"],[("operations","StateVector::integrate, diff, Jdiff, Jintegrate, JintegrateTransport")])
p("C19","Activation values, gradients and Hessians match their formulas",
"For every activation (quadratic, weighted, flat exp/log, barriers, smooth norms), parameters and residual, the value is the stated function, the gradient is its exact derivative, and the Hessian is the diagonal of its exact second derivative, or, for the flat activations and the 2-norm barrier, the documented approximation. Barriers are exactly zero, with zero derivatives, inside their bounds, and bounds shrink around their centre by the stated factor. Setting parameters changes every later evaluation on any data object accordingly.",
["inputs","histories"],"all dimensions, parameters, residuals (inside, outside and on bounds), setter histories",
NT+"no listed test touches activations.",
["include/crocoddyl/core/activations/quadratic-barrier.hpp","include/crocoddyl/core/activations/weighted-quadratic.hpp","include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp","include/crocoddyl/core/activations/smooth-1norm.hpp","include/crocoddyl/core/activations/smooth-2norm.hpp","include/crocoddyl/core/activations/quadratic-flat-log.hpp","include/crocoddyl/core/activations/2norm-barrier.hpp"],[("calc/calcDiff pairs","each activation")])
p("C20","A cost sum is the weighted sum of its active costs after any edits",
"After any sequence of adding, removing, activating and deactivating costs and changing weights, evaluating the sum gives the weighted sum of the values, gradients and Hessians of exactly the active costs, and its reported names, active and inactive sets and residual sizes match. Unknown and duplicate names change nothing, inactive costs have no effect, and data created before a status change stays usable. The same holds for evaluation without control.",
["histories","inputs"],"all edit histories interleaved with evaluations on one or more data objects",
NT+"it is a claim about histories against a reference map.",
["include/crocoddyl/core/costs/cost-sum.hxx","include/crocoddyl/core/costs/cost-sum.hpp"],[("bookkeeping","CostModelSum::addCost, removeCost, changeCostStatus, calc, calcDiff")],[("totals","active and total residual sizes","CostModelSum nr_, nr_total_")])
p("C21","A constraint manager stacks exactly its active constraints after any edits",
"After any sequence of adding, removing, activating and deactivating constraints and of changing, removing and restoring their bounds (without bounds they are equalities), evaluating the manager stacks the values, bounds and Jacobians of exactly the active constraints, in name order, inequality and equality parts apart, and its reported sizes, names and sets match; when evaluated without control only constraints that apply to terminal nodes count. Unknown and duplicate names change nothing. Resizing and sharing data keeps the results the same.",
["histories","inputs"],"all edit histories interleaved with evaluations on one or more data objects, with and without control",
NT+"it is a claim about histories against a reference map.",
["include/crocoddyl/core/constraints/constraint-manager.hxx","include/crocoddyl/core/constraints/constraint-manager.hpp"],[("bookkeeping","ConstraintModelManager::addConstraint, removeConstraint, changeConstraintStatus, calc, calcDiff")],[("totals","numbers of equality and inequality constraints, running and terminal","ConstraintModelManager ng_, nh_, ng_T_, nh_T_")])
p("C22","Residual costs and constraints assemble residuals by the chain rule",
"For any residual and activation, a residual cost has the activation's value at the residual, and its gradients and Hessians are the chain-rule (Gauss-Newton) products of the residual Jacobians with the activation's derivatives; a residual constraint is the residual itself as equality, or as inequality with the stated bounds, with the residual's Jacobians. Residuals that do not depend on the state's position, velocity or on the control contribute zeros there, and the library's own residuals (control, joint effort, joint acceleration) have the stated value and exact Jacobians, also without control. Constraint bounds that are not finite, crossed or of the wrong size are handled as documented.",
["inputs","configurations"],"all residuals (every combination of dependence flags), activations, bounds, states and controls",
NT+"no listed test touches costs or constraints.",
["include/crocoddyl/core/costs/residual.hxx","include/crocoddyl/core/constraints/residual.hxx","include/crocoddyl/core/constraint-base.hxx","include/crocoddyl/core/residual-base.hxx","include/crocoddyl/core/residuals/control.hxx","include/crocoddyl/core/residuals/joint-effort.hxx","include/crocoddyl/core/residuals/joint-acceleration.hxx"],[("chain rule","CostModelResidual::calcDiff, ResidualModelAbstract::calcCostDiff, ConstraintModelResidual::calcDiff")])
p("C23","Squashing and actuation maps are consistent with their derivatives",
"For any input, the smooth-saturation squashing stays strictly within its saturation limits, is increasing, has exactly the derivative it reports, and approaches the identity clamp as smoothing vanishes; the squashed actuation applies the underlying actuation to the squashed input and reports the chain-rule Jacobian. Commands recovered from an actuation's output reproduce the output, and torque transforms of an actuation invert it. Setters keep the limits and smoothness consistent.",
["inputs","configurations"],"all limits, smoothness values, inputs, underlying actuations",
NT+"no listed test touches actuation.",
["include/crocoddyl/core/actuation/squashing/smooth-sat.hpp","include/crocoddyl/core/actuation/squashing-base.hpp","include/crocoddyl/core/actuation/actuation-squashing.hpp","include/crocoddyl/core/actuation-base.hxx"],[("squashing","SquashingModelSmoothSat::calc, calcDiff"),("composition","ActuationSquashingModel::calc, calcDiff")])
p("C24","Numerical differentiation reproduces analytical derivatives",
"For any smooth model - state, activation, residual, cost, constraint, actuation, control parametrization, differential action or action - wrapping it in its numerical-differentiation counterpart leaves its values unchanged and produces derivatives that agree with the analytical ones up to the finite-difference error, with and without control. Cost Hessians of wrapped action models and costs use the Gauss-Newton approximation exactly when requested (the second derivatives of a wrapped activation, a diagonal approximation by design, are not claimed). Wrapping does not change the wrapped model, its bounds and sizes are forwarded, and changing the step takes effect and rejects negative values.",
["inputs","configurations"],"all wrapped models, states (incl. Lie groups), controls and disturbances",
NT+"no listed test wraps a model except control parametrizations.",
["include/crocoddyl/core/numdiff/action.hxx","include/crocoddyl/core/numdiff/diff-action.hxx","include/crocoddyl/core/numdiff/state.hxx","include/crocoddyl/core/numdiff/cost.hxx","include/crocoddyl/core/numdiff/residual.hxx","include/crocoddyl/core/numdiff/constraint.hxx","include/crocoddyl/core/numdiff/activation.hxx","include/crocoddyl/core/numdiff/actuation.hxx","include/crocoddyl/core/numdiff/control.hxx"],[("difference quotients","calcDiff of every numdiff class")])
p("C25","Models are pure: results depend only on parameters, data object and inputs",
"Evaluating any model with its own data object gives results that depend only on the model's current parameters and the inputs: not on what was evaluated before, in this or another data object, nor on evaluations made without control in between. Every data object of a model, created before or after, sees a parameter change made through a setter. A copied or newly configured model behaves the same as the original, and changing one copy does not change the other's evaluations.",
["histories","inputs"],"all models, sequences of evaluations, setter calls, data creations and copies",
NT+"it is a claim about histories over several data objects.",
["include/crocoddyl/core/actions/lqr.hxx","include/crocoddyl/core/actions/diff-lqr.hxx","include/crocoddyl/core/actions/unicycle.hxx","include/crocoddyl/core/integ-action-base.hxx","include/crocoddyl/core/action-base.hxx","include/crocoddyl/core/activations/weighted-quadratic.hpp"],[("setters and cached terms","set_LQR, set_weights and the cached data they invalidate")])
p("C26","Scalar casting preserves models",
"Casting any castable model, state, control parametrization, activation, residual, cost, constraint, integrated action or whole shooting problem to single precision and back gives an object of the same kind and configuration: same dimensions, bounds, weights, references, names, status and steps up to single-precision rounding, and evaluations and derivatives that agree with the original's up to that rounding. Casting does not change the original.",
["inputs","configurations"],"all castable objects with all parameters",
NT+"nothing listed casts a model.",
["include/crocoddyl/core/optctrl/shooting.hxx","include/crocoddyl/core/integrator/rk.hxx","include/crocoddyl/core/integrator/euler.hxx","include/crocoddyl/core/actions/unicycle.hxx","include/crocoddyl/core/activation-base.hpp","include/crocoddyl/core/costs/cost-sum.hxx","include/crocoddyl/core/constraints/constraint-manager.hxx"],[("cast members","cast<NewScalar>() of every class")])
p("C27","Invalid arguments are rejected and leave objects unchanged",
"Any public operation given an argument of the wrong dimension, an out-of-range index, time or parameter, or an incompatible model, where its documentation or its sibling operations reject such arguments, raises an error instead of computing, and afterwards the object answers every query and evaluates as before the call. Valid arguments at the edge of the permitted range are accepted. No rejected call leaves a half-changed object.",
["inputs","fault_sequences"],"all operations with size- or range-checked arguments on all objects, all wrong sizes and values",
NT+"error paths are tested for a handful of calls at most.",
["include/crocoddyl/core/action-base.hxx","include/crocoddyl/core/diff-action-base.hxx","include/crocoddyl/core/integ-action-base.hxx","include/crocoddyl/core/state-base.hxx","include/crocoddyl/core/actions/lqr.hxx","include/crocoddyl/core/integrator/rk.hxx","src/core/solver-base.cpp"],[("argument checks","throw_pretty at the head of each operation")])
p("C28","Quasi-static controls hold the state still",
"For any model that admits an equilibrium control at a state with zero velocity, the quasi-static control it computes makes the dynamics leave the state unchanged to the requested tolerance; integrated models give parameters that hold over the whole step. Where a residual imbalance cannot be removed the computed control is a stationary point of the imbalance norm. The state passed in and the model are not changed.",
["inputs"],"all controllable models, states, initial guesses, tolerances",
NT+"no listed test calls it.",
["include/crocoddyl/core/action-base.hxx","include/crocoddyl/core/diff-action-base.hxx","include/crocoddyl/core/integrator/euler.hxx","include/crocoddyl/core/integrator/rk.hxx"],[("Newton iteration","quasiStatic of each model")])
p("C29","Friction cones, wrench cones and support regions describe the stated sets",
"For any friction coefficient, rotation, number of facets, force limits and box size, a force or wrench satisfies the linear inequalities of the friction cone, wrench cone or centre-of-pressure support exactly when it satisfies the geometric definition: tangential force within the (inner or outer) linearised cone, normal force within limits, centre of pressure inside the box, and yaw moment limit. Parameter updates recompute the same description as constructing anew, and invalid parameters fall back to the documented defaults.",
["inputs","histories"],"all parameters, rotations, forces, moments and update histories",
NT+"the listed build does not compile these.",
["include/crocoddyl/multibody/friction-cone.hxx","include/crocoddyl/multibody/wrench-cone.hxx","include/crocoddyl/multibody/cop-support.hxx"],[("matrix generation","FrictionCone::update, WrenchCone::update, CoPSupport::update")])
p("C30","No sequence of valid calls corrupts memory or uses undefined values",
"Any sequence of public calls - building models, evaluating, differentiating, editing problems, solving, casting, copying and destroying in any order, including calls that are rejected - runs without out-of-bounds access, use after free, use of uninitialised members, or failed internal assertions. Data kept alive after entries of its model are added, removed, switched or given other bounds is either updated, giving what new data gives, or rejected (an entry replaced by another of the same name aside). After a problem is edited, solving it or resizing the solver comes before its single-step methods. Two identical sequences give identical results.",
["histories","fault_sequences"],"all call sequences over all classes, with run-time checking of memory, undefined behaviour and internal size assertions",
NT+"the tested build has assertions off and no sanitizer.",
["include/crocoddyl/core/optctrl/shooting.hxx","src/core/solver-base.cpp","include/crocoddyl/core/costs/cost-sum.hxx","include/crocoddyl/core/constraints/constraint-manager.hxx",SOLV+"intro.cpp"],[("ownership and sizing","constructors, resize and resizeData members")])
p("C31","Rigid-body dynamics models obey the equations of motion",
"For every multibody model, contact and impulse set, the forward and inverse dynamics, contact forces and their derivatives satisfy the constrained equations of motion, and residuals and costs on frames, centre of mass and momentum equal their kinematic definitions. Derivatives equal the derivatives of the values.",
["inputs"],"all robot models, contact sets, states and controls",
"The rigid-body library these models need is absent, so the listed build compiles none of them.",
["include/crocoddyl/multibody"],[("dynamics","include/crocoddyl/multibody/actions")])
p("C32","Generated code evaluates like the model it was generated from",
"For every model, the code-generated action evaluates and differentiates to the same values as the model it was generated from, for every input and parameter vector. Regenerating or loading a library again does not change results.",
["inputs","programs"],"all models and inputs",
"The code-generation backend is absent, so the listed build compiles none of it.",
["include/crocoddyl/core/codegen"],[("code generation","include/crocoddyl/core/codegen/action-base.hpp")])
p("C33","Callbacks, profiling and printing report a run faithfully and never influence it",
"A verbose callback prints one line per call, with one value per column in the order of the header of its level (0: iter, cost, stop, |grad|, preg, step, dV-exp, dV; 1 adds merit and ||ffeas||; 2 dreg; 3 ||gfeas|| and ||hfeas||; 4 dPhi-exp and dPhi), each equal to the solver's quantity at the precision set, and a header at every tenth iteration; level and precision can be changed at any time and negative precisions are rejected. Callbacks are called in order, once each per iteration. With or without callbacks, the profiler or printing, a run gives bit for bit the same result. A printed shooting problem states its horizon and state sizes and prints each node in order; a printed cost sum or constraint manager lists each term once under its status, costs with their weight.",
["inputs","histories"],"all problems, solvers, verbosity settings and sequences of runs",
NT+"no listed test runs a solver or prints anything.",
["src/core/utils/callbacks.cpp","include/crocoddyl/core/utils/callbacks.hpp","src/core/utils/stop-watch.cpp"],[("verbose callback","src/core/utils/callbacks.cpp"),("printed problem","include/crocoddyl/core/optctrl/shooting.hxx"),("printed sums","include/crocoddyl/core/costs/cost-sum.hxx")])
p("C34","Stopwatch records add up",
"For any history of starts, stops, pauses, watchers, resets and switching, in CPU or real time and over several names, a record counts the completed measurements, its total is the time of all its measured parts, its last, minimum and maximum are those of the completed measurements since the last reset, and its average is the total over the count. Resetting clears a record. A stopwatch turned off and a disabled profiler record nothing, unknown names and a missing mode raise StopwatchException, and reports print the same numbers in milliseconds, only for names with completed measurements. The timer gives the time since it was made or reset.",
["histories"],"all operation histories, names and modes",
NT+"no listed test measures time.",
["src/core/utils/stop-watch.cpp","include/crocoddyl/core/utils/timer.hpp"],[("measurements","src/core/utils/stop-watch.cpp"),("timer","include/crocoddyl/core/utils/timer.hpp")])
p("C35","Numeric, table, version and error helpers keep their contracts",
"The pseudo-inverse satisfies the four conditions of Penrose for matrices of any shape and rank, dropping exactly the singular values below the tolerance (epsilon times the larger dimension times the largest singular value). The positive-semidefinite check accepts a symmetric matrix exactly when its least eigenvalue is not below -1e-9 (-1e-5 in single precision). Tables written with the CSV stream read back cell by cell and row by row, with any separator, quotes, separators and line ends inside texts. A version is at least another exactly when it is not before it in lexicographic order, and prints with the given delimiter. Errors carry their message, file, function and line.",
["inputs"],"all matrices, table contents, versions and messages",
NT+"no listed test touches these helpers.",
["include/crocoddyl/core/utils/math.hpp","include/crocoddyl/core/utils/file-io.hpp","include/crocoddyl/core/utils/version.hpp","src/core/utils/exception.cpp"],[("pseudo-inverse and PSD check","include/crocoddyl/core/utils/math.hpp"),("tables","include/crocoddyl/core/utils/file-io.hpp"),("versions","include/crocoddyl/core/utils/version.hpp"),("errors","src/core/utils/exception.cpp")])
p("C36","Library action models compute the formulas they document",
"The linear-quadratic models, discrete and in continuous time, compute the dynamics, cost and constraints (with and without control) and the derivatives given by their matrices and vectors, whichever constructor made them; the short constructors give the documented defaults, random models have the asked sizes and convex costs, copies are independent and carry the limits, and a rejected change leaves the model as it was. The unicycle computes its documented formulas for its time step and weights, and rejects a time step that is not positive. Limits are reported as set, a model has control limits exactly when any control limit is finite, and wrong sizes are rejected.",
["inputs"],"all sizes, matrices, vectors, constructors, histories of changes, states and controls",
NT+"the listed tests compare these models with numerical differentiation at one random point, and never with their formulas.",
["include/crocoddyl/core/actions/","include/crocoddyl/core/action-base.hxx","include/crocoddyl/core/diff-action-base.hxx"],[("discrete LQR","include/crocoddyl/core/actions/lqr.hxx"),("continuous LQR","include/crocoddyl/core/actions/diff-lqr.hxx"),("unicycle","include/crocoddyl/core/actions/unicycle.hxx"),("limits","include/crocoddyl/core/action-base.hxx")])
p("C37","Models derived from the base classes get the documented defaults",
"A residual, cost, constraint or action model that a user derives from the base classes without overriding anything optional is evaluated without control as with a zero control, gets data that is zeroed and sized for the larger of its running and terminal rows, infinite limits and bounds, a quadratic activation and as many controls as velocities where none are given. A constraint is an equality, an inequality or both by its numbers of rows; bounds of the wrong size, crossed or infinite on the wrong side are rejected, removing bounds turns the inequalities into equalities and updating them turns them back. Residual and activation of different sizes, more rows than the residual has, and references that are not implemented are rejected. Cost sums and constraint managers treat such models as the library's own, with only the constraints meant for terminal nodes evaluated there.",
["inputs"],"all sizes, dependencies, bounds, states, controls and sums of derived models",
NT+"the listed tests only use models of the library.",
["include/crocoddyl/core/residual-base.hxx","include/crocoddyl/core/cost-base.hxx","include/crocoddyl/core/constraint-base.hxx","include/crocoddyl/core/action-base.hxx","include/crocoddyl/core/diff-action-base.hxx"],[("residual","include/crocoddyl/core/residual-base.hxx"),("cost","include/crocoddyl/core/cost-base.hxx"),("constraint","include/crocoddyl/core/constraint-base.hxx"),("action","include/crocoddyl/core/action-base.hxx"),("differential action","include/crocoddyl/core/diff-action-base.hxx")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
