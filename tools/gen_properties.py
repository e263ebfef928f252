"""Writes /verif/properties.jsonl (source of the property list; run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
OD = "torchdyn/numerics/odeint.py"; SO = "torchdyn/numerics/solvers/ode.py"; UT = "torchdyn/numerics/utils.py"
CO = "torchdyn/numerics/solvers/_constants.py"; IN = "torchdyn/numerics/interpolators.py"; SD = "torchdyn/numerics/sdeint.py"
SS = "torchdyn/numerics/solvers/sde.py"; SE = "torchdyn/numerics/sensitivity.py"; PR = "torchdyn/core/problems.py"
ND = "torchdyn/core/neuralde.py"; DF = "torchdyn/core/defunc.py"; CU = "torchdyn/core/utils.py"
NL = "torchdyn/nn/node_layers.py"; GA = "torchdyn/nn/galerkin.py"; CN = "torchdyn/models/cnf.py"; EN = "torchdyn/models/energy.py"
RO = "torchdyn/numerics/solvers/root.py"; TE = "torchdyn/numerics/solvers/templates.py"; HY = "torchdyn/numerics/solvers/hyper.py"
DS = "torchdyn/datasets/static_datasets.py"

prop("C01", "Fixed-step solutions advance by exactly one solver step per grid interval",
 "Integrating an ODE with any fixed-step method over a time grid returns one state per grid time, in grid order, together with those times: the first state is the initial condition, and each later state is exactly one step of the chosen method from the previous state, started at the previous grid time and spanning exactly the interval to the next one. This holds for uniform and non-uniform grids of any length, for states of any shape, for states given as a dictionary of tensors, and for built-in as well as user-defined steppers.",
 ["inputs", "configurations"], "every vector field, initial state (any shape; tensor or dictionary), grid of two or more increasing times however long or unevenly spaced, and fixed-step solver, by name or as an object",
 "tests integrate a few fields on short uniform linspace grids and compare end states with loose tolerances, so a wrong interval, a skipped or repeated step or a wrong time on an uneven grid is invisible to them",
 [OD, SO], [("stepping loop over the grid", OD + ":_fixed_odeint"), ("dispatch, dtype and device sync", OD + ":odeint"), ("dictionary states", OD + ":_fixed_odeint")],
 [("current time and step", "the step just taken starts at the previous grid time and ends at the next one", OD + ":_fixed_odeint")], ["the pair (times, states) returned by odeint; the calls the stepper receives"])

prop("C02", "Asking for a subset of the grid returns exactly those times and states",
 "When the caller asks a fixed-step integration to return only a subset of the grid's times, the result has one entry per requested time, in the order of integration, whatever the order of the request, and each state equals the one the full integration returns for that time. The steps taken do not depend on the request. A requested time which is not a grid time, or is requested more than once, is refused with an error instead of being dropped, shifted or misaligned.",
 ["inputs", "configurations"], "every grid, every subset of it (including or excluding the ends, a single time, in any order, as tensor or list), tensor and dictionary states, ODEs and SDEs",
 "tests use one or two hand-picked subsets of a uniform grid in increasing order, and never requests that are duplicated, unordered or off the grid",
 [OD, UT, SD], [("matching requested times with the grid", UT + ":match_save_at"), ("collecting states in the stepping loop", OD + ":_fixed_odeint"), ("same for SDEs", SD + ":_fixed_sdeint")],
 None, ["the pair (times, states) returned by odeint and sdeint with save_at"])

prop("C03", "Integrating backwards in time solves the same ODE on the times requested",
 "For a decreasing sequence of times the integrator returns those very times, in the order given, with states that solve the original equation backwards: the result is the one obtained by integrating the time-mirrored, negated vector field forward over the mirrored times, for fixed and adaptive methods and also with a requested subset of times. The vector field is only ever evaluated at true (not mirrored) times within the interval, except for the small probe that selects the first adaptive step, and stages of the solver keep to the step they belong to.",
 ["inputs", "configurations"], "every vector field (time-dependent or not), decreasing grid, initial state, fixed or adaptive solver, subset of times",
 "tests integrate backwards for one or two autonomous fields only, where the sign of time passed to the field and the returned times do not matter",
 [OD], [("mirroring of field, grid and requested times", OD + ":odeint"), ("same for symplectic integration", OD + ":odeint_symplectic"), ("backward solves of the adjoint", SE + ":_gather_odefunc_adjoint")],
 None, ["times and states returned by odeint on a decreasing grid; times at which the vector field is called"])

prop("C04", "Every explicit solver satisfies the order conditions of its advertised order",
 "Each explicit one-step method (Euler, midpoint, fourth-order Runge-Kutta, Dormand-Prince and Tsitouras) evaluates the field at stage times and states that form a consistent explicit Runge-Kutta method which satisfies all order conditions up to the order it declares, for any time-dependent, vector-valued field, state, start time and step size. The adaptive pairs also return the field value at the end of the step, which is reusable as the first stage of the next one, and an error estimate equal to the difference with an embedded solution of order four. Supplying the first stage precomputed changes nothing in the result.",
 ["inputs"], "every vector field, state, time and step size, and each of the built-in explicit methods at single and double precision",
 "convergence on a few smooth autonomous problems cannot separate a wrong coefficient or stage time from round-off or tolerance: a tableau entry can be off and still integrate those problems to the tolerances tested",
 [SO, CO], [("stepping formulas", SO + ":Euler.step, Midpoint.step, RungeKutta4.step, DormandPrince45.step, Tsitouras45.step"), ("coefficients", CO + ":construct_rk4, construct_dopri5, construct_tsit5")],
 None, ["value returned by the step of each solver; calls made to the vector field"])

prop("C05", "Adaptive integration hits each requested time once and keeps only accepted steps",
 "An adaptive integration returns each requested time exactly once and in order, starting with the initial condition at the first one, and never evaluates a step that goes past the final time. The state only ever advances along accepted steps, whose local error, scaled by the absolute and relative tolerances given for the call and measured in the root-mean-square sense (over the selected leading components if a seminorm is requested), is at most one; a rejected attempt leaves time and state unchanged. Each attempted step starts from the current time and state with the first stage equal to the field there, and without interpolation each returned state is the end of an accepted step that lands exactly on the requested time.",
 ["inputs", "configurations", "histories"], "every vector field, initial state, increasing grid, tolerances, adaptive solver and sequence of accepted and rejected steps",
 "the history of accepted, rejected and shortened steps depends on the field and the tolerances; tests only compare final states on a handful of problems with tolerances that hide a misplaced or stale state",
 [OD, UT], [("adaptive stepping loop, checkpoint at requested times", OD + ":_adaptive_odeint"), ("error norm", UT + ":hairer_norm"), ("dispatch and tolerances", OD + ":odeint")],
 [("time, state and first stage", "always belong together: the first stage is the field at the current time and state", OD + ":_adaptive_odeint"), ("checkpoint counter", "number of requested times already returned", OD + ":_adaptive_odeint")], ["times and states returned by odeint; the steps the solver is asked for"])

prop("C06", "Step sizes stay positive, shrink on rejection, and grow within the bounds",
 "After every attempted step the next step size is the previous one multiplied by a factor between the solver's minimum and maximum factors: the factor equals the safety factor divided by the error ratio raised to one over the order wherever that lies within the bounds, it is below one after a rejected step and never below one after a step with error ratio less than one, and a vanishing error gives the maximum growth. The initial step size is positive, and equals the standard starting-step estimate computed from the tolerances, the initial state and two evaluations of the field. The error norm is the root mean square, so replicating the state over a batch does not change the steps.",
 ["inputs", "histories"], "every positive step size, error ratio, order, solver factors, initial state, field and tolerances",
 "tests never observe step sizes; a controller that misjudges growth still converges to the tolerances tested, only with wasted or unsafe steps",
 [UT, OD], [("controller", UT + ":adapt_step"), ("initial step", UT + ":init_step"), ("norm", UT + ":hairer_norm"), ("retry after rejection", OD + ":_adaptive_odeint")], None, ["step sizes passed to the solver"])

prop("C07", "Dense output matches the step's ends and slopes and is a quartic in between",
 "With interpolation enabled, each requested time within an accepted step is answered by the quartic polynomial in time that takes the step's initial and final states at its ends, has the vector field's slopes there, and passes through the mid-point estimate at the middle of the step, that mid-point estimate being accurate to fourth order in the step size. Requested times are returned once, in order and paired with the value at that very time, and requesting them does not alter the steps taken. Spline-based dense output likewise reproduces the solution at the times where it is known.",
 ["inputs", "configurations"], "every step (ends, slopes, mid-point, length), every time within it, every set of requested times",
 "tests compare interpolated against stepped solutions on few problems with tolerances above the interpolation error",
 [IN, OD, CO, UT], [("polynomial fit and evaluation", IN + ":FourthOrder.fit, Interpolator.evaluate"), ("mid-point weights", CO + ":construct_4th"), ("checkpointing by interpolation", OD + ":_adaptive_odeint"), ("spline", UT + ":dense_output")], None, ["states returned by odeint with an interpolator; dense_output"])

prop("C08", "Hybrid integration stops at events, jumps there, and respects the jump budget",
 "Integrating a hybrid system, whenever an event condition holds at the end of an attempted step, the step is bisected and followed up to a point that is not more than the event tolerance before a point where the condition holds; the state there and the state after the jump are both recorded at that same time, and the latter is the jump map of the triggered event (the first one, if several) applied to the former. Recorded times never decrease, no jump is made unless a condition holds, at most the allowed number of jumps is made, and all other recorded states are ends of accepted steps, with every requested time before the end among the recorded times. An event already active at the start is applied first and counted.",
 ["inputs", "configurations", "histories"], "every field, callbacks, time span, jump budget and event tolerance; every sequence of accepted steps, rejections and events",
 "events interleave with rejected and shortened steps in ways that depend on the system; the repository has no passing test of hybrid integration beyond one example",
 [OD, UT], [("event detection, bisection and jump", OD + ":odeint_hybrid"), ("event flags", UT + ":EventState, EventCallback")],
 [("jump counter", "number of jumps made so far", OD + ":odeint_hybrid")], ["times and states returned by odeint_hybrid; calls to check_event and jump_map"])

prop("C09", "Each SDE solver makes the step of its scheme and refuses unsupported equations",
 "One step of each SDE solver equals its scheme's formula for any drift, diffusion, state and Brownian increment over exactly that step: Euler-Maruyama for Ito equations, Euler-Heun for Stratonovich equations, and the derivative-free Milstein schemes for both. A solver refuses to be built for an equation of the other calculus or with an unsupported noise type. With zero diffusion every scheme reduces to the explicit Euler step.",
 ["inputs", "configurations"], "every drift, diffusion, state, time, step size and Brownian increment; every combination of solver, calculus and noise type",
 "tests check shapes and means of a few sample paths, within statistical tolerance; an Ito/Stratonovich mix-up or a wrong increment interval is inside that noise",
 [SS, SD, DF], [("stepping formulas", SS + ":EulerMaruyama.step, EulerHeun.step, MilsteinBase.step, v_term"), ("type check", SS + ":_check_types"), ("coefficient wrappers", DF + ":SDEFunc.f, SDEFunc.g")], None, ["value returned by the step of each solver; Brownian intervals queried"])

prop("C10", "SDE integration follows the grid and draws one Brownian increment per interval",
 "Integrating an SDE over a time grid returns one state per grid (or requested) time, the first being the initial condition, each later one being one step of the solver from its predecessor over exactly the grid interval between them, driven by the Brownian increment of that very interval and no other. Consequently the increments used over the whole grid are those of consecutive, non-overlapping intervals covering it, so that with the same Brownian path the result is reproducible. Models with separate drift and diffusion callables are integrated as given, with time passed to those which accept it.",
 ["inputs", "configurations"], "every drift and diffusion, with or without time argument, grid, solver, Brownian path and initial state",
 "tests use uniform grids, one path and statistical checks; re-used, skipped or shifted increments keep the statistics nearly unchanged",
 [SD, SS, DF, PR, ND], [("stepping loop", SD + ":_fixed_sdeint"), ("dispatch", SD + ":sdeint, check_sde"), ("problem wrappers", PR + ":SDEProblem.sdeint"), ("model", ND + ":NeuralSDE")], None, ["times and states returned by sdeint, SDEProblem and NeuralSDE; Brownian intervals queried"])

prop("C11", "Backsolve adjoint gradients equal those of the loss through the exact flow",
 "With adjoint sensitivity, the gradients of any loss of the returned solution, at any set of returned times, with respect to the initial state, every parameter of the vector field and the evaluation times, are obtained from the adjoint differential equation: the cotangent of each returned state enters at its own time, between returned times the adjoint follows the negated vector-Jacobian product of the field along the backward solution, the parameter cotangent accumulates the corresponding product, and a running loss contributes its state gradient. They agree with differentiating through the solver up to the solvers' tolerance, and parameters that are frozen or unused get no or zero gradient. The backward solve uses the solver and tolerances configured for the adjoint.",
 ["inputs", "configurations"], "every vector field with its parameters, loss, set of returned times, initial state, integral loss, and adjoint configuration",
 "tests compare against autograd for one field and a loss on the final state only, so cotangents at intermediate times, time gradients, frozen parameters and forwarded settings are not exercised",
 [SE, PR], [("backward pass", SE + ":_gather_odefunc_adjoint"), ("vector-Jacobian products", SE + ":_vf_vjp"), ("forwarding of settings", PR + ":ODEProblem._autograd_func")],
 [("adjoint state", "state, its cotangent, parameter cotangent and time cotangent, flattened", SE + ":_gather_odefunc_adjoint")], ["gradients returned by autograd through ODEProblem / NeuralODE"])

prop("C12", "Interpolated adjoint gradients solve the adjoint along the stored solution",
 "With interpolated-adjoint sensitivity, the gradients of any loss of the returned solution with respect to the initial state and every parameter are obtained by solving the adjoint equation backwards along an interpolation of the forward solution, with the cotangent of each returned state entering at its own time; they agree with differentiating through the solver up to tolerance and interpolation error. Although all internally evaluated points are kept for the interpolation, the caller receives exactly the times and states they asked for, the same as with the other sensitivity methods.",
 ["inputs", "configurations"], "every vector field with its parameters, loss, set of returned times, initial state, adaptive or fixed solver, and adjoint configuration",
 "tests compare one field and a final-state loss with loose tolerances",
 [SE, PR], [("forward and backward pass", SE + ":_gather_odefunc_interp_adjoint"), ("vector-Jacobian products", SE + ":_vf_vjp")], None, ["gradients and solutions returned by ODEProblem / NeuralODE"])

prop("C13", "The field wrapper handles time, higher orders and running losses correctly",
 "A wrapped vector field called at a time and a state gives that very time to every submodule that asks for the depth variable before the field is evaluated, counts the call, and passes the caller's extra arguments on. For an order above one it returns the companion first-order system: each block of the state but the last moves with the next block, and the last with the user's field. When a running loss is differentiated through the solver, it is propagated as the first component, whose derivative is the running loss of the remaining components, which move as without it.",
 ["inputs", "configurations"], "every field, time, state (batch and dimensions), order, running loss, extra arguments and nesting of submodules",
 "tests instantiate orders 1 and 2 and check shapes only; none checks the derivative of each block or of the running loss",
 [DF], [("time broadcast, integral loss, order", DF + ":DEFunc.forward, DEFunc.higher_order_forward"), ("basic wrapper", DF + ":DEFuncBase.forward")], [("nfe", "number of evaluations", DF + ":DEFunc")], ["value of the wrapped field; time attribute of submodules"])

prop("C14", "Vector fields of any supported signature are evaluated as the user wrote them",
 "A vector field given as a module or a plain callable, taking only the state or both time and state, with or without extra arguments, gives the same derivative after it has been wrapped as when called directly with the arguments it accepts, and its parameters remain registered and trainable. Extra arguments reach fields that accept them and are never forced on fields that do not.",
 ["programs", "configurations", "inputs"], "every callable (function, lambda, bound method, module, nested model) with any of the supported signatures, at every time and state",
 "tests pass a few modules and one lambda; which arguments a callable accepts is a property of arbitrary user code",
 [CU, DF], [("signature standardization", CU + ":standardize_vf_call_signature"), ("argument detection", DF + ":accepts_args"), ("call", DF + ":DEFuncBase.forward")], None, ["value of the wrapped field"])

prop("C15", "Problems and models integrate with exactly the settings they were given",
 "An ODE problem or Neural ODE returns the solution that the functional integrator gives for the same vector field, initial state, times, solver, tolerances, interpolator, requested subset of times and extra arguments, whichever sensitivity method is selected; in particular all sensitivity methods return the same times and states. Backward solves use the adjoint solver and tolerances of the configuration, defaulting to the forward solver. A model called without times uses its stored times or the unit interval, its trajectory is the plain integration of its field, and it returns the solution alone when asked to.",
 ["configurations", "inputs"], "every combination of solver, tolerances, sensitivity, interpolator, save times, extra arguments, return convention and times",
 "settings are forwarded positionally through several layers; tests use defaults for most of them, so a swapped or dropped setting changes nothing they can see",
 [PR, ND, SE], [("forwarding", PR + ":ODEProblem.odeint, ODEProblem._autograd_func, MultipleShootingProblem.odeint"), ("dispatch", SE + ":generic_odeint"), ("model preparation", ND + ":NeuralODE._prep_integration, forward, trajectory")], None, ["results of ODEProblem / NeuralODE; arguments the integrator receives"])

prop("C16", "Control, depth and augmentation layers add exactly what they promise",
 "Data-control layers see, during the whole integration, the data of the initial condition of that call, without the components reserved for running losses and divergence, and concatenate it unchanged after the state. Depth layers concatenate the current integration time along the chosen dimension. Augmentation places zeros, or the given function of the input, before or after the input along the chosen dimension, leaving the input's entries as they are.",
 ["inputs", "configurations", "histories"], "every state shape, dimension, number of augmented dimensions, augmentation function, order, and sequence of model calls with different initial conditions",
 "tests check output shapes for one or two layouts, and never a second call with other data",
 [NL, ND, DF], [("layers", NL + ":Augmenter, DepthCat, DataControl"), ("control set once per call", ND + ":NeuralODE._prep_integration")], [("control data", "initial condition of the current call", NL + ":DataControl")], ["output of the layers; fields evaluated during integration"])

prop("C17", "Normalizing flows carry minus the Jacobian trace with the field's dynamics",
 "A continuous normalizing flow's derivative is the network's output for the data components and minus the trace of the network's Jacobian at that point for the leading log-density component, whatever value that component has. The exact estimator is the sum of the Jacobian's diagonal entries for every sample of the batch; the stochastic one is the noise-weighted quadratic form of the Jacobian, with one noise vector per sample drawn once per model call. Both stay differentiable with respect to the network's parameters, also when gradients are globally disabled at call time.",
 ["inputs", "configurations"], "every differentiable network, batch, dimension, state, noise distribution",
 "tests check that likelihood training runs and a shape, not the value of the trace for each sample and dimension",
 [CN, ND], [("trace estimators", CN + ":autograd_trace, hutch_trace"), ("flow", CN + ":CNF.forward"), ("noise per call", ND + ":NeuralODE._prep_integration")], None, ["value of the flow's derivative"])

prop("C18", "Energy-based fields are the gradient, Hamiltonian or Lagrangian dynamics",
 "A gradient flow's field is minus the gradient of its energy; a Hamiltonian field is the symplectic rotation of the gradient of its Hamiltonian, so that the Hamiltonian's derivative along it vanishes; and a Lagrangian field moves positions with the velocities and gives accelerations that solve the Euler-Lagrange equations. Each holds for every sample of a batch independently of the others.",
 ["inputs"], "every differentiable energy, Hamiltonian or (regular) Lagrangian, batch size, even state dimension and state",
 "tests check shapes and run short training; sign or block errors still give trainable fields",
 [EN], [("fields", EN + ":GNF.forward, HNN.forward, LNN.forward, LNN._qdd")], None, ["value of the field"])

prop("C19", "Galerkin layers apply the map whose weights expand in their basis at the depth",
 "A Galerkin linear or convolutional layer applies to the input without its depth channel the linear or convolutional map whose weights and bias are the expansion of its coefficients in the chosen basis, evaluated at the shifted and dilated depth carried by that channel, independently of anything computed in earlier calls. Every coefficient contributes to its own weight only, through its own basis function, so weights are linear in the coefficients. Radial, Fourier, polynomial and Chebyshev bases evaluate their published formulas with the configured centres and scales.",
 ["inputs", "configurations"], "every basis, degree, layer size, kernel, stride, padding, bias setting, coefficient values, shift, dilation, input and depth",
 "coefficients start at zero, so tests that run the layers only ever see zero weights",
 [GA], [("weights", GA + ":GalLayer.calculate_weights"), ("layers", GA + ":GalLinear.forward, GalConv2d.forward"), ("bases", GA + ":Fourier, Polynomial, Chebychev, VanillaRBF, MultiquadRBF, GaussianRBF")], None, ["output of the layers"])

prop("C20", "Parallel-in-time iterations are exact on one more interval after each iteration",
 "Multiple-shooting integration with parareal updates keeps the first shooting parameter fixed, updates every later one by the coarse prediction from its updated predecessor plus the difference of fine and coarse solutions from the previous iterate, and after k iterations the first k+1 shooting parameters equal the sequential fine solution exactly. With enough iterations the whole result is the sequential fine solution, whatever the initial guess, and further iterations do not change it; the discrete-adjoint variant shares this exactness. The initial guess defaults to the coarse solution, and is used as given otherwise.",
 ["inputs", "configurations"], "every autonomous field, initial state, number of uniform intervals, fine and coarse method, number of iterations, initial guess",
 "tests run a fixed number of iterations on one problem and compare with loose tolerances, which hides an off-by-one in which interval is corrected",
 [SO, OD, TE], [("parareal update", SO + ":MSZero.root_solve"), ("discrete adjoint update", SO + ":MSBackward.root_solve"), ("entry point", OD + ":odeint_mshooting")], [("shooting parameters", "iterates at the interval starts", SO + ":MSZero.root_solve")], ["result of odeint_mshooting"])

prop("C21", "Quasi-Newton root finding makes secant updates and stops by its stated criteria",
 "Each iteration of the root finder moves the iterate by minus the step length times the inverse-Jacobian estimate applied to the residual at that iterate, and updates the estimate by a rank-one correction built from the last changes of iterate and residual, which for the full update meets the secant equation for that pair up to its stated regularization, for every sample of the batch independently. The residual used in an iteration is that of the current iterate. The search ends only when the residual and step criteria on absolute and relative tolerances hold for all samples, or when the iteration limit is reached.",
 ["inputs", "configurations", "histories"], "every residual function, starting batch, step length, tolerances, line search and number of iterations",
 "tests solve a few scalar-like problems to convergence; a wrong update or termination test still converges, or is masked by the line search",
 [RO, UT], [("iteration", RO + ":Broyden.step, root_find"), ("updates", RO + ":BroydenFull.update_jacobian, BroydenBad.update_jacobian"), ("termination", RO + ":TerminationCondition.check"), ("line search", RO + ":NaiveSearch.search")], None, ["iterates and evaluations of the residual; log returned by root_find"])

prop("C22", "Implicit, hyper- and leapfrog solvers step by their defining equations",
 "A step of the implicit Euler method minimizes the residual of the implicit equation with the field evaluated at the end of the step. A hypersolver's step is its base method's step plus its correction network at the start of the step times the step size raised to one more than the base order. The asynchronous leapfrog step is its defining update of positions and velocities, and is undone by a step of the opposite sign from its result.",
 ["inputs"], "every field, correction network, state, time and step size",
 "tests compare end states on a linear problem at loose tolerances, or only check that the solvers run",
 [SO, HY], [("implicit Euler", SO + ":ImplicitEuler._residual, ImplicitEuler.step"), ("hypersolvers", HY + ":HyperEuler.step, HyperMidpoint.step, HyperRungeKutta4.step"), ("leapfrog", SO + ":AsynchronousLeapfrog.step")], None, ["value returned by the step of each solver"])

prop("C23", "Toy datasets place each labelled point on its documented curve or cluster",
 "Each generator returns the documented number of points with one label per point, and without noise every point lies on the curve, sphere or cluster that its label denotes: circles of the moons, mirrored spirals, spheres of the given radii, and Gaussians centred at equal angles on a ring (or spiral) in the first two coordinates with zero centre in the others. This holds for any number of samples, dimension, radii and numbers of clusters, and random noise perturbs points by no more than its scale allows.",
 ["inputs", "configurations"], "every number of samples (odd or even), dimension, radius, noise level, number of clusters and random draw",
 "tests only call the generators with their defaults and check shapes",
 [DS], [("generators", DS + ":generate_moons, generate_spirals, generate_concentric_spheres, generate_gaussians, generate_gaussians_spiral, randnsphere"), ("dispatch", DS + ":ToyDataset.generate")], None, ["arrays returned by the generators"])

prop("C24", "Integration does not alter its inputs and gives the same result when repeated",
 "Integrating, by any of the functional entry points, problems or models, leaves the values of the caller's initial state, times, requested times and extra arguments unchanged. Repeating a call with the same inputs gives the identical result, also when the same solver, interpolator or model object was used in between for other inputs, intervals or directions, and a solver given by name acts as a freshly built solver object of that name. States already returned do not change through later calls.",
 ["inputs", "histories", "configurations"], "every input and every sequence of earlier calls on the same solver, problem or model objects",
 "tests build fresh objects and inputs for each call and never look at the inputs again",
 [OD, SD, SO, TE, PR, ND], [("integration routines", OD + ":odeint, _fixed_odeint, _adaptive_odeint, odeint_hybrid, odeint_mshooting"), ("solver state", TE + ":DiffEqSolver.sync_device_dtype"), ("model state", ND + ":NeuralODE._prep_integration")], None, ["inputs and results before and after the calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P: fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
