add('C01', P, 'For all grids (any length >= 2, any spacing), tensor and dictionary states, any field and any step function: every obligation of odeint/_fixed_odeint is discharged with inferred, inductive loop invariants. The step is replaced by its contract (C04, C22 cover the steps).',
    'odeint and _fixed_odeint against the ghost trajectory X(0)=x0, X(m+1)=STEP(X(m), t_m, t_{m+1}-t_m); index-wise postcondition with a skolem index')
add('C02', P, 'For all grids, any number and order of requested times: the returned entries are those of the full trajectory at the requested indices; requests with foreign (beyond the documented isclose tolerance) or repeated times raise.',
    'odeint, _fixed_odeint and match_save_at against the ghost trajectory restricted by an arbitrary strictly increasing index map; refusal harnesses assume a foreign or repeated time and require an exception on every path')
add('C04', P, 'The real step functions run on an arbitrary symbolic field; the Runge-Kutta coefficients they realize are read off the resulting terms and all order conditions up to the declared order are decided on exact rationals (tolerance: rounding of the tableau entries).',
    'every explicit solver, both precisions, first stage supplied or not, tableau cast or freshly built', ['coefficients are compared up to their rounding (1e-12 in double, 2e-5 in single precision)'])
add('C03', P, 'For all decreasing grids: the fixed-step solution is the ghost trajectory of the mirrored, negated field over the mirrored grid (also subsets), the adaptive loop satisfies the contract of C05/C07 for it, results carry the true times, and every field passed on maps mirrored to true times; stage abscissae lie within the step.',
    'odeint, odeint_symplectic, _fixed_odeint, _adaptive_odeint with a strictly decreasing grid')
add('C05', P, 'For all grids, fields, steps, error estimates and tolerances: loop invariants (found by Houdini) give the times, the reachability of every returned state along accepted steps, the first-stage contract and the bound by the final time. init_step is replaced by its contract (C06), the step by its contract (C04).',
    'ghost predicate Reach closed under accepted steps; obligations at every call of the step and on return', ['reductions of equal arguments are equal; the mean of squares is one symbol per argument'])
add('C06', P, 'adapt_step, init_step and hairer_norm for all inputs against the controller formulas; the whole sequence of attempted sizes of the loop against a ghost chain (to the final time, and with interpolation for any grid).',
    'formulas as postconditions; ghost relation Next/Attempt over the attempts of _adaptive_odeint', ['real powers: positivity and comparison with one only'])
add('C07', P, 'fit/evaluate are identities of rational functions (normal forms); mid-point weights satisfy the order conditions with the real stages; the loop calls them with the data of the accepted step and pairs values with times, for all grids. Spline-based dense output only by concrete evaluation.',
    'FourthOrder.fit/evaluate, construct_4th, _adaptive_odeint with interpolation', ['dense_output (torchcde splines) is checked on generated inputs only'])
add('C08', P, 'For all grids, states, fields, events (arbitrary conditions and jump maps), jump budgets and tolerances: loop invariants over the outer loop, the search of the next requested time and the bisection, found by Houdini, give the time and condition of every jump, the budget, the recorded pairs, the order of times and that no step passes over a requested time. One event with everything; two events for the choice of the first one (the thorough tier adds everything for two). The step, init_step and adapt_step are replaced by their contracts (C04, C06).',
    'odeint_hybrid against ghost predicates Reach (accepted and bisected steps), First (an end where the condition holds first), Soon (within the event tolerance before such an end); a ghost jump counter carried by the state; a skolem requested time', ['the bisection needs at most 100 halvings: final time - start <= 2^100 times the event tolerance'])
add('C09', P, 'The real step functions run on arbitrary symbolic drift, diffusion and Brownian increment; the value returned is the scheme\'s formula as an identity of rational functions in the values of the coefficients (the derivative-free terms through the square root of the step). All combinations of solver, calculus and noise are enumerated for the refusals (the test depends on equality with the supported names only).',
    'step of every SDE solver for every noise type, both precisions, with and without diffusion; construction by class and by name', ['coefficients act elementwise on one arbitrary entry (products with a diffusion matrix are not part of the schemes here)'])
add('C10', P, 'For all grids, tensor and dictionary states, Brownian paths and subsets of requested times: index-wise equality with the ghost trajectory whose m-th step takes the increment over [t_m, t_(m+1)], with inferred loop invariants; the ways to give coefficients and the wrappers SDEProblem and NeuralSDE are checked on opaque values.',
    'sdeint, _fixed_sdeint, check_sde, SDEFunc.f/g, SDEProblem, NeuralSDE; the step is replaced by its contract (C09)', ['the Brownian path is a function of the interval asked for (torchsde)'])
add('C11', P, 'For any number of returned times (symbolic), any cotangents and any flow of the inner solver: the loop invariant that the adjoint state is the ghost adjoint at the current returned time is inferred and inductive; the field handed to the inner solver is compared, entry by entry after symbolic differentiation, with that of the adjoint equation; gradients of state, parameters and times are the ghost\'s. Bounded in the shape of the state (up to 2 entries, quick; 2x2 thorough) and the parameters (used, unused and frozen), which the code treats only through flattening.',
    '_gather_odefunc_adjoint (forward, backward), _vf_vjp; the inner odeint is replaced by its contract (C01, C05)', ['symbolic differentiation stands for torch.autograd.grad', 'agreement with differentiation through the solver up to tolerance is a consequence of the theory of the adjoint equation; it is checked on generated inputs only'])
add('C12', P, 'As C11 along an arbitrary interpolation; the forward pass returns exactly the evaluated states at the caller\'s times, for any number of evaluated points and returned times, in both directions of time. Bounded in the shape of state and parameters.',
    '_gather_odefunc_interp_adjoint (forward, backward); odeint by its contract (every requested time is among the evaluated ones, C05), the spline by interpolation of what it is given', ['symbolic differentiation stands for torch.autograd.grad', 'torchcde splines interpolate'])
add('C13', P, 'The real wrappers run on arrays of symbolic entries, an arbitrary field and running loss (uninterpreted functions of every entry), every combination of order, running loss (vector or column) and sensitivity; the value is compared entry by entry. Bounded in order (<= 4), batch and block size, which the code treats only through slicing.',
    'DEFunc.forward, higher_order_forward, DEFuncBase.forward; submodules nested at several depths observe the time', [])
add('C14', P, 'The real wrappers run on opaque values (so the argument is for all inputs): every kind of callable (functions, lambdas, modules, methods, callable objects) with every signature, directly and through the problem and model classes; the code depends on a signature only through which of `t`, `args` and **keywords it names, all combinations of which are enumerated.',
    'standardize_vf_call_signature, accepts_args, DEFuncBase, DEFunc, ODEProblem, NeuralODE, MultipleShootingProblem', ['inspect.getfullargspec is used as it is'])
add('C15', P, 'The real classes and sensitivity functions run with the integrators replaced by recording contracts, for every combination of sensitivity, kind of solver and adjoint solver (name, object, module, fixed, adaptive), tolerances, subset and arguments; the settings are opaque values, so that passing them on holds for all of them. That the sensitivity methods return the same values given the integrator\'s is C11 and C12.',
    'ODEProblem, MultipleShootingProblem, NeuralODE (constructors, forward, trajectory, _prep_integration), _gather_odefunc_* and generic_odeint, forward and backward', ['the seminorm option of problems has no effect in the code (upstream TODO) and is not part of the property'])
add('C16', P, 'The real layers run on arrays of symbolic entries for every rank from 2 to 4, dimension, order and number of components (sides bounded by 2, 3 in the thorough tier); the code treats sizes only through concatenation. Data control is observed through the real NeuralODE, wrapper and flow, with the integrator replaced by arbitrary evaluations of the field it is handed.',
    'Augmenter, DepthCat, DataControl, NeuralODE._prep_integration, forward and trajectory, DEFunc, CNF', ['an adjoint backward pass sees the control of the latest call of the model'])
add('C17', P, 'The real flow runs on symbolic states with an arbitrary per-sample network (uninterpreted functions of its inputs and parameters); value and derivatives are compared entry by entry after symbolic differentiation, in several batch sizes and dimensions (bounded), gradients enabled or not; the noise of a call through the real NeuralODE.',
    'CNF.forward, autograd_trace, hutch_trace, NeuralODE._prep_integration', ['symbolic differentiation stands for torch.autograd.grad', 'second-order flows (order > 1) are not usable in the code'])
add('C18', P, 'The real fields run on symbolic states with an arbitrary energy per sample (uninterpreted, twice differentiable); minus the gradient, the symplectic rotation and the residual of the Euler-Lagrange equations are decided as identities of rational functions in the derivatives of the energy. Bounded in the number of components and samples.',
    'GNF.forward, HNN.forward, LNN.forward', ['symbolic differentiation stands for torch.autograd.grad, jacobian and hessian', 'the pseudo-inverse of a regular matrix is its inverse (regular Lagrangians)'])
add('C19', P, 'The real layers run on symbolic coefficients, inputs, dilation, shift and depth with an arbitrary basis (uninterpreted functions): outputs are identities with the map whose weights expand in it, in repeated calls. The bases are compared with their formulas for symbolic degrees, depth, centers and scales (square roots, powers, sine and cosine uninterpreted). Bounded in features, channels, kernel, degree.',
    'GalLayer.calculate_weights, GalLinear.forward, GalConv2d.forward, GaussianRBF, VanillaRBF, MultiquadRBF, Fourier, Polynomial, Chebychev', ['torch.nn.functional.linear and conv2d mean what they are documented to', 'the degrees are those the code uses, linspace(0, deg, deg)'])
add('C20', P, 'For any number of intervals, iterations, fine steps, any initial guess and arbitrary fine and coarse maps: the invariants of both nested loops (every shooting parameter equals the iterate P(k, m)) are inferred and inductive; that P(k, m) is the sequential fine solution for m <= k is a lemma shown by induction in its own harness. The entry point is checked on opaque values (guess, settings).',
    'MSZero.root_solve, MSBackward.root_solve, odeint_mshooting, str_to_ms_solver against the ghost iterates P(k, m); the inner integration is replaced by its contract (C01)', ['the field is autonomous and acts on stacked states as on each of them', 'torch.autograd.grad of the fine flow is linear in the cotangent'])
add('C21', P, 'For any number of iterations and any step, line search and stopping test obeying their contracts: the loop invariants (the iterate after k steps, its residual) are inferred and inductive. The steps are identities of rational functions for an arbitrary residual; the stopping test is equivalent to its formula (norms as square roots of sums). Bounded in the number of samples and components (up to 3), which the code treats only through broadcasting.',
    'root_find, Broyden.step, BroydenFull/BroydenBad.update_jacobian, TerminationCondition.check', ['the relative residual criterion refers to the residual after the first iteration, as in the code', 'line searches return some positive step length (their own conditions are not part of the property)'])

add('C22', P, 'The real steps run on an arbitrary symbolic field, correction network, state, time and step length: the value returned is the solver formula as an identity of rational functions ; the leapfrog step of opposite sign undoes it identically; the implicit Euler step is decided on the objective and settings handed to its minimizer.',
    'HyperEuler, HyperMidpoint, HyperRungeKutta4, AsynchronousLeapfrog.step and algebra, ImplicitEuler.step', ['LBFGS minimizes the objective it is given'])
add('C23', P, 'The real generators run with random draws replaced by fresh symbols constrained by what the distribution guarantees (range, norm); sizes, labels and the geometric relation of every sample to its labelled set are compared entry by entry, for arbitrary noise draws. Bounded in the number of samples (odd, even and one).',
    'generate_moons, generate_spirals, generate_gaussians, generate_gaussians_spiral, generate_concentric_spheres, ToyDataset.generate', ['sine, cosine and square root are uninterpreted with their axioms', 'torch.distributions and torch.randn draw from the distribution they name'])
add('C24', P, 'Frame conditions over the loops of every functional entry point, for all grids, states, requested times and arguments: no operation writes to a value of the caller, no attribute of a caller\'s solver or interpolator is read before it is written and also written, nothing reachable from the modules changes, no random numbers are drawn; so a result is a function of the call\'s inputs. Steps and interpolants of every class are identities on symbolic arguments before, between and after other uses, and equal a fresh object\'s; the states synchronisation can bring a solver to are enumerated to closure; problems and models are run on call sequences with recording integrators.',
    '_fixed_odeint, _adaptive_odeint, odeint, odeint_symplectic, odeint_hybrid, odeint_mshooting (root_solve), sdeint, adapt_step, init_step, every solver\'s step and sync_device_dtype, FourthOrder, ODEProblem, NeuralODE, MultipleShootingProblem', ['torch operations without trailing underscore do not modify their arguments', 'sequences of calls of models are enumerated (bounded)'])
