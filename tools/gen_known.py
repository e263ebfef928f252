"regenerates known_findings.jsonl"
import json, subprocess
FIX = {
 '41b887d': ('C04', 'rk4 evaluated its stages at wrong abscissae for time-dependent fields'),
 'c2a076d': ('C03', 'reversed time spans: mirrored times and unmirrored save_at, init_step probe of the unmirrored field, list t_span refused'),
 '6e1d876': ('C02', 'save_at was matched by exact equality with accumulated times: requested times were dropped or misaligned'),
 'e3c39a5': ('C05', 'adaptive integration missed or duplicated requested times through accumulated rounding'),
 '28043d6': ('C08', 'hybrid integration: jump count, bisection bracket and checkpoint bookkeeping after a jump'),
 '5b34c6f': ('C20', 'MSZero and MSBackward loop bounds and indices'),
 'f7207f1': ('C11', 'adjoint ignored save_at and args, dropped cotangents of intermediate times; interpolated adjoint returned internally evaluated points'),
 '709c603': ('C11', 'adjoint failed for unused or frozen parameters; gradient with respect to the times'),
 '5343f46': ('C15', 'solver_adjoint given as an object was replaced'),
 '915a5d9': ('C13', 'higher order companion system, arguments and signatures of wrapped fields'),
 '10cee68': ('C23', 'generate_concentric_spheres failed for a single sample'),
 '133002c': ('C24', 'a solver used once in single precision kept rounded coefficients for all later calls in double precision'),
 '062343a': ('C14', 'extra arguments did not reach fields of the state alone, such as f(x, args)'),
 '1edbbac': ('C15', 'multiple shooting problems with adjoint sensitivity failed without an explicit adjoint solver'),
 '033da68': ('C15', 'discrete-adjoint multiple shooting failed with adjoint sensitivities'),
 'e792441': ('C22', 'implicit Euler evaluated the residual at the start of the step'),
 '159c88d': ('C09', 'Milstein accepted unsupported equation types'),
 'fe8dee7': ('C19', 'Galerkin layers without bias and convolutional Galerkin layers with several basis functions failed'),
 '4b88518': ('C19', 'radial basis ignored configured centers and scales'),
 'edf7a0a': ('C23', 'gaussians and spirals in more than two dimensions; odd number of sphere samples'),
 '719ea52': ('C15', 'multiple shooting adjoint: arguments and solver'),
 '8d797ae': ('C10', 'NeuralSDE.trajectory failed'),
 '25fc37e': ('C21', 'root_find ignored maxiters'),
 'a07c337': ('C07', 'dense_output passed the arguments of the spline in the wrong order'),
 'ff95043': ('C02', 'save_at times given as a list were rounded to single precision'),
 'd6bc99f': ('C10', 'SDEProblem and NeuralSDE failed when torchdyn.numerics was imported first'),
}
with open('known_findings.jsonl', 'w') as fh:
    for h, (p, w) in FIX.items(): fh.write(json.dumps(dict(kind='fixed', property=p, commit=h, what=w, line=f'fixed: property={p} {h} {w}')) + '\n')
    try:
        for l in open('tools/findings.jsonl'): fh.write(l)
    except FileNotFoundError: pass
