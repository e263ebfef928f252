From 41b887d28db06dfa02a55ec2caed05422cf27215 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 01/26] fix: evaluate the rk4 stages at t + dt/2, t + dt/2 and
 t + dt

The step reads c[0], c[1], c[2] as the abscissae of k2, k3 and k4, but the
tableau listed the abscissa of k1 first, so k2 was evaluated at t and k4 at
t + dt/2: order 1 on time-varying vector fields.
---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..06ea0cf 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1.], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From c2a076d9c2d6c8b1ee28b85b59840cd7ebb4d0a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 02/26] fix: return the requested times when integrating
 backwards in time

A decreasing t_span is integrated by mirroring time, but the mirrored (negated)
times were returned, save_at was not mirrored, the initial step-size heuristic
evaluated the unmirrored field at mirrored times, and a list t_span crashed.
---
 torchdyn/numerics/odeint.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..c495a61 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,13 +51,15 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat(t_span)
+	reverse_time = bool(t_span[1] < t_span[0])
+	if reverse_time: # integrate the mirrored field forward in `-t`, times are mirrored back before returning
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
 	else: f_ = f
 
-	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
@@ -82,13 +84,14 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
-			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+		return (-t_eval if reverse_time else t_eval), sol
 
 
 # TODO (qol) state augmentation for symplectic methods
@@ -109,12 +112,14 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat(t_span)
+	reverse_time = bool(t_span[1] < t_span[0])
+	if reverse_time: # integrate the mirrored field forward in `-t`, times are mirrored back before returning
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
 	else: f_ = f
-	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
@@ -137,17 +142,18 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+		return (-t_eval if reverse_time else t_eval), sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 6e1d876ffb1094ecaf965c83b4e90759916501a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 03/26] fix: match save_at against the integration grid

The check compared save_at with itself, so times off the grid were silently
dropped from the solution while still being returned (one state fewer than
times), out-of-order times were paired with the wrong states, and valid grids
with spacing below isclose's tolerance (fine grids, large time offsets) were
refused. sdeint had the same mismatch and no check. Each time of save_at is now
located in t_span once, and times and states are returned in integration order.
---
 torchdyn/numerics/odeint.py | 13 ++++---------
 torchdyn/numerics/sdeint.py | 12 ++++--------
 torchdyn/numerics/utils.py  | 12 ++++++++++++
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index c495a61..919da22 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -23,7 +23,7 @@ import torch.nn as nn
 
 from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, Tsitouras45, str_to_solver, str_to_ms_solver
 from torchdyn.numerics.interpolators import str_to_interp
-from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, EventState
+from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, match_save_at, EventState
 
 
 def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, nn.Module], atol:float=1e-3, rtol:float=1e-3,
@@ -416,17 +416,12 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at = t_span
-	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
-		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	save_at, save_idx = match_save_at(save_at, t_span)
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
 	sol = []
-	if torch.isclose(t, save_at).sum():
+	if 0 in save_idx:
 		sol = [x]
 
 	steps = 1
@@ -434,7 +429,7 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
 		t = t + dt
 
-		if torch.isclose(t, save_at).sum():
+		if steps in save_idx:
 			sol.append(x)
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..911876f 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -6,6 +6,7 @@ from warnings import warn
 from torchsde._brownian import BaseBrownian
 from torchdyn.core.defunc import SDEFunc
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
+from torchdyn.numerics.utils import match_save_at
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
 
@@ -56,12 +57,6 @@ def sdeint(
         solver = sde_str_to_solver(solver, sde, bm, x.dtype)
     x, t_span = solver.sync_device_dtype(x, t_span)
     stepping_class = solver.stepping_class
-    # instantiate save_at tensor
-    if len(save_at) == 0:
-        save_at = t_span
-    if not isinstance(save_at, torch.Tensor):
-        save_at = torch.tensor(save_at)
-
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
         raise NotImplementedError(
@@ -89,16 +84,17 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    save_at, save_idx = match_save_at(save_at, t_span)
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
     sol = []
-    if torch.isclose(t, save_at).sum():
+    if 0 in save_idx:
         # if t is in save_at
         sol = [x]
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
         t = t + dt
-        if torch.isclose(t, save_at).sum():
+        if steps in save_idx:
             sol.append(x)
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..c628d54 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -73,6 +73,18 @@ def dense_output(sol, t_sol, t_eval, return_spline=False):
     return sol_eval
 
 
+def match_save_at(save_at, t_span):
+    """Locates each time of `save_at` in the (increasing) `t_span`, defaulting to all times of `t_span`.
+
+    Returns the times at which the solution is saved, in integration order, and their indices in `t_span`."""
+    if len(save_at) == 0: return t_span, range(len(t_span))
+    save_at = torch.as_tensor(save_at).to(t_span).sort()[0]
+    save_idx = [int((t_span - t).abs().argmin()) for t in save_at]
+    assert torch.isclose(t_span[save_idx], save_at).all() and len(set(save_idx)) == len(save_idx),\
+        "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+    return save_at, save_idx
+
+
 class EventState:
     def __init__(self, evid):
         self.evid = evid
-- 
2.43.0


From e3c39a5cce613ce2a1f16797e1be757c4c997df4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 04/26] fix: end shortened adaptive steps exactly at the
 requested time

t + (T - t) can round past T, in which case the loop ended without recording
the last requested time: t_eval and the solution came back one entry short.
A step shortened to reach T or a checkpoint now ends exactly there. A rejected
shortened step is also retried with a smaller step instead of with the remainder
of the original one, which could be zero or larger than the rejected step.
---
 torchdyn/numerics/odeint.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 919da22..30c2da3 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -355,16 +355,18 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
-		if t + dt > T:
-			dt = T - t
+		t_new = t + dt
+		if t_new > T:
+			# shortened steps end exactly at their target: `t + (T - t)` might round to a different time
+			dt, t_new = T - t, T.reshape(t.shape)
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter].reshape(t.shape)
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -382,8 +384,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -392,18 +394,18 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
 		if ckpt_flag:
-			dt = dt_old - dt
+			if accept_step and dt_old > dt: dt = dt_old - dt
 			ckpt_flag = False
 
 		dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 28043d6fbeccd8bdb183044497b23c313f6ced20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 05/26] fix: count jumps and bracket events in odeint_hybrid

j_span was never enforced (the jump counter was not increased in the loop); the
bisection restarted from the whole step after each advance, so it could run out
of iterations with no event at the last trial and crash on min([]), or look past
the step; a checkpoint reached by a rejected step was skipped, and a checkpoint
pending when an event fired left a stale remainder as the next step size.
---
 torchdyn/numerics/odeint.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 30c2da3..4fb9f0f 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -235,19 +235,20 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
-		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+		while (ckpt_counter < len(t_eval)) and (t >= t_eval[ckpt_counter]): ckpt_counter += 1
+		t_new = t + dt
+		if t_new > T:
+			dt, t_new = T - t, T.reshape(t.shape)
 		if t_eval is not None:
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter].reshape(t.shape)
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
@@ -256,6 +257,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		if triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
+			trigger_states = new_event_states
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
 
 			while niters < max_iters and event_tol < dt_inner:
@@ -269,17 +271,19 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
-				if triggered_events == 0: # if no event, advance start point of bisection search
+				# the event lies in `[t_inner, t_inner + dt_inner]`
+				if triggered_events > 0:
+					trigger_states = new_event_states
+				else: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
 			x = x_inner
 			t = t_inner
-			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
+			i = min([i for i, evid in enumerate(trigger_states.evid) if evid == True])
 
 			# save state and time BEFORE jump
 			sol.append(x.reshape(x_shape))
@@ -287,6 +291,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
@@ -294,7 +299,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# reset k1
 			k1 = None
-			dt = dt_pre
+			dt, ckpt_flag = dt_pre, False
 
 		else:
 			################# compute error #############################
@@ -310,14 +315,14 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			accept_step = error_ratio <= 1
 
 			if accept_step:
-				t = t + dt
+				t = t_new
 				x = x_new
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
 
 			if ckpt_flag:
-				dt = dt_old - dt
+				if accept_step and dt_old > dt: dt = dt_old - dt
 				ckpt_flag = False
 			################ stepsize control ###########################
 			dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 5b34c6f5ef108fc6ab882ed10ad5a96c8b4d82c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 06/26] fix: stop multiple shooting iterations once all
 shooting parameters are exact

maxiter larger than the number of subintervals indexed past the shooting
parameters (IndexError with the default maxiter and short t_span), and
MSBackward indexed the fine solutions, which start at parameter i-1, from 0.
---
 torchdyn/numerics/solvers/ode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..b1b705e 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,8 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        # the first `i` shooting parameters are exact after `i` iterations, at most `n_subinterv - 1` are needed
+        while i <= maxiter and i < n_subinterv - 1:
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +265,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        # the first `i` shooting parameters are exact after `i` iterations, at most `n_subinterv - 1` are needed
+        while i <= maxiter and i < n_subinterv - 1:
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
@@ -273,8 +275,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                J_blk = torch.autograd.grad(B_fine[m-i], B, B_in - B[m-1], retain_graph=True)[0][m-1]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From f7207f1da8d735408ea57b83895f599bf8be240b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 07/26] fix: adjoint gradients with save_at and at intermediate
 times

With sensitivity='adjoint' save_at was passed as the shooting parameters and
ignored. The interpolated adjoint returned all evaluated points but read the
incoming gradients as if they were at t_span, losing the gradients of every
intermediate time, and ignored the adjoint solver and tolerances. Both now
return the requested times, use solver_adjoint, atol_adjoint and rtol_adjoint,
and integrate back to the initial time when it is not saved.
---
 torchdyn/core/problems.py        |  2 +-
 torchdyn/numerics/sensitivity.py | 54 ++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..030565e 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -152,7 +152,7 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            return self._autograd_func()(self.vf_params, x, t_span, None, save_at, args)
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..379e7f4 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -15,14 +15,15 @@ import torch
 from torch.autograd import Function, grad
 from torchcde import CubicSpline, natural_cubic_coeffs
 from torchdyn.numerics.odeint import odeint, odeint_mshooting
+from torchdyn.numerics.utils import match_save_at
 
 
 def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B0=None, 
-                  return_all_eval=False, maxiter=4, fine_steps=4, save_at=()):
+                  return_all_eval=False, maxiter=4, fine_steps=4, save_at=(), args={}):
     "Dispatches to appropriate `odeint` function depending on `Problem` class (ODEProblem, MultipleShootingProblem)"
     if problem_type == 'standard':
         return odeint(vf, x, t_span, solver, atol=atol, rtol=rtol, interpolator=interpolator, return_all_eval=return_all_eval,
-                      save_at=save_at)
+                      save_at=save_at, args=args)
     elif problem_type == 'multiple_shooting':
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
@@ -34,15 +35,15 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
     "Prepares definition of autograd.Function for adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
-        def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
+        def forward(ctx, vf_params, x, t_span, B=None, save_at=(), args={}):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        False, maxiter, fine_steps, save_at)
-            ctx.save_for_backward(sol, t_sol)
+                                        False, maxiter, fine_steps, save_at, args)
+            ctx.save_for_backward(sol, t_span, t_sol)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
-            sol, t_sol = ctx.saved_tensors
+            sol, t_span, t_sol = ctx.saved_tensors
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
             # initialize flattened adjoint state
             xT, λT, μT = sol[-1], grad_output[-1][-1], torch.zeros_like(vf_params)
@@ -92,6 +93,13 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
                 A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
 
+            # the first saved time can be after the initial time
+            if t_sol[0] != t_span[0]:
+                t_adj_sol, A = odeint(adjoint_dynamics, A, torch.stack([t_sol[0], t_span[0]]),
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
+                                      seminorm=(True, xT_nel+λT_nel))
+                A = A[-1]
+
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
             λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
@@ -106,15 +114,22 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
     "Prepares definition of autograd.Function for interpolated adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
-        def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
-            t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        True, maxiter, fine_steps, save_at)
-            ctx.save_for_backward(sol, t_span, t_sol)
+        def forward(ctx, vf_params, x, t_span, B=None, save_at=(), args={}):
+            # all evaluated points are interpolated in `backward`, only the requested ones are returned
+            t_all, sol_all = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
+                                            True, maxiter, fine_steps, (), args)
+            t_sol = t_span.to(t_all)
+            if len(save_at) > 0 and problem_type == 'standard' and solver.stepping_class == 'fixed':
+                sign = -1 if t_span[1] < t_span[0] else 1
+                t_sol = sign * match_save_at(sign * torch.as_tensor(save_at), sign * t_all)[0]
+            sol = sol_all[[int((t_all - t).abs().argmin()) for t in t_sol]]
+            ctx.save_for_backward(sol, t_span, t_sol, sol_all, t_all)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
-            sol, t_span, t_sol = ctx.saved_tensors
+            sol, t_span, t_sol, sol_all, t_all = ctx.saved_tensors
+            if t_all[0] > t_all[-1]: sol_all, t_all = sol_all.flip(0), t_all.flip(0)
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
 
             # initialize adjoint state
@@ -123,8 +138,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
-            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
+            spline_coeffs = natural_cubic_coeffs(x=sol_all.permute(1, 0, 2).detach(), t=t_all)
+            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_all)
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
@@ -148,14 +163,21 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
-            for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+            for i in range(len(t_sol) - 1, 0, -1):
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
 
+            # the first saved time can be after the initial time
+            if t_sol[0] != t_span[0]:
+                t_adj_sol, A = odeint(adjoint_dynamics, A, torch.stack([t_sol[0], t_span[0]]),
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
+                A = A[-1]
+
             λ, μ = A[:λT_nel], A[-μT_nel:]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            return (μ, λ, None, None, None)
+            return (μ, λ, None, None, None, None)
 
     return _ODEProblemFunc
\ No newline at end of file
-- 
2.43.0


From 709c603f59e48ea87fd844566268f58f63337ac2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 08/26] fix: adjoint gradients of unused or frozen parameters
 and of t_span

A parameter the vector field does not use contributed a single zero whatever its
size, and a frozen parameter made autograd.grad raise. The gradient of t_span had
the length of two entries, and the one of the initial time had the wrong sign and
was evaluated with the field at the next time.
---
 torchdyn/numerics/sensitivity.py | 44 ++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 379e7f4..d7c5ae8 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -30,6 +30,17 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
 
 # TODO: optimize and make conditional gradient computations w.r.t end times
 # TODO: link `seminorm` arg from `ODEProblem`
+def _vf_vjp(dx, x, t, vf, v):
+    "vjp of `dx = vf(t, x)` w.r.t `x`, `t` (`None` if unused) and all parameters of `vf` (zeros if unused or frozen)"
+    params = tuple(vf.parameters())
+    trainable = tuple(p for p in params if p.requires_grad)
+    dx_, dt_, *dp_ = grad(dx, (x, t) + trainable, v, allow_unused=True, retain_graph=False)
+    if dx_ is None: dx_ = torch.zeros_like(x)
+    dp_ = iter(dp_)
+    dp_ = [next(dp_) if p.requires_grad else None for p in params]
+    return (dx_, dt_, *[torch.zeros_like(p) if dp is None else dp for dp, p in zip(dp_, params)])
+
+
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
                             atol_adjoint, rtol_adjoint, integral_loss, problem_type, maxiter=4, fine_steps=4):
     "Prepares definition of autograd.Function for adjoint sensitivity analysis of the above `ODEProblem`"
@@ -62,35 +73,30 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
-                                    allow_unused=True, retain_graph=False))
+                    dλ, dt, *dμ = _vf_vjp(dx, x, t, vf, -λ)
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() for el in dμ], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
 
             # solve the adjoint equation
             n_elements = (xT_nel, λT_nel, μT_nel)
-            dLdt = torch.zeros(len(t_sol)).to(xT)
-            dLdt[-1] = λtT
+            # adjoint at the initial time, without the contribution of the loss on the initial state itself
+            λt0 = torch.zeros_like(λT_flat)
             for i in range(len(t_sol) - 1, 0, -1):
                 t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
                                       solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
                                       seminorm=(True, xT_nel+λT_nel))
                 # prepare adjoint state for next interval
-                #TODO: reuse vf_eval for dLdt calculations
-                xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
-                dLdt[i-1] = dLdt_
 
                 A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
+                λt0 = A[xT_nel:xT_nel + λT_nel].clone()
                 A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
 
             # the first saved time can be after the initial time
@@ -99,11 +105,19 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                                       solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
                                       seminorm=(True, xT_nel+λT_nel))
                 A = A[-1]
+                λt0 = A[xT_nel:xT_nel + λT_nel]
 
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
-            return (μ, λ, λ_tspan, None, None, None)
+
+            if not ctx.needs_input_grad[2]: return (μ, λ, None, None, None, None)
+            # moving an evaluation time moves the state evaluated there along `vf`, delaying the start moves the whole solution back
+            dLdt = torch.zeros_like(t_span)
+            for t_, x_, gt_, gx_ in zip(t_sol, sol, *grad_output):
+                i = (t_span - t_).abs().argmin()
+                dLdt[i] += gt_ + (gx_.flatten() @ vf(t_, x_).flatten() if i > 0 else 0.)
+            dLdt[0] -= λt0 @ vf(t_span[0], A[:xT_nel].reshape(xT_shape)).flatten()
+            return (μ, λ, dLdt, None, None, None)
 
     return _ODEProblemFunc
 
@@ -150,15 +164,13 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
-                                        allow_unused=True, retain_graph=False))
+                    dλ, dt, *dμ = _vf_vjp(dx, x, t, vf, -λ)
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() for el in dμ], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From 5343f46e639b4cc43eaee53f66b28d9a1a1e7c94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 09/26] fix: accept solver modules as solver_adjoint, as
 documented

---
 torchdyn/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 030565e..89b14a5 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -57,7 +57,7 @@ class ODEProblem(nn.Module):
             solver = str_to_solver(solver)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
+        elif type(solver_adjoint) == str:
             solver_adjoint = str_to_solver(solver_adjoint)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
-- 
2.43.0


From 915a5d93111fc5add79f0f2014ef3351f3060316 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 10/26] fix: higher-order integral losses and (t, x) call
 signatures

An integral loss on a higher-order Neural ODE called a method that does not
exist, higher-order and integral-loss dynamics dropped args, and vector fields
with the documented signature (t, x) raised on the unexpected keyword args.
---
 torchdyn/core/defunc.py | 18 +++++++++++++-----
 torchdyn/core/utils.py  |  5 ++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..53ec0cb 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -16,6 +16,13 @@ from torch import Tensor, cat
 import torch.nn as nn
 
 
+def accepts_args(vector_field: Callable) -> bool:
+    "Whether `vector_field` can be called with the keyword `args`, on top of `(t, x)`"
+    is_module = issubclass(type(vector_field), nn.Module)
+    spec = getfullargspec(vector_field.forward if is_module else vector_field)
+    return "args" in spec.args + spec.kwonlyargs or spec.varkw is not None
+
+
 class DEFuncBase(nn.Module):
     def __init__(self, vector_field: Callable, has_time_arg: bool = True):
         """Basic wrapper to ensure call signature compatibility between generic torch Modules and vector fields.
@@ -26,11 +33,12 @@ class DEFuncBase(nn.Module):
         """
         super().__init__()
         self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
+        self.has_args = has_time_arg and accepts_args(vector_field)
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
         if self.has_time_arg:
-            return self.vf(t, x, args=args)
+            return self.vf(t, x, args=args) if self.has_args else self.vf(t, x)
         else:
             return self.vf(x)
 
@@ -71,15 +79,15 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
-                x_dyn = self.vf(t, x_dyn)
+                x_dyn = self.vf(t, x_dyn, args=args)
             return cat([dlds, x_dyn], 1).to(x_dyn)
 
         # regular forward
         else:
             if self.order > 1:
-                x = self.higher_order_forward(t, x)
+                x = self.higher_order_forward(t, x, args)
             else:
                 x = self.vf(t, x, args=args)
             return x
@@ -89,7 +97,7 @@ class DEFunc(nn.Module):
         size_order = x.size(1) // self.order
         for i in range(1, self.order):
             x_new.append(x[:, size_order * i : size_order * (i + 1)])
-        x_new.append(self.vf(t, x))
+        x_new.append(self.vf(t, x, args=args))
         return cat(x_new, dim=1).to(x)
 
 
diff --git a/torchdyn/core/utils.py b/torchdyn/core/utils.py
index 460f3f3..0980525 100644
--- a/torchdyn/core/utils.py
+++ b/torchdyn/core/utils.py
@@ -13,7 +13,7 @@
 from inspect import getfullargspec
 
 import torch
-from torchdyn.core.defunc import DEFuncBase, DEFunc
+from torchdyn.core.defunc import DEFuncBase, DEFunc, accepts_args
 import torch.nn as nn
 
 def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
@@ -24,6 +24,9 @@ def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
             print("Your vector field callable (nn.Module) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)
+        # `DEFunc` passes `args`, which is optional in the call signature of vector fields
+        elif defunc_wrap and not accepts_args(vector_field):
+            vector_field = DEFuncBase(vector_field, has_time_arg=True)
     else: 
         # argspec for lambda functions needs to be done on the function itself
         if 't' not in getfullargspec(vector_field).args:
-- 
2.43.0


From e792441e1dd982792e98b6d45cca141525e3cc63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 11/26] fix: evaluate the implicit Euler residual at the end of
 the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index b1b705e..3c4f94f 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From 159c88db143c2623561aa40a10410e550bfacf04 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 12/26] fix: refuse SDEs of the wrong type in the Milstein
 solvers, as in the other solvers

---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From fe8dee78e76b9391b00aeac0dbb1783019f9f009 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 13/26] fix: Galerkin layers without bias

bias=False registered the bias as a parameter and raised when assigning it in
forward. GalConv2d also held two coefficients per degree whatever the basis.
---
 torchdyn/nn/galerkin.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..0df84d2 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -209,11 +209,8 @@ class GalLinear(GalLayer):
         
         self.in_features, self.out_features = in_features, out_features
         self.weight = torch.Tensor(out_features, in_features)
-        if bias:
-            self.bias = torch.Tensor(out_features)
-        else:
-            self.register_parameter('bias', None)         
-        self.coeffs = torch.nn.Parameter(torch.Tensor((in_features+1)*out_features, self.deg, self.n_eig))        
+        self.bias = torch.Tensor(out_features) if bias else None
+        self.coeffs = torch.nn.Parameter(torch.Tensor((in_features+bool(bias))*out_features, self.deg, self.n_eig))        
         self.reset_parameters()  
                 
     def forward(self, input):
@@ -222,7 +219,8 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        if self.bias is not None:
+            self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -256,11 +254,8 @@ class GalConv2d(GalLayer):
         self.pad, self.stride = padding, stride
 
         self.weight = torch.Tensor(out_channels, in_channels, kernel_size, kernel_size)
-        if bias:
-            self.bias = torch.Tensor(out_channels)
-        else:
-            self.register_parameter('bias', None)
-        self.coeffs = torch.nn.Parameter(torch.Tensor(((out_channels)*in_channels*(kernel_size**2)+out_channels), self.deg, 2))
+        self.bias = torch.Tensor(out_channels) if bias else None
+        self.coeffs = torch.nn.Parameter(torch.Tensor(((out_channels)*in_channels*(kernel_size**2)+bool(bias)*out_channels), self.deg, self.n_eig))
         self.reset_parameters()
         
     def forward(self, input):
@@ -269,5 +264,5 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if self.bias is not None: self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From 4b885189956f0c741a19a78de445b98ec83d01ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:06:37 +0000
Subject: [PATCH 14/26] fix: radial basis functions honour their centers and
 scales

Non-adaptive bases ignored the given centers and eps_scales, adaptive ones held
deg + 1 of them and raised on the deg basis functions for deg > 1.
---
 torchdyn/nn/galerkin.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 0df84d2..0f2d696 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,11 +31,11 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
@@ -60,11 +60,11 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
@@ -89,11 +89,11 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-- 
2.43.0


From edf7a0ae7f784f2030ba5e96967e606603c7c626 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 15/26] fix: place Gaussians on the ring in any dimension, odd
 numbers of sphere samples

For dim > 2 the second coordinate of the centers was not scaled by the radius
and dim > 3 raised; concentric spheres raised for odd n_samples.
---
 torchdyn/datasets/static_datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..25be7e1 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,11 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    n_outer = n_samples - n_samples // 2
+    for i in range(n_outer):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_outer, dim)).normal_(0, std=noise)
     return X, y
 
 
@@ -137,7 +138,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -179,7 +180,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From 719ea52d3012298a1b7b5f642e0f0eda8f0e0459 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 16/26] fix: adjoint sensitivities of multiple shooting
 problems

The parallel solver was not passed on and maxiter and fine_steps were swapped,
so solving a multiple shooting problem with any adjoint sensitivity raised.
---
 torchdyn/core/problems.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 89b14a5..43786c7 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -211,7 +211,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -220,14 +220,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
-                self.maxiter,
+                maxiter=self.maxiter,
+                fine_steps=self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -236,8 +236,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
-                self.maxiter,
+                maxiter=self.maxiter,
+                fine_steps=self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From 8d797ae51881a509aa93ba83ea69aa6341d60d6c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 17/26] fix: NeuralSDE.trajectory

It called the preparation step and sdeint with arguments they do not have.
---
 torchdyn/core/neuralde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..f553896 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -252,15 +252,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
             solver=self.solver,
+            bm=self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
-- 
2.43.0


From 25fc37e0e7939d4124d312cc5ec70de2045ef717 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 18/26] fix: root_find performs at most maxiters iterations,
 not one more

---
 torchdyn/numerics/solvers/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..33e6a61 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -272,7 +272,7 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     J_inv = batch_jacobian(g, z).pinverse()
 
     iteration = 0
-    while iteration <= maxiters:
+    while iteration < maxiters:
         iteration += 1
 
         # solver step
-- 
2.43.0


From ff95043b7cc3901fee018bc4e9df083325f0b100 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 19/26] fix: keep the precision of save_at times given as a
 list

---
 torchdyn/numerics/odeint.py      | 4 ++--
 torchdyn/numerics/sensitivity.py | 2 +-
 torchdyn/numerics/utils.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 4fb9f0f..a1c35df 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -57,7 +57,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
-		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at, dtype=t_span.dtype)
 	else: f_ = f
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
@@ -118,7 +118,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
-		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at, dtype=t_span.dtype)
 	else: f_ = f
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index d7c5ae8..91abbfd 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -135,7 +135,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             t_sol = t_span.to(t_all)
             if len(save_at) > 0 and problem_type == 'standard' and solver.stepping_class == 'fixed':
                 sign = -1 if t_span[1] < t_span[0] else 1
-                t_sol = sign * match_save_at(sign * torch.as_tensor(save_at), sign * t_all)[0]
+                t_sol = sign * match_save_at(sign * torch.as_tensor(save_at, dtype=t_all.dtype), sign * t_all)[0]
             sol = sol_all[[int((t_all - t).abs().argmin()) for t in t_sol]]
             ctx.save_for_backward(sol, t_span, t_sol, sol_all, t_all)
             return t_sol, sol
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c628d54..61ffda7 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -78,7 +78,7 @@ def match_save_at(save_at, t_span):
 
     Returns the times at which the solution is saved, in integration order, and their indices in `t_span`."""
     if len(save_at) == 0: return t_span, range(len(t_span))
-    save_at = torch.as_tensor(save_at).to(t_span).sort()[0]
+    save_at = torch.as_tensor(save_at, dtype=t_span.dtype, device=t_span.device).sort()[0]
     save_idx = [int((t_span - t).abs().argmin()) for t in save_at]
     assert torch.isclose(t_span[save_idx], save_at).all() and len(set(save_idx)) == len(save_idx),\
         "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
-- 
2.43.0


From a07c337f45d6d4de5592beb8b55bc41110203068 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 20/26] fix: order of the spline arguments in dense_output

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 61ffda7..2c6460f 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -65,8 +65,8 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
-    spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-    sol_spline = CubicSpline(t_sol, spline_coeff)
+    spline_coeff = hermite_cubic_coefficients_with_backward_differences(sol.permute(1, 0, 2), t_sol)
+    sol_spline = CubicSpline(spline_coeff, t_sol)
     sol_eval = torch.stack([sol_spline.evaluate(t) for t in t_eval])
     if return_spline:
         return sol_eval, sol_spline
-- 
2.43.0


From d6bc99f4c5baf5a4f00a2684e362d063c71a2b49 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 21/26] fix: call numerics.sdeint from SDEProblem and NeuralSDE
 whatever the order of imports

Importing torchdyn.numerics before torchdyn.core left the name sdeint bound to the
partially initialised submodule, so that SDEProblem.sdeint raised TypeError.
---
 torchdyn/core/neuralde.py | 5 +++--
 torchdyn/core/problems.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index f553896..1decbca 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -13,7 +13,8 @@
 from typing import Callable, Union, Iterable, Generator, Dict
 
 from torchdyn.core.problems import MultipleShootingProblem, ODEProblem, SDEProblem
-from torchdyn.numerics import odeint, sdeint
+import torchdyn.numerics as numerics
+from torchdyn.numerics import odeint
 from torchdyn.core.defunc import SDEFunc
 from torchdyn.core.utils import standardize_vf_call_signature
 
@@ -253,7 +254,7 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
         x, t_span = self._prep_sdeint(x, t_span)
-        _, sol = sdeint(
+        _, sol = numerics.sdeint(
             self.defunc,
             x,
             t_span,
diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 43786c7..f4b23b2 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -11,7 +11,7 @@ from torchdyn.numerics.odeint import odeint, odeint_mshooting
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.core.utils import standardize_vf_call_signature
 from torchdyn.core.defunc import SDEFunc
-from torchdyn.numerics import sdeint
+import torchdyn.numerics as numerics
 from torchsde._brownian import BrownianInterval
 
 
@@ -293,7 +293,7 @@ class SDEProblem(nn.Module):
     ):
         "Returns Tuple(`t_eval`, `solution`)"
         if self.sensitivity == "autograd":
-            return sdeint(
+            return numerics.sdeint(
                 self.defunc,
                 x,
                 t_span,
-- 
2.43.0


From 062343a4e498c05fe32522f4484015d76f4b8cfc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 22/26] fix: pass extra arguments to vector fields of the state
 alone which accept them

---
 torchdyn/core/defunc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 53ec0cb..bd4eb33 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -17,7 +17,7 @@ import torch.nn as nn
 
 
 def accepts_args(vector_field: Callable) -> bool:
-    "Whether `vector_field` can be called with the keyword `args`, on top of `(t, x)`"
+    "Whether `vector_field` can be called with the keyword `args`, on top of `(t, x)` or `x`"
     is_module = issubclass(type(vector_field), nn.Module)
     spec = getfullargspec(vector_field.forward if is_module else vector_field)
     return "args" in spec.args + spec.kwonlyargs or spec.varkw is not None
@@ -33,14 +33,14 @@ class DEFuncBase(nn.Module):
         """
         super().__init__()
         self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
-        self.has_args = has_time_arg and accepts_args(vector_field)
+        self.has_args = accepts_args(vector_field)
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
         if self.has_time_arg:
             return self.vf(t, x, args=args) if self.has_args else self.vf(t, x)
         else:
-            return self.vf(x)
+            return self.vf(x, args=args) if self.has_args else self.vf(x)
 
 
 class DEFunc(nn.Module):
-- 
2.43.0


From 1edbbac3dd532f5ccebdc820f355bad53a94ebb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 23/26] fix: default adjoint solver of multiple shooting
 problems

---
 torchdyn/core/problems.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index f4b23b2..7ade796 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -197,6 +197,10 @@ class MultipleShootingProblem(ODEProblem):
             seminorm=seminorm,
             integral_loss=integral_loss,
         )
+        # there is no sequential forward solver to default to, use the one the shooting parameters are solved with
+        if solver_adjoint is None:
+            ms_solver = str_to_ms_solver(solver) if type(solver) == str else solver
+            self.solver_adjoint = ms_solver.fine_method
         self.parallel_solver = solver
         self.fine_steps, self.maxiter = fine_steps, maxiter
 
-- 
2.43.0


From 033da68e5513cf3bdeb9723d2813c0b1fc506f9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:47:47 +0000
Subject: [PATCH 24/26] fix: discrete-adjoint multiple shooting where gradients
 are disabled

---
 torchdyn/numerics/solvers/ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 3c4f94f..bc6a02e 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -260,6 +260,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
         """
         super().__init__(coarse_method, fine_method)
 
+    # the Jacobian is needed also where gradients are disabled, e.g. in the forward pass of adjoint sensitivities
+    @torch.enable_grad()
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
-- 
2.43.0


From 10cee68488c1815229f0f538ce3829aa62f925ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 25/26] fix: let generate_concentric_spheres make data sets of
 a single sample

---
 torchdyn/datasets/static_datasets.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 25be7e1..be6ccf3 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -55,16 +55,12 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     """
     X, y = zeros((n_samples, dim)), torch.zeros(n_samples)
     y[:n_samples // 2] = 1
-    samples = []
     for i in range(n_samples // 2):
-        samples.append(randnsphere(dim, inner_radius)[None, :])
-    X[:n_samples // 2] = cat(samples)
+        X[i] = randnsphere(dim, inner_radius)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
-    samples = []
     n_outer = n_samples - n_samples // 2
     for i in range(n_outer):
-        samples.append(randnsphere(dim, outer_radius)[None, :])
-    X[n_samples // 2:] = cat(samples)
+        X[n_samples // 2 + i] = randnsphere(dim, outer_radius)
     X[n_samples // 2:] += zeros((n_outer, dim)).normal_(0, std=noise)
     return X, y
 
-- 
2.43.0


From 133002c5c58caa76956ca8b553dfc8600dd5969e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 26/26] fix: cast solver tableaus from their original precision
 on every call

---
 torchdyn/numerics/solvers/templates.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..9db2169 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -25,14 +25,17 @@ class DiffEqSolver(nn.Module):
         self.max_factor = torch.tensor([max_factor])
         self.safety = torch.tensor([safety])
         self.tableau = None
+        self._cast_tableau = None
         self.stepping_class = stepping_class
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
         device = x.device
         if self.tableau is not None:
-            c, a, bsol, berr = self.tableau
-            self.tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
+            # always cast the original tableau: casting a previous cast would lose precision for good
+            if self.tableau is not self._cast_tableau: self._orig_tableau = self.tableau
+            c, a, bsol, berr = self._orig_tableau
+            self.tableau = self._cast_tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
-- 
2.43.0

