"""Inverse kinematics of the chains of ChainSys: single steps, and whole solves judged by their results."""
import math
import numpy as np
import torch
import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from base import Mismatch
from ikrun import rot, hom

DT = {"f32": torch.float32, "f64": torch.float64}
CLASSES = (pk.PseudoInverseIK, pk.PseudoInverseIK, pk.ik.PseudoInverseIKWithSVD)


def expm(v):
    a = np.linalg.norm(v)
    return rot(v, a) if a > 1e-12 else np.eye(3)


class Watch(pk.ik.LineSearch):
    """Sees every iteration; the step sizes are given."""

    def __init__(self, lrs):
        self.lrs, self.seen = lrs, []

    def do_line_search(self, chain, q, dq, target_pos, target_wxyz, initial_dx, problem_remaining=None, **kw):
        self.seen.append((q.clone(), dq.clone(), initial_dx.clone(), problem_remaining.clone()))
        return self.lrs.clone() if torch.is_tensor(self.lrs) else torch.full((q.shape[0],), self.lrs, dtype=q.dtype), torch.zeros(target_pos.shape[0])


def problem(w, ev, rng, mat):
    r = w.robots[ev["ch"] - 1]
    cols = w.columns(r)
    P, R = ev["np"], ev["nr"]
    th = w.theta(r, ev["starts"], cols)
    full = np.tile(th, (P, 1)) if ev["share"] else th           # row p*R + r
    dt = DT[r.dt]
    starts = torch.tensor(th, dtype=dt).reshape(*(() if ev["share"] else (P,)), R, len(cols))
    goal = np.array([mat(t) for t in ev["targets"]])
    target = tf.Transform3d(matrix=torch.tensor(goal, dtype=dt), dtype=dt)
    return r, cols, P, R, full, starts, goal, target


def eps_of(r):
    return 1e-5 if r.pr == "f32" else 1e-11


def ikstep(w, ev, rng, mat):
    r, cols, P, R, full, starts, goal, target = problem(w, ev, rng, mat)
    n, dt, NM = len(cols), DT[r.dt], P * R
    J = np.zeros((NM, 6, n))
    for row in range(NM):
        k = row % R if ev["share"] else row
        got = {c[0]: c for c in ev["cols"][k]}
        for j, i in enumerate(cols):
            c = got[i]
            nrm = math.sqrt(c[9])
            J[row, :3, j] = np.array(c[1:4]) / c[4] / nrm
            J[row, 3:, j] = np.array(c[5:8]) / c[8] / nrm
    rel = np.array([mat(e) for es in ev["errs"] for e in es])
    f32 = r.pr == "f32"
    lam = rng.choice((1e-3, .01, .1, 1., 3.) if f32 else (1e-6, 1e-3, .01, .1, 1., 3.))
    if rng.random() < .1:
        lam = 1e-9
    lm = rng.choice((0., 0., .1, .5, 2.))
    wp, wr = rng.choice(((1., 1.), (1., 1.), (2., 1.), (1., .25), (.5, 3.), (10., 1.), (1., 0.), (0., 1.)))
    cls = rng.choice(CLASSES)
    kw = dict(retry_configs=starts, regularlization=lam, lm_damping=lm, position_weight=wp, orientation_weight=wr, max_iterations=1,
              enforce_joint_limits=False, pos_tolerance=1e-30, rot_tolerance=1e-30)
    what = "%s on %d joints, regularlization %g, lm_damping %g, weights %g %g, %s" % (cls.__name__, n, lam, lm, wp, wr, r.dt)
    keep = starts.clone(), target.get_matrix().clone()
    watch = None
    if rng.random() < .75:
        watch = Watch(torch.tensor([rng.choice((.25, .5, 1., 2., -1., 0.)) for _ in range(NM)], dtype=dt))
        lrs = watch.lrs.double().numpy()[:, None]
        sol = cls(r.chain, line_search=watch, **kw).solve(target)
    else:
        lr = rng.choice((.25, .5, 1., 1, 2))
        lrs = np.full((NM, 1), float(lr))
        sol = cls(r.chain, lr=lr, **kw).solve(target)
    if not torch.equal(keep[0], starts) or not torch.equal(keep[1], target.get_matrix()):
        raise Mismatch("mutation", "solving changed its arguments")
    q1 = sol.solutions.reshape(NM, n).double().numpy()
    e = eps_of(r)
    scale = 1 + max(np.max(np.abs(J)), np.max(np.abs(rel[:, :3, 3])), np.max(np.abs(goal[:, :3, 3])))
    if watch is not None:
        if len(watch.seen) != 1:
            raise Mismatch("iterations", "%d iterations instead of 1" % len(watch.seen))
        q, dq, dx, _ = [x.double().numpy() for x in watch.seen[0]]
        if q.shape != (NM, n) or dq.shape != (NM, n) or dx.shape != (NM, 6, 1):
            raise Mismatch("shape", "%s: q %s, dq %s, dx %s" % (what, q.shape, dq.shape, dx.shape))
        if not np.array_equal(q, torch.tensor(full, dtype=dt).double().numpy()):
            raise Mismatch("start", "%s: starts from %s instead of %s" % (what, q, full))
        dx = dx[:, :, 0]
        for row in range(NM):
            where = "%s: problem %d, retry %d" % (what, row // R, row % R)
            if not np.allclose(dx[row, :3], rel[row, :3, 3], rtol=0, atol=3 * e * scale):
                raise Mismatch("pose error", "%s: position error %s instead of %s" % (where, dx[row, :3], rel[row, :3, 3]))
            a = np.linalg.norm(dx[row, 3:])
            if not (a <= math.pi + 1e-4 and np.allclose(expm(dx[row, 3:]), rel[row, :3, :3], rtol=0, atol=5 * e * scale)):
                raise Mismatch("pose error", "%s: rotation error %s for the rotation\n%s" % (where, dx[row, 3:], rel[row, :3, :3]))
    else:
        # the error from the specification, the step from the solution
        dx = np.zeros((NM, 6))
        dq = (q1 - torch.tensor(full, dtype=dt).double().numpy()) / lrs
        for row in range(NM):
            dx[row, :3] = rel[row, :3, 3]
            dx[row, 3:] = log(rel[row, :3, :3])
        w.tick("ik_plain")
    W = np.array([wp] * 3 + [wr] * 3)
    for row in range(NM):
        where = "%s: problem %d, retry %d" % (what, row // R, row % R)
        if watch is None and not np.linalg.norm(dx[row, 3:]) <= 3.1:
            continue    # about half a turn: either way round
        Jw, ew = W[:, None] * J[row], W * dx[row]
        damp = lam + lm * (ew @ ew)
        if not np.all(np.isfinite(dq[row])):
            raise Mismatch("step", "%s: step %s" % (where, dq[row]))
        res = Jw.T @ (Jw @ dq[row] - ew) + damp * dq[row]
        s = max(scale, np.linalg.norm(Jw, 2))
        size = s * (s * np.linalg.norm(dq[row]) + np.linalg.norm(ew)) + damp * np.linalg.norm(dq[row])
        size += s * s * np.linalg.norm(ew) / math.sqrt(damp) * (.05 if f32 else 1e-4)
        extra = (s * s + damp) * e * (scale + np.max(np.abs(full))) * 4 if watch is None else 0
        if not np.linalg.norm(res) <= 5 * e * size * scale + extra + 1e-300:
            want = np.linalg.solve(Jw.T @ Jw + damp * np.eye(n), Jw.T @ ew)
            raise Mismatch("step", "%s: step %s instead of %s for error %s" % (where, dq[row], want, dx[row]))
        if watch is not None:
            want = q[row] + lrs[row] * dq[row]
            if not np.allclose(q1[row], want, rtol=1e-6 if r.dt == "f32" else 1e-14, atol=1e-6 * (1 if r.dt == "f32" else 1e-6) * (1 + np.max(np.abs(want)))):
                raise Mismatch("step", "%s: goes to %s instead of %s" % (where, q1[row], want))
    w.tick("ik_steps", NM)
    w.tick("ik_dof_%s" % ("under6" if n < 6 else "6" if n == 6 else "over6"))
    w.top("max_ik_dof", n)
    return [sol.solutions]


def log(Rm):
    """rotation vector of a rotation matrix"""
    c = max(-1., min(1., (np.trace(Rm) - 1) / 2))
    v = np.array([Rm[2, 1] - Rm[1, 2], Rm[0, 2] - Rm[2, 0], Rm[1, 0] - Rm[0, 1]]) / 2
    s = np.linalg.norm(v)
    a = math.atan2(s, c)
    return v * (a / s) if s > 1e-12 else np.zeros(3) if c > 0 else np.full(3, np.nan)


def angle(Rm):
    c = (np.trace(Rm) - 1) / 2
    s = np.linalg.norm([Rm[2, 1] - Rm[1, 2], Rm[0, 2] - Rm[2, 0], Rm[1, 0] - Rm[0, 1]]) / 2
    return math.atan2(s, c)


def end_pose(w, r, cols, q, mat):
    """the specification's pose of the last frame (product along the path), at any joint values"""
    val = dict(zip(cols, q))
    m = np.eye(4)
    for k, i in enumerate(r.ids):
        f = w.frames[i]
        if k == 0:
            continue
        for o in (f["lo"], f["jo"]):
            if o != []:
                m = m @ mat(o)
        if f["jt"] != "F":
            ax = np.array(f["ax"], dtype=float)
            ax /= np.linalg.norm(ax)
            m = m @ (hom(rot(ax, val[i])) if f["jt"] == "R" else hom(t=ax * val[i]))
    return m


def limits_of(w, r, cols, limit):
    lims = [limit(w.frames[i]["lim"]) or (-math.inf, math.inf) for i in cols]
    return np.array([x[0] for x in lims]), np.array([x[1] for x in lims])


def options(rng, f32):
    return dict(
        pos_tolerance=rng.choice((1e-3, 1e-2, .3, 2.)), rot_tolerance=rng.choice((1e-2, .1, 1., 4.)), max_iterations=rng.choice((0, 1, 2, 3, 6, 15, 30)),
        regularlization=rng.choice((1e-9, 1e-6, 1e-3, .01, .1)), lm_damping=rng.choice((0., .1, .1, .5)),
        position_weight=rng.choice((1., 1., 2., .5)), orientation_weight=rng.choice((1., 1., 2., .1)),
        lr=rng.choice((1., .5, .2, 1)), early_stopping_any_converged=rng.random() < .4,
        early_stopping_no_improvement=rng.choice((None, "all", "any", .5, .001)), early_stopping_no_improvement_patience=rng.choice((0, 1, 2, 5)),
        enforce_joint_limits=rng.random() < .6, num_limit_refinement_iterations=rng.choice((0, 0, 1, 3, 10)), clamp_to_limits=rng.random() < .35)


def iksolve(w, ev, rng, mat, limit):
    r, cols, P, R, full, starts, goal, target = problem(w, ev, rng, mat)
    n, dt, NM = len(cols), DT[r.dt], P * R
    f32 = r.pr == "f32"
    kw = options(rng, f32)
    cls = rng.choice(CLASSES)
    low, high = limits_of(w, r, cols, limit)
    how = rng.randrange(5)
    begin = dict(retry_configs=starts)
    if how == 0 and ev["share"]:
        # sampled, uniformly within given bounds
        b = torch.tensor([[min(a, c), max(a, c)] for a, c in ((rng.uniform(-4, 4), rng.uniform(-4, 4)) for _ in cols)], dtype=dt)
        torch.manual_seed(rng.randrange(1000))
        begin = dict(num_retries=R, joint_limits=b)
    elif how == 1 and ev["share"]:
        torch.manual_seed(rng.randrange(1000))
        begin = dict(num_retries=R, config_sampling_method=rng.choice(("gaussian", pk.ik.gaussian_around_config(starts[0], .1))))
    if kw["clamp_to_limits"] or rng.random() < .4:
        ls = Watch(rng.choice((1., .5)))
    elif rng.random() < .5:
        ls = pk.BacktrackingLineSearch(max_lr=rng.choice((1., 2.)), decrease_factor=rng.choice((.5, .2)), max_iterations=rng.choice((1, 3, 5)),
                                       sufficient_decrease=rng.choice((0., .01, .2)))
    else:
        ls = None
    solver = cls(r.chain, line_search=ls, **begin, **kw)
    init = solver.initial_config
    if tuple(init.shape) != tuple(starts.shape) or init.dtype != dt:
        raise Mismatch("sampling", "%s %s instead of %s" % (tuple(init.shape), init.dtype, tuple(starts.shape)))
    if "joint_limits" in begin and not bool(((init >= b[:, 0] - 1e-6) & (init <= b[:, 1] + 1e-6)).all()):
        raise Mismatch("sampling", "initial configurations %s outside of %s" % (init, b))
    given = init.reshape(-1, n) if not ev["share"] else init.repeat(P, 1)
    before = starts.clone(), target.get_matrix().clone(), init.clone()
    sol = solver.solve(target)
    what = "%s on %d joints with %s, %s, %s" % (cls.__name__, n, kw, type(ls).__name__, r.dt)
    seen = ls.seen if isinstance(ls, Watch) else None
    truth(w, r, cols, sol, goal, P, R, kw, what, mat, seen)
    S = sol.solutions.detach().double().numpy()
    on = kw["enforce_joint_limits"]
    if on:
        within(S, low, high, what)
        w.tick("ik_enforced")
    if seen is not None:
        if seen and not torch.equal(seen[0][0], given):
            raise Mismatch("start", "%s: starts from %s instead of %s" % (what, seen[0][0], given))
        if kw["clamp_to_limits"]:
            for i in range(1, len(seen)):
                within(seen[i][0].double().numpy().reshape(P, R, n), low, high, what + ", iteration %d" % i)
            if kw["max_iterations"] and not on and not (sol.converged & torch.tensor(True)).any():
                within(S, low, high, what + ", last iteration")
            w.tick("ik_clamped")
    if isinstance(ls, Watch):
        ls.seen = []
    parts = [sol.solutions, sol.err_pos, sol.err_rot, sol.converged, sol.converged_any]
    first = [x.clone() for x in parts]
    relation(w, r, cls, begin, kw, init, ls, target, sol, S, low, high, P, R, n, cols, what, rng)
    if rng.random() < .4:
        # the same solver again, with something else in between
        if rng.random() < .5:
            solver.solve(tf.Transform3d(matrix=torch.eye(4, dtype=dt).repeat(P, 1, 1), dtype=dt))
        two = solver.solve(target)
        for a, b in zip(first, (two.solutions, two.err_pos, two.err_rot, two.converged, two.converged_any)):
            if a.shape != b.shape or not torch.equal(torch.nan_to_num(a.double()), torch.nan_to_num(b.double())):
                raise Mismatch("again", "%s: the solver answers %s, and later %s" % (what, a, b))
        w.tick("ik_again")
    for a, b in zip(parts, first):
        if not torch.equal(torch.nan_to_num(a.double()), torch.nan_to_num(b.double())):
            raise Mismatch("stale", "%s: the solution was %s and is now %s" % (what, b, a))
    if not all(torch.equal(a, b) for a, b in zip(before, (starts, target.get_matrix(), init))):
        raise Mismatch("mutation", "%s: solving changed the target or the configurations it was given" % what)
    for x in parts[:3]:
        w.keep(x)
    w.tick("ik_solves")
    w.tick("ik_retries_converged", int(sol.converged.sum()))
    w.tick("ik_retries_failed", int((~sol.converged).sum()))
    return [sol.solutions]


def within(S, low, high, what):
    if not np.all(np.isfinite(S)):
        raise Mismatch("limits", "%s: values %s" % (what, S))
    if not (np.all(S >= low - 1e-6 * (1 + np.abs(np.nan_to_num(low, posinf=0, neginf=0)))) and np.all(S <= high + 1e-6 * (1 + np.abs(np.nan_to_num(high, posinf=0, neginf=0))))):
        raise Mismatch("limits", "%s: values %s outside of %s, %s" % (what, S, low, high))


def truth(w, r, cols, sol, goal, P, R, kw, what, mat, seen):
    n = len(cols)
    for x, shape in ((sol.solutions, (P, R, n)), (sol.err_pos, (P, R)), (sol.err_rot, (P, R)), (sol.converged, (P, R)), (sol.converged_pos, (P, R)),
                     (sol.converged_rot, (P, R)), (sol.converged_any, (P,)), (sol.converged_pos_any, (P,)), (sol.converged_rot_any, (P,))):
        if tuple(x.shape) != shape:
            raise Mismatch("shape", "%s: %s instead of %s" % (what, tuple(x.shape), shape))
    if sol.solutions.dtype != DT[r.dt]:
        raise Mismatch("dtype", "%s: %s" % (what, sol.solutions.dtype))
    if sol.iterations > kw["max_iterations"] or (seen is not None and len(seen) != sol.iterations):
        raise Mismatch("iterations", "%s: %d reported" % (what, sol.iterations))
    S = sol.solutions.detach().double().numpy()
    for name, e, tol in (("pos", sol.err_pos, kw["pos_tolerance"]), ("rot", sol.err_rot, kw["rot_tolerance"])):
        if not torch.equal(getattr(sol, "converged_" + name), e < tol):
            raise Mismatch("converged", "%s: converged_%s %s for errors %s" % (what, name, getattr(sol, "converged_" + name), e))
    if not torch.equal(sol.converged, sol.converged_pos & sol.converged_rot):
        raise Mismatch("converged", "%s: %s" % (what, sol.converged))
    for a, b in ((sol.converged_any, sol.converged), (sol.converged_pos_any, sol.converged_pos), (sol.converged_rot_any, sol.converged_rot)):
        if not torch.equal(a, b.any(dim=1)):
            raise Mismatch("converged", "%s: any %s of %s" % (what, a, b))
    e = eps_of(r)
    for p in range(P):
        for k in range(R):
            m = end_pose(w, r, cols, S[p, k], mat)
            ep = np.linalg.norm(goal[p, :3, 3] - m[:3, 3])
            er = angle(goal[p, :3, :3] @ m[:3, :3].T)
            scale = 1 + np.max(np.abs(m)) + np.max(np.abs(goal[p])) + np.max(np.abs(S[p, k]))
            gp, gr = float(sol.err_pos[p, k]), float(sol.err_rot[p, k])
            tol = 20 * e * scale
            if not (abs(gp - ep) <= tol * scale and abs(gr - er) <= tol + (1e-3 if f_half(er) else 0)):
                raise Mismatch("error", "%s: problem %d, retry %d reports errors %g, %g; they are %g, %g" % (what, p, k, gp, gr, ep, er))


def f_half(a):
    return a > 3.14


def relation(w, r, cls, begin, kw, init, ls, target, sol, S, low, high, P, R, n, cols, what, rng):
    """relations between solves"""
    e = eps_of(r)
    kind = rng.randrange(4)
    redo = dict(kw)
    if kind == 0:
        # with and without enforcement
        redo.update(num_limit_refinement_iterations=0)
        off = cls(r.chain, retry_configs=init, line_search=ls, **dict(redo, enforce_joint_limits=False)).solve(target).solutions.double().numpy()
        on = cls(r.chain, retry_configs=init, line_search=ls, **dict(redo, enforce_joint_limits=True)).solve(target).solutions.double().numpy()
        within(on, low, high, what)
        if not kw["enforce_joint_limits"] and not np.array_equal(off, S):
            raise Mismatch("again", "%s: %s, then %s" % (what, S, off))
        for p in range(P):
            for k in range(R):
                for j, i in enumerate(cols):
                    a, b, lo, hi = off[p, k, j], on[p, k, j], low[j], high[j]
                    tol = (1e-5 if r.dt == "f32" else 1e-12) * (1 + abs(a))
                    same = abs(b - a) <= tol
                    if w.frames[i]["jt"] != "R":
                        ok = abs(b - min(max(a, lo), hi)) <= tol
                    else:
                        turns = abs((b - a) / (2 * math.pi) - round((b - a) / (2 * math.pi))) * 2 * math.pi <= tol
                        if math.isinf(lo) and math.isinf(hi):
                            ok = turns
                        elif math.isinf(lo) or math.isinf(hi):
                            ok = turns or not lo <= a <= hi
                        else:
                            reach = math.floor((hi - tol - a) / (2 * math.pi)) >= math.ceil((lo + tol - a) / (2 * math.pi))
                            ok = turns or not reach
                    if not ok:
                        raise Mismatch("enforced", "%s: problem %d, retry %d: joint %d in [%g, %g] is %g without and %g with limits" % (what, p, k, j, lo, hi, a, b))
                    if not same:
                        w.tick("ik_values_moved")
        w.tick("ik_on_off")
    elif kind == 1 and r.pr == "f64":
        # every problem alone
        redo.update(early_stopping_any_converged=False, early_stopping_no_improvement=None, regularlization=.05, max_iterations=rng.choice((1, 2, 3)),
                    num_limit_refinement_iterations=2)
        ls2 = None if ls is None else Watch(.5)
        all_ = cls(r.chain, retry_configs=init, line_search=ls2, **redo).solve(target)
        m = target.get_matrix()
        for p in range(P):
            one = cls(r.chain, retry_configs=init if init.dim() == 2 else init[p], line_search=ls2, **redo).solve(tf.Transform3d(matrix=m[p:p + 1], dtype=m.dtype))
            if near_half(all_.err_rot[p]) or near_half(one.err_rot):
                continue
            if not np.allclose(one.solutions[0].numpy(), all_.solutions[p].numpy(), rtol=0, atol=1e-6 * (1 + float(one.solutions.abs().max()))):
                raise Mismatch("together", "%s: problem %d alone gives %s, with others %s" % (what, p, one.solutions[0], all_.solutions[p]))
            w.tick("ik_alone")
    elif kind == 2 and ls is None and r.pr == "f64":
        # a line search that always answers the learning rate is the plain solver
        redo.update(regularlization=.05, max_iterations=rng.choice((1, 2, 3)))
        a = cls(r.chain, retry_configs=init, **redo).solve(target)
        b = cls(r.chain, retry_configs=init, line_search=Watch(float(kw["lr"])), **redo).solve(target)
        if a.iterations != b.iterations or not torch.allclose(a.solutions, b.solutions, rtol=0, atol=1e-9):
            raise Mismatch("learning rate", "%s: %s and %s" % (what, a.solutions, b.solutions))
        w.tick("ik_same_rate")
    elif kind == 3 and r.pr == "f64" and n and np.any(np.isfinite(low) | np.isfinite(high)):
        # refining within the limits is taking clamped steps from the enforced solution
        k = rng.choice((1, 1, 2, 3))
        redo.update(early_stopping_any_converged=False, early_stopping_no_improvement=None, regularlization=.05, pos_tolerance=1e-30, rot_tolerance=1e-30,
                    max_iterations=rng.choice((0, 1, 2)), lr=rng.choice((1., .5, .25)))
        start = None if ls is None else Watch(.5)
        args = dict(retry_configs=init, line_search=start)
        off, q, got = [cls(r.chain, **args, **dict(redo, enforce_joint_limits=e, num_limit_refinement_iterations=m)).solve(target)
                       for e, m in ((False, 0), (True, 0), (True, k))]
        step = dict(redo, max_iterations=1, enforce_joint_limits=False, clamp_to_limits=True)
        zero, bad = q.solutions, near_half(off.err_rot)
        for _ in range(k):
            bad = bad or near_half(q.err_rot)
            q = cls(r.chain, retry_configs=q.solutions, **step).solve(target)
        if bad:
            return
        a, b, c = [x.reshape(P * R, n).double().numpy() for x in (got.solutions, q.solutions, zero)]
        inside = (off.solutions == zero).all(dim=-1).reshape(-1)
        for row in range(P * R):
            tol = 1e-7 * (1 + np.max(np.abs(b[row])))
            if not (np.allclose(a[row], b[row], rtol=0, atol=tol) or inside[row] and np.allclose(a[row], c[row], rtol=0, atol=tol)):
                raise Mismatch("refined", "%s: %d refinements of %s at rate %g give %s, as many clamped steps %s" % (what, k, c[row], redo["lr"], a[row], b[row]))
        w.tick("ik_refined", k)


def near_half(err):
    return bool((err > 3.1).any())
