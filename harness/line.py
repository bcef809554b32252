"""Calls the backtracking line search with the profiles of LineSys."""
import math, random
import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import frame as pkf
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc
from base import Mismatch
from ikrun import rand_pose, unit, rot

UNIT = .01   # of an error in a script
S = 4096


def replay(beh, seed, opts):
    rng = random.Random(seed)
    dt = rng.choice((torch.float32, torch.float64))
    o = beh["opt"]
    P, R, n, f = o["p"], o["r"], o["n"], o["f"]
    NM = P * R
    m = o["m"] / 2
    on_line = o["kind"] == "line"
    u = UNIT if not on_line else 1 / S / 64
    goals = np.array([rand_pose(rng) for _ in range(P)])
    calls = []
    if on_line:
        fk_fn, chain, q, dq, dx, index = joint(rng, beh, goals, dt, calls)
    else:
        fk_fn, chain, q, dq, dx, index = script(rng, beh, goals, dt, calls)
    target_pos = torch.tensor(goals[:, :3, 3], dtype=dt)
    target_wxyz = rc.matrix_to_quaternion(torch.tensor(goals[:, :3, :3], dtype=dt))
    rem = torch.tensor(o["rem"])
    kw = {}
    if not (o["none"] and rng.random() < .7):
        kw["problem_remaining"] = rem
    if fk_fn is not None:
        kw.update(fk_fn=fk_fn, eef_frame_idx=index)
    search = pk.BacktrackingLineSearch(max_lr=m, decrease_factor=1 / f, max_iterations=n, sufficient_decrease=(o["d"] + .5) * u)
    args = (q, dq, target_pos, target_wxyz, dx)
    before = [x.clone() for x in args + (rem,)]
    count = {"searches": 1, "kind_" + o["kind"]: 1}
    for again in range(2):
        del calls[:]
        lr, improvement = search.do_line_search(chain, *args, **kw)
        if not all(torch.equal(a, b) for a, b in zip(before, args + (rem,))):
            raise Mismatch("mutation", "the line search changed its arguments")
        if tuple(lr.shape) != (NM,):
            raise Mismatch("shape", "step sizes %s for %d attempts" % (tuple(lr.shape), NM))
        if len(calls) > n:
            raise Mismatch("evaluations", "%d instead of at most %d" % (len(calls), n))
        for a in range(NM):
            c = beh["chosen"][a]
            if c < 0:
                continue
            want = m / f ** c
            if not abs(float(lr[a]) - want) < (1e-6 if dt == torch.float32 else 1e-13) * m:
                raise Mismatch("step size", "attempt %d of problem %d (of %d, %d): %g instead of %g; error %g, then %s, required %g" % (
                    a % R, a // R, R, P, float(lr[a]), want, beh["base"][a] * u, [x * u for x in beh["prof"][a]], (o["d"] + .5) * u))
            count["reduced_%d" % c] = count.get("reduced_%d" % c, 0) + 1
        if n and not any(c >= 0 for c in beh["chosen"]):
            count["nothing_considered"] = count.get("nothing_considered", 0) + 1
    return count


def away(goal, e, rng):
    """a pose whose error to the goal has norm e"""
    p, r = rng.choice(((1, 0), (0, 1), (.6, .8)))
    x = np.eye(4)
    x[:3, :3] = rot(unit(rng), -r * e) @ goal[:3, :3]
    x[:3, 3] = goal[:3, 3] + p * e * unit(rng)
    return x


def script(rng, beh, goals, dt, calls):
    """forward kinematics that knows which attempt and which step size it is asked about"""
    o = beh["opt"]
    NM, n, f = o["p"] * o["r"], o["n"], o["f"]
    col = rng.randrange(2)
    q = torch.zeros(NM, 2, dtype=dt)
    q[:, col] = torch.arange(NM) + 1
    dq = torch.zeros(NM, 2, dtype=dt)
    dq[:, 1 - col] = torch.tensor([rng.choice((1., 3., -2.)) for _ in range(NM)])
    frames, index = 3, rng.randrange(3)
    m = o["m"] / 2

    def fk(qn):
        calls.append(1)
        out = torch.eye(4, dtype=dt).repeat(frames, qn.shape[0], 1, 1)
        out[..., 0, 3] = 77.
        for i, row in enumerate(qn.tolist()):
            a = round(row[col]) - 1
            lr = row[1 - col] / float(dq[a, 1 - col])
            k = round(math.log(m / lr, f))
            if not (0 <= k <= n and abs(lr - m / f ** k) < (1e-5 if dt == torch.float32 else 1e-12)):
                raise Mismatch("step size", "tries %g, starting from %g with factor 1/%d" % (lr, m, f))
            out[index, i] = torch.tensor(away(goals[a // o["r"]], beh["prof"][a][k] * UNIT, rng), dtype=dt)
        return out

    class Chain:
        def forward_kinematics(self, qn, **kw):
            return tf.Transform3d(matrix=fk(qn)[index], dtype=dt)
    dx = torch.zeros(NM, 6, 1, dtype=dt)
    for a in range(NM):
        v = np.array([rng.gauss(0, 1) for _ in range(6)])
        dx[a, :, 0] = torch.tensor(v / np.linalg.norm(v) * beh["base"][a] * UNIT)
    if rng.random() < .5:
        return fk, None, q, dq, dx, index
    return None, Chain(), q, dq, dx, index


def joint(rng, beh, goals, dt, calls):
    """a real chain with one joint, whose attempts lie on a line through (or turn about) the goal"""
    o = beh["opt"]
    NM = o["p"] * o["r"]
    kind = rng.choice("PR")
    ax = unit(rng)
    off = rand_pose(rng)
    # the values reaching the goals
    t = [rng.uniform(-.3, .3) for _ in range(o["p"])]
    for p in range(o["p"]):
        mv = np.eye(4)
        if kind == "P":
            mv[:3, 3] = ax * t[p]
        else:
            mv[:3, :3] = rot(ax, t[p])
        goals[p] = off @ mv
    T = tf.Transform3d(matrix=torch.tensor(off, dtype=dt), dtype=dt)
    b = pkf.Frame("base", link=pkf.Link("base"), joint=pkf.Joint(None, joint_type="fixed", dtype=dt))
    e = pkf.Frame("end", link=pkf.Link("end"), joint=pkf.Joint("j", offset=T, joint_type={"P": "prismatic", "R": "revolute"}[kind],
                                                              axis=torch.tensor(ax, dtype=dt), dtype=dt))
    b.add_child(e)
    chain = pk.SerialChain(pk.chain.Chain(b, dtype=dt), "end")
    # distances are in 64ths
    q = torch.tensor([[t[a // o["r"]] - beh["line"][a][0] / 64] for a in range(NM)], dtype=dt)
    dq = torch.tensor([[beh["line"][a][1] / 64] for a in range(NM)], dtype=dt)
    dx = torch.zeros(NM, 6, 1, dtype=dt)
    for a in range(NM):
        v = off[:3, :3] @ ax * beh["line"][a][0] / 64
        dx[a, (0 if kind == "P" else 3):(3 if kind == "P" else 6), 0] = torch.tensor(v)
    if rng.random() < .6:
        def fk(qn):
            calls.append(1)
            return chain.forward_kinematics_tensor(qn)
        return fk, chain, q, dq, dx, chain.frame_to_idx["end"]
    return None, chain, q, dq, dx, None
