"""Compares single solver steps with the exact ones of DlsSys."""
import math, random
import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import frame as pkf
import pytorch_kinematics.transforms as tf
from base import Mismatch
from iksolve import CLASSES, Watch


def replay(beh, seed, opts):
    rng = random.Random(seed)
    dt = rng.choice((torch.float32, torch.float64))
    n, o = beh["n"], beh["opt"]

    def T(t):
        return tf.Transform3d(pos=torch.tensor([float(x) for x in t], dtype=dt), dtype=dt)
    frames = [pkf.Frame("base", link=pkf.Link("base"), joint=pkf.Joint(None, joint_type="fixed", dtype=dt))]
    for i, (jt, ax, off) in enumerate(beh["joints"]):
        frames.append(pkf.Frame("f%d" % i, link=pkf.Link("f%d" % i), joint=pkf.Joint(
            "j%d" % i, offset=T(off), joint_type={"P": "prismatic", "R": "revolute"}[jt], axis=torch.tensor([float(x) for x in ax], dtype=dt), dtype=dt)))
    frames.append(pkf.Frame("tool", link=pkf.Link("tool"), joint=pkf.Joint("t", offset=T(beh["tool"]), joint_type="fixed", dtype=dt)))
    for a, b in zip(frames, frames[1:]):
        a.add_child(b)
    chain = pk.SerialChain(pk.chain.Chain(frames[0], dtype=dt), "tool")
    starts = torch.tensor([[2 * math.atan2(v[1], v[0]) + 2 * math.pi * v[2] if jt == "R" else v[0] / v[1] for v, (jt, _, _) in zip(s, beh["joints"])]
                           for s in beh["starts"]], dtype=dt)
    P, R = len(beh["targets"]), len(starts)
    m = np.tile(np.eye(4), (P, 1, 1))
    for p, t in enumerate(beh["targets"]):
        m[p, :3, :3] = np.array(t[:9]).reshape(3, 3) / t[12]
        m[p, :3, 3] = np.array(t[9:12]) / t[12]
    target = tf.Transform3d(matrix=torch.tensor(m, dtype=dt), dtype=dt)
    kw = dict(regularlization=o["l"] / 4, lm_damping=o["m"] / 4, position_weight=o["wp"], orientation_weight=o["wr"],
              max_iterations=1, enforce_joint_limits=False, pos_tolerance=1e-30, rot_tolerance=1e-30)
    count = {"arms": 1, "dof_%d" % n: 1}
    for cls in set(CLASSES):
        watch = Watch(rng.choice((1., .5, 2.)))
        sol = cls(chain, retry_configs=starts, line_search=watch, **kw).solve(target)
        lr = rng.choice((1., .5, 1, 2))
        plain = cls(chain, retry_configs=starts, lr=lr, **kw).solve(target)
        q, dq, dx, _ = [x.double().reshape(P, R, -1).numpy() for x in watch.seen[0][:3]] + [None]
        tol = 3e-5 if dt == torch.float32 else 1e-10
        for p in range(P):
            for r in range(R):
                w = beh["out"][p][r]
                if w == []:
                    continue
                want = (np.array(w[0]) + math.pi / 2 * np.array(w[1])) / w[2]
                err = np.array(w[3]) + math.pi / 2 * np.array(w[4])
                where = "%s, %s, problem %d, retry %d" % (cls.__name__, dt, p, r)
                size = 1 + np.max(np.abs(want))
                if not np.allclose(dx[p, r], err, rtol=0, atol=tol):
                    raise Mismatch("pose error", "%s: %s instead of %s" % (where, dx[p, r], err))
                if not np.allclose(dq[p, r], want, rtol=0, atol=30 * tol * size):
                    raise Mismatch("step", "%s: %s instead of %s" % (where, dq[p, r], want))
                for s, rate in ((sol, watch.lrs), (plain, lr)):
                    if not np.allclose(s.solutions[p, r].double().numpy(), q[p, r] + rate * want, rtol=0, atol=30 * tol * (size + np.max(np.abs(q)))):
                        raise Mismatch("step", "%s: goes to %s instead of %s" % (where, s.solutions[p, r], q[p, r] + rate * want))
                count["steps"] = count.get("steps", 0) + 1
                if w[4] != [0] * 6:
                    count["turning"] = count.get("turning", 0) + 1
    return count
