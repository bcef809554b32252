"""Records runs of the real solver; IkTrace judges them."""
import json, math, multiprocessing, os, random, tempfile
import numpy as np
import torch
import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
import tlc
from ikrun import Arm, rand_pose
from iksolve import CLASSES, angle
from base import _init_worker


class Observer(pk.ik.LineSearch):
    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def do_line_search(self, chain, q, dq, *args, problem_remaining=None, **kw):
        lr, imp = self.inner.do_line_search(chain, q, dq, *args, problem_remaining=problem_remaining, **kw) if not isinstance(self.inner, float) \
            else (torch.full((q.shape[0],), self.inner, dtype=q.dtype), None)
        self.seen.append((q.clone(), problem_remaining.clone(), q + lr.unsqueeze(1) * dq))
        return lr, imp


def record(seed):
    rng = random.Random(seed)
    dt = torch.float64
    arm = Arm(rng, "".join(rng.choice("RRRP") for _ in range(rng.randrange(1, 8))), dt)
    n = len(arm.kinds)
    P, R = rng.randrange(1, 5), rng.randrange(1, 6)
    goal = np.array([arm.fk([rng.uniform(-2, 2) for _ in range(n)]) if rng.random() < .7 else rand_pose(rng) for _ in range(P)])
    starts = torch.tensor([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(R)], dtype=dt)
    pt, rt = rng.choice(((1e-3, 1e-2), (.05, .1), (.3, .5), (1e-6, 1e-6)))
    rule = rng.choice((("none",), ("all",), ("any",), ("any",), ("ratio", 1, 2), ("ratio", 1, 4), ("ratio", 3, 4)))
    opt = dict(any=rng.random() < .5, rule=list(rule), patience=rng.choice((0, 1, 2, 3)), max=rng.choice((1, 3, 8, 15, 30)), np=P, nr=R)
    obs = Observer(pk.BacktrackingLineSearch(max_lr=rng.choice((1., 1.5))) if rng.random() < .5 else rng.choice((1., .6, 1.9)))
    value = {"none": None, "all": "all", "any": "any"}[rule[0]] if rule[0] != "ratio" else rule[1] / rule[2]
    sol = rng.choice(CLASSES)(arm.chain, retry_configs=starts, line_search=obs, pos_tolerance=pt, rot_tolerance=rt, max_iterations=opt["max"],
                              early_stopping_any_converged=opt["any"], early_stopping_no_improvement=value, early_stopping_no_improvement_patience=opt["patience"],
                              enforce_joint_limits=False, lm_damping=rng.choice((0., .1)), regularlization=rng.choice((1e-6, 1e-3, .05))
                              ).solve(tf.Transform3d(matrix=torch.tensor(goal, dtype=dt), dtype=dt))
    qs = [x[0] for x in obs.seen] + [obs.seen[-1][2]]
    qs = [q.reshape(P, R, n).numpy() for q in qs]
    err = np.zeros((len(qs), P, R, 3))
    for i, q in enumerate(qs):
        for p in range(P):
            for r in range(R):
                m = arm.fk(q[p, r])
                a, b = np.linalg.norm(goal[p, :3, 3] - m[:3, 3]), angle(goal[p, :3, :3] @ m[:3, :3].T)
                err[i, p, r] = a, b, math.hypot(a, b)
    # up to where is it clear what happens?
    clear = len(qs)
    for i in range(len(qs)):
        e = err[i, :, :, 2]
        best = err[:i, :, :, 2].min(axis=0) if i else np.full((P, R), np.inf)
        if np.any(np.abs(err[i, :, :, 0] - pt) < 1e-7) or np.any(np.abs(err[i, :, :, 1] - rt) < 1e-7) or np.any(err[i, :, :, 1] > 3.1415) \
                or np.any(np.abs(e - best) < 1e-4 * e + 1e-9) or np.any(e > 1e5):
            clear = i
            break
    full = clear == len(qs)
    ranks = {x: k for k, x in enumerate(sorted(set(err[:, :, :, 2].reshape(-1).tolist())))}
    out = [[[dict(pos=bool(err[i, p, r, 0] < pt), rot=bool(err[i, p, r, 1] < rt), e=ranks[float(err[i, p, r, 2])]) for r in range(R)] for p in range(P)]
           for i in range(len(qs))]
    S = sol.solutions.numpy()
    kept = [[dict(m=[i for i in range(len(qs)) if np.allclose(qs[i][p, r], S[p, r], rtol=1e-7, atol=1e-9)], c=bool(sol.converged[p, r]),
                  pos=bool(sol.converged_pos[p, r]), rot=bool(sol.converged_rot[p, r])) for r in range(R)] for p in range(P)]
    return dict(opt=opt, obs=out, rems=[x[1].tolist() for x in obs.seen], upto=len(qs) - 1 if full else clear, full=full, iters=int(sol.iterations),
                rem=sol.remaining.tolist(), sol=kept)


def _record(seed):
    try:
        return record(seed), None
    except Exception as e:
        import traceback
        return None, "".join(traceback.format_exception(e))[-2000:]


def check(c, runs):
    """record runs and let TLC judge them"""
    import time
    t = time.time()
    with multiprocessing.get_context("fork").Pool(8, initializer=_init_worker) as pool:
        got = pool.map(_record, [c.seed * 1000003 + k for k in range(runs)], chunksize=8)
    for k, (r, e) in enumerate(got):
        if r is None:
            c.finding("the solver failed: %s" % e, {"seed": c.seed * 1000003 + k})
    recs = [r for r, _ in got if r is not None]
    with tempfile.TemporaryDirectory(prefix="iktrace_") as d:
        path = os.path.join(d, "runs.json")
        with open(path, "w") as f:
            json.dump(recs, f)
        st, lines = tlc.run("IkTrace", {"File": path}, ["TypeOK"])
    c._count(st)
    verdicts = [tlc.decode(x) for x in lines]
    if len(verdicts) != len(recs):
        raise tlc.SpecError("%d verdicts on %d runs" % (len(verdicts), len(recs)))
    for v in verdicts:
        if v["verdict"] != "ok":
            c.finding("recorded run: the solver %s at iteration %d" % (v["verdict"], v["at"]), {"run": recs[v["run"] - 1], "verdict": v})
        else:
            c.traces += 1
    c.runs.append({"recorded_runs_validated": len(recs), "complete": sum(r["full"] for r in recs), "iterations": sum(r["upto"] for r in recs),
                   "wall_s": round(time.time() - t, 1)})
