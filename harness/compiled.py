"""Replays behaviours of ChainSys and RotSys into functions compiled by torch.compile."""
import functools, os
os.environ.setdefault("TORCHINDUCTOR_COMPILE_THREADS", "1")
import torch
import torch._dynamo
import torch._functorch.config
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import rotation_conversions as rc
import chains, iksolve, rotations
from base import Mismatch

torch._dynamo.config.recompile_limit = 200
torch._dynamo.config.accumulated_recompile_limit = 2000
torch._functorch.config.donated_buffer = False   # the replays keep graphs for a second backward pass
REAL = torch.compile


class Solver(pk.PseudoInverseIK):
    def __init__(self, *a, **kw):
        super().__init__(*a, use_compile=True, **kw)


class SolverWithSVD(pk.ik.PseudoInverseIKWithSVD):
    def __init__(self, *a, **kw):
        super().__init__(*a, use_compile=True, **kw)


def forget():
    torch._dynamo.reset()


class Robot(chains.Robot):
    """The tensor functions of the chain are compiled once, then used all along."""

    def __init__(self, *a):
        super().__init__(*a)
        kw = dict(fullgraph=True, backend=OPTS["backend"])
        if OPTS["rng"].random() < .4:
            kw["dynamic"] = True
        if OPTS["rng"].random() < .35:
            self.fkt = self.larger(self.fkt, kw)
        else:
            self.fkt = REAL(self.fkt, **kw)
        if self.jact is not None:
            self.jact = REAL(self.jact, **kw)


    def larger(self, fk, kw):
        """forward kinematics and conversions compiled as one function"""
        def task(th, **k):
            m = fk(th, **k)
            R = m[..., :3, :3]
            return m, rc.matrix_to_quaternion(R), rc.matrix_to_rotation_6d(R)
        compiled = REAL(task, **kw)

        def call(th, **k):
            m, q, d = compiled(th, **k)
            if q.dtype != m.dtype or q.shape != m.shape[:-2] + (4,) or not torch.equal(d, m[..., :2, :3].reshape(d.shape)):
                raise Mismatch("compiled", "6D or quaternions %s of poses %s" % (tuple(q.shape), tuple(m.shape)))
            R = m[..., :3, :3]
            off = (rc.quaternion_to_matrix(q) - R).abs().max() if m.numel() else 0
            # chains of lower precision before have poses that are not quite orthogonal
            skew = (R @ R.transpose(-1, -2) - torch.eye(3, dtype=m.dtype)).abs().max() if m.numel() else 0
            if not off < 10 * skew + (1e-9 if m.dtype == torch.float64 else 1e-3) or skew > 1e-4:
                raise Mismatch("compiled", "the quaternions of poses are off by %s" % off)
            return m
        return call


OPTS = {}


class World(chains.World):
    def __init__(self, seed, opts):
        super().__init__(seed, opts)
        OPTS.update(opts, rng=self.rng)

    def pass_as(self, r, form, th, cols, rng):
        """only batches of tensors"""
        if form not in ("t2", "t2_strided", "t2_f", "t2_expand", "t2_grad"):
            form = "t2"
        return super().pass_as(r, form, th, cols, rng)

    def fk(self, ev, rng):
        return super().fk(dict(ev, sub=2), rng)

    def grad(self, ev, rng):
        return super().grad(dict(ev, mode=1 + ev["mode"] % 2), rng)

    def jac(self, ev, rng):
        ev = dict(ev, call=ev["call"] // 3 * 3)
        if any(t != [] for t in ev["tools"]):
            return []
        return super().jac(ev, rng)

    def jacgrad(self, ev, rng):
        if any(t != [] for t in ev["tools"]):
            return []
        c = ev["call"]
        return super().jacgrad(dict(ev, call=c if c % 4 < 2 else c - 2), rng)


def chain(beh, seed, opts):
    saved = chains.World, chains.Robot, iksolve.CLASSES
    chains.World, chains.Robot, iksolve.CLASSES = World, Robot, (Solver, Solver, SolverWithSVD)
    torch.compile = functools.partial(REAL, backend=opts["backend"])
    forget()
    try:
        return chains.replay(beh, seed, opts)
    finally:
        chains.World, chains.Robot, iksolve.CLASSES = saved
        torch.compile = REAL
        forget()


class Rotations(rotations.World):
    """Conversions are compiled once for the process."""
    compiled = {}

    def call(self, fn, *args, **kw):
        # not promised: the function that warns of its deprecation, axes given as a tuple
        if fn is rotations.rc.axis_angle_to_matrix or any(isinstance(a, tuple) for a in list(args) + list(kw.values())):
            return super().call(fn, *args, **kw)
        if fn not in self.compiled:
            self.compiled[fn] = REAL(fn, fullgraph=True, backend=OPTS["backend"])
        self.tick("compiled_calls")
        return super().call(self.compiled[fn], *args, **kw)


def rotation(beh, seed, opts):
    OPTS.update(opts)
    saved = rotations.World
    rotations.World = Rotations
    try:
        return rotations.replay(beh, seed, opts)
    finally:
        rotations.World = saved
