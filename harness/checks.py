"""One function per property."""
import chains

KINDS = dict(StaticBudget=20, MotionBudget=25, RootJoint=True, LinkOffsets=True, Straight=False, MaxCfgs=3, FewForms=True, Format="api")


def chain_run(c, exh_mix, exh, gen_mix, behaviours, gen, invariants=("Safety",), exh_kw=None):
    k = dict(KINDS)
    k.update(MinFrames=1, OpMix=exh_mix)
    k.update(exh)
    c.explore("ChainSys", k, invariants, ["Frozen"])
    k = dict(KINDS)
    k.update(MinFrames=1, OpMix=gen_mix)
    k.update(gen)
    lines = c.generate("ChainSys", k, behaviours)
    c.replay(chains.replay, lines)


def large(c, mix, ops=3):
    """Robots with a hundred frames, and long ones without branches."""
    for straight, frames in ((True, (20, 70)), (False, (40, 150))):
        k = dict(KINDS, Straight=straight, MinFrames=frames[0], MaxFrames=frames[1], NumOps=ops, OpMix=mix, FewForms=False)
        c.replay(chains.replay, c.generate("ChainSys", k, 40 if c.quick else 800), name="long robots" if straight else "large robots")


def C01(c):
    chain_run(c, ["fk"], dict(MaxFrames=2, NumOps=2),
              ["fk", "fk", "frame"], 1200 if c.quick else 12000, dict(MaxFrames=12 if c.quick else 24, NumOps=4))
    large(c, ["fk", "fk", "frame"])


def C02(c):
    chain_run(c, ["fk", "extract"], dict(MaxFrames=2, NumOps=2),
              ["fk", "fk", "fk", "bad", "extract"], 1000 if c.quick else 12000, dict(MaxFrames=9, NumOps=8, FewForms=False))
    large(c, ["fk", "fk", "fk", "bad", "extract"], 4)


def C03(c):
    chain_run(c, ["struct", "extract"], dict(MaxFrames=3 if not c.quick else 3, NumOps=1 if c.quick else 2),
              ["struct", "struct", "fk", "extract", "limits", "clamp"], 1000 if c.quick else 10000, dict(MaxFrames=12, NumOps=6))
    large(c, ["struct", "fk", "extract", "limits", "clamp"])


def C04(c):
    chain_run(c, ["extract", "fk"], dict(MaxFrames=2 if c.quick else 3, NumOps=2),
              ["extract", "extract", "extract", "fk", "fk", "struct", "bad", "again", "jac"], 900 if c.quick else 10000, dict(MaxFrames=11, MinFrames=2, NumOps=9))
    large(c, ["extract", "extract", "fk", "struct"], 5)


def C05(c):
    chain_run(c, ["extract", "jac"], dict(MaxFrames=2 if c.quick else 3, NumOps=2),
              ["extract", "jac", "jac", "jac", "jac"], 900 if c.quick else 10000, dict(MaxFrames=10, MinFrames=2, NumOps=6))
    large(c, ["extract", "jac", "jac"], 4)


def C06(c):
    chain_run(c, ["extract", "grad"], dict(MaxFrames=2 if c.quick else 3, NumOps=2),
              ["grad", "grad", "grad", "grad", "extract"], 900 if c.quick else 10000, dict(MaxFrames=10, NumOps=4))
    large(c, ["grad", "grad", "extract"], 3)


def C07(c):
    chain_run(c, ["extract", "to", "fk"], dict(MaxFrames=2, NumOps=3 if not c.quick else 2),
              ["to", "to", "to", "extract", "fk", "jac", "grad", "limits", "clamp", "frame", "struct"], 1000 if c.quick else 10000,
              dict(MaxFrames=8, MinFrames=2, NumOps=9))
    large(c, ["to", "to", "extract", "fk", "jac", "grad"], 6)


def C08(c):
    chain_run(c, ["limits", "clamp", "extract"], dict(MaxFrames=2, NumOps=2),
              ["limits", "clamp", "clamp", "clamp", "extract", "to"], 1200 if c.quick else 12000,
              dict(MaxFrames=10, NumOps=7, FewForms=False))
    large(c, ["limits", "clamp", "clamp", "extract"], 4)


def C14(c):
    chain_run(c, ["extract", "to", "fk", "jac"], dict(MaxFrames=2, NumOps=2),
              ["fk", "fk", "again", "again", "extract", "extract", "jac", "jac", "grad", "clamp", "limits", "to", "frame", "struct", "bad", "iksolve"],
              800 if c.quick else 8000, dict(MaxFrames=8, MinFrames=2, NumOps=14, FewForms=False))


def C12(c):
    import transforms
    c.explore("TransformSys", dict(NumOps=3, Big=20), ["Safety"], ["Frozen"])
    lines = c.generate("TransformSys", dict(NumOps=16 if c.quick else 24, Big=150), 1000 if c.quick else 12000)
    c.replay(transforms.replay, lines)


def C13(c):
    import rotations
    c.explore("RotSys", dict(NumOps=4, MaxBatch=1), ["Safety"], ["Kept", "Transported"])
    lines = c.generate("RotSys", dict(NumOps=20 if c.quick else 40, MaxBatch=6), 2500 if c.quick else 20000)
    c.replay(rotations.replay, lines)


def C20(c):
    import rotmath
    c.explore("RotMathSys", dict(NumOps=1 if c.quick else 2, MaxBatch=1), ["Safety"])
    lines = c.generate("RotMathSys", dict(NumOps=16, MaxBatch=6), 1500 if c.quick else 15000, ["Safety"])
    c.replay(rotmath.replay, lines)


def C21(c):
    import perturb
    c.explore("PerturbSys", dict(NumOps=3 if c.quick else 4), ["Safety"])
    lines = c.generate("PerturbSys", dict(NumOps=24), 800 if c.quick else 10000)
    c.replay(perturb.replay, lines)


def loaded(c, fmt, **kw):
    k = dict(KINDS, Format=fmt, MinFrames=1, LinkOffsets=False, RootJoint=False)
    k.update(kw)
    c.explore("ChainSys", dict(k, OpMix=["fk"], MaxFrames=2, NumOps=1), ["Safety"], ["Frozen"])
    c.explore("ChainSys", dict(k, OpMix=["limits", "clamp"], MaxFrames=2, NumOps=1), ["Safety"])
    if not c.quick:
        c.explore("ChainSys", dict(k, OpMix=["struct"], MaxFrames=3, NumOps=0), ["Safety"])
    lines = c.generate("ChainSys", dict(k, OpMix=["fk", "fk", "fk", "struct", "limits", "clamp", "extract", "extract", "frame", "jac", "grad", "to", "baddoc"],
                                        MaxFrames=9, NumOps=7), 900 if c.quick else 10000)
    c.replay(chains.replay, lines)


def C09(c):
    loaded(c, "urdf")


def C10(c):
    loaded(c, "sdf", StaticBudget=40, MotionBudget=10)


def C11(c):
    loaded(c, "mjcf")


def C22(c):
    import desc
    c.explore("DescSys", dict(NumOps=1, OpMix=["one", "read", "write"], MaxLinks=2), ["Safety"], ["Frozen"])
    c.explore("DescSys", dict(NumOps=3 if c.quick else 5, OpMix=["addlink", "addjoint", "maps", "chain"], MaxLinks=2), ["Safety"], ["Frozen"])
    mix = ["one", "one", "one", "read", "write", "write", "maps", "maps", "chain", "chain", "addlink", "addlink", "addjoint", "addjoint", "edit", "edit", "new"]
    lines = c.generate("DescSys", dict(NumOps=14, OpMix=mix, MaxLinks=5), 600 if c.quick else 8000)
    c.replay(desc.replay, lines)


def C17(c):
    import ikrun
    rules = [["none"], ["all"], ["any"], ["ratio", 1, 2]]
    c.explore("IkSys", dict(MaxProblems=1, MaxRetries=2, MaxIter=2 if c.quick else 3, Rules=rules), ["Safety"], ["Sticky", "Shrinks"])
    c.explore("IkSys", dict(MaxProblems=2, MaxRetries=1, MaxIter=2 if c.quick else 3, Rules=rules), ["Safety"], ["Sticky", "Shrinks"])
    c.explore("IkSys", dict(MaxProblems=1, MaxRetries=1, MaxIter=4 if c.quick else 5, Rules=rules), ["Safety"], ["Sticky", "Shrinks"])
    rules += [["any"], ["all"], ["none"], ["ratio", 1, 4], ["ratio", 3, 4], ["ratio", 1, 1000], ["ratio", 999, 1000]]
    lines = c.generate("IkSys", dict(MaxProblems=4, MaxRetries=5, MaxIter=9, Rules=rules), 1500 if c.quick else 20000, ["Safety"])
    c.replay(ikrun.replay, lines)
    import iktrace
    iktrace.check(c, 800 if c.quick else 8000)


def C18(c):
    chain_run(c, ["extract", "ikstep"], dict(MaxFrames=2 if c.quick else 3, NumOps=2),
              ["extract", "ikstep", "ikstep", "ikstep", "ikstep"], 600 if c.quick else 8000, dict(MaxFrames=9, MinFrames=2, NumOps=6))
    import dls
    c.explore("DlsSys", {}, ["Safety"])
    c.replay(dls.replay, c.generate("DlsSys", {}, 800 if c.quick else 10000, ["Safety"]))
    long = dict(KINDS, Straight=True, MinFrames=7, MaxFrames=14, NumOps=5, OpMix=["extract", "ikstep", "ikstep", "ikstep", "ikstep"])
    c.replay(chains.replay, c.generate("ChainSys", long, 300 if c.quick else 4000), name="long chains")


def C15(c):
    chain_run(c, ["extract", "iksolve"], dict(MaxFrames=2 if c.quick else 3, NumOps=2),
              ["extract", "iksolve", "iksolve", "iksolve", "iksolve"], 600 if c.quick else 10000, dict(MaxFrames=10, MinFrames=2, NumOps=6))


def C16(c):
    import limits
    c.explore("LimitSys", dict(MaxJoints=1, MaxProblems=1, MaxRetries=1, Width=9 if c.quick else 17), ["Safety"])
    c.replay(limits.replay, c.generate("LimitSys", dict(MaxJoints=7, MaxProblems=3, MaxRetries=4, Width=30), 800 if c.quick else 10000, ["Safety"]))
    chain_run(c, ["extract", "iksolve"], dict(MaxFrames=2, NumOps=2),
              ["extract", "iksolve", "iksolve", "iksolve", "iksolve"], 400 if c.quick else 8000, dict(MaxFrames=10, MinFrames=2, NumOps=6))


def C19(c):
    import line
    c.explore("LineSys", dict(MaxProblems=1, MaxRetries=2, MaxTries=2), ["Safety"], ["Shrinks"])
    c.explore("LineSys", dict(MaxProblems=2, MaxRetries=1, MaxTries=2 if c.quick else 3), ["Safety"], ["Shrinks"])
    c.replay(line.replay, c.generate("LineSys", dict(MaxProblems=5, MaxRetries=5, MaxTries=6), 3000 if c.quick else 40000, ["Safety"]))


def C23(c):
    k = dict(KINDS, MinFrames=1, MaxFrames=2 if c.quick else 3)
    c.explore("ChainSys", dict(k, OpMix=["hess", "param"], NumOps=1), ["Safety"], ["Frozen"])
    at_tools = dict(KINDS, MinFrames=2, MaxFrames=9, NumOps=6, OpMix=["extract", "jac", "jac", "jac", "to"])
    c.replay(chains.replay, c.generate("ChainSys", at_tools, 300 if c.quick else 3000), dict(by_location=True), name="by tool points")
    chain_run(c, ["extract", "jacgrad"], dict(MaxFrames=2 if c.quick else 3, NumOps=2),
              ["extract", "jacgrad", "jacgrad", "hess", "param", "to"], 900 if c.quick else 10000, dict(MaxFrames=9, MinFrames=2, NumOps=6))


def C24(c):
    import rotations
    c.explore("RotSys", dict(NumOps=4 if c.quick else 5, MaxBatch=1), ["Safety"], ["Kept", "Transported"])
    lines = c.generate("RotSys", dict(NumOps=16 if c.quick else 32, MaxBatch=6), 2000 if c.quick else 20000)
    c.replay(rotations.replay, lines, dict(grad=True))
    import transforms
    c.explore("TransformSys", dict(NumOps=3, Big=20), ["Leibniz"], ["Frozen"])
    lines = c.generate("TransformSys", dict(NumOps=14 if c.quick else 20, Big=150), 800 if c.quick else 10000)
    c.replay(transforms.replay, lines, dict(grad=True), name="transforms")
    import perturb
    c.replay(perturb.replay, c.generate("PerturbSys", dict(NumOps=12), 200 if c.quick else 4000), dict(grad=True), name="perturbations")
    import rotmath
    c.explore("RotMathSys", dict(NumOps=1, MaxBatch=1), ["Safety"])
    c.replay(rotmath.replay, c.generate("RotMathSys", dict(NumOps=12, MaxBatch=5), 500 if c.quick else 8000, ["Safety"]), dict(grad=True), name="interpolation and exponential maps")


def C25(c):
    import compiled
    c.explore("ChainSys", dict(KINDS, MinFrames=1, MaxFrames=2 if c.quick else 3, OpMix=["extract", "fk", "jac"], NumOps=2), ["Safety"], ["Frozen"])
    c.explore("RotSys", dict(NumOps=3 if c.quick else 4, MaxBatch=1), ["Safety"], ["Kept", "Transported"])
    k = dict(KINDS, MinFrames=2, MaxFrames=7)
    n = 1 if c.quick else 8
    mix = ["fk", "fk", "grad", "grad", "jac", "jac", "to", "extract", "jacgrad", "jacgrad", "jacgrad"]
    c.replay(compiled.chain, c.generate("ChainSys", dict(k, OpMix=mix, NumOps=6), 144 * n), dict(backend="aot_eager", patience=300), name="traced")
    c.replay(compiled.chain, c.generate("ChainSys", dict(k, OpMix=mix, NumOps=7), 12 * n), dict(backend="inductor", patience=400), name="generated code")
    solve = dict(k, MinFrames=5, OpMix=["extract", "ikstep", "ikstep", "iksolve", "iksolve", "iksolve"], NumOps=5)
    c.replay(compiled.chain, c.generate("ChainSys", solve, 48 * n), dict(backend="aot_eager", patience=300), name="compiled solvers")
    lines = c.generate("RotSys", dict(NumOps=12, MaxBatch=5), 120 * n)
    c.replay(compiled.rotation, lines[:len(lines) // 2], dict(backend="aot_eager", patience=300), name="compiled conversions")
    c.replay(compiled.rotation, lines[len(lines) // 2:], dict(backend="aot_eager", patience=300, grad=True), name="gradients of compiled conversions")
