"""Running TLC on the specifications of /verif/spec."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class SpecError(Exception):
    """TLC reported an error: the specification itself is broken."""


def tla(v):
    """Python value -> TLA+ expression"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(type(v))


def run(module, constants, invariants=(), properties=(), defs="", workers=8, timeout=800, spec="Spec", mem="6g"):
    """Check `module` with the given constants; returns (stats, lines printed by the specification)."""
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        body, cfg = [], ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE", "CONSTANTS"]
        for k, v in constants.items():
            body.append("MC_%s == %s" % (k, tla(v)))
            cfg.append(" %s <- MC_%s" % (k, k))
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        for p in properties:
            cfg.append("PROPERTY %s" % p)
        with open(os.path.join(work, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n%s\n====\n" % (module, "\n".join(body), defs))
        with open(os.path.join(work, "MC.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xss16m", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-config", "MC.cfg", "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE", "MC.tla"]
        with open(os.path.join(work, "out"), "w") as out:
            try:
                rc = subprocess.run(cmd, cwd=work, stdout=out, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise SpecError("TLC did not finish in %d s" % timeout)
        lines, rest = [], []
        for line in open(os.path.join(work, "out"), errors="replace"):
            if line.startswith('"@@'):
                lines.append(line)
            else:
                rest.append(line)
        text = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        i = re.search(r"computing initial states: (\d+)", text)
        # a violated invariant or property gives a counterexample to the specification
        if rc != 0 or "No error has been found" not in text:
            raise SpecError("TLC: exit %d\n%s" % (rc, text[-6000:]))
        gen, distinct = int(m.group(1)), int(m.group(2))
        return {"states": distinct, "transitions": gen - (int(i.group(1)) if i else 0)}, lines
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decode(line):
    return json.loads(json.loads(line)[2:])
