"""What every check needs: running the specification, replaying behaviours in parallel, reporting."""
import json, multiprocessing, os, random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PK_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import tlc  # noqa: E402


class Mismatch(Exception):
    """The implementation does not do what the specification says."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind


def ambient(x, inference=True):
    """Computations also run where no gradients are recorded."""
    import contextlib
    import torch
    return torch.no_grad() if x < .2 else torch.inference_mode() if x < .32 and inference else contextlib.nullcontext()


def default_dtype(i, opts):
    """Some programs compute in float64 by default."""
    import torch
    torch.set_default_dtype(torch.float64 if i % 6 == 4 and not opts.get("backend") else torch.float32)


_WORK = {}


PATIENCE = 80   # seconds of computation for one behaviour, which takes well under one
ASLEEP = 450    # seconds on the clock, for one that waits for something without computing (the machine may be busy with other things)


def _alarm(*_):
    raise Mismatch("hang", "no answer in time")


def _init_worker():
    import torch
    torch.set_num_threads(1)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)


def _one(args):
    i, line = args
    engine = _WORK["engine"]
    signal.alarm(ASLEEP)
    signal.setitimer(signal.ITIMER_PROF, _WORK["opts"].get("patience", PATIENCE))
    default_dtype(i, _WORK["opts"])
    try:
        beh = tlc.decode(line) if isinstance(line, str) else line
        stats = engine(beh, _WORK["seed"] * 1000003 + i, _WORK["opts"])
        return i, None, stats
    except Mismatch as e:
        return i, ("mismatch", str(e), getattr(e, "where", None)), None
    except Exception as e:  # the implementation raised where the specification says it answers
        return i, ("error", "".join(traceback.format_exception(e))[-3000:], None), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.stats = [], [], {}
        self.exhaustive, self.assumptions, self.runs = [], [], []
        self.known = load_known(prop)
        self.known_hit = {}

    # -- specification -----------------------------------------------------
    def explore(self, module, constants, invariants, properties=(), what="", **kw):
        """Exhaustively check the specification."""
        t = time.time()
        c = {"Exhaustive": True, "Seed": 1, "Behaviours": 1}
        c.update(constants)
        st, _ = tlc.run(module, c, invariants, properties, **kw)
        self._count(st)
        self.exhaustive.append({"module": module, "constants": short(constants), "invariants": list(invariants) + list(properties),
                                "states": st["states"], "transitions": st["transitions"], "wall_s": round(time.time() - t, 1)})

    def generate(self, module, constants, behaviours, invariants=("TypeOK",), **kw):
        """Let TLC produce behaviours with their exact expected answers."""
        t = time.time()
        c = {"Exhaustive": False, "Seed": self.seed % 40009 + 1, "Behaviours": behaviours}
        c.update(constants)
        st, lines = tlc.run(module, c, invariants, **kw)
        self._count(st)
        if len(lines) != behaviours:
            raise tlc.SpecError("%d behaviours instead of %d" % (len(lines), behaviours))
        lines.sort()
        self.runs.append({"module": module, "constants": short(constants), "behaviours": len(lines),
                          "states": st["states"], "wall_s": round(time.time() - t, 1)})
        return lines

    def enumerate(self, module, constants, invariants=("TypeOK",), **kw):
        """As generate, but the specification enumerates all its finite behaviours."""
        t = time.time()
        c = {"Exhaustive": True, "Seed": 1, "Behaviours": 1}
        c.update(constants)
        st, lines = tlc.run(module, c, invariants, **kw)
        self._count(st)
        lines = sorted(set(lines))
        self.runs.append({"module": module, "constants": short(constants), "behaviours": len(lines),
                          "states": st["states"], "wall_s": round(time.time() - t, 1)})
        return lines

    def _count(self, st):
        self.states += st["states"]
        self.transitions += st["transitions"]

    # -- implementation ----------------------------------------------------
    def replay(self, engine, lines, opts=None, name=None, procs=8, limit=12):
        """Replay behaviours into the implementation; engine(behaviour, seed, opts) raises Mismatch or returns counters."""
        opts = opts or {}
        _WORK.update(engine=engine, seed=self.seed, opts=opts)
        t = time.time()
        done = 0
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs, initializer=_init_worker) as pool:
            for i, bad, st in pool.imap_unordered(_one, list(enumerate(lines)), chunksize=4):
                done += 1
                if bad is None:
                    self.traces += 1
                    for k, v in (st or {}).items():
                        if k.startswith("max_"):
                            self.stats[k] = max(self.stats.get(k, 0), v)
                        else:
                            self.stats[k] = self.stats.get(k, 0) + v
                else:
                    self.violation(bad, engine, lines[i], i, opts)
                    if len(self.violations) >= limit:
                        pool.terminate()
                        break
        for i in (0, len(lines) // 2):
            if i < len(lines) and len(self.samples) < 6:
                beh = tlc.decode(lines[i]) if isinstance(lines[i], str) else lines[i]
                self.samples.append(clip(beh))
        self.runs.append({"replay": name or engine.__name__, "behaviours": done, "wall_s": round(time.time() - t, 1)})

    def violation(self, bad, engine, line, i, opts):
        text = bad[1]
        for k in self.known:
            if k["match"] in text:
                self.known_hit.setdefault(k["match"], k)
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, i))
        beh = tlc.decode(line) if isinstance(line, str) else line
        with open(path, "w") as f:
            json.dump({"property": self.prop, "engine": engine.__module__ + ":" + engine.__name__, "seed": self.seed, "index": i,
                       "opts": opts, "what": text, "behaviour": beh}, f)
        self.violations.append((path, text))

    def finding(self, text, data):
        """A violation found outside of replay()."""
        for k in self.known:
            if k["match"] in text:
                self.known_hit.setdefault(k["match"], k)
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-x%d.json" % (self.prop, self.seed, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": text, "data": data}, f)
        self.violations.append((path, text))

    # -- reporting -----------------------------------------------------------
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "specification_checked_exhaustively": self.exhaustive,
               "runs": self.runs, "counters": self.stats}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for path, text in self.violations:
            print(text.strip()[-1500:], file=sys.stderr)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s: %d states, %d transitions, %d behaviours replayed, %d violations, %.0f s" % (
            self.prop, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("known", []) if k["property"] == prop]


def short(c):
    return {k: v for k, v in c.items()}


def clip(x, depth=0):
    """A readable piece of a behaviour."""
    if isinstance(x, list):
        r = [clip(y, depth + 1) for y in x[:13]]
        return r + ["... %d more" % (len(x) - 13)] if len(x) > 13 else r
    if isinstance(x, dict):
        return {k: clip(v, depth + 1) for k, v in x.items()}
    return x
