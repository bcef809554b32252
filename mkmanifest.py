"""Writes MANIFEST.json and known-findings.json."""
import json, subprocess
PROPS = [json.loads(l) for l in open("/verif/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; behaviours TLC generates are replayed into the real code"
NOTE = ("Bounded: TLC checks the specification exhaustively on small trees, and the implementation on the behaviours it generates "
        "(seeded by VERIF_SEED). Trusts TLC, the replay harness and the mapping of names to frames; comparison of floats up to tolerance.")
CLAIMED = {p: (TECH, NOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C14".split()}
try:
    from manifest_more import MORE
    CLAIMED.update({k: (v[0] or TECH, v[1] or NOTE) for k, v in MORE.items()})
except ImportError:
    pass
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "The specification and replay for this property are not built yet."})
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ (TLC). No hooks: only the public API of the package is used. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

# --- findings: (property, subject of the fix commit, what failed)
FIXED = [
    ("C14", "fix: quaternion_from_euler no longer halves", "quaternion_from_euler halved the caller's angles in place"),
    ("C20", "fix: quaternion_slerp leaves q2", "quaternion_slerp negated its second argument in place and interpolated a batch mixing close and distant pairs wrongly"),
    ("C03", "fix: get_joints and get_joint_parameter_names honour", "get_joints(exclude_fixed=False) left out the fixed joints"),
    ("C16", "fix: IK limit enforcement does not turn", "IK returned NaN for revolute joints without limits"),
    ("C02", "fix: SerialChain.forward_kinematics accepts a dict of scalars", "SerialChain.forward_kinematics failed on a dict of scalars"),
    ("C05", "fix: SerialChain.jacobian accepts a dict", "SerialChain.jacobian failed on a dict of joint values"),
    ("C07", "fix: SerialChain inherits the dtype", "a serial chain extracted from a float64 chain mixed float32 and float64"),
    ("C17", "fix: IK samples initial configurations in the chain's dtype", "IK on a float64 chain sampled float32 initial configurations and failed"),
    ("C15", "fix: IKSolution fills in converged_pos_any", "IKSolution.converged_pos_any and converged_rot_any were never set"),
    ("C03", "fix: Frame keeps the children", "Frame(children=...) dropped the children"),
    ("C12", "fix: Translate, Scale and Rotate report the dtype", "Translate, Scale and Rotate reported float32 for float64 matrices"),
    ("C10", "fix: SDF poses use roll pitch yaw", "SDF poses were read as yaw pitch roll"),
    ("C10", "fix: SDF fixed joints may omit their axis", "an SDF fixed joint without an axis could not be loaded"),
    ("C09", "fix: URDF continuous joints have no position limits", "URDF continuous joints were limited to [0, 0]"),
    ("C11", "fix: MJCF joints without a range are unlimited", "MJCF joints without a range were limited to [0, 0]"),
    ("C09", "fix: URDF and SDF models with a single link", "a URDF or SDF with one link and no joints could not be loaded"),
    ("C22", "fix: printing a parsed URDF works", "printing a parsed URDF raised AttributeError (collections.Iterable)"),
    ("C20", "fix: quaternion_angular_distance treats each pair", "quaternion_angular_distance of a batch with one equal pair changed the other pairs"),
    ("C12", "fix: Transform3d.inverse inverts transforms that include scaling", "Transform3d.inverse of a transform with scaling was not its inverse"),
    ("C02", "fix: dicts of numpy arrays are accepted", "a dict of numpy arrays could not be passed as joint values"),
    ("C02", "fix: configurations with the wrong number", "a configuration with one value, or a chain with one joint, was broadcast silently over the joints"),
    ("C07", "fix: the root frame of a serial chain has the precision", "the root frame of a serial chain stayed in float32"),
]
try:
    from manifest_more import FIXED_MORE
    FIXED += FIXED_MORE
except ImportError:
    pass
try:
    from manifest_more import KNOWN
except ImportError:
    KNOWN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for prop, subj, what in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subj)]
    assert len(h) == 1, (subj, h)
    out.append("fixed: property=%s %s %s" % (prop, h[0], what))
json.dump({"known": KNOWN, "fixed": out}, open("/verif/known-findings.json", "w"), indent=1)
named = {s for _, s, _ in FIXED}
for l in log:
    s = l.split(" ", 1)[1]
    if s.startswith("fix:") and not any(s.startswith(n) for n in named):
        print("not listed:", l)
