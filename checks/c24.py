"""C24: Composites says for every use of an operator or helper which formula over elementary methods it stands for, and what it gives on
exact values. The use is made with the real library, and merged next to the formula made of the real elementary methods."""
import fractions, operator, pathlib, random, shutil, tempfile
import torch
import sd_mecha
from sd_mecha import literal, model
from sd_mecha.extensions import merge_methods
from vh import lib, st

HELPERS = ("+", "-", "|", "add_difference", "add_perpendicular", "add_difference_ties", "add_difference_ties_extended", "copy_region", "tensor_sum", "dropout", "ties_with_dare", "n_model_stock", "rotate")
OPERATORS = {"+": operator.add, "-": operator.sub, "|": operator.or_}
DT = torch.float64


def values(case, rng):
    """What the options are, were they given."""
    o, h = case["o"], case["h"]

    def number(x):
        v = x / 8
        return int(v) if v == int(v) and rng.random() < 0.3 else v
    alpha = number(case["al"])
    if h != "rotate" and rng.random() < 0.3:
        alpha = torch.tensor(float(alpha))
    return {"alpha": alpha, "k": number(o["k"]), "vote_sgn": o["sgn"], "top_k": o["sgn"], "apply_stock": o["stock"], "apply_median": o["median"], "width": number(o["w"]), "offset": number(o["off"]),
            "alignment": number(o["k"]), "probability": number(o["p"]), "overlap": number(o["ov"]), "overlap_emphasis": rng.choice([0.0, 0.5]), "seed": rng.randrange(50), "rescale": o["resc"],
            "cos_eps": rng.choice([1e-6, 0.5]), "eps": rng.choice([1e-6, 0.25]), "maxiter": rng.choice([0, 1, 100]), "ftol": rng.choice([1e-20, 0.05, 0.25, 0.75]), "clamp_to_ab": case["cl"]}


DEFAULTS = {"False": False, "True": True, "None": None}


def execute(ctx, data):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c24-"))
    try:
        return run(ctx, data, root)
    finally:
        shutil.rmtree(root)


def run(ctx, data, root):
    group, rng = data["group"], random.Random(data["seed"])
    case = group[0]
    h, n = case["h"], case["n"]
    shape = (3, 2) if h == "rotate" else (n,)
    keys = [f"k{i}" for i in range(len(group))]
    cfg = lib.config("vt-composites", {k: (list(shape), "float64") for k in keys}, {"c": keys})
    spaces = [x["space"] for x in case["ops"]]
    forms, operands = [], []
    # plain paths have no config: all operands are given as paths then
    paths = set(spaces) == {"weight"} and all(x["has"] for c in group for x in c["ops"]) and (h not in OPERATORS or rng.random() < 0.5) and rng.random() < 0.3
    for j, space in enumerate(spaces):
        tensors = {k: torch.tensor([float(v) for v in c["ops"][j]["vals"]], dtype=DT).reshape(shape) for k, c in zip(keys, group) if c["ops"][j]["has"]}
        path = root / f"m{j}.safetensors"
        if paths:
            st.write(path, tensors)
            # an operator needs a recipe on one side
            form = "path" if h not in OPERATORS or j == 1 else "node of a path"
            operands.append(path if form == "path" else model(path))
        elif space == "param" and len(group) == 1 and case["ops"][j]["has"] and rng.random() < 0.5 and (j == 1 or "plain" not in forms) and not (j == 1 and "plain" in forms):
            form = "plain"
            operands.append(tensors["k0"] if len(set(case["ops"][j]["vals"])) != 1 or rng.random() < 0.5 else case["ops"][j]["vals"][0])
        elif rng.random() < 0.2:
            form = "file"
            st.write(path, tensors)
            operands.append(model(path, cfg, space))
        else:
            form = "node"
            operands.append(literal(tensors, cfg, space))
        forms.append(form)
    told = f"{h} {forms} {spaces}: "
    if spaces.count("param") and forms.count("plain") == len(forms):
        return None
    vals = values(case, rng)
    given = {x: vals[x] for x, g in zip(case["names"], case["given"]) if g}
    full = {**{x: DEFAULTS[d] if d in DEFAULTS else float(d) for x, d in zip(case["names"], case["defaults"])}, **given}
    if isinstance(full.get("maxiter"), float):
        full["maxiter"] = int(full["maxiter"])
    told += f"{ {k: v for k, v in given.items()} }: "
    try:
        made = OPERATORS[h](*operands) if h in OPERATORS else getattr(sd_mecha, h)(*operands, **given)
    except Exception as e:
        return told + f"is rejected with {type(e).__name__}: {e}"
    nodes = list(operands)
    for step in case["term"]:
        kw = {"alpha": 1.0} if step["opts"] == ["one"] else {x: full[x] if x != "no_rescale" else not full["rescale"] for x in step["opts"]}
        nodes.append(merge_methods.resolve(step["m"])(*[nodes[a - 1] for a in step["args"]], **kw))
    formula = nodes[-1]
    if made.merge_space != formula.merge_space:
        return told + f"is in {made.merge_space} space, not {formula.merge_space}"
    got, want = merged(made), merged(formula)
    unseeded = "seed" in full and full["seed"] is None and (full["probability"] not in (0, 1) or full.get("overlap", 1) != 1)
    ctx.note(f"{h}: {got[0] if got[0] == 'ok' else got[1]}" if got[0] != "ok" else h)
    if got[0] != want[0] or (got[0] == "ok" and set(got[1]) != set(want[1])):
        return told + f"gives {str(got)[:200]}, the formula {str(want)[:200]}"
    if got[0] != "ok":
        return None
    for k, c in zip(keys, group):
        if not unseeded and not torch.equal(got[1][k].nan_to_num(nan=1234.5), want[1][k].nan_to_num(nan=1234.5)):
            return told + f"{[x['vals'] for x in c['ops']]} gives {got[1][k].flatten().tolist()}, the formula {want[1][k].flatten().tolist()}"
        if c["res"] and len(given) == len(case["names"]):
            xs = got[1][k].flatten().tolist()
            if not any(all(abs(x - float(fractions.Fraction(*w))) <= 1e-6 * max(1, abs(x)) for x, w in zip(xs, r)) for r in c["res"]):
                return told + f"{[x['vals'] for x in c['ops']]} gives {xs}, expected {c['res']}"
            ctx.note("exact values")
    return None


def merged(recipe):
    try:
        return "ok", dict(sd_mecha.merge(recipe, merge_dtype=DT, output_dtype=DT, threads=0, strict_weight_space=False, check_finite=False, tqdm=lib.quiet, total_buffer_size=1 << 16))
    except Exception as e:
        return "error", f"{type(e).__name__}: {e}"


def tla(names):
    return "{" + ",".join(f'"{n}"' for n in names) + "}"


BASE = dict(Methods="{}", Span=1, MinN=1, MaxN=1, MaxArgs=2, Alphas="{0,3,8}", Fractions="{4,8}", Offsets="{0,3}", Widths="{0,4,8}", MaxShift=9, Equal="TRUE", LeaveOut="FALSE")


def groups(lines, rng, size):
    by = {}
    for c in lines:
        by.setdefault(repr((c["h"], c["n"], sorted(c["o"].items()), c["al"], c["third"], c["cl"], c["given"], [x["space"] for x in c["ops"]])), []).append(c)
    out = []
    for cs in by.values():
        rng.shuffle(cs)
        out += [cs[i:i + size] for i in range(0, len(cs), size)]
    return out


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    ctx.tlc("Composites", label="laws", workers=8, timeout=3000, consts=dict(BASE, Helpers=tla(HELPERS[:-1]), **({} if q else dict(MaxN=2, Alphas="{0,8}", Fractions="{4}"))))
    base = dict(BASE, Helpers=tla(HELPERS), Span=4, MaxN=4, Alphas="{0,2,4,6,8,12}", Fractions="{2,4,6,8}", Offsets="{0,2,4,6}", Widths="{0,2,4,6,8}")
    lines = []
    n = 1 if q else 10
    for label, count, consts in (("all options", 1500, {}), ("options left out", 1200, dict(LeaveOut="TRUE")), ("operators", 500, dict(Helpers=tla(HELPERS[:3]), Span=3, MaxN=2)),
                                 ("few operands", 600, dict(Helpers=tla(HELPERS[3:-1]), Span=2, MaxN=2, MaxArgs=1)), ("task vectors", 900, dict(Helpers=tla(("n_model_stock", *HELPERS[5:7], "ties_with_dare", "dropout")), Span=3, MaxArgs=4))):
        lines += ctx.tlc("Composites", "CompositesGen", label=label, workers=1, simulate=count * n, depth=80, timeout=2000, consts={**base, **consts}).lines
    lines = [c for c in lines if c["n"] > 0]
    for g in groups([c for c in lines if c["h"] != "|"], ctx.rng, 12) + groups([c for c in lines if c["h"] == "|"], ctx.rng, 2):
        # the options that are not part of the specification's state matter most here
        for _ in range(5 if (g[0]["o"]["median"] or g[0]["o"]["stock"]) and len(g[0]["ops"]) > 3 else 1):
            ctx.check(execute, {"group": g, "seed": ctx.rng.randrange(1 << 20)})


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute, case)
