"""C25: Algebra says what the elementary methods compute on exact values; the same operands are given to the real methods by merges over
many keys, and the results compared (exactly, where the arithmetic of the machine is exact). Results of methods that drop entries at random
are given back to Algebra: some choice of dropped entries must explain them."""
import fractions, math, random
import torch
import sd_mecha
from sd_mecha import literal
from sd_mecha.extensions import merge_methods
from vh import lib

DELTA = {"select_max_delta", "ties_sum", "ties_sum_extended", "ties_sum_with_dropout", "dropout", "model_stock", "truncate_rank"}
WEIGHT = {"subtract", "add_cosine_a", "add_cosine_b"}
# these go through roots, logarithms or iterations
LOOSE = {"slerp": 1e-4, "geometric_sum": 1e-6, "multiply_quotient": 1e-5, "add_cosine_a": 1e-6, "add_cosine_b": 1e-6, "geometric_median": 1e-4, "truncate_rank": 1e-6, "rotate": 1e-6, "model_stock": 1e-9}
DOUBLE = {*LOOSE, "select_max_delta", "perpendicular_component"}
SHAPES = {0: [(0,), (0, 2), (2, 0)], 1: [(), (1,), (1, 1), (1, 1, 1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1), (1, 3, 1)], 4: [(4,), (2, 2), (4, 1), (1, 2, 2)],
          5: [(5,), (5, 1)], 6: [(6,), (2, 3), (3, 2), (1, 3, 2, 1)], 7: [(7,)], 8: [(8,), (2, 2, 2), (4, 2)]}


def shape_of(case, rng):
    m, n, o = case["m"], case["n"], case["o"]
    if m == "rotate":
        return 3, 2
    if m == "tensor_sum":
        return () if o["scalar"] else rng.choice([(n,), (n, 1), (n, 3), (n, 2, 2)])
    if m in ("add_cosine_a", "add_cosine_b", "model_stock") or o["stock"]:
        return (n,) if m != "model_stock" else rng.choice([(n,), (1, n)])
    if m == "truncate_rank" and (n == 0 or o["k"] < 8):
        return (n,) if n != 4 else (2, 2)
    return rng.choice(SHAPES[n])


def options(case, rng):
    m, o = case["m"], case["o"]

    def number(x, tensor=False):
        v = x / 8
        if tensor and rng.random() < 0.4:
            return torch.tensor(v, dtype=rng.choice([torch.float32, torch.float64]))
        return int(v) if v == int(v) and rng.random() < 0.4 else v
    kw = {}
    if m in ("weighted_sum", "add_difference", "select_max_delta", "slerp", "add_cosine_a", "add_cosine_b", "train_difference_mask", "add_opposite_mask", "add_strict_opposite_mask", "multiply_quotient",
             "rotate", "geometric_sum"):
        kw["alpha"] = number(o["al"], True)
    if m == "crossover":
        kw.update(alpha=number(o["al"]), tilt=rng.choice([0.0, 0.5, 1.0, 2.0]))
    if m == "clamp":
        kw["stiffness"] = number(o["st"])
    if m in ("tensor_sum", "top_k_tensor_sum"):
        kw.update(width=number(o["w"]), offset=number(o["off"]))
    if m in ("ties_sum", "ties_sum_extended", "ties_sum_with_dropout"):
        kw.update(k=number(o["k"]), vote_sgn=o["sgn"])
    if m == "ties_sum_extended":
        kw.update(apply_stock=o["stock"], apply_median=o["median"])
    if m == "ties_sum_with_dropout":
        kw.update(probability=number(o["p"]), no_rescale=not o["resc"], seed=rng.randrange(100))
    if m == "dropout":
        kw.update(probability=number(o["p"]), overlap=number(o["ov"]), rescale=1.0 if o["resc"] else 0.0, seed=rng.randrange(100))
    if m == "truncate_rank":
        kw["rank_ratio"] = number(o["k"])
    if m == "rotate":
        kw["alignment"] = number(o["k"])
    return kw


def tensor(values, shape, m, dtype):
    t = torch.tensor([float(v) for v in values], dtype=dtype)
    if m == "tensor_sum" and values and len(shape) > 1 and shape[0] == len(values):
        return t.reshape(-1, *[1] * (len(shape) - 1)).expand(shape).clone()
    return t.reshape(shape)


def merge(group, rng):
    """All cases have the same method, options and number of operands: one merge with a key for each."""
    case = group[0]
    m, dtype = case["m"], torch.float64 if case["m"] in DOUBLE or rng.random() < 0.5 else torch.float32
    shapes = [shape_of(c, rng) for c in group]
    keys = [f"k{i}" for i in range(len(group))]
    cfg = lib.config("vt-algebra", {k: (list(s), "float32") for k, s in zip(keys, shapes)}, {"c": keys})
    space = "delta" if m in DELTA else "weight" if m in WEIGHT else rng.choice(["weight", "delta"])
    operands = [literal({k: tensor(c["args"][j], s, m, dtype) for k, c, s in zip(keys, group, shapes)}, cfg, "delta" if m == "add_difference" and j == 1 else "weight" if m == "add_difference" else space)
                for j in range(len(case["args"]))]
    kw = options(case, rng)
    res = sd_mecha.merge(merge_methods.resolve(m)(*operands, **kw), merge_dtype=dtype, output_dtype=dtype, strict_weight_space=False, threads=0, check_finite=False, tqdm=lib.quiet)
    again = sd_mecha.merge(merge_methods.resolve(m)(*operands, **kw), merge_dtype=dtype, output_dtype=dtype, strict_weight_space=False, threads=rng.choice([0, 3]), check_finite=False, tqdm=lib.quiet) if "seed" in kw else res
    for k in keys:
        if not torch.equal(res[k], again[k]):
            return f"the second merge with this seed gives {again[k].tolist()}, the first {res[k].tolist()}", None
    return None, [(s, res.get(k), dtype) for k, s in zip(keys, shapes)]


def flat(t, case, shape):
    if case["m"] == "tensor_sum" and t.numel() and len(shape) > 1 and shape[0] == case["n"]:
        rows = t.reshape(case["n"], -1)
        if rows.numel() and (rows != rows[:, :1]).any():
            return None
        return rows[:, 0].tolist() if rows.shape[1] else []
    return t.flatten().tolist()


def close(x, want, m, dtype, rooted):
    if not math.isfinite(x):
        return False
    want = fractions.Fraction(*want)
    if m not in LOOSE and not rooted and want.denominator & (want.denominator - 1) == 0 and m not in ("perpendicular_component", "train_difference_mask"):
        return fractions.Fraction(x) == want
    tol = LOOSE.get(m, 1e-9 if dtype == torch.float64 else 1e-5)
    return abs(x - float(want)) <= tol * max(1, abs(float(want)))


def execute(ctx, data):
    group, rng = data["group"], random.Random(data["seed"])
    case = group[0]
    told = f"{case['m']} {({k: v for k, v in case['o'].items()})}: "
    try:
        wrong, results = merge(group, rng)
    except Exception as e:
        return told + f"{type(e).__name__}: {e}"
    if wrong:
        return told + wrong
    observed = []
    for c, (shape, res, dtype) in zip(group, results):
        if res is None or tuple(res.shape) != tuple(shape):
            return told + f"operands of shape {shape} give {None if res is None else tuple(res.shape)}"
        if res.dtype != dtype:
            return told + f"operands of {dtype} give {res.dtype}"
        got = flat(res, c, shape)
        if "outs" in c and not any(got is not None and all(close(x, w, c["m"], dtype, c["o"]["stock"] or c["o"]["median"]) for x, w in zip(got, out)) for out in c["outs"]):
            return told + f"{c['args']} gives {got}, expected {c['outs'][:4]}"
        if "outs" not in c:
            # as an exact number with a small denominator
            exact = [fractions.Fraction(x).limit_denominator(5000) if math.isfinite(x) else None for x in got]
            if any(e is None or abs(float(e) - x) > 1e-4 for e, x in zip(exact, got)):
                return told + f"{c['args']} gives {got}"
            observed.append({**c, "got": [[e.numerator, e.denominator] for e in exact]})
        ctx.note(c["m"])
    if data.get("later") is not None:
        LATER.extend((c, data) for c in observed)
    elif observed:
        explained = judge(ctx, observed)
        for i, c in enumerate(observed):
            if i + 1 not in explained:
                return told + f"{c['args']} gives {c['got']}: no choice of dropped entries explains it"
    return None


def judge(ctx, observed):
    return set(int(x) for x in ctx.tlc("AlgebraJudge", label="results with dropped entries", workers=8, traces=observed, timeout=800, consts=BASE).lines)


LATER = []
BASE = dict(Span=1, MinN=0, MaxN=2, MaxArgs=3, Alphas="{0,3,8}", Fractions="{0,4,8}", Offsets="{0,3,5,8,12,20}", Widths="{0,1,4,6,8,9}", MaxShift=9, Equal="TRUE", Methods='{"dropout"}')


def tla(names):
    return "{" + ",".join(f'"{n}"' for n in names) + "}"


EXACT = ("weighted_sum", "add_difference", "subtract", "n_average", "clamp", "tensor_sum", "top_k_tensor_sum", "select_max_delta", "perpendicular_component", "model_stock", "train_difference_mask",
         "add_opposite_mask", "add_strict_opposite_mask", "ties_sum", "ties_sum_extended", "crossover", "slerp", "geometric_sum", "multiply_quotient", "geometric_median", "add_cosine_a", "add_cosine_b",
         "truncate_rank")
RANDOM = ("dropout", "ties_sum_with_dropout")


def groups(lines, rng, size):
    """Cases with the same method, options and number of operands together, at most size of them."""
    by = {}
    for c in lines:
        by.setdefault(repr((c["m"], sorted(c["o"].items()), len(c["args"]), c["o"]["stock"])), []).append(c)
    out = []
    for cs in by.values():
        rng.shuffle(cs)
        out += [cs[i:i + size] for i in range(0, len(cs), size)]
    return out


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    base = dict(BASE, Methods=tla(EXACT))
    lines = ctx.tlc("Algebra", label="laws", workers=8, timeout=3000, consts={**base, "MaxArgs": 3, "MaxN": 2 if q else 3, **({} if q else dict(Offsets="{0,5}", Widths="{0,4,6}"))}).lines
    ctx.tlc("Algebra", label="laws, dropped entries", workers=8, timeout=2000, consts=dict(base, Methods=tla(RANDOM), MaxArgs=2 if q else 3, Fractions="{4}", MaxN=2))
    lines = ctx.tlc("Algebra", "AlgebraGen", label="small operands", workers=8, timeout=2000, consts=dict(base, MaxN=1 if q else 2)).lines
    big = dict(base, Span=6, MinN=1, MaxN=6, Alphas="{0,1,2,4,5,8,12}", Fractions="{0,1,2,3,4,5,6,7,8}", Offsets="{0,1,2,3,4,5,6,7,8,12,16,20,27}", Widths="{0,1,2,3,4,5,6,7,8,9}")
    n = 6000 if q else 60000
    lines += ctx.tlc("Algebra", "AlgebraGen", label="big operands", workers=1, simulate=n, depth=60, timeout=3000, consts=big).lines
    lines += ctx.tlc("Algebra", "AlgebraGen", label="regions and votes", workers=1, simulate=n // 3, depth=60, timeout=3000, consts=dict(
        big, Span=3, MaxN=8, Methods=tla(("tensor_sum", "top_k_tensor_sum", "ties_sum", "ties_sum_extended", "clamp", "select_max_delta")))).lines
    lines += ctx.tlc("Algebra", "AlgebraGen", label="vectors with whole norms", workers=1, simulate=n // 3, depth=60, timeout=3000, consts=dict(
        big, Span=4, MaxN=3, Methods=tla(("model_stock", "add_cosine_a", "add_cosine_b", "slerp", "multiply_quotient", "geometric_sum", "geometric_median", "truncate_rank", "ties_sum_extended")))).lines
    lines += ctx.tlc("Algebra", "AlgebraGen", label="many operands", workers=1, simulate=n // 3, depth=60, timeout=3000, consts=dict(
        big, Span=4, MaxN=3, MaxArgs=6, Methods=tla(("n_average", "clamp", "ties_sum", "ties_sum_extended", "geometric_median")))).lines
    lines += ctx.tlc("Algebra", "AlgebraGen", label="turns", workers=1, simulate=n // 6, depth=60, timeout=3000, consts=dict(big, Span=4, MinN=6, Methods=tla(("rotate",)))).lines
    for g in groups(lines, ctx.rng, 40):
        ctx.check(execute, {"group": g, "seed": ctx.rng.randrange(1 << 20)})
    lines = ctx.tlc("Algebra", "AlgebraDraw", label="operands with dropped entries", workers=1, simulate=500 if q else 4000, depth=40, consts=dict(
        base, Span=4, Methods=tla(RANDOM), MinN=0, MaxN=4, MaxArgs=2 if q else 3, Fractions="{0,2,4,5,8}")).lines
    lines = [c for c in lines if not (c["n"] == 0 and c["m"] != "dropout")]
    LATER.clear()
    for g in groups(lines, ctx.rng, 4):
        ctx.check(execute, {"group": g, "seed": ctx.rng.randrange(1 << 20), "later": True})
    observed, of = [c for c, _ in LATER], [d for _, d in LATER]
    explained = judge(ctx, observed)
    for i, d in enumerate(of):
        if i + 1 not in explained:
            ctx.check(execute, {"group": d["group"], "seed": d["seed"]})


def replay(ctx, case):
    lib.quiet_warm()
    case.pop("later", None)
    ctx.check(execute, case)
