"""C30: Coerce says which values may be passed for which parameter types and what every key receives; all combinations are
passed to real methods and merged."""
import pathlib, random, shutil, tempfile
from typing import TypeVar
import torch
from vh import lib, st
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, StateDictKeyError, merge_method
from sd_mecha.extensions import model_configs

KEYS = ["Coerce.one", "Coerce.two", "Coerce.three"]
CONFIG = lib.config("vt-coerce", {k: ([1], "float64", {"optional": True}) for k in KEYS})
T = TypeVar("T")
TYPES = {"int": int, "float": float, "bool": bool, "str": str, "tensor": torch.Tensor, "T": T}


class Unsupported:
    pass


def value(rng, kind):
    return {
        "int": lambda: rng.choice([0, 1, -3, 7, 12345678901]), "float": lambda: rng.choice([0.5, -2.25, 3.0, 1e300, 0.1]), "bool": lambda: rng.random() < 0.5,
        "str": lambda: rng.choice(["", "hello", "abc def", "x=1"]), "none": lambda: None,
        "tensor0": lambda: torch.tensor(rng.choice([1, 5, 300]), dtype=rng.choice([torch.float32, torch.float64, torch.int64])),
        "tensor1": lambda: torch.tensor([rng.choice([1, 5, 300])], dtype=rng.choice([torch.float32, torch.int32])),
        "list": lambda: rng.choice([[1.0], (1, 2), {3}, b"x", 1j]), "object": Unsupported,
        "recipe": lambda: wrap(rng, value(rng, rng.choice(["int", "float", "bool", "str", "tensor0", "tensor1"]))),
    }[kind]()


def kind_of(v):
    if isinstance(v, torch.Tensor):
        return f"tensor{v.dim()}"
    return {type(None): "none"}.get(type(v), type(v).__name__)


def number(v):
    return v.reshape([]).item() if isinstance(v, torch.Tensor) else v


def execute(ctx, case):
    try:
        model_configs.register(CONFIG)
    except ValueError:
        pass
    root = pathlib.Path(tempfile.mkdtemp(prefix="vcoerce-"))
    try:
        return run(ctx, case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(ctx, case, root):
    rng = random.Random(case["seed"])
    if case["form"] == "scalar":
        case = {**case, "nk": len(KEYS), "got": case["got"][:1] * len(KEYS)}
    keys = KEYS[:case["nk"]]
    p, seen = case["param"], {}
    interface = TYPES[p["t"]] if p["w"] == "plain" else StateDict[TYPES[p["t"]]]
    star = "*, " if p["how"] == "kw" else ""
    env = {"P": Parameter(interface, None, CONFIG), "R": Return(torch.Tensor, "param", CONFIG), "sd": p["w"] == "sd", "seen": seen, "torch": torch}
    exec(f"def m({star}x: P, **kwargs) -> R:\n    k = kwargs['key']\n    v = x[k] if sd else x\n    seen[k] = v\n    return torch.zeros(1)\n", env)
    m = merge_method(env["m"], register=False)

    form, kinds = case["form"], case["vals"]
    if form == "scalar":
        given = value(rng, kinds[0])
        source = {k: given for k in keys}
    else:
        source = {k: value(rng, v) for k, v in zip(keys, kinds) if v != "absent"}
        items = list(source.items())
        rng.shuffle(items)
        given = dict(items)
        if form == "path":
            given = root / "in.safetensors"
            st.write(given, dict(items))
        if form == "recipes":
            given = {k: wrap(rng, v) for k, v in items}
    try:
        r = m(given) if p["how"] == "pos" else m(x=given)
    except TypeError as e:
        return None if case["pc"] == "rejected" else f"the value is rejected: {e}"
    if case["pc"] == "rejected":
        return f"{given!r} is accepted for a parameter of type {p['t']}"
    options = {"merge_dtype": None, "merge_device": None, "output_dtype": None, "output_device": None} if p["t"] == "T" or case["plain"] else {"merge_dtype": torch.float64}
    out = {}
    try:
        sd_mecha.merge(r, output=out, threads=rng.choice([0, 0, 2]), strict_weight_space=False, total_buffer_size=1 << 16, tqdm=lib.quiet, **options)
    except (TypeError, ValueError, RuntimeError) as e:
        return None if case["pc"] == "failed" else f"the merge fails: {type(e).__name__}: {e}"
    if case["pc"] == "failed":
        return f"{given!r} was delivered to a parameter of type {p['t']} as {seen}"
    expect = {k: g for k, g in zip(keys, case["got"]) if g != "missing"}
    if set(seen) != set(expect) or set(out) != set(expect):
        return f"the keys {sorted(seen)} received a value, it should be {sorted(expect)}"
    for k, g in expect.items():
        s, v = source[k], seen[k]
        if kind_of(v) != g:
            return f"{s!r} arrives as {v!r} ({kind_of(v)}), it should be {g}"
        if isinstance(s, torch.Tensor) and isinstance(v, torch.Tensor) and v.shape != s.shape:
            return f"a tensor of shape {list(s.shape)} arrives with shape {list(v.shape)}"
        a, b = number(s), number(v)
        if p["t"] == "tensor" and isinstance(s, (int, float)):
            a = torch.tensor(float(a)).item() if abs(a) < 1e30 else a      # as a float tensor
            if abs(a) >= 1e30:
                continue
        elif g == "int":
            a = int(a)
        elif g == "bool":
            a = bool(a)
        if a != b:
            return f"{s!r} arrives as {v!r}"
        ctx.note(f"to {g}")


def wrap(rng, v):
    n = sd_mecha.literal(v)
    if isinstance(v, torch.Tensor) and rng.random() < 0.5:
        return sd_mecha.literal({k: v for k in KEYS})
    if isinstance(v, torch.Tensor) and rng.random() < 0.3:
        return same(n)
    return n


@merge_method(register=False)
def same(x: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return x


def main(ctx):
    lib.quiet_warm()
    model_configs.get_all = lambda: [CONFIG]       # inferring configs is C13's subject and takes most of the time
    base = dict(Types='{"int","float","bool","str","tensor","T"}', Wraps='{"plain","sd"}', Kinds='{"int","float","bool","str","none","tensor0","tensor1","list","object","recipe"}')
    ctx.tlc("Coerce", label="design", workers=4, consts={**base, "Forms": '{"scalar","path","dict","recipes"}', "NK": 2 if ctx.quick else 3})
    lines = []
    for forms, nk in (('{"scalar"}', 2), ('{"path"}', 3), ('{"dict"}', 2), ('{"recipes"}', 2)) + (() if ctx.quick else (('{"dict","recipes"}', 3),)):
        lines += [{**g, "nk": nk} for g in ctx.tlc("Coerce", "CoerceGen", label=f"all {forms}", workers=1, consts={**base, "Forms": forms, "NK": nk}).lines]
    if not ctx.quick:
        lines = ctx.rng.sample(lines, min(len(lines), 20000))
    for g in lines:
        if g["param"]["t"] == "bool" and "str" in g["vals"]:
            continue        # any Python value has a truth value
        for plain in (True, False):
            ctx.check(execute, {**g, "plain": plain, "seed": ctx.rng.randrange(1 << 30)})


def replay(ctx, case):
    ctx.check(execute, case)
