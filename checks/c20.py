"""C20: CallBind decides which calls are accepted and what every parameter is bound to; the real merge methods have to agree
(and so does Python itself, which is asked for every call)."""
import inspect, random
from typing import TypeVar
import torch
from checks import types
from vh import lib
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.recipe_nodes import LiteralRecipeNode

CONFIG = lib.config("vt-call", {"k": ([1], "float64"), "l": ([1], "float64")})
T = TypeVar("T")
DEFAULTS = [7.5, -2, "text", None, True, "", 0.0]


def build(g, rng, seen):
    s = g["sig"]
    env = {"R": Return(torch.Tensor, "weight", CONFIG), "seen": seen, "torch": torch}
    parts, names, defaults = [], [], {}

    def declare(name, has_default):
        d = rng.choice(DEFAULTS) if has_default else None
        kind = T if isinstance(d, (str, bool)) else rng.choice([float, torch.Tensor, T])
        env[f"P_{name}"] = Parameter(kind, "param" if has_default and rng.random() < 0.5 or rng.random() < 0.3 else None)
        if has_default:
            defaults[name] = d
            env[f"D_{name}"] = d
        names.append(name)
        return f"{name}: P_{name}" + (f" = D_{name}" if has_default else "")

    for j in range(1, s["pos"] + 1):
        parts.append(declare(f"p{j}", j > s["pos"] - s["def"]))
    if s["var"]:
        env["P_rest"] = Parameter(rng.choice([float, torch.Tensor]))
        parts.append("*rest: P_rest")
    elif s["kw"]:
        parts.append("*")
    for j, d in enumerate(s["kw"], 1):
        parts.append(declare(f"k{j}", d))
    extra = rng.random() < 0.5
    got = "{" + ", ".join(f"'{n}': {n}" for n in names + (["rest"] if s["var"] else [])) + "}"
    src = f"def m({', '.join(parts + (['**kwargs'] if extra else []))}) -> R:\n    seen.append({got})\n    return torch.zeros(1)\n"
    exec(src, env)
    plain = {}
    exec(f"def m({', '.join(parts)}): pass", env, plain)
    return merge_method(env["m"], register=False), inspect.signature(plain["m"]), defaults


def value(rng, i, special):
    """The i-th value of a call: all different, at most one of them falsy."""
    if i == special:
        return rng.choice([0, 0.0, None, False])
    v = i + 0.5 if rng.random() < 0.7 else i
    return v if rng.random() < 0.8 else sd_mecha.literal(v)


def raw(x):
    if isinstance(x, LiteralRecipeNode):
        x = x.value
    return x.item() if isinstance(x, torch.Tensor) else x


def execute(ctx, g):
    rng = random.Random(g["seed"])
    seen = []
    m, sig, defaults = build(g, rng, seen)
    ks = list(g["ks"])
    rng.shuffle(ks)
    special = rng.choice([None, *range(1, g["n"] + 1), *range(50, 50 + len(ks))])
    args = [value(rng, i, special) for i in range(1, g["n"] + 1)]
    kwargs = {k: value(rng, 50 + i, special) for i, k in enumerate(ks)}
    try:
        sig.bind(*args, **kwargs)
        python = True
    except TypeError:
        python = False
    assert python == g["accepted"], "the specification disagrees with Python"
    given = dict(kwargs)
    try:
        r = m(*args, **kwargs)
    except (TypeError, RuntimeError, ValueError) as e:
        return f"a call Python accepts is rejected: {e}" if g["accepted"] else None
    if not g["accepted"]:
        return "a call Python rejects is accepted"
    if kwargs != given:
        return "the call changed its arguments"
    ctx.note("accepted")

    def want(name, slot):
        return raw(args[slot[1] - 1]) if slot[0] == "arg" else raw(kwargs[name]) if slot[0] == "kw" else defaults[name]

    expect = {f"p{j}": want(f"p{j}", s) for j, s in enumerate(g["pos"], 1)} | {f"k{j}": want(f"k{j}", s) for j, s in enumerate(g["kw"], 1)}
    if g["sig"]["var"]:
        expect["rest"] = [raw(args[j - 1]) for j in g["rest"]]
    for merge_dtype in ([None, torch.float64] if g["deep"] else []):
        seen.clear()
        sd_mecha.merge(r, merge_dtype=merge_dtype, threads=rng.choice([0, 0, 2]), tqdm=lib.quiet)
        if len(seen) != 2:
            return f"the method ran {len(seen)} times for two keys"
        for s in seen:
            for name, e in expect.items():
                x = [raw(v) for v in s[name]] if name == "rest" else raw(s[name])
                if x != e or (e is None) != (x is None):
                    return f"parameter {name} received {s[name]!r}, the call gives it {e!r}"
        ctx.note("evaluated")
    # and a call inside a call
    if g["deep"]:
        types.keep(r)


def main(ctx):
    lib.quiet_warm()
    ctx.tlc("CallBind", label="design", workers=4, consts=dict(MaxPos=2 if ctx.quick else 3, MaxKw=2, MaxArgs=4))
    lines = ctx.tlc("CallBind", "CallBindGen", label="all calls", workers=1, consts=dict(MaxPos=2, MaxKw=1, MaxArgs=4)).lines
    big = ctx.tlc("CallBind", "CallBindGen", label="calls of bigger signatures", workers=1, timeout=2500, **({"simulate": 25000, "depth": 40} if ctx.quick else {}), consts=dict(MaxPos=3 if ctx.quick else 3, MaxKw=2, MaxArgs=5)).lines
    good, bad = [g for g in big if g["accepted"]], [g for g in big if not g["accepted"]]
    big = ctx.rng.sample(good, min(len(good), 2000 if ctx.quick else 20000)) + ctx.rng.sample(bad, min(len(bad), 3000 if ctx.quick else 60000))
    for g in lines + big:
        deep = g["accepted"] and (ctx.rng.random() < (0.9 if ctx.quick else 1))
        ctx.check(execute, {**g, "seed": ctx.rng.randrange(1 << 30), "deep": deep})


def replay(ctx, case):
    ctx.check(execute, case)
