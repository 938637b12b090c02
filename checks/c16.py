"""C16: KeyMaps says which source weights each key of a target layout is made of, and how. The real conversions are made with tensors
that tell where they come from."""
import random
import torch
import sd_mecha
from sd_mecha import literal
from sd_mecha.extensions import merge_methods, model_configs
from vh import lib

CONVERSIONS = {"sd1": ("sd1-kohya", "sd1-ldm"), "sdxl": ("sdxl-kohya", "sdxl-sgm"), "sdxl unet": ("sdxl-diffusers_unet_only", "sdxl-sgm"), "flux": ("flux-flux_diffuser_only", "flux-flux"),
               "flux backbone": ("flux-flux", "flux-flux_diffuser_only"), "sd1 blocks": ("sd1-supermerger_blocks", "sd1-ldm"), "sdxl blocks": ("sdxl-supermerger_blocks", "sdxl-sgm")}


def keys_of(config):
    return [{"t": k.split("."), "shape": list(m.shape or [])} for k, m in model_configs.resolve(config).keys().items()]


def layouts(names):
    return [{"name": n, "sources": keys_of(CONVERSIONS[n][0]), "targets": keys_of(CONVERSIONS[n][1])} for n in names]


def tensor(key, shape, i):
    """A tensor of this shape that differs from all others, and between its rows."""
    if not shape:
        return torch.tensor(float(i))
    rows = (torch.arange(shape[0], dtype=torch.float32) + i * 977) % 4194301
    return rows.reshape(-1, *[1] * (len(shape) - 1)).expand(shape)


def same(a, b):
    return a.shape == b.shape and ((a.data_ptr() == b.data_ptr() and a.stride() == b.stride()) or torch.equal(a, b))


def expected(how, parts):
    return torch.cat(parts) if how == "joined" else parts[0].T if how == "transposed" else parts[0].reshape(*parts[0].shape, 1, 1) if how == "1x1 kernel" else parts[0]


def execute(ctx, case):
    name, lost, dropped, rng = case["name"], set(case["lost"]), set(case["dropped"]), random.Random(case["seed"])
    source, target = (model_configs.resolve(c) for c in CONVERSIONS[name])
    told = f"{source.identifier} to {target.identifier} without {sorted(dropped)[:3]}{'...' if len(dropped) > 3 else ''}: "
    if name.endswith("blocks"):
        return blocks(ctx, case, told, source, target, lost, dropped, rng)
    tensors = {k: tensor(k, list(m.shape), i) for i, (k, m) in enumerate(source.keys().items()) if k not in dropped}
    if rng.random() < 0.5:
        tensors = dict(rng.sample(list(tensors.items()), len(tensors)))
    versions = {k: t._version for k, t in tensors.items()}
    recipe = converted(literal(tensors, source, "weight"), source, target, rng)
    if recipe.model_config is None or recipe.model_config.identifier != target.identifier:
        return told + f"is a recipe of {recipe.model_config}"
    try:
        out = sd_mecha.merge(recipe, merge_dtype=torch.float32, output_dtype=torch.float32, threads=rng.choice([0, 1, 2]), check_finite=False, check_mandatory_keys=False, tqdm=lib.quiet)
    except Exception as e:
        return told + f"is rejected with {type(e).__name__}: {e}"
    want = {o["t"]: o for o in case["out"] if o["parts"] and o["t"] not in lost}
    if set(out) != set(want):
        return told + f"is missing {sorted(set(want) - set(out))[:5]}, has {sorted(set(out) - set(want))[:5]} too much"
    for k, o in want.items():
        if list(out[k].shape) != list(target.keys()[k].shape):
            return told + f"{k} has the shape {list(out[k].shape)}, not {list(target.keys()[k].shape)}"
        if not same(out[k], expected(o["how"], [tensors[s] for s in o["parts"]])):
            return told + f"{k} is not the weight ({o['how']}) of {o['parts']}"
    if changed := [k for k, t in tensors.items() if t._version != versions[k]]:
        return told + f"changes the weights {changed[:5]} it is given"
    ctx.note(name)
    ctx.note("keys converted", len(out))
    return None


def converted(recipe, source, target, rng):
    return sd_mecha.convert(recipe, rng.choice([target.identifier, target, literal({}, target)]))


def blocks(ctx, case, told, source, target, lost, dropped, rng):
    values = {k: (i + 1) / 32 for i, k in enumerate(source.keys()) if k not in dropped}
    as_tensors = rng.random() < 0.5
    given = literal({k: torch.tensor(v) for k, v in values.items()} if as_tensors else values, source, "param")
    alphas = converted(given, source, target, rng)
    keys = list(target.keys())
    if not as_tensors or rng.random() < 0.5:
        alphas = sd_mecha.weighted_sum(literal({k: torch.tensor(0.0) for k in keys}, target, "weight"), literal({k: torch.tensor(1.0) for k in keys}, target, "weight"), alpha=alphas)
    try:
        out = sd_mecha.merge(alphas, merge_dtype=torch.float32, output_dtype=torch.float32, strict_weight_space=False, check_finite=False, check_mandatory_keys=False, omit_ema=False, tqdm=lib.quiet)
    except Exception as e:
        return told + f"is rejected with {type(e).__name__}: {e}"
    want = {o["t"]: values[o["parts"][0]] for o in case["out"] if o["t"] not in lost}
    got = {k: float(v) for k, v in out.items()}
    if got != want:
        return told + f"differs in {[(k, got.get(k), want.get(k)) for k in keys if got.get(k) != want.get(k)][:4]}"
    ctx.note(case["name"])
    ctx.note("keys converted", len(out))
    return None


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    for name in CONVERSIONS:
        data = layouts([name])
        consts = dict(Conversions="{" + f'"{name}"' + "}")
        out = ctx.tlc("KeyMaps", label=name, workers=1, timeout=1000, consts={**consts, "MaxDropped": 0}, traces=data).lines[0]["out"]
        cases = ctx.tlc("KeyMaps", "KeyMapsGen", label=f"{name}: incomplete sources", workers=1, simulate=12 if q else 150, depth=12, timeout=1000, consts={**consts, "MaxDropped": 3}, traces=data).lines
        cases = [{"dropped": [], "lost": []}] * 2 + cases
        for c in cases:
            ctx.check(execute, {"name": name, "dropped": c["dropped"], "lost": c["lost"], "out": out, "seed": ctx.rng.randrange(1 << 20)}, sample=f"{name}: {c['dropped'][:5]}")


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute, case)
