"""C17: Lora says which delta each weight of a base gets from a network. The networks it makes are converted, and merged onto their base,
with the real library."""
import fractions, pathlib, random, shutil, tempfile
import torch
import sd_mecha
from sd_mecha import literal, model
from sd_mecha.extensions import merge_methods, model_configs
from vh import lib, st

DT = torch.float64
# a base format that is converted into another one
FURTHER = {"sd1-kohya": "sd1-ldm", "sdxl-kohya": "sdxl-sgm", "sdxl-diffusers_unet_only": "sdxl-sgm", "flux-flux_diffuser_only": "flux-flux", "flux-flux": "flux-flux_diffuser_only"}


def layouts(names=None):
    return [{"name": c.identifier, "keys": [{"t": k.split("."), "float": m.dtype is None or m.dtype.is_floating_point, "bias": k.endswith("bias")} for k, m in c.keys().items()]}
            for c in sorted(model_configs.get_all_base(), key=lambda c: c.identifier) if not c.identifier.startswith("vt-") and (names is None or c.identifier in names)]


def merged(recipe, root=None, **kw):
    return dict(sd_mecha.merge(recipe, merge_dtype=DT, output_dtype=DT, strict_weight_space=False, check_finite=False, check_mandatory_keys=False, omit_ema=False, tqdm=lib.quiet, total_buffer_size=1 << 18, **kw))


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c17-"))
    try:
        return run(ctx, case["network"], random.Random(case["seed"]), root)
    finally:
        shutil.rmtree(root)


def run(ctx, case, rng, root):
    base, naming = model_configs.resolve(case["base"]), case["naming"]
    told = f"{naming} network for {base.identifier}, {[(a['key'], sorted(a['parts'])) for a in case['adapters']]}: "
    network, want = {}, {}
    for a in case["adapters"]:
        up, down = torch.tensor(a["up"], dtype=DT), torch.tensor(a["down"], dtype=DT)
        tensors = {"up": up if a["linear"] else up[..., None, None], "down": down[..., 0, 0] if a["linear"] else down, "alpha": torch.tensor(a["alpha"] / 8, dtype=DT)}
        for p in sorted(a["parts"]):
            network[f"{a['stem']}.{a['names'][p]}"] = tensors[p]
        if a["delta"]:
            d = torch.tensor([[[[n / m for n, m in xs] for xs in ys] for ys in is_] for is_ in a["delta"]], dtype=DT)
            want[a["key"]] = d[..., 0, 0] if a["linear"] else d
    network = dict(rng.sample(list(network.items()), len(network)))
    before = {k: t.clone() for k, t in network.items()}
    config = f"{base.identifier}_{naming}_lora"
    try:
        if known := set(network) - set(model_configs.resolve(config).keys()):
            return told + f"the config {config} has no key {sorted(known)[:3]}"
        if rng.random() < 0.3:
            st.write(root / "network.safetensors", network)
            lora = model(root / "network.safetensors", config)
        else:
            lora = literal(network, config, "weight")
        form = rng.randrange(3)
        if form == 0:
            recipe = merge_methods.resolve(f"convert_'{config}'_to_base")(lora)
        else:
            recipe = sd_mecha.convert(lora, rng.choice([base.identifier, base, literal({}, base)]))
        if recipe.merge_space != "delta" or recipe.model_config.identifier != base.identifier:
            return told + f"is a recipe of {recipe.model_config} in {recipe.merge_space} space"
        threads = rng.choice([0, 2])
        got = merged(recipe, threads=threads)
        if message := differs(got, want):
            return told + message
        # onto the base
        ids = {k: i + 1 for i, k in enumerate(base.keys())}
        some = set(rng.sample(list(ids), min(20, len(ids)))) | {a["key"] for a in case["adapters"]}
        weights = {k: torch.full(want[k].shape if k in want else [1], float(ids[k]), dtype=DT) for k in ids if k in some}
        onto = literal(weights, base, "weight")
        strength = rng.choice([1.0, 0.5, -2.0])
        got = merged(sd_mecha.add_difference(onto, recipe, alpha=strength) | onto, threads=threads)
        if message := differs(got, {k: w + strength * want[k] if k in want else w for k, w in weights.items()}):
            return told + f"onto its base, with {strength}: " + message
        # through the base, into another layout
        if (target := FURTHER.get(base.identifier)) and not any(k in want and want[k].shape for k in want if "in_proj" in k):
            further = sd_mecha.convert(lora, target)
            a, b = merged(further, threads=threads), merged(sd_mecha.convert(literal(want, base, "delta"), target), threads=threads)
            if message := differs(a, b):
                return told + f"converted to {target}: " + message
            ctx.note("converted further", len(a))
    except Exception as e:
        return told + f"is rejected with {type(e).__name__}: {e}"
    if changed := [k for k in network if not torch.equal(network[k], before[k])]:
        return told + f"changes the tensors {changed}"
    ctx.note(f"{base.identifier} {naming}")
    ctx.note("deltas", len(want))
    return None


def complete(ctx, case):
    """A network with something for every weight."""
    c, rng = case["network"], random.Random(case["seed"])
    base, config = model_configs.resolve(c["base"]), f"{c['base']}_{c['naming']}_lora"
    told = f"{config}: "
    try:
        layout = set(model_configs.resolve(config).keys())
        if layout != (want := {f"{w['stem']}.{n}" for w in c["weights"] for n in c["names"].values()}):
            return told + f"has the keys {sorted(layout - want)[:4]} too much, is missing {sorted(want - layout)[:4]}"
        parts = {w["stem"]: {"up": torch.tensor([[float(i), 1.0]], dtype=DT), "down": torch.tensor([[2.0], [float(rng.randrange(99))]], dtype=DT), "alpha": torch.tensor(4.0, dtype=DT)} for i, w in enumerate(c["weights"])}
        network = {f"{s}.{c['names'][p]}": t for s, ps in parts.items() for p, t in ps.items()}
        got = merged(sd_mecha.convert(literal(dict(rng.sample(list(network.items()), len(network))), config, "weight"), base), threads=rng.choice([0, 2]))
    except Exception as e:
        return told + f"a network with all weights is rejected with {type(e).__name__}: {e}"
    if message := differs(got, {w["key"]: 2 * parts[w["stem"]]["up"] @ parts[w["stem"]]["down"] for w in c["weights"]}):
        return told + "of a network with all weights " + message
    ctx.note("weights of whole networks", len(got))
    return None


def differs(got, want):
    if set(got) != set(want):
        return f"has {sorted(set(got) - set(want))[:5]} too much, is missing {sorted(set(want) - set(got))[:5]}"
    for k, w in want.items():
        if got[k].shape != w.shape or not torch.allclose(got[k], w, rtol=1e-12, atol=1e-12):
            return f"{k} is {got[k].tolist()}, not {w.tolist()}"
    return None


BASE = dict(Namings='{"kohya","lycoris"}', MaxAdapters=5, Sizes="{1,2,3}", Ranks="{1,2,3}", Kernels="{1,2,3}", AlphaSet="{0,1,4,8,16,28}", Seeds="{0,1,2,3,4,5,6}", Check="FALSE")
TINY = [{"name": "tiny", "keys": [{"t": t, "float": f, "bias": t[-1] == "bias"} for t, f in ((["a", "weight"], True), (["a", "bias"], True), (["b", "c"], True), (["n"], False))]}]


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    data = layouts()
    ctx.tlc("Lora", label="laws", workers=8, timeout=3000, traces=TINY, consts=dict(BASE, MaxAdapters=2, Sizes="{1,2}", Ranks="{1,2}" if q else "{1,2,3}", Kernels="{1}" if q else "{1,2}", AlphaSet="{0,4}" if q else "{0,4,9}", Seeds="{1}" if q else "{1,4}", Check="TRUE", Namings='{"kohya"}'))
    for c in ctx.tlc("Lora", "LoraNames", label="names", workers=4, timeout=3000, traces=data, consts=dict(BASE, MaxAdapters=0)).lines:
        ctx.check(complete, {"network": c, "seed": ctx.rng.randrange(1 << 20)}, sample={k: c[k] for k in ("base", "naming")})
    cases = ctx.tlc("Lora", "LoraGen", label="networks", workers=1, simulate=60 if q else 1500, depth=60, timeout=2000, traces=data, consts=BASE).lines
    cases += ctx.tlc("Lora", "LoraGen", label="larger networks", workers=1, simulate=12 if q else 200, depth=120, timeout=2000, traces=data, consts=dict(BASE, MaxAdapters=20)).lines
    for c in cases:
        ctx.check(execute, {"network": c, "seed": ctx.rng.randrange(1 << 20)}, sample={k: c[k] for k in ("base", "naming")} | {"keys": [a["key"] for a in c["adapters"]]})


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute if "adapters" in case["network"] else complete, case)
