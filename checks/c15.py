"""C15: ConvGraph registers converters and converts in all orders; the real convert() has to return a shortest chain of them, or raise."""
import pathlib, random, shutil, tempfile
import torch
from checks import recipes
from vh import lib, snapshot, st
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from sd_mecha.recipe_nodes import LiteralRecipeNode, MergeRecipeNode, ModelRecipeNode

NAMES = ["vt{}-g", "vt.{}-ldm", "vt{}-aaa"]
counter = [0]


def configs(n, rng):
    """Configs with their own keys, registered; some names sort before, some after each other."""
    counter[0] += 1
    order = list(range(n))
    rng.shuffle(order)
    pattern = rng.choice(NAMES)
    cfgs = [lib.config(pattern.format(f"{counter[0]}.{order[i]}"), {f"c{counter[0]}.{i}.{k}": ([1], "float64") for k in "kl"}) for i in range(n)]
    for c in cfgs:
        rng.choice([model_configs.register, model_configs.register_aux])(c)
    return cfgs


def converter(a, b, digit, rng):
    """x -> 10 x + digit, so that results tell which converters were applied."""
    keys, back = list(a.keys()), dict(zip(b.keys(), a.keys()))
    as_id = rng.random() < 0.3
    A, B = (a.identifier, b.identifier) if as_id else (a, b)

    def run(weights, **kwargs):
        return weights[back[kwargs["key"]]] * 10 + digit

    run.__annotations__ = {"weights": Parameter(sd_mecha.StateDict[torch.Tensor], model_config=A), "return": Return(torch.Tensor, model_config=B)}
    return merge_method(run, identifier=f"vt-convert-{counter[0]}-{digit}", is_conversion=True)


def chain(node, known):
    methods = []
    while isinstance(node, MergeRecipeNode) and node.merge_method in known:
        methods.append(known[node.merge_method])
        if node.kwargs or len(node.args) != 1:
            return None, node
        node = node.args[0]
    return methods[::-1], node


def source(cfg, rng, root):
    data = {k: torch.full((1,), float(j + 1), dtype=torch.float64) for j, k in enumerate(cfg.keys())}
    kind = rng.choice(["memory", "file", "merge", "given"])
    if kind == "file":
        p = root / f"source{len(list(root.iterdir()))}.safetensors"
        st.write(p, data)
        if rng.random() < 0.5:
            return sd_mecha.model(p.name, cfg), data, [root]
        return sd_mecha.model(p, cfg), data, ()
    if kind == "merge":
        return sd_mecha.n_average(sd_mecha.literal(data, cfg, "weight"), sd_mecha.literal(data, cfg, "weight")), data, ()
    return sd_mecha.literal(data, cfg if rng.random() < 0.5 else cfg.identifier, "weight"), data, ()


def execute(ctx, case):
    rng = random.Random(case["seed"])
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c15-"))
    try:
        with snapshot.restored(merge_methods, model_configs):
            cfgs = configs(case["n"], rng)
            known, edges = {}, []
            for h in case["history"]:
                while len(edges) < h["n"]:
                    a, b = case["edges"][len(edges)]
                    m = converter(cfgs[a - 1], cfgs[b - 1], len(edges) + 1, rng)
                    edges.append((a, b))
                    known[m] = len(edges)
                bad = conversion(ctx, h, cfgs, edges, known, rng, root)
                if bad:
                    return f"{bad} [converters {edges}, {h}]"
    finally:
        shutil.rmtree(root)


def conversion(ctx, h, cfgs, edges, known, rng, root):
    src, tgt = cfgs[h["src"] - 1], cfgs[h["tgt"] - 1]
    node, data, dirs = source(src, rng, root)
    before = recipes.shape(node) if not isinstance(node, LiteralRecipeNode) and "LiteralRecipeNode" not in repr(getattr(node, "args", "")) else None
    config_before, space = node.model_config, node.merge_space
    like = {k: torch.ones(1, dtype=torch.float64) for k in tgt.keys()}
    st.write(root / "target.safetensors", like)
    named = rng.choice([None, tgt, tgt.identifier])      # without a config: its keys tell
    if rng.random() < 0.2:
        target, dirs = sd_mecha.model("target.safetensors", *([named] if named else [])), dirs or [root]
        if rng.random() < 0.3:
            target = sd_mecha.n_average(target, sd_mecha.literal(like, tgt, "weight"))
    else:
        target = rng.choice([lambda: tgt, lambda: tgt.identifier, lambda: sd_mecha.literal(like, tgt, "weight"), lambda: sd_mecha.model(root / "target.safetensors", named or tgt),
                             lambda: sd_mecha.weighted_sum(*[sd_mecha.literal(like, tgt, "weight")] * 2)])()
    try:
        res, error = sd_mecha.convert(node, target, dirs), None
    except Exception as e:
        res, error = None, e
    if (before is not None and recipes.shape(node) != before) or node.model_config is not config_before or node.merge_space != space:
        return "the conversion changed the recipe"
    if not h["dist"]:
        ctx.note("no chain")
        return None if isinstance(error, ValueError) else f"no chain exists, but the result is {res!r} {error!r}"
    if error is not None:
        return f"a chain of {h['dist'][0]} converters exists, but {type(error).__name__}: {error}"
    steps, bottom = chain(res, known)
    if steps is None or bottom is not node:
        return f"the result is not a chain of converters over the recipe: {res!r}"
    ctx.note(f"chain of {len(steps)}")
    if len(steps) != h["dist"][0]:
        return f"{len(steps)} converters were applied, {h['dist'][0]} are enough"
    at = h["src"]
    for s in steps:
        if edges[s - 1][0] != at:
            return f"converter {edges[s - 1]} is applied to a recipe of config {at}"
        at = edges[s - 1][1]
    if at != h["tgt"] or res.model_config.identifier != tgt.identifier:
        return f"the chain ends in {at}"
    if rng.random() < 0.25 and len(steps) <= 12:
        got = sd_mecha.merge(res, merge_dtype=None, output_dtype=None, threads=0, model_dirs=dirs, total_buffer_size=4096, tqdm=lib.quiet)
        for (k, v), t in zip(data.items(), tgt.keys()):
            want = v.item()
            for s in steps:
                want = want * 10 + s
            if t not in got or got[t].tolist() != [want]:
                return f"{t} is {got.get(t)}, the chain {steps} gives {want}"
        if set(got) != set(tgt.keys()):
            return f"the converted model has the keys {sorted(got)}"
        ctx.note("merged")


def without_config(ctx, case):
    """Recipes whose config is ad hoc cannot be converted; dictionaries of hyperparameters are converted from the config their keys match."""
    rng = random.Random(case["seed"])
    with snapshot.restored(merge_methods, model_configs):
        cfgs = configs(3, rng)
        m = converter(cfgs[0], cfgs[1], 1, rng)
        node = sd_mecha.literal({"unheard.of": torch.ones(1)}, None, "weight")
        r = node if case["n"] % 2 else sd_mecha.n_average(node)
        for target in (cfgs[1], cfgs[1].identifier, "vt-nowhere", "sd1-ldm"):
            try:
                sd_mecha.convert(r, target)
            except ValueError:
                pass
            else:
                return f"a recipe of an ad hoc config is converted to {target}"
            if node.model_config is not None:
                return "the conversion left a config in the recipe"
        good = sd_mecha.literal({k: torch.ones(1) for k in cfgs[0].keys()}, cfgs[0], "weight")
        for target in ("vt-nowhere", "sd1-ldm", cfgs[2]):
            try:
                sd_mecha.convert(good, target)
            except ValueError:
                continue
            return f"converted to {target} without a converter"
        if sd_mecha.convert(good, "vt-nowhere" if case["n"] > 99 else cfgs[0].identifier) is not good:
            return "a conversion to the config of the recipe changes it"
        hyper = {k: 0.5 for k in cfgs[0].keys()}
        res = sd_mecha.convert(hyper, cfgs[1])
        if not isinstance(res, MergeRecipeNode) or res.merge_method is not m:
            return f"hyperparameters are not converted: {res!r}"
        inferred = sd_mecha.literal({k: torch.ones(1) for k in cfgs[0].keys()}, None, "weight")
        res = sd_mecha.convert(inferred, cfgs[1])
        if not isinstance(res, MergeRecipeNode) or res.merge_method is not m or res.args[0] is not inferred:
            return f"a model without config is not converted from the config its keys match: {res!r}"
        if inferred.model_config is not None:
            return "the conversion left a config in the recipe"


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    ctx.tlc("ConvGraph", label="design(3 configs)", workers=4, timeout=2000, consts=dict(Configs="{1,2,3}", MaxEdges=2 if q else 4, MinEdges=0, MaxConversions=2))
    cases = []
    r = ctx.tlc("ConvGraph", "ConvGraphGen", label="all sequences of 2 converters and 2 conversions", workers=1, consts=dict(Configs="{1,2}", MaxEdges=3, MinEdges=0, MaxConversions=2)).lines
    cases += [(2, g) for g in ctx.rng.sample(r, min(len(r), 800 if q else 10000))]
    for n, m, low, k, num in ((3, 6, 0, 3, 1500), (4, 10, 3, 4, 1500), (5, 12, 6, 4, 1500), (7, 20, 10, 4, 800), (120, 120, 119, 4, 30)):
        r = ctx.tlc("ConvGraph", "ConvGraphGen", label=f"{n} configs, {m} converters", simulate=num if q else num * 10, depth=90 if n < 10 else 260,
                    consts=dict(Configs="{" + ",".join(map(str, range(1, n + 1))) + "}", MaxEdges=m, MinEdges=low, MaxConversions=k)).lines
        cases += [(n, g) for g in ctx.rng.sample(r, min(len(r), num // 2 if q else num * 5))]
    for n, g in cases:
        ctx.check(execute, {**g, "n": n, "kind": "graph", "seed": ctx.rng.randrange(1 << 30)})
    for j in range(8 if q else 60):
        ctx.check(without_config, {"kind": "without config", "n": j, "seed": ctx.rng.randrange(1 << 30)})


def replay(ctx, case):
    ctx.check({"graph": execute, "without config": without_config}[case["kind"]], case)
