"""C19: RecipeTypes decides which compositions agree on model configs, when they are composed and when their inputs are
opened; the real library has to give the same verdicts and the same result config."""
import random
import torch
from checks import types
from checks.types import REJECT
from vh import lib
import sd_mecha
from sd_mecha.extensions import model_configs
from sd_mecha.recipe_nodes import RecipeNode

CONFIGS = {c: lib.config(f"vt-{c.lower()}", {f"{c}.{k}": ([1], "float32") for k in "klm"}) for c in ("cA", "cB", "cC")}
NAMES = {c.identifier: n for n, c in CONFIGS.items()}
DATA = {n: {k: torch.ones(1) for k in c.keys()} for n, c in CONFIGS.items()}
DATA["adhoc"] = {f"unheard.{k}": torch.ones(1) for k in "klm"}


def setup():
    for c in CONFIGS.values():
        try:
            model_configs.resolve(c.identifier)
        except ValueError:
            model_configs.register(c) if hasattr(model_configs, "register") else model_configs.register_aux(c)


def name(c):
    return "none" if c is None else "adhoc" if c.identifier == "structural" else NAMES[c.identifier]


def execute(ctx, g):
    setup()
    rng = random.Random(g["seed"])
    seen = []

    def body(values, kwargs):
        seen.append((None, None))
        res = torch.zeros(1)
        for i, v in enumerate(values):
            for x in v if isinstance(v, tuple) else (v,):
                if isinstance(x, sd_mecha.StateDict):
                    seen.append((i, name(x.model_config)))
                else:
                    res = res + x
        return res

    m = types.method(g, CONFIGS, rng, body)
    nodes, models = [], []
    for i, args in enumerate(g["args"]):
        row = []
        for a in args:
            if a["form"] == "number":
                row.append(rng.choice([1, 0.5]))
                continue
            data = DATA[a["real"]]
            n = types.node(a, CONFIGS, rng, depth=g["depth"], data=data)
            if name(n.model_config) != a["cf"]:
                return f"a recipe built with config {a['cf']} reports {name(n.model_config)}"
            models.append((i, a, n))
            row.append(n)
        nodes.append(row)
    before = [name(n.model_config) for _, _, n in models]
    r = None
    try:
        r = types.call(m, g, nodes, rng)
        r.model_config
        got = True
    except REJECT as e:
        got, error = False, e
    if got != g["accepted"]:
        return "a composition of models of different configs is accepted" if got else f"a composition of agreeing configs is rejected: {error}"
    ctx.note("composed" if got else "rejected when composed")
    if not got:
        if r is not None:
            out = {}
            try:
                sd_mecha.merge(r, output=out, threads=rng.choice([0, 2]), strict_weight_space=False, tqdm=lib.quiet)
                return f"models of different configs were merged, giving {sorted(out)}"
            except REJECT:
                return f"a rejected merge stored {sorted(out)}" if out else "a rejected merge evaluated something" if seen else None
        return
    if name(r.model_config) != g["config"]:
        return f"the config of the result is {name(r.model_config)}, the specification says {g['config']}"
    for use in (lambda: types.keep(r), lambda: types.keep_kw(x=r), lambda: types.keep_many(r, r), lambda: r | r, lambda: sd_mecha.literal({"cA.k": r})):
        if name(use().model_config) != g["config"]:
            return "nesting the recipe changed its config"
    rets = {a["real"] for i, a, _ in models if g["params"][i]["cf"] == "none"}
    result = g["ret"]["cf"] if g["ret"]["cf"] != "none" else next(iter(rets), None)
    if not models or result is None:
        return      # nothing says which keys there are
    if g["depth"] and rng.random() < 0.3:
        r = types.keep(r)
    out = {}
    try:
        sd_mecha.merge(r, output=out, merge_dtype=rng.choice([None, torch.float64]), threads=rng.choice([0, 2]), strict_weight_space=False, tqdm=lib.quiet)
        got = True
    except REJECT as e:
        got, error = False, e
    if got != g["merges"]:
        return f"models of different configs were merged, giving {sorted(out)}" if got else f"models of agreeing configs are not merged: {type(error).__name__}: {error}"
    if [name(n.model_config) for _, _, n in models] != before:
        return "merging changed the config of an argument"
    ctx.note("merged" if got else "rejected when opened")
    if not got:
        return "a rejected merge stored something" if out else None
    for i, c in seen:
        if i is None:
            continue
        demand = g["params"][i]["cf"]
        if c not in ("none", demand if demand != "none" else result):
            return f"parameter {i} was given a model of config {c}"
    if not set(out) <= set(DATA[result]) or all(a["real"] == result for _, a, _ in models) and set(out) != set(DATA[result]):
        return f"the result has the keys {sorted(out)}, its config has {sorted(DATA[result])}"


def main(ctx):
    base = dict(SpaceSpecs='{"p","none","wdp"}', Hows='{"pos","def","var","kw"}', RetSpaces='{"p"}', ArgSpaces='{"p"}', RetConfigs='{"none","cA","cB"}',
                ConfigDemands='{"none","cA","cB"}', ArgConfigs='{"none","cA","cB"}', Reals='{"cA","cB","adhoc"}')
    ctx.tlc("RecipeTypes", label="design", workers=4, consts={**base, "NParams": 2, "MaxVar": 1 if ctx.quick else 2, "SpaceSpecs": '{"none"}' if ctx.quick else base["SpaceSpecs"]}, timeout=2000)
    one = ctx.tlc("RecipeTypes", "RecipeTypesGen", label="all signatures with one parameter", consts={**base, "NParams": 1, "MaxVar": 2, "SpaceSpecs": '{"none"}' if ctx.quick else base["SpaceSpecs"]}).lines
    n = 700 if ctx.quick else 8000
    sims = [ctx.tlc("RecipeTypes", "RecipeTypesGen", label=l, simulate=2 * n, consts={**base, "NParams": p, "MaxVar": 2, **kw}).lines for l, p, kw in [
        ("two parameters", 2, {}),
        ("three parameters, one config likely", 3, {"ArgConfigs": '{"none","cA"}', "Reals": '{"cA","adhoc"}', "ConfigDemands": '{"none","cA"}', "RetConfigs": '{"none","cA"}'}),
        ("three parameters, configs unknown", 3, {"ArgConfigs": '{"none"}', "Reals": '{"cA","cB"}', "ConfigDemands": '{"none","cA","cB"}', "RetConfigs": '{"none"}'}),
        ("four parameters", 4, {"ArgConfigs": '{"none","cA","cB","cC"}', "Reals": '{"cA","cB","cC","adhoc"}'}),
    ]]
    if ctx.quick and len(one) > n:
        one = ctx.rng.sample(one, n)
    for lines in (one, *sims):
        for g in lines:
            ctx.check(execute, {**g, "seed": ctx.rng.randrange(1 << 30), "depth": ctx.rng.choice([0, 1, 1, 2])})
            ctx.note(f"{len(g['params'])} parameters")


def replay(ctx, case):
    ctx.check(execute, case)
