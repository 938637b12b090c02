"""C32: Views evaluates recipes with a machine that says which method is called for which key and what every dictionary parameter gives;
the programs are merged by the real code, and what the methods were given is compared."""
import random
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, StateDictKeyError, merge_method
from vh import lib

CALLS = []


def note(tag, kwargs, views=()):
    """What a method with **kwargs was given."""
    cache = kwargs["cache"]
    CALLS.append((tag, kwargs["key"], None if cache is None else id(cache), cache is None or isinstance(cache, dict)))
    if cache is not None:
        cache[tag, kwargs["key"]] = torch.ones(1)
    for v in views:
        assert isinstance(v, StateDict)


def following(d, key):
    keys = list(d.model_config.keys())
    return keys[(keys.index(key) + 1) % len(keys)] if key in keys else keys[0]


D, V, N = Parameter(StateDict[torch.Tensor]), Parameter(torch.Tensor), Parameter(int, "param")
R = Return(torch.Tensor)


def methods():
    m = {}

    def add(name):
        return lambda f: m.__setitem__(name, merge_method(f, register=False))

    @add("eager")
    def eager(a: V, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        return 2 * a

    @add("eager plain")
    def eager_plain(a: V, *, tag: N) -> R:
        return 2 * a

    @add("eager2")
    def eager2(a: V, b: V, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        return a + 2 * b

    @add("eager2 plain")
    def eager2_plain(a: V, *, b: V, tag: N) -> R:
        return a + 2 * b

    @add("mixed")
    def mixed(a: V, d: D, tag: N, **kw) -> R:
        note(tag, kw)
        return a + 2 * d[following(d, kw["key"])]

    @add("own")
    def own(d: D, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        return d[kwargs["key"]] + 1

    @add("next")
    def next_(*ds: D, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        return ds[0][following(ds[0], kwargs["key"])] + 1

    @add("twice")
    def twice(tag: N, d: D, **kwargs) -> R:
        note(tag, kwargs)
        x = d[kwargs["key"]]
        y = d[kwargs["key"]]
        return x + y

    @add("sum")
    def sum_(d: D, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        total = torch.zeros(1, dtype=torch.float64)
        for k in (d if tag % 3 == 0 else d.keys() if tag % 3 == 1 else d.model_config.keys()):
            try:
                total = total + d[k]
            except StateDictKeyError:
                pass
        return total

    @add("len")
    def len_(d: D, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        assert len(list(d)) == len(list(d.keys())) == len(d)
        return torch.full((1,), len(d), dtype=torch.float64)

    @add("len plain")
    def len_plain(d: D, *, tag: N) -> R:
        return torch.full((1,), len(d), dtype=torch.float64)

    @add("has")
    def has(d: D, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        return torch.full((1,), kwargs["key"] in d, dtype=torch.float64)

    @add("get")
    def get(d: D, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        return d.get(kwargs["key"], torch.full((1,), -7, dtype=torch.float64))

    @add("gone")
    def gone(d: D, *, tag: N, **kwargs) -> R:
        note(tag, kwargs)
        try:
            x = d["no such key"]
        except KeyError:
            x = 0
        return x + d[kwargs["key"]]

    return m


METHODS = methods()


def execute(ctx, case):
    rng = random.Random(case["seed"])
    keys = [f"Views.{c}" for c in rng.sample("abcdefgh", case["nk"])]
    names = {0: "no such key", **dict(enumerate(keys, 1))}
    config = lib.config("vt-views", {k: ([1], "float64", {"optional": True}) for k in keys})
    leaves = case["present"]
    nodes = []
    for n, have in enumerate(leaves, 1):
        values = {names[k]: torch.full((1,), 10.0 * n + k, dtype=torch.float64) for k in have}
        nodes.append(sd_mecha.model(values, config) if rng.random() < 0.5 or not values else sd_mecha.literal(values, config, "weight"))
    given = {c: {} for c in range(1, 3)}
    for n, p in enumerate(case["prog"], len(leaves) + 1):
        name = p["kind"] + ("" if p["context"] else " plain")
        args = [nodes[a - 1] for a in p["args"]]
        if p["kind"] == "twice":
            r = METHODS[name](n, *args)
        elif name == "eager2 plain":
            r = METHODS[name](args[0], b=args[1], tag=n)
        else:
            r = METHODS[name](*args, tag=n)
        if p["cache"]:
            if r.set_cache(given[p["cache"]]) is not r:
                return "set_cache does not return the node"
        elif rng.random() < 0.3 and r.set_cache(None) is not r:
            return "set_cache does not return the node"
        nodes.append(r)
    kept = {c: set() for c in given}
    total = {c: set() for c in given}
    for i, root in enumerate(case["merges"], 1):
        CALLS.clear()
        options = rng.choice([{}, {"merge_dtype": None, "merge_device": None}, {"merge_dtype": None}, {"output_dtype": None}])
        out = sd_mecha.merge(nodes[root - 1], **{"merge_dtype": torch.float64, "output_dtype": torch.float64, **options}, threads=rng.choice([0, 0, 2]), total_buffer_size=1 << 12,
                             strict_weight_space=False, tqdm=lib.quiet)
        want = {names[k]: v[0] for k, v in enumerate(case["outs"][i - 1], 1) if v}
        got = {k: v.item() for k, v in out.items()}
        if got != want:
            return f"merge {i} of node {root} gives {got}, specified: {want}"
        calls = {(t, k) for t, k, *_ in CALLS}
        may = {(e["n"], names[e["k"]]) for e in case["may"] if e["merge"] == i}
        must = {(e["n"], names[e["k"]]) for e in case["must"] if e["merge"] == i}
        if calls - may:
            return f"merge {i}: methods were told to compute {sorted(calls - may)}, which nothing asked for"
        if must - calls:
            return f"merge {i}: {sorted(must - calls)} were not computed by their methods"
        for t, k, cache, ok in CALLS:
            c = case["prog"][t - len(leaves) - 1]["cache"]
            if cache != (id(given[c]) if c else None):
                return f"merge {i}: the method of node {t} received {'another cache' if cache else 'no cache'}, its node has {'cache ' + str(c) if c else 'none'}"
        for c in given:
            kept[c] |= {x for x in may if case["prog"][x[0] - len(leaves) - 1]["cache"] == c}
            total[c] |= {x for x in must if case["prog"][x[0] - len(leaves) - 1]["cache"] == c}
            if set(given[c]) - kept[c] or total[c] - set(given[c]):
                return f"after merge {i}: cache {c} holds {sorted(given[c])}, specified: at least {sorted(total[c])}"
        ctx.note("calls", len(calls))
        ctx.note("cached" if any(given.values()) else "no cache")


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    kinds = '{"eager","eager2","mixed","own","next","sum","len","has","get","gone","twice"}'
    base = dict(NL=2, NN=3, NK=3, Kinds=kinds, NCaches=2, NMerges=2, MissOneIn=1)
    ctx.tlc("Views", label="design", workers=8, timeout=3000, consts=dict(base, NL=1, NN=2, NK=2, NCaches=1, MissOneIn=0))
    n = 500 if q else 8000
    lines = ctx.tlc("Views", "ViewsGen", label="small programs", simulate=n, depth=400, workers=1, timeout=2000, consts=dict(base, NN=2)).lines
    lines += ctx.tlc("Views", "ViewsGen", label="programs", simulate=n, depth=3000, workers=1, timeout=3000, consts=dict(base, NN=4)).lines
    lines += ctx.tlc("Views", "ViewsGen", label="all keys present", simulate=n, depth=3000, workers=1, timeout=3000, consts=dict(base, NN=4, MissOneIn=30, NK=4)).lines
    for g in lines:
        ctx.check(execute, {**g, "seed": ctx.rng.randrange(1 << 20)})


def replay(ctx, case):
    return execute(ctx, case)
