"""Builds real recipes from the programs of RecipeDag and merges them in a given execution mode."""
import random
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, StateDictKeyError, merge_method
from vh import lib, st


@merge_method(identifier="vt_strict")
def strict(a: Parameter(torch.Tensor), b: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return a + 2 * b


@merge_method(identifier="vt_keyword")
def keyword(a: Parameter(torch.Tensor), *, b: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return 3 * a - b


@merge_method(identifier="vt_next_key")
def next_key(a: Parameter(StateDict[torch.Tensor]), **kwargs) -> Return(torch.Tensor):
    keys = sorted(a.model_config.keys())
    return a[keys[(keys.index(kwargs["key"]) + 1) % len(keys)]]


@merge_method(identifier="vt_total")
def total(a: Parameter(StateDict[torch.Tensor]), **kwargs) -> Return(torch.Tensor):
    res = torch.zeros(SHAPE, dtype=torch.float64)
    for k in a.keys():
        try:
            res = res + a[k]
        except StateDictKeyError:
            pass
    return res


@merge_method(identifier="vt_second")
def second(a: Parameter(torch.Tensor), b: Parameter(torch.Tensor, "param")) -> Return(torch.Tensor):
    return torch.zeros_like(a) + b


SHAPE = [2]
OPS = {"strict": strict, "kw": keyword, "next": next_key, "total": total}


def names(case):
    nk = len(case["expect"])
    na = len(case["inp"][0][0]) - 1
    order = case.get("names")
    base = [f"m.{'abcdefgh'[k]}.w" for k in range(nk)] if not order else order
    return base, [[b] + [f"{b}.alias{j}" if j != 2 else f"old.{b}" for j in range(1, na + 1)] for b in base]


def config(case, identifier="vt-program"):
    base, allnames = names(case)
    keys = {b: (SHAPE, "float64", {"aliases": ns[1:]} if len(ns) > 1 else {}) for b, ns in zip(base, allnames)}
    comps = {"c1": base[0::2]}
    if len(base) > 1:
        comps["c2"] = base[1::2]
    # components list their keys; the order of the config is kept alternating by key order of expect
    return lib.config(identifier, keys, comps)


def tensor(v, dtype=torch.float64):
    return torch.full(SHAPE, float(v), dtype=dtype)


def inputs(case):
    _, allnames = names(case)
    return [{ns[j]: e[0] for ns, row in zip(allnames, rows) for j, e in enumerate(row) if e} for rows in case["inp"]]


class Builder:
    def __init__(self, case, mode, root):
        self.case, self.mode, self.root = case, mode, root
        self.rng = random.Random(mode["seed"])
        self.cfg = mode.get("config") or config(case)
        self.base = list(self.cfg.keys())          # order of the config
        self.key, _ = names(case)                  # key k of the specification
        self.data = inputs(case)
        self.memo = {}
        self.paths = {}

    def leaf(self, i):
        space = "delta" if i > len(self.data) - self.case["nd"] else "weight"
        dtype = self.rng.choice([torch.float64, torch.float32]) if self.mode["merge_dtype"] else torch.float64
        data = {k: tensor(v, dtype) for k, v in self.data[i - 1].items()}
        if self.mode["leaves"] == "mixed":
            file = self.rng.random() < 0.5
        else:
            file = self.mode["leaves"] == "file"
        if not file:
            return sd_mecha.literal(data, self.cfg, space)
        if i not in self.paths:
            self.paths[i] = self.root / f"in{i}.safetensors"
            items = list(data.items())
            self.rng.shuffle(items)
            st.write(self.paths[i], dict(items))
        return sd_mecha.model(self.paths[i], self.cfg, space)

    def alpha(self, p):
        if p["comp"] == 0:
            return p["al"][0][0] / 2
        values = {self.key[k]: a[0] / 2 for k, a in enumerate(p["al"]) if a}
        if not self.mode.get("plain") and self.rng.random() < 0.5:
            values = {k: torch.tensor(v, dtype=torch.float64) for k, v in values.items()}
        return sd_mecha.literal(values, self.cfg)

    def node(self, n):
        if self.mode["share"] and n in self.memo:
            return self.memo[n]
        r = self.make(n)
        self.memo[n] = r
        return r

    def make(self, n):
        ni = len(self.data)
        if n <= ni:
            return self.leaf(n)
        p = self.case["prog"][n - ni - 1]
        op = p["op"]
        if op == "dict":
            items = [(self.key[k], self.node(m)) for k, m in enumerate(p["args"]) if m]
            self.rng.shuffle(items)
            return sd_mecha.literal(dict(items), self.cfg)
        args = [self.node(m) for m in p["args"]]
        if op == "wsum":
            return self.rng.choice([lambda: sd_mecha.weighted_sum(*args, alpha=self.alpha(p)), lambda: sd_mecha.weighted_sum(*args, self.alpha(p)),
                                    lambda: sd_mecha.weighted_sum(b=args[1], alpha=self.alpha(p), a=args[0])])()
        if op == "add":
            if p["comp"] == 0 and p["al"][0][0] == 2 and self.rng.random() < 0.5:
                return args[0] + args[1] if self.rng.random() < 0.5 else args[1] + args[0]
            return sd_mecha.add_difference(*args, alpha=self.alpha(p))
        if op == "sub":
            return args[0] - args[1] if self.rng.random() < 0.5 else sd_mecha.subtract(*args)
        if op == "avg":
            return sd_mecha.n_average(*args)
        if op == "fb":
            return args[0] | args[1] if self.rng.random() < 0.5 else sd_mecha.fallback(*args)
        if op == "pick":
            return sd_mecha.pick_component(args[0], f"c{p['comp']}")
        if op == "omit":
            return sd_mecha.omit_component(args[0], component=f"c{p['comp']}")
        if op == "kw":
            return keyword(args[0], b=args[1])
        if op == "const":
            return second(args[0], 5 * 4096)
        return OPS[op](*args)


def mode(rng, **kw):
    merge_dtype = rng.random() < 0.8
    m = {"seed": rng.randrange(1 << 30), "threads": rng.choice([0, 1, 2, 4, None]), "buf": rng.choice([0, 40, 1 << 20]),
         "leaves": rng.choice(["memory", "file", "mixed"]), "out": rng.choice(["dict", "dict", "given", "file"]), "share": rng.random() < 0.6,
         "merge_dtype": merge_dtype, "fallback_option": rng.random() < 0.7}
    m.update(kw)
    return m


def run(case, mode, root, **options):
    """Result {key name: tensor} of merging the program in the given mode, and the config."""
    b = Builder(case, mode, root)
    last = case["prog"][-1]
    n = len(b.data) + len(case["prog"])
    kw = dict(merge_dtype=torch.float64 if mode["merge_dtype"] else None, output_dtype=torch.float64 if mode["seed"] % 2 else None,
              threads=mode["threads"], total_buffer_size=mode["buf"], strict_weight_space=False, tqdm=lib.quiet)
    kw.update(options)
    if last["op"] == "fb" and mode["fallback_option"]:
        recipe = b.node(last["args"][0])
        kw["fallback_model"] = b.node(last["args"][1])
    else:
        recipe = b.node(n)
    return merge_to(recipe, mode, root, kw), b


def merge_to(recipe, mode, root, kw):
    if mode["out"] == "file":
        out = root / f"out{mode['seed']}.safetensors"
        if sd_mecha.merge(recipe, output=out, **kw) is not None:
            raise AssertionError("a merge to a file returned something")
        return st.load(out)
    if mode["out"] == "given":
        out = {}
        res = sd_mecha.merge(recipe, output=out, **kw)
        assert res is out
        return res
    return sd_mecha.merge(recipe, **kw)


def compare(res, case, b, what=""):
    expect = {b.key[k]: e[0] for k, e in enumerate(case["expect"]) if e}
    if set(res) != set(expect):
        return f"{what}the result has the keys {sorted(res)}, the specification says {sorted(expect)}"
    for k, v in expect.items():
        if not isinstance(res[k], torch.Tensor) or res[k].dtype != torch.float64 or list(res[k].shape) != SHAPE or res[k].tolist() != [float(v)] * SHAPE[0]:
            return f"{what}{k}: {st.desc(res[k])}, the specification says {v}"
