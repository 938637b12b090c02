"""Builds methods and calls from the signatures of RecipeTypes; used by C18 and C19."""
import itertools, pathlib, random
import torch
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.extensions.merge_spaces import MergeSpaceSymbol
from vh import lib

SPACES = {"w": "weight", "d": "delta", "p": "param"}
SHORT = {v: k for k, v in SPACES.items()}
REJECT = (TypeError, ValueError, RuntimeError)


@merge_method(register=False)
def keep(x: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return x


@merge_method(register=False)
def keep_kw(*, x: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return x


@merge_method(register=False)
def keep_many(*xs: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return xs[0]


@merge_method(register=False)
def as_param(x: Parameter(torch.Tensor)) -> Return(torch.Tensor, "param"):
    return x


def method(g, configs, rng, body=None):
    symbols = {"A": MergeSpaceSymbol("weight", "delta"), "B": MergeSpaceSymbol("weight", "delta", "param")}
    fixed = {"w": ["weight", ["weight"]], "d": ["delta"], "p": ["param", ("param",)], "wd": [("weight", "delta"), {"weight", "delta"}], "wdp": [["weight", "delta", "param"]]}

    def space(sp):
        return symbols[sp] if sp in symbols else None if sp in ("none", "lit") else rng.choice(fixed[sp])

    env = {"body": body}
    parts, starred = [], False
    for i, p in enumerate(g["params"]):
        interface = rng.choice([float, int, bool, str]) if p["sp"] == "lit" else rng.choice([torch.Tensor, sd_mecha.StateDict[torch.Tensor]]) if p["how"] != "def" else torch.Tensor
        env[f"P{i}"] = Parameter(interface, space(p["sp"]), configs.get(p["cf"]))
        if p["how"] == "var":
            parts.append(f"*p{i}: P{i}")
            starred = True
        elif p["how"] == "kw":
            if not starred:
                parts.append("*")
                starred = True
            parts.append(f"p{i}: P{i}")
        else:
            parts.append(f"p{i}: P{i}" + (" = 1.0" if p["how"] == "def" else ""))
    env["R"] = Return(torch.Tensor, symbols.get(g["ret"]["sp"], SPACES.get(g["ret"]["sp"])), configs.get(g["ret"]["cf"]))
    names = ", ".join(f"p{i}" for i in range(len(g["params"])))
    exec(f"def m({', '.join(parts)}, **kwargs) -> R:\n    return body([{names}], kwargs)\n", env)
    return merge_method(env["m"], register=False) if rng.random() < 0.5 else merge_method(register=False)(env["m"])


def leaf(a, configs, rng, data=None):
    cfg = configs.get(a["cf"])
    if rng.random() < 0.5 or data is not None and rng.random() < 0.5:
        values = data if data is not None else {"k": torch.ones(1)}
        return sd_mecha.literal(values, cfg, SPACES[a["sp"]])
    return sd_mecha.model(pathlib.Path("/nonexistent/file.safetensors"), cfg, SPACES[a["sp"]]) if data is None else sd_mecha.literal(data, cfg, SPACES[a["sp"]])


def node(a, configs, rng, depth=2, data=None):
    """A recipe of the wanted space and config, in one of many forms."""
    kind = rng.choice(["leaf", "keep", "kw", "many", "dict", "op"]) if depth else "leaf"
    if kind == "leaf":
        return leaf(a, configs, rng, data)
    if kind == "op":
        w = {**a, "sp": "w"}
        if a["sp"] == "d":
            return node(w, configs, rng, depth - 1, data) - leaf(w, configs, rng, data)
        if a["sp"] == "w":
            d = leaf({**a, "sp": "d"}, configs, rng, data)
            x = leaf(w, configs, rng, data)
            return rng.choice([lambda: x + d, lambda: d + x, lambda: x | leaf(w, configs, rng, data), lambda: sd_mecha.weighted_sum(x, x, alpha=0.5)])()
        return as_param(leaf({**a, "sp": rng.choice("wdp")}, configs, rng, data))
    x = node(a, configs, rng, depth - 1, data)
    if kind == "dict":
        return sd_mecha.literal({k: x for k in (data or {"k": 0, "l": 0})}, configs.get(a["cf"])) if a["cf"] != "none" else sd_mecha.literal({k: x for k in (data or {"k": 0})})
    return {"keep": lambda: keep(x), "kw": lambda: keep_kw(x=x), "many": lambda: keep_many(x, x)}[kind]()


def call(m, g, nodes, rng):
    pos, kw = [], {}
    has_var = any(p["how"] == "var" and g["args"][i] for i, p in enumerate(g["params"]))
    by_keyword = False
    for i, p in enumerate(g["params"]):
        if p["how"] == "kw":
            kw[f"p{i}"] = nodes[i][0]
        elif p["how"] == "var":
            pos += nodes[i]
        elif not g["args"][i]:
            by_keyword = True
        elif by_keyword or (not has_var and rng.random() < 0.3):
            by_keyword = True
            kw[f"p{i}"] = nodes[i][0]
        else:
            pos.append(nodes[i][0])
    items = list(kw.items())
    rng.shuffle(items)
    return m(*pos, **dict(items))


def ident(c):
    return "none" if c is None else c.identifier
