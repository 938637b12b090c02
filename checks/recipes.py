"""Recipe texts: renders abstract instructions of RecipeLines, compares recipe graphs with terms, and reads real texts back through the
specifications (RecipeText for the characters, RecipeLines for the instructions)."""
import functools, pathlib, random
from typing import TypeVar
import torch
from vh import lib
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.extensions import model_configs
from sd_mecha.recipe_nodes import LiteralRecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNode

T = TypeVar("T")
HEADER = "version 0.1.0"
EMPTY = "<empty>"   # an empty keyword, as opposed to none


@functools.cache
def setup():
    """The extensions the specification knows about."""
    x = lib.config("vt-x", {"k1": ([1], "float64"), "k2": ([1], "float64"), "k3": ([1], "float64")})
    y = lib.config("vt-y", {"k1": ([1], "float64"), "k2": ([1], "float64"), "k3": ([1], "float64")})
    model_configs.register(x)
    model_configs.register(y)
    R = Return(T, "weight", x)
    A = Parameter(T, ["weight", "delta", "param"])

    @merge_method(identifier="vt_one")
    def vt_one(a: A) -> R:
        return a

    @merge_method(identifier="vt_opt")
    def vt_opt(a: A, b: Parameter(T) = None) -> R:
        return a

    @merge_method(identifier="vt_kw")
    def vt_kw(a: A, *, x: A, y: Parameter(T) = None) -> R:
        return a

    @merge_method(identifier="vt_two")
    def vt_two(a: Parameter(T) = None, *, zz: A, y: Parameter(T) = None, x: A) -> R:
        return x

    @merge_method(identifier="vt_var")
    def vt_var(*args: A, y: Parameter(T) = None) -> R:
        return y

    @merge_method(identifier="vt_text_any")
    def vt_text_any(*args: Parameter(T), a: Parameter(T) = None, n: Parameter(T) = None, e: Parameter(T) = None) -> R:
        return a


METHODS = ("vt_one", "vt_opt", "vt_kw", "vt_two", "vt_var")

# --- concrete values ---------------------------------------------------------------------------------------------------------
STRINGS = ["", " ", "a b", '"', '\\', 'a\\', '\\"', '"a"', "a=b", "=", "&0", "&", "#", "# x", "null", "true", "1", "-1.5", "nan", "line\nbreak", "\n", "\r\n", "\r", "\\n", "\\r",
           "é", "日本語", "\U0001f600", "tab\there", "\x0b\x0c", "\u2028", "\x00", "\x85", "'", "`", "a,b", "{k}", "model", "merge \"x\"", "x" * 300, "a  b", " lead", "trail ", "C:\\dir\\file.safetensors",
           "models/a b.safetensors", "$HOME", "%s", "a\\\\b", "\\\\", "\\\"\\", "k.w", "a:b/c+d-e", "é=1", "vt-x", "weight", "version 0.1.0", "\n# x", "a\\ b", '" "', '"="', "&1 &2"]
CHARS = "ab1 .=&#\"\\\n\r\t'-_/éß日0ne"
INTS = ["0", "1", "-1", "2", "-0", "10", "12345678901234567890123", "-7", "3", "255", "100000000000000000"]
FLOATS = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-2.25", "nan", "inf", "-inf", "1e-05", "1e+22", "1e16", "5e-324", "1.7976931348623157e+308", "0.1", "123456.789", "1e-320", "2.0", "3.141592653589793", "-1e-300"]


def string(rng):
    return rng.choice(STRINGS) if rng.random() < 0.6 else "".join(rng.choice(CHARS) for _ in range(rng.randrange(1, 9)))


def distinct(rng, n, make, key=lambda x: x):
    seen = {}
    while len(seen) < n:
        v = make()
        seen.setdefault(key(v), v)
    r = list(seen.values())
    rng.shuffle(r)
    return r


class Values:
    """Concrete strings, numbers and dictionary keys for the symbols of one case."""

    def __init__(self, rng, n_str=3, n_num=4, mutated=False):
        clean = set(METHODS) | {"vt-x", "vt-y", "weight", "delta", "param", "vt_text_any"}
        s = distinct(rng, n_str, lambda: next(v for v in iter(lambda: string(rng), None) if v not in clean), key=lambda v: str(pathlib.Path(v.replace("\x00", "0"))))
        self.strs = {f"s{j}": v for j, v in enumerate(s, 1)}
        nums = distinct(rng, n_num, lambda: rng.choice(INTS) if rng.random() < 0.5 else rng.choice(FLOATS), key=lambda v: repr(number(v)))
        self.nums = {f"n{j}": v for j, v in enumerate(nums, 1)}
        # mutations use names of parameters for dictionary keys too
        names = ["k1", "k2", "k3", "a.b.weight", "k-1"] + ([] if mutated else ["x", "model_config", "value"])
        k = distinct(rng, 3, lambda: rng.choice(names) if rng.random() < 0.4 else string(rng) + ("~" if mutated else ""), key=str)
        self.keys = dict(zip(("k1", "k2", "k3"), k))

    def s(self, v):
        return self.strs.get(v, v)

    def key(self, v):
        return self.keys.get(v, v)

    def value(self, tok):
        if tok["t"] == "str":
            return self.s(tok["v"])
        if tok["t"] == "num":
            return number(self.nums.get(tok["v"], tok["v"]))
        return {"null": None, "true": True, "false": False}[tok["v"]]


class Same(Values):
    """Recorded texts carry their own values."""

    def __init__(self):
        self.strs, self.nums, self.keys = {}, {}, {EMPTY: ""}


def number(text):
    if text.lstrip("-").isdigit():
        return int(text)
    return float(text)


def equal(a, b):
    return type(a) is type(b) and (repr(a) == repr(b) if isinstance(a, float) else a == b)


# --- recipes and terms -----------------------------------------------------------------------------------------------------------
def attributes(x, term):
    cfg = x.model_config
    name = None if cfg is None else cfg.identifier
    want = None if term["cfg"] == "null" else term["cfg"]
    if name != want:
        return f"model config {name}, expected {want}"
    if x.merge_space.identifier != term["space"]:
        return f"merge space {x.merge_space.identifier}, expected {term['space']}"


def differs(x, term, vals, at="recipe"):
    """What distinguishes the recipe graph (or value) x from the term, if anything."""
    k = term["k"]
    if k == "val":
        v = vals.value(term["h"])
        return None if equal(x, v) else f"{at}: {x!r} instead of {v!r}"
    if k == "dict":
        want = {vals.key(i["n"]): i["v"] for i in term["kws"]}
        if not isinstance(x, dict) or sorted(x) != sorted(want):
            return f"{at}: {x!r} is not a dictionary of {sorted(want)}"
        return next((d for d in (differs(x[n], v, vals, f"{at}[{n!r}]") for n, v in want.items()) if d), None)
    kind = {"lit": LiteralRecipeNode, "model": ModelRecipeNode, "merge": MergeRecipeNode}[k]
    if not isinstance(x, kind):
        return f"{at}: {type(x).__name__} instead of {kind.__name__}"
    d = attributes(x, term)
    if d:
        return f"{at}: {d}"
    if k == "lit":
        return differs(x.value, term["args"][0], vals, f"{at}.value")
    if k == "model":
        want = pathlib.Path(vals.s(term["h"]["v"]))
        return None if x.path == want else f"{at}: path {x.path} instead of {want}"
    if x.merge_method.get_identifier() != vals.s(term["h"]["v"]):
        return f"{at}: method {x.merge_method.get_identifier()} instead of {vals.s(term['h']['v'])}"
    got = bound(x.merge_method.get_identifier(), x.args, x.kwargs.items())
    want = bound(x.merge_method.get_identifier(), term["args"], [(i["n"], i["v"]) for i in term["kws"]])
    for n in set(got) - set(want):      # default values may be spelled out
        if isinstance(got[n], LiteralRecipeNode) and got[n].value is None and isinstance(n, str):
            got.pop(n)
    if set(got) != set(want):
        return f"{at}: arguments {sorted(map(str, got))} instead of {sorted(map(str, want))}"
    return next((d for d in (differs(got[n], t, vals, f"{at}.{n}") for n, t in want.items()) if d), None)


POSITIONAL = {"vt_one": ["a"], "vt_opt": ["a", "b"], "vt_kw": ["a"], "vt_two": ["a"]}


def bound(method, args, kwargs):
    """Arguments by parameter (by position for *args)."""
    names = POSITIONAL.get(method, [])
    return {(names[j] if j < len(names) else j): a for j, a in enumerate(args)} | dict(kwargs)


def shape(x):
    """A hashable description of a recipe graph or value: equal for equal parts."""
    if isinstance(x, dict):
        return ("dict", tuple((k, shape(v)) for k, v in x.items()))
    if not isinstance(x, RecipeNode):
        return (type(x).__name__, repr(x) if isinstance(x, float) else x)
    head = (getattr(x.model_config, "identifier", None), x.merge_space.identifier)
    if isinstance(x, ModelRecipeNode):
        return ("model", str(x.path), *head)
    if isinstance(x, LiteralRecipeNode):
        return ("lit", shape(x.value), *head)
    return ("merge", x.merge_method.get_identifier(), tuple(map(shape, x.args)), tuple((k, shape(v)) for k, v in x.kwargs.items()), *head)


def parts(x, found=None):
    found = [] if found is None else found
    if isinstance(x, RecipeNode) and not any(x is f for f in found):
        found.append(x)
    for c in (x.values() if isinstance(x, dict) else (x.value,) if isinstance(x, LiteralRecipeNode) else (*x.args, *x.kwargs.values()) if isinstance(x, MergeRecipeNode) else ()):
        if isinstance(c, (dict, RecipeNode)):
            parts(c, found)
    return found


def unshared(x):
    """Two equal model or merge nodes of a deserialized recipe that are not the same object."""
    seen = {}
    for p in parts(x):
        if isinstance(p, (ModelRecipeNode, MergeRecipeNode)):
            s = shape(p)
            if s in seen:
                return s
            seen[s] = p


# --- building and rendering ----------------------------------------------------------------------------------------------------------
def build(lines, vals, rng, share):
    """Builds the recipe of the last instruction through the API."""
    lines = [l for l in lines if l["cmd"] not in ("", "#")]
    memo = {}

    def get(j):
        if share and j in memo:
            return memo[j]
        memo[j] = r = make(lines[j])
        return r

    def tok(t):
        return get(int(t["v"])) if t["t"] == "ref" else vals.value(t)

    def make(l):
        pos = [a["tok"] for a in l["args"] if not a["kw"]]
        kws = {a["kw"]: a["tok"] for a in l["args"] if a["kw"]}
        if l["cmd"] == "dict":
            return {vals.key(k): tok(t) for k, t in kws.items()}
        if l["cmd"] in ("model", "literal"):
            attrs = {n: vals.value(kws[k]) for k, n in (("model_config", "config"), ("merge_space", "merge_space")) if k in kws}
            if attrs.get("config") and rng.random() < 0.5:
                attrs["config"] = model_configs.resolve(attrs["config"])
            if l["cmd"] == "literal":
                return sd_mecha.literal(tok(pos[0]), **attrs)
            path = vals.value(pos[0])
            return sd_mecha.model(pathlib.Path(path) if rng.random() < 0.5 else path, **attrs)
        return sd_mecha.extensions.merge_methods.resolve(vals.value(pos[0]))(*map(tok, pos[1:]), **{k: tok(t) for k, t in kws.items()})

    return get(len(lines) - 1)


def quote(s):
    out = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r")
    return f'"{out}"'


BAD = ["12x", "&", "&-1", "&99", "&x", "nul", "True", "1.2.3", "0x10", "1e", "--1", "1,5", "None", "'a'", "a.b", "$", "1-", "NULL", "&&0", "&0.", ".", "-", "e", "1e1e1", "&1&", "inf inf"[:3] + "f", "()", "a"]


def token(t, vals, rng, last):
    if t["t"] == "str":
        return quote(vals.s(t["v"]))
    if t["t"] == "num":
        return vals.nums.get(t["v"], t["v"])
    if t["t"] == "ref":
        return "&" + t["v"]
    if t["t"] == "bad":
        if int(t["v"]) <= 2:
            return '"' + rng.choice(["", "abc", "a b"]) if last else rng.choice(["ab", "&", "-"])
        return rng.choice(BAD)
    return t["v"]


def render_line(l, vals, rng):
    gap = lambda: " " * rng.choice([1, 1, 1, 2, 3])
    edge = lambda: rng.choice(["", "", "", " ", "  ", "\t"])
    if l["cmd"] == "":
        return edge()
    if l["cmd"] == "#":
        return edge() + rng.choice(["#", "# comment", "#model \"a\"", '# "unbalanced', "# merge \"n_average\" &9", "#dict a=1 a=2"])
    out = l["cmd"]
    for j, a in enumerate(l["args"]):
        out += gap()
        if a["kw"]:
            k = vals.key(a["kw"])
            plain = k and all(c.isalnum() or c in "._-" for c in k) and k.isascii()
            out += (k if plain and rng.random() < 0.7 else quote(k)) + "="
        out += token(a["tok"], vals, rng, j == len(l["args"]) - 1)
    return edge() + out + edge()


def render_header(h, rng):
    if h == "ok":
        return [HEADER]
    return {"missing": [], "old": [rng.choice(["version 0.0.9", "version 0.1.1", "version 1.0.0", "version", "version 0.1", "version 0.1.0.0"])],
            "suffix": [HEADER + rng.choice(["1", "-rc", " x", ".1", " # comment"])], "case": [rng.choice(["Version 0.1.0", "VERSION 0.1.0", "recipe 0.1.0"])],
            "late": [rng.choice(["", "# recipe"]), HEADER]}[h]


def render(g, vals, rng):
    return render_header(g["header"], rng) + [render_line(l, vals, rng) for l in g["lines"]]


# --- reading real texts through the specifications ------------------------------------------------------------------------------------
def abstract(ch):
    return {'"': "Q", "\\": "B", " ": "S", "\n": "N", "\r": "R"}.get(ch, "u" + ch if ch.isascii() and ch.isupper() else ch)


def concrete(chars):
    return "".join({"Q": '"', "B": "\\", "S": " ", "N": "\n", "R": "\r"}.get(c, c[1] if len(c) == 2 else c) for c in chars)


def judge(ctx, texts, label):
    """The verdict and meaning the specifications give to real texts (lists of lines, with header)."""
    lines = sorted({l.strip() for t in texts for l in t[1:]})
    index = {l: j for j, l in enumerate(lines)}
    r = ctx.tlc("RecipeText", "RecipeTextGen", label=f"{label}, characters", workers=1, traces=[{"text": [abstract(c) for c in l]} for l in lines], timeout=800,
                consts=dict(Alphabet='{"a"}', MaxLen=0, Keywords="{}", NResults=0, Mode='"line"'))
    read = {o["id"] - 1: o for o in r.lines}
    assert len(read) == len(lines)
    records, where, out = [], [], [("open", None)] * len(texts)
    for j, t in enumerate(texts):
        ls, verdict = [], "ok"
        for l in t[1:]:
            o = read[index[l.strip()]]
            if o["verdict"] != "accept":
                verdict = o["verdict"]
                ls.append(dict(cmd="reject", args=[]))     # decided by the characters; earlier instructions may be errors too
                break
            ls.append(tokens(o["items"]))
        if t[0] == HEADER and verdict != "open":
            records.append(dict(header="ok", lines=ls))
            where.append(j)
        elif t[0] != HEADER:
            out[j] = ("reject", None)
    # an undecided line before a rejected one leaves the text undecided: those were cut at the first line the characters decide
    r = ctx.tlc("RecipeLines", "RecipeLinesGen", label=f"{label}, instructions", workers=1, traces=records, timeout=800,
                consts=dict(Mode='"judge"', MinLines=1, MaxLines=0, MaxArgs=0, MaxMut=0, Strs="{}", Nums="{}")) if records else None
    for o in (r.lines if r else []):
        out[where[o["n"] - 1]] = (o["verdict"], o["term"])
    return out


def tokens(items):
    if not items:
        return dict(cmd="#", args=[])
    args = []
    for i in items[1:]:
        text = concrete(i["text"])
        t = {"int": "num", "float": "num"}.get(i["kind"], i["kind"])
        v = str(int(text[1:])) if t == "ref" else text
        args.append(dict(kw=(concrete(i["kw"][0]) or EMPTY) if i["kw"] else "", tok=dict(t=t, v=v)))
    return dict(cmd=concrete(items[0]["text"]), args=args)
