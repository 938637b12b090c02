"""Runs the scenarios of KeyPolicy on the real merge; used by C12 and C14."""
import contextlib, logging, pathlib, random, shutil, tempfile
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from vh import lib, program, st

WIDTH = 66
REJECT = (TypeError, ValueError, RuntimeError)


def names(case, k):
    """All names of key k, canonical first (k counts from 1)."""
    if k > len(case["cfg"]):
        return [f"Xtra{k}z"]
    return [f"Zeta{k}z"] + [f"Alt{j}of{k}z" for j in range(1, case["cfg"][k - 1]["al"] + 1)]


def config(case, identifier):
    keys, comps = {}, {"main": [], "ema": []}
    for k, c in enumerate(case["cfg"], 1):
        ns = names(case, k)
        keys[ns[0]] = ([WIDTH], "float64", {"aliases": ns[1:], "optional": c["opt"]})
        for comp in {"m": ["main"], "e": ["ema"], "b": ["main", "ema"]}[c["co"]]:
            comps[comp].append(ns[0])
    return lib.config(identifier, keys, {c: ks for c, ks in comps.items() if ks})


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


@contextlib.contextmanager
def warnings():
    h, root = Warnings(), logging.getLogger()
    old, level, root.handlers = root.handlers, root.level, [h]
    root.setLevel(logging.WARNING)
    try:
        yield h.texts
    finally:
        root.handlers = old
        root.setLevel(level)


class Policy:
    def __init__(self, case, root):
        self.case, self.root = case, root
        self.rng = random.Random(case["seed"])
        self.a, self.b = config(case, "vt-policya"), config(case, "vt-policyb")
        self.memo = {}
        self.dtypes = [self.rng.choice([torch.float64, torch.float32]) for _ in case["inp"]]
        # weights also hold large finite values: their sum overflows, they do not
        self.narrow = torch.float32 in self.dtypes
        big = 1e37 if self.narrow else 1e307
        self.data = []
        for i, x in enumerate(case["inp"]):
            sd = {}
            for k, row in enumerate(x["rows"], 1):
                for n, e in zip(names(case, k), row):
                    if e:
                        sd[n] = torch.tensor([e[0]["v"], e[0]["v"] if e[0]["fin"] else self.rng.choice([float("inf"), float("-inf"), float("nan")])]
                                             + [big if x["sp"] == "w" else 0.0] * (WIDTH - 2), dtype=self.dtypes[i])
            items = list(sd.items())
            self.rng.shuffle(items)
            self.data.append(dict(items))
        b = self.b

        @merge_method(register=False)
        def foreign(x: Parameter(StateDict[torch.Tensor], "weight", b), **kwargs) -> Return(torch.Tensor, "weight", self.a):
            return x[kwargs["key"]]
        self.foreign = foreign

    def leaf(self, i):
        x = self.case["inp"][i]
        cfg, space = (self.a if x["cf"] == "A" else self.b), {"w": "weight", "d": "delta", "p": "param"}[x["sp"]]
        if self.rng.random() < 0.5 or not self.data[i]:
            return sd_mecha.literal(self.data[i], cfg, space)
        path = self.root / f"in{i}.safetensors"
        st.write(path, self.data[i])
        return sd_mecha.model(path, cfg, space)

    def node(self, n):
        if n not in self.memo:
            self.memo[n] = self.make(n)
        return self.memo[n]

    def make(self, n):
        ni = len(self.case["inp"])
        if n <= ni:
            return self.leaf(n - 1)
        p = self.case["prog"][n - ni - 1]
        args = [self.node(m) for m in p["args"]]
        return {"wsum": lambda: sd_mecha.weighted_sum(*args, alpha=0.5), "add": lambda: args[0] + args[1], "sub": lambda: args[0] - args[1],
                "fb": lambda: args[0] | args[1], "pick": lambda: sd_mecha.pick_component(args[0], "main"), "omit": lambda: sd_mecha.omit_component(args[0], "main"),
                "pickema": lambda: sd_mecha.pick_component(args[0], "ema"), "omitema": lambda: sd_mecha.omit_component(args[0], "ema"),
                "mask": lambda: mask(args[0]), "keep": lambda: keep(args[0]), "kw": lambda: program.keyword(args[0], b=args[1]), "foreign": lambda: self.foreign(args[0])}[p["op"]]()


@merge_method(register=False)
def keep(x: Parameter(torch.Tensor)) -> Return(torch.Tensor):
    return x


@merge_method(register=False)
def mask(x: Parameter(torch.Tensor)) -> Return(torch.Tensor, "param"):
    return x


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vpol-"))
    try:
        return run(ctx, case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(ctx, case, root):
    p = Policy(case, root)
    rng, o = p.rng, case["opts"]
    n = len(case["inp"]) + len(case["prog"])
    kw = {"threads": rng.choice([0, 1, 3, None]), "total_buffer_size": rng.choice([0, 40, 1 << 16]), "tqdm": lib.quiet, "merge_dtype": torch.float64, "output_dtype": torch.float32 if p.narrow else rng.choice([torch.float64, None])}
    for name, value, default in (("omit_extra_keys", not o["extra"], True), ("check_mandatory_keys", o["mandatory"], False), ("strict_weight_space", o["strict"], True), ("check_finite", o["finite"], True)):
        if value != default or rng.random() < 0.6:
            kw[name] = value
        elif rng.random() < 0.5:
            kw[name] = ...
    if o["ema"] != "default":
        kw["omit_ema"] = o["ema"] == "omit"
    last = case["prog"][-1] if case["prog"] else None
    if last and last["op"] == "fb" and rng.random() < 0.5:
        recipe = p.node(last["args"][0])
        kw["fallback_model"] = p.node(last["args"][1])
    else:
        recipe = p.node(n)
    to_file = rng.random() < 0.3
    out = root / "out.safetensors" if to_file else {}
    with warnings() as texts:
        try:
            sd_mecha.merge(recipe, output=out, **kw)
            error = None
        except REJECT as e:
            error = e
    if (error is not None) != (case["error"] != ""):
        return f"the merge is rejected: {type(error).__name__}: {error}" if error else f"the merge succeeds, it should be rejected ({case['error']})"
    ctx.note(case["error"] or "merged")
    if error is not None:
        if to_file and out.exists() or not to_file and out:
            return "a rejected merge left an output"
        return
    res = st.load(out) if to_file else out
    expect = {names(case, e["k"])[0]: e for e in case["out"]}
    produced = set(case["produced"])
    # with extra keys kept, keys of the config that the recipe cannot produce may be copied from an input or not
    free = {names(case, k)[0] for k in range(1, len(case["cfg"]) + 1) if o["extra"] and k not in produced}
    if set(res) - free != set(expect) - free:
        return f"the output has the keys {sorted(res)}, the specification says {sorted(expect)}"
    for k, e in expect.items():
        if k in free:
            continue
        v = res[k]
        if e["from"]:
            want = p.data[e["from"] - 1][next(nm for nm in names(case, e["k"]) if nm in p.data[e["from"] - 1])]
            if not st.same(v, want):
                return f"extra key {k}: {st.desc(v)}, input {e['from']} has {st.desc(want)}"
            ctx.note("copied keys")
        else:
            if v.dtype != (torch.float32 if p.narrow else torch.float64) or list(v.shape) != [WIDTH] or v[0].item() != e["v"]["v"] and e["v"]["fin"] or bool(v.isfinite().all()) != e["v"]["fin"]:
                return f"{k}: {v[:3].tolist()} {v.dtype}, the specification says {e['v']}"
    wanted = {k for k, v in res.items() if not v.isfinite().all()} if o["finite"] else set()
    every = {nm for k in range(1, len(case["cfg"]) + (case["nx"] if o["extra"] else 0) + 1) for nm in names(case, k)}
    named = {k for k in every if any(k in t for t in texts)}
    if named != wanted:
        return f"warnings name {sorted(named)}, the keys with non-finite values are {sorted(wanted)}"
    ctx.note("warned", len(wanted))


ALLOPS = '{"wsum","add","sub","fb","pick","omit","keep","kw","foreign","pickema","omitema","mask"}'
BASE = dict(NI=3, NK=4, NX=2, NAlias=1, NOps=3, Ops=ALLOPS, Spaces='{"w","d","p"}', Comps='{"m","e","b"}', Cfs='{"A","B"}', Entries='{"there","here","gone","inf"}', Flags="{TRUE,FALSE}")


def scenarios(ctx, label, n, **consts):
    lines = ctx.tlc("KeyPolicy", "KeyPolicyGen", label=label, simulate=n, depth=300, consts={**BASE, **consts}).lines
    return [{**g, "seed": ctx.rng.randrange(1 << 30)} for g in lines]
