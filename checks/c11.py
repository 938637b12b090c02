"""C11: Precision enumerates the ways of tensors and hyperparameters through a recipe and the conversions on them. Every case is merged by
the real code; a method of ours records what it receives, with all bits."""
import pathlib, random, shutil, tempfile
from typing import TypeVar
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, literal, merge_method, model
from sd_mecha.extensions import model_configs
from vh import lib, st

KEYS = ["p.one", "p.two"]
CONFIG = lib.config("vt-prec.a", {k: ([3], "float32", {"optional": True}) for k in KEYS}, {"first": KEYS})
OTHER = lib.config("vt-prec.b", {"q." + k: ([3], "float32", {"optional": True}) for k in KEYS}, {"first": ["q." + k for k in KEYS]})
model_configs.register(CONFIG)      # found for hyperparameters without a config
T = TypeVar("T")
TYPES = {"int": int, "float": float, "bool": bool, "str": str}
SEEN = {}


def sd_or_plain(v, k):
    return v[k] if isinstance(v, StateDict) else v


@merge_method(identifier="vt_prec_pass")
def pass_(a: Parameter(T)) -> Return(T):
    return a


@merge_method(identifier="vt_prec_pass_dict")
def pass_dict(a: Parameter(StateDict[T]), **kwargs) -> Return(T):
    return a[kwargs["key"]]


@merge_method(identifier="vt_prec_convert")
def convert(a: Parameter(StateDict[torch.Tensor], model_config=OTHER), **kwargs) -> Return(torch.Tensor, model_config=CONFIG):
    return a["q." + kwargs["key"]]


DEFAULTS = {"int": 2 ** 53 + 1, "float": 0.1, "bool": True, "str": "é"}
METHODS = {}


def consumer(kind, htype, hdict, default, kwonly, returns):
    key = (kind, htype, hdict, default, kwonly, returns)
    if key not in METHODS:
        A = {"tensor": torch.Tensor, "dict of tensors": StateDict[torch.Tensor], "anything": T, "dict of anything": StateDict[T]}[kind]
        H = StateDict[TYPES[htype]] if hdict else TYPES[htype]
        env = dict(A=Parameter(A), H=Parameter(H, "param"), R=Return(torch.Tensor, "weight"), get=sd_or_plain, SEEN=SEEN, d=DEFAULTS[htype], torch=torch)
        exec(f"def m(a: A, {'*, ' if kwonly else ''}h: H{' = d' if default else ''}, **kwargs) -> R:\n"
             f"    k = kwargs['key']\n    a = get(a, k)\n    SEEN[k] = (a, get(h, k))\n    return a{'' if returns == 'it' else f'.to(torch.{returns})'}\n", env)
        METHODS[key] = merge_method(env["m"], register=False)
    return METHODS[key]


def source(rng, dt):
    if dt == "bool":
        vals = [rng.random() < 0.5 for _ in range(3)]
    elif "int" in dt:
        big = {"int8": 127, "uint8": 255, "int16": 32767}.get(dt, 60001)
        vals = [rng.choice([0, 1, 3, 100, big, big - 2]) for _ in range(3)]
    else:
        vals = [rng.choice([1 / 3, -1 / 3, 0.1, 1 + 2 ** -9, 1 + 2 ** -8 + 2 ** -24, 2049.0, -257.0, 1e-7, 0.0, 300.3, 1 + 2 ** -11 + 2 ** -30, 6e4]) for _ in range(3)]
        if dt.startswith("float8"):
            vals = [v if abs(v) < 100 else 3.3 for v in vals]
    return torch.tensor(vals, dtype=torch.float64 if "int" not in dt and dt != "bool" else torch.int64).to(getattr(torch, dt))


def hyper_value(rng, t):
    return {"int": lambda: rng.choice([0, 1, -7, 2 ** 53 + 1, 10 ** 15 + 3, 65521, 2 ** 63]), "float": lambda: rng.choice([0.1, -1 / 3, 1e300, 3.0, 0.0, 65520.5, 1e-300, 2.0 ** -25]),
            "bool": lambda: rng.random() < 0.5, "str": lambda: rng.choice(["", "x", "0.1", "é\n"])}[t]()


def follow(v, trace):
    for dt in trace[1:]:
        v = v.to(getattr(torch, dt))
    return v


def bits(t):
    return str(t.dtype), list(t.shape), t.contiguous().view(torch.uint8).tolist()


def same(got, want):
    return (got.dtype, got.shape) == (want.dtype, want.shape) if got.device.type == "meta" else bits(got) == bits(want)


class Build:
    def __init__(self, case, root):
        self.case, self.root, self.rng = case, root, random.Random(case["seed"])
        self.data = {k: source(self.rng, case["leaf"]["dt"]) for k in KEYS}

    def missing(self, space, hyper=False):
        if hyper:
            return literal({}, CONFIG, space)
        return literal({"not a key": torch.ones(3)}, CONFIG, space)

    def leaf(self):
        kind, rng = self.case["leaf"]["kind"], self.rng
        if kind == "scalar":
            v = self.data[KEYS[0]]
            self.data = {k: v for k in KEYS}
            return rng.choice([literal(v), v]) if not self.case["path"] else literal(v)
        cfg, prefix = (OTHER, "q.") if "convert" in self.case["path"] else (CONFIG, "")
        data = {prefix + k: v for k, v in self.data.items()}
        if kind == "tensors":
            return rng.choice([lambda: literal(data, cfg, "weight"), lambda: model(data, config=cfg)])()
        st.write(self.root / "in.safetensors", data)
        return model(self.root / "in.safetensors", config=cfg)

    def wrap(self, r, path, space, hyper=False):
        for w in path:
            r = {
                "pass": lambda: pass_(r), "pass dict": lambda: pass_dict(r), "pick": lambda: sd_mecha.pick_component(r, "first"),
                "fallback": lambda: r | self.missing(space, hyper), "missing fallback": lambda: self.missing(space, hyper) | r,
                "dict": lambda: literal({k: r for k in KEYS}), "cast to float32": lambda: r.to(dtype=torch.float32),
                "cast to float16": lambda: sd_mecha.cast(r, dtype="float16"), "to meta": lambda: r.to(device="meta"), "average": lambda: sd_mecha.n_average(r), "convert": lambda: convert(r),
            }[w]()
        return r

    def hyper(self):
        h, rng = self.case["hyper"], self.rng
        t = h["t"]
        if h["form"] == "default":
            return None, {k: DEFAULTS[t] for k in KEYS}
        same = hyper_value(rng, t)
        if h["form"] == "value":
            r = same if not self.case["hpath"] and rng.random() < 0.5 else literal(same)
            return self.wrap(r, self.case["hpath"], "param", True), {k: same for k in KEYS}
        vals = {k: hyper_value(rng, t) for k in KEYS}
        if h["form"] == "dict":
            r = literal(dict(vals), CONFIG) if self.case["hpath"] or rng.random() < 0.5 else dict(vals)
        else:
            r = literal({k: literal(v, CONFIG) if rng.random() < 0.5 else literal({x: v for x in KEYS}, CONFIG) for k, v in vals.items()}, CONFIG)
        return self.wrap(r, self.case["hpath"], "param", True), vals


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c11-"))
    try:
        return run(ctx, case, root)
    finally:
        shutil.rmtree(root)


def run(ctx, case, root):
    b = Build(case, root)
    rng = b.rng
    node = b.wrap(b.leaf(), case["path"], "weight")
    opts = {}
    for o in ("merge", "output"):
        if case["opts"][o] != "omitted":
            opts[o + "_dtype"] = None if case["opts"][o] == "none" else getattr(torch, case["opts"][o])
        dev = case["opts"][o[0] + "dev"]
        if dev != "omitted":
            opts[o + "_device"] = None if dev == "none" else rng.choice([dev, torch.device(dev)])
    kind = case["consumer"]["type"]
    SEEN.clear()
    expected_h = None
    if kind == "recipe":
        recipe = node
    elif kind == "fallback option":
        recipe = b.missing("weight")
        opts["fallback_model"] = node
    else:
        h, expected_h = b.hyper()
        m = consumer(kind, case["hyper"]["t"], rng.random() < 0.3 and h is not None, h is None, rng.random() < 0.5, case["consumer"]["returns"])
        recipe = m(node) if h is None else m(node, h=h)
        # a method without inputs that have keys takes the keys of another one
        if case["leaf"]["kind"] == "scalar":
            recipe = literal({"p.one": recipe, "p.two": recipe}) if recipe.model_config is not None else sd_mecha.fallback(recipe, literal({k: torch.zeros(3) for k in KEYS}, CONFIG, "weight"))
    res = sd_mecha.merge(recipe, threads=rng.choice([0, 0, 2]), total_buffer_size=4096, strict_weight_space=False, tqdm=lib.quiet, check_finite=case["odev"] == "cpu", **opts)
    if set(res) != set(KEYS):
        return f"the result has the keys {sorted(res)}"
    for k in KEYS:
        got, want = res[k], follow(b.data[k], case["out"])
        if got.device.type != case["odev"]:
            return f"{k} is stored on {got.device}, specified: {case['odev']}"
        if not same(got, want):
            return f"{k}: stored {st.desc(got)}, specified: {case['out']} of {st.desc(b.data[k])} = {st.desc(want)}"
        if expected_h is not None:
            a, h = SEEN[k]
            want = follow(b.data[k], case["got"])
            if a.device.type != case["dev"]:
                return f"{k}: the method receives a tensor on {a.device}, specified: {case['dev']}"
            if not same(a, want):
                return f"{k}: the method receives {st.desc(a)}, specified: {case['got']} of {st.desc(b.data[k])} = {st.desc(want)}"
            if type(h) is not type(expected_h[k]) or h != expected_h[k]:
                return f"{k}: the hyperparameter {expected_h[k]!r} arrives as {h!r}"
    ctx.note(f"merge dtype {case['opts']['merge']}")
    ctx.note(f"consumer {kind}")


DTYPES = '{"float64","float32","float16","bfloat16","int64","int32","int16","int8","uint8","bool","float8_e4m3fn","float8_e5m2"}'
WRAPPERS = '{"pass","pass dict","pick","fallback","missing fallback","dict","cast to float32","cast to float16","average","convert","to meta"}'
DEVICES = '{"omitted","none","cpu","meta"}'
FORMS = '{"value","dict","recipes","default"}'


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    base = dict(Dtypes=DTYPES, Requested='{"float64","float32","float16","bfloat16"}', Wrappers=WRAPPERS, MaxWraps=3, HyperTypes='{"int","float","bool","str"}', HyperForms=FORMS, Devices='{"omitted","none"}', Design='"inputs"')
    ctx.tlc("Precision", label="design", workers=8, timeout=2000, consts=dict(base, Dtypes='{"float32","int64"}', Requested='{"float16"}', Wrappers='{"pass","cast to float32","average","convert"}',
                                                                              MaxWraps=2 if q else 3, HyperTypes='{"float"}', HyperForms='{"value","default"}', Devices='{"none","meta"}'))
    small = dict(base, Devices='{"none"}', Dtypes='{"float32"}', Requested='{"float16","bfloat16"}', MaxWraps=1, HyperTypes='{"float"}', HyperForms='{"value"}')
    lines = ctx.tlc("Precision", "PrecisionGen", label="all ways of one step", workers=1, consts=small).lines
    if q:
        lines = ctx.rng.sample(lines, min(len(lines), 1200))
    for n, steps in ((3000, 3), (1500, 5)):
        lines += ctx.tlc("Precision", "PrecisionGen", label=f"simulated({steps} steps)", workers=1, simulate=n if q else 15 * n, depth=60, consts=dict(base, MaxWraps=steps)).lines
    lines += ctx.tlc("Precision", "PrecisionGen", label="devices", workers=1, simulate=2500 if q else 30000, depth=60, consts=dict(base, MaxWraps=3, Devices=DEVICES)).lines
    for g in lines:
        ctx.check(execute, {**g, "seed": ctx.rng.randrange(1 << 30)})


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute, case)
