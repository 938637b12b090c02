"""C28: ConfigText builds configs and recognizes identifiers; real configs built the same way have to survive their yaml text, and identifiers
have to be accepted and rejected alike. All shipped configs are loaded, written and read again."""
import json
import pathlib, random, shutil, tempfile
import torch, yaml
from vh import lib
from sd_mecha.extensions import model_configs
from sd_mecha.extensions.model_configs import KeyMetadata, ModelComponent, ModelConfigImpl

NAMES = ["model.a.weight", "a b", "yes", "null", "~", "1", "1.5", "1e3", "0x10", "true", "2021-01-01", "a: b", "# x", "- x", "é", "日本", "'", '"', "a\\b", "a\nb", "tab\t", "", " lead", "trail ", "[a]", "{a}",
         "&x", "*x", "!x", "%x", "@x", "`x", "shape", "dtype", "keys", "aliases", "optional", "identifier", "components", "x" * 200, "=", "<<", "?", "|", ">", "off", "N", ".inf", "-1", "a,b", "a#b", "a:b", "\U0001f600", "00", "1_000", "12:30:45"]
SHAPES = {"scalar": [], "s1": [1], "s2": [3, 4], "s4": [320, 4, 3, 3], "zero": [0, 2], "none": None, "big": [2 ** 40]}
DTYPES = {"f32": "float32", "f16": "float16", "bf16": "bfloat16", "i64": "int64", "bool": "bool", "f64": "float64", "f8": "float8_e4m3fn", "u8": "uint8"}


def build(case, rng):
    pool = rng.sample(NAMES, len(NAMES))
    names = {f"x{j}": n for j, n in enumerate(pool)}

    def key(k):
        shape, dtype = SHAPES[k["shape"]], getattr(torch, DTYPES[k["dtype"]])
        shape = rng.choice([list, torch.Size])(shape) if shape is not None else None
        dtype = rng.choice([dtype, DTYPES[k["dtype"]]])
        aliases = rng.choice([list, tuple])([names[a] for a in k["aliases"]])
        if rng.random() < 0.3:
            d = {"shape": shape, "dtype": dtype}
            if aliases or rng.random() < 0.5:
                d["aliases"] = aliases
            if k["optional"] or rng.random() < 0.5:
                d["optional"] = k["optional"]
            return d
        return KeyMetadata(shape, dtype, aliases, k["optional"]) if rng.random() < 0.7 else KeyMetadata(shape=shape, dtype=dtype, aliases=aliases, optional=k["optional"])

    def comp(c):
        keys = {names[k["name"]]: key(k) for k in c["keys"]}
        return ModelComponent(keys) if rng.random() < 0.5 else {"keys": keys} if False else keys

    comps = {names[c["name"]]: comp(c) for c in case["config"]}
    comps = {n: c if isinstance(c, ModelComponent) else ModelComponent(c) if rng.random() < 0.5 else c for n, c in comps.items()}
    ident = rng.choice(["vt-a", "vt.1_x+-0.b+", "0-0", "1e3-5", "sd1-ldm", "a.b-c", "1.0-1", "null-null", "yes-no"])
    return names, ModelConfigImpl(ident, comps) if rng.random() < 0.5 else ModelConfigImpl(identifier=ident, components=comps)


def facts(c):
    def meta(m):
        return (None if m.shape is None else list(m.shape), m.dtype, list(m.aliases), m.optional)
    comps = [(n, [(k, meta(m)) for k, m in comp.keys().items()]) for n, comp in c.components().items()]
    return dict(identifier=c.identifier, components=comps, keys=[(k, meta(m)) for k, m in c.keys().items()],
                metadata=[(k, m.shape, m.dtype) for k, m in c.metadata().items()], aliases=[(k, list(a)) for k, a in c.aliases().items()],
                parts=(c.get_architecture_identifier(), c.get_implementation_identifier()))


def first_difference(a, b):
    for k in a:
        if a[k] != b[k]:
            return f"{k}: {a[k]!r} became {b[k]!r}"


def expected(case, names, ident):
    def meta(k):
        return (SHAPES[k["shape"]], getattr(torch, DTYPES[k["dtype"]]), [names[a] for a in k["aliases"]], k["optional"])
    comps = [(names[c["name"]], [(names[k["name"]], meta(k)) for k in c["keys"]]) for c in case["config"]]
    keys = [k for _, ks in comps for k in ks]
    return dict(identifier=ident, components=comps, keys=keys, aliases=[(k, m[2]) for k, m in keys], metadata=[(k, None if m[0] is None else torch.Size(m[0]), m[1]) for k, m in keys],
                parts=tuple(ident.split("-")))


PROBE = {"a": [1, 2], "b": {"shape": [1], "dtype": "x"}}


def execute(ctx, case):
    rng = random.Random(case["seed"])
    names, c = build(case, rng)
    if rng.random() < 0.5:
        c.keys(), c.metadata(), c.aliases()
    want = expected(case, names, c.identifier)
    plain = yaml.safe_dump(PROBE)
    text = model_configs.to_yaml(c)
    bad = first_difference(want, facts(c))
    if bad:
        return f"the config itself: {bad}"
    if yaml.safe_dump(PROBE) != plain:
        return "writing a config changes how yaml writes other values"
    back = model_configs.from_yaml(text)
    bad = first_difference(want, facts(back))
    if bad:
        return f"{bad} [text {text!r}]"
    if model_configs.to_yaml(back) != text:
        return f"another text after the round trip: {text!r}"
    if rng.random() < 0.1:
        root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c28-"))
        try:
            p = root / f"{c.identifier}.yaml"
            p.write_text(text, encoding="utf-8")
            lazy = model_configs.YamlModelConfig(p)
            if lazy.identifier != c.identifier:
                return f"a config file {p.name} has the identifier {lazy.identifier}"
            bad = first_difference(want, facts(lazy))
            if bad:
                return f"read from a file: {bad}"
            if model_configs.to_yaml(lazy) != text:
                return "the text of a config read from a file differs"
        finally:
            shutil.rmtree(root)


SPELLED = {"newline": "\n", "tab": "\t", "nul": "\0", "e-acute": "\u00e9", "arabic digit": "\u0663", "backslash": "\\", "quote": '"', "line separator": "\u2028"}


def identifier(ctx, case):
    ident = "".join(SPELLED.get(c, c) for c in case["id"])
    try:
        c = ModelConfigImpl(ident, {"c": {"k": KeyMetadata([1], "float32")}})
        got = "valid"
    except ValueError:
        got = "invalid"
    ctx.note(got)
    if got != case["verdict"]:
        return f"identifier {ident!r} is {got}, the specification says {case['verdict']}"
    if got == "valid":
        if "-".join((c.get_architecture_identifier(), c.get_implementation_identifier())) != ident:
            return f"identifier {ident!r} has the parts {c.get_architecture_identifier()}, {c.get_implementation_identifier()}"
        if model_configs.from_yaml(model_configs.to_yaml(c)).identifier != ident:
            return f"identifier {ident!r} does not survive the text form"
    text = f"identifier: {json.dumps(ident)}\ncomponents: {{c: {{k: {{shape: [1], dtype: float32}}}}}}\n"
    try:
        model_configs.from_yaml(text)
        ok = True
    except ValueError:
        ok = False
    if ok != (got == "valid"):
        return f"a text with the identifier {ident!r} is {'accepted' if ok else 'rejected'}"


def shipped(ctx, case):
    c = model_configs.resolve(case["config"])
    f = facts(c)
    if f["identifier"] != case["config"]:
        return f"{case['config']} loads with the identifier {f['identifier']}"
    under = getattr(c, "underlying_config", None)
    if under is not None and under.identifier != c.identifier:
        return f"the file of {c.identifier} has the identifier {under.identifier}"
    if not f["keys"] or sum(len(ks) for _, ks in f["components"]) != len(f["keys"]):
        return f"{case['config']} has {len(f['keys'])} keys"
    text = model_configs.to_yaml(c)
    back = model_configs.from_yaml(text)
    bad = first_difference(f, facts(back))
    if bad:
        return f"{case['config']}: {bad[:500]}"
    if model_configs.to_yaml(back) != text:
        return f"{case['config']}: another text after the round trip"
    ctx.note("keys of shipped configs", len(f["keys"]))


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    ids = dict(Mode='"identifier"', Names="{}", Shapes="{}", Dtypes="{}", MaxComps=0, MaxKeys=0, MaxAliases=0)
    chars = '{"a","0",".","_","+","-","A"," "}'
    ctx.tlc("ConfigText", label="design(identifiers)", workers=4, consts=dict(ids, Alphabet=chars, MaxLen=5 if q else 6))
    small = dict(Mode='"config"', Alphabet="{}", MaxLen=0, Names='{"x0","x1"}', Shapes='{"s1"}', Dtypes='{"f32"}', MaxComps=2, MaxKeys=1, MaxAliases=2)
    ctx.tlc("ConfigText", label="design(configs)", workers=4, consts=small)
    odd = "{" + ",".join(f'"{c}"' for c in SPELLED) + ',"a","-","Z","/"}'
    for alphabet, n in ((chars, 4), ('{"a","-","newline","z","9"}', 4 if q else 5), (odd, 3 if q else 4)):
        for g in ctx.tlc("ConfigText", "ConfigTextGen", label="identifiers", workers=1, consts=dict(ids, Alphabet=alphabet, MaxLen=n)).lines:
            ctx.check(identifier, {"kind": "identifier", "id": g["id"], "verdict": g["verdict"]})
    cases = ctx.tlc("ConfigText", "ConfigTextGen", label="all small configs", workers=1, consts=small).lines
    big = dict(small, Names="{" + ",".join(f'"x{j}"' for j in range(24)) + "}", Shapes="{" + ",".join(f'"{s}"' for s in SHAPES) + "}", Dtypes="{" + ",".join(f'"{d}"' for d in DTYPES) + "}")
    for c, k, n in ((3, 6, 700), (2, 12, 300)):
        cases += ctx.tlc("ConfigText", "ConfigTextGen", label=f"configs of {c} components", simulate=n if q else 15 * n, depth=400, consts=dict(big, MaxComps=c, MaxKeys=k, MaxAliases=3)).lines
    for g in cases:
        ctx.check(execute, {"kind": "config", "config": g["config"], "seed": ctx.rng.randrange(1 << 30)})
    ids = sorted({c.identifier for c in model_configs.get_all()})
    ctx.rng.shuffle(ids)
    for i in ids:
        ctx.check(shipped, {"kind": "shipped", "config": i})


def replay(ctx, case):
    ctx.check({"config": execute, "identifier": identifier, "shipped": shipped}[case["kind"]], case)
