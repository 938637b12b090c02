"""C21: RecipeLines generates recipe graphs; built through the API (parts shared or not), serialized and deserialized they have to come back.
The texts the code writes are also read by the specifications."""
import pathlib, random, shutil, tempfile
import torch
from checks import recipes
from checks.c04 import programs
from vh import lib, program
import sd_mecha
from sd_mecha.extensions import model_configs

SIM = dict(MinLines=1, MaxLines=7, MaxArgs=4, MaxMut=0, Strs='{"s1","s2","s3"}', Nums='{"n1","n2","n3","n4"}')


def readings(text, root, rng):
    yield "string", sd_mecha.deserialize(text)
    yield "list", sd_mecha.deserialize(text.split("\n"))
    if rng.random() < 0.2:
        yield "list of terminated lines", sd_mecha.deserialize([l + rng.choice(["\n", "\r\n"]) for l in text.split("\n")])
    if root:
        p = root / rng.choice(["recipe.mecha", "a b.mecha", "ré.mecha"])
        p.write_text(text)
        yield "file", sd_mecha.deserialize_path(p)


def round_trip(node, text, root, rng, check):
    for how, r in readings(text, root, rng):
        bad = check(r)
        if bad:
            return f"deserialized from a {how}: {bad}", None
        dup = recipes.unshared(r)
        if dup:
            return f"deserialized from a {how}: equal nodes are not shared: {dup}", None
        again = sd_mecha.serialize(r)
        if again != text:
            return f"serialized again: {again!r} instead of {text!r}", None
    return None, r


def execute(ctx, case):
    """case: lines + seed"""
    recipes.setup()
    rng = random.Random(case["seed"])
    vals = recipes.Values(rng)
    share = rng.random() < 0.5
    node = recipes.build(case["lines"], vals, rng, share)
    bad = recipes.differs(node, case["term"], vals)
    if bad:
        return f"built by the API: {bad}"
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c21-")) if rng.random() < 0.15 else None
    try:
        before = recipes.shape(node)
        if root and rng.random() < 0.5:
            out = root / "out.mecha"
            text = sd_mecha.serialize(node, output=out if rng.random() < 0.5 else str(out))
            if out.read_text() != text:
                return "the file written by serialize is not the text it returned"
        else:
            text = sd_mecha.serialize(node)
        if recipes.shape(node) != before:
            return "serializing changed the recipe"
        case["text"] = text
        bad, _ = round_trip(node, text, root, rng, lambda r: recipes.differs(r, case["term"], vals))
        if bad:
            return f"{bad} [text {text!r}]"
        for how, other in (("unshared", False), ("shared", True)):
            if other != share and sd_mecha.serialize(recipes.build(case["lines"], vals, random.Random(0), other)) != text:
                return f"the {how} form of the recipe has another text than {text!r}"
    finally:
        if root:
            shutil.rmtree(root)
    ctx.note(f"{len(text.splitlines()) - 1} instructions")


def string_case(ctx, case):
    """A string in every place strings can have."""
    recipes.setup()
    s = recipes.concrete(case["str"])
    p = pathlib.Path(s)
    vt = sd_mecha.extensions.merge_methods.resolve("vt_opt")
    places = {"literal": (sd_mecha.literal(s), lambda r: r.value), "dictionary value": (sd_mecha.literal({"k": s}), lambda r: r.value["k"]),
              "argument": (vt(s), lambda r: r.args[0].value), "keyword argument": (vt("", b=s), lambda r: recipes.bound("vt_opt", r.args, r.kwargs.items())["b"].value)}
    for k in {s, s + "x"}:
        places[f"dictionary key {k!r}"] = (sd_mecha.literal({k: 1, "other": 2}), lambda r: next(iter(r.value)))
    if str(p) == s:
        places["path"] = (sd_mecha.model(s), lambda r: str(r.path))
    for what, (node, get) in places.items():
        text = sd_mecha.serialize(node)
        r = sd_mecha.deserialize(text)
        want = what[len("dictionary key "):] if what.startswith("dictionary key") else None
        got = get(r)
        if got != s and not (want and repr(got) == want):
            return f"{what} {s!r} comes back as {got!r} [text {text!r}]"
        if sd_mecha.serialize(r) != text:
            return f"{what} {s!r}: another text after the round trip"


CONFIGS = {}


def registered(case):
    key = (len(case["expect"]), len(case["inp"][0][0]))
    if key not in CONFIGS:
        CONFIGS[key] = program.config(case, f"vt-program.{key[0]}.{key[1]}")
        model_configs.register(CONFIGS[key])
    return CONFIGS[key]


def merged(ctx, case):
    """A program of RecipeDag over files: its deserialized form has the same result."""
    rng = random.Random(case["mode"]["seed"])
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c21-"))
    try:
        b = program.Builder(case, {**case["mode"], "config": registered(case)}, root)
        node = b.node(len(b.data) + len(case["prog"]))
        text = sd_mecha.serialize(node)
        bad, r = round_trip(node, text, root, rng, lambda r: None if recipes.shape(r) == recipes.shape(node) else f"another recipe [text {text!r}]")
        if bad:
            return bad
        kw = dict(merge_dtype=torch.float64, output_dtype=torch.float64, threads=rng.choice([0, 2]), total_buffer_size=4096, strict_weight_space=False, tqdm=lib.quiet)
        for what, x in (("", node), ("deserialized: ", r), ("serialized after the merge: ", None)):
            if x is None:
                if sd_mecha.serialize(node) != text or sd_mecha.serialize(r) != text:
                    return "another text after merging"
                continue
            bad = program.compare(sd_mecha.merge(x, **kw), case, b, what)
            if bad:
                return bad
    finally:
        shutil.rmtree(root)


def written(ctx, cases):
    """The texts the code wrote, read by the specifications."""
    keep = [(c, t) for c in cases for t in [c["text"].split("\n")] if c["text"].isascii() and "\x00" not in c["text"] and "<empty>" not in c["text"] and all(31 < ord(ch) < 127 for l in t for ch in l)]
    keep = keep[: 600 if ctx.quick else 6000]
    for (c, t), (verdict, term) in zip(keep, recipes.judge(ctx, [t for _, t in keep], "texts of the code")):
        ctx.note("texts read by the specification")

        def compare(ctx, c):
            if verdict != "ok":
                return f"the text {c['text']!r} is {verdict} by the specification"
            d = recipes.differs(sd_mecha.deserialize(c["text"]), term, recipes.Same())
            return d and f"the text {c['text']!r} means something else by the specification: {d}"
        ctx.check(compare, c, sample=False)


def main(ctx):
    lib.quiet_warm()
    recipes.setup()
    ctx.tlc("RecipeText", label="design(strings)", workers=4, timeout=2000, consts=dict(Alphabet='{"Q","B","S","N","R","n","a","=","&","#"}', MaxLen=4 if ctx.quick else 5, Keywords="{}", NResults=1, Mode='"write"'))
    ctx.tlc("RecipeLines", label="design(all texts of 2 instructions)", workers=4, timeout=2000, consts=dict(Mode='"terms"', MinLines=1, MaxLines=2, MaxArgs=2, MaxMut=0, Strs='{"s1"}', Nums='{"n1"}'))
    ctx.tlc("RecipeLines", label="design(long texts)", workers=4, simulate=2000 if ctx.quick else 40000, depth=80, consts=dict(SIM, Mode='"terms"', MaxLines=9))
    strings = ctx.tlc("RecipeText", "RecipeTextGen", label="all short strings", workers=1, consts=dict(Alphabet='{"Q","B","S","N","R","n","a","=","&","#"}', MaxLen=3 if ctx.quick else 4, Keywords="{}", NResults=1, Mode='"write"')).lines
    for g in strings:
        ctx.check(string_case, {"kind": "string", "str": g["str"]})
    lines = ctx.tlc("RecipeLines", "RecipeLinesGen", label="all recipes of 2 instructions", workers=1, timeout=2000, consts=dict(Mode='"terms"', MinLines=1, MaxLines=2, MaxArgs=2, MaxMut=0, Strs='{"s1"}', Nums='{"n1"}')).lines
    if ctx.quick:
        lines = ctx.rng.sample(lines, min(len(lines), 1200))
    for n, sizes in ((9000, dict(MinLines=3, MaxLines=6)), (8000, dict(MinLines=4, MaxLines=8))):
        r = ctx.tlc("RecipeLines", "RecipeLinesGen", label=f"recipes({sizes['MaxLines']} instructions)", simulate=n if ctx.quick else 10 * n, depth=80, consts={**SIM, **sizes, "Mode": '"terms"'}).lines
        r.sort(key=lambda g: -len(g["canon"]))
        lines += r[:1500 if ctx.quick else 20000]
    cases = []
    for g in lines:
        case = dict(kind="recipe", lines=g["lines"], term=g["term"], seed=ctx.rng.randrange(1 << 30))
        ctx.check(execute, case)
        if "text" in case:
            cases.append(case)
    ctx.rng.shuffle(cases)
    written(ctx, cases)
    ops = '{"wsum","add","sub","avg","fb","pick","omit","strict","kw","next","total","dict","const"}'
    for g in programs(ctx, 60 if ctx.quick else 1200, "programs(5 nodes)", Ops=ops) + programs(ctx, 40 if ctx.quick else 800, "programs(8 nodes, missing keys)", NOps=8, NK=3, NI=3, MissOneIn=3, Ops=ops):
        ctx.check(merged, {**g, "kind": "program", "mode": program.mode(ctx.rng, leaves="file", plain=True)})


def replay(ctx, case):
    ctx.check({"recipe": execute, "string": string_case, "program": merged}[case["kind"]], case)
