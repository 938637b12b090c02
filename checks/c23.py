"""C23: RecipeText and RecipeLines decide which texts are recipes and what they mean; the real parser has to agree: on all short argument texts,
on texts with mutated instructions, and on corrupted texts of real recipes."""
import random
from checks import recipes
from vh import lib
import sd_mecha

ALPHABET = ["Q", "B", "S", "n", "a", "=", "1", "0", "&", "-", ".", "e", "#"]


def tla(chars):
    return "{" + ",".join(f'"{c}"' for c in chars) + "}"


def parse(text):
    try:
        return sd_mecha.deserialize(text), None
    except Exception as e:
        return None, e


def verdict_differs(ctx, text, verdict, term, vals):
    if verdict == "open":
        ctx.note("open")
        return None
    r, e = parse(text)
    shown = text if isinstance(text, str) else "\n".join(text)
    ctx.note(f"{verdict}ed" if verdict == "reject" else "accepted")
    if verdict == "reject":
        return None if e is not None else f"accepted, though it is malformed: {shown!r}"
    if e is not None:
        return f"rejected with {type(e).__name__} ({e}), though it is well-formed: {shown!r}"
    d = recipes.differs(r, term, vals)
    return d and f"{shown!r} is misread: {d}"


def arguments(ctx, case):
    """Argument text of one instruction, after a first instruction it can refer to."""
    recipes.setup()
    text = recipes.concrete(case["text"])
    lines = [recipes.HEADER, 'model "m.safetensors"', f'merge "vt_text_any" {text}']
    if case["verdict"] == "open":
        ctx.note("open")
        return None
    r, e = parse("\n".join(lines))
    ctx.note(case["verdict"])
    if case["verdict"] == "reject":
        return None if e is not None else f"arguments {text!r} are accepted, though they are malformed"
    if e is not None:
        # the keywords of the method take values in param space only: references are an error of their own
        if any(i["kind"] == "ref" and i["kw"] for i in case["items"]):
            return None if "merge space" in str(e) else f"arguments {text!r} are rejected: {e}"
        return f"arguments {text!r} are rejected: {e}"
    got = recipes.bound("vt_text_any", r.args, r.kwargs.items())
    n = 0
    for i in case["items"]:
        raw = recipes.concrete(i["text"])
        if i["kind"] == "ref":
            if str(getattr(got.get(n), "path", "")) != "m.safetensors":
                return f"arguments {text!r}: {n} is not the result referred to"
            n += 1
            continue
        want = raw if i["kind"] == "str" else {"null": None, "true": True, "false": False}[raw] if i["kind"] == "const" else recipes.number(raw) if i["kind"] == "int" else float(raw)
        name = recipes.concrete(i["kw"][0]) if i["kw"] else n
        n += not i["kw"]
        if name not in got or not recipes.equal(got[name].value, want):
            return f"arguments {text!r}: {name} is {got.get(name) and got[name].value!r} instead of {want!r}"
    if sum(isinstance(k, int) for k in got) != n:
        return f"arguments {text!r}: {len(got)} arguments"


def mutated(ctx, case):
    recipes.setup()
    rng = random.Random(case["seed"])
    vals = recipes.Values(rng, mutated=True)
    text = recipes.render(case, vals, rng)
    # the argument of a keyword that is not a dictionary key keeps its name
    if rng.random() < 0.5:
        text = "\n".join(text) + rng.choice(["", "\n", "\n\n"]) if text else ""
    return verdict_differs(ctx, text, case["verdict"], case["term"], vals)


def corrupt(rng, text):
    lines = text.split("\n")
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        j = rng.randrange(1, len(lines)) if rng.random() < 0.95 else 0
        l = lines[j]
        k = rng.randrange(len(l) + 1)
        op = rng.randrange(8)
        chars = ' "\\=&#01-.enax,_+'
        if op == 0:
            l = l[:k] + rng.choice(chars) + l[k:]
        elif op == 1:
            l = l[:k] + l[k + 1:]
        elif op == 2:
            l = l[:k] + rng.choice(chars) + l[k + 1:]
        elif op == 3:
            l = l[:k]
        elif op == 4:       # a token is repeated, removed or moved
            t = l.split(" ")
            i = rng.randrange(len(t))
            t[i:i + 1] = rng.choice([[], [t[i], t[i]], [rng.choice(t)], [t[i], rng.choice(t)]])
            l = " ".join(t)
        elif op == 5:       # an instruction is repeated, removed or moved
            lines[j:j + 1] = rng.choice([[l, l], [rng.choice(lines[1:])] if len(lines) > 1 else [l], [l, rng.choice(lines)], [""], ["#" + l], []])
            if len(lines) < 2:
                lines.append("")
            continue
        elif op == 6:       # a reference is redirected
            at = [i for i in range(len(l) - 1) if l[i] == "&" and l[i + 1].isdigit()]
            if at:
                i = rng.choice(at)
                l = l[:i + 1] + str(rng.choice([0, j - 1, j, j + 1, 10, 99])) + l[i + 2:]
        else:
            l = rng.choice([l.replace('"', "", 1), l.replace("model", "Model", 1), l.replace("=", " ", 1), l.replace("=", "==", 1), l.replace(" ", "", 1), l.replace("_", "-", 1),
                            l + ' "', l + " &0", l + " 1", l + " x=1", l + " #", l + " =", l.replace("null", "NULL"), l.replace("null", "true"), l.replace('"weight"', '"param"')])
        lines[j] = l
    return lines


def judged(ctx, case):
    recipes.setup()
    return verdict_differs(ctx, case["text"], case["verdict"], case["term"], recipes.Same())


def main(ctx):
    lib.quiet_warm()
    recipes.setup()
    q = ctx.quick
    base = dict(Keywords='{"a","n","e"}', NResults=1, Mode='"read"')
    ctx.tlc("RecipeText", label="design(arguments)", workers=6, timeout=2000, consts=dict(base, Alphabet=tla(ALPHABET[:8]), MaxLen=4 if q else 5))
    ctx.tlc("RecipeLines", label="design(mutated texts)", workers=4, simulate=3000 if q else 60000, depth=80,
            consts=dict(Mode='"text"', MinLines=2, MaxLines=5, MaxArgs=4, MaxMut=2, Strs='{"s1","s2"}', Nums='{"n1","n2"}'))
    lines = ctx.tlc("RecipeText", "RecipeTextGen", label="all short arguments", workers=1, timeout=2000, consts=dict(base, Alphabet=tla(ALPHABET), MaxLen=3 if q else 4)).lines
    for alphabet, depth in ((["Q", "B", "S", "a", "="], 7), (["a", "=", "1", "S", "Q", "n"], 7), (["&", "0", "1", "S", "-", "a", "="], 7), (["1", "0", ".", "e", "-", "S"], 7), (ALPHABET, 9), (["n", "u", "l", "S", "Q"], 6)):
        lines += ctx.tlc("RecipeText", "RecipeTextGen", label="long arguments", simulate=1500 if q else 40000, depth=3 * depth, consts=dict(base, Alphabet=tla(alphabet), MaxLen=depth)).lines
    for g in lines:
        ctx.check(arguments, {"kind": "arguments", "text": g["text"], "verdict": g["verdict"], "items": g["items"]})
    cases = []
    for mut, n in ((0, 1500), (1, 8000), (2, 3000)):
        for g in ctx.tlc("RecipeLines", "RecipeLinesGen", label=f"texts with {mut} mutations", simulate=n if q else 15 * n, depth=80,
                         consts=dict(Mode='"text"', MinLines=2, MaxLines=6, MaxArgs=4, MaxMut=mut, Strs='{"s1","s2","s3"}', Nums='{"n1","n2","n3"}')).lines:
            case = dict(kind="mutated", header=g["header"], lines=g["lines"], verdict=g["verdict"], term=g["term"], seed=ctx.rng.randrange(1 << 30))
            ctx.check(mutated, case)
            if mut == 0 and g["verdict"] == "ok" and len(g["canon"]) > 1:
                cases.append(case)
    # corrupted texts of real recipes
    texts = []
    while len(texts) < (3000 if q else 40000):
        case = ctx.rng.choice(cases)
        vals = recipes.Values(ctx.rng)
        r, e = parse(recipes.render(case, vals, ctx.rng))
        if r is None:
            continue
        t = sd_mecha.serialize(r)
        if all(31 < ord(c) < 127 or c == "\n" for c in t) and "<empty>" not in t:
            texts += [corrupt(ctx.rng, t) for _ in range(4)]
    for t, (verdict, term) in zip(texts, recipes.judge(ctx, texts, "corrupted texts")):
        ctx.check(judged, {"kind": "judged", "text": t, "verdict": verdict, "term": term})


def replay(ctx, case):
    ctx.check({"arguments": arguments, "mutated": mutated, "judged": judged}[case["kind"]], case)
