"""C31: Declare says which method declarations are well formed and what they leave in the registries; histories of declarations are made with
the real decorator, and after each one the registries, every conversion and a composition are compared."""
import random, typing
import torch
from vh import lib, snapshot
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, merge_spaces, model_configs, model_formats
from sd_mecha.extensions.merge_spaces import MergeSpaceSymbol

REJECT = (TypeError, ValueError, RuntimeError, AssertionError)
SPACES = {"w": "weight", "d": "delta", "p": "param"}
T = typing.TypeVar("T")
CONFIGS = {c: lib.config(f"vt-declare.{c.lower()}", {"k": ([1], "float64"), c: ([1], "float64", {"optional": True})}) for c in "XYZ"}
STRUCTURAL = model_configs.StructuralModelConfig({})


def declare(case, d, ident, names):
    """Writes the function down and decorates it: (method or None, error)."""
    rng = random.Random(case["seed"] * 31 + names)
    symbols = {"A": MergeSpaceSymbol("weight", "delta"), "B": MergeSpaceSymbol("weight", "delta", "param")}
    sets = {"w": ["weight", ["weight"], merge_spaces.resolve("weight")], "d": ["delta", ("delta",)], "p": ["param", {"param"}], "wd": [("weight", "delta"), {"delta", "weight"}]}
    env = {"torch": torch}

    def config(cf):
        return None if cf == "none" else rng.choice([CONFIGS[cf], CONFIGS[cf].identifier])

    def annotation(i, make, interface, sp, cf, good, foreign):
        """The source text of the annotation of parameter i (0: the return value)."""
        what = d["spoil"]["what"] if d["spoil"]["at"] == i else "nothing"
        if what == "missing":
            return ""
        if what == "bare":
            return good
        if what == "foreign":
            env["F"] = foreign
            return rng.choice(["F", "torch.Tensor", "float", "'torch.Tensor'"])
        if what == "interface":
            interface = rng.choice([list, dict, object, torch.nn.Module, bytes, complex] + ([StateDict, StateDict[torch.Tensor]] if i == 0 else []))
        if what == "config":
            cf = rng.choice([STRUCTURAL, "vt-declare.nothing", ""])
        if what == "space":
            sp = rng.choice(["vt-nothing", "", "Weight"] + ([("weight", "vt-nothing"), ["param", ""]] if i else []))
        env[f"make{i}"] = lambda: make(interface, sp, cf)
        text = f"make{i}()"
        if i and rng.random() < 0.2:
            env["Optional"] = typing.Optional
            return f"Optional[{text}]"
        if what == "nothing" and rng.random() < 0.1:
            env[f"P{i}"] = make(interface, sp, cf)
            return f"'P{i}'"
        return text

    env["Parameter"], env["Return"] = Parameter, Return
    parts, starred = [], False
    for i, p in enumerate(d["params"], 1):
        interface = rng.choice([float, int, bool, str]) if p["lit"] else rng.choice([torch.Tensor, torch.Tensor, T] if p["def"] else [torch.Tensor, torch.Tensor, T, StateDict[torch.Tensor], StateDict])
        sp = symbols.get(p["sp"]) or (None if p["sp"] == "none" else rng.choice(sets[p["sp"]]))
        a = annotation(i, Parameter, interface, sp, config(p["cf"]), "Parameter", Return(torch.Tensor))
        if p["how"] == "kw" and not starred:
            parts.append("*")
            starred = True
        starred = starred or p["how"] == "var"
        parts.append(("*" if p["how"] == "var" else "") + f"x{i}" + (f": {a}" if a else "") + (" = " + rng.choice(["1.0", "0", "None"]) if p["def"] else ""))
    sp = symbols.get(d["ret"]["sp"]) or SPACES.get(d["ret"]["sp"])
    a = annotation(0, Return, rng.choice([torch.Tensor, torch.Tensor, T]), sp, config(d["ret"]["cf"]), "Return", Parameter(torch.Tensor))
    if rng.random() < 0.3:
        parts.append("**kwargs")
    name = ident if rng.random() < 0.5 else "run"
    options = {"is_conversion": d["conv"]} if d["conv"] or rng.random() < 0.3 else {}
    if not d["reg"] or rng.random() < 0.3:
        options["register"] = d["reg"]
    if name != ident or rng.random() < 0.3:
        options["identifier"] = ident
    env["decorate"] = merge_method if not options and rng.random() < 0.5 else merge_method(**options)
    text = f"@decorate\ndef {name}({', '.join(parts)}){' -> ' + a if a else ''}:\n    return torch.zeros(1)\n"
    try:
        exec(text, env)
        return env[name], text, None
    except REJECT as e:
        return None, text, e


def registries(identifiers):
    found = dict.fromkeys(identifiers)
    methods = list(merge_methods.get_all())
    known = {m.identifier for m in methods}
    for i in found:
        if i in known:
            found[i] = merge_methods.resolve(i)
    return found, methods, list(merge_methods.get_all_converters())


def execute(ctx, case):
    with snapshot.restored(merge_methods, merge_spaces, model_configs, model_formats):
        for c in CONFIGS.values():
            model_configs.register(c)
        for e in case["log"]:
            e["converters"] = e["converters"] or {}
        names = {i: f"vt_declare_{i}" for i in case["log"][0]["methods"]}
        made = {}
        before = registries(names.values())
        for n, e in enumerate(case["log"], 1):
            d = e["d"]
            m, text, error = declare(case, d, names[d["id"]], n)
            after = registries(names.values())
            told = f"declaration {n} of {len(case['log'])} as {d['id']}: {text}"
            if e["ok"] and error is not None:
                return f"{told} is well formed but rejected: {type(error).__name__}: {error}"
            if not e["ok"] and error is None:
                return f"{told} is accepted ({describe(d)})"
            ctx.note("accepted" if e["ok"] else "rejected")
            made[n] = m
            if not e["ok"] and any([x is not y for a, b in zip(before[1:], after[1:]) for x, y in zip(a, b)] + [len(a) != len(b) for a, b in zip(before[1:], after[1:])]):
                return f"{told} is rejected but changes the registries"
            for i, ident in names.items():
                if after[0][ident] is not (made[e["methods"][i]] if e["methods"][i] else None):
                    return f"after {told}: {i} resolves to {after[0][ident]}, specified: declaration {e['methods'][i]}"
            mine = [x for x in after[2] if x.identifier in names.values()]
            want = [made[v] for v in e["converters"].values() if v]
            if sorted(map(id, mine)) != sorted(map(id, want)):
                return f"after {told}: the converters are {mine}, specified: {want}"
            before = after
            if not e["ok"] and after[0][names[d["id"]]] is None and n == len(case["log"]):
                try:
                    return f"{told} is rejected, but its identifier resolves to {merge_methods.resolve(names[d['id']])}"
                except ValueError:
                    pass
            for src in CONFIGS:
                for tgt in CONFIGS:
                    node = sd_mecha.literal({"k": torch.zeros(1)}, CONFIGS[src], "weight")
                    try:
                        r = sd_mecha.convert(node, CONFIGS[tgt])
                    except ValueError:
                        r = None
                    if (r is not None) != (tgt in e["reach"][src]):
                        return f"after {told}: converting {src} to {tgt} {'works' if r is not None else 'is not possible'}, the converters are {[describe(case['log'][v - 1]['d']) for v in e['converters'].values() if v]}"
                    if r is not None and (r.model_config.identifier != CONFIGS[tgt].identifier or r.merge_space.identifier != "weight"):
                        return f"after {told}: converting {src} to {tgt} gives {r.model_config} {r.merge_space}"
            if e["ok"] and e["result"] != "open":
                pos, kw = [], {}
                for i, (p, a) in enumerate(zip(d["params"], e["args"]), 1):
                    if a == "omitted" and p["how"] == "kw":
                        continue
                    if a == "omitted":
                        if any(q["how"] == "var" for q in d["params"]):
                            pos.append(1.0)
                        continue
                    x = sd_mecha.literal({"k": torch.zeros(1)}, None if p["cf"] == "none" else CONFIGS[p["cf"]], SPACES[a])
                    if p["how"] == "kw":
                        kw[f"x{i}"] = x
                    else:
                        pos += [x] * (1 + (p["how"] == "var"))
                r = m(*pos, **kw)
                if r.merge_space.identifier != SPACES[e["result"]]:
                    return f"{told} composed in {e['args']} gives {r.merge_space.identifier}, specified: {SPACES[e['result']]}"
                ctx.note("composed")
                try:        # without variadic arguments the space may be unknown, which is an error like any other
                    least = m(*pos[:sum(p["how"] == "pos" and not p["def"] for p in d["params"])], **kw)
                    if least.merge_space.identifier != SPACES[e["result"]]:
                        return f"{told} composed in {e['args']} without variadic arguments gives {least.merge_space.identifier}, specified: {SPACES[e['result']]} or an error"
                except REJECT:
                    ctx.note("not determined")


def describe(d):
    s = d["spoil"]
    return f"spoiled: {s['what']} of {s['at']}" if s["what"] != "nothing" else f"{d['params']} -> {d['ret']}"


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    base = dict(Spaces='{"none","w","p","wd","A","B"}', Configs='{"X","Y","Z"}', Hows='{"pos","var","kw"}', RetSpaces='{"none","w","A","B"}', MethodIds='{"m1","m2"}', ConverterIds='{"c1","c2","c3"}',
                Spoils='{"missing","bare","foreign","interface","config","space"}', Binds='{"w","d"}', Tidy="FALSE")
    small = dict(base, Spaces='{"none","w","A"}', Configs='{"X","Y"}', RetSpaces='{"none","A"}', Spoils='{"bare"}')
    ctx.tlc("Declare", label="design, one declaration", workers=8, timeout=2000, consts=dict({**small, **(dict(Configs='{"X"}', Spaces='{"none","A"}') if q else {})}, MaxParams=2, MaxDecls=1, MethodIds='{"m1"}', ConverterIds='{"c1"}'))
    ctx.tlc("Declare", label="design, histories", workers=8, timeout=3000, consts=dict(small, MaxParams=1, MaxDecls=2, MethodIds='{"m1"}' , ConverterIds='{"c1"}', Spaces='{"none"}', RetSpaces='{"none","A"}' if not q else '{"none"}', Hows='{"pos","var"}', Binds='{"w"}'))
    n = 400 if q else 6000
    tidy = dict(base, Tidy="TRUE")
    lines = ctx.tlc("Declare", "DeclareGen", label="one declaration", simulate=2 * n, depth=40, workers=1, timeout=2000, consts=dict(base, MaxParams=4, MaxDecls=1)).lines
    lines += ctx.tlc("Declare", "DeclareGen", label="histories", simulate=n, depth=120, workers=1, timeout=2000, consts=dict(base, MaxParams=3, MaxDecls=5)).lines
    lines += ctx.tlc("Declare", "DeclareGen", label="converters", simulate=n, depth=160, workers=1, timeout=2000, consts=dict(tidy, MaxParams=2, MaxDecls=7, MethodIds='{}', Hows='{"pos","var","kw"}', Spaces='{"none","w","A"}')).lines
    lines += ctx.tlc("Declare", "DeclareGen", label="well-formed histories", simulate=n, depth=160, workers=1, timeout=2000, consts=dict(tidy, MaxParams=3, MaxDecls=5)).lines
    lines += ctx.tlc("Declare", "DeclareGen", label="return variables", simulate=n, depth=40, workers=1, timeout=2000, consts=dict(base, MaxParams=3, MaxDecls=1, ConverterIds='{}', RetSpaces='{"A","B"}')).lines
    for log in lines:
        ctx.check(execute, {"log": log, "seed": ctx.rng.randrange(1 << 20)})


def replay(ctx, case):
    return execute(ctx, case)
