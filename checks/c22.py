"""C22: SavedRecipe generates programs whose inputs are files or tensors, with or without a config, and uses of them with options. Every
save is made by the real code; the text in the file is compared with the text of a recipe that was never used, read back and merged with
the same options."""
import json, pathlib, random, re, shutil, tempfile
import torch
import sd_mecha
from sd_mecha.extensions import model_configs
from checks import recipes
from vh import lib, program, st

CONFIG = re.compile(r' model_config=("[^"]*"|null)')


CONFIGS = {}


def registered(case):
    """A config for this number of keys and names; configs share no keys, so that they are found."""
    key = (len(case["expect"]), len(case["inp"][0][0]))
    case["names"] = [f"n{key[0]}{key[1]}.{'abcdefgh'[k]}.w" for k in range(key[0])]
    if key not in CONFIGS:
        CONFIGS[key] = program.config(case, f"vt-saved.{key[0]}.{key[1]}")
        model_configs.register(CONFIGS[key])
    return CONFIGS[key]


class Failing(dict):
    def __setitem__(self, k, v):
        raise ZeroDivisionError


class Builder(program.Builder):
    def leaf(self, i):
        if not hasattr(self, "leaves"):
            self.leaves = {}
        if self.mode["share"] and i in self.leaves:
            return self.leaves[i]
        data = {k: program.tensor(v, torch.float32 if i % 2 else torch.float64) for k, v in self.data[i - 1].items()}
        kind, cfg = self.case["kind"][i - 1], self.case["cfg"][i - 1]
        config = {"own": self.cfg, "open": None, "infer": "infer"}[cfg if data else "own"]
        space = "delta" if i > len(self.data) - self.case["nd"] else "weight"
        if kind == "tensors":
            r = sd_mecha.literal(data, config, space)
        else:
            name = f"in {i}é.safetensors" if self.mode["seed"] % 3 == 0 else f"in{i}.safetensors"
            path = (self.root / "models" if kind == "near" else self.root) / name
            st.write(path, data)
            path = pathlib.Path(name) if kind == "near" else path
            r = sd_mecha.model(str(path) if i % 2 else path, config, space)
        self.leaves[i] = r
        return r

    def make(self, n):
        p = self.case["prog"][n - len(self.data) - 1] if n > len(self.data) else {"op": ""}
        if p["op"] == "dict" and set(self.case["cfg"]) != {"own"}:      # all inputs are open
            return sd_mecha.literal({self.key[k]: self.node(m) for k, m in enumerate(p["args"]) if m})
        return super().make(n)

    def alpha(self, p):
        r = super().alpha(p)
        # some hyperparameters are given without a config
        if isinstance(r, sd_mecha.recipe_nodes.LiteralRecipeNode) and self.mode["seed"] % 2 and r.value:
            return sd_mecha.literal(dict(r.value))
        return r


def stored(path):
    raw = path.read_bytes()
    header = json.loads(raw[8:8 + int.from_bytes(raw[:8], "little")])
    return header.get("__metadata__", {}).get("mecha_recipe")


def same_text(got, want, found):
    """The texts agree up to configs that were left open and stored as found."""
    if CONFIG.sub("", got) != CONFIG.sub("", want):
        # a parameter without a config becomes a literal once it has one
        return normal(got) == normal(want)
    for a, b in zip(got.split("\n"), want.split("\n")):
        a, b = (m.group(1) if (m := CONFIG.search(l)) else None for l in (a, b))
        if a != b and not (b in ("null", '"infer"') and a == f'"{found}"'):
            return False
    return True


def normal(text):
    """The recipe of a text without its configs."""
    def strip(s):
        if s[0] == "dict":
            return ("dict", tuple((k, strip(v)) for k, v in s[1]))
        if s[0] == "model":
            return ("model", s[1], s[3])
        if s[0] == "lit":
            v = strip(s[1])
            return v if s[3] == "param" else ("lit", v, s[3])
        if s[0] == "merge":
            return ("merge", s[1], tuple(map(strip, s[2])), tuple((k, strip(v)) for k, v in s[3]), s[5])
        return s
    return strip(recipes.shape(sd_mecha.deserialize(text)))


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c22-"))
    try:
        (root / "models").mkdir()
        rng = random.Random(case["mode"]["seed"])
        cfg = registered(case)
        made = [Builder(case, {**case["mode"], "config": cfg}, root) for _ in range(2)]
        last = len(case["inp"]) + len(case["prog"])
        node, never = (b.node(last) for b in made)
        b = made[0]
        try:
            fresh = sd_mecha.serialize(never)
        except TypeError:
            fresh = None
        for n, u in enumerate(case["uses"]):
            what = f"use {n + 1} of {[(x['op'], x['fb']) for x in case['uses']]}: "
            if u["op"] == "text":
                try:
                    got = sd_mecha.serialize(node)
                except TypeError:
                    got = None
                if got != fresh or (got is not None) != u["stored"]:
                    return what + f"the text is {got!r}, of a recipe that was never used: {fresh!r} (specified: {'a text' if u['stored'] else 'none'})"
                continue
            extras = rng.random() < 0.2
            opts = dict(merge_dtype=torch.float64, output_dtype=rng.choice([torch.float64, torch.float32, None]), threads=rng.choice([0, 2, None]), total_buffer_size=4096,
                        strict_weight_space=False, tqdm=lib.quiet, model_dirs=[root / "models"], omit_extra_keys=not extras, check_finite=rng.random() < 0.5)
            if u["fb"]:
                opts["fallback_model"] = b.leaf(u["fb"])
            if u["op"] == "fail":
                try:
                    sd_mecha.merge(node, output=Failing(), **opts)
                except ZeroDivisionError:
                    pass
                continue
            if u["op"] == "merge":
                sd_mecha.merge(node, **opts)
                continue
            out = root / f"out{n}.safetensors"
            sd_mecha.merge(node, output=out, **opts)
            got = stored(out)
            ctx.note("saved " + ("with" if got is not None else "without") + " a recipe")
            if (got is not None) != u["stored"]:
                return what + f"the file has {'a' if got is not None else 'no'} recipe, specified: {u['stored']}"
            result = st.load(out)
            want = {b.key[k]: e[0] for k, e in enumerate(u["expect"]) if e}
            if not extras and {k: v.tolist() for k, v in result.items()} != {k: [float(v)] * 2 for k, v in want.items()}:
                return what + f"the file has {({k: v.tolist() for k, v in result.items()})}, specified: {want}"
            if got is None:
                continue
            if not same_text(got, fresh, cfg.identifier):
                return what + f"stored {got!r}, the recipe is {fresh!r}"
            models = [l for l in got.split("\n") if l.startswith("model ")]
            if len(models) != len(case["leaves"]):
                return what + f"{len(models)} model instructions for {len(case['leaves'])} inputs: {got!r}"
            again = root / f"again{n}.safetensors"
            sd_mecha.merge(sd_mecha.deserialize(got), output=again, **opts)
            other = st.load(again)
            if {k: (v.dtype, v.tolist()) for k, v in result.items()} != {k: (v.dtype, v.tolist()) for k, v in other.items()}:
                return what + f"the stored recipe {got!r} gives {other} instead of {result}"
            if not same_text(stored(again), got, cfg.identifier):
                return what + f"the stored recipe {got!r} is saved as {stored(again)!r}"
    finally:
        shutil.rmtree(root)


OPS = '{"wsum","add","sub","avg","fb","pick","omit","strict","kw","next","total","const"}'
WITH_DICT = OPS[:-1] + ',"dict"}'


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    base = dict(NI=2, NDelta=0, NK=1, NAlias=0, NOps=2, Vals="{1}", Alphas="{3}", MissOneIn=0, Chain="TRUE", Kinds='{"file","tensors"}', Configs='{"own","open"}', What='"given"')
    ctx.tlc("SavedRecipe", label="design", workers=8, timeout=2000, consts=dict(base, Ops='{"fb","sub"}' if q else '{"fb","sub","wsum","dict"}', MaxUses=1))
    ctx.tlc("SavedRecipe", label="design(uses)", workers=8, timeout=2000, consts=dict(base, NOps=1, Ops='{"fb"}' if q else '{"fb","sub"}', MaxUses=3 if q else 4))
    sim = dict(NI=4, NDelta=1, NK=3, NAlias=0, NOps=5, Ops=OPS, Vals="{1,2,3}", Alphas="{1,2,3,4}", MissOneIn=0, Chain="TRUE", Kinds='{"file","near"}', Configs='{"own","open"}', What='"given"', MaxUses=5)
    ctx.tlc("SavedRecipe", label="design(simulated)", workers=8, simulate=200 if q else 5000, depth=400, consts=dict(sim, NAlias=1, MissOneIn=2, Kinds='{"file","near","tensors"}'))
    n = 1 if q else 15
    for label, count, consts in (("5 nodes", 70, {}), ("5 nodes, missing keys", 50, dict(MissOneIn=3, NK=4)), ("some inputs in memory", 30, dict(Kinds='{"file","near","file","tensors"}')),
                                 ("with dictionaries", 40, dict(Configs='{"own"}', Ops=WITH_DICT)), ("all open, with dictionaries", 40, dict(Configs='{"open"}', Ops='{"sub","avg","fb","pick","strict","kw","total","dict"}')),
                                 ("all inferred", 20, dict(Configs='{"infer"}', Ops='{"sub","avg","fb","pick","strict","kw","total"}')), ("2 nodes", 40, dict(NOps=2, MaxUses=8)), ("8 nodes, aliases", 30, dict(NOps=8, NI=3, NAlias=1, MissOneIn=3, Chain="FALSE"))):
        for g in ctx.tlc("SavedRecipe", "SavedRecipeGen", label=label, simulate=count * n, depth=900, workers=1, consts={**sim, **consts}).lines:
            ctx.check(execute, {**g, "mode": program.mode(ctx.rng, leaves="file", plain=True)})
            ctx.note(f"root {g['prog'][-1]['op']}")


def replay(ctx, case):
    lib.quiet_warm()
    ctx.check(execute, case)
