"""C18: RecipeTypes decides which compositions are well-typed; every enumerated signature and call is composed with the
real library and the verdict, the resulting space and the spaces of the arguments are compared."""
import random
from checks import types
from checks.types import SPACES, SHORT, REJECT
from vh import lib
import sd_mecha
from sd_mecha.recipe_nodes import RecipeNode

CONFIGS = {"cA": lib.config("vt-ca", {"k": ([1], "float32"), "l": ([1], "float32")})}


def execute(ctx, g):
    rng = random.Random(g["seed"])
    m = types.method(g, {}, rng)
    shared = {}
    nodes = []
    for args in g["args"]:
        row = []
        for a in args:
            if a["form"] == "number":
                row.append(rng.choice([1, 0.5, True]))
                continue
            if a["sp"] in shared and rng.random() < 0.5:
                row.append(shared[a["sp"]])
                continue
            b = {**a, "cf": rng.choice(["none", "cA"])}
            n = types.node(b, CONFIGS, rng, depth=g["depth"])
            if n.merge_space.identifier != SPACES[a["sp"]]:
                return f"a recipe built in {SPACES[a['sp']]} space reports {n.merge_space.identifier}"
            shared[a["sp"]] = n
            row.append(n)
        nodes.append(row)
    flat = [n for row in nodes for n in row if isinstance(n, RecipeNode)]
    before = [n.merge_space.identifier for n in flat]
    try:
        r = types.call(m, g, nodes, rng)
        got = r.merge_space.identifier
    except REJECT as e:
        got = None
        error = e
    if [n.merge_space.identifier for n in flat] != before:
        return "composing changed the merge space of an argument"
    if g["accepted"] and got is None:
        return f"a well-typed composition is rejected: {error}"
    if not g["accepted"] and got is not None:
        return f"an ill-typed composition is accepted, with space {got}"
    if g["accepted"] and got != SPACES[g["space"]]:
        return f"the space of the result is {got}, the specification says {SPACES[g['space']]}"
    if g["accepted"]:
        # using the result somewhere else does not re-type it
        for use in (lambda: types.keep(r), lambda: types.keep_kw(x=r), lambda: r | r, lambda: sd_mecha.literal({"k": r}), lambda: types.keep_many(r, r)):
            if use().merge_space.identifier != got:
                return "nesting the recipe changed its space"
        if r.merge_space.identifier != got:
            return "nesting the recipe changed its own space"
        other = types.leaf({"sp": next(s for s in "wdp" if SPACES[s] != got), "cf": "none"}, {}, rng)
        for bad in (lambda: types.keep_many(r, other), lambda: r | other, lambda: sd_mecha.literal({"k": r, "l": other})):
            try:
                bad()
            except REJECT:
                continue
            return f"{got} and {other.merge_space.identifier} were combined where they must be equal"
    ctx.note("accepted" if g["accepted"] else "rejected")


def main(ctx):
    allsp = '{"w","d","p","wd","wdp","A","B","none","lit"}'
    base = dict(ConfigDemands='{"none"}', Hows='{"pos","def","var","kw"}', RetSpaces='{"none","w","d","p","A","B"}', RetConfigs='{"none"}', ArgSpaces='{"w","d","p"}', ArgConfigs='{"none"}', Reals='{"none"}')
    ctx.tlc("RecipeTypes", label="design", workers=4, consts={**base, "NParams": 2, "MaxVar": 2, "SpaceSpecs": allsp if not ctx.quick else '{"w","wd","A","B","none","lit"}', "RetSpaces": base["RetSpaces"] if not ctx.quick else '{"none","w","A","B"}'}, timeout=2000)
    one = ctx.tlc("RecipeTypes", "RecipeTypesGen", label="all signatures with one parameter", consts={**base, "NParams": 1, "MaxVar": 2, "SpaceSpecs": allsp}).lines
    n = 900 if ctx.quick else 12000
    two = ctx.tlc("RecipeTypes", "RecipeTypesGen", label="two parameters", simulate=3 * n, consts={**base, "NParams": 2, "MaxVar": 2, "SpaceSpecs": allsp}).lines
    many = ctx.tlc("RecipeTypes", "RecipeTypesGen", label="four parameters", simulate=4 * n, consts={**base, "NParams": 4, "MaxVar": 3, "SpaceSpecs": '{"w","wd","A","B","none","lit"}', "RetSpaces": '{"none","w","A","B"}'}).lines
    few = ctx.tlc("RecipeTypes", "RecipeTypesGen", label="four parameters, one variable", simulate=3 * n, consts={**base, "NParams": 4, "MaxVar": 2, "SpaceSpecs": '{"A","B","none"}', "RetSpaces": '{"none","A","B"}', "ArgSpaces": '{"w","d"}', "Hows": '{"pos","kw"}'}).lines
    for lines in (one, two, many, few):
        for g in lines:
            ctx.check(execute, {**g, "seed": ctx.rng.randrange(1 << 30), "depth": ctx.rng.choice([0, 1, 1, 2])})
            ctx.note(f"{len(g['params'])} parameters")


def replay(ctx, case):
    ctx.check(execute, case)
