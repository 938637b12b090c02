"""C14: RecipeDag and KeyPolicy with aliased names: inputs store keys under any of their names; the real merges have to look
names up in the documented order and give the same result as with canonical names."""
from checks import c04, policy
from vh import lib, program


def execute(ctx, case):
    return policy.execute(ctx, case) if "opts" in case else aliased(ctx, case)


def aliased(ctx, case):
    bad = c04.execute(ctx, case)
    if bad:
        return bad
    # the same inputs under their canonical names
    canonical = {**case, "inp": [[first(row) + [[]] * (len(row) - 1) for row in rows] for rows in case["inp"]]}
    bad = c04.execute(ctx, canonical)
    return bad and f"with canonical names: {bad}"


def first(row):
    return [next((e for e in row if e), [])]


def main(ctx):
    lib.quiet_warm()
    base = dict(NI=1, NDelta=0, NK=2, NAlias=2, Vals="{1,2}", Alphas="{3}", MissOneIn=1, Chain="TRUE")
    ctx.tlc("RecipeDag", label="design", workers=4, consts={**base, "NAlias": 1 if ctx.quick else 2, "NOps": 1, "Ops": '{"fb","next","kw","pick"}'}, timeout=2000)
    one = ctx.tlc("RecipeDag", "RecipeDagGen", label="all patterns of names", consts={**base, "NK": 1, "NAlias": 2, "NI": 2, "Vals": "{1}", "NOps": 1, "Ops": '{"fb","strict"}'}).lines
    for g in one:
        ctx.check(execute, {**g, "modes": [program.mode(ctx.rng, threads=ctx.rng.choice([0, 2]))]})
    ctx.note("all patterns of names", len(one))
    n = 120 if ctx.quick else 2500
    for lines in (c04.programs(ctx, n, "aliased programs", NAlias=2, NK=3, NI=3, NOps=3, MissOneIn=1),
                  c04.programs(ctx, n, "many names present", NAlias=2, NK=2, NI=2, NOps=2, MissOneIn=4),
                  c04.programs(ctx, n // 2, "lazy methods", NAlias=1, NK=4, NI=2, NOps=4, MissOneIn=1, Ops='{"next","total","fb","wsum","dict","avg"}', NDelta=0)):
        for g in lines:
            ctx.check(execute, {**g, "modes": [program.mode(ctx.rng) for _ in range(2)]})
    for lines in (policy.scenarios(ctx, "policy options", 2 * n, NAlias=2, NX=2),
                  policy.scenarios(ctx, "policy options, nearly complete", 3 * n, NAlias=2, NX=1, NI=2, NOps=2, Entries='{"there","here","gone"}'),
                  policy.scenarios(ctx, "mandatory keys", 3 * n, NAlias=2, NX=1, NI=1, NOps=1, NK=2, Ops='{"keep","fb"}', Entries='{"there","gone"}', Cfs='{"A"}')):
        for g in lines:
            ctx.check(execute, g)


def replay(ctx, case):
    ctx.check(execute, case)
