"""C12: KeyPolicy says which keys are stored, copied, dropped or rejected under the key policy options; every generated
scenario is merged with the real code."""
from checks import policy
from vh import lib


def main(ctx):
    lib.quiet_warm()
    ctx.tlc("KeyPolicy", label="design", workers=6, timeout=2500, consts={**policy.BASE, "NI": 2, "NK": 2 if not ctx.quick else 1, "NX": 1, "NAlias": 0 if ctx.quick else 1, "NOps": 1, "Spaces": '{"w","d"}', "Cfs": '{"A"}', "Ops": '{"wsum","sub","fb","keep"}', "Entries": '{"there","gone"}' })
    n = 350 if ctx.quick else 6000
    for lines in (policy.scenarios(ctx, "scenarios", n),
                  policy.scenarios(ctx, "nearly complete inputs", n, Entries='{"there","here"}', NX=1),
                  policy.scenarios(ctx, "two inputs, many extra keys", n, NI=2, NK=2, NX=4, NOps=1, Cfs='{"A"}', Entries='{"there","gone","inf"}'),
                  policy.scenarios(ctx, "weights only", n, Spaces='{"w"}', Cfs='{"A"}', Ops='{"wsum","fb","kw","keep"}', NI=4),
                  policy.scenarios(ctx, "mandatory", n, NI=2, NOps=1, NX=1, NK=3, NAlias=2, Ops='{"wsum","fb","foreign"}', Entries='{"there","here","gone"}')):
        for g in lines:
            ctx.check(policy.execute, g)


def replay(ctx, case):
    ctx.check(policy.execute, case)
