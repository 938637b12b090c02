"""C02: StreamIn is model checked; its simulated behaviours (layouts, access histories, schedules) drive the real reader."""
import pathlib, random, shutil, tempfile, threading
from vh import sched
sched.install()
import torch
from vh import files, st, gen
from sd_mecha import streaming
from sd_mecha.streaming import StateDictKeyError

UNIT = 8


def build(case, root):
    rng = random.Random(case["data_seed"])
    names = rng.sample(gen.NAMES, len(gen.NAMES))
    tensors = {}
    for j, n in enumerate(case["order"]):
        tensors[n] = gen.tensor(rng, case["size"][j] * UNIT, rng.choice(gen.DTYPES), "contiguous")
    key = {n: names[n] + f".{n}" for n in tensors}
    key[0] = rng.choice(["__metadata__", "absent", "", names[1]])
    gap_unit = UNIT if case["cut"] else rng.choice([1, 3, 8])
    path = root / "in.safetensors"
    start = st.write_layout(path, [(key[n], tensors[n], case["gap"][j] * gap_unit) for j, n in enumerate(case["order"])],
                            metadata=rng.choice([None, {"format": "pt"}, {"mecha_recipe": "x" * 300}]),
                            header_order=[key[n] for n in rng.sample(sorted(tensors), len(tensors))],
                            pad_header=rng.choice([0, 0, 7]))
    if case["cut"]:
        with open(path, "rb+") as f:
            f.truncate(path.stat().st_size - case["cut"] * UNIT)
    return path, key, {key[n]: t for n, t in tensors.items()}


def policy(case):
    rng = random.Random(case["sched_seed"])
    names = [f"T{t}" for t in range(len(case["prog"]))]
    if case["mode"] == "script":
        return sched.script_policy([f"T{t - 1}" for t in case["sched"]])
    if case["mode"] == "pct":
        return sched.pct_policy(rng, names, depth=rng.choice([1, 2, 3, 5]), horizon=rng.choice([40, 150, 400]))
    return sched.random_policy(rng, rng.choice([0.05, 0.3, 0.8]))


def execute(ctx, case):
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc02-"))
    sd = None
    try:
        path, key, content = build(case, root)
        s = sched.Sched(policy(case), trace={"line": "line", "opcode": "opcode"}.get(case["trace"]))

        def on_read(f, pos, n):
            s.point("transfer")
            if pos < 8 and case["xfer"] == "full":
                return n
            return n if case["xfer"] == "full" else min(n, 1) if case["xfer"] == "one" else (n + 1) // 2

        with files.observed(root, files.Hooks(on_read=on_read, after_read=lambda f, n: s.point("transferred"))):
            sd = streaming.InSafetensorsDict(path, case["buf"] * UNIT)
            if (r := listing(sd, content)) is not None:
                return r
            results = [[] for _ in case["prog"]]

            def worker(t):
                def run():
                    for n in case["prog"][t]:
                        s.point("read")
                        try:
                            results[t].append(("ok", sd[key[n]]))
                        except StateDictKeyError as e:
                            results[t].append(("missing", e))
                        except Exception as e:
                            results[t].append(("eof", e))
                return run

            for t in range(len(case["prog"])):
                s.spawn(f"T{t}", worker(t))
            try:
                s.run()
            except sched.Hang as e:
                return f"reading threads hang: {e}"
            for th in s.threads:
                if th.error is not None:
                    raise th.error
            # all values are compared once everything has been read: handed out tensors have to keep their value
            for t, names in enumerate(case["prog"]):
                for i, n in enumerate(names):
                    kind, value = results[t][i]
                    if kind != case["expect"][t][i]:
                        return f"thread {t} read {i} of {key[n]!r}: {kind} ({value!r}), the specification says {case['expect'][t][i]}"
                    if kind == "ok" and not st.same(value, content[key[n]]):
                        return f"thread {t} read {i} of {key[n]!r}: got {st.desc(value)}, the file holds {st.desc(content[key[n]])}"
            if not case["cut"]:
                return listing(sd, content) or bulk(sd, content)
    finally:
        if sd is not None:
            sd.close()
        shutil.rmtree(root, ignore_errors=True)


def listing(sd, content):
    if sorted(sd.keys()) != sorted(content) or sorted(sd) != sorted(content) or len(sd) != len(content):
        return f"the key listing is {sorted(sd.keys())} (len {len(sd)}), the file holds {sorted(content)}"
    meta = dict(sd.metadata())
    if sorted(meta) != sorted(content):
        return "metadata() does not list the tensors of the file"
    for k, t in content.items():
        if tuple(meta[k].shape) != tuple(t.shape) or meta[k].dtype != t.dtype:
            return f"metadata of {k!r}: {meta[k]}, the file holds {st.desc(t)}"


def bulk(sd, content):
    for k, v in sd.items():
        if not st.same(v, content[k]):
            return f"items() gives {st.desc(v)} for {k!r}, the file holds {st.desc(content[k])}"
    if len(list(sd.values())) != len(content):
        return "values() does not give every tensor"
    for k in content:
        if k not in sd:
            return f"{k!r} is not `in` the state dict"
    if "__metadata__" in sd or "no such key" in sd:
        return "a key the file does not hold is `in` the state dict"


def variants(ctx, g, i):
    base = {k: g[k] for k in ("size", "gap", "order", "buf", "cut", "xfer", "prog", "expect")}
    base["data_seed"] = ctx.rng.randrange(1 << 30)
    yield {**base, "mode": "script", "sched": g["sched"], "trace": None, "sched_seed": 0}
    yield {**base, "mode": "random", "trace": "line", "sched_seed": ctx.rng.randrange(1 << 30)}
    yield {**base, "mode": "pct", "trace": "opcode" if i % 4 == 0 else "line", "sched_seed": ctx.rng.randrange(1 << 30)}


def main(ctx):
    design = dict(NTensors=2, Sizes="{0,2}", Gaps="{0,1}", Buffers="{0,4}", NThreads=2, NReads=1, Cuts='{"none"}', Transfers='{"full","half"}', Missing="TRUE", WithHist="FALSE")
    ctx.tlc("StreamIn", consts=design, workers=4, label="design(2 threads)")
    ctx.tlc("StreamIn", consts={**design, "NThreads": 1, "NReads": 3, "Transfers": '{"full"}', "Sizes": "{0,2}" if ctx.quick else "{0,1,3}"}, workers=4, label="design(3 reads)", timeout=3000)
    if not ctx.quick:
        ctx.tlc("StreamIn", consts={**design, "NReads": 2}, workers=8, label="design(2 threads x 2 reads)", timeout=3000)
    n = 100 if ctx.quick else 2500
    gen_consts = dict(NTensors=4, Sizes="{0,1,2,3,5,8}", Gaps="{0,2}", Buffers="{0,1,5,64}", NThreads=3, NReads=4, Cuts='{"none"}', Transfers='{"full","one","half"}', Missing="TRUE", WithHist="TRUE")
    runs = [ctx.tlc("StreamIn", "StreamInGen", label="histories(3 threads)", simulate=n, consts=gen_consts).lines,
            ctx.tlc("StreamIn", "StreamInGen", label="histories(1 thread)", simulate=n, consts={**gen_consts, "NTensors": 5, "NThreads": 1, "NReads": 12}).lines]
    for lines in runs:
        for i, g in enumerate(lines):
            for case in variants(ctx, g, i):
                if len(g["prog"]) == 1 and case["mode"] != "script":
                    continue
                ctx.check(execute, case)
                ctx.note(f"{case['mode']}/{case['trace']}")


def replay(ctx, case):
    return execute(ctx, case)
