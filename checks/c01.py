"""C01: StreamOut is model checked; its simulated schedules drive the real OutSafetensorsDict; StreamOutJudge judges the files."""
import hashlib, pathlib, random, shutil, tempfile, threading
from vh import sched
sched.install()
import torch
from vh import files, st
from vh.gen import DTYPES, LAYOUTS, NAMES, tensor
import sd_mecha
from sd_mecha import streaming

UNIT = 8


def build(case):
    """The concrete tensors, announced header and recipe text of a case: {thread: [(key, tensor)]}, header, recipe."""
    rng = random.Random(case["data_seed"])
    progs, header = {}, {}
    n_threads = len(case["size"])
    names = rng.sample(NAMES, len(NAMES))
    for t, sizes in enumerate(case["size"]):
        progs[t] = []
        for i, s in enumerate(sizes):
            dtype = rng.choice(DTYPES)
            x = tensor(rng, s * UNIT, dtype, rng.choice(LAYOUTS))
            key = f"{names[(t * len(sizes) + i) % len(names)]}.{t}.{i}"
            progs[t].append((key, x))
            how = "none" if case["grow"] else rng.choice(["exact", "exact", "bigger", "smaller", "dtype", "unknown", "none", "reshape"])
            meta = {
                "exact": (x.shape, x.dtype),
                "bigger": (torch.Size([*x.shape, 1000]), x.dtype),
                "smaller": (torch.Size([]), x.dtype),
                "dtype": (x.shape, rng.choice(DTYPES)),
                "reshape": (torch.Size([x.numel()]), x.dtype),
                "unknown": (None, None),
            }.get(how)
            if meta is not None:
                header[key] = streaming.TensorMetadata(*meta)
    items = list(header.items())
    rng.shuffle(items)
    if not case["grow"] and rng.random() < 0.3:
        items.append(("announced but never stored", streaming.TensorMetadata(torch.Size([7]), torch.float32)))
    recipe = rng.choice([None, "", "version 0.1.0\nmodel \"a b.safetensors\"\nmerge \"x\" &0", 'q"\\\u00e9\n' * 20])
    return progs, dict(items), recipe


def policy(case, names):
    rng = random.Random(case["sched_seed"])
    if case["mode"] == "script":
        return sched.script_policy([f"T{t - 1}" for t in case["sched"]])
    if case["mode"] == "pct":
        return sched.pct_policy(rng, names, depth=rng.choice([1, 2, 3, 5]), horizon=rng.choice([60, 200, 600]))
    return sched.random_policy(rng, rng.choice([0.05, 0.3, 0.8]))


def execute(case):
    """Run the case on the real code; returns the record judged by StreamOutJudge."""
    progs, header, recipe = build(case)
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc01-"))
    try:
        path = root / "out.safetensors"
        s = sched.Sched(policy(case, [f"T{t}" for t in progs]), trace={"line": "line", "opcode": "opcode"}.get(case["trace"]))

        def point(*a):
            s.point("transfer")
            return a[2] if len(a) > 2 else None

        with files.observed(root, files.Hooks(on_write=point, after_write=point)):
            out = streaming.OutSafetensorsDict(path, header, recipe, case["buf"] * UNIT)

            def worker(t):
                def run():
                    for key, x in progs[t]:
                        s.point("store")
                        out[key] = x
                return run

            for t in progs:
                s.spawn(f"T{t}", worker(t))
            s.run()
            for th in s.threads:
                if th.error is not None:
                    raise th.error
            out.close()
        return record([kv for p in progs.values() for kv in p], path, recipe)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def digest(b):
    return hashlib.sha1(b).hexdigest()[:16]


def record(stored, path, recipe):
    rec = {
        "stored": [{"key": k, "dtype": st.NAMES[x.dtype], "shape": list(x.shape), "n": x.numel() * x.element_size(), "content": digest(st.raw(x))} for k, x in stored],
        "entries": [], "size": 0, "wellformed": True, "why": "", "recipeGiven": "-" if recipe is None else "=" + recipe, "recipeFound": "-",
    }
    try:
        header, start, data = st.parse(path)
        rec["size"] = len(data) - start
        for k, v in header.items():
            if k == "__metadata__":
                rec["recipeFound"] = "=" + v["mecha_recipe"] if "mecha_recipe" in v else "-"
                if not all(isinstance(x, str) for x in v.values()):
                    raise st.Malformed("metadata that is not text")
                continue
            b, e = v["data_offsets"]
            rec["entries"].append({"key": k, "dtype": v["dtype"], "shape": list(v["shape"]), "b": b, "e": e, "content": digest(data[start + b:start + e])})
    except st.Malformed as e:
        rec["wellformed"], rec["why"] = False, str(e)
    except (KeyError, ValueError, TypeError, AttributeError) as e:
        rec["wellformed"], rec["why"] = False, f"{type(e).__name__}: {e}"
    return rec


def judge(ctx, cases, records):
    r = ctx.tlc("StreamOutJudge", traces=records, coverage=False)
    assert len(r.lines) == len(records), (len(r.lines), len(records))
    for line in r.lines:
        if line["verdict"] != "ok":
            i = line["i"] - 1
            ctx.violation(line["verdict"], {**cases[i], "record": records[i]})


def merge_case(ctx, case):
    """The same through merge(): worker threads of the library, a method that changes shapes and dtypes."""
    from vh import lib
    rng = random.Random(case["data_seed"])
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc01-"))
    try:
        n = case["keys"]
        dtypes = [torch.float32, torch.float16, torch.bfloat16, torch.float64, torch.int32, torch.bool, torch.uint8]
        sd = {f"key.{i}": tensor(rng, rng.choice([0, 1, 2, 5, 40]) * 8, rng.choice(dtypes), "contiguous") for i in range(n)}
        res = {k: tensor(rng, rng.choice([0, 1, 3, 64]) * 8, rng.choice(dtypes), rng.choice(LAYOUTS)) for k in sd}
        cfg = lib.config("vt-c01", {k: (list(v.shape), "float32") for k, v in sd.items()})
        recipe = lib.replace_with(res)(sd_mecha.model(sd, cfg))
        path = root / "o.safetensors"
        with lib.switch_interval(1e-6):
            sd_mecha.merge(recipe, output=path, output_dtype=None, merge_dtype=None, merge_device=None, output_device=None,
                           threads=case["threads"], total_buffer_size=case["buf"], tqdm=lib.quiet)
        return record(list(res.items()), path, None), None
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_batch(ctx, cases):
    records = []
    kept = []
    for case in cases:
        def go(ctx, case):
            if case["mode"] == "merge":
                rec, err = merge_case(ctx, case)
            else:
                try:
                    rec = execute(case)
                except sched.Hang as e:
                    return f"storing threads hang: {e}"
            if rec["recipeGiven"] == "-" and case["mode"] == "merge":
                rec["recipeFound"] = "-"
            records.append(rec)
            kept.append(case)
        ctx.check(go, case)
        ctx.note(f"{case['mode']}/{case.get('trace')}")
    judge(ctx, kept, records)


def main(ctx):
    design = dict(NThreads=2, NStores=2, Sizes="{0,1,3}", Buffers="{0,2}", Growths="{0,2}", Chunk=2, WithHist="FALSE")
    if not ctx.quick:
        design.update(NThreads=3, NStores=2, Sizes="{0,1,3}", Buffers="{0,2,4}", Growths="{0,2}")
    ctx.tlc("StreamOut", consts=design, workers=4 if ctx.quick else 8, label="design", timeout=3000)
    n = 120 if ctx.quick else 3000
    g1 = ctx.tlc("StreamOut", "StreamOutGen", label="schedules(3x3)", simulate=n,
                 consts=dict(NThreads=3, NStores=3, Sizes="{0,1,3,5}", Buffers="{0,2,4,12}", Growths="{0,3}", Chunk=2, WithHist="TRUE")).lines
    g2 = ctx.tlc("StreamOut", "StreamOutGen", label="schedules(2x5)", simulate=n // 2,
                 consts=dict(NThreads=2, NStores=5, Sizes="{0,1,2,7}", Buffers="{0,1,3}", Growths="{0,3}", Chunk=2, WithHist="TRUE")).lines
    cases = []
    for i, g in enumerate(g1 + g2):
        base = {"size": g["size"], "buf": g["buf"], "grow": g["grow"], "data_seed": ctx.rng.randrange(1 << 30), "sched_seed": ctx.rng.randrange(1 << 30)}
        cases.append({**base, "mode": "script", "sched": g["sched"], "trace": None})
        cases.append({**base, "mode": "random", "trace": "line", "sched_seed": ctx.rng.randrange(1 << 30)})
        cases.append({**base, "mode": "pct", "trace": "opcode" if i % 3 == 0 else "line", "sched_seed": ctx.rng.randrange(1 << 30)})
    for i in range(25 if ctx.quick else 400):
        cases.append({"mode": "merge", "keys": ctx.rng.choice([1, 5, 40]), "threads": ctx.rng.choice([0, 1, 2, 4, 8]), "buf": ctx.rng.choice([0, 1, 100, 2**20]), "data_seed": ctx.rng.randrange(1 << 30)})
    for i in range(0, len(cases), 1000):
        run_batch(ctx, cases[i:i + 1000])


def replay(ctx, case):
    case = {k: v for k, v in case.items() if k != "record"}
    run_batch(ctx, [case])
