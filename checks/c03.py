"""C03: Faults and StreamIn (with truncation) are model checked; their behaviours are replayed with an operating system
that truncates, transfers short and fails."""
import errno, pathlib, random, shutil, tempfile
from vh import sched
sched.install()
import torch
import sd_mecha
from vh import files, st, gen, lib
from sd_mecha import streaming
from checks import c01, c02

KEYS = ["k0", "k1", "k2", "extra"]
CFG = lib.config("vt-c03", {k: ([8], "float32") for k in KEYS[:-1]})
CFG2 = lib.config("vt-c03", {k: ([8], "float32") for k in KEYS[:-1]})


class Injected(OSError):
    pass


def execute(ctx, case):
    rng = random.Random(case["data_seed"])
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc03-"))
    try:
        content, paths = {}, {}
        for f in (1, 2):
            names = [KEYS[k - 1] for k in sorted(case["present"][f - 1])]
            content[f] = {n: (torch.arange(8, dtype=torch.float32) + 1 + 16 * f + 100 * KEYS.index(n)) for n in names}
            paths[f] = root / f"in{f}.safetensors"
            start = st.write_layout(paths[f], [(n, content[f][n], 0) for n in names], metadata=rng.choice([None, {"a": "b"}]))
            cut = case["cut"][f - 1]
            size = paths[f].stat().st_size
            n_avail = size
            if cut["kind"] == "length":
                n_avail = rng.choice([0, 1, 7])
            elif cut["kind"] == "header":
                n_avail = rng.choice([8, 9, start - 1, rng.randrange(8, start)])
            elif cut["kind"] == "data" and cut["at"] <= len(names):
                n_avail = start + 32 * (cut["at"] - 1) + rng.choice([0, 1, 16, 31])
            with open(paths[f], "rb+") as h:
                h.truncate(n_avail)
        out = root / "out.safetensors"
        state = {"writes": 0, "fired": False}

        def is_out(f):
            return f._path.endswith("out.safetensors")

        def limit(n):
            return n if case["xfer"] == "full" else min(n, 3) if case["xfer"] == "one" else (n + 1) // 2

        def on_read(f, pos, n):
            return limit(n)

        def on_write(f, pos, n):
            state["writes"] += 1
            if is_out(f) and state["writes"] >= case["wnum"] and case["wfault"] in ("error", "short-error") and n > 0:
                if case["wfault"] == "short-error" and not state["fired"] and n > 1:
                    state["fired"] = True
                    return n // 2
                state["fired"] = True
                raise Injected(errno.ENOSPC, "no space left on device")
            return limit(n)

        def on_close(f):
            if case["wfault"] == "close" and is_out(f) and not state["fired"]:
                state["fired"] = True
                raise Injected(errno.EIO, "error on close")

        a = sd_mecha.model(paths[1], CFG)
        b = sd_mecha.model(paths[2], CFG, "delta")
        error = None
        with files.observed(root, files.Hooks(on_read=on_read, on_write=on_write, on_close=on_close)):
            try:
                sd_mecha.merge(a + b if case["order"] else b + a, output=out, output_dtype=torch.float32, threads=case["threads"], total_buffer_size=case["buf"], tqdm=lib.quiet)
            except Exception as e:
                error = e
        ctx.note("write fault fired" if state["fired"] else "write fault not reached" if case["wfault"] != "none" else "no write fault")
        ctx.note("must raise" if case["mustRaise"] else "readable")
        if case["mustRaise"] and error is None:
            return "an input is truncated before data the merge needs, but the merge returned normally"
        if state["fired"] and error is None:
            return f"writing the output failed ({case['wfault']}), but the merge returned normally"
        if error is not None:
            if not case["mayRaise"] and not state["fired"]:
                return f"every needed byte was readable and writable, but the merge raised {type(error).__name__}: {error}"
            return None
        try:
            got = st.load(out)
        except st.Malformed as e:
            return f"the merge returned normally but its output is malformed: {e}"
        want = {KEYS[k - 1]: content[1][KEYS[k - 1]] + content[2][KEYS[k - 1]] for k in case["whole"]}
        if set(got) != set(want):
            return f"output keys {sorted(got)}, expected {sorted(want)}"
        for k in want:
            if not st.same(got[k], want[k]):
                return f"{k}: output {st.desc(got[k])}, expected {st.desc(want[k])}"
    finally:
        shutil.rmtree(root, ignore_errors=True)


def outgrown(ctx, case):
    """Stores, and a header that outgrows its reserve, with an operating system that transfers short or fails once."""
    progs, header, recipe = c01.build(case)
    rng = random.Random(case["sched_seed"])
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc03-"))
    state = {"writes": 0, "fired": False}

    def limit(f, pos, n):
        return n if case["xfer"] == "full" else min(n, 3) if case["xfer"] == "one" else (n + 1) // 2

    def on_write(f, pos, n):
        state["writes"] += 1
        if n > 0 and case["fail"] and state["writes"] >= case["fail"] and (not state["fired"] or case["stay"]):
            state["fired"] = True
            raise Injected(errno.ENOSPC, "no space left on device")
        return limit(f, pos, n)

    error = None
    try:
        path = root / "out.safetensors"
        with files.observed(root, files.Hooks(on_read=limit, on_write=on_write)):
            try:
                out = streaming.OutSafetensorsDict(path, header, recipe, case["buf"] * c01.UNIT)
                try:
                    for key, x in rng.sample([kx for p in progs.values() for kx in p], sum(map(len, progs.values()))):
                        out[key] = x
                finally:
                    out.close()
            except Injected as e:
                error = e
        ctx.note("outgrown header, write failed" if state["fired"] else "outgrown header")
        if state["fired"]:
            return None if error is not None else "writing the output failed, but closing it returned normally"
        try:
            got = st.load(path)
        except st.Malformed as e:
            return f"the stores returned normally but the file is malformed: {e}"
        want = dict(kx for p in progs.values() for kx in p)
        if set(got) != set(want):
            return f"the file has keys {sorted(got)}, stored were {sorted(want)}"
        for k in want:
            if not st.same(got[k], want[k]):
                return f"{k}: the file has {st.desc(got[k])}, stored was {st.desc(want[k])}"
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main(ctx):
    consts = dict(NKeys=4, CutKinds='{"none","length","header","data"}', WriteFaults='{"none","error","short-error","close"}',
                  Transfers='{"full","one","half"}', Buffers="{0,40,4096}", ThreadCounts="{0,1,3}")
    cfg = dict(consts, Transfers='{"full"}', Buffers="{0}", ThreadCounts="{1}", CutKinds='{"none","header","data"}', NKeys=3)
    ctx.tlc("Faults", consts=cfg, workers=4, label="design")
    n = 160 if ctx.quick else 6000
    for label, over in (("mixed", {}), ("writes", {"CutKinds": '{"none"}'}), ("transfers", {"CutKinds": '{"none"}', "WriteFaults": '{"none"}', "Transfers": '{"one","half"}'}), ("cuts", {"WriteFaults": '{"none"}', "CutKinds": '{"none","data"}'})):
        lines = ctx.tlc("Faults", "FaultsGen", consts={**consts, **over}, label=f"faults({label})", simulate=n // 2 if label != "mixed" else n).lines
        for g in lines:
            ctx.check(execute, {**g, "kind": "merge", "order": ctx.rng.randrange(2), "data_seed": ctx.rng.randrange(1 << 30)})
    lines = ctx.tlc("StreamOut", "StreamOutGen", label="outgrown headers", simulate=n, consts=dict(
        NThreads=2, NStores=3, Sizes="{0,1,3,5,40}", Buffers="{0,2,4,12,2000}", Growths="{3}", Chunk=2, WithHist="TRUE")).lines
    for g in lines:
        for xfer in ("full", "one", "half"):
            fail = ctx.rng.choice([0, 0, 1, 2, 3, 4, 6, 10, 30])
            ctx.check(outgrown, {"kind": "outgrown", "size": g["size"], "buf": g["buf"], "grow": g["grow"], "xfer": xfer, "fail": fail, "stay": ctx.rng.random() < 0.5,
                                 "data_seed": ctx.rng.randrange(1 << 30), "sched_seed": ctx.rng.randrange(1 << 30)})
    lines = ctx.tlc("StreamIn", "StreamInGen", label="reader(truncated)", simulate=n, consts=dict(
        NTensors=4, Sizes="{0,1,2,3,5,8}", Gaps="{0,1}", Buffers="{0,1,5,64}", NThreads=2, NReads=6, Cuts='{"some"}',
        Transfers='{"full","one","half"}', Missing="FALSE", WithHist="TRUE")).lines
    for i, g in enumerate(lines):
        case = next(c02.variants(ctx, g, i))
        ctx.check(c02.execute, {**case, "kind": "reader"})


def replay(ctx, case):
    return {"reader": c02.execute, "outgrown": outgrown}.get(case["kind"], execute)(ctx, case)
