"""Drives merge() through scenarios of MergeEngine with gated methods and outputs; used by C06 and C10."""
import gc, pathlib, random, shutil, tempfile, threading, time, weakref
from collections.abc import MutableMapping
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from vh import files, lib, st

GRACE = 0.03


class Injected(RuntimeError):
    def __init__(self, k):
        super().__init__(f"injected failure of key {k}")
        self.k = k


class InjectedKey(KeyError):
    def __init__(self, k):
        super().__init__(f"injected failure of key {k}")
        self.k = k


class InjectedBase(BaseException):
    def __init__(self, k):
        super().__init__(f"injected failure of key {k}")
        self.k = k


class InjectedOdd(Exception):
    """Its constructor needs more than its args, and it compares equal to others."""
    def __init__(self, k, *, detail):
        super().__init__("odd")
        self.k, self.detail = k, detail

    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


def error(kind, k):
    """An exception to raise for key k; it is remembered in .own so that a copy can be told from it."""
    e = InjectedOdd(k, detail="needed") if kind == "odd" else {"runtime": Injected, "key": InjectedKey, "base": InjectedBase}[kind](k)
    e.own = id(e)
    return e


class Script:
    """Lets the observed steps happen in the order of the specification's behaviour, as far as the code allows."""
    def __init__(self, events):
        self.events = list(events)
        self.pos = 0
        self.cond = threading.Condition()
        self.free = False

    def gate(self, ev):
        with self.cond:
            while not self.free and ev in self.events[self.pos:]:
                if self.events[self.pos] == ev:
                    self.pos += 1
                    self.cond.notify_all()
                    return
                at = self.pos
                if not self.cond.wait(GRACE) and self.pos == at:
                    self.pos += 1      # this step does not happen (cancelled): go on
                    self.cond.notify_all()

    def release(self):
        with self.cond:
            self.free = True
            self.cond.notify_all()


class Recorder:
    def __init__(self):
        self.events = []
        self.lock = threading.Lock()

    def __call__(self, e, k=0, **kw):
        with self.lock:
            self.events.append({"e": e, "k": k, **kw})


class Output(MutableMapping):
    def __init__(self, run):
        self.run, self.data = run, {}

    def __setitem__(self, key, value):
        self.run.on_store(key, value)

    def __getitem__(self, key):
        return self.data[key]

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


class Run:
    def __init__(self, case, root, retain=True):
        self.case, self.root = case, root
        self.n = len(case["opnd"])
        self.names = [f"key.{k}" for k in range(1, self.n + 1)]
        self.k = {name: i + 1 for i, name in enumerate(self.names)}
        self.script = Script([tuple(e) for e in case["script"] if e[0] in ("eval", "store") and self.reaches(e)])
        self.rec = Recorder()
        self.error = lambda k, kind=case.get("error", "runtime"): error(kind, k)
        self.started = set()
        self.lock = threading.Lock()
        self.results = []
        self.max_stored_alive = 0
        self.max_unstored = 0
        self.stored = {}
        self.retain = retain
        self.bad = None

    def reaches(self, e):
        a, b = self.case["opnd"][e[1] - 1]
        if e[0] == "store":
            return e[1] in self.case["ok"]
        shape = self.case["shape"]
        if shape == "single":
            return a != "miss"
        if shape == "lazy":
            return b != "miss"
        return a != "miss" or b != "miss"

    # --- seams -----------------------------------------------------------------------------------------------
    def source(self, which):
        run = self

        @merge_method(register=False)
        def probe(x: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            key = kwargs["key"]
            k = run.k[key]
            with run.lock:
                first = k not in run.started
                run.started.add(k)
            if first:
                run.rec("start", k)
                run.script.gate(("eval", k))
            if run.case["opnd"][k - 1][which] == "err":
                raise run.error(k)
            return x + (100 if which else 0)
        return probe

    def combine(self):
        run = self

        def body(key, *values):
            k = run.k[key]
            if run.case["fault"][k - 1] == "method":
                raise run.error(k)
            r = torch.stack([v.reshape(-1) for v in values]).sum(0)
            return r

        @merge_method(register=False)
        def strict(a: Parameter(torch.Tensor), b: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            return body(kwargs["key"], a, b)

        @merge_method(register=False)
        def keyword(a: Parameter(torch.Tensor), *, b: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            return body(kwargs["key"], a) if b is None else body(kwargs["key"], a, b)

        @merge_method(register=False)
        def single(a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            return body(kwargs["key"], a)

        @merge_method(register=False)
        def lazy(a: Parameter(StateDict[torch.Tensor]), b: Parameter(StateDict[torch.Tensor]), **kwargs) -> Return(torch.Tensor):
            second = b[kwargs["key"]]
            return body(kwargs["key"], a[kwargs["key"]], second)

        @merge_method(register=False)
        def result(a: Parameter(torch.Tensor), **kwargs) -> Return(torch.Tensor):
            r = a * 1.0
            run.on_result(run.k[kwargs["key"]], r)
            return r
        return strict, keyword, single, lazy, result

    def on_result(self, k, r):
        with self.lock:
            self.results.append((k, weakref.ref(r)))
            self.rec("result", k)
            self.measure(extra=True)

    def measure(self, extra=False):
        unstored = stored = 0
        for k, ref in self.results:
            if ref() is not None:
                if k in self.stored:
                    stored += 1
                else:
                    unstored += 1
        self.max_stored_alive = max(self.max_stored_alive, stored)
        self.max_unstored = max(self.max_unstored, unstored)

    def on_store(self, key, value):
        k = self.k.get(key)
        if k is None:
            self.bad = f"stored an unknown key {key!r}"
            return
        self.script.gate(("store", k))
        if self.case["fault"][k - 1] == "store":
            self.rec("storefail", k)
            raise self.error(k)
        with self.lock:
            self.rec("store", k)
            self.stored[k] = None
            self.bad = self.bad or self.wrong(k, value)
            self.measure()

    def value(self, k):
        a, b = k, 100 + k
        o = self.case["opnd"][k - 1]
        shape = self.case["shape"]
        if shape == "single":
            return a
        if shape == "fallback":
            return b if o[0] == "miss" else a
        return a + b

    def wrong(self, k, value):
        if not isinstance(value, torch.Tensor) or value.flatten().tolist() != [float(self.value(k))] * value.numel() or value.numel() != 2:
            return f"key {k}: stored {value!r}, expected {self.value(k)} twice"

    # --- run -------------------------------------------------------------------------------------------------
    def recipe(self):
        case = self.case
        rng = random.Random(case.get("leaf_seed", 0))
        cfg = lib.config("vt-engine", {n: ([2], "float32") for n in self.names})
        leaves = []
        for which in (0, 1):
            data = {n: torch.full([2], float(k)) for n, k in self.k.items() if case["opnd"][k - 1][which] != "miss"}
            if rng.random() < 0.5:
                path = self.root / f"in{which}.safetensors"
                st.write(path, data)
                leaves.append(sd_mecha.model(path, cfg))
            else:
                leaves.append(sd_mecha.literal(data, cfg, "weight"))
        strict, keyword, single, lazy, result = self.combine()
        a, b = (self.source(w)(leaves[w]) for w in (0, 1))
        shape = case["shape"]
        if shape == "deep":
            @merge_method(register=False)
            def same(x: Parameter(torch.Tensor)) -> Return(torch.Tensor):
                return x
            r = strict(same(a), same(same(b))) if rng.random() < 0.5 else strict(same(same(a)), b)
        elif shape == "kw":
            r = rng.choice([strict, keyword])(b=b, a=a)
        elif shape == "dict":
            r = strict(sd_mecha.literal({n: a for n in self.names}, cfg), b)
        elif shape == "fallback":
            r = a | b
        elif shape == "lazy":
            r = lazy(a, b)
        elif shape == "single":
            r = single(a)
        else:
            r = strict(a, b)
        return result(r)

    def __call__(self):
        case = self.case
        recipe = self.recipe()
        out_path = self.root / "out.safetensors"
        output = out_path if case.get("out") == "file" else Output(self)
        kw = {} if case.get("cast") else dict(merge_dtype=None, merge_device=None, output_dtype=None, output_device=None)
        if case.get("cast"):
            kw = dict(merge_dtype=torch.float32, output_dtype=torch.float64)
        before = set(threading.enumerate())
        hooks = files.Hooks(on_close=lambda f: self.rec("close", 0) if f._path.endswith("out.safetensors") else None)
        err = 0
        with files.observed(self.root, hooks):
            try:
                sd_mecha.merge(recipe, output=output, threads=case["nw"], strict_weight_space=False, tqdm=lib.quiet, total_buffer_size=case.get("buf", 2**16), **kw)
            except (Injected, InjectedKey, InjectedBase, InjectedOdd) as e:
                err = e.k if isinstance(getattr(e, "k", None), int) and getattr(e, "own", None) == id(e) else -1
                if err == -1:
                    self.bad = self.bad or f"raised a copy of the error: {type(e).__name__} {e}"
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    raise
                err = -1
                self.bad = self.bad or f"raised {type(e).__name__}: {e}"
            self.rec("end", 0, error=err)
            self.script.release()
            for th in set(threading.enumerate()) - before:
                th.join(1.0)
        if case.get("out") == "file" and err == 0:
            found = st.load(out_path)
            at = next((i for i, e in enumerate(self.rec.events) if e["e"] in ("close", "end")))
            for name, value in found.items():
                k = self.k.get(name, 0)
                if not k:
                    self.bad = f"the output file holds an unknown key {name!r}"
                    continue
                self.rec.events.insert(at, {"e": "store", "k": k})
                at += 1
                self.bad = self.bad or self.wrong(k, value)
        return self.bad


def trace(case, events):
    return {"nkeys": len(case["opnd"]), "nw": case["nw"], "fails": case["fails"], "stored": case["stored"],
            "events": [{"e": e["e"], "k": e["k"], "error": e.get("error", 0)} for e in events]}


def scratch():
    return pathlib.Path(tempfile.mkdtemp(prefix="vengine-"))
