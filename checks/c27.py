"""C27: Registry runs sequences of registrations and resolutions; the real registries have to give the same outcomes and enumerate the same
objects after every step."""
import pathlib, random, shutil, tempfile
import torch
from vh import lib, snapshot, st
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.streaming import InSafetensorsDict
from sd_mecha.extensions import merge_methods, merge_spaces, model_configs, model_formats

KINDS = '{"space","base","aux","format","method","private","converter"}'
SOURCE = lib.config("vt-conv.src", {"k": ([1], "float64")})
TARGET = lib.config("vt-conv.tgt", {"k": ([1], "float64")})


def concrete(i, kind, salt):
    """Identifiers: also ones that are prefixes of each other, or of the builtin ones."""
    pools = {"space": ["weigh", "weights", "delta2", "x", "Weight"], "config": ["sd1-ld", "sd1-ldm2", "vt-a", "vt-ab", "vt.a-a"], "format": ["single", "single_files", "vt", "vt2", "Single_file"],
             "method": ["weighted_su", "vt_m", "vt_m2", "vt m", "weighted_sum_"]}
    return pools[{"base": "config", "aux": "config", "private": "method", "converter": "method"}.get(kind, kind)][(i + salt) % 5]


class World:
    def __init__(self, salt):
        self.salt, self.objects = salt, {}
        self.builtin = self.enumerate()

    def register(self, n, kind, i):
        ident = concrete(i, kind, self.salt)
        if kind == "space":
            merge_spaces.register_merge_space(ident)
        elif kind in ("base", "aux"):
            c = lib.config(ident, {f"k{n}": ([1], "float64")})
            (model_configs.register if kind == "base" else model_configs.register_aux)(c)
            self.objects[n] = c
        elif kind == "format":
            class Format:
                number = n

                def matches(self, path):
                    return path.suffix == f".vt{n}"

                def get_read_dict(self, path, buffer_size):
                    return InSafetensorsDict(path.with_suffix(".safetensors"), buffer_size)

                def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
                    return {}
            if self.salt % 2:
                model_formats.register_model_format(Format, identifier=ident)
            else:
                model_formats.register_model_format(identifier=ident)(Format)
        else:
            def run(a, **kwargs):
                return torch.full((1,), float(n), dtype=torch.float64)
            run.__annotations__ = {"a": Parameter(torch.Tensor, model_config=SOURCE if kind == "converter" else None), "return": Return(torch.Tensor, model_config=TARGET if kind == "converter" else None)}
            if self.salt % 3 == 0:
                run.__name__ = ident
                self.objects[n] = merge_method(run, register=kind != "private", is_conversion=kind == "converter")
            else:
                self.objects[n] = merge_method(run, identifier=ident, register=kind != "private", is_conversion=kind == "converter")

    def resolve(self, table, i):
        ident = concrete(i, table, self.salt)
        module = {"space": merge_spaces, "config": model_configs, "format": model_formats, "method": merge_methods}[table]
        return ident, module.resolve(ident)

    def enumerate(self):
        return {"space": list(merge_spaces.get_all()), "base": list(model_configs.get_all_base()), "aux": list(model_configs.get_all_aux()), "config": list(model_configs.get_all()),
                "format": list(model_formats.get_all()), "method": list(merge_methods.get_all()), "converter": list(merge_methods.get_all_converters())}

    def same(self, table, obj, n, ident):
        if table == "space":
            return obj.identifier == ident
        if table == "format":
            return getattr(obj, "number", None) == n and obj.identifier == ident
        return obj is self.objects[n] and obj.identifier == ident


def execute(ctx, case):
    with snapshot.restored(merge_methods, merge_spaces, model_configs, model_formats):
        w = World(case["salt"])
        replaced = set()
        for n, o in enumerate(case["ops"], 1):
            ident = concrete(o["id"], o["kind"], w.salt)
            try:
                if o["op"] == "register":
                    w.register(n, o["kind"], o["id"])
                    got = "ok"
                else:
                    obj = w.resolve(o["kind"], o["id"])[1]
                    got = "known"
            except ValueError as e:
                got = "taken" if o["op"] == "register" else "unknown"
                if ident not in str(e):
                    return f"{o}: the error does not name {ident!r}: {e}"
            want = o["out"] if o["out"] in ("ok", "taken", "unknown") else "known"
            if got != want:
                return f"step {n} {o}: {got}, the specification says {want}"
            ctx.note(f"{o['op']} {got}")
            if got == "known" and not w.same(o["kind"], obj, int(o["out"]), ident):
                return f"step {n} {o}: resolved to {obj!r}"
            if o["op"] == "register" and o["kind"] == "private":
                r = sd_mecha.merge(w.objects[n](sd_mecha.literal({"k": torch.ones(1)}, SOURCE, "weight")), output_dtype=None, threads=0, total_buffer_size=1024, tqdm=lib.quiet)
                if r["k"].tolist() != [float(n)]:
                    return "an unregistered method does not work"
        # enumerations: what there was before, and what was registered
        now = w.enumerate()
        for table, ns in case["all"].items():
            new = [x for x in now[table] if not any(x is y for y in w.builtin[table])]
            if table == "space":
                names = sorted(x.identifier for x in new)
                want = sorted(concrete(case["ops"][n - 1]["id"], "space", w.salt) for n in ns)
            elif table == "format":
                names, want = sorted(x.number for x in new), sorted(ns)
            else:
                # converters replaced by a method of the same name are left open
                names = sorted(n for n, o in w.objects.items() for x in new if x is o)
                want = sorted(ns)
                if table == "converter":
                    names = [n for n in names if n in want]
            if names != want or (table != "converter" and len(new) != len(want)) or len(now[table]) - len(new) != len(w.builtin[table]):
                return f"enumerating {table} gives {names} ({len(new)} new, {len(now[table])} objects), the specification says {want}"
        configs = [id(x) for x in now["config"]]
        if sorted(configs) != sorted(id(x) for x in now["base"] + now["aux"]):
            return "get_all does not enumerate each config once"
        # the registered config and format are used by merges
        for n in case["all"]["format"][:1]:
            root = pathlib.Path(tempfile.mkdtemp(prefix="vt-c27-"))
            try:
                (root / f"m.vt{n}").touch()
                st.write(root / "m.safetensors", {f"k{n}": torch.full((1,), float(n), dtype=torch.float64)})
                r = sd_mecha.merge(sd_mecha.model(root / f"m.vt{n}", lib.config("vt-f", {f"k{n}": ([1], "float64")})), output_dtype=None, merge_dtype=None, threads=0, total_buffer_size=1024, tqdm=lib.quiet)
                if r[f"k{n}"].tolist() != [float(n)]:
                    return "a registered format is not used"
            finally:
                shutil.rmtree(root)


def builtins(ctx, case):
    """Every builtin object is what its identifier resolves to."""
    for module, get in ((merge_spaces, merge_spaces.get_all), (model_configs, model_configs.get_all), (model_formats, model_formats.get_all), (merge_methods, merge_methods.get_all)):
        objs = list(get())
        ids = [o.identifier for o in objs]
        if len(set(ids)) != len(ids):
            return f"{module.__name__}: identifiers enumerated twice"
        for o in objs:
            r = module.resolve(o.identifier)
            if r is not o:
                return f"{module.__name__}: {o.identifier} resolves to another object"
        ctx.note("builtin objects", len(objs))
        for bad in ("vt-nothing", "", "no such thing", "vt_nothing"):
            try:
                module.resolve(bad)
            except ValueError as e:
                if bad not in str(e):
                    return f"{module.__name__}: the error does not name {bad!r}: {e}"
                continue
            return f"{module.__name__}: {bad!r} resolves"
    for taken, fn in (("weight", merge_spaces.register_merge_space), ("sd1-ldm", lambda i: model_configs.register(lib.config(i, {"k": ([1], "float32")}))),
                      ("sd1-ldm", lambda i: model_configs.register_aux(lib.config(i, {"k": ([1], "float32")}))),
                      ("sd1-ldm_lycoris_lora", lambda i: model_configs.register(lib.config(i, {"k": ([1], "float32")}))), ("single_file", lambda i: model_formats.register_model_format(type("F", (), {}), identifier=i))):
        old = {m: m.resolve(taken) for m in (merge_spaces, model_configs, model_formats) if any(o.identifier == taken for o in m.get_all())}
        try:
            fn(taken)
        except ValueError:
            for m, o in old.items():
                if m.resolve(taken) is not o:
                    return f"{taken} was replaced by a rejected registration"
            continue
        return f"{taken} could be registered again"


def main(ctx):
    lib.quiet_warm()
    q = ctx.quick
    ctx.tlc("Registry", label="design", workers=4, timeout=2000, consts=dict(Ids="{1,2}", MaxOps=4 if q else 5, Kinds=KINDS))
    ctx.check(builtins, {"kind": "builtin"})
    lines = ctx.tlc("Registry", "RegistryGen", label="all histories of 3 steps", workers=1, consts=dict(Ids="{1,2}", MaxOps=3, Kinds=KINDS)).lines
    lines = ctx.rng.sample(lines, min(len(lines), 2500 if q else 20000))
    for kinds, n in ((KINDS, 1500), ('{"base","aux"}', 300), ('{"method","converter","private"}', 300), ('{"space"}', 100), ('{"format"}', 100)):
        lines += ctx.tlc("Registry", "RegistryGen", label=f"histories of 12 steps {kinds}", simulate=n if q else 10 * n, depth=20, consts=dict(Ids="{1,2,3,4}", MaxOps=12, Kinds=kinds)).lines[:n if q else 10 * n]
    for g in lines:
        ctx.check(execute, {**g, "kind": "history", "salt": ctx.rng.randrange(30)})


def replay(ctx, case):
    ctx.check({"history": execute, "builtin": builtins}[case["kind"]], case)
