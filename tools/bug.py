"""Plant a bug: define(...) makes the patch in a scratch copy of /repo, confirms build/tests/demo, runs the check, stores it."""
import json, os, pathlib, shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
BASE = "9d9543e"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="4", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy():
    d = pathlib.Path(tempfile.mkdtemp(prefix="vbug-"))
    shutil.copytree("/repo", d / "repo", symlinks=True)
    return d


def define(bug_id, prop, edits, demo, needs, breaks, run_check=True, run_tests=True):
    d = copy()
    try:
        repo = d / "repo"
        base_text = {}
        for f, old, new in edits:
            p = repo / f
            s = p.read_text()
            if s.count(old) != 1:
                print(f"{bug_id}: FAIL pattern occurs {s.count(old)} times in {f}: {old[:80]!r}")
                return False
            p.write_text(s.replace(old, new))
        rc, diff = sh(["git", "diff"], repo)
        removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        rc, base = sh("git show " + " ".join(f"{BASE}:{f}" for f in {e[0] for e in edits}), repo)
        orig = [l for l in removed if l in [b.strip() for b in base.splitlines()]]
        if removed and not orig:
            print(f"{bug_id}: FAIL changes no line of the original repository")
            return False
        out = VERIF / "seeded" / bug_id
        if out.exists():
            shutil.rmtree(out)
        out.mkdir(parents=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(demo)
        (out / "demo.sh").write_text('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1))
        dd = d / "demo"
        dd.mkdir()
        for f in ("demo.py", "demo.sh"):
            shutil.copy(out / f, dd / f)
        rc0, o0 = sh(["bash", str(dd / "demo.sh")], "/repo")
        rc1, o1 = sh(["bash", str(dd / "demo.sh")], repo)
        ok = True
        if rc0 != 0:
            print(f"{bug_id}: FAIL demo fails on the unchanged tree\n{o0[-1500:]}")
            ok = False
        if rc1 == 0:
            print(f"{bug_id}: FAIL demo passes with the patch")
            ok = False
        if ok and run_tests:
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", "-x", "--deselect", "nothing"], repo, {"PYTHONPATH": str(repo)})
            tail = o.strip().splitlines()[-1]
            if "22 passed" not in tail:
                print(f"{bug_id}: FAIL tests: {tail}\n{o[-800:]}")
                ok = False
        if not ok:
            shutil.rmtree(out)
            return False
        verdict = "not run"
        if run_check:
            verdict = check(prop, repo)
        print(f"{bug_id} [{prop}] ok; demo: {o1.strip().splitlines()[-1][:100] if o1.strip() else rc1}; check: {verdict}", flush=True)
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(prop, repo):
    rc, o = sh(["bash", str(VERIF / "run.sh"), prop], VERIF, {"VERIF_REPO": str(repo), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    why = [l for l in o.splitlines() if l.startswith(f"{prop}: ")]
    return ("CAUGHT " if rc == 1 and viol else f"MISSED rc={rc} ") + (why[0][:160] if why else o[-300:])


def rerun(ids):
    import concurrent.futures as cf

    def one(i):
        d = copy()
        try:
            repo = d / "repo"
            meta = json.loads((VERIF / "seeded" / i / "meta.json").read_text())
            rc, o = sh(["git", "apply", str(VERIF / "seeded" / i / "patch.diff")], repo)
            if rc:
                return i, "patch does not apply: " + o[-200:]
            dd = d / "demo"
            shutil.copytree(VERIF / "seeded" / i, dd)
            a, _ = sh(["bash", str(dd / "demo.sh")], "/repo")
            b, _ = sh(["bash", str(dd / "demo.sh")], repo)
            if a != 0 or b == 0:
                return i, f"demo: {a} unchanged, {b} patched"
            return i, check(meta["property"], repo)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(3) as ex:
        for i, v in ex.map(one, ids):
            print(i, v, flush=True)


if __name__ == "__main__":
    rerun(sys.argv[1:] or sorted(p.name for p in (VERIF / "seeded").iterdir()))
