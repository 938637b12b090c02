"""Parent: starts the worker that runs one check, watches it, and translates its end into the interface's exit codes."""
import json, os, pathlib, signal, subprocess, sys, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
IMPL_STALL_S = int(os.environ.get("VERIF_STALL", "90"))
TOTAL_S = {"quick": 850, "thorough": 4 * 3600}


def parent(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    (ROOT / "evidence" / "replays").mkdir(parents=True, exist_ok=True)
    status = ROOT / "evidence" / f".status-{pid}-{os.getpid()}"
    env = dict(os.environ, VERIF_STATUS=str(status))
    t0 = time.time()
    child = subprocess.Popen([sys.executable, "-B", "-m", "vh.worker", *argv], cwd=ROOT, env=env, stdin=subprocess.DEVNULL, start_new_session=True)

    def end():
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        child.wait()

    def last():
        try:
            return json.loads(status.read_text())
        except Exception:
            return {"phase": "machinery", "case": None}

    def impl_violation(what):
        st = last()
        replay = ROOT / "evidence" / "replays" / f"{pid}-crash.json"
        replay.write_text(json.dumps({"property": pid, "what": what, "case": st.get("case")}, indent=1))
        print(f"{pid}: {what}; case: {json.dumps(st.get('case'))[:2000]}")
        print(f"VIOLATION property={pid} replay={replay.relative_to(ROOT)}")
        from . import report
        report.write_evidence(pid, tier, st.get("coverage") or {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [what]}, time.time() - t0, 1)
        return 1

    try:
        last_beat, last_raw = time.time(), None
        while True:
            try:
                rc = child.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                raw = status.stat().st_mtime_ns
            except OSError:
                raw = None
            if raw != last_raw:
                last_raw, last_beat = raw, time.time()
            if time.time() - last_beat > IMPL_STALL_S:
                phase = last().get("phase")
                end()
                if phase == "impl":
                    return impl_violation(f"the code under test did not finish within {IMPL_STALL_S} s")
                print(f"{pid}: the check stalled in phase {phase}", file=sys.stderr)
                return 2
            if time.time() - t0 > TOTAL_S.get(tier, 850):
                end()
                print(f"{pid}: the check exceeded its time", file=sys.stderr)
                return 2
        if rc in (0, 1):
            return rc
        if rc < 0 and last().get("phase") == "impl":
            return impl_violation(f"the code under test ended the process with signal {-rc}")
        print(f"{pid}: the worker ended with {rc}", file=sys.stderr)
        return 2
    except KeyboardInterrupt:
        return 2
    finally:
        end()
        for f in (status, pathlib.Path(str(status) + ".tmp")):
            try:
                f.unlink()
            except OSError:
                pass


if __name__ == "__main__":
    sys.exit(parent(sys.argv[1:]))
