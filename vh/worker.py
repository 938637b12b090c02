import importlib, json, logging, os, sys, traceback, warnings

def main(argv):
    from vh import report, tlc
    pid = argv[0]
    ctx = report.Ctx(pid)
    ctx.beat("machinery", "import", force=True)
    warnings.simplefilter("ignore")
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        logging.disable(logging.NOTSET)
        logging.getLogger().handlers[:] = [logging.NullHandler()]
        logging.getLogger().setLevel(logging.CRITICAL + 1)
        if "--replay" in argv:
            data = json.load(open(argv[argv.index("--replay") + 1]))
            ctx.check(mod.replay, data["case"])
        else:
            mod.main(ctx)
    except report.StopCheck:
        pass
    except tlc.TLCViolation as e:
        # the specification itself breaks its properties: nothing can be concluded about the code
        print(f"{pid}: {e}", file=sys.stderr)
        return 2
    except Exception as e:
        if report.from_impl(e):
            try:
                ctx.violation(f"unexpected {type(e).__name__}: {e} ({report.where(e)})", {"traceback": traceback.format_exc()[-3000:], "case": getattr(ctx, "current", None)})
            except report.StopCheck:
                pass
        else:
            traceback.print_exc()
            return 1 if ctx.violations and not ctx.finish() == 0 else 2
    return ctx.finish()


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
