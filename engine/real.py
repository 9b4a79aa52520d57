"""Replays assignments on the real code: fresh process, real libraries, no proxies.

Reads one JSON job per line on stdin, answers one JSON line on stdout.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blame(tb, exc=None):
    """'code' if the innermost python frame belongs to the code under test (or to a
    library called by it), 'harness' otherwise.  A pydantic validation error counts as the
    code's: the harness gave valid arguments to one of its constructors."""
    if type(exc).__name__ in ("ValidationError", "PydanticUserError", "PydanticUndefinedAnnotation"):
        return "code"
    frames = traceback.extract_tb(tb)
    last = None
    for f in frames:
        if "/sleplet/" in f.filename:
            last = "code"
        elif f.filename.startswith(HERE):
            last = "harness"
    return last or "harness"


def run_one(job):
    from engine.ctx import ConcCtx, Skip

    ctx = ConcCtx(job["inputs"])
    out = {}
    try:
        mod = importlib.import_module(f"harness.{job['module']}")
        fn = getattr(mod, job["fn"])
        fn(ctx, **job["params"])
        out["exc"] = None
    except Skip:
        out["skip"] = not ctx.failures  # what failed before an assumption failed all the same
    except (Exception, SystemExit) as e:  # noqa: BLE001
        out["exc"] = f"{type(e).__name__}: {e}"[:400]
        out["blame"] = blame(e.__traceback__, e)
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        ctx.unpatch()
    out["failures"] = ctx.failures[:10]
    out["observed"] = ctx.observed
    out["reached"] = ctx.reached
    out["nchecks"] = ctx.nchecks
    return out


def main():
    sys.path.insert(0, HERE)
    import engine.env_real as er

    er.setup()
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    print(json.dumps({"ready": True}), file=proto, flush=True)
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                er.fresh_data_dir()
                res = run_one(job)
            except BaseException as e:  # noqa: BLE001
                res = {"exc": f"{type(e).__name__}: {e}", "blame": "harness", "failures": [], "observed": {},
                       "reached": False}
            finally:
                er.cleanup()
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
                f.flush()
            os._exit(0)
        os.close(w)
        import select
        import signal

        data = b""
        end = time.time() + job.get("timeout", 150)
        dead = False
        while True:
            rl, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
            if not rl:
                os.kill(pid, signal.SIGKILL)
                dead = True
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        os.waitpid(pid, 0)
        try:
            res = json.loads(data) if not dead else {"exc": "replay timed out", "blame": "harness", "failures": []}
        except ValueError:
            res = {"exc": "replay process died", "blame": "harness", "failures": []}
        res["id"] = job.get("id")
        print(json.dumps(res), file=proto, flush=True)


if __name__ == "__main__":
    main()
