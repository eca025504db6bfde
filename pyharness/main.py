#!/usr/bin/env python3
"""Checks of the publisher, workflow and sign-off programs (C23-C28, C31)."""
import argparse
import multiprocessing
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mon  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--scratch", required=True)
ap.add_argument("--cases", type=int)
ap.add_argument("--only", type=int)
args = ap.parse_args()
run = mon.Run(args.id)

try:
    import fakes  # noqa: E402
    if args.id in ("C29", "C30"):
        import rschecks as checks  # noqa: E402
    elif args.id in ("C34", "C35"):
        import qchecks as checks  # noqa: E402
    elif args.id == "C31":
        import pipechecks as checks  # noqa: E402
    elif args.id == "C32":
        import e2e as checks  # noqa: E402
    else:
        import checks  # noqa: E402
    check = checks.CHECKS[args.id]
except Exception:
    traceback.print_exc()
    print("CHECK-ERROR: the check did not start", file=sys.stderr)
    sys.exit(2)

run.rule, run.assume, run.level = check.rule, check.assume, check.level
N = args.cases or run.pick(check.quick, check.thorough)


def one(i):
    if getattr(check, "fake_clock", True):
        fakes.install_clock()
    c = mon.Case(args.id, run.seed, i)
    c.scratch = os.path.join(args.scratch, f"c{os.getpid()}")
    os.makedirs(c.scratch, exist_ok=True)
    try:
        check.case(c)
    except BaseException:
        return ("error", i, traceback.format_exc())
    finally:
        import shutil
        shutil.rmtree(c.scratch, ignore_errors=True)
    c.rng = None
    return ("ok", i, c)


errors = []
if args.only is not None:
    it = map(one, [args.only])
else:
    pool = multiprocessing.get_context("fork").Pool(8)
    it = pool.imap_unordered(one, range(N), chunksize=max(1, min(64, N // 64)))
done = []
for kind, i, c in it:
    if kind == "error":
        errors.append((i, c))
    else:
        done.append(c)
for c in sorted(done, key=lambda c: c.i):
    run.merge(c)
for i, e in errors[:3]:
    print(f"CHECK-ERROR: case {i}: {e}", file=sys.stderr)
rc = run.finish()
sys.exit(2 if errors and rc == 0 else rc)
