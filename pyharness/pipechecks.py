"""C31: the jobs that drive the programs (container scripts and the filter
generation step), run for real over stand-in programs that record what they
are given and fail in every place."""
import contextlib
import json
import os
import shutil
import signal
import stat
import subprocess
import sys

import checks
import fakes
from checks import BUCKET, SCRIPT, script
from fakes import STORE, Faults

CHECKS = {}
REPO = checks.REPO

# One stand-in for every program: it records its call, checks that it can find
# what the steps before it produced, produces its own outputs and ends as told.
STUB = r'''#!{python} -IS
import json, os, signal, sys
me, argv, base = os.path.basename(sys.argv[0]), sys.argv[1:], {base!r}
opt, pos, i = {{}}, [], 0
while i < len(argv):
    a = argv[i]
    if a.startswith("-"):
        k, eq, v = a.lstrip("-").partition("=")
        if not eq and i + 1 < len(argv) and not argv[i + 1].startswith("-"):
            i += 1
            v = argv[i]
        opt[k] = v
    else:
        pos.append(a)
    i += 1
def tok(p):
    try:
        return open(p).read()
    except OSError as e:
        return None
def put(p, s):
    try:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(s)
    except OSError:
        pass
def modes(d):
    return sorted({{os.stat(os.path.join(p, x)).st_mode & 0o222 for p, dd, ff in os.walk(d) for x in dd + ff}} | {{os.stat(d).st_mode & 0o222}}) if os.path.isdir(d) else None
plan = json.load(open(os.path.join(base, "plan")))
n = len(open(os.path.join(base, "calls")).readlines()) if os.path.exists(os.path.join(base, "calls")) else 0
rid = os.path.join(base, "processing", plan["rid"])
rec = {{"name": me, "argv": argv, "opt": opt, "pos": pos, "cred": os.environ.get("GOOGLE_APPLICATION_CREDENTIALS"), "seen": {{}}}}
rec["files"] = sorted(os.path.relpath(os.path.join(p, x), rid) for p, dd, ff in os.walk(rid) for x in ff)
rec["modes"] = [modes(os.path.join(rid, x)) for x in ("known", "revoked")]
with open(os.path.join(base, "calls"), "a") as f:
    f.write(json.dumps(rec) + "\n")
how = plan["fail"].get(me + ":" + opt["reason-set"] if me.startswith("2-") and "reason-set" in opt else me)
if how and how.startswith("early"):
    if how.endswith("kill"):
        os.kill(os.getpid(), signal.SIGKILL)
    sys.exit(int(how.split(":")[1]))
out = ""
if me == "0-allocate_identifier":
    if not plan["skip"].get(me):
        os.makedirs(rid, exist_ok=True)
    print(rid)
elif me == "aggregate-crls":
    for k in plan["crls"]:
        put(os.path.join(opt.get("revokedpath", "/nonexistent"), k), "revoked")
    os.makedirs(opt.get("revokedpath") or os.path.join(base, "x"), exist_ok=True)
    put(opt.get("enrolledpath", "/nonexistent/x"), "enrolled")
    put(opt.get("auditpath", "/nonexistent/x"), "audit")
elif me == "aggregate-known":
    for k in plan["crls"]:
        put(os.path.join(opt.get("knownpath", "/nonexistent"), k), "known")
    os.makedirs(opt.get("knownpath") or os.path.join(base, "x"), exist_ok=True)
    put(opt.get("ctlogspath", "/nonexistent/x"), "ctlogs")
elif me == "2-generate_mlbf":
    put(os.path.join(pos[0] if pos else "/nonexistent", opt.get("filter-type", "") + "-" + opt.get("reason-set", ""), "filter"), opt.get("reason-set", ""))
elif me == "main.py":
    pass
if how:
    if how.endswith("kill"):
        os.kill(os.getpid(), signal.SIGKILL)
    sys.exit(int(how.split(":")[1]))
'''
STEPS = ["0-allocate_identifier", "1-upload_data_to_storage", "2-generate_mlbf", "3-upload_mlbf_to_storage"]
BINS = ["aggregate-crls", "aggregate-known", "ct-fetch", "commit"]


def world(c):
    d = c.scratch
    for x in ("bin", "workflow", "processing", "persistent/crls", "cwd/moz_kinto_publisher", "path", "tmp", "home"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    body = STUB.format(python=sys.executable, base=d)
    for x in [f"workflow/{s}" for s in STEPS] + [f"bin/{b}" for b in BINS] + ["cwd/moz_kinto_publisher/main.py"]:
        with open(os.path.join(d, x), "w") as f:
            f.write(body)
        os.chmod(os.path.join(d, x), 0o755)
    shutil.copy(os.path.join(REPO, "workflow", "0-set_credentials.inc"), os.path.join(d, "workflow"))
    # directories outside the scratch directory are not made
    with open(os.path.join(d, "path", "mkdir"), "w") as f:
        f.write(f'#!/bin/bash\nfor a; do case $a in {d}/*|-*) ;; *) echo "$@" >> {d}/mkdirs; exit 0;; esac; done\nexec /bin/mkdir "$@"\n')
    os.chmod(os.path.join(d, "path", "mkdir"), 0o755)
    with open(os.path.join(d, "persistent", "crls", "a.crl"), "w") as f:
        f.write("crl")
    return d


def failures(rng, names, p):
    if rng.random() >= p:
        return {}
    how = lambda: rng.choice(["early:", "late:"]) + str(rng.choice(["1", "1", "2", "77", "255", "kill"]))
    return {n: how() for n in rng.sample(names, rng.choice([1, 1, 1, 2]) if len(names) > 1 else 1)}


def job(c, d, name, env, limit=60):
    path = SCRIPT("containers", "scripts", name)
    e = {"PATH": os.path.join(d, "path") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": os.path.join(d, "home"), "LC_ALL": "C",
         "TMPDIR": os.path.join(d, "tmp"), "crlite_bin": os.path.join(d, "bin"), "crlite_workflow": os.path.join(d, "workflow"), "crlite_processing": os.path.join(d, "processing"),
         "crlite_persistent": os.path.join(d, "persistent"), "statsdHost": "statsd.example"}
    e.update(env)
    e = {k: v for k, v in e.items() if v is not None}
    try:
        p = subprocess.run([path], env=e, cwd=os.path.join(d, "cwd"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired:
        c.violation("job-hangs", f"{name} does not end")
        return None, []
    calls = []
    with contextlib.suppress(FileNotFoundError), open(os.path.join(d, "calls")) as f:
        calls = [json.loads(l) for l in f]
    return p, calls


def plan_of(c, fail, **k):
    rng = c.rng
    p = {"rid": f"2026{rng.randint(1, 12):02d}{rng.randint(1, 28):02d}-{rng.randint(0, 12)}", "fail": fail, "skip": {}, "crls": [f"issuer{i}" for i in range(rng.choice([0, 1, 3]))]}
    p.update(k)
    with open(os.path.join(c.scratch, "plan"), "w") as f:
        json.dump(p, f)
    return p


def step_name(x):
    return f"2-generate_mlbf:{x['opt'].get('reason-set')}" if x["name"] == "2-generate_mlbf" else x["name"]


def generate_job(c):
    rng, d = c.rng, world(c)
    names = ["0-allocate_identifier", "aggregate-crls", "aggregate-known", "1-upload_data_to_storage", "2-generate_mlbf:all", "2-generate_mlbf:priority", "3-upload_mlbf_to_storage"]
    fail = failures(rng, names, 0.6)
    quiet = rng.choice([None, None, None, "1", "0", "x y"])
    bucket = rng.choice([None, "b1"])
    cred = rng.choice(["/c.json"] * 9 + [None])
    p = plan_of(c, fail)
    env = {"DoNotUpload": quiet, "GOOGLE_APPLICATION_CREDENTIALS": cred}
    if bucket:
        env["crlite_filter_bucket"] = bucket
    r, calls = job(c, d, "crlite-generate.sh", env)
    if r is None:
        return
    rid = os.path.join(d, "processing", p["rid"])
    c.trace.append(("crlite-generate.sh", {"fail": fail, "DoNotUpload": quiet, "credentials": cred, "exit": r.returncode}, [(x["name"], x["argv"]) for x in calls], r.stdout.decode(errors="replace")[-600:]))
    got = [step_name(x) for x in calls]
    ups = {"1-upload_data_to_storage", "3-upload_mlbf_to_storage"}
    want = [n for n in names if not (quiet and n in ups)] if cred else []
    failed = next((n for n in want if n in fail), None)
    c.eval(f"generate/{sorted(fail.items())}/{quiet}/{bucket}/{bool(cred)}/{len(p['crls'])}")
    c.count("generation jobs")
    c.count("generation jobs that completed", int(r.returncode == 0))
    if failed:
        c.count(f"failing step {failed}")

    def bad(key, msg):
        c.violation(key, f"crlite-generate.sh {msg}", {"calls": calls})
    if not cred:
        if r.returncode == 0:
            bad("ok-without-credentials", "succeeds without storage credentials")
        if got:
            bad("runs-without-credentials", f"runs {got} without storage credentials")
        return
    if quiet and ups & set(got):
        bad("uploads", f"uploads ({got}) although DoNotUpload is {quiet!r}")
    if failed and r.returncode == 0:
        bad("failure-ignored", f"succeeds although {failed} failed ({fail[failed]})")
    if not failed and r.returncode != 0:
        bad("fails", f"fails although every step succeeded: {r.stdout.decode(errors='replace')[-300:]}")
    if len(set(got)) != len(got):
        bad("repeats", f"runs a step more than once: {got}")
    for i, x in enumerate(calls):
        n = got[i]
        before = set(got[:i])
        if n not in names:
            bad("unknown-step", f"runs {n}: {x['argv']}")
            continue
        late = [m for m in before if m in fail]
        if late:
            bad("goes-on", f"goes on with {n} although {late} failed")
        need = {"aggregate-crls": {names[0]}, "aggregate-known": {"aggregate-crls"}, "1-upload_data_to_storage": {"aggregate-crls", "aggregate-known"},
                "2-generate_mlbf:all": {"aggregate-crls", "aggregate-known"}, "2-generate_mlbf:priority": {"aggregate-crls", "aggregate-known"},
                "3-upload_mlbf_to_storage": {m for m in want if m != n}}.get(n, set())
        if n.startswith("2-") and not quiet:
            need = need | {"1-upload_data_to_storage"}
        if need - before:
            bad("order", f"runs {n} before {sorted(need - before)}")
        o = x["opt"]
        if n == "aggregate-crls":
            for k, v in (("revokedpath", "revoked"), ("enrolledpath", "enrolled.json")):
                if os.path.normpath(o.get(k, "")) != os.path.join(rid, v):
                    bad("wrong-path", f"gives {n} -{k} {o.get(k)}")
            if os.path.normpath(o.get("crlpath", "")) != os.path.join(d, "persistent/crls"):
                bad("wrong-path", f"keeps the CRLs in {o.get('crlpath')}")
        elif n == "aggregate-known":
            for k, v in (("knownpath", "known"), ("enrolledpath", "enrolled.json"), ("ctlogspath", "ct-logs.json")):
                if os.path.normpath(o.get(k, "")) != os.path.join(rid, v):
                    bad("wrong-path", f"gives {n} -{k} {o.get(k)}")
        elif n == names[0]:
            if os.path.normpath(o.get("path", "")) != os.path.join(d, "processing"):
                bad("wrong-path", f"allocates in {o.get('path')}")
        else:
            if [os.path.normpath(q) for q in x["pos"]] != [rid]:
                bad("wrong-run", f"gives {n} {x['pos']}, the run is {rid}")
        if n[0] in "0123":
            if o.get("filter-bucket") != (bucket or "crlite_filters_staging"):
                bad("wrong-bucket", f"gives {n} the bucket {o.get('filter-bucket')}")
        if n.startswith("2-"):
            if o.get("filter-type") != "clubcard":
                bad("wrong-filter-type", f"makes filters of type {o.get('filter-type')}")
            for dd, m in zip(("known", "revoked"), x["modes"]):
                if m is None or any(m):
                    bad("writable-inputs", f"makes the filter while {dd} is not read-only: {m}")
        if n == "1-upload_data_to_storage":
            have = set(x["files"])
            miss = {"enrolled.json", "ct-logs.json", "crl-audit.json", "crls.tar.gz"} | {f"{s}/{k}" for s in ("known", "revoked") for k in p["crls"]}
            if miss - have:
                bad("uploads-too-early", f"uploads the run before {sorted(miss - have)} is there")
    exp = want[:want.index(failed) + 1] if failed else want
    if set(exp) - set(got):
        bad("step-missing", f"does not run {sorted(set(exp) - set(got))}")


def small_job(c):
    rng, d = c.rng, world(c)
    name, prog = rng.choice([("crlite-publish.sh", "main.py")] * 2 + [("crlite-fetch.sh", "ct-fetch"), ("crlite-commit.sh", "commit")])
    fail = failures(rng, [prog], 0.5)
    plan_of(c, fail)
    quiet, noop = rng.choice([None, "", "1", "0"]), rng.choice([None, "", "1", "0"])
    bucket, cred = rng.choice([None, "b1"]), rng.choice(["/c.json"] * 9 + [None])
    env = {"DoNotUpload": quiet, "KINTO_NOOP": noop, "GOOGLE_APPLICATION_CREDENTIALS": cred, "crlite_filter_bucket": bucket}
    r, calls = job(c, d, name, env)
    if r is None:
        return
    c.trace.append((name, {"fail": fail, "env": env, "exit": r.returncode}, [(x["name"], x["argv"]) for x in calls], r.stdout.decode(errors="replace")[-400:]))
    c.eval(f"{name}/{sorted(fail.items())}/{quiet}/{noop}/{bucket}/{bool(cred)}")
    c.count(f"runs of {name}")

    def bad(key, msg):
        c.violation(key, f"{name} {msg}", {"calls": calls})
    got = [x["name"] for x in calls]
    if prog == "main.py" and not cred:
        if got or r.returncode == 0:
            bad("runs-without-credentials", f"runs {got}, exit status {r.returncode}, without storage credentials")
        return
    if got != [prog]:
        bad("calls", f"runs {got}")
        return
    if (r.returncode == 0) == bool(fail):
        bad("exit-status", f"ends with status {r.returncode} although {prog} {'failed' if fail else 'succeeded'}")
    if prog == "main.py":
        want = bool(quiet or noop)
        if ("noop" in calls[0]["opt"]) != want:
            bad("noop", f"runs the publisher {'with' if 'noop' in calls[0]['opt'] else 'without'} --noop (DoNotUpload={quiet!r}, KINTO_NOOP={noop!r})")
        if calls[0]["opt"].get("filter-bucket") != (bucket or "crlite_filters_staging"):
            bad("wrong-bucket", f"gives the bucket {calls[0]['opt'].get('filter-bucket')}")


def generate_step(c):
    """The filter generation step over the fake storage."""
    rng, d = c.rng, c.scratch
    w = checks.World(c)
    home, run = os.path.join(d, "home"), os.path.join(d, "processing", "20260101-0")
    os.makedirs(home), os.makedirs(run)
    os.environ["HOME"] = os.environ["TMPDIR"] = home
    import tempfile
    tempfile.tempdir = home
    end = rng.choice([0, 0, 0, 0, 1, 101, "kill", "absent"])
    exe = os.path.join(home, "rust-create-cascade")
    if end != "absent":
        with open(exe, "w") as f:
            f.write(f'#!{sys.executable} -IS\nimport json, os, sys\na = sys.argv[1:]\np = a[a.index("--prev-revset") + 1] if "--prev-revset" in a else None\n'
                    f'json.dump([a, open(p, "rb").read().hex() if p and os.path.exists(p) else None], open({os.path.join(home, "call")!r}, "w"))\n'
                    + ("os.kill(os.getpid(), 9)\n" if end == "kill" else f"sys.exit({end})\n"))
        os.chmod(exe, 0o755)
    rs = rng.choice(["all", "priority", "specified", None])
    ft = rng.choice(["clubcard", "clubcard", "clubcard", "cascade", None])
    drs = rng.choice([None, None, None, "all", "priority"])
    if rs is None and ft == "clubcard":
        rs = "all"
    statsd, nodiff, cred = rng.choice([None, "s.example"]), rng.choice([None] * 5 + ["1"]), rng.choice([True] * 5 + [False])
    os.environ.pop("GOOGLE_APPLICATION_CREDENTIALS", None)
    if cred:
        os.environ["GOOGLE_APPLICATION_CREDENTIALS"] = "/nonexistent"
    names = {"latest/revset.bin": "all", "latest/clubcard-priority/revset.bin": "priority", "latest/clubcard-all/revset.bin": "all"}
    for k, s in names.items():
        if rng.random() < 0.8:
            w.b[k] = rng.randbytes(rng.choice([0, 1, 60])) + s.encode()
    fired = []
    kind = rng.choice([None] * 3 + ["refuse", "forbid", "drop", "lost", "cut"])

    def plan(op):
        if kind and rng.random() < 0.7:
            fired.append((kind, op["op"], op.get("key")))
            return kind
    STORE.faults = Faults(plan)
    argv = [run, "--filter-bucket", BUCKET] + (["--reason-set", rs] if rs else []) + (["--filter-type", ft] if ft else []) + (["--delta-reason-set", drs] if drs else [])
    argv += (["--statsd-host", statsd] if statsd else []) + (["--nodiff", nodiff] if nodiff else [])
    o = script(SCRIPT("workflow", "2-generate_mlbf"), argv, c, limit=60)
    STORE.faults = Faults()
    call = None
    with contextlib.suppress(FileNotFoundError), open(os.path.join(home, "call")) as f:
        call = json.load(f)
    c.trace.append(("2-generate_mlbf", argv[3:], {"generator ends": end, "credentials": cred, "faults": fired}, repr(o), call, o.tb[-300:]))
    c.eval(f"step/{rs}/{ft}/{drs}/{statsd}/{nodiff}/{cred}/{end}/{sorted(set(f[:2] for f in fired))}/{sorted(w.b)}")
    c.count("filter generation steps")

    def bad(key, msg):
        c.violation(key, f"2-generate_mlbf {' '.join(argv[3:])} {msg}", call)
    ok = o.kind == "ok" or o.kind == "exit" and not o.code
    if o.kind == "hang":
        return bad("step-hangs", "does not end")
    if ok != (end == 0):
        return bad("exit-status", f"ends with {o!r} although the generator ended with {end}")
    if call is None:
        return
    a, prev = call
    opt = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    for k, v in (("--known", "known"), ("--revoked", "revoked"), ("--ct-logs-json", "ct-logs.json")):
        if os.path.normpath(opt.get(k, "")) != os.path.join(run, v):
            bad("wrong-path", f"gives {k} {opt.get(k)}")
    if opt.get("--reason-set") != (rs or "all") or opt.get("--delta-reason-set") != (drs or rs or "all") or opt.get("--filter-type") != (ft or "cascade"):
        bad("wrong-set", f"gives {opt}")
    if ft == "clubcard" and os.path.normpath(opt.get("--outdir", "")) != os.path.join(run, f"clubcard-{rs}"):
        bad("wrong-path", f"gives --outdir {opt.get('--outdir')}")
    if ft == "clubcard" and rs in ("all", "priority"):
        have = [v for k, v in w.b.items() if k.startswith("latest/") and names.get(k) == rs]
        if prev is not None and bytes.fromhex(prev) not in have:
            bad("wrong-previous-set", f"uses a previous revocation set that is not the latest of its kind: {bytes.fromhex(prev)!r}, there are {w.b}")
        if prev is None and "--prev-revset" in opt:
            bad("wrong-previous-set", f"gives {opt['--prev-revset']}, which is not there")
        k = "latest/revset.bin" if rs == "all" else "latest/clubcard-priority/revset.bin"
        if prev is None and cred and not nodiff and not fired and k in w.b:
            bad("no-previous-set", f"does not use {k}")
        c.count("previous revocation sets used", int(prev is not None))


def jobs_case(c):
    p = c.rng.random()
    (generate_job if p < 0.45 else small_job if p < 0.65 else generate_step)(c)
    c.sample("job", c.trace[:2])


CHECKS["C31"] = checks.Check("C31", jobs_case, "one evaluation per job run; distinct ones differ in the job, the steps that fail and how, the options and the storage faults", 4000, 100000,
                             ["the programs the jobs run are stand-ins that record what they are given; the job scripts and the generation step are the real ones"], level="fault_enumeration")
