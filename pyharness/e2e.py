"""C32: whole pipelines. Runs are allocated, uploaded, turned into filters by
the real generator (with recording builders) and published by the real
scripts, with faults anywhere; a client follows each channel."""
import base64
import contextlib
import hashlib
import json
import os
import re
import subprocess

import checks
import fakes
import qchecks
import rschecks
from checks import BUCKET, CRLITE, SCRIPT, script
from fakes import CLOCK, STORE, Faults, RealDatetime
from rschecks import PKI, read_filter, show

CHECKS = {}
REASONS = {"clubcard-all": "all", "clubcard-priority": "priority"}
KINDS = ["refuse", "forbid", "lost", "drop", "cut", "kill", "kill", "killed-after", "killed-after"]


@contextlib.contextmanager
def quiet():
    """What child processes print goes nowhere."""
    keep = os.dup(1), os.dup(2)
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1), os.dup2(n, 2)
    try:
        yield
    finally:
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for f in (n, *keep):
            os.close(f)


class Keyed(PKI):
    """Issuers that have keys."""

    def __init__(self, rng):
        self.ca = {}  # issuer -> (name, SPKI, certificate)
        super().__init__(rng)

    def add_issuer(self):
        randbytes, n = self.rng.randbytes, len(self.ca)
        key = qchecks.spki(randbytes(32))
        i = hashlib.sha256(key).digest()
        dn = qchecks.name(f"CA {self.rng.randrange(6)}")
        self.ca[i] = (dn, key, qchecks.cert(b"\1" + randbytes(8), qchecks.name("root"), dn, key, qchecks.RT0, qchecks.RT1, [], qchecks.spki(b"root")))
        self.next = i
        super().add_issuer()

    def new_id(self):
        return self.next


class Pipe(checks.World):
    def __init__(self, c):
        super().__init__(c)
        self.pki = Keyed(self.rng)
        self.truth = {}  # run id -> (known, {reason set: revoked})
        self.log_id, self.nruns, self.seen, self.stamp, self.stamps = self.rng.randbytes(32), 0, set(), {}, {}
        self.web = None
        self.work = os.path.join(c.scratch, "processing")
        os.makedirs(self.work)
        home = os.path.join(c.scratch, "home")
        os.makedirs(home)
        os.environ["HOME"] = home
        os.environ["TMPDIR"] = home
        os.environ["GOOGLE_APPLICATION_CREDENTIALS"] = "/nonexistent"
        os.environ["RAYON_NUM_THREADS"] = "2"
        import tempfile
        tempfile.tempdir = home
        exe = os.path.join(home, "rust-create-cascade")
        # a generator that can be made to fail
        self.flag = os.path.join(home, "fail")
        with open(exe, "w") as f:
            f.write(f'#!/bin/bash\nif [ -e {self.flag} ]; then read n < {self.flag}; if [ "$n" = 0 ]; then rm {self.flag}; kill -9 $$; fi; echo $((n-1)) > {self.flag}; fi\nexec {rschecks.EXE} "$@" > /dev/null 2>&1\n')
        os.chmod(exe, 0o755)
        self.der = fakes.make_cert(self.rng, "Intermediate")
        k = self.rng.randbytes(91)
        self.log_list = {"operators": [{"name": "Op", "logs": [{"description": "l", "key": base64.b64encode(k).decode(), "log_id": base64.b64encode(hashlib.sha256(k).digest()).decode(),
                         "mmd": 86400, "url": "https://l.example/", "state": {"usable": {"timestamp": "x"}}}], "tiled_logs": []}]}

    def faults(self, p, span, kinds=KINDS):
        """A plan of what goes wrong in one activity; -> what struck."""
        rng, fired, n = self.rng, [], [0]
        if rng.random() >= p:
            self.k.faults, STORE.faults = Faults(), Faults()
            return fired
        at, times, kind = rng.randint(1, span), rng.choice([1, 1, 1, 1000]), rng.choice(kinds)

        def plan(op):
            n[0] += 1
            if at <= n[0] < at + times:
                fired.append((kind, op["op"], op.get("key") or op.get("coll")))
                return kind
        self.k.faults, STORE.faults = Faults(plan), Faults(plan)
        return fired

    def calm(self):
        self.k.faults, STORE.faults = Faults(), Faults()

    def generate(self):
        """What crlite-generate.sh does."""
        rng, c = self.rng, self.c
        if rng.random() < 0.15:
            with open(self.flag, "w") as f:
                f.write(f"{rng.choice([0, 1])}\n")
        fired = self.faults(0.3, rng.choice([6, 60, 60, 60]))
        done, ended = [], None
        b = ["--filter-bucket", BUCKET]
        o = script(SCRIPT("workflow", "0-allocate_identifier"), ["--path", self.work] + b, c)
        if o.kind != "ok" or o.code:
            self.calm()
            c.trace.append(("run", "not allocated", repr(o), fired))
            return
        d = o.out.strip().splitlines()[-1]
        rid = os.path.basename(d)
        self.nruns += 1
        now = self.pki.universe()
        for x in now - self.seen:  # not known to the run before: logged since
            self.stamp[x] = self.nruns * 1000 - self.rng.choice([0, 1, 500, 999])
        self.seen, self.stamps[rid] = now, {x: self.stamp[x] for x in now}
        self.pki.write(os.path.join(d, "known"), os.path.join(d, "revoked"))
        with open(os.path.join(d, "enrolled.json"), "w") as f:
            json.dump([{"pem": fakes.pem(x), "subject": "x", "uniqueID": hashlib.sha256(x).hexdigest(), "pubKeyHash": base64.urlsafe_b64encode(hashlib.sha256(fakes.Certificate(x).spki).digest()).decode()}
                       for x in [self.der] + [x[2] for x in self.pki.ca.values()]], f)
        with open(os.path.join(d, "ct-logs.json"), "w") as f:
            json.dump([{"LogID": base64.b64encode(self.log_id).decode(), "MinEntry": 0, "MaxEntry": self.nruns, "MinTimestamp": 0, "MaxTimestamp": self.nruns * 1000, "MMD": 86400}], f)
        self.truth[rid] = (self.pki.universe(), {s: self.pki.included(s) for s in rschecks.SETS})
        for name, argv in (("1-upload_data_to_storage", [d]), ("2-generate_mlbf", [d, "--reason-set", "all", "--filter-type", "clubcard"]),
                           ("2-generate_mlbf", [d, "--reason-set", "priority", "--filter-type", "clubcard"]), ("3-upload_mlbf_to_storage", [d])):
            with quiet():
                o = script(SCRIPT("workflow", name), argv + b, c, limit=60)
            done.append((name, repr(o), o.tb[-200:] if o.kind == "failed" else ""))
            if o.kind not in ("ok", "exit") or o.code:
                ended = name
                break
        self.calm()
        if os.path.exists(self.flag):
            os.unlink(self.flag)
        c.count("generation runs")
        c.count("generation runs completed", int(ended is None))
        c.trace.append(("run", rid, str(CLOCK.now()), {"known": len(self.truth[rid][0]), "revoked": {k: len(v) for k, v in self.truth[rid][1].items()}}, done if ended or fired else "ok", fired,
                        "complete" if f"{rid}/completed" in self.b else "incomplete"))
        if ended is None and f"{rid}/completed" not in self.b:
            c.violation("run-not-complete", f"every step of run {rid} succeeded but it is not marked complete")
        if ended and not fired and not o.kind == "failed":
            c.violation("step-fails", f"{ended} fails without a reason: {o!r}", o.tb)

    def publish(self):
        fired = self.faults(0.3, self.rng.choice([5, 40]))
        o = self.main()
        self.calm()
        self.c.trace.append(("publish", str(CLOCK.now()), repr(o), fired, self.brief()))
        return o

    def brief(self):
        return [(r.get("channel"), r.get("incremental"), r["attachment"]["filename"]) for r in self.k.records(CRLITE) if isinstance(r.get("attachment"), dict)]

    def newest_done(self):
        """The newest run the bucket has anything of is complete."""
        rids = sorted({k.split("/")[0] for k in self.b if re.fullmatch(r"\d{8}-\d+", k.split("/")[0])}, key=checks.rid_key)
        return bool(rids) and f"{rids[-1]}/completed" in self.b

    def judge(self, when, must):
        """must: every enabled channel is there. Otherwise only channels that are chains are judged."""
        c = self.c
        for ch in fakes.publisher().CHANNELS:
            recs = [r for r in self.k.records(CRLITE) if r.get("channel", "default") == ch.slug]
            if not ch.enabled or not recs and not must:
                continue
            order, why = checks.chain(recs)
            if order is None:
                if must:
                    c.violation("no-chain", f"{when}: channel {ch.slug}: {why or 'no records'}")
                continue
            rids = [checks.run_of(r) for r in order]
            rs = REASONS.get(ch.dir)
            if rs is None or rids[-1] not in self.truth:
                c.violation("unknown-source", f"{when}: channel {ch.slug} is made from {ch.dir} of {rids}")
                continue
            client = set()
            for r in order:
                b = self.k.files.get(r["attachment"]["location"])
                p = os.path.join(c.scratch, "att")
                with open(p, "wb") as f:
                    f.write(b or b"")
                try:
                    client |= read_filter(p)[0]
                except Exception as e:
                    c.violation("unreadable-filter", f"{when}: channel {ch.slug}, {r['attachment']['filename']}: {e}")
            universe, sets = self.truth[rids[-1]]
            want = sets[rs]
            ever = set().union(*(self.truth[x][1][rs] for x in rids if x in self.truth))
            got = client & universe
            c.eval(f"{ch.slug}/{len(rids)}/{len(universe)}/{len(want)}/{len(ever)}/{when}")
            c.count("channels judged")
            c.count("deltas applied", len(rids) - 1)
            c.count("revoked certificates looked up", len(want))
            c.count("certificates revoked after the full filter", len(want - self.truth[rids[0]][1][rs]) if rids[0] in self.truth else 0)
            if want - got:
                c.violation("revocation-missing", f"{when}: channel {ch.slug} ({rids}): clients regard {len(want - got)} revoked certificates as not revoked: {show(want - got)}")
            if got - ever:
                c.violation("wrongly-revoked", f"{when}: channel {ch.slug} ({rids}): clients regard {len(got - ever)} certificates as revoked that never were: {show(got - ever)}")
            if must and f"{rids[-1]}/enrolled.json" in self.b:
                self.ask(when, ch, rids, universe, want, ever, self.stamps[rids[-1]])

    def serve(self, line):
        p = (line.split(" ") + [""])[1].split("/")
        if p[2:3] == ["firefox.settings.services.mozilla.com"] and p[-2:] == [CRLITE, "records"]:
            return qchecks.http(json.dumps({"data": self.k.records(CRLITE)}).encode())
        b = self.k.files.get("/".join(p[3:])) if p[2:3] == ["firefox-settings-attachments.cdn.mozilla.net"] else self.b.get("/".join(p[4:])) if p[2:4] == ["storage.googleapis.com", "crlite-filters-prod"] else None
        return qchecks.http(b) if b is not None else qchecks.http(b"none", 404)

    def ask(self, when, ch, rids, universe, want, ever, stamp):
        """The real query tool updates its database of the channel and answers."""
        c, rng = self.c, self.rng
        if not qchecks.EXE or not os.path.exists(qchecks.EXE):
            raise RuntimeError("no query tool")
        self.web = self.web or qchecks.Server(self.serve)
        some = lambda x, n: rng.sample(sorted(x), min(len(x), n))
        files, what = [], []
        for i, s in some(want, 15) + some(ever - want, 3) + some(universe - ever, 10):
            if (i, s) not in universe:
                continue
            dn, key, _ = self.pki.ca[i]
            der = qchecks.cert(s, dn, qchecks.name("leaf"), qchecks.spki(b"leaf"), qchecks.RT0, qchecks.RT1, [qchecks.ext(qchecks.SCT, qchecks.sct_list([(self.log_id, stamp[i, s])]))], key)
            f = os.path.join(c.scratch, f"q{len(files)}.der")
            with open(f, "wb") as o:
                o.write(der)
            files.append(f)
            what.append((i, s))
        env = {"PATH": "/usr/bin:/bin", "HOME": c.scratch, "VH_HTTP": f"127.0.0.1:{self.web.port}"}
        p = subprocess.run([qchecks.EXE, "-d", os.path.join(c.scratch, "client-" + ch.slug), "--update", "prod", "--channel", ch.slug, "x509"] + files, env=env, cwd=c.scratch, capture_output=True, stdin=subprocess.DEVNULL)
        err = p.stderr.decode(errors="replace")
        got = qchecks.reported(err)
        at = f"{when}: channel {ch.slug} ({rids}): "
        if len(got) != len(files):
            c.violation("client-fails", at + f"the query tool answers {len(got)} of {len(files)} queries: {err[-300:]}")
            return
        for x, (_, a) in zip(what, got):
            if x in want and a != "Revoked":
                c.violation("revocation-missing", at + f"the query tool says {a} for a revoked certificate logged at {stamp[x]}: {show({x})}")
            elif x not in ever and a != "Good":
                c.violation("wrong-answer", at + f"the query tool says {a} for a certificate that was never revoked, logged at {stamp[x]}: {show({x})}")
            c.count(f"query tool: {a}")
        if p.returncode != int(any(a == "Revoked" for _, a in got)):
            c.violation("client-fails", at + f"the query tool ends with status {p.returncode}")
        c.count("updates of the query tool")


def pipe_case(c):
    w = Pipe(c)
    try:
        follow(c, w)
    finally:
        if w.web:
            w.web.close()


def follow(c, w):
    rng = c.rng
    w.review_check = lambda coll: w.judge("at the review request", True) if coll == CRLITE else None
    for n in range(rng.randint(2, 6)):
        p = rng.random()
        CLOCK.t += 3600 * (rng.choice([6, 6, 6, 12, 24]) if p < 0.9 else 24 * rng.choice([5, 20, 46]) if p < 0.95 else -rng.choice([0.1, 3, 30]))
        if n:
            w.pki.step()
        w.generate()
        if c.viol:
            return
        if rng.random() < 0.15 and len(w.truth) > 2:  # old runs expire
            gone = sorted(w.truth, key=checks.rid_key)[:rng.randint(1, 2)]
            for k in [k for k in w.b if k.split("/")[0] in gone]:
                del w.b[k]
            c.trace.append(("runs removed", gone))
        if rng.random() < 0.75:
            o = w.publish()
            if o.kind == "ok":
                w.judge("after the publication", w.newest_done())
            elif o.kind == "hang":
                c.violation("hang", f"the publisher does not end: {o.exc}")
            if c.viol:
                return
    c.sample("pipeline", c.trace[:8])


CHECKS["C32"] = checks.Check("C32", pipe_case, "one evaluation per channel followed by a client after a publication or at a review request; distinct ones differ in the numbers of deltas, certificates and revocations", 1500, 40000,
                             ["the filter builders are stand-ins that record exactly what they are given", "client libraries of the servers, and the TLS, HTTP and X.509 libraries of the query tool, are stand-ins"], level="fault_enumeration")
