"""The oracles of the Python checks. Each case drives the real programs through
a generated history against the stand-ins of fakes.py and judges what was
observed at the servers."""
import base64
import contextlib
import copy
import datetime
import hashlib
import json
import os
import re
import time

import fakes
from fakes import CLOCK, STORE, REPO, RealDatetime, UTC, Faults, KintoException

URL = "https://rs.example/v1/"
BUCKET = "crlite_filters_test"
CRLITE, INTER, CTLOGS = "cert-revocations", "intermediates", "ct-logs"
os.environ.update(KINTO_RW_SERVER_URL=URL, KINTO_AUTH_USER="u", KINTO_AUTH_PASSWORD="p", KINTO_BUCKET="security-state",
                  KINTO_CRLITE_COLLECTION=CRLITE, KINTO_INTERMEDIATES_COLLECTION=INTER, KINTO_CTLOGS_COLLECTION=CTLOGS)
HOUR = datetime.timedelta(hours=1)
CHECKS = {}
sha = lambda b: hashlib.sha256(b).hexdigest()


class Check:
    level = "exploration"
    assume = ()
    quick, thorough = 400, 20000

    def __init__(self, pid, case, rule, quick, thorough, assume=(), level="exploration"):
        self.case, self.rule, self.quick, self.thorough = case, rule, quick, thorough
        self.assume, self.level = list(assume), level
        CHECKS[pid] = self


def rid_key(r):
    a, b = r.split("-")
    return int(a), int(b)


class World:
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        os.environ["TZ"] = self.rng.choice(["UTC", "UTC", "America/Los_Angeles", "Asia/Kolkata", "XYZ-14", "XYZ+11"])
        time.tzset()
        fakes.SERVERS.clear()
        del fakes.GETTERS[:]
        STORE.__init__()
        STORE.rng = self.rng
        STORE.salt = self.rng.random()
        STORE.style = self.rng.choice(["pages", "shuffle"])
        CLOCK.__init__()
        CLOCK.set(RealDatetime(2026, self.rng.randint(1, 12), self.rng.randint(1, 28), self.rng.randint(0, 23), self.rng.randint(0, 59), tzinfo=UTC))
        self.k = fakes.KintoServer(URL.rstrip("/"), "security-state", self.rng)
        self.k.order = self.rng.choice(["new", "new", "old", "shuffle"])
        fakes.SERVERS[URL] = self.k
        for coll in (CRLITE, INTER, CTLOGS):
            self.k.coll(coll)
        self.b = STORE.b(BUCKET)
        self.log_list = {"operators": []}
        fakes.GETTERS.append(("https://www.gstatic.com/ct/log_list/v3/", lambda u: fakes.Response(200, json.dumps(self.log_list).encode())))
        self.k.on_review.append(self.review)
        self.reviews = []
        self.channels = None  # replacement of CHANNELS
        self.nmain = 0
        self.review_check = None
        self.mod = None

    def review(self, coll, old):
        self.reviews.append((coll, old))
        self.c.count(f"review requests of {coll}")
        if old != "work-in-progress":
            self.bad("C28", "review-without-work", f"review of {coll} was requested in state {old!r}")
        if self.review_check:
            self.review_check(coll)

    def bad(self, pid, key, desc, detail=None):
        if pid == self.c.pid:
            self.c.violation(key, desc, detail)

    def main(self, noop=False, extra=()):
        """One run of the publisher."""
        self.nmain += 1
        dl = os.path.join(self.c.scratch, f"dl{self.nmain}")
        self.reviews = []
        self.k.n = STORE.n = 0
        self.k.per = {}
        self.k.ops, STORE.ops = [], []
        CLOCK.slept = 0
        del fakes.LOG[:]
        m = self.mod = fakes.publisher()
        if self.channels is not None:
            m.CHANNELS = [m.Channel(**d) for d in self.channels]
        argv = ["main.py", "--filter-bucket", BUCKET, "--download-path", dl] + (["--noop"] if noop else []) + list(extra)
        o = fakes.run(m.main, argv)
        self.c.count("publisher runs")
        self.c.count(f"publisher runs ended: {o.kind}")
        self.k.faults.dead = STORE.faults.dead = False
        import shutil
        shutil.rmtree(dl, ignore_errors=True)
        return o


    def noop(self, extra=()):
        """One dry run; nothing on the server may change."""
        state = lambda: json.dumps([self.k.colls, sorted(self.k.files)], sort_keys=True, default=repr)
        before = state()
        o = self.main(noop=True, extra=extra)
        self.k.faults = Faults()
        muts = [(op["op"], op["coll"]) for op in self.k.ops if op["mut"]]
        self.c.trace.append(("dry run", repr(o), o.tb[-400:]))
        self.c.eval(f"dry run/{len(self.k.ops)}/{o.kind}")
        if muts or state() != before:
            self.bad("C24", "noop-writes", f"the server was changed with --noop: {muts[:5]}")
        if o.kind == "hang":
            self.bad("C24", "noop-hangs", f"a dry run does not finish: {o.exc}")
        return o


# ------------------------------------------------------------- C23, C24
PIN_DIRS = {"default": "clubcard-all", "compat": "clubcard-priority", "experimental+deltas": "clubcard-all"}


def name_time(rec):
    m = re.match(r"^(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\+00:00)?Z-(full|diff)$", rec["details"]["name"])
    if not m:
        raise ValueError("name")
    return RealDatetime.strptime(m[1], "%Y-%m-%dT%H:%M:%S")


def chain(records):
    """The records of a channel from the full filter to the newest delta, or why they are not such a chain."""
    ids = {}
    for r in records:
        try:
            assert isinstance(r["incremental"], bool), "incremental"
            assert isinstance(r["attachment"], dict) and isinstance(r["attachment"]["filename"], str), "attachment"
            assert not r["incremental"] or isinstance(r.get("parent"), str), "parent"
            rid_key(run_of(r))
            name_time(r)
            ids[r["id"]] = r
        except Exception as e:
            return None, f"malformed record ({e})"
    fulls = [r for r in records if not r["incremental"]]
    if len(fulls) != 1:
        return None, f"{len(fulls)} full filters"
    kids = {}
    for r in records:
        if r["incremental"]:
            kids.setdefault(r["parent"], []).append(r)
    out = [fulls[0]]
    while kids.get(out[-1]["id"]):
        k = kids[out[-1]["id"]]
        if len(k) > 1:
            return None, "branching deltas"
        out.append(k[0])
    if len(out) != len(records):
        return None, "deltas not descending from the full filter"
    for a, b in zip(out, out[1:]):
        if not name_time(a) < name_time(b):
            return None, "not in order of run time"
    return out, ""


def run_of(rec):
    m = re.match(r"^(\d{8}-\d+)-[^_]*$", rec["attachment"]["filename"])
    if not m:
        raise ValueError("filename")
    return m[1]


class Pub(World):
    """Histories of runs, existing records and faults."""

    def __init__(self, c):
        super().__init__(c)
        self.runs = {}  # run id -> dict
        m = fakes.publisher()
        self.conf = [ch._asdict() for ch in m.CHANNELS]
        self.ent = fakes.pem(fakes.make_cert(self.rng, "Intermediate"))
        self.review_check = self.at_review
        self.last_chan = None
        self.newest_seen = set()
        self.k.before.append(self.watch)
        self.cur_noop = False
        self.allowed_review = True
        k = self.rng.randbytes(91)
        self.log_list = {"operators": [{"name": "Op", "logs": [{"description": "l", "key": base64.b64encode(k).decode(), "log_id": base64.b64encode(hashlib.sha256(k).digest()).decode(),
                         "mmd": 86400, "url": "https://l.example/", "state": {"usable": {"timestamp": "x"}}}], "tiled_logs": []}]}
        self.noise()

    def noise(self):
        for x in ("latest/filter", "latest/revset.bin", "stats/x", "20260101/readme", "tmp-1/x"):
            if self.rng.random() < 0.5:
                self.b[x] = b"noise"

    def chans(self):
        return self.channels if self.channels is not None else self.conf

    def enabled(self):
        return [ch for ch in self.chans() if ch["enabled"]]

    def recs(self, slug):
        return [r for r in self.k.records(CRLITE) if r.get("channel", "default") == slug]

    def add_run(self):
        r, rng = {}, self.rng
        p = rng.random()
        step = (rng.choice([6, 6, 6, 12]) if p < 0.72 else rng.uniform(0.01, 30) if p < 0.85 else rng.choice([24 * 10, 24 * 15]) if p < 0.92
                else rng.choice([24 * 44, 24 * 45 + 1, 24 * 46]) if p < 0.96 else -rng.uniform(0.1, 30))
        if self.runs and rng.random() < 0.03:
            step = 0
            self.c.count("runs of the same second")
        firsts = [chain(self.recs(ch["slug"]))[0] for ch in self.enabled()]
        firsts = [(f[0], ch) for f, ch in zip(firsts, self.enabled()) if f]
        if firsts and rng.random() < 0.08:  # about the age at which a channel gets a new full filter
            f, ch = rng.choice(firsts)
            t = name_time(f).replace(tzinfo=UTC).timestamp() + ch["max_filter_age_days"] * 86400 + rng.choice([-1, 1]) * rng.choice([4, 60, 3600, 6 * 3600, 12 * 3600])
            if t > CLOCK.t:
                step = (t - CLOCK.t) / 3600
                self.c.count("runs at the age limit")
        CLOCK.t += step * 3600
        if step < 0:
            self.c.count("clock steps back")
        today = CLOCK.now().strftime("%Y%m%d")
        ids = sorted(self.runs, key=rid_key)
        rid = f"{today}-0"
        if ids and ids[-1].split("-")[0] >= today:
            d, i = ids[-1].split("-")
            rid = f"{d}-{int(i) + 1}"
        elif rng.random() < 0.15:
            rid = f"{today}-{rng.choice([1, 8, 9, 10])}"
        ts = CLOCK.now().replace(tzinfo=None, microsecond=0)
        r = {"ts": ts, "dirs": {}, "id": rid, "done": True}
        for d in sorted({c["dir"] for c in self.conf} | {c["dir"] for c in self.chans()}):
            files = {"filter": rng.randbytes(rng.randint(1, 60)), "filter.delta": rng.randbytes(rng.randint(0, 40))}
            q = rng.random()
            if q < 0.04:
                del files["filter.delta"]
            elif q < 0.06:
                del files["filter"]
            elif q < 0.08:
                files = {}
            r["dirs"][d] = files
        q = rng.random()
        r["done"] = q > 0.1
        r["later"] = rng.randint(1, 8) if q < 0.05 else None
        self.runs[rid] = r
        self.b[f"{rid}/timestamp"] = ts.isoformat(timespec="seconds").encode()
        self.b[f"{rid}/ct-logs.json"] = b"[]"
        self.b[f"{rid}/enrolled.json"] = json.dumps([{"pem": self.ent, "subject": "x", "pubKeyHash": base64.urlsafe_b64encode(
            hashlib.sha256(fakes.load_pem_x509_certificate(self.ent.encode()).spki).digest()).decode()}]).encode()
        for d, fs in r["dirs"].items():
            for n, b in fs.items():
                self.b[f"{rid}/{d}/{n}"] = b
        if r["done"]:
            self.complete(rid)
        self.c.trace.append(("run", rid, str(ts), "complete" if r["done"] else f"incomplete, later={r['later']}", {d: sorted(f) for d, f in r["dirs"].items()}))

    def complete(self, rid):
        self.runs[rid]["done"] = True
        self.b[f"{rid}/completed"] = b"x"

    def drop_runs(self):
        ids = sorted(self.runs, key=rid_key)
        n = self.rng.choice([1, 1, 2, len(ids) - 1])
        gone = ids[:n] if self.rng.random() < 0.8 else [self.rng.choice(ids[:-1] or ids)]
        for rid in gone:
            if len(self.runs) > 1:
                del self.runs[rid]
                for k in [k for k in self.b if k.startswith(rid + "/")]:
                    del self.b[k]
        self.c.trace.append(("runs removed", gone))

    def newest(self):
        return max(self.runs, key=rid_key) if self.runs else None

    # -- corruption of the existing records
    def corrupt(self):
        rng = self.rng
        rs = self.k.coll(CRLITE)["records"]
        if not rs:
            return
        r = rng.choice(list(rs.values()))
        slug = r.get("channel", "default")
        same = [x for x in rs.values() if x.get("channel", "default") == slug]
        kind = rng.choice(["delete", "dup", "parent", "self", "no attachment", "no parent", "no incremental", "odd incremental", "no details", "filename",
                           "no filename", "other full", "cycle", "no channel", "name", "drop full", "time", "attachment null", "foreign"])
        if kind == "delete":
            del rs[r["id"]]
        elif kind == "dup":
            self.k.put(CRLITE, {k: v for k, v in r.items() if k != "id"})
        elif kind == "parent":
            r["parent"] = rng.choice([x["id"] for x in rs.values()] + ["nowhere"])
        elif kind == "self":
            r["parent"] = r["id"]
            r["incremental"] = True
        elif kind == "no attachment":
            r.pop("attachment", None)
        elif kind == "attachment null":
            r["attachment"] = None
        elif kind == "no parent":
            r.pop("parent", None)
        elif kind == "no incremental":
            r.pop("incremental", None)
        elif kind == "odd incremental":
            r["incremental"] = rng.choice([None, "false", 1])
        elif kind == "no details":
            r.pop("details", None)
        elif kind == "name":
            r["details"] = rng.choice([{}, {"name": "garbage"}, {"name": None}, None])
        elif kind == "time":
            try:
                t, inc = name_time(r) + datetime.timedelta(days=rng.choice([-9, -1, 1, 9])), r["incremental"]
                if inc and rng.random() < 0.4:  # the time of its parent
                    t = name_time(rs[r["parent"]])
            except Exception:
                return
            r["details"]["name"] = t.isoformat(timespec="seconds") + "+00:00Z-" + ("diff" if inc else "full")
        elif kind in ("filename", "no filename"):
            if not isinstance(r.get("attachment"), dict):
                return
            if kind == "filename":
                r["attachment"]["filename"] = rng.choice(["x", "", "20260101-filter", "a-b-c", f"20200101-0-{slug}.filter"])
            else:
                r["attachment"].pop("filename", None)
        elif kind == "other full":
            x = {k: v for k, v in r.items() if k not in ("id", "parent")}
            x["incremental"] = False
            self.k.put(CRLITE, x)
        elif kind == "cycle":
            d = [x for x in same if x.get("incremental")]
            if len(d) < 2:
                return
            d[0]["parent"], d[1]["parent"] = d[1]["id"], d[0]["id"]
        elif kind == "no channel":
            r.pop("channel", None)
        elif kind == "drop full":
            for x in list(same):
                if x.get("incremental") is False:
                    del rs[x["id"]]
        elif kind == "foreign":
            self.k.put(CRLITE, {"channel": "someone-else", "incremental": False, "details": {"name": "2026-01-01T00:00:00+00:00Z-full"},
                                "attachment": self.k.store_file("20260101-0-someone-else.filter", b"x")})
        self.c.trace.append(("corrupt", kind, slug, r.get("id")))
        self.c.count(f"corruption: {kind}")

    # -- what should happen
    def expect(self, ch, recs, done):
        """('none'|'full'|'delta'|'any', runs)"""
        newest = self.newest()
        if newest is None or not done(newest):
            return "none", []
        order = sorted(self.runs, key=rid_key)
        full = ("full", [newest])
        if not recs:
            return full
        ch_, why = chain(recs)
        if ch_ is None:
            return full
        have = [run_of(r) for r in ch_]
        if any(h not in self.runs for h in have):
            return full
        # records whose names disagree with their runs' times are not judged
        if any(name_time(r) != self.runs[h]["ts"] for r, h in zip(ch_, have)):
            return "any", []
        new = [r for r in order if rid_key(r) > rid_key(have[-1])]
        prev = self.runs[have[-1]]["ts"]
        for r in new:
            fs = self.runs[r]["dirs"].get(ch["dir"], {})
            if not done(r) or "filter" not in fs or "filter.delta" not in fs:
                return full
            if self.runs[r]["ts"] <= prev:
                return full
            prev = self.runs[r]["ts"]
        age = self.runs[newest]["ts"] - min(self.runs[have[0]]["ts"], name_time(ch_[0]))
        lim = datetime.timedelta(days=ch["max_filter_age_days"])
        if age > lim:
            return full
        if abs(age - lim) < datetime.timedelta(seconds=2):
            return "any", []
        return ("delta", new) if new else ("none", [])

    def watch(self, op):
        if op["coll"] != CRLITE or not op["mut"]:
            return
        if self.cur_noop:
            self.bad("C24", "noop-writes", f"{op['op']} of {op.get('id') or op.get('data')} with --noop")
        if op["op"] == "create":
            d = op.get("data") or {}
            self.last_chan = d.get("channel")
            runs = [r for r in self.runs.values() if self.named(d, r)]
            if not runs:
                self.bad("C24", "unknown-run", f"a record was created for no known run: {d}")
            elif not any(f"{r['id']}/completed" in self.b for r in runs):
                self.bad("C24", "incomplete-run", f"a record was created for run {runs[0]['id']}, which is not marked complete: {d}")
            self.c.count("records created")
        elif op["op"] == "delete":
            r = self.k.coll(CRLITE)["records"].get(op["id"])
            if r:
                self.last_chan = r.get("channel", "default")

    def named(self, d, r):
        try:
            return name_time(d) == r["ts"]
        except Exception:
            return False

    def at_review(self, coll):
        if coll != CRLITE:
            return
        for ch in self.enabled():
            recs = self.recs(ch["slug"])
            got, why = chain(recs)
            if got is None or not recs:
                self.bad("C23", "review-of-broken-channel", f"review was requested while the records of channel {ch['slug']} are no chain: {why or 'none'}", self.brief(recs))
                continue
            if ch["slug"] == self.last_chan and run_of(got[-1]) not in self.newest_seen:
                self.bad("C23", "review-of-stale-channel", f"review was requested after publishing channel {ch['slug']} up to {run_of(got[-1])}, the newest run is {self.newest()}", self.brief(recs))
            if any(r["attachment"].get("hash") != sha(self.k.files.get(r["attachment"].get("location"), b"")) for r in got):
                self.bad("C24", "wrong-attachment-hash", f"attachment of channel {ch['slug']}", self.brief(recs))
        self.c.eval()

    def brief(self, recs):
        return [{k: r.get(k) for k in ("id", "incremental", "parent", "details", "channel", "effectiveTimestamp")} | {"file": (r.get("attachment") or {}).get("filename")} for r in recs]

    def check_record(self, ch, r, kind, rid):
        run = self.runs[rid]
        want = run["dirs"].get(ch["dir"], {}).get("filter" if kind == "full" else "filter.delta")
        p = []
        if r.get("channel") != ch["slug"]:
            p.append(f"channel {r.get('channel')}")
        if r["incremental"] != (kind == "delta"):
            p.append(f"incremental {r['incremental']}")
        if r.get("effectiveTimestamp") != int(run["ts"].replace(tzinfo=UTC).timestamp() * 1000):
            p.append(f"effectiveTimestamp {r.get('effectiveTimestamp')}")
        if name_time(r) != run["ts"]:
            p.append(f"name {r['details']}")
        if self.k.files.get(r["attachment"]["location"]) != want:
            p.append("attachment content")
        if r["attachment"]["filename"].rsplit("-", 1)[0] != rid:
            p.append(f"file name {r['attachment']['filename']}")
        e = f"env.version|versionCompare('{ch['supported_version']}.!') >= 0 && '{ch['slug']}' == 'security.pki.crlite_channel'|preferenceValue('none')"
        if r.get("filter_expression") != e:
            p.append(f"filter_expression {r.get('filter_expression')}")
        if p:
            self.bad("C24", "wrong-record", f"record for run {rid} of channel {ch['slug']}: {'; '.join(p)}", self.brief([r]))

    def publish(self, faulty, noop=False):
        rng = self.rng
        before = {ch["slug"]: self.recs(ch["slug"]) for ch in self.chans()}
        others = [r for r in self.k.records(CRLITE) if r.get("channel", "default") not in before]
        later = {r["id"]: r["later"] for r in self.runs.values() if not r["done"] and r["later"]}
        cnt = {"n": 0}
        wait = {"n": 0}
        newest = self.newest()
        if newest in later:
            def hook():
                wait["n"] += 1
                if wait["n"] == later[newest]:
                    self.complete(newest)
            CLOCK.hooks = [hook]
        else:
            CLOCK.hooks = []
        done = lambda r: self.runs[r]["done"] or (r == newest and r in later)
        exp = {ch["slug"]: self.expect(ch, before[ch["slug"]], done) for ch in self.enabled()}
        fired = []
        if faulty:
            at, kind = int(rng.expovariate(1 / 7)), rng.choice(["refuse", "refuse", "lost", "drop", "cut", "kill", "killed-after"])
            twice = rng.random() < 0.3
            scope = rng.choice([CRLITE, CRLITE, CRLITE, "gcs", "write"])

            def plan(op):
                if scope == "write":
                    if op["coll"] != CRLITE or not op["mut"]:
                        return None
                elif op["coll"] != scope:
                    return None
                cnt["n"] += 1
                if cnt["n"] - 1 == at or (twice and cnt["n"] - 1 == at + 1):
                    fired.append((kind, op["op"], op["coll"], op.get("id") or op.get("key")))
                    return kind
            self.k.faults, STORE.faults = Faults(plan), Faults(plan)
            self.k.faults, STORE.faults = self.k.faults, STORE.faults
        else:
            self.k.faults, STORE.faults = Faults(), Faults()
        self.cur_noop, self.last_chan = noop, None
        self.newest_seen = {newest}
        state = json.dumps([self.k.colls, sorted(self.k.files)], sort_keys=True, default=repr) if noop else None
        files_before = dict(self.b)
        o = self.main(noop=noop)
        CLOCK.hooks = []
        self.k.faults, STORE.faults = Faults(), Faults()
        self.cur_noop = False
        self.c.trace.append(("publish", "noop" if noop else "", repr(o), o.tb[-600:], {s: e for s, e in exp.items()}, {"faults": fired}, list(fakes.LOG[-12:]) if o.kind != "ok" else ""))
        for f in fired:
            self.c.count(f"fault {f[0]} of {f[1]}")
        if {k: v for k, v in self.b.items() if not k.endswith("/completed")} != {k: v for k, v in files_before.items() if not k.endswith("/completed")}:
            self.bad("C24", "bucket-changed", "the publisher changed the storage bucket")
        if noop:
            muts = [op for op in self.k.ops if op["mut"]]
            if muts or state != json.dumps([self.k.colls, sorted(self.k.files)], sort_keys=True, default=repr):
                self.bad("C24", "noop-writes", f"the server was changed with --noop: {[(op['op'], op['coll']) for op in muts[:5]]}")
            self.c.eval("noop/" + repr(sorted(exp.items())))
            if o.kind == "failed" and not any(self.excused(ch, exp[ch["slug"]]) for ch in self.enabled()):
                pass
            return o
        if o.kind == "hang":
            self.bad("C23", "publisher-hangs", f"the publisher does not finish: {o.exc}")
            return o
        if [r for r in self.k.records(CRLITE) if r.get("channel", "default") not in before] != others:
            self.bad("C24", "other-records-changed", "records of a channel the publisher does not know were changed")
        if o.kind == "ok" and not [f for f in fired if f[2] != "gcs"] or (o.kind == "ok"):
            self.after_success(exp, before, fired)
        elif not fired:
            exc = [ch["slug"] for ch in self.enabled() if self.excused(ch, exp[ch["slug"]])]
            if not exc:
                self.bad("C23", "publisher-fails", f"the publisher failed without a fault: {o!r}", {"tb": o.tb, "exp": exp, "before": {s: self.brief(r) for s, r in before.items()}})
            self.c.eval("excused")
        else:
            # an addition the server refused part-way leaves nothing behind
            if all(f[:2] == ("refuse", "attach") for f in fired):
                half = [r for ch in self.enabled() for r in self.recs(ch["slug"]) if "attachment" not in r and r not in before[ch["slug"]]]
                if half:
                    self.bad("C24", "half-made-record", f"a record without its attachment is left: {half}")
                self.c.count("refused attachments")
            # a fault ended it: channels with nothing to do keep their records
            for ch in self.enabled():
                if exp[ch["slug"]][0] == "none" and self.recs(ch["slug"]) != before[ch["slug"]]:
                    self.bad("C24", "channel-touched", f"records of channel {ch['slug']} changed although there was nothing to publish for it", [self.brief(before[ch['slug']]), self.brief(self.recs(ch['slug']))])
            self.c.eval(f"fault/{fired[0][0]}/{fired[0][1]}/{cnt['n'] and min(at, 30)}")
        return o

    def excused(self, ch, e):
        """The newest run has no files to publish from."""
        if e[0] == "none":
            return False
        fs = self.runs[self.newest()]["dirs"].get(ch["dir"], {})
        return "filter" not in fs

    def after_success(self, exp, before, fired):
        for ch in self.enabled():
            slug = ch["slug"]
            kind, runs = exp[slug]
            was, now = before[slug], self.recs(slug)
            wid, nid = {r["id"]: r for r in was}, {r["id"]: r for r in now}
            key = f"{slug}/{kind}/{len(was)}/{len(runs)}/{len(self.runs)}"
            self.c.eval(key)
            self.c.count(f"decision {kind}")
            if kind == "none":
                if was != now:
                    self.bad("C24", "channel-touched", f"records of channel {slug} changed although there was nothing to publish for it", [self.brief(was), self.brief(now)])
                    self.bad("C23", "changed-without-newer-run", f"channel {slug} was changed although nothing newer can be published", [self.brief(was), self.brief(now)])
                continue
            got, why = chain(now)
            if got is None:
                for r in now:
                    try:
                        if r["id"] not in wid and run_of(r) in self.runs:
                            self.check_record(ch, r, "delta" if r["incremental"] else "full", run_of(r))
                    except (KeyError, TypeError, ValueError):
                        pass
                self.bad("C23", "no-chain", f"after publication the records of channel {slug} are no chain: {why}", self.brief(now))
                continue
            if run_of(got[-1]) not in self.newest_seen:
                self.bad("C23", "stale", f"after publication channel {slug} ends in {run_of(got[-1])}, the newest run is {self.newest()}", self.brief(now))
                continue
            if kind == "full":
                if len(now) != 1 or now[0]["id"] in wid:
                    self.bad("C23", "incremental-not-allowed", f"channel {slug} had to be replaced by one full filter (existing: {chain(was)[1] if was else 'none'})", [self.brief(was), self.brief(now), {r: str(x["ts"]) for r, x in self.runs.items()}])
                else:
                    self.check_record(ch, now[0], "full", runs[0])
            elif kind == "delta":
                kept = all(nid.get(i) == r for i, r in wid.items())
                add = [r for r in got if r["id"] not in wid]
                if not kept:
                    self.bad("C24", "channel-touched", f"existing records of channel {slug} were changed by an incremental publication", [self.brief(was), self.brief(now)])
                if not kept or [run_of(r) for r in add] != runs or got[len(was):] != add:
                    self.bad("C23", "wrong-delta", f"channel {slug} had to get deltas of {runs}, got {[run_of(r) for r in add]} (previous records kept: {kept})", [self.brief(was), self.brief(now)])
                else:
                    for r, x in zip(add, runs):
                        self.check_record(ch, r, "delta", x)
        for ch in self.chans():
            if not ch["enabled"] and self.recs(ch["slug"]):
                self.bad("C24", "disabled-channel-left", f"records of the disabled channel {ch['slug']} remain", self.brief(self.recs(ch["slug"])))


def publish_case(c):
    rng = c.rng
    w = Pub(c)
    for ch in w.conf:
        if PIN_DIRS.get(ch["slug"], ch["dir"]) != ch["dir"]:
            w.bad("C24", "channel-source", f"channel {ch['slug']} is published from {ch['dir']}")
    if len({ch["slug"] for ch in w.conf}) != len(w.conf):
        w.bad("C24", "channel-source", "two channels share a name")
    steps = rng.randint(3, 12)
    corrupting = rng.random() < 0.5
    faulty = rng.random() < 0.55
    legacy = rng.random() < 0.15  # records from before there were channels
    multi = rng.random() < (0.5 if c.pid == "C24" else 0.15)
    for _ in range(steps):
        if multi and rng.random() < 0.3:
            conf = [dict(ch) for ch in w.conf]
            for ch in conf:
                if rng.random() < 0.4:
                    ch["enabled"] = not ch["enabled"]
            if rng.random() < 0.4:
                conf.append(dict(conf[1], slug="beta", dir=rng.choice(["clubcard-all", "clubcard-priority"]), enabled=rng.random() < 0.8,
                                 max_filter_age_days=rng.choice([1, 3, 20]), supported_version=rng.choice([99, 133, 140])))
            if rng.random() < 0.2:
                rng.shuffle(conf)
            w.channels = conf
            c.trace.append(("channels", [(x["slug"], x["enabled"], x["dir"], x["max_filter_age_days"]) for x in conf]))
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
            w.add_run()
        if w.runs and rng.random() < 0.08:
            w.drop_runs()
        if corrupting and rng.random() < 0.3:
            w.corrupt()
        if legacy and rng.random() < 0.5:
            for r in w.k.coll(CRLITE)["records"].values():
                if r.get("channel") == "default":
                    del r["channel"]
                    c.count("records without a channel")
        if rng.random() < 0.1:
            n = w.newest()
            if n and not w.runs[n]["done"]:
                w.complete(n)
        if not w.runs and rng.random() < 0.7:
            continue
        w.publish(faulty and rng.random() < 0.5, noop=rng.random() < (0.15 if c.pid == "C24" else 0.04))
        if rng.random() < 0.25:
            w.publish(False)
        if c.viol:
            break
    if not c.viol and w.runs:
        for _ in range(2):
            w.publish(False)
    c.sample("history", c.trace[:30])


RULE = ("one evaluation per channel and publication (or review request) judged in generated histories of runs, retention, record corruption, channel sets, clock steps and "
        "server faults; distinct ones differ in channel, decision, number of records, of new runs and of runs, or in the fault and its position")
Check("C23", publish_case, RULE, 4500, 150000, ["an age within 2 s of the limit is not judged"])


def c24_case(c):
    if c.i % 12 == 10:
        logs_case(c)
    elif c.i % 12 == 11:
        inter_case(c)
    else:
        publish_case(c)


Check("C24", c24_case, RULE + "; and one per dry run with changed CT logs or intermediates", 4500, 150000)


# ------------------------------------------------------------------ C25
class Inter(World):
    def __init__(self, c):
        super().__init__(c)
        rng = self.rng
        keys = [rng.randbytes(65) for _ in range(4)]
        names = ["CA One", "CA, Two", "CA <3>", "Ünïcode CA", "CA One"]
        self.pool = []
        for _ in range(rng.randint(1, 9)):
            der = fakes.make_cert(rng, rng.choice(names) + rng.choice(["", " G2", " 3"]), rng.choice(keys + [None] * 4),
                                  rng.choice(["20330101000000Z", "20250101000000Z", "20260601000000Z"]))
            self.pool.append(der)
        self.text = {d: fakes.pem(d, nl=rng.choice(["\n", "\n", "\r\n"])) for d in self.pool}
        self.review_check = self.at_review
        self.enrolled = []
        self.good_kinds = {}

    def spki(self, der):
        return hashlib.sha256(fakes.Certificate(der).spki).digest()

    def entry(self, der):
        e = {"pem": self.text[der], "subject": fakes.Certificate(der).subject.rfc4514_string(),
             "pubKeyHash": base64.urlsafe_b64encode(self.spki(der)).decode()}
        if self.rng.random() < 0.3:
            e["whitelist"] = False
        if self.rng.random() < 0.2:
            e["derHash"] = base64.b64encode(hashlib.sha256(der).digest()).decode()
        return e

    def record(self, der, text=None):
        t = self.text[der] if text is None else text
        r = {"derHash": base64.b64encode(hashlib.sha256(der).digest()).decode(),
             "attachment": self.k.store_file(base64.urlsafe_b64encode(self.spki(der)).decode() + ".pem", t.encode(), "text/plain")}
        if self.rng.random() < 0.3:
            r.update(self.rng.choice([{"subject": "old"}, {"pubKeyHash": base64.b64encode(self.spki(der)).decode()}, {"schema": 123}, {"crlite_enrolled": True}]))
        return r

    def broken(self, der):
        rng, r = self.rng, self.record(der)
        r.pop("pubKeyHash", None)
        other = fakes.make_cert(rng, "Other")
        kind = rng.choice(["no derHash", "no attachment", "pem too", "short derHash", "derHash text", "other derHash", "other content", "garbage", "not a certificate",
                           "bad base64", "other key hash", "short key hash", "hash length", "hash mismatch", "attachment keys", "attachment null", "derHash null", "empty", "attachment text",
                           "derHash unicode", "binary", "truncated", "derHash empty", "hash null"])
        a = r["attachment"]
        put = lambda t: r.update(attachment=self.k.store_file(a["filename"], t if isinstance(t, bytes) else t.encode()))
        if kind == "no derHash":
            del r["derHash"]
        elif kind == "no attachment":
            del r["attachment"]
        elif kind == "pem too":
            r["pem"] = self.text[der]
        elif kind == "short derHash":
            r["derHash"] = base64.b64encode(b"abc").decode()
        elif kind == "derHash text":
            r["derHash"] = "not base64!"
        elif kind == "derHash unicode":
            r["derHash"] = "é" * 44
        elif kind == "other derHash":
            r["derHash"] = base64.b64encode(hashlib.sha256(other).digest()).decode()
        elif kind == "other content":
            put(fakes.pem(other))
        elif kind == "garbage":
            put(rng.choice(["garbage", "", "<html>error</html>"]))
        elif kind == "binary":
            put(rng.randbytes(50))
        elif kind == "not a certificate":
            put(fakes.pem(b"\x30\x03\x02\x01\x01"))
        elif kind == "truncated":
            put(self.text[der][:len(self.text[der]) // 2])
        elif kind == "bad base64":
            put("-----BEGIN CERTIFICATE-----\n!!!!=\n-----END CERTIFICATE-----\n")
        elif kind == "other key hash":
            r["pubKeyHash"] = base64.b64encode(hashlib.sha256(b"x").digest()).decode()
        elif kind == "short key hash":
            r["pubKeyHash"] = "AAAA"
        elif kind == "hash length":
            a["hash"] = "abcd"
        elif kind == "hash mismatch":
            a["hash"] = sha(b"x")
        elif kind == "attachment keys":
            del a[rng.choice(["filename", "size", "location", "mimetype", "hash"])]
        elif kind == "attachment null":
            r["attachment"] = None
        elif kind == "attachment text":
            r["attachment"] = "x"
        elif kind == "derHash null":
            r["derHash"] = None
        elif kind == "empty":
            r = {}
        elif kind == "derHash empty":
            r["derHash"] = ""
        elif kind == "hash null":
            a["hash"] = None
        self.c.count(f"broken record: {kind}")
        return kind, r

    def valid_for(self, r):
        """The certificate a record stands for, if it is a valid record."""
        try:
            a = r["attachment"]
            t = self.k.files[a["location"]]
            der = fakes.load_pem_x509_certificate(t).der
            if all(k in a for k in ("filename", "size", "mimetype")) and a["hash"] == sha(t) and base64.b64decode(r["derHash"], validate=True) == hashlib.sha256(der).digest() and "pem" not in r:
                if "pubKeyHash" in r and base64.urlsafe_b64decode(r["pubKeyHash"].replace("+", "-").replace("/", "_")) != self.spki(der):
                    return None
                return der
        except Exception:
            pass
        return None

    def judge(self, when):
        want = set(self.expected)
        got = {}
        for r in self.k.records(INTER):
            d = self.valid_for(r)
            if d is None:
                return self.bad("C25", "broken-record", f"{when} there is a broken record: {r}")
            if d in got:
                return self.bad("C25", "duplicate-record", f"{when} two records hold {fakes.Certificate(d).subject.rfc4514_string()}: {got[d]} {r}")
            got[d] = r
        if set(got) != want:
            self.bad("C25", "not-the-enrolled-list", f"{when} the records are not the enrolled list: missing {[fakes.Certificate(d).subject.rfc4514_string() for d in want - set(got)]}, "
                     f"extra {[fakes.Certificate(d).subject.rfc4514_string() for d in set(got) - want]}")

    def at_review(self, coll):
        if coll == INTER:
            self.c.eval()
            self.judge("when review was requested")


def inter_case(c):
    rng = c.rng
    w = Inter(c)
    rs = w.k.coll(INTER)["records"]
    # initial collection
    for der in w.pool:
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            w.k.put(INTER, w.record(der, None if rng.random() < 0.8 else fakes.pem(der, width=76)))
        if rng.random() < 0.25:
            kind, r = w.broken(der)
            w.k.put(INTER, r)
            c.trace.append(("broken", kind))
    w.k.coll(INTER)["meta"]["status"] = rng.choice(["signed", "signed", "work-in-progress", "to-review"])
    for step in range(rng.randint(1, 4)):
        p = rng.choice([0.3, 0.7, 0.9, 1.0])
        w.enrolled = [d for d in w.pool if rng.random() < p]
        w.expected = list(w.enrolled)
        entries = [w.entry(d) for d in w.enrolled]
        if rng.random() < 0.3 and entries:
            entries.append(w.entry(rng.choice(w.enrolled)))  # listed twice
        if rng.random() < 0.3:
            d = fakes.make_cert(rng, "Rejected")
            w.text[d] = fakes.pem(d)
            e = w.entry(d)
            k = rng.choice(["pubKeyHash", "subject", "derHash"])
            if k == "derHash":
                e[k] = base64.b64encode(b"x" * 32).decode()
            elif k == "pubKeyHash":
                e[k] = base64.urlsafe_b64encode(b"x" * 32).decode()
            else:
                del e[k]
            entries.append(e)
        rng.shuffle(entries)
        if rng.random() < 0.3:
            w.k.put(INTER, w.broken(rng.choice(w.pool))[1])
        if rng.random() < 0.2 and rs:
            del rs[rng.choice(list(rs))]
        if rng.random() < 0.2:
            w.k.put(INTER, w.record(rng.choice(w.pool)))
        path = os.path.join(c.scratch, "enrolled.json")
        local = rng.random() < 0.5
        for k in list(w.b):
            del w.b[k]
        old = RealDatetime(2026, 1, 1)
        for n in range(rng.randint(1, 3)):
            rid = f"20260{n + 1}01-{rng.choice([2, 9, 10, 11])}"
            w.b[f"{rid}/enrolled.json"] = b"[]"
            w.b[f"{rid}/timestamp"] = old.isoformat().encode()
        w.b[f"{rid}/enrolled.json"] = json.dumps(entries).encode()
        with open(path, "w") as f:
            json.dump(entries if local else [], f)
        before = {i: copy.deepcopy(r) for i, r in rs.items()}
        if c.pid == "C24" and w.noop(["--enrolled-json", path] if local else []) and c.viol:
            return
        fired = []
        if rng.random() < 0.5:
            at, kind = int(rng.expovariate(1 / 5)), rng.choice(["refuse", "refuse", "refuse", "lost", "drop", "cut", "kill", "killed-after"])
            only = rng.choice([None, "attach", "create", "delete", "download", "list"])
            many = rng.random() < 0.2
            n = [0]

            def plan(op):
                if op["coll"] not in (INTER, None) or (only and op["op"] != only):
                    return None
                n[0] += 1
                if n[0] - 1 == at or (many and n[0] > at):
                    fired.append((kind, op["op"]))
                    return kind
            w.k.faults = Faults(plan)
        o = w.main(extra=["--enrolled-json", path] if local else [])
        w.k.faults = Faults()
        after = {r["id"]: r for r in w.k.records(INTER)}
        c.trace.append(("publish", repr(o), o.tb[-700:], {"enrolled": len(w.expected), "before": len(before), "after": len(after), "faults": fired}, fakes.LOG[-6:] if o.kind != "ok" else ""))
        reviewed = (INTER, "work-in-progress") in w.reviews
        for f in fired:
            c.count(f"fault {f[0]} of {f[1]}")
        key = f"{len(w.expected)}/{len(before)}/{sorted(set(fired))}"
        c.eval(key)
        if o.kind == "hang":
            w.bad("C25", "publisher-hangs", str(o.exc))
        elif o.kind == "ok":
            w.judge("after publication")
        elif not fired:
            w.bad("C25", "publisher-fails", f"the publisher failed without a fault: {o!r}", o.tb)
        if reviewed and o.kind != "ok" and not any(f[1] in ("patch_collection", "get_collection", "update_collection") for f in fired):
            w.bad("C25", "review-then-failure", f"review was requested although the publication failed: {o!r}")
        # unchanged correct records stay
        by = {}
        for i, r in before.items():
            d = w.valid_for(r)
            if d is not None and d in w.expected:
                by.setdefault(d, []).append(i)
        for d, ids in by.items():
            if not any(after.get(i) == before[i] for i in ids):
                w.bad("C25", "correct-record-touched", f"the correct record of {fakes.Certificate(d).subject.rfc4514_string()} was changed or removed", {"before": [before[i] for i in ids], "after": [after.get(i) for i in ids]})
        # an addition refused part-way leaves nothing behind
        if fired and all(f == ("refuse", "attach") for f in fired):
            half = [r for i, r in after.items() if i not in before and "attachment" not in r]
            if half:
                w.bad("C25", "half-made-record", f"a record without its certificate is left: {half}")
        if c.viol:
            return
    o = w.main(extra=["--enrolled-json", path] if local else [])
    if o.kind != "ok":
        w.bad("C25", "publisher-fails", f"the publisher failed without a fault: {o!r}", o.tb)
    else:
        w.judge("after a repeated publication")
    c.eval()
    c.sample("history", c.trace[:12])


Check("C25", inter_case, "one evaluation per publication and per review request judged; distinct ones differ in the number of enrolled certificates, of remote records and in the faults",
      4000, 200000, ["attachments that cannot be downloaded only occur as faults", "list entries the publisher rejects for wrong hashes or missing fields do not count as certificates of the list"])


# ------------------------------------------------------------------ C26
LOG_FIELDS = ("description", "key", "url", "mmd", "admissible", "operator", "tiled")
STATES = ["pending", "qualified", "usable", "readonly", "retired", "rejected"]


class Logs(World):
    def __init__(self, c):
        super().__init__(c)
        rng = self.rng
        self.pool = []
        for i in range(rng.randint(1, 9)):
            key = rng.randbytes(91)
            tiled = rng.random() < 0.4
            self.pool.append({"key": base64.b64encode(key).decode(), "id": base64.b64encode(hashlib.sha256(key).digest()).decode(),
                              "tiled": tiled, "name": f"log {i}", "op": rng.choice(["Google", "DigiCert", "Let's Encrypt"])})
        self.c_open = os.path.join(c.scratch, "enrolled.json")
        with open(self.c_open, "w") as f:
            f.write("[]")

    def upstream(self):
        rng = self.rng
        ops, want = {}, {}
        for l in self.pool:
            if rng.random() < 0.15:
                continue
            if rng.random() < 0.2:
                l["name"] += rng.choice(["'", " (renamed)", " ü"])
            if rng.random() < 0.1:
                l["op"] = rng.choice(["Google", "Sectigo"])
            if rng.random() < 0.1:
                l["tiled"] = not l["tiled"]
            st = rng.choice(STATES)
            e = {"description": l["name"], "log_id": l["id"], "key": l["key"], "mmd": rng.choice([60, 86400, 86400]), "state": {st: {"timestamp": "2025-01-01T00:00:00Z"}},
                 "temporal_interval": {"start_inclusive": "2026-01-01T00:00:00Z"}}
            if l["tiled"]:
                e["submission_url"], e["monitoring_url"] = f"https://sub.example/{l['name']}/", f"https://mon.example/{rng.choice(['a', 'b'])}/"
            else:
                e["url"] = f"https://ct.example/{rng.choice(['a', 'b'])}/"
            o = ops.setdefault(l["op"], {"name": l["op"], "email": [], "logs": [], "tiled_logs": []})
            o["tiled_logs" if l["tiled"] else "logs"].append(e)
            want[l["id"]] = {"description": l["name"], "key": l["key"], "url": e.get("monitoring_url") if l["tiled"] else e["url"], "mmd": e["mmd"],
                             "operator": l["op"], "tiled": l["tiled"], "admissible": st in ("qualified", "usable", "readonly", "retired")}
        if rng.random() < 0.2:
            ops.setdefault("Empty", {"name": "Empty", "email": [], "logs": [], "tiled_logs": []})
        ops = list(ops.values())
        rng.shuffle(ops)
        return {"version": "1", "operators": ops}, want

    def spoil(self, ll):
        """Makes the upstream list one that has to be rejected."""
        rng = self.rng
        alls = [(o, k, e) for o in ll["operators"] for k in ("logs", "tiled_logs") for e in o[k]]
        if not alls:
            return None
        o, k, e = rng.choice(alls)
        kind = rng.choice(["twice", "twice in another operator", "wrong id", "other key", "id of another", "twice, other kind"])
        if kind == "twice":
            o[k].insert(rng.randint(0, len(o[k])), dict(e))
        elif kind == "twice in another operator":
            ll["operators"].insert(rng.randint(0, len(ll["operators"])), {"name": "Copy", "logs": [], "tiled_logs": [], k: [dict(e)]})
        elif kind == "twice, other kind":
            x = dict(e, url="https://x.example/", monitoring_url="https://y.example/")
            o["logs" if k == "tiled_logs" else "tiled_logs"].append(x)
        elif kind == "wrong id":
            e["log_id"] = base64.b64encode(rng.randbytes(32)).decode()
        elif kind == "other key":
            e["key"] = base64.b64encode(rng.randbytes(91)).decode()
        else:
            if len(alls) < 2:
                return None
            other = rng.choice([x for x in alls if x[2] is not e])[2]
            e["log_id"], other["log_id"] = other["log_id"], e["log_id"]
        return kind


def logs_case(c):
    rng = c.rng
    w = Logs(c)
    rs = w.k.coll(CTLOGS)["records"]
    for step in range(rng.randint(1, 5)):
        ll, want = w.upstream()
        if step == 0 or rng.random() < 0.2:
            for l in w.pool:
                if rng.random() < 0.5 and l["id"] not in {r["logID"] for r in rs.values()}:
                    r = {"logID": l["id"], "key": l["key"], "description": l["name"], "url": "https://ct.example/a/", "mmd": 86400, "operator": l["op"], "tiled": False,
                         "admissible": True, "crlite_enrolled": rng.random() < 0.5, "schema": 1}
                    for k in ("operator", "tiled", "admissible", "mmd"):
                        if rng.random() < 0.1:
                            del r[k]
                    w.k.put(CTLOGS, r)
        if rng.random() < 0.5:  # a reviewer changes enrollment
            for r in rs.values():
                if rng.random() < 0.4:
                    r["crlite_enrolled"] = rng.random() < 0.5
        if rng.random() < 0.3:
            w.k.put(CTLOGS, {"logID": base64.b64encode(rng.randbytes(32)).decode(), "key": "x", "description": "gone", "url": "u", "mmd": 1, "operator": "o", "tiled": False,
                             "admissible": False, "crlite_enrolled": rng.random() < 0.5})
        spoiled = w.spoil(ll) if rng.random() < 0.2 else None
        w.log_list = ll
        before = {r["logID"]: r for r in w.k.records(CTLOGS)}
        if c.pid == "C24":
            w.k.coll(CTLOGS)["meta"]["status"] = rng.choice(["signed", "work-in-progress", "work-in-progress", "to-review"])
            if w.noop(["--enrolled-json", w.c_open]) and c.viol:
                return
        fired = []
        if rng.random() < 0.45:
            kind, only = rng.choice(["refuse", "refuse", "refuse", "lost", "drop", "cut", "kill", "killed-after"]), rng.choice(["create", "update", "delete", None])
            at, many = int(rng.expovariate(1 / 2)), rng.random() < 0.3
            n = [0]

            def plan(op):
                if op["coll"] != CTLOGS or not op["mut"] or op["op"] == "patch_collection" or (only and op["op"] != only and not (only == "update" and op["op"] == "patch")):
                    return None
                n[0] += 1
                if n[0] - 1 == at or (many and n[0] > at and rng.random() < 0.6):
                    lid = (op.get("data") or {}).get("logID") or (w.k.coll(CTLOGS)["records"].get(op.get("id")) or {}).get("logID")
                    fired.append((kind, op["op"], lid))
                    return kind
            w.k.faults = Faults(plan)
        o = w.main(extra=["--enrolled-json", w.c_open])
        w.k.faults = Faults()
        after = w.k.records(CTLOGS)
        c.trace.append(("publish", repr(o), {"upstream": len(want), "before": len(before), "after": len(after), "spoiled": spoiled, "faults": fired}, o.tb[-500:]))
        c.eval(f"{len(want)}/{len(before)}/{spoiled}/{sorted({f[:2] for f in fired})}")
        for f in fired:
            c.count(f"fault {f[0]} of {f[1]}")
        byid = {}
        for r in after:
            byid.setdefault(r["logID"], []).append(r)
        for lid, r in byid.items():
            for x in r:
                if lid in before and x.get("crlite_enrolled") != before[lid]["crlite_enrolled"]:
                    w.bad("C26", "enrollment-changed", f"enrollment of {x['description']} changed from {before[lid]['crlite_enrolled']} to {x.get('crlite_enrolled')}", x)
                    return
        if spoiled:
            c.count(f"spoiled list: {spoiled}")
            muts = [op for op in w.k.ops if op["mut"] and op["coll"] == CTLOGS and op["op"] != "patch_collection"]
            if muts or before != {r["logID"]: r for r in after}:
                w.bad("C26", "bad-list-applied", f"a list with a defect ({spoiled}) changed the collection: {[(m['op'], m.get('id')) for m in muts[:4]]}")
            continue
        if o.kind in ("killed", "failed", "hang") and fired and any(f[0] not in ("refuse", "lost") for f in fired):
            continue
        if o.kind != "ok":
            w.bad("C26", "publisher-fails", f"the publisher failed: {o!r}", o.tb)
            return
        excused = {f[2] for f in fired}
        for lid, e in want.items():
            got = byid.get(lid, [])
            if lid in excused:
                continue
            if len(got) != 1:
                w.bad("C26", "log-missing", f"{len(got)} records for upstream log {e['description']}", {"want": e, "faults": fired})
                return
            d = {k: (got[0].get(k), e[k]) for k in LOG_FIELDS if got[0].get(k) != e[k] or type(got[0].get(k)) is not type(e[k])}
            if d or not isinstance(got[0].get("crlite_enrolled"), bool):
                w.bad("C26", "log-differs", f"record of {e['description']} differs from upstream (got, want): {d}", got[0])
                return
        extra = [r["description"] for lid, r in ((i, x[0]) for i, x in byid.items()) if lid not in want and lid not in excused]
        if extra:
            w.bad("C26", "log-left", f"logs that are not listed upstream remain: {extra}")
            return
    c.sample("history", c.trace[:8])


Check("C26", logs_case, "one evaluation per publication judged; distinct ones differ in the number of upstream logs and of records, the defect of the list and the faults", 5000, 200000,
      ["records of the collection are well formed and have distinct log IDs", "what enrollment a newly listed log starts with is not judged"])


# ------------------------------------------------------------------ C27
SCRIPT = lambda *p: os.path.join(REPO, *p)


def script(path, argv, c, limit=20):
    return fakes.run(lambda: fakes.load(path, "__main__", [os.path.dirname(path)]), [path] + argv, limit)


def allocate_history(c, w):
    rng = c.rng
    work = os.path.join(c.scratch, "processing")
    os.makedirs(work)
    if rng.random() < 0.5:  # existing runs
        day = CLOCK.now()
        for _ in range(rng.randint(1, 30)):
            if rng.random() < 0.2:
                day -= datetime.timedelta(days=rng.randint(1, 300))
            w.b[f"{day.strftime('%Y%m%d')}-{rng.choice([0, 1, 2, 3, 9, 10, 11, 99, 100])}/timestamp"] = b"x"
    for x in ("latest/revset.bin", "20260101/x", "readme.txt", "stats-1/x", "tmp/20260101-5/x"):
        if rng.random() < 0.4:
            w.b[x] = b"x"
    ids = lambda: sorted({k.split("/")[0] for k in w.b if re.fullmatch(r"\d{8}-\d+", k.split("/")[0]) and "/" in k}, key=rid_key)
    for _ in range(rng.randint(2, 14)):
        p = rng.random()
        CLOCK.t += rng.choice([1, 600, 3600 * 6, 3600 * 30]) if p < 0.85 else -rng.choice([5, 3600, 3600 * 30])
        have = ids()
        # the listing is chronological
        with fakes.Watch(10):
            m = fakes.publisher()
            got = m.workflow.get_run_identifiers(BUCKET)
        c.eval(f"list/{len(have)}/{STORE.style}")
        if got != have:
            w.bad("C27", "listing-order", f"runs are listed as {got}, chronological order is {have}")
            return
        dirs = os.listdir(work)
        o = script(SCRIPT("workflow", "0-allocate_identifier"), ["--path", work, "--filter-bucket", BUCKET], c)
        c.trace.append(("allocate", str(CLOCK.now()), repr(o), o.out.strip(), have[-3:]))
        if o.kind == "hang":
            w.bad("C27", "allocation-hangs", str(o.exc))
            return
        if o.kind == "failed" or o.code:
            c.count("allocations refused")
            # only an existing directory of that name is a reason
            if not isinstance(o.exc, FileExistsError):
                w.bad("C27", "allocation-fails", f"{o!r}", o.tb)
                return
            continue
        rid = os.path.basename(o.out.strip().splitlines()[-1])
        c.count("allocations")
        c.eval(f"alloc/{len(have)}/{have[-1] > rid if have else ''}")
        if not re.fullmatch(r"\d{8}-\d+", rid):
            w.bad("C27", "bad-identifier", f"allocated {rid!r}")
        elif have and not rid_key(rid) > rid_key(have[-1]):
            w.bad("C27", "not-after-existing", f"at {CLOCK.now()} {rid} was allocated after {have[-1]}, existing {have[-4:]}")
        elif rid in have or rid in dirs:
            w.bad("C27", "allocated-twice", f"{rid} was allocated twice")
        d = os.path.join(work, rid)
        try:
            ts = open(os.path.join(d, "timestamp")).read()
            if abs((RealDatetime.fromisoformat(ts).replace(tzinfo=UTC) - CLOCK.now()).total_seconds()) > 2:
                w.bad("C27", "wrong-timestamp", f"{rid} has timestamp {ts} at {CLOCK.now()}")
        except Exception as e:
            w.bad("C27", "no-timestamp", f"{rid}: {e}")
        if c.viol:
            return
        if rng.random() < 0.8:
            w.b[f"{rid}/timestamp"] = b"x"
        if rng.random() < 0.6:
            import shutil
            shutil.rmtree(d)
    c.sample("allocations", c.trace[:10])


@contextlib.contextmanager
def unreadable(dirs):
    """Listing these directories fails."""
    real = os.scandir, os.listdir

    def guard(f):
        def g(p="."):
            if str(p) in dirs:
                raise OSError(5, "Input/output error", str(p))
            return f(p)
        return g
    os.scandir, os.listdir = guard(os.scandir), guard(os.listdir)
    try:
        yield
    finally:
        os.scandir, os.listdir = real


def upload_history(c, w):
    rng = c.rng
    work = os.path.join(c.scratch, "p")
    for _ in range(rng.randint(1, 3)):
        rid = f"2026010{rng.randint(1, 9)}-{rng.randint(0, 12)}"
        root = os.path.join(work, rid)
        if os.path.isdir(root):
            import shutil
            shutil.rmtree(root)
        os.makedirs(root)
        files = {}

        def put(rel, b=None):
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            files[rel] = b if b is not None else rng.randbytes(rng.randint(0, 200))
            with open(p, "wb") as f:
                f.write(files[rel])
        main = rng.random() < 0.9
        for d in ("clubcard-all", "clubcard-priority"):
            if rng.random() < 0.1 and d != "clubcard-all":
                continue
            for n in ("filter", "filter.delta", "revset.bin", "log/a.log", "z/y/x"):
                if n == "filter" and d == "clubcard-all" and not main:
                    continue
                if rng.random() < 0.85 or n == "filter":
                    put(f"{d}/{n}")
        put("known/2026-01-01/a")
        put("enrolled.json")
        if rng.random() < 0.2:
            os.makedirs(os.path.join(root, "clubcard-all"), exist_ok=True)
            try:
                os.symlink("/etc/hostname", os.path.join(root, "clubcard-all", "link"))
            except FileExistsError:
                pass
        noop = rng.random() < 0.1
        arts = {f"{rid}/{k}": v for k, v in files.items() if k.startswith(("clubcard-all/", "clubcard-priority/"))}
        fired, n = [], [0]
        if rng.random() < 0.6:
            at, kind = rng.randint(0, 14), rng.choice(["refuse", "forbid", "lost", "drop", "cut", "kill", "killed-after"])
            times = rng.choice([1, 1, 3, 1000])

            def plan(op):
                if op["op"] == "list":
                    return None
                n[0] += 1
                if at < n[0] <= at + times:
                    fired.append((kind, op["key"]))
                    return kind
            STORE.faults = Faults(plan)

        def at_upload(op):
            if op["op"] != "upload":
                return
            if noop:
                w.bad("C27", "noop-uploads", f"{op['key']} was uploaded with --noop")
            if os.path.basename(op["key"]) == "completed":
                if op["key"] != f"{rid}/completed":
                    w.bad("C27", "wrong-marker", f"marker {op['key']} for run {rid}")
                missing = [k for k, v in arts.items() if w.b.get(k) != v]
                if not main:
                    w.bad("C27", "marker-without-filter", f"{rid} was marked complete without its main filter")
                if missing:
                    w.bad("C27", "marker-before-artifacts", f"{rid} was marked complete while {missing[:4]} are missing or differ", {"uploads": [(u["op"], u["key"], u["fault"]) for u in STORE.ops]})
        STORE.before = [at_upload]
        w.b.pop(f"{rid}/completed", None)
        for k in [k for k in w.b if k.startswith(rid + "/")]:
            del w.b[k]
        before = dict(w.b)
        STORE.n, STORE.ops = 0, []
        CLOCK.slept = 0
        unread = []
        if rng.random() < 0.15:  # a directory that cannot be listed
            unread = [rng.choice([p for s in ("clubcard-all", "clubcard-priority") for p, _, _ in os.walk(os.path.join(root, s))] or [root])]
        first = rng.random() < 0.2 and not noop
        with unreadable(unread):
            o = script(SCRIPT("workflow", "1-upload_data_to_storage" if first else "3-upload_mlbf_to_storage"), (["--noop"] if noop else []) + ["--filter-bucket", BUCKET, root], c)
        STORE.faults, STORE.before = Faults(), []
        if first:
            c.trace.append(("upload of the data", rid, {"faults": fired[:4], "unreadable": unread}, repr(o), o.tb[-400:]))
            c.count("uploads of the data")
            c.eval(f"first/{len(files)}/{bool(unread)}/{fired[0][0] + str(at) + '/' + str(times) if fired else ''}")
            lost = [k for k, v in files.items() if w.b.get(f"{rid}/{k}") != v]
            if o.code == 0 and lost:
                w.bad("C27", "success-without-data", f"the upload of the data of {rid} succeeded without {lost[:4]}")
            if not fired and not unread and o.code != 0:
                w.bad("C27", "upload-fails", f"{o!r}", o.tb)
            if c.viol:
                return
            continue
        done = f"{rid}/completed" in w.b
        c.trace.append(("upload", rid, {"main filter": main, "noop": noop, "files": len(arts), "faults": fired[:4], "unreadable": unread}, repr(o), o.tb[-400:], {"complete": done}))
        c.count("uploads")
        c.count("uploads completed", int(done))
        for f in fired:
            c.count(f"fault {f[0]}")
        c.count("uploads with an unreadable directory", int(bool(unread)))
        c.eval(f"upload/{bool(unread)}/{main}/{noop}/{len(arts)}/{fired[0][0] + str(at) + '/' + str(times) if fired else ''}")
        ok = o.code == 0
        if o.kind == "hang":
            w.bad("C27", "upload-hangs", str(o.exc))
        if ok and main and not noop and not done:
            w.bad("C27", "success-without-marker", f"the upload of {rid} succeeded without the completion marker")
        if done and o.kind != "killed" and not ok and not any(f[1].endswith("completed") for f in fired):
            w.bad("C27", "marker-despite-failure", f"the upload of {rid} failed ({o!r}) but it is marked complete")
        if not main and ok:
            w.bad("C27", "missing-filter-accepted", f"the upload of {rid} without its main filter succeeded")
        if main and not fired and not unread and not ok:
            w.bad("C27", "upload-fails", f"{o!r}", o.tb)
        if any(f[0] == "forbid" for f in fired) and ok:
            w.bad("C27", "failure-ignored", f"an upload was refused ({fired[:3]}) but the program succeeded")
        if noop and w.b != before:
            w.bad("C27", "noop-uploads", "the bucket changed with --noop")
        if done and main:
            for k, v in files.items():
                if k.startswith("clubcard-all/") and o.kind == "ok" and w.b.get("latest/" + k[len("clubcard-all/"):]) != v:
                    w.bad("C27", "latest-differs", f"latest/ does not hold {k} of the completed run {rid}")
        if c.viol:
            return
    c.sample("uploads", c.trace[:4])


def runid_case(c):
    w = World(c)
    if c.rng.random() < 0.5:
        allocate_history(c, w)
    else:
        upload_history(c, w)


Check("C27", runid_case, "one evaluation per listing, allocation or upload judged; distinct ones differ in the number of existing runs, in the files, the kind and position of the fault", 12000, 400000)


# ------------------------------------------------------------------ C28
BAD_ANSWERS = {
    "null": lambda r, op: None, "empty": lambda r, op: {}, "no data": lambda r, op: {"permissions": {}}, "null data": lambda r, op: {"data": None},
    "empty data": lambda r, op: {"data": {}}, "null status": lambda r, op: {"data": dict(r["data"], status=None)}, "list": lambda r, op: [],
    "text": lambda r, op: "to-review", "data text": lambda r, op: {"data": "to-review"}, "data list": lambda r, op: {"data": ["to-review"]},
}
STATUSES = ["work-in-progress", "to-review", "to-sign", "signed", "to-refresh", "to-resign", "to-rollback", "", "To-Review", "to-review ", "unknown"]


def signoff_case(c):
    rng = c.rng
    w = World(c)
    changes = []
    w.k.on_status.append(lambda coll, old, new, data: changes.append((coll, old, new, sorted(data))))
    if rng.random() < 0.04:
        return signoff_script(c, w)
    tool = rng.random() < 0.6
    for coll in (CRLITE, INTER, CTLOGS):
        w.k.coll(coll)["meta"]["status"] = rng.choice(["to-review"] * 6 + STATUSES if tool else ["work-in-progress"] * 4 + STATUSES)
    answer = rng.choice([None] * 30 + list(BAD_ANSWERS))
    fired = []
    fault = rng.choice([None] * 16 + ["refuse", "drop", "lost", "cut", "kill", "killed-after"])
    fop = rng.choice(["get_collection", "patch_collection"])
    if fault:
        def plan(op):
            if op["op"] == fop:
                fired.append((fault, fop))
                return fault
        w.k.faults = Faults(plan)
    race = rng.choice([None] * 30 + STATUSES)
    raced = []
    if race is not None:
        def h(op):
            if op["op"] in ("patch_collection", "update_collection") and not raced:
                m = w.k.colls[op["coll"]]["meta"]
                raced.append((op["coll"], m["status"], race))
                m["status"], m["last_modified"] = race, w.k.tick()
        w.k.before.append(h)
    if answer:
        w.k.override = {"get_collection": BAD_ANSWERS[answer]}
    start = {n: copy.deepcopy(x) for n, x in w.k.colls.items()}
    if tool:
        arg = rng.choice(["cert-revocations"] * 4 + ["intermediates"] * 4 + ["ct-logs", "x"])
        noop = rng.choice([None] * 8 + ["flag", "env"])
        if noop == "env":
            os.environ["KINTO_NOOP"] = "1"
        elif noop is None:
            os.environ.pop("KINTO_NOOP", None)
        p = SCRIPT("containers", "scripts", "crlite-signoff-tool.py")
        argv = [arg] + (["--noop"] if noop == "flag" else [])
        o = script(p, argv, c)
        os.environ.pop("KINTO_NOOP", None)
        w.k.faults.dead = False
        st = start[arg]["meta"]["status"] if arg in start else None
        c.trace.append(("sign-off", arg, noop, st, {"answer": answer, "fault": fired, "race": raced}, repr(o), o.code, changes))
        c.eval(f"tool/{arg}/{noop}/{st}/{answer}/{fired}/{raced}")
        c.count("sign-off runs")
        c.count("collections signed", len([x for x in changes if x[2] == "to-sign"]))
        for coll, old, new, keys in changes:
            if noop or coll != arg or old != "to-review" or new != "to-sign" or keys != ["status"]:
                w.bad("C28", "wrong-sign-off", f"sign-off of {arg} (noop {noop}) changed {coll} from {old!r} to {new!r} ({keys})")
        for n, x in w.k.colls.items():
            y = start.get(n)
            if x["records"] != (y or {"records": {}})["records"]:
                w.bad("C28", "records-changed", f"sign-off changed records of {n}")
            if y and not any(ch[0] == n for ch in changes) and not any(r[0] == n for r in raced) and x["meta"] != y["meta"]:
                w.bad("C28", "wrong-sign-off", f"sign-off of {arg} changed the collection {n}: {y['meta']} to {x['meta']}")
        known = arg in ("cert-revocations", "intermediates")
        if noop and known:
            if [op for op in w.k.ops if op["mut"]]:
                w.bad("C28", "noop-writes", f"{w.k.ops}")
        elif not known:
            if o.code == 0:
                w.bad("C28", "unknown-collection-accepted", f"collection {arg} was accepted")
        else:
            failed = answer is not None or fired or raced
            if o.kind == "killed":
                pass
            elif failed and o.code == 0 and (answer is not None or fired or (raced and not changes)):
                w.bad("C28", "failure-not-reported", f"sign-off of {arg} reported success although the state could not be read or changed: answer {answer}, {fired}, {raced}")
            elif not failed:
                want = st == "to-review"
                if want != (changes == [(arg, "to-review", "to-sign", ["status"])]) or o.code != 0:
                    w.bad("C28", "not-signed", f"sign-off of {arg} in state {st!r}: changes {changes}, exit {o.code} {o!r}", o.tb)
    else:
        # the publisher's review requests
        for n in (CTLOGS, INTER):
            pass
        key = rng.randbytes(91)
        if rng.random() < 0.5:
            w.log_list = {"operators": [{"name": "Op", "logs": [{"description": "l", "key": base64.b64encode(key).decode(), "log_id": base64.b64encode(hashlib.sha256(key).digest()).decode(),
                         "mmd": 1, "url": "https://l.example/", "state": {"usable": {}}}], "tiled_logs": []}]}
        der = fakes.make_cert(rng, "I")
        path = os.path.join(c.scratch, "e.json")
        with open(path, "w") as f:
            json.dump([{"pem": fakes.pem(der), "subject": "x", "pubKeyHash": base64.urlsafe_b64encode(hashlib.sha256(fakes.Certificate(der).spki).digest()).decode()}] if rng.random() < 0.5 else [], f)
        o = w.main(noop=rng.random() < 0.1, extra=["--enrolled-json", path])
        c.trace.append(("publish", {n: x["meta"]["status"] for n, x in start.items()}, {"answer": answer, "fault": fired, "race": raced}, repr(o), changes))
        c.eval(f"publisher/{[x['meta']['status'] for x in start.values()]}/{answer}/{fired}/{raced}/{changes}")
        for coll, old, new, keys in changes:
            if new != "to-review" or old != "work-in-progress" or keys != ["status"]:
                w.bad("C28", "wrong-review-request", f"the publisher changed {coll} from {old!r} to {new!r} ({keys})")
        if o.kind == "ok" and (answer is not None or any(f[0] != "killed-after" for f in fired)) and any(op["op"] == "get_collection" for op in w.k.ops):
            w.bad("C28", "failure-not-reported", f"the publisher succeeded although a collection's state could not be read or changed: answer {answer}, {fired}")
    c.sample("tool" if tool else "publisher", c.trace[-1])


def signoff_script(c, w):
    """The sign-off job: cert-revocations only below the size limit."""
    import subprocess
    rng = c.rng
    d = c.scratch
    for x in ("bin", "app/scripts", "proc/crlite_db"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    calls = os.path.join(d, "calls")
    py = os.path.join(d, "bin", "python3")
    with open(py, "w") as f:
        f.write(f'#!/bin/bash\necho "$@" >> {calls}\nexit ${{STUB_RC:-0}}\n')
    os.chmod(py, 0o755)
    limit = rng.choice([None, 1000, 5])
    lim = limit or 10485760
    size = rng.choice([None, 0, 1, 4, 5, 6, 999, 1000, 1001, lim, lim + 1, lim - 1])
    if size is not None:
        with open(os.path.join(d, "proc/crlite_db/crlite.filter"), "wb") as f:
            f.truncate(size)
    bucket = rng.choice(["crlite-filters-prod", "crlite-filters-stage", "crlite-filters-dev", "other", ""])
    cred = rng.random() < 0.9
    env = {"PATH": os.path.join(d, "bin") + ":/usr/bin:/bin", "crlite_workflow": SCRIPT("workflow"), "crlite_bin": os.path.join(d, "app"),
           "crlite_processing": os.path.join(d, "proc"), "crlite_filter_bucket": bucket, "HOME": d, "TMPDIR": d}
    if cred:
        env["GOOGLE_APPLICATION_CREDENTIALS"] = "/nonexistent"
    if limit:
        env["max_filter_size"] = str(limit)
    r = subprocess.run(["/bin/bash", SCRIPT("containers", "scripts", "crlite-signoff.sh")], env=env, cwd=d, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
    got = open(calls).read().split("\n") if os.path.exists(calls) else []
    signed = any(g.endswith("cert-revocations") for g in got)
    ok = cred and bucket.startswith("crlite-filters-") and size is not None and size <= lim
    c.trace.append(("job", {"size": size, "limit": limit, "bucket": bucket, "credentials": cred}, r.returncode, got, r.stderr.decode()[-300:]))
    c.eval(f"job/{size}/{limit}/{bucket}/{cred}")
    c.count("sign-off job runs")
    if signed and not ok:
        w.bad("C28", "unchecked-size", f"the job signs cert-revocations with a filter of {size} bytes, limit {lim}, bucket {bucket!r}")
    if ok and (not signed or r.returncode != 0):
        w.bad("C28", "job-does-not-sign", f"the job does not sign cert-revocations with a filter of {size} bytes, limit {lim}", r.stderr.decode()[-500:])
    if not ok and not signed and r.returncode == 0:
        w.bad("C28", "job-hides-failure", f"the job reports success without signing cert-revocations: size {size}, limit {lim}, bucket {bucket!r}")


Check("C28", signoff_case, "one evaluation per run of the sign-off tool, of the sign-off job or of the publisher; distinct ones differ in the states, the answer, the fault and the racing change", 20000, 400000)
