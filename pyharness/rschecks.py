"""C29, C30: the real filter generator, built against builders that record what
they are given, over histories of known and revoked lists, options, previous
revocation sets and I/O faults."""
import base64
import os
import resource
import shutil
import struct
import subprocess

CHECKS = {}
EXE = os.environ.get("VH_RS", "/tmp/rsb/rust-create-cascade")
# The reason codes of each set; every code that is not defined counts as unspecified.
DEFINED = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10}
SETS = {"all": DEFINED, "specified": DEFINED - {0}, "priority": {1, 5, 9}}
norm = lambda r: r if r in DEFINED else 0


class Check:
    level = "fault_enumeration"
    fake_clock = False

    def __init__(self, pid, case, rule, quick, thorough, assume=()):
        self.case, self.rule, self.quick, self.thorough, self.assume = case, rule, quick, thorough, list(assume)
        CHECKS[pid] = self


def in_set(reason, rs):
    return norm(reason) in SETS[rs]


def new_serial(rng, pool):
    p = rng.random()
    if pool and p < 0.25:  # confusable with another one
        s = rng.choice(pool)
        return rng.choice([b"\0" + s, s + b"\0", s[:-1], s[1:], s[::-1], s + s[:1], bytes([s[0] ^ 0x80]) + s[1:] if s else b"\1"])
    if p < 0.35:
        return bytes(rng.randint(1, 21))
    if p < 0.5:
        return rng.randbytes(rng.randint(1, 2))
    return rng.randbytes(rng.choice([1, 4, 8, 16, 19, 20, 20, 20, 21, 32]))


class PKI:
    """Known certificates and revocations, by issuer."""

    def __init__(self, rng):
        self.rng = rng
        self.issuers = []
        self.known = {}     # issuer -> list of (expiry hour, serial)
        self.revoked = {}   # issuer -> list of (reason, serial)
        self.pool = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])):
            self.add_issuer()

    def add_issuer(self):
        rng = self.rng
        i = self.new_id()
        if i in self.issuers:
            return
        self.issuers.append(i)
        if rng.random() < 0.85:
            self.known[i] = [self.cert() for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 30]))]
        if rng.random() < 0.8:
            self.revoked[i] = []
            self.revoke(i, rng.choice([0, 1, 2, 5, 12]))

    def new_id(self):
        rng = self.rng
        i = rng.randbytes(32)
        if self.issuers and rng.random() < 0.3:
            b = bytearray(rng.choice(self.issuers))
            b[rng.choice([0, 31, rng.randrange(32)])] ^= 1 << rng.randrange(8)
            i = bytes(b)
        return i

    def cert(self):
        s = self.rng.choice(self.pool) if self.pool and self.rng.random() < 0.2 else new_serial(self.rng, self.pool)
        s = s or b"\1"
        self.pool.append(s)
        return (self.rng.choice([490000, 490001, 490023, 500000]), s)

    def revoke(self, i, n):
        rng = self.rng
        ks = [s for _, s in self.known.get(i, [])]
        for _ in range(n):
            s = rng.choice(ks) if ks and rng.random() < 0.75 else self.cert()[1]
            self.revoked[i].append((rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 10, 11, 15, 16, 127, 128, 255]), s))

    def step(self):
        """Time passes until the next run."""
        rng = self.rng
        for _ in range(rng.randint(0, 5)):
            p = rng.random()
            i = rng.choice(self.issuers) if self.issuers else None
            if i is None or p < 0.1:
                self.add_issuer()
            elif p < 0.3:
                self.known.setdefault(i, []).append(self.cert())
            elif p < 0.65:
                self.revoked.setdefault(i, [])
                self.revoke(i, rng.randint(1, 3))
            elif p < 0.75 and self.revoked.get(i):  # the reason changes
                k = rng.randrange(len(self.revoked[i]))
                self.revoked[i][k] = (rng.choice([0, 1, 4, 5, 9]), self.revoked[i][k][1])
            elif p < 0.83 and self.revoked.get(i):
                self.revoked[i].pop(rng.randrange(len(self.revoked[i])))
            elif p < 0.9 and self.known.get(i):
                self.known[i].pop(rng.randrange(len(self.known[i])))
            elif p < 0.93:
                self.revoked.pop(i, None)
            elif p < 0.96:
                self.known.pop(i, None)

    def write(self, known, revoked):
        """The lists as aggregate-known and aggregate-crls write them."""
        rng = self.rng
        os.makedirs(known)
        os.makedirs(revoked)
        name = lambda i: base64.urlsafe_b64encode(i).decode()
        for i, certs in self.known.items():
            groups = {}
            for e, s in certs:
                groups.setdefault(e, []).append(s)
            order = list(groups)
            rng.shuffle(order)
            with open(os.path.join(known, name(i)), "w") as f:
                for e in order:
                    f.write("@%x\n" % (e * 3600))
                    for s in groups[e]:
                        f.write(s.hex() + "\n")
        for i, rs in self.revoked.items():
            with open(os.path.join(revoked, name(i)), "w") as f:
                for r, s in rs:
                    f.write("%02x%s\n" % (r, s.hex()))

    def universe(self):
        return {(i, s) for i, cs in self.known.items() for _, s in cs}

    def included(self, rs):
        return {(i, s) for i, x in self.revoked.items() for r, s in x if in_set(r, rs)} & self.universe()


class Bad(Exception):
    pass


def read_filter(path):
    """-> (included, {item: label} of the exact part or the excluded items, coverage or None, blocks)"""
    b = open(path, "rb").read()
    lines = b.decode().split("\n")
    if lines[-1] != "":
        raise Bad("incomplete file")
    inc, exact, cov, uni = set(), {}, None, {}
    if lines[0] == "STUBCASCADE":
        for l in lines[1:-1]:
            t, k = l.split(" ")
            k = bytes.fromhex(k)
            if t == "i":
                inc.add((k[:32], k[32:]))
                exact[(k[:32], k[32:])] = True
            else:
                if exact.setdefault((k[:32], k[32:]), False):
                    raise Bad("a key is included and excluded")
        return inc, exact, None, uni
    if lines[0] != "STUBCLUBCARD":
        raise Bad("no filter")
    cur = None
    for l in lines[1:-1]:
        f = l.split(" ")
        if f[0] == "c":
            cov = bytes.fromhex(f[1])
        elif f[0] == "b":
            cur = bytes.fromhex(f[1])
            uni[cur] = f[2]
        elif f[0] == "a":
            if f[2] != "1":
                raise Bad("an item that is not revoked is in the approximate part")
            inc.add((cur, bytes.fromhex(f[1])))
        else:
            if exact.setdefault((cur, bytes.fromhex(f[1])), f[2] == "1") != (f[2] == "1"):
                raise Bad("an item has both labels")
    return inc, exact, cov, uni


def read_revset(path):
    b = open(path, "rb").read()
    n, = struct.unpack_from("<Q", b, 0)
    at, out = 8, set()
    for _ in range(n):
        m, = struct.unpack_from("<Q", b, at)
        k = b[at + 8:at + 8 + m]
        if len(k) != m:
            raise Bad("truncated revset")
        out.add((k[:32], k[32:]))
        at += 8 + m
    if at != len(b):
        raise Bad("trailing data in the revset")
    return out


def read_stash(path):
    b = open(path, "rb").read()
    at, out = 0, set()
    while at < len(b):
        n, il = struct.unpack_from("<IB", b, at)
        at += 5
        iss = b[at:at + il]
        at += il
        for _ in range(n):
            sl = b[at]
            out.add((iss, b[at + 1:at + 1 + sl]))
            at += 1 + sl
    if at != len(b):
        raise Bad("truncated stash")
    return out


def show(s):
    return sorted((i.hex()[:8], x.hex()) for i, x in s)[:6]


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = open(q, "rb").read()
    return out


def judge_filter(bad, path, want, universe, cov, ftype, what):
    if not os.path.exists(path):
        if ftype == "cascade" and not want:
            return  # an empty cascade is not written
        return bad("no-filter", f"the {what} was not written")
    try:
        inc, exact, c, uni = read_filter(path)
    except (Bad, ValueError, IndexError) as e:
        return bad("malformed-filter", f"{what}: {e}")
    if inc != want:
        return bad("wrong-inclusions", f"{what}: missing {show(want - inc)}, unexpected {show(inc - want)}")
    labels = {k for k, v in exact.items() if v}
    if set(exact) != universe:
        return bad("wrong-universe", f"{what}: missing {show(universe - set(exact))}, unexpected {show(set(exact) - universe)}")
    if labels != want:
        return bad("wrong-labels", f"{what}: missing {show(want - labels)}, unexpected {show(labels - want)}")
    if ftype == "clubcard" and c != cov:
        return bad("wrong-coverage", f"{what}: the coverage is not that of the run's logs")


def generator_case(c):
    rng = c.rng
    pki = PKI(rng)
    d = c.scratch
    ftype = rng.choice(["clubcard", "clubcard", "clubcard", "cascade"])
    rs = rng.choice(list(SETS))
    drs = rng.choice([rs, rs, rng.choice(list(SETS))])
    prev = None     # (path, set) of the revset of the last successful run
    olds = []
    for n in range(rng.randint(1, 5)):
        if n:
            pki.step()
        run = os.path.join(d, f"run{n}")
        known, revoked, out = (os.path.join(run, x) for x in ("known", "revoked", "out"))
        pki.write(known, revoked)
        cov = rng.randbytes(rng.randint(0, 30)) if rng.random() < 0.9 else b""
        logs = os.path.join(run, "ct-logs.json")
        with open(logs, "wb") as f:
            f.write(cov)
        # the previous revocation set
        pstate = rng.choice(["last"] * 6 + ["none", "older", "truncated", "empty", "garbage", "trailing", "directory"])
        pfile, pset = os.path.join(run, "prev.bin"), None
        src = prev
        if pstate == "older" and olds:
            src = rng.choice(olds)
        if pstate != "none" and src:
            b = open(src[0], "rb").read()
            if pstate in ("last", "older"):
                pset = src[1]
            elif pstate == "truncated":
                b = b[:rng.randint(0, len(b) - 1)]
                if not src[1]:
                    b = b[:7]
            elif pstate == "empty":
                b = b""
            elif pstate == "garbage":
                b = b"\xff" * 7 + rng.randbytes(rng.randint(0, 200))
            elif pstate == "trailing":
                b += rng.randbytes(rng.randint(1, 50))
            if pstate == "directory":
                os.makedirs(pfile)
            else:
                with open(pfile, "wb") as f:
                    f.write(b)
        # the state of the output directory
        clobber = rng.random() < 0.7
        existing = []
        if rng.random() < 0.35:
            os.makedirs(out)
            for x in ("filter", "filter.stash", "revset.bin", "filter.delta", "reason_codes.csv", "delta/", "other"):
                if rng.random() < (0.15 if rng.random() < 0.8 else 0.9):
                    existing.append(x)
                    if x == "delta/":
                        os.makedirs(os.path.join(out, "delta"))
                        x += base64.urlsafe_b64encode(rng.randbytes(32)).decode()
                    with open(os.path.join(out, x), "wb") as f:
                        f.write(b"01" + b"00" * rng.randint(1, 9) + b"\n")
        # faults
        fault = rng.choice([None] * 12 + ["no known", "no revoked", "no logs", "fsize", "fsize", "io", "io", "malformed"])
        pre, limit = [], None
        io = None
        if fault in ("no known", "no revoked"):
            shutil.rmtree(known if fault == "no known" else revoked)
        elif fault == "no logs":
            os.unlink(logs)
        elif fault == "fsize":
            limit = rng.choice([0, 1, 8, 20, 60, 100, 200, 500, 1000, 3000])
        elif fault == "io":
            call = rng.choice(["read", "getdents64", "statx", "write", "openat", "close"])
            io = f"{call}:error={rng.choice(['EIO', 'EACCES', 'EMFILE'])}:when={rng.randint(1, 40)}{rng.choice(['', '+'])}"
            pre = ["strace", "-f", "-qq", "-o", os.path.join(run, "strace"), "-P", known, "-P", revoked, "-P", out, "-P", os.path.join(out, "delta")]
            # only calls on the run's own files are hit
            for x, _, fs in [t for top in (known, revoked) for t in os.walk(top)]:
                for f in fs:
                    pre += ["-P", os.path.join(x, f)]
                    if x == known:
                        pre += ["-P", os.path.join(revoked, f), "-P", os.path.join(out, "delta", f)]
            for f in ("filter", "filter.stash", "revset.bin", "filter.delta", "reason_codes.csv"):
                pre += ["-P", os.path.join(out, f)]
            pre += ["-P", pfile, "-P", logs, "-e", f"trace={call}", "-e", f"inject={io}"]
        elif fault == "malformed":
            top = rng.choice([known, revoked])
            fault = "malformed known" if top == known else "malformed revoked"
            fs = sorted(os.listdir(top))
            if fs:
                p = os.path.join(top, rng.choice(fs))
                bad = rng.choice([b"zz00\n", b"0", b"01abc\n", b"xy\n", b"@zz\n", b"\xff\xfe\n", b"\x80"])
                with open(p, "rb") as f:
                    b = f.read()
                at = len(b) if rng.random() < 0.6 else b.find(b"\n") + 1
                with open(p, "wb") as f:
                    f.write(b[:at] + bad + (b"\n" if at < len(b) and not bad.endswith(b"\n") else b"") + b[at:])
            else:
                fault = None
        args = [EXE, "--known", known, "--revoked", revoked, "--ct-logs-json", logs, "--prev-revset", pfile, "--outdir", out,
                "--reason-set", rs, "--delta-reason-set", drs, "--filter-type", ftype, "-" + "v" * rng.randint(1, 3)]
        if clobber:
            args.append("--clobber")
        if rng.random() < 0.2:
            args.append("--murmurhash3")
        if rng.random() < 0.2:
            args += ["--statsd-host", "127.0.0.1:1"]
        if rs == "all" and drs == "all" and rng.random() < 0.3:
            for o in ("--reason-set", "--delta-reason-set"):
                k = args.index(o)
                del args[k:k + 2]
        before = snapshot(out)

        def lim():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            os.environ["RAYON_NUM_THREADS"] = "3"
        try:
            with open(os.path.join(d, "stderr"), "wb") as ef:
                p = subprocess.Popen(pre + args, cwd=run, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=lim,
                                     env=dict(os.environ, RAYON_NUM_THREADS="3", RUST_BACKTRACE="0", HOME=run))
                err = p.communicate(timeout=60)[1].decode(errors="replace")
                rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            c.violation("hang", f"the generator did not end: {fault} {io}")
            return
        universe, want, dwant_all = pki.universe(), pki.included(rs), pki.included(drs)
        injected = io is not None and "(INJECTED)" in open(os.path.join(run, "strace"), errors="replace").read() if io else False
        blocked = not clobber and any(x != "other" for x in existing)
        c.trace.append({"run": n, "type": ftype, "sets": (rs, drs), "certificates": len(universe), "revoked": len(want), "prev": pstate if src else "first", "existing": existing,
                        "clobber": clobber, "fault": fault, "io": io, "injected": injected, "limit": limit, "rc": rc, "err": err[-300:]})
        c.count("generator runs")
        c.count("runs that succeeded", int(rc == 0))
        if fault:
            c.count(f"runs with {'I/O errors that struck' if injected else fault}")
        c.eval(f"{ftype}/{rs}/{drs}/{len(universe)}/{len(want)}/{len(dwant_all)}/{pstate}/{fault}/{io}/{limit}/{existing}/{clobber}")
        c.count("certificates", len(universe))
        c.count("certificates to include", len(want))
        after = snapshot(out)
        if rc < 0 and limit is None and not injected:
            c.violation("crash", f"the generator was ended by signal {-rc}")
            return
        own = lambda k, t: c.violation(k, t, {"trace": c.trace, "stderr": err[-1500:]})
        d29 = own if c.pid == "C29" else lambda k, t: None
        d30 = own if c.pid == "C30" else lambda k, t: None
        if blocked:
            if {k: v for k, v in after.items() if k in before} != before:
                d29("overwritten", f"existing outputs were changed without --clobber: {[k for k in before if after.get(k) != before[k]]}")
            if rc == 0:
                d29("refusal-not-reported", f"success was reported although the outputs {existing} exist and nothing was generated")
        elif rc == 0:
            if fault in ("no known", "no revoked", "malformed known") or (fault == "no logs" and ftype == "clubcard"):
                d29("failure-not-reported", f"success was reported with {fault}: files {sorted(after)}")
            else:
                judge_filter(d29, os.path.join(out, "filter"), want, universe, cov, ftype, "filter")
                # the revocation set and the delta
                try:
                    got = read_revset(os.path.join(out, "revset.bin"))
                    if got != dwant_all:
                        d30("wrong-revset", f"missing {show(dwant_all - got)}, unexpected {show(got - dwant_all)}")
                except (Bad, OSError, struct.error) as e:
                    d30("malformed-revset", str(e))
                deltas = [dwant_all - (pset or set())]
                if pset is None:
                    deltas = [dwant_all]
                    if src and pstate == "trailing":
                        deltas.append(dwant_all - src[1])
                elif fault == "io":
                    deltas.append(dwant_all)  # the previous set could not be read
                try:
                    inc = read_filter(os.path.join(out, "filter.delta"))[0] if os.path.exists(os.path.join(out, "filter.delta")) else set()
                except (Bad, ValueError, IndexError):
                    inc = None
                dw = inc if inc in deltas else deltas[0]
                c.count("delta entries", len(dw))
                judge_filter(d30, os.path.join(out, "filter.delta"), dw, universe, cov, ftype, "delta")
                try:
                    st = read_stash(os.path.join(out, "filter.stash"))
                    if st != dw:
                        d30("wrong-stash", f"missing {show(dw - st)}, unexpected {show(st - dw)}")
                except (Bad, OSError, struct.error, IndexError) as e:
                    d30("malformed-stash", str(e))
        elif fault is None and not injected or (fault == "no logs" and ftype == "cascade"):
            own("fails", f"the generator fails without a reason: exit {rc}: {err[-300:]}")
        if c.viol:
            return
        c.sample(ftype, c.trace[-1])
        if rc == 0 and not blocked:
            p = os.path.join(out, "revset.bin")
            if prev:
                olds.append(prev)
            prev = (p, dwant_all)


RULE = "one evaluation per run of the generator; distinct ones differ in the options, the numbers of certificates and revocations, the previous set and the fault"
A = ["the filter builders are stand-ins that record what they are given; how they compress it is outside"]
Check("C29", generator_case, RULE, 5000, 100000, A)
Check("C30", generator_case, RULE, 5000, 100000, A)
