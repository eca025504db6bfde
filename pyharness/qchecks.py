"""C34, C35: the real query tool, built against stand-ins for its TLS, HTTP and
X.509 libraries, over databases and collections whose content is known."""
import base64
import hashlib
import json
import os
import random
import shutil
import signal
import socket
import struct
import subprocess
import threading
import time

CHECKS = {}
EXE = os.environ.get("VH_RQ", "/tmp/rsb2/rust-query-crlite")
STATUS = ("Expired", "Good", "NotCovered", "NotEnrolled", "Revoked")


class Check:
    level = "exploration"
    fake_clock = False

    def __init__(self, pid, case, rule, quick, thorough, assume=(), level="exploration"):
        self.case, self.rule, self.quick, self.thorough, self.assume, self.level = case, rule, quick, thorough, list(assume), level
        CHECKS[pid] = self


# --- certificates -----------------------------------------------------------

def tlv(tag, *parts):
    b = b"".join(parts)
    n = len(b)
    if n < 128:
        return bytes([tag, n]) + b
    l = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([tag, 0x80 | len(l)]) + l + b


def oid(s):
    a = [int(x) for x in s.split(".")]
    out = bytes([a[0] * 40 + a[1]])
    for x in a[2:]:
        e = [x & 127]
        while x > 127:
            x >>= 7
            e.insert(0, x & 127 | 128)
        out += bytes(e)
    return tlv(6, out)


def name(cn):
    return tlv(0x30, tlv(0x31, tlv(0x30, oid("2.5.4.3"), tlv(12, cn.encode()))))


def spki(key):
    return tlv(0x30, tlv(0x30, oid("1.2.840.10045.2.1"), oid("1.2.840.10045.3.1.7")), tlv(3, b"\0" + key))


def when(t):
    g = time.gmtime(t)
    if 1950 <= g.tm_year < 2050:
        return tlv(0x17, time.strftime("%y%m%d%H%M%SZ", g).encode())
    return tlv(0x18, b"%04d" % g.tm_year + time.strftime("%m%d%H%M%SZ", g).encode())


def sct_list(scts):
    b = b""
    for i, t in scts:
        s = b"\0" + i + struct.pack(">Q", t) + b"\0\0" + b"\4\3\0\2ab"
        b += struct.pack(">H", len(s)) + s
    return tlv(4, struct.pack(">H", len(b)) + b)


def ext(o, value, critical=False):
    return tlv(0x30, oid(o), tlv(1, b"\xff") if critical else b"", tlv(4, value))


def cert(serial, issuer, subject, key, nb, na, exts, signer, forge=None):
    alg = tlv(0x30, oid("1.2.840.10045.4.3.2"))
    tbs = tlv(0x30, tlv(0xa0, tlv(2, b"\2")), tlv(2, serial), alg, issuer, tlv(0x30, when(nb), when(na)), subject, key,
              tlv(0xa3, tlv(0x30, *exts)) if exts else b"")
    sig = hashlib.sha256(b"signature" + signer + tbs).digest()
    if forge is not None:
        sig = forge(sig)
    return tlv(0x30, tbs, alg, tlv(3, b"\0" + sig))


def pem(der, rng=None):
    b = base64.b64encode(der).decode()
    nl = "\r\n" if rng and rng.random() < 0.2 else "\n"
    return f"-----BEGIN CERTIFICATE-----{nl}" + nl.join(b[i:i + 64] for i in range(0, len(b), 64)) + f"{nl}-----END CERTIFICATE-----{nl}"


RT0, RT1 = 1.5e9, 4e9  # a long validity
SCT = "1.3.6.1.4.1.11129.2.4.2"
NEAR = ("1.3.6.1.4.1.11129.2.4.3", "1.3.6.1.4.1.11129.2.4.5", "2.5.29.15")


# --- what a filter says -----------------------------------------------------

class Filter:
    """The content of one filter file and what it answers."""

    def __init__(self, cov, blocks):
        self.cov, self.blocks = cov, blocks  # log -> (first, last); issuer key hash -> serial -> revoked
        self.bytes = self.encode()

    def encode(self):
        c = [{"LogID": base64.b64encode(i).decode(), "MinTimestamp": a, "MaxTimestamp": b} for i, (a, b) in self.cov.items()]
        out = ["STUBCLUBCARD", "c " + json.dumps(c).encode().hex()]
        for i, items in self.blocks.items():
            out.append(f"b {i.hex()} {len(items)}")
            out += [f"a {s.hex()} 1" for s, r in items.items() if r]
            out += [f"x {s.hex()} {int(r)}" for s, r in items.items()]
        return ("\n".join(out) + "\n").encode()

    def answer(self, issuer, serial, scts):
        if not any(i in self.cov and self.cov[i][0] <= t <= self.cov[i][1] for i, t in scts):
            return "NotCovered"
        if issuer not in self.blocks:
            return "NotEnrolled"
        items = self.blocks[issuer]
        odd = 0
        for b in serial:
            odd ^= b
        odd = bin(odd).count("1") % 2 == 1
        if serial in items:
            r = items[serial]
        else:
            r = odd
        return "Revoked" if r else "Good"


class World:
    """Issuers, logs, filters and certificates."""

    def __init__(self, rng):
        self.rng = rng
        self.now = time.time()
        self.logs = [rng.randbytes(32) for _ in range(rng.randint(1, 4))]
        self.dns = [name(f"CA {k}") for k in range(rng.randint(1, 4))]
        self.keys = [spki(rng.randbytes(32)) for _ in range(rng.randint(1, 5))]
        self.ca = []       # (DN, SPKI, certificate)
        for _ in range(rng.randint(1, 7)):
            dn, key = rng.choice(self.dns), rng.choice(self.keys)
            root = spki(b"root")
            self.ca.append((dn, key, cert(rng.randbytes(8), name("root"), dn, key, self.now - 1e6, self.now + rng.choice([1e6, -10]), [], root)))
        self.serials = []
        self.enrolled = [c for c in self.ca if rng.random() < 0.75]
        self.day, self.rev = 20260101, rng.choice([0, 8, 9])

    def serial(self):
        rng = self.rng
        if self.serials and rng.random() < 0.5:
            s = rng.choice(self.serials)
            if rng.random() < 0.25:
                s = rng.choice([b"\0" + s, s + b"\0", s[:-1] or s, s[::-1]])
        else:
            s = rng.randbytes(rng.choice([1, 2, 8, 16, 20]))
        self.serials.append(s)
        return s

    def stamp(self):
        return int(self.now * 1000) - self.rng.choice([0, 1, 1000, 10**6, 10**8, 10**9])

    def filter(self, empty=False):
        rng = self.rng
        cov = {}
        for l in self.logs:
            if rng.random() < 0.8:
                a, b = sorted((self.stamp(), self.stamp()))
                cov[l] = (a if rng.random() < 0.5 else 0, b)
        blocks = {}
        if not empty:
            for k in self.keys:
                if rng.random() < 0.7:
                    blocks[hashlib.sha256(k).digest()] = {self.serial(): rng.random() < 0.5 for _ in range(rng.choice([0, 1, 3, 8]))}
        return Filter(cov, blocks)

    def subject(self, filters):
        """A certificate to ask about: (its bytes, the right answer, what it is)."""
        rng = self.rng
        dn, key, _ = rng.choice(self.ca)
        note = []
        if rng.random() < 0.08:
            dn = rng.choice(self.dns + [name("nobody")])
        if rng.random() < 0.08:
            key = rng.choice(self.keys)
        ser = self.serial()
        scts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            l = rng.choice(self.logs) if rng.random() < 0.9 else rng.randbytes(32)
            t = self.stamp()
            edges = [x for f in filters for i, p in f.cov.items() if i == l for x in p]
            if edges and rng.random() < 0.4:
                t = max(0, rng.choice(edges) + rng.choice([-1, 0, 0, 1]))
            scts.append((l, t))
        exts = [ext(rng.choice(NEAR), sct_list([(rng.choice(self.logs), self.stamp())])) for _ in range(rng.choice([0, 0, 1]))]
        p = rng.random()
        if p < 0.04:
            note.append("two SCT extensions")
            exts += [ext(SCT, sct_list(scts)), ext(SCT, sct_list(scts))]
            scts = []
        elif p < 0.08:
            note.append("broken SCT extension")
            exts.append(ext(SCT, rng.choice([b"", b"\4\3\0\5a", sct_list(scts)[:-1] if scts else b"\4\1\0", tlv(4, b"\0\4\0\2ab")])))
            scts = []
        elif scts or rng.random() < 0.3:
            exts.append(ext(SCT, sct_list(scts), rng.random() < 0.2))
        rng.shuffle(exts)
        nb, na = self.now - rng.choice([3600, 10**6, 10**8]), self.now + rng.choice([3600, 10**6, 10**9])
        p = rng.random()
        if p < 0.06:
            na = self.now - rng.choice([120, 10**5])
            note.append("expired")
        elif p < 0.09:
            nb = self.now + rng.choice([600, 10**5])
            note.append("not yet valid")
        forge = None
        if rng.random() < 0.06:
            forge = rng.choice([lambda s: bytes([s[0] ^ 1]) + s[1:], lambda s: s[:-1], lambda s: b"", lambda s: hashlib.sha256(s).digest()])
            note.append("bad signature")
        der = cert(ser, dn, name("leaf"), spki(rng.randbytes(8)), nb, na, exts, key, forge)
        known = any(d == dn and k == key for d, k, _ in self.enrolled) and forge is None
        answers = [f.answer(hashlib.sha256(key).digest(), ser, scts) for f in filters]
        if not filters:
            right = "NotCovered"
        elif not known:
            right = "NotEnrolled"
        elif na < self.now or nb > self.now:
            right = "Expired"
        else:
            right = next((s for s in ("Revoked", "Good", "NotEnrolled") if s in answers), "NotCovered")
        return der, right, {"note": note, "serial": ser.hex(), "answers": answers, "issuer known": known, "scts": [(i.hex()[:8], t) for i, t in scts]}

    def enrolled_json(self):
        rng = self.rng
        out = [{"uniqueID": f"u{k}", "pem": pem(c, rng), "more": 1} for k, (_, _, c) in enumerate(self.enrolled)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.insert(rng.randint(0, len(out)), {"uniqueID": "bad", "pem": rng.choice(["", "junk", pem(b"\x30\x03\1\2\3"), "-----BEGIN CERTIFICATE-----\n!!\n-----END CERTIFICATE-----\n"])})
        return json.dumps(out).encode()

    def enrolled_map(self):
        m = {}
        for dn, _, c in self.enrolled:
            m.setdefault(dn, []).append(c)
        return m

    def enrolled_file(self):
        m = self.enrolled_map()
        b = struct.pack("<Q", len(m))
        v = lambda x: struct.pack("<Q", len(x)) + x
        for dn, cs in m.items():
            b += v(dn) + struct.pack("<Q", len(cs)) + b"".join(v(c) for c in cs)
        return b

    def next_run(self):
        if self.rng.random() < 0.4:
            self.day += 1
            self.rev = 0
        else:
            self.rev += 1
        return f"{self.day}-{self.rev}"


def read_enrolled(b):
    at, m = 8, {}
    n, = struct.unpack_from("<Q", b, 0)

    def vec():
        nonlocal at
        k, = struct.unpack_from("<Q", b, at)
        at += 8 + k
        return b[at - k:at]
    for _ in range(n):
        dn = vec()
        k, = struct.unpack_from("<Q", b, at)
        at += 8
        m[dn] = [vec() for _ in range(k)]
    return m if at == len(b) else None


# --- servers ----------------------------------------------------------------

class Server:
    """Answers one connection at a time; handler(line) gives the bytes to send
    or None to hang up."""

    def __init__(self, handler):
        self.handler = handler
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            try:
                c.settimeout(20)
                b = b""
                while b"\n" not in b:
                    x = c.recv(4096)
                    if not x:
                        break
                    b += x
                out = self.handler(b.split(b"\n")[0].decode(errors="replace").strip())
                if out is not None:
                    c.sendall(out)
                    c.shutdown(socket.SHUT_WR)
                    while c.recv(4096):
                        pass
                else:
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            finally:
                c.close()

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        self.t.join(5)


def http(body, status=200, length=None):
    return f"HTTP/1.0 {status} X\r\nContent-Type: x\r\nContent-Length: {len(body) if length is None else length}\r\n\r\n".encode() + body


def query(c, args, db, web=None, timeout=60):
    env = {"PATH": "/usr/bin:/bin", "HOME": c.scratch}
    if web:
        env["VH_HTTP"] = f"127.0.0.1:{web.port}"
    p = subprocess.run([EXE, "-d", db] + args, env=env, cwd=c.scratch, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL)
    return p.returncode, p.stderr.decode(errors="replace")


def reported(err):
    out = []
    for l in err.splitlines():
        f = l.split(" ")
        if len(f) >= 3 and f[0] == "INFO" and f[-1] in STATUS:
            out.append((" ".join(f[1:-1]), f[-1]))
    return out


# --- C34 --------------------------------------------------------------------

def c34_case(c):
    rng = c.rng
    w = World(rng)
    db = os.path.join(c.scratch, "db")
    shutil.rmtree(c.scratch, ignore_errors=True)
    os.makedirs(db)

    def bad(key, desc, **detail):
        c.violation(key, desc, detail)
    filters = []
    nf = rng.choice([0, 1, 1, 2, 3, 5])
    for k in range(nf):
        f = w.filter(rng.random() < 0.1)
        run = w.next_run()
        fn = f"{run}-default.filter" if k == 0 else f"{run}-default.filter.delta"
        open(os.path.join(db, fn), "wb").write(f.bytes)
        filters.append(f)
    last = f"{w.day}-{w.rev}"
    for n in ("notes.txt", "crlite.filter.bak", "old.stash", "filter", "delta"):
        if rng.random() < 0.3:
            open(os.path.join(db, n), "wb").write(rng.choice([b"", b"junk", w.filter().bytes]))
    damaged = None
    if nf and rng.random() < 0.08:
        damaged = rng.choice([x for x in sorted(os.listdir(db)) if x.endswith((".filter", ".delta"))])
        b = open(os.path.join(db, damaged), "rb").read()
        open(os.path.join(db, damaged), "wb").write(rng.choice([b"", b[3:], b"junk", b + b"junk\n"]))
    asked = []

    def serve(line):
        f = line.split(" ")
        path = f[1] if len(f) > 1 else ""
        asked.append(path)
        if path.startswith("/https/storage.googleapis.com/") and path.endswith(f"/{last}/enrolled.json"):
            return http(w.enrolled_json())
        if path in pages:
            return pages[path]
        return http(b"not found", 404)
    pages = {}
    web = Server(serve)
    tls = []
    try:
        if rng.random() < 0.75 or not nf:
            if nf or rng.random() < 0.5:
                open(os.path.join(db, "crlite.intermediates"), "wb").write(w.enrolled_file())
                how = "intermediates on disk"
            else:
                how = "no filters and no intermediates"
        else:
            how = "intermediates fetched"
        c.count(how)
        mode = rng.choice(["x509"] * 5 + ["https", "https", "signoff", "crtsh"])
        want, infos, fails = [], [], False
        args = []
        if mode == "x509":
            for k in range(rng.choice([0, 1, 1, 2, 4, 8])):
                p = os.path.join(c.scratch, f"cert {k}.{rng.choice(['pem', 'crt', 'der'])}")
                args.append(p)
                r = rng.random()
                if r < 0.06:
                    continue  # there is no such file
                if r < 0.12:
                    open(p, "wb").write(rng.choice([b"", b"junk", b"\x30\x82", pem(b"\x30\3\2\1\1").encode()]))
                    continue
                if r < 0.14:
                    os.mkdir(p)
                    continue
                der, right, info = w.subject(filters)
                r = rng.random()
                open(p, "wb").write(pem(der, rng).encode() if r < 0.4 else b"Some text\n" + pem(der).encode() if r < 0.5 else der)
                want.append((p, right))
                infos.append(info)
        elif mode == "crtsh":
            i = str(rng.randint(1, 10**10))
            args = [i]
            der, right, info = w.subject(filters)
            r = rng.random()
            body = pem(der, rng).encode() if r < 0.6 else der
            page = http(body)
            if r > 0.8:
                fails = True
                page = rng.choice([http(b"gone", 404), http(body[:20]), http(body, length=len(body) + 9), None])
            else:
                want.append((i, right))
                infos.append(info)
            pages[f"/https/crt.sh/?d={i}"] = page
        else:
            hosts = []
            for k in range(rng.choice([0, 1, 1, 2, 4])):
                der, right, info = w.subject(filters)
                r = rng.random()
                plan = [der, der]
                if r < 0.15:
                    plan = [None, der]      # the first connection is reset
                elif r < 0.22:
                    plan = [None, None]
                elif r < 0.26:
                    plan = [b"junk", b"junk"]
                chain = [w.subject(filters)[0] for _ in range(rng.choice([0, 1, 2]))]

                def hello(line, plan=plan, chain=chain):
                    p = plan.pop(0) if len(plan) > 1 else plan[0]
                    if p is None:
                        return None
                    return b"".join(f"{len(x)}\n".encode() + x for x in [p] + chain)
                s = Server(hello)
                tls.append(s)
                h = rng.choice(["127.0.0.1", "localhost"])
                hosts.append(f"{h}:{s.port}")
                if fails:
                    continue
                if plan[-1] in (None, b"junk"):
                    fails = True
                else:
                    want.append((h, right))
                    infos.append(info)
            if rng.random() < 0.05:
                hosts.append(rng.choice(["127.0.0.1:99999", "127.0.0.1:x", "127.0.0.1:0"]))
                fails = True
            args = hosts
            if mode == "signoff":
                lines = []
                for h in hosts:
                    lines += rng.choice([[], [], [""], ["# a comment"], ["#" + h], ["   "], [" # x"]])
                    lines.append(rng.choice(["", "  ", "\t"]) + h + rng.choice(["", " ", "\r"]))
                pages["/http/hosts.example/list"] = http("\n".join(lines).encode() + rng.choice([b"", b"\n"]))
                if rng.random() < 0.06:
                    pages["/http/hosts.example/list"] = None
                    want, infos, fails = [], [], True
                args = ["http://hosts.example/list"]
        opts = rng.choice([[], [], [], ["-v"], ["-vv"], ["-q"]])
        if rng.random() < 0.1:
            opts = opts + ["--channel", rng.choice(["default", "compat"])]
        if damaged:
            want, infos, fails = [], [], True
        rc, err = query(c, opts + [mode] + args, db, web)
        got = reported(err)
        detail = dict(mode=mode, args=args, options=opts, stderr=err[-3000:], want=want, about=infos, how=how, damaged=damaged)
        if rc not in (0, 1) or "panicked" in err:
            bad("crash", f"the tool ended with status {rc}: {err[-300:]}", **detail)
            return
        if "-q" not in opts:
            if len(got) != len(want):
                bad("not-reported", f"{mode}: {len(want)} certificates have an answer, the tool reported {len(got)}", **detail)
            for (g, gs), (n, ns), info in zip(got, want, infos):
                if g != n:
                    bad("wrong-name", f"{mode}: an answer for {g!r} where one for {n!r} was due", **detail)
                elif gs != ns:
                    bad("wrong-answer", f"{mode}: {n!r} ({', '.join(info['note']) or 'plain'}) is {ns}, the tool says {gs}; the filters say {info['answers']}, the issuer is {'' if info['issuer known'] else 'not '}known", **detail)
        revoked = any(s == "Revoked" for _, s in want)
        expect = 1 if fails or revoked else 0
        if rc != expect:
            bad("exit-status", f"{mode}: exit status {rc}, but {'a certificate is revoked' if revoked else 'the query could not be answered' if fails else 'nothing is revoked'}", **detail)
        for s in asked:
            if "/records" in s or "attachments" in s:
                bad("unasked-update", f"a query without --update requested {s}", **detail)
        for (_, s), info in zip(want, infos):
            c.eval(repr((s, tuple(info["answers"]), tuple(info["note"]), mode, how)))
            c.count("answers " + s)
            for x in info["note"]:
                c.count("certificates " + x)
        if fails:
            c.eval(repr(("fails", mode, bool(damaged))))
            c.count("queries that fail")
        c.count("mode " + mode)
        c.sample("query", {"mode": mode, "answers": [s for _, s in want], "exit": rc, "filters": nf})
    finally:
        web.close()
        for s in tls:
            s.close()


Check("C34", c34_case,
      "Each case builds a database of 0-5 filters of known content, a list of enrolled intermediates (shared names, shared keys, unparsable entries), certificates (names, keys, signatures, SCTs at the edges of coverage, serials differing by zeros, validity, encodings) and asks the real tool about them by file, TLS connection, host list or crt.sh. Every answer and the exit status are compared with what the filters say. One evaluation per certificate or failing query.",
      15000, 300000, ["TLS, HTTP, X.509 and filter libraries are stand-ins"])


# --- C35 --------------------------------------------------------------------

class Instance:
    """One Remote Settings instance: its records, attachments and runs."""

    def __init__(self, rng):
        self.rng = rng
        self.w = World(rng)
        self.records, self.att, self.runs = [], {}, {}
        self.chan = {"default": [], "compat": []}  # channel -> [(file name, Filter)]
        for _ in range(rng.choice([1, 1, 2, 4])):
            self.publish()

    def publish(self):
        """One run is published."""
        rng, w = self.rng, self.w
        run = w.next_run()
        for c in w.ca:
            if rng.random() < 0.15:
                if c in w.enrolled:
                    w.enrolled.remove(c)
                else:
                    w.enrolled.append(c)
        self.runs[run] = (w.enrolled_json(), w.enrolled_map())
        for ch, fs in self.chan.items():
            if fs and rng.random() < 0.1:
                continue  # this channel is left alone
            f = w.filter()
            if not fs or rng.random() < 0.15:
                fs[:] = [(f"{run}-{ch}.filter", f)]
            else:
                fs.append((f"{run}-{ch}.filter.delta", f))
        self.build()

    def build(self):
        rng = self.rng
        self.records = []
        for ch, fs in self.chan.items():
            for n, f in fs:
                loc = f"security-state-staging/cert-revocations/{hashlib.sha256(n.encode() + f.bytes).hexdigest()[:12]}.x"
                self.att[loc] = f.bytes
                r = {"id": n, "incremental": n.endswith(".delta"), "attachment": {"hash": hashlib.sha256(f.bytes).hexdigest(), "filename": n, "location": loc, "size": len(f.bytes)}}
                if ch != "default" or rng.random() < 0.7:
                    r["channel"] = ch  # a record without a channel is of the default one
                elif rng.random() < 0.3:
                    r["channel"] = None
                self.records.append(r)
        rng.shuffle(self.records)

    def run_of(self, ch):
        def k(n):
            d, r = n.split("-")[:2]
            return d, int(r)
        return "%s-%d" % max(k(n) for n, _ in self.chan[ch])


FAULTS = ("hang up", "cut", "500", "other content", "empty")


def c35_case(c):
    rng = c.rng
    shutil.rmtree(c.scratch, ignore_errors=True)
    db = os.path.join(c.scratch, "db")
    os.makedirs(c.scratch)
    if rng.random() < 0.5:
        os.mkdir(db)
    inst = {"prod": Instance(rng), "stage": Instance(rng)}
    hosts = {"firefox.settings.services.mozilla.com": "prod", "firefox.settings.services.allizom.org": "stage"}
    cdn = {"firefox-settings-attachments.cdn.mozilla.net": "prod", "firefox-settings-attachments.cdn.allizom.org": "stage"}
    st = {}

    def serve(line):
        f = line.split(" ")
        p = (f[1] if len(f) > 1 else "").split("/")
        k = st["n"]
        st["n"] += 1
        body = None
        kind = "other"
        if len(p) > 3 and p[1] == "https":
            if p[2] in hosts and p[-2:] == ["cert-revocations", "records"]:
                kind, body = "records", json.dumps({"data": inst[hosts[p[2]]].records}).encode()
            elif p[2] in cdn:
                kind, body = "attachment", inst[cdn[p[2]]].att.get("/".join(p[3:]))
            elif p[-1] == "enrolled.json":
                kind = "enrolled"
                i = inst[st["which"]]
                if p[-2] in i.runs:
                    body = i.runs[p[-2]][0]
        st["log"].append((kind, line))
        plan = st["plan"].get(k)
        if plan == "kill":
            while st["proc"] is None:
                time.sleep(0.001)
            st["proc"].kill()
            st["hit"].append((kind, plan))
            return None
        if body is None:
            return http(b'{"code": 404}', 404)
        if plan is None:
            return http(body)
        st["hit"].append((kind, plan))
        if plan == "hang up":
            return None
        if plan == "cut":
            return http(body[:len(body) // 2], length=len(body))
        if plan == "500":
            return http(b'{"code": 500}', 500)
        if plan == "empty":
            return http(b"")
        b = bytearray(body)
        if kind == "attachment":
            b[rng.randrange(len(b))] ^= 1
        else:
            b = b[:len(b) // 2]
        return http(bytes(b))
    web = Server(serve)
    held = {}   # name -> content, of the files that are in the database

    def snapshot():
        out = {}
        for n in sorted(os.listdir(db)) if os.path.isdir(db) else []:
            p = os.path.join(db, n)
            out[n] = open(p, "rb").read() if os.path.isfile(p) else None
        return out
    isf = lambda n: n.endswith(".filter") or n.endswith(".delta")
    try:
        for step in range(rng.randint(1, 6)):
            which = rng.choice(["prod", "prod", "stage"])
            ch = rng.choice(["default", "default", "compat"])
            i = inst[which]
            if step and rng.random() < 0.8:
                for _ in range(rng.choice([1, 1, 2])):
                    i.publish()
            records = i.records
            # What happened to the database since.
            if os.path.isdir(db):
                for n in list(snapshot()):
                    p, r = os.path.join(db, n), rng.random()
                    if not os.path.isfile(p):
                        continue
                    if r < 0.05:
                        b = open(p, "rb").read()
                        open(p, "wb").write(rng.choice([b[:len(b) // 2], b"", b + b"x", b[::-1]]))
                    elif r < 0.09:
                        os.remove(p)
                for n in ("notes.txt", "old.filter", "older.delta", "keep.stash", "filter.bak"):
                    if rng.random() < 0.15:
                        open(os.path.join(db, n), "wb").write(rng.randbytes(5))
            # A collection that is not to be used.
            spoiled = None
            if rng.random() < 0.12:
                mine = [r for r in records if (r.get("channel") or "default") == ch]
                full = next(r for r in mine if not r["incremental"])
                spoiled = rng.choice(["no full filter", "two full filters", "no records", "bad digest", "no attachment"])
                if spoiled == "no full filter":
                    i.records = [r for r in records if r is not full]
                elif spoiled == "two full filters":
                    o = dict(full, attachment=dict(full["attachment"], filename="20250101-0-x.filter"))
                    i.records = records + [o]
                elif spoiled == "no records":
                    i.records = [r for r in records if r not in mine]
                elif spoiled == "bad digest":
                    x = rng.choice(mine)
                    h = x["attachment"]["hash"]
                    i.records = [r if r is not x else dict(r, attachment=dict(r["attachment"], hash=rng.choice(["zz", "", h[:-2], h[:-1] + ("0" if h[-1] != "0" else "1"), h + "00"]))) for r in records]
                else:
                    x = rng.choice(records)
                    i.records = [r if r is not x else {k: v for k, v in r.items() if k != "attachment"} for r in records]
            before = snapshot()
            st.update(n=0, log=[], hit=[], which=which, plan={}, proc=None)
            if rng.random() < 0.5:
                for k in range(rng.choice([1, 1, 2])):
                    st["plan"][rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])] = rng.choice(FAULTS + ("kill",))
            args = ["--update", which]
            if ch != "default" or rng.random() < 0.5:
                args += ["--channel", ch]
            subjects = []
            for k in range(3):
                der, _, info = i.w.subject([f for _, f in i.chan[ch]])
                p = os.path.join(c.scratch, f"s{step}-{k}.crt")
                open(p, "wb").write(der)
                subjects.append((p, info))
            env = {"PATH": "/usr/bin:/bin", "HOME": c.scratch, "VH_HTTP": f"127.0.0.1:{web.port}"}
            p = subprocess.Popen([EXE, "-d", db, "-v"] + args + ["x509"], env=env, cwd=c.scratch, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            st["proc"] = p
            err = p.communicate(timeout=60)[1].decode(errors="replace")
            after = snapshot()
            i.records = records
            killed = p.returncode == -signal.SIGKILL
            want = {n: f.bytes for n, f in i.chan[ch]}
            detail = dict(step=step, which=which, channel=ch, spoiled=spoiled, plan=st["plan"], requests=st["log"], stderr=err[-2000:],
                          before={n: hashlib.sha256(b or b"").hexdigest()[:8] for n, b in before.items()}, after={n: hashlib.sha256(b or b"").hexdigest()[:8] for n, b in after.items()},
                          listed={n: hashlib.sha256(b).hexdigest()[:8] for n, b in want.items()})
            c.trace.append(f"step {step}: update {which} {ch}, plan {st['plan']}, spoiled {spoiled}, status {p.returncode}")
            say = f"step {step}, {which} {ch}: "
            if "panicked" in err or (p.returncode not in (0, 1) and not killed):
                c.violation("crash", say + f"the tool ended with status {p.returncode}: {err[-200:]}", detail)
                return
            # Whatever happened, nothing wrong is stored and nothing else is touched.
            for n, b in after.items():
                if isf(n) and b != want.get(n) and not (n in before and before[n] == b):
                    c.violation("wrong-content-stored", say + f"{n} was stored with a content that is not the published one", detail)
                if not isf(n) and n != "crlite.intermediates" and before.get(n, b) != b:
                    c.violation("other-file-changed", say + f"{n} was changed", detail)
            for n in before:
                if n not in after and (not isf(n) or n in want and before[n] == want[n]):
                    c.violation("removed", say + f"{n} was removed", detail)
            em = None
            if after.get("crlite.intermediates") is not None:
                try:
                    em = read_enrolled(after["crlite.intermediates"])
                except (struct.error, OverflowError):
                    em = None
            new = i.runs[i.run_of(ch)][1]
            if em != new and after.get("crlite.intermediates") != before.get("crlite.intermediates"):
                if not (st["hit"] and p.returncode != 0 and em in [m for _, m in i.runs.values()]):
                    c.violation("wrong-intermediates", say + f"the stored intermediates are not those of the newest run {i.run_of(ch)}", detail)
            if spoiled in ("no full filter", "two full filters", "no records") and not st["hit"]:
                if {n: b for n, b in after.items() if isf(n)} != {n: b for n, b in before.items() if isf(n)}:
                    c.violation("unusable-collection-used", say + f"a collection with {spoiled} changed the database", detail)
            if p.returncode == 0:
                have = {n: b for n, b in after.items() if isf(n)}
                if spoiled not in (None, "no attachment") and not (spoiled == "bad digest"):
                    c.violation("unusable-collection-accepted", say + f"an update from a collection with {spoiled} succeeded", detail)
                elif spoiled == "bad digest":
                    c.violation("bad-digest-accepted", say + "an update with a digest that does not match succeeded", detail)
                if have != want:
                    d = sorted(set(have) ^ set(want)) or [n for n in want if have[n] != want[n]]
                    c.violation("database-differs", say + f"the update succeeded, but the database differs from the channel in {d[:4]}", detail)
                if em != new:
                    c.violation("wrong-intermediates", say + f"the update succeeded, but the intermediates are not those of the newest run {i.run_of(ch)}", detail)
                c.count("updates that succeed")
                # The database answers as the channel does.
                q = subprocess.run([EXE, "-d", db, "x509"] + [s for s, _ in subjects], env=env, cwd=c.scratch, capture_output=True, timeout=60)
                got = reported(q.stderr.decode(errors="replace"))
                for (s, info), (g, gs) in zip(subjects, got):
                    if ("Revoked" in info["answers"]) != (gs == "Revoked") and gs not in ("NotEnrolled", "Expired"):
                        c.violation("wrong-answer", say + f"after the update a certificate is {gs}, the filters of the channel say {info['answers']}", detail)
                if len(got) != len(subjects):
                    c.violation("not-reported", say + f"{len(got)} of {len(subjects)} certificates were reported after the update", detail)
            elif not killed:
                c.count("updates that fail")
                if not st["hit"] and not spoiled:
                    c.violation("fails", say + f"the update failed although nothing was wrong: {err[-300:]}", detail)
                if "ERROR" not in err:
                    c.violation("silent", say + "the update failed without saying so", detail)
            else:
                c.count("updates killed")
            for k, pl in st["hit"]:
                c.count(f"fault {pl} at {k}")
            if spoiled:
                c.count("collections with " + spoiled)
            c.count("requests", len(st["log"]))
            c.eval(repr((which, ch, spoiled, sorted(st["hit"]), len(want), len(set(before) & set(want)), p.returncode)))
            c.sample("update", {"instance": which, "channel": ch, "faults": st["hit"], "collection": spoiled or "fine", "status": p.returncode, "files": len(want)})
    finally:
        web.close()


Check("C35", c35_case,
      "Each case is a history of 1-6 updates of one database from two instances and two channels whose runs, full filters and deltas keep changing, with files damaged, removed and added in between, collections that are not to be used, and requests that hang, are cut, fail, answer something else or kill the tool. After each update the database, the intermediates and the exit status are compared with what was published; after a good one certificates are asked about. One evaluation per update.",
      8000, 120000, ["TLS, HTTP, X.509 and filter libraries are stand-ins"], "fault_enumeration")
