"""Stand-ins for everything outside the repository that its Python programs
talk to: the clock, Google Cloud Storage, Remote Settings (Kinto), HTTP and the
libraries in front of them. The programs themselves run unmodified."""
import base64
import copy
import datetime as _dt
import hashlib
import importlib
import importlib.machinery
import io
import json
import os
import random
import signal
import sys
import time as _time
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
real_sleep, real_monotonic = _time.sleep, _time.monotonic
RealDatetime = _dt.datetime
UTC = _dt.timezone.utc


class Hang(BaseException):
    """The code under test did not finish."""


class Killed(BaseException):
    """The process running the code under test ended at this point."""


# ---------------------------------------------------------------- clock
class Clock:
    def __init__(self):
        self.t = 0.0
        self.hooks = []
        self.slept = 0

    def set(self, dt):
        self.t = dt.timestamp()

    def now(self):
        return RealDatetime.fromtimestamp(self.t, UTC)

    def sleep(self, s):
        self.t += max(0.0, float(s))
        self.slept += 1
        if self.slept > 100000:
            raise Hang("sleeps without end")
        for h in list(self.hooks):
            h()


CLOCK = Clock()


class FakeDatetime(RealDatetime):
    @classmethod
    def now(cls, tz=None):
        d = CLOCK.now()
        d = d.astimezone(tz) if tz else d.replace(tzinfo=None)
        return cls._of(d)

    @classmethod
    def utcnow(cls):
        return cls._of(CLOCK.now().replace(tzinfo=None))

    @classmethod
    def today(cls):
        return cls.utcnow()

    @classmethod
    def _of(cls, d):
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo)


class FakeDate(_dt.date):
    @classmethod
    def today(cls):
        d = CLOCK.now()
        return cls(d.year, d.month, d.day)


# ---------------------------------------------------------------- faults
class Faults:
    """Decides per operation what goes wrong. plan(op) -> None or a kind:
    refuse (answered with an error), lost (done, but answered with an error),
    drop (connection fails, not done), cut (done, connection fails),
    kill / killed-after (the client process ends before / after)."""

    def __init__(self, plan=None):
        self.plan = plan
        self.dead = False
        self.fired = []

    def ask(self, op):
        if self.dead:
            raise Killed()
        k = self.plan(op) if self.plan else None
        if k:
            self.fired.append((k, op.get("op"), op.get("coll"), op.get("n")))
        if k == "kill":
            self.dead = True
            raise Killed()
        return k


# ---------------------------------------------------------------- kinto
class KintoException(Exception):
    request = None
    response = None

    def __init__(self, message=None, exception=None):
        super().__init__(message)
        self.message = message
        self.exception = exception


class CollectionNotFound(KintoException):
    pass


class RequestException(IOError):
    def __init__(self, *a, **k):
        self.response = k.pop("response", None)
        self.request = k.pop("request", None)
        super().__init__(*a)


class ConnectionError_(RequestException):
    pass


class HTTPError(RequestException):
    pass


class Timeout(RequestException):
    pass


MUTATING = {"create", "update", "patch", "delete", "attach", "patch_collection", "update_collection", "other-write"}


class KintoServer:
    def __init__(self, url, bucket, rng):
        self.url, self.bucket, self.rng = url.rstrip("/"), bucket, rng
        self.base = "https://attachments.example/"
        self.colls = {}
        self.files = {}
        self.ops = []
        self.n = 0
        self.per = {}
        self.clock = 1000
        self.faults = Faults()
        self.on_review = []  # observers: f(collection, previous status)
        self.on_status = []
        self.before = []  # hooks before an operation
        self.order = "new"
        self.override = {}  # op name -> function giving a malformed answer
        self.ids = 0

    def coll(self, name):
        if name not in self.colls:
            self.colls[name] = {"meta": {"id": name, "status": "signed", "last_modified": self.tick(), "displayFields": ["x"]}, "records": {}}
        return self.colls[name]

    def tick(self):
        self.clock += 1
        return self.clock

    def new_id(self):
        self.ids += 1
        h = hashlib.sha256(b"%d/%d" % (self.ids, self.rng.getrandbits(32))).hexdigest()
        return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:32]}"

    # direct manipulation by the scenario
    def put(self, coll, rec, rid=None, touch=False):
        rec = copy.deepcopy(rec)
        rid = rid or rec.get("id") or self.new_id()
        rec["id"] = rid
        rec["last_modified"] = self.tick()
        self.coll(coll)["records"][rid] = rec
        if touch:
            self.touched(coll)
        return rid

    def store_file(self, name, content, mime="application/octet-stream"):
        loc = f"{self.bucket}/{self.new_id()}"
        self.files[loc] = content
        return {"filename": name, "size": len(content), "location": loc, "mimetype": mime,
                "hash": hashlib.sha256(content).hexdigest()}

    def touched(self, coll):
        m = self.coll(coll)["meta"]
        m["status"] = "work-in-progress"
        m["last_modified"] = self.tick()

    def records(self, coll):
        return copy.deepcopy(list(self.coll(coll)["records"].values()))

    def do(self, opname, coll, fn, /, **info):
        self.n += 1
        self.per[(opname, coll)] = self.per.get((opname, coll), 0) + 1
        op = {"op": opname, "coll": coll, "n": self.n, "k": self.per[(opname, coll)], "mut": opname in MUTATING, **info}
        if self.n > 20000:
            raise Hang("server operations without end")
        for h in list(self.before):
            h(op)
        try:
            f = self.faults.ask(op)
        except Killed:
            raise
        op["fault"] = f
        self.ops.append(op)
        if f == "refuse":
            raise KintoException("503 - service unavailable (injected)")
        if f == "drop":
            raise ConnectionError_("connection refused (injected)")
        r = fn(op)
        op["done"] = True
        if f == "lost":
            raise KintoException("504 - gateway timeout (injected)")
        if f == "cut":
            raise ConnectionError_("connection reset (injected)")
        if f == "killed-after":
            self.faults.dead = True
            raise Killed()
        if opname in self.override:
            return self.override[opname](copy.deepcopy(r), op)
        return copy.deepcopy(r)

    def get_records(self, coll):
        def fn(op):
            rs = list(self.coll(coll)["records"].values())
            if self.order == "new":
                rs.sort(key=lambda r: -r["last_modified"])
            elif self.order == "old":
                rs.sort(key=lambda r: r["last_modified"])
            else:
                self.rng.shuffle(rs)
            return rs
        return self.do("list", coll, fn)

    def get_record(self, coll, rid):
        def fn(op):
            if rid not in self.coll(coll)["records"]:
                raise KintoException("404 - not found")
            return {"data": self.coll(coll)["records"][rid], "permissions": {}}
        return self.do("get", coll, fn, id=rid)

    def create(self, coll, data, rid, perms):
        def fn(op):
            d = copy.deepcopy(dict(data))
            i = rid or d.get("id") or self.new_id()
            if i in self.coll(coll)["records"]:
                raise KintoException("412 - precondition failed")
            d["id"], d["last_modified"] = i, self.tick()
            self.coll(coll)["records"][i] = d
            op["id"] = i
            self.touched(coll)
            return {"data": d, "permissions": perms or {}}
        return self.do("create", coll, fn, data=copy.deepcopy(data))

    def update(self, coll, rid, data, patch):
        def fn(op):
            old = self.coll(coll)["records"].get(rid)
            if patch and old is None:
                raise KintoException("404 - not found")
            d = dict(old) if patch else {}
            d.update(copy.deepcopy(dict(data or {})))
            d["id"], d["last_modified"] = rid, self.tick()
            self.coll(coll)["records"][rid] = d
            self.touched(coll)
            return {"data": d, "permissions": {}}
        return self.do("patch" if patch else "update", coll, fn, id=rid, data=copy.deepcopy(data))

    def delete(self, coll, rid):
        def fn(op):
            r = self.coll(coll)["records"].pop(rid, None)
            if r is None:
                raise KintoException("404 - not found")
            op["record"] = r
            self.touched(coll)
            return {"deleted": True, "id": rid, "last_modified": self.tick()}
        return self.do("delete", coll, fn, id=rid)

    def attach(self, coll, rid, name, content, mime):
        def fn(op):
            r = self.coll(coll)["records"].get(rid)
            if r is None:
                raise KintoException("404 - not found")
            r["attachment"] = self.store_file(name, content, mime)
            r["last_modified"] = self.tick()
            self.touched(coll)
            return r["attachment"]
        return self.do("attach", coll, fn, id=rid, name=name)

    def get_collection(self, coll):
        return self.do("get_collection", coll, lambda op: {"data": self.coll(coll)["meta"], "permissions": {}})

    def patch_collection(self, coll, changes, if_match, replace=False):
        data = changes or {}

        def fn(op):
            m = self.coll(coll)["meta"]
            if if_match is not None and if_match != m["last_modified"]:
                raise KintoException("412 - precondition failed")
            old = m.get("status")
            op["from"] = old
            new = dict(data) if replace else {**m, **data}
            new["id"], new["last_modified"] = coll, self.tick()
            new.setdefault("status", old)
            self.colls[coll]["meta"] = new
            for f in self.on_status:
                f(coll, old, new.get("status"), data)
            if data.get("status") == "to-review":
                for f in self.on_review:
                    f(coll, old)
            if data.get("status") == "to-sign":
                new["status"] = "signed"
            return {"data": dict(new, status=data.get("status", new["status"])), "permissions": {}}
        return self.do("update_collection" if replace else "patch_collection", coll, fn, data=copy.deepcopy(data))


SERVERS = {}  # url -> KintoServer
GETTERS = []  # (prefix, f(url) -> Response)


class Response:
    def __init__(self, status, content=b"", headers=None):
        self.status_code, self.content, self.headers = status, content, headers or {}
        self.reason = ""
        self.url = ""

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    @property
    def ok(self):
        return self.status_code < 400

    def json(self):
        return json.loads(self.content)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code} error", response=self)

    def iter_content(self, n=1 << 16):
        yield self.content

    def close(self):
        pass


def http(method, url, **kw):
    for u, s in SERVERS.items():
        if url.startswith(u):
            path = url[len(u):].strip("/").split("/")
            if method == "POST" and len(path) == 7 and path[0] == "buckets" and path[6] == "attachment":
                files = kw.get("files")
                if isinstance(files, dict):
                    files = list(files.items())
                (_, f) = files[0]
                name, content = f[0], f[1]
                mime = f[2] if len(f) > 2 else "application/octet-stream"
                if hasattr(content, "read"):
                    content = content.read()
                if isinstance(content, str):
                    content = content.encode()
                try:
                    a = s.attach(path[3], path[5], name, content, mime)
                except KintoException as e:
                    return Response(int(str(e).split(" ")[0]), str(e).encode())
                return Response(200, json.dumps(a).encode())
        if url.startswith(s.base):
            loc = url[len(s.base):]

            def fn(op):
                return s.files.get(loc)
            try:
                c = s.do("download", None, fn, loc=loc)
            except KintoException as e:
                return Response(int(str(e).split(" ")[0]), str(e).encode())
            return Response(404, b"not found") if c is None else Response(200, c)
    for p, f in GETTERS:
        if url.startswith(p):
            return f(url)
    raise ConnectionError_(f"no route to {url}")


class Session_:
    def __init__(self, server_url, auth):
        self.server_url, self.auth = server_url, auth
        self.headers = {}
        self.nb_retry = 0

    def request(self, method, endpoint, **kw):
        u = endpoint if endpoint.startswith("http") else self.server_url.rstrip("/") + "/" + endpoint.lstrip("/")
        r = http(method.upper(), u, **kw)
        if r.status_code >= 400:
            raise KintoException(f"{r.status_code} - error")
        return r.json(), r.headers


class Client:
    def __init__(self, *, server_url=None, session=None, auth=None, bucket="default", collection=None, retry=0,
                 retry_after=None, timeout=None, ignore_batch_4xx=False, headers=None, dry_mode=False):
        self.session = session or Session_(server_url, auth)
        self._bucket_name, self._collection_name = bucket, collection
        self.s = SERVERS.get(server_url.rstrip("/") + "/") or SERVERS.get(server_url)
        if self.s is None:
            raise ConnectionError_(f"no route to {server_url}")

    @property
    def bucket_name(self):
        return self._bucket_name

    @property
    def collection_name(self):
        return self._collection_name

    def _c(self, collection):
        return collection or self._collection_name

    def server_info(self):
        return self.s.do("info", None, lambda op: {"capabilities": {"attachments": {"base_url": self.s.base}}})

    def get_records(self, *, collection=None, bucket=None, **kw):
        return self.s.get_records(self._c(collection))

    def get_paginated_records(self, *, collection=None, bucket=None, **kw):
        yield self.s.get_records(self._c(collection))

    def get_record(self, *, id, collection=None, bucket=None, **kw):
        return self.s.get_record(self._c(collection), id)

    def create_record(self, *, id=None, data=None, permissions=None, safe=True, bucket=None, collection=None, if_match=None):
        return self.s.create(self._c(collection), data, id, permissions)

    def update_record(self, *, id=None, data=None, permissions=None, safe=True, bucket=None, collection=None, if_match=None):
        return self.s.update(self._c(collection), id or (data or {}).get("id"), data, False)

    def patch_record(self, *, id=None, changes=None, data=None, original=None, permissions=None, safe=True, bucket=None, collection=None, if_match=None):
        if changes is not None:
            data = changes.data
        if original is not None:
            id = id or original.get("id")
        return self.s.update(self._c(collection), id or (data or {}).get("id"), data, True)

    def delete_record(self, *, id, collection=None, bucket=None, safe=True, if_match=None):
        return self.s.delete(self._c(collection), id)

    def delete_records(self, *, collection=None, bucket=None, safe=True, if_match=None):
        for r in list(self.s.coll(self._c(collection))["records"]):
            self.s.delete(self._c(collection), r)

    def get_collection(self, *, id=None, bucket=None):
        return self.s.get_collection(self._c(id))

    def patch_collection(self, *, id=None, changes=None, data=None, original=None, permissions=None, bucket=None, safe=True, if_match=None):
        if original is not None:
            id = id or original.get("id")
            if_match = if_match or original.get("last_modified")
        if changes is not None:
            data = changes.data
        if not id and not self._collection_name:
            raise AttributeError("collection id is mandatory")
        return self.s.patch_collection(self._c(id), data, if_match)

    def update_collection(self, *, id=None, data=None, permissions=None, bucket=None, safe=True, if_match=None):
        return self.s.patch_collection(self._c(id), data, if_match, replace=True)


class BasicPatch:
    content_type = "application/json"

    def __init__(self, data=None, permissions=None):
        self.data, self.permissions = data, permissions

    @property
    def body(self):
        return {"data": self.data}


class MergePatch(BasicPatch):
    content_type = "application/merge-patch+json"


# ---------------------------------------------------------------- storage
class GoogleAPICallError(Exception):
    pass


class NotFound(GoogleAPICallError):
    pass


class ServiceUnavailable(GoogleAPICallError):
    pass


class Forbidden(GoogleAPICallError):
    pass


class RetryError(GoogleAPICallError):
    def __init__(self, message, cause=None):
        super().__init__(message)
        self.cause = cause


TRANSIENT = (ServiceUnavailable, ConnectionError_)


class GCS:
    def __init__(self):
        self.buckets = {}
        self.ops = []
        self.n = 0
        self.faults = Faults()
        self.rng = random.Random(1)
        self.before = []
        self.style, self.salt = "pages", 0

    def b(self, name):
        return self.buckets.setdefault(name, {})

    def do(self, opname, bucket, key, fn, /, **info):
        self.n += 1
        op = {"op": opname, "coll": "gcs", "bucket": bucket, "key": key, "n": self.n, "mut": opname in ("upload", "delete"), **info}
        if self.n > 50000:
            raise Hang("storage operations without end")
        for h in list(self.before):
            h(op)
        f = self.faults.ask(op)
        op["fault"] = f
        self.ops.append(op)
        if f == "refuse":
            raise ServiceUnavailable("503 (injected)")
        if f == "forbid":
            raise Forbidden("403 (injected)")
        if f == "drop":
            raise ConnectionError_("connection refused (injected)")
        r = fn(op)
        op["done"] = True
        if f == "lost":
            raise ServiceUnavailable("503 (injected, after the operation)")
        if f == "cut":
            raise ConnectionError_("connection reset (injected)")
        if f == "killed-after":
            self.faults.dead = True
            raise Killed()
        return r


STORE = GCS()


class Blob:
    def __init__(self, name, bucket, **kw):
        self.name, self.bucket = name, bucket
        self.public_url = f"https://storage.example/{bucket.name}/{name}"

    def _d(self):
        return STORE.b(self.bucket.name)

    def exists(self, *a, **k):
        return STORE.do("exists", self.bucket.name, self.name, lambda op: self.name in self._d())

    def _get(self):
        def fn(op):
            if self.name not in self._d():
                raise NotFound(f"404 {self.name}")
            return self._d()[self.name]
        return STORE.do("download", self.bucket.name, self.name, fn)

    def download_as_string(self, *a, **k):
        return self._get()

    download_as_bytes = download_as_string

    def download_as_text(self, *a, **k):
        return self._get().decode()

    def download_to_file(self, f, *a, **k):
        f.write(self._get())

    def download_to_filename(self, fn, *a, **k):
        c = self._get()
        with open(fn, "wb") as f:
            f.write(c)

    def _put(self, content):
        def fn(op):
            self._d()[self.name] = content
        return STORE.do("upload", self.bucket.name, self.name, fn)

    def upload_from_filename(self, fn, *a, **k):
        with open(fn, "rb") as f:
            c = f.read()
        self._put(c)

    def upload_from_file(self, f, *a, **k):
        self._put(f.read())

    def upload_from_string(self, s, *a, **k):
        self._put(s.encode() if isinstance(s, str) else s)

    def delete(self, *a, **k):
        def fn(op):
            if self._d().pop(self.name, None) is None:
                raise NotFound(self.name)
        return STORE.do("delete", self.bucket.name, self.name, fn)


class Bucket:
    def __init__(self, name):
        self.name = name

    def blob(self, name, **k):
        return Blob(name, self)

    def get_blob(self, name, **k):
        b = Blob(name, self)
        return b if b.exists() else None

    def list_blobs(self, prefix=None, delimiter=None, **k):
        return StorageClient().list_blobs(self, prefix=prefix, delimiter=delimiter)

    def copy_blob(self, blob, dst, new_name=None, **k):
        c = blob._get()
        b = Blob(new_name or blob.name, dst)
        b._put(c)
        return b


class Conn:
    def api_request(self, method="GET", path="", query_params=None, **k):
        q = query_params or {}
        bucket = path.split("/")[2]
        prefix, delim = q.get("prefix", ""), q.get("delimiter")

        def fn(op):
            pre, items = set(), []
            for key in STORE.b(bucket):
                if not key.startswith(prefix):
                    continue
                rest = key[len(prefix):]
                if delim and delim in rest:
                    pre.add(prefix + rest.split(delim)[0] + delim)
                else:
                    items.append({"name": key})
            pre = sorted(pre)
            if STORE.style == "shuffle":
                pre.sort(key=lambda x: hashlib.sha256(f"{STORE.salt}{x}".encode()).digest())
            off = int(q.get("pageToken") or 0)
            n = STORE.rng.choice([1, 2, 3, 1000])
            r = {"prefixes": pre[off:off + n], "items": items if off == 0 else []}
            if off + n < len(pre):
                r["nextPageToken"] = str(off + n)
            if not r["prefixes"]:
                del r["prefixes"]
            return r
        return STORE.do("list", bucket, prefix, fn)


class StorageClient:
    def __init__(self, *a, **k):
        self._connection = Conn()

    def get_bucket(self, name, **k):
        return Bucket(name)

    bucket = get_bucket

    def list_blobs(self, bucket, prefix=None, delimiter=None, **k):
        n = bucket if isinstance(bucket, str) else bucket.name
        r = STORE.do("list", n, prefix, lambda op: sorted(x for x in STORE.b(n) if x.startswith(prefix or "")))
        pre, out = set(), []
        for x in r:
            rest = x[len(prefix or ""):]
            if delimiter and delimiter in rest:
                pre.add((prefix or "") + rest.split(delimiter)[0] + delimiter)
            else:
                out.append(Blob(x, Bucket(n)))

        class L(list):
            prefixes = pre
        return L(out)


class HTTPIterator:
    def __init__(self, client=None, api_request=None, path=None, item_to_value=None, items_key="items",
                 page_token=None, page_size=None, max_results=None, extra_params=None, **k):
        self.a = (api_request, path, item_to_value, items_key, extra_params or {})
        self.next_page_token = page_token
        self.prefixes = set()

    @property
    def pages(self):
        api, path, conv, key, extra = self.a
        tok = self.next_page_token
        while True:
            q = dict(extra)
            if tok:
                q["pageToken"] = tok
            r = api(method="GET", path=path, query_params=q)
            yield [conv(self, x) for x in r.get(key, ())]
            tok = r.get("nextPageToken")
            if not tok:
                return

    def __iter__(self):
        for p in self.pages:
            yield from p


class Retry:
    def __init__(self, predicate=None, initial=1.0, maximum=60.0, multiplier=2.0, timeout=120.0, deadline=None, **k):
        self.pred = predicate or (lambda e: isinstance(e, TRANSIENT))
        self.deadline = deadline or timeout
        self.initial, self.maximum, self.mult = initial, maximum, multiplier

    def __call__(self, fn, on_error=None):
        def w(*a, **k):
            end, d = CLOCK.t + self.deadline, self.initial
            while True:
                try:
                    return fn(*a, **k)
                except Exception as e:
                    if not self.pred(e):
                        raise
                    if CLOCK.t + d > end:
                        raise RetryError("deadline exceeded", e) from e
                CLOCK.sleep(d)
                d = min(d * self.mult, self.maximum)
        return w


# ---------------------------------------------------------------- x509
def tlv(b, i=0):
    t, l = b[i], b[i + 1]
    j = i + 2
    if l & 0x80:
        n = l & 0x7F
        if n == 0 or n > 4:
            raise ValueError("bad length")
        l = int.from_bytes(b[j:j + n], "big")
        j += n
    if j + l > len(b):
        raise ValueError("truncated")
    return t, b[j:j + l], b[i:j + l], j + l


def children(b):
    i, out = 0, []
    while i < len(b):
        t, v, raw, i = tlv(b, i)
        out.append((t, v, raw))
    return out


def oid(v):
    parts, n = [v[0] // 40, v[0] % 40], 0
    for x in v[1:]:
        n = n << 7 | x & 0x7F
        if not x & 0x80:
            parts.append(n)
            n = 0
    return ".".join(map(str, parts))


NAMES = {"2.5.4.3": "CN", "2.5.4.10": "O", "2.5.4.11": "OU", "2.5.4.6": "C", "2.5.4.7": "L", "2.5.4.8": "ST"}


class Name:
    def __init__(self, v):
        self.v = v

    def rfc4514_string(self):
        out = []
        for _, rdn, _ in children(self.v):
            for _, atv, _ in children(rdn):
                o, val = children(atv)[:2]
                k = NAMES.get(oid(o[1]), oid(o[1]))
                s = val[1].decode("utf-8")
                s = "".join("\\" + c if c in ',+"\\<>;' else c for c in s)
                out.append(f"{k}={s}")
        return ",".join(reversed(out))


class PubKey:
    def __init__(self, raw):
        self.raw = raw

    def public_bytes(self, encoding=None, format=None):
        return self.raw


class Certificate:
    def __init__(self, der):
        t, v, raw, end = tlv(der)
        if end != len(der) or t != 0x30:
            raise ValueError("not a certificate")
        self.der = raw
        tbs = children(children(v)[0][1])
        if tbs[0][0] != 0xA0:
            raise ValueError("version")
        self.subject, self.issuer = Name(tbs[5][1]), Name(tbs[3][1])
        self.spki = tbs[6][2]
        ts = []
        for t, v, _ in children(tbs[4][1]):
            s = v.decode()
            if t == 0x17:
                s = ("20" if s[:2] < "50" else "19") + s
            ts.append(RealDatetime.strptime(s, "%Y%m%d%H%M%SZ"))
        self.not_valid_before, self.not_valid_after = ts
        self.not_valid_before_utc, self.not_valid_after_utc = (t.replace(tzinfo=UTC) for t in ts)

    def public_bytes(self, encoding=None):
        return self.der

    def public_key(self):
        return PubKey(self.spki)


def load_pem_x509_certificate(data, backend=None):
    try:
        s = data.decode("ascii")
        a = s.index("-----BEGIN CERTIFICATE-----") + 27
        e = s.index("-----END CERTIFICATE-----", a)
        return Certificate(base64.b64decode("".join(s[a:e].split()), validate=True))
    except Exception as x:
        raise ValueError(f"Unable to load PEM file: {x}") from None


def load_der_x509_certificate(data, backend=None):
    try:
        return Certificate(data)
    except Exception as x:
        raise ValueError(f"bad certificate: {x}") from None


def D(t, *parts):
    v = b"".join(parts)
    n = len(v)
    if n < 128:
        return bytes([t, n]) + v
    k = (n.bit_length() + 7) // 8
    return bytes([t, 0x80 | k]) + n.to_bytes(k, "big") + v


def make_cert(rng, cn, key=None, not_after="20330101000000Z"):
    """A DER certificate (never verified by the programs under test)."""
    alg = D(0x30, D(6, bytes.fromhex("2a864886f70d01010b")), D(5))
    name = lambda s: D(0x30, D(0x31, D(0x30, D(6, b"\x55\x04\x06"), D(0x13, b"US"))),
                       D(0x31, D(0x30, D(6, b"\x55\x04\x03"), D(0x0C, s.encode()))))
    key = key or rng.randbytes(rng.choice([32, 97, 270]))
    spki = D(0x30, D(0x30, D(6, bytes.fromhex("2a864886f70d010101")), D(5)), D(3, b"\0", key))
    val = D(0x30, D(0x18, b"20200101000000Z"), D(0x18, not_after.encode()))
    tbs = D(0x30, D(0xA0, D(2, b"\2")), D(2, b"\1" + rng.randbytes(8)), alg, name("Root"), val, name(cn), spki)
    return D(0x30, tbs, alg, D(3, b"\0" + rng.randbytes(16)))


def pem(der, nl="\n", width=64):
    s = base64.b64encode(der).decode()
    return "-----BEGIN CERTIFICATE-----" + nl + nl.join(s[i:i + width] for i in range(0, len(s), width)) + nl + "-----END CERTIFICATE-----" + nl


# ---------------------------------------------------------------- modules
LOG = []


def _log(level):
    def f(msg, *args, **k):
        try:
            m = str(msg) % args if args else str(msg)
        except Exception:
            m = f"{msg} {args}"
        LOG.append(f"{level} {m[:300]}")
        del LOG[:-60]
    return f


STATSD = []


class Statsd:
    def __init__(self, host="localhost", port=8125, prefix=None, **k):
        self.prefix = prefix

    def incr(self, stat, *a, **k):
        STATSD.append(f"{self.prefix}.{stat}")

    gauge = timing = decr = incr


def config(name, default=None, cast=None):
    v = os.environ.get(name)
    if v is None:
        if default is None:
            raise KeyError(f"{name} not found")
        v = default
    return cast(v) if cast else v


class HTTPBasicAuth:
    def __init__(self, username, password):
        self.username, self.password = username, password


def install():
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        m.__path__ = []
        m.__stub__ = True
        sys.modules[name] = m
        if "." in name:
            p, c = name.rsplit(".", 1)
            setattr(sys.modules[p], c, m)
        return m
    mod("glog", **{l: _log(l) for l in ("debug", "info", "warning", "warn", "error", "fatal", "critical", "exception")}, setLevel=lambda *a: None)
    mod("decouple", config=config)

    def verb(m):
        return lambda url, *a, **k: http(m, url, **k)
    verbs = {m.lower(): verb(m) for m in ("GET", "POST", "PUT", "DELETE", "HEAD", "PATCH")}
    sess = type("Session", (), {**{k: (lambda f: lambda self, *a, **kw: f(*a, **kw))(f) for k, f in verbs.items()},
                                "__enter__": lambda s: s, "__exit__": lambda s, *a: None, "close": lambda s: None, "mount": lambda *a: None})
    exc = dict(RequestException=RequestException, ConnectionError=ConnectionError_, HTTPError=HTTPError, Timeout=Timeout)
    mod("requests", request=lambda m, u, **k: http(m.upper(), u, **k), Session=sess, Response=Response, **verbs, **exc)
    mod("requests.exceptions", **exc)
    mod("requests.auth", HTTPBasicAuth=HTTPBasicAuth)
    mod("kinto_http", Client=Client, KintoException=KintoException)
    mod("kinto_http.exceptions", KintoException=KintoException, CollectionNotFound=CollectionNotFound)
    mod("kinto_http.patch_type", BasicPatch=BasicPatch, MergePatch=MergePatch)
    mod("statsd", StatsClient=Statsd)
    mod("google")
    mod("google.api_core")
    mod("google.api_core.exceptions", NotFound=NotFound, GoogleAPICallError=GoogleAPICallError, ServiceUnavailable=ServiceUnavailable,
        Forbidden=Forbidden, RetryError=RetryError, GoogleAPIError=GoogleAPICallError)
    mod("google.api_core.page_iterator", HTTPIterator=HTTPIterator)
    mod("google.api_core.retry", Retry=Retry, if_exception_type=lambda *t: (lambda e: isinstance(e, t)), if_transient_error=lambda e: isinstance(e, TRANSIENT))
    mod("google.cloud")
    blobmod = dict(Blob=Blob)
    mod("google.cloud.storage", Client=StorageClient, Blob=Blob, Bucket=Bucket)
    mod("google.cloud.storage.blob", **blobmod)
    mod("google.cloud.storage.bucket", Bucket=Bucket)
    mod("cryptography")
    mod("cryptography.x509", Certificate=Certificate, load_pem_x509_certificate=load_pem_x509_certificate, load_der_x509_certificate=load_der_x509_certificate)
    mod("cryptography.hazmat")
    mod("cryptography.hazmat.backends", default_backend=lambda: None)
    mod("cryptography.hazmat.primitives")
    enc = types.SimpleNamespace(DER="DER", PEM="PEM")
    mod("cryptography.hazmat.primitives.serialization", Encoding=enc, PublicFormat=types.SimpleNamespace(SubjectPublicKeyInfo="SPKI", PKCS1="PKCS1"))
    _dt.datetime = FakeDatetime
    _dt.date = FakeDate


def install_clock():
    _time.sleep = CLOCK.sleep
    _time.time = lambda: CLOCK.t
    _time.monotonic = lambda: CLOCK.t
    _time.perf_counter = lambda: CLOCK.t


class MemoLoader(importlib.machinery.SourceFileLoader):
    codes = {}

    def get_code(self, fullname):
        if self.path not in self.codes:
            self.codes[self.path] = super().get_code(fullname)
        return self.codes[self.path]


_paths = [os.path.join(REPO, "moz_kinto_publisher"), REPO]


def purge():
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None) or ""
        if n != "__main__" and (f.startswith(REPO + "/") or n in ("settings", "workflow", "__init__", "publisher_main")):
            del sys.modules[n]


def _finders():
    hook = importlib.machinery.FileFinder.path_hook((MemoLoader, [".py"]))
    sys.path_hooks.insert(0, lambda p: hook(p) if p == REPO or p.startswith(REPO + "/") else (_ for _ in ()).throw(ImportError()))
    sys.path_importer_cache.clear()


_code = {}


def load(path, name, extra_paths):
    """Executes a program's source as a fresh module called name."""
    purge()
    if path not in _code:
        with open(path) as f:
            _code[path] = compile(f.read(), path, "exec")
    m = types.ModuleType(name)
    m.__file__ = path
    old = sys.path[:]
    sys.path[:0] = extra_paths
    if name == "__main__":
        keep = sys.modules["__main__"]
    try:
        if name == "__main__":
            exec(_code[path], {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
        else:
            sys.modules[name] = m
            exec(_code[path], m.__dict__)
    finally:
        sys.path[:] = old
        if name == "__main__":
            sys.modules["__main__"] = keep
    return m


def publisher():
    return load(os.path.join(REPO, "moz_kinto_publisher", "main.py"), "publisher_main", _paths)


class Watch:
    """Bounds the real time a piece of the code under test may take."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            signal.setitimer(signal.ITIMER_REAL, 1)
            raise Hang(f"still running after {self.s} s")
        signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


class StubGap(Exception):
    pass


STUBBED = ("Client", "Blob", "Bucket", "StorageClient", "HTTPIterator", "Retry", "Session_", "Statsd", "BasicPatch", "http", "config")


class Outcome:
    def __init__(self):
        self.kind, self.exc, self.code, self.out, self.tb = "ok", None, 0, "", ""

    def __repr__(self):
        return f"{self.kind}{'' if self.exc is None else ' ' + type(self.exc).__name__ + ': ' + str(self.exc)[:200]}"


def run(fn, argv=None, limit=20):
    """Runs fn as a program: what it printed, how it ended."""
    import contextlib
    import traceback
    o, buf, old = Outcome(), io.StringIO(), sys.argv
    if argv is not None:
        sys.argv = list(argv)
    try:
        with Watch(limit), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            fn()
    except SystemExit as e:
        c = e.code
        o.code = 0 if c is None else c if isinstance(c, int) else 1
        o.kind = "exit"
    except Killed:
        o.kind, o.code = "killed", 137
    except Hang as e:
        o.kind, o.code, o.exc = "hang", 124, e
    except Exception as e:
        obj = getattr(e, "obj", None)
        if isinstance(e, ImportError) or (isinstance(e, AttributeError) and (isinstance(obj, types.ModuleType) and getattr(obj, "__stub__", False) or type(obj).__module__ == __name__)) or (
                isinstance(e, TypeError) and "unexpected keyword" in str(e) and str(e).split(".")[0] in STUBBED):
            raise StubGap(f"the stand-ins lack something the code uses: {e}") from e
        o.kind, o.code, o.exc = "failed", 1, e
        o.tb = traceback.format_exc()[-1500:]
    finally:
        sys.argv = old
    o.out = buf.getvalue()
    return o


_finders()
install()
