"""C09: whatever a device does, failures surface as the documented exceptions."""
from __future__ import annotations

import asyncio
import copy
import errno
import json

import kasa
from kasa import Device, DeviceType, KasaException
from kasa.device_factory import get_protocol
from kasa.exceptions import SmartErrorCode
from kasa.iot import IotDevice

from kmon import gen, refs, sims
from kmon.core import Family
from kmon.history import finish, refs_code
from kmon.net import Hang, Net, Reply
from kmon.rig import KINDS, Rig
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring of the real transports and protocols against hostile device servers: an exception-class monitor "
             "at the public API, an independent error-code table, and a result monitor against what the device really sent")
NOTE = ("hostile replies at HTTP, message and decrypted-content level at every step of every transport; every error code and HTTP "
        "status; connection-level errors; updates and connects with failing requests")
RULE = ("a case = one protocol kind, a sequence of queries/updates/connects with hostile replies at random steps; "
        "non-trivial = at least one hostile reply was consumed")
ASSUMPTIONS = ("Values inside well-formed answers (wrong types inside module data) are not mutated in the update family.",)
REQUIRED_COVER = [*(f"wire:{k}:{o}" for k in KINDS for o in ("ok", "kasa")), "codes:auth", "codes:retry", "codes:fatal",
                  "codes:unknown", "status:403", "net:timeout", "net:refused", "update:failed", "update:ok", "connect:failed",
                  "connect:ok", "iot-errors:raised"]

HTTP_STATUS = [100 + i for i in (1, 3)] + [201, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 408, 413, 429, 500, 501, 502, 503,
                                           504, 599]


def weird_json(rng):
    return rng.choice([None, True, False, 0, -1, 1.5, "", "x", [], [1], [None], {}, {"error_code": None}, {"error_code": "0"},
                       {"error_code": "x"}, {"error_code": 0}, {"error_code": 0, "result": None}, {"error_code": 0, "result": []},
                       {"error_code": 0, "result": "x"}, {"error_code": 0, "result": 1}, {"error_code": 0, "result": {}},
                       {"error_code": [1]}, {"error_code": {}}, {"error_code": 1.5}, {"result": {}}, {"error_code": True},
                       {"error_code": 0, "result": {"responses": None}}, {"error_code": 0, "result": {"responses": [None]}},
                       {"error_code": 0, "result": {"responses": [{}]}}, {"error_code": 0, "result": {"responses": "x"}},
                       {"error_code": 0, "result": {"responses": [{"method": "get_device_info"}]}},
                       {"error_code": 0, "result": {"responses": [{"method": ["x"], "error_code": 0}]}},
                       {"error_code": 0, "result": {"response": None}}, {"error_code": 0, "result": {"response": 5}},
                       {"error_code": 0, "result": {"response": "!!!"}}, {"error_code": 0, "result": {"response": ""}},
                       {"error_code": 0, "result": {"key": None}}, {"error_code": 0, "result": {"key": "AAAA"}},
                       {"error_code": 0, "result": {"key": "!"}}, {"error_code": 0, "result": {"token": None}},
                       {"error_code": 0, "result": {"token": 5}}, {"error_code": 0, "result": {"start_seq": "x", "stok": None}},
                       {"error_code": 0, "result": {"start_seq": None, "stok": "x"}}, {"error_code": 0, "result": {"stok": 1}},
                       {"error_code": -40413}, {"error_code": -40413, "result": {}}, {"error_code": -40413, "result": None},
                       {"error_code": -40413, "result": {"data": None}}, {"error_code": -40413, "result": {"data": {"nonce": None}}},
                       {"error_code": -40413, "result": {"data": {"nonce": "A", "code": -40413}}},
                       {"error_code": -40413, "result": {"data": {"nonce": 5, "device_confirm": 5}}},
                       {"error_code": -40401, "result": {"data": {"encrypt_type": None}}},
                       {"error_code": -40401, "result": {"data": {"encrypt_type": ["1"], "code": "x"}}},
                       {"error_code": -40401, "data": {"code": -40404, "sec_left": "x"}}, {"error_code": -40401, "data": None},
                       {"error_code": -40401, "data": [1]},
                       {"system": None}, {"system": []}, {"system": {"get_sysinfo": None}}, {"system": {"err_code": -1}},
                       {"err_code": -1}])


def bad_envelope(rng):
    """An answer that does not claim success (contents of successful answers are not mutated while connecting)."""
    while True:
        o = weird_json(rng)
        if not isinstance(o, dict) or (o.get("error_code") not in (0, None) and "result" not in o):
            return o


def mutate(rng, obj, depth=0):
    """A copy of obj with one place made strange."""
    if isinstance(obj, dict) and obj and rng.random() < 0.8:
        out = dict(obj)
        k = rng.choice(list(out))
        r = rng.random()
        if r < 0.2:
            del out[k]
        elif r < 0.3:
            out[k + "x"] = out.pop(k)
        else:
            out[k] = mutate(rng, out[k], depth + 1)
        return out
    if isinstance(obj, list) and obj and rng.random() < 0.7:
        out = list(obj)
        i = rng.randrange(len(out))
        r = rng.random()
        if r < 0.2:
            del out[i]
        elif r < 0.3:
            out.append(out[i])
        else:
            out[i] = mutate(rng, out[i], depth + 1)
        return out
    return rng.choice([None, [], {}, "", "x", 0, -1, 10 ** 15, True, [None], {"a": 1}, -40413, 9999])


def weird_bytes(rng, body, structured=True):
    k = rng.randrange(8) if structured else rng.choice([0, 1, 3, 4, 8])
    if k == 8:
        return rng.choice([b"null", b"[]", b"{", b"\xff\xfe", b"<html>", b"[" * 5000])
    if k == 0:
        return b""
    if k == 1:
        return rng.randbytes(rng.choice([1, 16, 31, 32, 47, 48, 49, 64, 100]))
    if k == 2:
        return json.dumps(weird_json(rng)).encode()
    if k == 3:
        return body[:rng.randrange(len(body) + 1)]
    if k == 4:
        return body + rng.randbytes(rng.randrange(1, 20))
    if k == 5 and body:
        b = bytearray(body)
        for _ in range(rng.choice([1, 1, 3])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    try:
        return json.dumps(mutate(rng, json.loads(body))).encode()
    except ValueError:
        return rng.choice([b"null", b"[]", b"{", b"\xff\xfe", b"<html>", b"[" * 5000, b'{"a":1e999}', b'"\\ud800"'])


def hostile_http(rng, stats, p, structured=True):
    """Wrap an HTTP application: some replies are disturbed (everything a device could put on the wire)."""
    def wrap(app):
        def inner(req):
            r = app(req)
            stats["replies"] += 1
            if r is None or rng.random() >= p():
                stats["last"] = "clean"
                return r
            stats["hostile"] += 1
            k = rng.choice(["body", "body", "body", "body", "status", "cookie", "how", "stall", "headers"])
            stats["last"] = k
            stats["log"].append((k, req.path[:12]))
            if k == "body":
                r.body = weird_bytes(rng, r.body, structured)
            elif k == "status":
                r.status = rng.choice(HTTP_STATUS)
                if rng.random() < 0.6:
                    r.body = weird_bytes(rng, r.body, structured)
                if r.status in (204, 304, 101, 103):
                    r.body = b""
            elif k == "cookie":
                v = rng.choice(["TIMEOUT=abc", "TIMEOUT=", "TIMEOUT=1e3", "TIMEOUT=-5", "TP_SESSIONID=", "TP_SESSIONID=\"a;b\"",
                                "=;=", "TIMEOUT=99999999999999999999"])
                r.headers = [h for h in r.headers if h[0] != "Set-Cookie"] + [("Set-Cookie", "TP_SESSIONID=AB;" + v)]
                if rng.random() < 0.5:
                    r.headers.append(("Set-Cookie", v))
            elif k == "how":
                r.how = rng.choice(["disconnect", "reset", "partial", "garbage"])
                if r.how == "garbage":
                    r.body = rng.choice([b"HTTP/1.1 abc\r\n\r\n", b"\x00\x01\x02", b"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n",
                                         b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc",
                                         b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"HTTP/9.9 200 OK\r\n\r\n",
                                         b"HTTP/1.1 200 OK\r\n" + b"A: " + b"b" * 70000 + b"\r\n\r\n",
                                         b"HTTP/1.1 302 Found\r\nLocation: http://10.9.9.9/x\r\nContent-Length: 0\r\n\r\n"])
            elif k == "stall":
                return None if rng.random() < 0.5 else Reply(200, r.body, how="stall")
            elif k == "headers":
                r.headers.append(rng.choice([("Content-Type", "text/html; charset=bogus"), ("Content-Encoding", "deflate"),
                                             ("Location", "http://10.9.9.9/"), ("X" * 300, "y")]))
            return r
        return inner
    return wrap


def guard(case, what, exc, trace=None):
    """The exception-class monitor."""
    if isinstance(exc, KasaException):
        case.expect(not (isinstance(exc, kasa.DeviceError) and exc.error_code is not None
                         and not isinstance(exc.error_code, SmartErrorCode)), "bad-error-code", repr(exc))
        return True
    import traceback
    where = [f for f in traceback.extract_tb(exc.__traceback__) if "/kasa/" in f.filename]
    loc = f"{where[-1].filename.rsplit('/', 1)[-1]}:{where[-1].name}" if where else "?"
    case.violate(f"undocumented-exception:{type(exc).__name__}:{loc}", f"{what}: {exc!r}", trace=trace)
    return False


def f_wire(case):
    """Byte and message level hostility at every step of every transport."""
    rng = case.rng
    kind = list(KINDS)[case.index % len(KINDS)]
    net = Net(case)
    stats = {"replies": 0, "hostile": 0, "last": None, "log": []}
    on = [True]
    prate = rng.choice([0.15, 0.3, 0.6])
    sent: list = []
    served = [0]

    def p():
        return prate if on[0] else 0.0

    def handler(text):
        obj = json.loads(text)
        served[0] += 1
        if rig.style == "iot":
            good = {m: {k: {"echo": v, "n": served[0], "err_code": 0} for k, v in ms.items()} for m, ms in obj.items()}
        else:
            def one(o):
                if o["method"] == "multipleRequest":
                    return {"error_code": 0, "result": {"responses": [{**one(r), "method": r["method"]} for r in o["params"]["requests"]]}}
                return {"error_code": 0, "result": {"echo": o.get("params", {k: v for k, v in o.items() if k != "method"}),
                                                   "n": served[0]}}
            good = one(obj)
        if rng.random() < p():
            stats["hostile"] += 1
            k = rng.random()
            if k < 0.4:
                out = mutate(rng, good)
            elif k < 0.8:
                out = weird_json(rng)
            else:
                out = rng.choice([b"", b"\xff\xfe\x00", b"nope", b"{", b"[" * 3000, json.dumps(good).encode()[:-1]])
            stats["log"].append(("content", out if not isinstance(out, bytes) else out[:40]))
            sent.append(("hostile", out))
            if kind == "xor" and not isinstance(out, bytes):
                return json.dumps(out).encode()
            return out
        sent.append(("good", good))
        return good

    raws: list = []

    def plan(stage, n):
        if kind == "xor" and stage == "request" and rng.random() < p() * 0.6:
            stats["hostile"] += 1
            f = rng.choice([("raw", b""), ("raw", b"\0\0\0\0"), ("raw", b"\0\0\0\5abcde"), ("raw", rng.randbytes(40)[:3]),
                            ("raw", b"\0\0\xff\xff" + rng.randbytes(10)), ("close-before",), ("reset-before",), ("stall",),
                            ("raw", b"\xff\xff\xff\xff\0"), ("raw", b"\0\0\0\1" + rng.randbytes(30)),
                            ("truncate", rng.randrange(1, 30)), ("truncate-reset", 3), ("truncate-stall", 9)])
            raws.append(f)
            return f
        if kind not in ("xor", "linkie") and rng.random() < p() * 0.25:
            stats["hostile"] += 1
            if stage == "request":
                return rng.choice([("mangle", "!!!"), ("mangle", rng.randrange(1, 99)), ("otherkey",), ("plain",), ("unenc-root",),
                                   ("flip", rng.randrange(999)), ("cutbody", rng.randrange(99)), ("wrongseq",)])
            if stage == "handshake1" and kind.startswith("klap"):
                return ("short", rng.choice([0, 1, 15, 16, 17, 47, 49]))
            if kind.startswith("cam"):
                return ("json", weird_json(rng))
        return None

    rig = Rig(kind, net, rng, handler, plan=plan, timeout=rng.choice([1, 3, 5]))
    if kind != "xor":
        rig.srv.http.app = hostile_http(rng, stats, p)(rig.srv.http.app)
    results = []
    stale = False

    async def main(loop):
        nonlocal stale
        rig.loop = loop
        proto = get_protocol(rig.config)
        n = rng.randrange(2, 6)
        for i in range(n + 2):     # a wrong session token takes one failed query to notice
            on[0] = i < n
            if i >= n:      # the device behaves again: the library works again
                await asyncio.sleep(1)
            nm = rng.choice([1, 1, 2, 4])
            params = [{"v": rng.randrange(10 ** 6)} for _ in range(nm)]
            if rig.style == "iot":
                req = {"mod": {f"get_{j}": params[j] for j in range(nm)}}
            elif rig.style == "smart":
                req = {f"get_m{j}": params[j] for j in range(nm)}
            else:
                req = {f"getM{j}": {"mod": params[j]} for j in range(nm)}
            retry = 3 if i >= n else rng.choice([0, 1, 3])
            n0, h0, t0 = len(sent), stats["hostile"], loop.time()
            raws.clear()
            try:
                res = await proto.query(req, retry_count=retry)
            except KasaException as ex:
                guard(case, f"{kind} query", ex)
                results.append(type(ex).__name__)
                case.covered(f"{kind}:kasa")
                case.expect(stats["hostile"] > h0 or stale, "failed-without-cause", f"{kind}: {ex!r} without any disturbance")
                stale = True
                continue
            except Exception as ex:  # noqa: BLE001
                guard(case, f"{kind} query after {stats['log'][-3:]} {raws[-1:]}", ex, trace=repr(stats["log"][-6:]))
                results.append(type(ex).__name__)
                stale = True
                continue
            finally:
                attempts = 1 + retry
                budget = attempts * (rig.timeout * 12 + 3) + 30
                case.expect(loop.time() - t0 <= budget, "hang", f"query took {loop.time() - t0:.1f}s, retry {retry}, timeout {rig.timeout}")
            results.append("ok")
            if stats["hostile"] == h0:
                # undisturbed: the answers are exactly the device's
                goods = [o for k2, o in sent[n0:] if k2 == "good"]
                if rig.style == "iot":
                    want = goods[-1]
                    case.expect(refs.canon(res) == refs.canon(want), "made-up-data", f"{res!r:.300} != {want!r:.300}")
                else:
                    for m, pv in req.items():
                        got = res.get(m) or {}
                        case.expect(isinstance(got, dict) and got.get("echo") == pv, "made-up-data", f"{m}: {got!r:.200} for {pv}")
                case.covered(f"{kind}:ok")
            elif isinstance(res, dict) and kind.startswith("klap"):   # others also carry plain JSON
                # disturbed: every value still was sent by the device in answer to this request
                pool = json.dumps([o if not isinstance(o, bytes) else o.decode("latin1") for _, o in sent[n0:]])
                for m, v in (res.items() if rig.style != "iot" else ()):
                    if isinstance(v, dict) and "echo" in v and m in req:
                        case.expect(json.dumps(v["echo"]) in pool, "made-up-data", f"{m} -> {v!r:.200} was never sent")
            stale = False
        await proto.close()
        # a camera that refuses the user's login once is talked to with the default login from then on
        switched = kind.startswith("cam") and results[-1] == "AuthenticationError"
        case.expect(results[-1] == "ok" or switched, "no-recovery", f"{kind}: the device answers correctly again but {results}")

    case.sample = (kind, prate)
    run = vrun(main, net=net)
    case.expect(not net.open_conns(), "connection-left-open", f"{kind}")
    if stats["hostile"] or raws:
        case.nontrivial((kind, tuple(results), tuple(map(str, stats["log"][:8]))))
    finish(case, run)


ALL_CODES = sorted({int(c) for c in SmartErrorCode} - {0, -100000, -100001})
UNKNOWN = [424242, -7777, 77, -99999, 10 ** 9, -1]


def f_codes(case):
    """Every error code, from the transport, a single method, a batch or inside a batch."""
    rng = case.rng
    kind = rng.choice([k for k in KINDS if k not in ("xor", "klap1", "linkie")])
    code = ALL_CODES[case.index // 4 % len(ALL_CODES)] if rng.random() < 0.85 else rng.choice(UNKNOWN[:-1])
    where = ["single", "batch", "in-batch", "transport"][case.index % 4]
    if where == "transport" and kind.startswith("klap"):
        where = "single"
    net = Net(case)
    served = []

    def handler(text):
        obj = json.loads(text)
        served.append(obj)

        def one(o):
            if where == "in-batch" and o["method"].endswith("1"):
                return {"error_code": code}
            return {"error_code": 0, "result": {"v": o["method"]}}

        if obj["method"] == "multipleRequest" and where != "batch" and len(obj["params"]["requests"]) > (where == "single"):
            return {"error_code": 0, "result": {"responses": [{**one(r), "method": r["method"]} for r in obj["params"]["requests"]]}}
        if where in ("single", "batch"):
            return {"error_code": code}
        return one(obj)

    plan = (lambda stage, n: ("code", code) if stage == "request" else None) if where == "transport" else None
    rig = Rig(kind, net, rng, handler, plan=plan)
    cls = refs.code_class(code)
    known = code in ALL_CODES
    retry = rng.choice([0, 1, 2])
    # answers that reject a batch are retried method by method
    batchy = (where in ("batch", "transport") or rig.style == "cam") and (code == -1003 or not known)

    async def main(loop):
        rig.loop = loop
        proto = get_protocol(rig.config)
        val = {"m": {"x": 1}} if rig.style == "cam" else {"x": 1}
        req = {"getA0": val} if where == "single" or where == "transport" and rng.random() < 0.5 else {"getA0": val, "getA1": val}
        try:
            res = await proto.query(req, retry_count=retry)
        except Exception as ex:  # noqa: BLE001
            if not guard(case, f"{kind} {where} code {code}", ex):
                return
            case.expect(isinstance(ex, kasa.DeviceError) or batchy, "wrong-class", f"{kind} {where} code {code} -> {ex!r}")
            case.expect(getattr(ex, "error_code", None) is refs_code(code) or batchy, "wrong-error-code",
                        f"{kind} {where} code {code} reported as {getattr(ex, 'error_code', None)!r}")
            case.expect(isinstance(ex, kasa.AuthenticationError) == (cls == "auth"), "wrong-class",
                        f"{kind} {where}: code {code} ({cls}) raised {type(ex).__name__}")
            want = retry + 1 if cls == "retry" else 1
            n = sum(1 for o in rig.srv.trace if o[0] == "request")
            if not batchy:
                case.expect(n == want, "wrong-attempts", f"code {code} ({cls}): {n} requests, retry_count {retry}")
            case.covered(cls if known else "unknown")
        else:
            ok = where == "in-batch" and res.get("getA1") is refs_code(code) and res.get("getA0") == {"v": "getA0"}
            ok = ok or batchy and set(res.values()) == {refs_code(code)}
            case.expect(ok, "error-lost", f"{kind} {where} code {code} returned {res!r:.300}")
        finally:
            await proto.close()

    case.sample = (kind, where, code)
    case.nontrivial((kind, where, code, retry))
    finish(case, vrun(main, net=net))


def plain_answer(text):
    obj = json.loads(text)
    if obj.get("method") == "multipleRequest":
        return {"error_code": 0, "result": {"responses": [{"method": r["method"], "error_code": 0, "result": {"a": 1}}
                                                          for r in obj["params"]["requests"]]}}
    return {"error_code": 0, "result": {"a": 1}}


def f_status(case):
    """Every HTTP status at every step."""
    rng = case.rng
    kinds = [k for k in KINDS if k != "xor"]
    kind = kinds[case.index % len(kinds)]
    status = rng.choice(HTTP_STATUS + list(range(200, 206)) + list(range(400, 430)) + list(range(500, 512)))
    if status in (101, 103):
        status = 418
    net = Net(case)
    rig = Rig(kind, net, rng, plain_answer)
    orig = rig.srv.http.app
    step = rng.randrange(4)
    n = [0]
    hit = [0]

    def app(req):
        r = orig(req)
        n[0] += 1
        if n[0] - 1 >= step and status != 200:
            hit[0] += 1
            return Reply(status, b"" if status in (204, 304) else rng.choice([b"", b"oops", r.body]))
        return r

    rig.srv.http.app = app

    async def main(loop):
        rig.loop = loop
        proto = get_protocol(rig.config)
        req = {"system": {"get_sysinfo": {}}} if rig.style == "iot" else {"getA": {"m": {"x": 1}}}
        out = None
        for _ in range(4):
            h0 = hit[0]
            try:
                out = await proto.query(req, retry_count=1)
                case.expect(hit[0] == h0, "error-lost", f"{kind}: HTTP {status} at step {step} but {out!r:.200} was returned")
            except Exception as ex:  # noqa: BLE001
                guard(case, f"{kind} HTTP {status}", ex)
                case.expect(hit[0] > h0, "failed-without-cause", repr(ex))
                if kind == "linkie" and not isinstance(ex, KasaException):
                    break
                case.expect(not isinstance(ex, kasa.TimeoutError), "wrong-class", repr(ex))
        await proto.close()

    case.covered(str(status))
    case.sample = (kind, status, step)
    case.nontrivial((kind, status, step))
    finish(case, vrun(main, net=net))


def f_net(case):
    """Connection level failures: refused, unreachable, no answer to connect, resets, silence."""
    rng = case.rng
    kind = list(KINDS)[case.index % len(KINDS)]
    net = Net(case)
    mode = rng.choice(["refused", "unreach", "hang", "reset-connect", "down", "silent", "timeout-connect"])
    exc = {"refused": ConnectionRefusedError(errno.ECONNREFUSED, "refused"), "unreach": OSError(errno.EHOSTUNREACH, "no route"),
           "down": OSError(errno.EHOSTDOWN, "host down"), "reset-connect": ConnectionResetError(errno.ECONNRESET, "reset"),
           "timeout-connect": TimeoutError("timed out")}.get(mode)
    timeout = rng.choice([1, 3, 5])
    plan = (lambda stage, n: ("stall",)) if mode == "silent" else None
    rig = Rig(kind, net, rng, lambda t: {}, plan=plan, timeout=timeout,
              connect_policy=None if mode == "silent" else (lambda n: Hang if mode == "hang" else exc))
    retry = rng.choice([0, 1, 3])

    async def main(loop):
        rig.loop = loop
        proto = get_protocol(rig.config)
        t0 = loop.time()
        try:
            res = await proto.query({"system": {"get_sysinfo": {}}} if rig.style == "iot" else {"getA": {"m": {"x": 1}}},
                                    retry_count=retry)
            case.violate("made-up-data", f"{kind} {mode}: {res!r}")
        except Exception as ex:  # noqa: BLE001
            guard(case, f"{kind} {mode}", ex)
            if mode in ("hang", "silent"):
                # the Kasa camera transport reports every failure alike
                case.expect(isinstance(ex, kasa.TimeoutError) or kind == "linkie", "wrong-class", f"{kind} {mode}: {ex!r}")
                case.covered("timeout")
            elif mode != "timeout-connect":
                case.expect(not isinstance(ex, kasa.AuthenticationError), "wrong-class", f"{kind} {mode}: {ex!r}")
                case.covered(mode)
        dt = loop.time() - t0
        # each connect may probe a list of default logins in turn
        case.expect(dt <= (retry + 1) * (timeout * 3 + 2) + 5, "hang", f"{kind} {mode}: {dt:.1f}s, timeout {timeout}, retry {retry}")
        await proto.close()

    case.sample = (kind, mode, timeout, retry)
    case.nontrivial((kind, mode, timeout, retry))
    finish(case, vrun(main, net=net))
    case.expect(not net.open_conns(), "connection-left-open", "")


def any_device(rng):
    """(device, transport, model, parent-first?) of any recorded kind."""
    k = rng.choice(["smart", "smart", "hub", "cam", "camhub", "iot", "iot"])
    if k == "smart":
        name = rng.choice([n for n in sims.names("smart") if not n.startswith(("H100", "KH100", "H200"))])
        m = sims.smart_model(name, rng)
        return (*sims.smart_device(m), m, k)
    if k == "hub":
        m = sims.smart_model(rng.choice(sims.hub_names()), rng, children=rng.sample(sims.names("smart/child"), 2))
        return (*sims.smart_device(m), m, k)
    if k == "camhub":
        m = sims.cam_model(rng.choice([n for n in sims.names("smartcam") if n.startswith("H200")]), rng,
                           children=[rng.choice(sims.names("smart/child") + sims.names("smartcam/child"))])
        return (*sims.cam_device(m), m, k)
    if k == "cam":
        m = sims.cam_model(rng.choice([n for n in sims.names("smartcam") if not n.startswith("H200")]), rng)
        return (*sims.cam_device(m), m, k)
    m = sims.iot_model(rng.choice(sims.names("iot")))
    return (*sims.iot_device(m), m, k)


def failure(rng):
    from kasa.exceptions import _ConnectionError, _RetryableError
    return rng.choice([KasaException("broken"), kasa.TimeoutError("late"), _ConnectionError("gone"),
                       _RetryableError("again", error_code=SmartErrorCode.SESSION_TIMEOUT_ERROR),
                       kasa.AuthenticationError("no", error_code=SmartErrorCode.LOGIN_ERROR),
                       kasa.DeviceError("dev", error_code=SmartErrorCode.PARAMS_ERROR)])


def f_update(case):
    """Updates with failing requests, methods and strange envelopes at any point."""
    rng = case.rng
    dev, tr, model, k = any_device(rng)
    mode = rng.choice(["request", "request", "method", "code-reply", "burst", "envelope"])
    p = rng.choice([0.1, 0.4, 1.0])
    on = [False]
    hit = [0]

    def fail(n, request):
        if not on[0] or rng.random() >= p:
            return None
        if mode in ("request", "burst"):
            hit[0] += 1
            return failure(rng)
        if mode == "code-reply" and k != "iot":
            hit[0] += 1
            return {"error_code": rng.choice(ALL_CODES + UNKNOWN)}
        if mode == "envelope":
            hit[0] += 1
            if k == "iot":
                return rng.choice([{}, {"system": {"err_code": -1, "err_msg": "module not support"}},
                                   {"system": {"get_sysinfo": {"err_code": -2}}}]) if "get_sysinfo" in str(request) else {}
            out = [{}, {"error_code": None}]
            if "multipleRequest" in str(request):
                out.append({"error_code": 0, "result": {"responses": []}})
            return rng.choice(out)
        return None

    def fault(m, method, params, *a):
        if on[0] and mode == "method" and rng.random() < p * 0.5:
            hit[0] += 1
            if k == "iot":
                return rng.choice([-1, -2, -3, -5, -10])
            return rng.choice(ALL_CODES + UNKNOWN)
        return None

    tr.fail = fail
    model.fault = fault
    outs = []

    async def main(loop):
        for i in range(rng.randrange(2, 6)):
            on[0] = rng.random() < 0.7
            h0 = hit[0]
            try:
                await dev.update()
                outs.append("ok")
                case.covered("ok")
            except Exception as ex:  # noqa: BLE001
                outs.append(type(ex).__name__)
                guard(case, f"{k} {mode} update {i} after {outs}", ex)
                case.expect(hit[0] > h0, "failed-without-cause", f"{k} {mode}: {ex!r} in an undisturbed update after {outs}")
                case.covered("failed")
            await asyncio.sleep(rng.choice([0, 1, 30, 4000]))

    case.sample = (k, mode, p)
    case.nontrivial((k, mode, p, tuple(outs), case.index))
    finish(case, vrun(main))


def iot_type(name):
    return IotDevice._get_device_type_from_sys_info(sims.iot_model(name).request({"system": {"get_sysinfo": {}}}))


def f_connect(case):
    """Device.connect against hostile devices: a device or a documented exception, and nothing left open."""
    rng = case.rng
    kinds = [k for k in KINDS if k != "linkie"]     # there is no model of a legacy camera
    kind = kinds[case.index % len(kinds)]
    net = Net(case)
    style = KINDS[kind][5]
    family = None
    if kind == "klap1":
        family = rng.choice(KINDS[kind][0])
        want = (DeviceType.Bulb,) if "BULB" in family.value else (DeviceType.Plug, DeviceType.WallSwitch)
        model = sims.iot_model(rng.choice([n for n in sims.names("iot") if iot_type(n) in want]))
    elif style == "iot":
        model = sims.iot_model(rng.choice(sims.names("iot")))
    elif style == "smart":
        model = sims.smart_model(rng.choice([n for n in sims.names("smart") if not n.startswith(("H100", "KH100", "H200"))]), rng)
    else:
        model = sims.cam_model(rng.choice(sims.names("smartcam")), rng)
    stats = {"replies": 0, "hostile": 0, "last": None, "log": []}
    prate = rng.choice([0, 0.1, 0.3, 0.6])
    p = lambda: prate

    def handler(text):
        if rng.random() < prate * 0.5:
            stats["hostile"] += 1
            o = bad_envelope(rng) if style != "iot" else rng.choice([None, [], {}, 1, "x", {"system": {"err_code": -1}}, {"system": {}}])
            return json.dumps(o).encode() if kind == "xor" else o
        return model.request(json.loads(text))

    def plan(stage, n):
        if kind == "xor" and rng.random() < prate:
            stats["hostile"] += 1
            return rng.choice([("raw", b"\0\0\0\5abcde"), ("close-before",), ("reset-before",), ("truncate", 9), ("stall",),
                               ("text", b"[]"), ("text", b"{}"), ("text", b"\xff")])
        return None

    rig = Rig(kind, net, rng, handler, plan=plan, timeout=rng.choice([1, 5]), family=family)
    if kind != "xor":
        rig.srv.http.app = hostile_http(rng, stats, p, structured=False)(rig.srv.http.app)

    async def main(loop):
        rig.loop = loop
        try:
            dev = await Device.connect(config=rig.config)
        except Exception as ex:  # noqa: BLE001
            guard(case, f"connect {kind} after {stats['log'][-4:]}", ex, trace=repr(stats["log"][-8:]))
            if not isinstance(ex, kasa.UnsupportedDeviceError):
                case.expect(stats["hostile"] > 0, "failed-without-cause", f"{kind}: {ex!r}")
            case.covered("failed")
        else:
            case.covered("ok")
            await dev.disconnect()

    case.sample = (kind, prate)
    case.nontrivial((kind, prate, case.index))
    run = vrun(main, net=net)
    case.expect(not net.open_conns() and not net.open_sessions(), "connection-left-open", kind)
    finish(case, run)


def f_iot_errors(case):
    """err_code answers of legacy devices to commands surface as the library exception."""
    rng = case.rng
    model = sims.iot_model(rng.choice(sims.names("iot")))
    dev, tr = sims.iot_device(model)
    code = rng.choice([-1, -2, -3, -5, -8, -10, -10000, 5])
    on = [False]
    model.fault = lambda mod, method, params, ids: code if on[0] else None
    modf = rng.random() < 0.3
    if modf:
        model.modfault = lambda m: on[0]

    async def main(loop):
        await dev.update()
        on[0] = True
        cmds = [("set_alias", lambda: dev.set_alias("x")), ("turn_on", lambda: dev.turn_on()), ("turn_off", lambda: dev.turn_off()),
                ("reboot", lambda: dev.reboot(1)), ("get_sys_info", lambda: dev.get_sys_info())]
        if kasa.Module.Led in dev.modules:
            cmds.append(("led", lambda: dev.modules[kasa.Module.Led].set_led(True)))
        if kasa.Module.Light in dev.modules:
            cmds.append(("light", lambda: dev.modules[kasa.Module.Light].set_state(kasa.LightState(light_on=True))))
        for c in dev.children:
            cmds.append(("child", c.turn_on))
        name, cmd = rng.choice(cmds)
        n0 = len(model.log)
        try:
            res = await cmd()
            # a strip switches only the sockets that need it
            case.expect(len(model.log) == n0 and dev.children, "error-lost",
                        f"{name} of {dev.model}: device answered {code}, the call returned {res!r:.200}")
        except Exception as ex:  # noqa: BLE001
            guard(case, name, ex)
            case.covered("raised")

    case.sample = (dev.__class__.__name__, code)
    case.nontrivial((case.index,))
    finish(case, vrun(main))


FAMILIES = [Family("wire", f_wire, 2200, 60000), Family("codes", f_codes, 1200, 8000), Family("status", f_status, 800, 10000),
            Family("net", f_net, 600, 6000), Family("update", f_update, 1200, 20000), Family("connect", f_connect, 700, 15000),
            Family("iot-errors", f_iot_errors, 400, 6000)]
