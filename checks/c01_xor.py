"""C01: XOR/TCP request/response pairing under segmentation, faults, cancellation."""
from __future__ import annotations

import asyncio
import errno
import importlib
import json
import sys
from types import SimpleNamespace

import kasa
from kmon import gen, refs
from kmon.core import Family
from kmon.net import Hang, Net
from kmon.servers import XorServer
from kmon.vloop import vrun

RULE = ("random histories of queries (sequential, concurrent, cancelled) on one IotProtocol/XorTransport against an "
        "in-memory TCP device with random segmentation, delays and connection faults; non-trivial = at least two "
        "queries and one fault, segmentation or cancellation, identified by the sequence of observed outcomes")
REQUIRED_COVER = ["outcome:ok", "outcome:err", "outcome:timeout", "connect:refused", "connect:oserror",
                  "connect:timeout", "cancelled-in-flight", "retry-succeeded", "idle-close", "concurrent", "segmented",
                  "pure-python-cipher"]
ASSUMPTIONS = ["virtual clock and in-memory TCP stand in for the kernel", "device answers requests of one connection in order"]

NS = SimpleNamespace(kasa=kasa)
_PURE = []


def pure_kasa():
    """A second copy of kasa imported with the C accelerated cipher unavailable."""
    if not _PURE:
        saved = {k: v for k, v in sys.modules.items() if k == "kasa" or k.startswith("kasa.")}
        blocked = sys.modules.get("kasa_crypt", 0)
        for k in saved:
            del sys.modules[k]
        sys.modules["kasa_crypt"] = None
        try:
            mod = importlib.import_module("kasa")
            importlib.import_module("kasa.transports.xortransport")
            importlib.import_module("kasa.protocols")
            _PURE.append(SimpleNamespace(kasa=mod, transports=sys.modules["kasa.transports.xortransport"],
                                         protocols=sys.modules["kasa.protocols"]))
        finally:
            for k in [k for k in sys.modules if k == "kasa" or k.startswith("kasa.")]:
                del sys.modules[k]
            sys.modules.update(saved)
            if blocked == 0:
                del sys.modules["kasa_crypt"]
            else:
                sys.modules["kasa_crypt"] = blocked
    return _PURE[0]


def default_ns():
    import kasa.protocols
    import kasa.transports.xortransport
    return SimpleNamespace(kasa=kasa, transports=kasa.transports.xortransport, protocols=kasa.protocols)


class Direct:
    """The transport used without a protocol: one attempt per call, calls serialised by the caller."""

    def __init__(self, transport):
        self.t = transport
        self.lock = asyncio.Lock()

    async def query(self, req, retry_count=0):
        async with self.lock:
            return await self.t.send(req if isinstance(req, str) else json.dumps(req))

    async def close(self):
        await self.t.close()


def history(case, ns, direct=False):
    rng = case.rng
    K = ns.kasa
    timeout = rng.choice([1, 2, 5, 5, 10])
    host, port = "10.0.0.9", rng.choice([9999, 9999, 12345])
    net = Net(case)
    huge = case.index % 400 == 7 and ns.kasa is kasa
    profile = rng.choice(["calm", "faulty", "faulty", "hostile"])
    p_fault = {"calm": 0.15, "faulty": 0.45, "hostile": 0.8}[profile]
    p_conn = {"calm": 0.02, "faulty": 0.15, "hostile": 0.35}[profile]
    attempts: list = []        # observed attempts in order: (kind, conn)
    dirty: set = set()         # connections that must not carry another request
    busy: dict = {}            # conn serial -> request unanswered
    queries: dict = {}         # id -> canonical request
    served: dict = {}

    def connect_policy(n):
        if rng.random() >= p_conn:
            return rng.choice([None, None, 0.001, timeout * 0.5])
        k = rng.randrange(6)
        if k == 0:
            attempts.append(("refused", None))
            case.covered("connect:refused")
            return ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if k == 1:
            attempts.append(("refused", None))
            case.covered("connect:refused")
            return OSError(rng.choice([errno.EHOSTDOWN, errno.EHOSTUNREACH, errno.ECONNREFUSED]), "no route")
        if k in (2, 3):
            attempts.append(("err", None))
            case.covered("connect:oserror")
            return rng.choice([OSError(errno.ENETUNREACH, "net"), OSError(errno.ECONNRESET, "rst"), OSError("odd"),
                               ConnectionResetError(errno.ECONNRESET, "rst")])
        attempts.append(("timeout", None))
        case.covered("connect:timeout")
        return Hang if k == 4 else timeout * 1.3

    def pick(n_frame):
        if rng.random() >= p_fault:
            return None, "ok"
        k = rng.randrange(14)
        if k in (0, 1, 2):
            cuts = gen.rcuts(rng, n_frame)
            gap = rng.choice([0.0, 0.001, timeout * 0.8 / max(1, len(cuts))])
            case.covered("segmented")
            return ("cut", cuts, gap), "ok"
        if k == 3:
            return ("slow", timeout * 0.9), "ok"
        if k == 4:
            return ("late", timeout * rng.choice([1.05, 1.2, 2.5, 4.0])), "timeout"
        if k == 5:
            return ("truncate", rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(5000)]), rng.choice([0, 0.1])), "err"
        if k == 6:
            return ("truncate-reset", rng.randrange(5000), rng.choice([0, 0.1])), "err"
        if k == 7:
            return ("truncate-stall", rng.choice([0, 1, 3, 4, rng.randrange(5000)])), "timeout"
        if k == 8:
            return ("stall",), "timeout"
        if k == 9:
            return (rng.choice(["close-before", "reset-before"]),), "err"
        if k == 10:
            return ("text", rng.choice([b"", b"{", b"not json", b"\xff\xfe\xfa", b'{"a":1}}', b"nul"])), "err"
        if k == 11:
            return ("raw", rng.choice([b"\x00\x00\x00\x02" + b"\x01" * 9, b"\x00\x00\x00\x00" + b"zz"])), "err"
        if k == 12:
            return ("raw", b"\x7f\xff\xff\xff" + b"junk"), "timeout"
        return ("ok-then-close", rng.choice([0, 0.01])), "ok"

    class Srv(XorServer):
        def on_request(self, conn, raw, text):
            case.count("requests_on_wire")
            if conn.serial in dirty:
                case.violate("reused-failed-connection",
                             "a request was sent on a connection on which an earlier exchange had failed", text=text[:200])
            if busy.get(conn.serial):
                case.violate("pipelined", "request sent while the previous one was unanswered", text=text[:200])
            live = [c for c in net.open_conns() if c is not conn]
            if live:
                case.violate("second-connection", f"{len(live) + 1} connections open at once")
            try:
                obj = json.loads(text)
                qid = obj["id"]
            except Exception as ex:  # noqa: BLE001
                case.violate("request-corrupted", f"{ex}", text=text[:300])
                conn.send_eof()
                return
            case.expect(refs.canon(obj) == queries.get(qid), "request-changed",
                        "the request on the wire is not the caller's request", text=text[:300])
            busy[conn.serial] = True
            super().on_request(conn, raw, text)

        def _answer(self, conn, frame, out, f):
            busy[conn.serial] = False
            super()._answer(conn, frame, out, f)

    def handler(text):
        obj = json.loads(text)
        serial = len(served)
        rep = {"reply_to": obj["id"], "serial": serial, "pad": gen.rjson(rng), "t": gen.rtext(rng),
               "big": "z" * (rng.choice([1 << 20, 1 << 21, 5000000]) if huge and not serial else rng.choice([0, 0, 10, 3000, 70000]))}
        served[serial] = rep
        return json.dumps(rep, ensure_ascii=rng.random() < 0.5)

    def plan(stage, n):
        f, out = pick(rng.choice([20, 60, 300]))
        conn = net.conns[-1]
        attempts.append((out, conn.serial))
        case.covered("outcome:" + out)
        if out != "ok":
            dirty.add(conn.serial)
        elif f and f[0] == "ok-then-close":
            case.covered("idle-close")
        return f

    srv = Srv(net, host, port, handler, connect_policy=connect_policy, bad=case.violate, plan=plan,
              clock=lambda: loop_ref[0].time(), rng=rng)
    loop_ref = [None]
    outcomes = []

    def make_request():
        qid = len(queries)
        obj = {"id": qid, "m" + gen.rtext(rng, 3): gen.rjson(rng), "pad": "q" * rng.choice([0, 0, 0, 500, 20000])}
        queries[qid] = refs.canon(obj)
        return qid, (json.dumps(obj) if rng.random() < 0.2 else obj)

    def check_reply(qid, res):
        if not isinstance(res, dict) or res.get("reply_to") != qid:
            case.violate("wrong-reply", f"query {qid} was given {res!r:.300}")
            return
        case.expect(refs.canon(res) == refs.canon(served.get(res.get("serial"))), "reply-changed",
                    "returned data differs from what the device sent", got=res)

    def known_conn(serial):
        return serial is not None

    async def one(proto, qid, req, retry):
        a0 = len(attempts)
        dead0 = sum(1 for h in net.history if h[0] == "write-after-server-close")
        idle_dead = any(c.server_closed for c in net.open_conns()) or any(
            c.closed_by == "server" for c in net.conns[-1:])
        try:
            res = await proto.query(req, retry_count=retry)
            exc = None
        except K.KasaException as ex:
            res, exc = None, ex
        obs = [a[0] for a in attempts[a0:]]
        dead = sum(1 for h in net.history if h[0] == "write-after-server-close") - dead0
        outcomes.append((tuple(obs), type(exc).__name__ if exc else "ok"))
        # the attempt that died on an already closed connection left no request on the wire
        slack = 1 if (idle_dead or dead) else 0
        budget = retry + 1
        for i, o in enumerate(obs):
            last = i == len(obs) - 1
            if o == "ok" and not last:
                case.violate("retried-after-success", f"attempts {obs}")
            if o == "refused" and not last:
                case.violate("refused-not-immediate", f"attempts {obs}")
        if len(obs) > budget:
            case.violate("too-many-attempts", f"{obs} with retry_count={retry}")
        lasto = obs[-1] if obs else None
        if exc is None:
            check_reply(qid, res)
            case.expect(lasto == "ok", "made-up-result", f"success although attempts were {obs}")
            if len(obs) > 1:
                case.covered("retry-succeeded")
        else:
            if lasto == "ok":
                case.violate("lost-reply", f"device answered in time but the query raised {exc!r}", attempts=obs)
            elif lasto == "refused":
                case.expect(not isinstance(exc, K.TimeoutError), "wrong-error", f"refused reported as {exc!r}")
            else:
                case.expect(len(obs) >= budget - slack, "gave-up-early",
                            f"only attempts {obs} of {budget} before {exc!r}")
                if lasto == "timeout":
                    case.expect(isinstance(exc, K.TimeoutError), "wrong-error",
                                f"a timeout was reported as {type(exc).__name__}: {exc}")
                elif lasto == "err":
                    case.expect(not isinstance(exc, (K.TimeoutError, K.AuthenticationError)), "wrong-error",
                                f"a connection problem was reported as {type(exc).__name__}: {exc}")
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            case.expect(not net.open_conns(), "connection-kept-after-failure",
                        f"connection still open after {exc!r}; attempts {obs}")

    async def main(loop):
        loop_ref[0] = loop
        cfg = K.DeviceConfig(host=host, timeout=timeout, port_override=None if port == 9999 else port)
        transport = ns.transports.XorTransport(config=cfg)
        proto = Direct(transport) if direct else ns.protocols.IotProtocol(transport=transport)
        for _ in range(rng.randrange(2, 9)):
            kind = rng.choice(["seq"] * 6 + ["cancel", "cancel", "conc", "close", "idle"])
            if kind == "seq":
                qid, req = make_request()
                await one(proto, qid, req, 0 if direct else rng.choice([0, 1, 2, 3, 3]))
            elif kind == "cancel":
                qid, req = make_request()
                t = loop.create_task(proto.query(req, retry_count=rng.choice([0, 1, 3])))
                nreq = len(attempts)
                if rng.random() < 0.5:
                    for _ in range(rng.randrange(0, 14)):
                        await asyncio.sleep(0)
                else:
                    await asyncio.sleep(rng.choice([0.0005, 0.05, timeout * 0.3, timeout * 0.85, timeout * 1.4]))
                was_done = t.done()
                t.cancel()
                try:
                    res = await t
                    check_reply(qid, res)
                except asyncio.CancelledError:
                    outcomes.append(("cancel", len(attempts) - nreq))
                    if len(attempts) > nreq:
                        case.covered("cancelled-in-flight")
                    for c in net.conns:
                        if c.open:
                            dirty.add(c.serial)
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                    if len(attempts) > nreq and attempts[-1][0] is not None and not was_done:
                        case.expect(not net.open_conns(), "connection-kept-after-cancel",
                                    "connection still open after the query on it was cancelled")
                    if not net.open_conns():
                        pass
                    else:  # cancelled before it touched the connection: it may be reused
                        for c in net.open_conns():
                            dirty.discard(c.serial)
                except K.KasaException:
                    outcomes.append(("cancel-raised",))
            elif kind == "conc":
                case.covered("concurrent")
                reqs = [make_request() for _ in range(rng.randrange(2, 5))]
                tasks = [loop.create_task(proto.query(r, retry_count=rng.choice([0, 2]))) for _, r in reqs]
                victim = None
                if rng.random() < 0.4:
                    victim = rng.randrange(len(tasks))
                    loop.call_later(rng.choice([0, 0.001, timeout * 0.4]), tasks[victim].cancel)
                rs = await asyncio.gather(*tasks, return_exceptions=True)
                for i, ((qid, _), r) in enumerate(zip(reqs, rs)):
                    if isinstance(r, asyncio.CancelledError):
                        case.expect(i == victim, "foreign-cancel", "a query was cancelled by its neighbour")
                    elif isinstance(r, BaseException):
                        case.expect(isinstance(r, K.KasaException), "undocumented-exception", repr(r))
                    else:
                        check_reply(qid, r)
                outcomes.append(("conc", tuple(type(r).__name__ for r in rs)))
                for c in net.open_conns():
                    pass
            elif kind == "close":
                await proto.close()
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                case.expect(not net.open_conns(), "close-leaks", "connection open after close()")
            else:  # device closes the idle connection
                for c in net.open_conns():
                    if rng.random() < 0.5:
                        c.send_eof()
                    else:
                        c.send_reset()
                    case.covered("idle-close")
                await asyncio.sleep(0.5)
        await proto.close()
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        case.expect(not net.open_conns(), "close-leaks", "connection open after close()")

    r = vrun(main, net=net)
    if r.exc is not None:
        if isinstance(r.exc, Exception) and type(r.exc).__name__ in ("Deadlock", "Livelock"):
            case.violate("hang", f"{type(r.exc).__name__}: {r.exc}")
        else:
            raise r.exc
    case.expect(not r.leftover_tasks, "leaked-task", str(r.leftover_tasks))
    case.expect(not r.unhandled, "unhandled-error", str(r.unhandled))
    case.nontrivial(outcomes)
    case.sample = {"timeout": timeout, "profile": profile, "outcomes": outcomes}


def f_history(case):
    history(case, default_ns())


def f_direct(case):
    history(case, default_ns(), direct=True)


def f_pure(case):
    case.covered("pure-python-cipher")
    history(case, pure_kasa())


def f_cipher(case):
    rng = case.rng
    ns = default_ns() if case.index % 2 else pure_kasa()
    X = ns.transports.XorEncryption
    n = rng.choice([0, 1, 2, 3, 4, 5, 255, 256, 257, 4095, 65535, 65536, rng.randrange(3000)])
    alphabet = rng.choice(["a", "\x00", "\x7f", "aé日🙂\"\\", "".join(map(chr, range(128)))])
    text = "".join(rng.choice(alphabet) for _ in range(n))
    wire = bytes(X.encrypt(text))
    case.expect(wire == refs.xor_frame(text.encode()), "cipher-encrypt", "encrypted frame differs from the protocol",
                text=text[:200])
    back = X.decrypt(refs.xor_plain_to_wire(text.encode()))
    case.expect(back == text, "cipher-decrypt", "decryption differs", text=text[:200], got=back[:200])
    case.nontrivial((n, alphabet))


FAMILIES = [Family("history", f_history, 4000, 60000), Family("transport", f_direct, 1500, 20000), Family("pure", f_pure, 400, 5000),
            Family("cipher", f_cipher, 400, 4000)]
