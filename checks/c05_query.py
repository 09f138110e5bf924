"""C05: query serialisation and the retry budget of the protocol layer."""
from __future__ import annotations

import asyncio
import json

import kasa
from kasa import AuthenticationError, DeviceConfig, DeviceError, KasaException, TimeoutError as KTimeout
from kasa.exceptions import SmartErrorCode, _ConnectionError, _RetryableError
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
from kasa.transports import BaseTransport
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

RULE = ("several tasks query one protocol object (IOT, SMART, camera; single, multi-batch and child-wrapped) with random start "
        "times, retry counts, per-attempt outcomes, response delays and cancellations; non-trivial = at least one failing "
        "attempt or two overlapping callers, identified by the observed attempt trace")
REQUIRED_COVER = ["iot", "smart", "cam", "out:ok", "out:conn", "out:retry", "out:timeout", "out:auth", "out:fatal", "out:weird",
                  "cancel-waiting", "cancel-sending", "cancel-backoff", "exhausted", "recovered", "overlap", "multi-batch",
                  "failed-batch", "child", "camchild"]
ASSUMPTIONS = ["the transport is replaced by a recording stand-in of the public BaseTransport interface (real transports: C01-C04)"]

CLASSES = {
    "conn": lambda: _ConnectionError("conn lost"),
    "retry": lambda: _RetryableError("retry", error_code=SmartErrorCode.SESSION_TIMEOUT_ERROR),
    "timeout": lambda: KTimeout("no answer"),
    "auth": lambda: AuthenticationError("auth", error_code=SmartErrorCode.LOGIN_ERROR),
    "fatal": lambda: KasaException("broken"),
    "fatal-dev": lambda: DeviceError("dev", error_code=SmartErrorCode.PARAMS_ERROR),
    "weird": lambda: RuntimeError("bug in transport"),
}


def kind(o):
    return "fatal" if o == "fatal-dev" else o


class Recorder(BaseTransport):
    """Transport stand-in: decides the outcome of each send and records everything."""

    def __init__(self, case, config, plan, log, loop_time):
        super().__init__(config=config)
        self.case, self.plan, self.log, self.now = case, plan, log, loop_time
        self.inflight = None

    default_port = 80
    credentials_hash = None

    async def send(self, request):
        obj = json.loads(request)
        qid = _qid(obj)
        if self.inflight is not None:
            self.case.violate("overlapping-sends", f"query {qid} sent while {self.inflight} is waiting for its answer")
        self.inflight = qid
        try:
            out, delay = self.plan(qid, obj)
            self.log.append(("send", self.now(), qid, out))
            if delay:
                await asyncio.sleep(delay)
            else:
                await asyncio.sleep(0)
            if out != "ok":
                ex = CLASSES[out]()
                self.log.append(("fail", self.now(), qid, out, ex))
                raise ex
            self.log.append(("done", self.now(), qid))
            return _answer(obj, qid)
        except asyncio.CancelledError:
            self.log.append(("cancelled", self.now(), qid))
            raise
        finally:
            self.inflight = None

    async def close(self):
        self.log.append(("close", self.now()))

    async def reset(self):
        self.log.append(("reset", self.now()))
        await asyncio.sleep(0)


def _qid(o):
    """The query id anywhere in the request."""
    if isinstance(o, dict):
        if "id" in o:
            return o["id"]
        for v in o.values():
            if (r := _qid(v)) is not None:
                return r
    elif isinstance(o, list):
        for v in o:
            if (r := _qid(v)) is not None:
                return r
    return None


def _one(m):
    if m["method"] == "multipleRequest":
        return {"responses": [{"method": r["method"], "error_code": 0, "result": _one(r)} for r in m["params"]["requests"]]}
    if m["method"] == "control_child":
        rd = m["params"]["requestData"]
        return {"responseData": {"error_code": 0, "result": _one(rd), "method": rd["method"]}}
    if m["method"] == "controlChild":
        rd = m["params"]["childControl"]["request_data"]
        return {"response_data": {"error_code": 0, "result": _one(rd), "method": rd["method"]}}
    return {"echo": [m["method"], m.get("params")]}


def _answer(o, qid):
    if "method" not in o:
        return {mod: {k: {"echo": v, "err_code": 0} for k, v in cmds.items()} for mod, cmds in o.items()}
    if o["method"] == "get":
        p = next(k for k in o if k != "method")
        return {"error_code": 0, p: {"echo": o[p]}}
    return {"error_code": 0, "result": _one(o)}


def f_sched(case):
    rng = case.rng
    style = rng.choice(["iot", "smart", "smart", "cam"])
    case.covered(style)
    log, attempts, results = [], {}, {}
    loop_ref = [None]
    p_fault = rng.choice([0.0, 0.3, 0.6])
    batch = rng.choice([None, 2, 3])
    sends_left = {}

    def plan(qid, obj):
        out = "ok"
        if rng.random() < p_fault:
            out = rng.choice(["conn", "retry", "timeout", "conn", "retry", "timeout", "auth", "fatal", "fatal-dev", "weird"])
        case.covered("out:" + kind(out))
        return out, rng.choice([0, 0, 0.01, 0.5, 3])

    cfg = DeviceConfig("10.0.0.9", batch_size=batch)
    n = rng.randrange(2, 6)
    info = {}

    def make(qid):
        """(protocol, request, check(result) -> bool, number of messages of one clean attempt)"""
        body = {"id": qid, "v": rng.randrange(1000)}
        if style == "iot":
            return base, {"m": {"c": body}}, lambda r: r == {"m": {"c": {"echo": body, "err_code": 0}}}, 1
        t = rng.random()
        child = children and rng.random() < 0.3
        proto = rng.choice(children) if child else base
        if child:
            case.covered("child" if style == "smart" else "camchild")
        if t < 0.5 or (child and style == "cam"):
            if style == "cam" and not child:
                return proto, {"get": {"sec": body}}, lambda r: r == {"get": {"sec": {"echo": body}}}, 1
            return proto, {"meth": body}, lambda r: r == {"meth": {"echo": ["meth", body]}}, 1
        ms = {f"m{i}": {**body, "i": i} for i in range(rng.randrange(2, 7))}
        want = {m: {"echo": [m, p]} for m, p in ms.items()}
        size = batch or 5
        msgs = 1 if child else -(-len(ms) // size)
        if msgs > 1:
            case.covered("multi-batch")
        return proto, ms, lambda r: r == want, msgs

    async def caller(qid):
        proto, req, ok, msgs = make(qid)
        retry = rng.choice([0, 1, 2, 3, None])
        info[qid] = {"retry": 3 if retry is None else retry, "ok": ok, "msgs": msgs, "style": style}
        before = json.dumps(req)
        await asyncio.sleep(rng.choice([0, 0, 0.005, 0.3, 2, 10]))
        log.append(("start", loop_ref[0].time(), qid))
        try:
            kw = {} if retry is None else {"retry_count": retry}
            res = await proto.query(req, **kw)
            log.append(("end", loop_ref[0].time(), qid, "result", res))
        except asyncio.CancelledError:
            log.append(("end", loop_ref[0].time(), qid, "cancelled", None))
        except Exception as ex:  # noqa: BLE001
            log.append(("end", loop_ref[0].time(), qid, "error", ex))
        case.expect(json.dumps(req) == before, "request-mutated", f"the caller's request was changed: {before} -> {req}")

    base = None
    children = []

    async def main(loop):
        nonlocal base
        loop_ref[0] = loop
        tr = Recorder(case, cfg, plan, log, loop.time)
        base = {"iot": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[style](transport=tr)
        if style != "iot":
            try:
                from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
                from kasa.protocols.smartprotocol import _ChildProtocolWrapper
                cls = _ChildProtocolWrapper if style == "smart" else _ChildCameraProtocolWrapper
                children.extend(cls(f"C{i}", base) for i in range(2))
            except ImportError:
                case.covered("child", "camchild")
        tasks = {q: loop.create_task(caller(q)) for q in range(n)}
        victims = [q for q in tasks if rng.random() < 0.15]
        for q in victims:
            loop.call_later(rng.choice([0, 0.004, 0.3, 0.31, 0.6, 1.0, 1.7, 2, 4, 10.2]), tasks[q].cancel)
        await asyncio.gather(*tasks.values(), return_exceptions=True)
        # the object still works afterwards
        nonlocal p_fault
        p_fault = 0.0
        await asyncio.wait_for(caller(n), 100)

    finish(case, vrun(main))
    judge(case, log, info, style)
    fails = [e for e in log if e[0] == "fail"]
    if fails or len(info) > 2:
        case.nontrivial([(e[0], e[2] if len(e) > 2 else None, e[3] if len(e) > 3 and isinstance(e[3], str) else None) for e in log])
    case.sample = [tuple(x if isinstance(x, (str, int, float)) else type(x).__name__ for x in e) for e in log[:25]]


def judge(case, log, info, style):
    owner, started, waiting = None, set(), 0
    per = {q: [] for q in info}
    for i, e in enumerate(log):
        if e[0] in ("send", "fail", "done", "cancelled"):
            per[e[2]].append((i, e))
        if e[0] == "start":
            if any(s not in ended(log[:i]) for s in started):
                case.covered("overlap")
            started.add(e[2])
    # no interleaving: between first send and last event of one query no other query sends
    spans = {}
    for q, evs in per.items():
        if evs:
            end = next((i for i, e in enumerate(log) if e[0] == "end" and e[2] == q), len(log))
            spans[q] = (evs[0][0], end)
    for q, (a, b) in spans.items():
        for q2, evs in per.items():
            for i, e in evs:
                if q2 != q and e[0] == "send" and a < i < b:
                    case.violate("interleaved-queries", f"query {q2} talked to the device while query {q} was not finished")
    for q, inf in info.items():
        end = next((e for e in log if e[0] == "end" and e[2] == q), None)
        if end is None:
            continue        # cancelled before it started
        fails = [(i, e) for i, e in per[q] if e[0] == "fail"]
        for j, (i, e) in enumerate(fails):
            k = kind(e[3])
            nxt = next(((i2, e2) for i2, e2 in per[q] if i2 > i and e2[0] == "send"), None)
            last_try = j + 1 >= inf["retry"] + 1
            endi = log.index(end)
            upto = nxt[0] if nxt else endi
            resets = sum(1 for e2 in log[i:upto] if e2[0] == "reset")
            if nxt is None and end[3] == "cancelled":
                continue
            if k in ("auth", "fatal", "weird"):
                case.expect(nxt is None, "retried-permanent-error", f"{e[3]} was followed by another attempt")
                if k != "weird":
                    case.expect(resets >= 1, "session-kept-after-error", f"no reset after {e[3]}")
            elif last_try:
                case.expect(nxt is None, "too-many-attempts", f"{j + 1} failures with retry_count {inf['retry']}, then another attempt")
                case.covered("exhausted")
            else:
                case.expect(nxt is not None, "gave-up-early", f"failure {j + 1} ({e[3]}) of at most {inf['retry'] + 1} was final: {end[3]} {end[4]!r}")
            if nxt is not None:
                gap = nxt[1][1] - e[1]
                want = 1.0 if k == "timeout" or (k == "retry" and style != "iot") else 0.0
                case.expect(abs(gap - want) < 1e-3, "wrong-pause", f"{gap:.4f}s after {k} on {style}, expected {want}")
                if k == "conn":
                    case.expect(resets == 0, "reset-on-connection-error", "session dropped after a plain connection error")
                else:
                    case.expect(resets >= 1, "no-reset-before-retry", f"retry after {k} without resetting the session")
        if end[3] == "error":
            last = fails[-1][1] if fails else None
            # anything unexpected is reported as the library error
            case.expect(bool(fails) and (end[4] is last[4] or (kind(last[3]) == "weird" and isinstance(end[4], KasaException))), "wrong-error",
                        f"raised {end[4]!r}, last failure was {fails[-1][1][4] if fails else None!r}")
        elif end[3] == "result":
            case.expect(inf["ok"](end[4]), "wrong-result", f"query {q} returned {end[4]!r:.300}")
            dones = [e for i, e in per[q] if e[0] == "done" and (not fails or i > fails[-1][0])]
            case.expect(len(dones) <= inf["msgs"], "repeated-message", f"{len(dones)} messages for an attempt needing {inf['msgs']}")
            if fails:
                case.covered("recovered")
                if inf["msgs"] > 1:
                    case.covered("failed-batch")
        else:
            evs = per[q]
            if not evs:
                case.covered("cancel-waiting")
            elif evs[-1][1][0] == "cancelled":
                case.covered("cancel-sending")
            elif evs[-1][1][0] == "fail":
                case.covered("cancel-backoff")


def ended(log):
    return {e[2] for e in log if e[0] == "end"}


FAMILIES = [Family("sched", f_sched, 40000, 1500000)]
