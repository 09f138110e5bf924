"""Common driver and judge for query histories over a session transport."""
from __future__ import annotations

import asyncio
import json

import kasa
from kasa import KasaException

from . import gen, refs
from .vloop import Deadlock, Livelock

RETRYABLE = ("conn", "retry", "timeout")


class History:
    """Queries with unique ids through ``proto``; ``split`` cuts observations into attempts."""

    def __init__(self, case, net, style, split):
        self.case, self.net, self.style, self.split = case, net, style, split
        self.rng = case.rng
        self.obs: list = []            # (stage, outcome)
        self.queries: dict = {}
        self.served: dict = {}
        self.outcomes: list = []
        self.dead: set = set()
        self.on_dead = None
        net.on_dead_write = self._dead

    def _dead(self, conn):
        """The client wrote to a connection the device had dropped (once per connection)."""
        if conn.serial in self.dead:
            return
        self.dead.add(conn.serial)
        self.obs.append(("dead", "conn"))
        if self.on_dead:
            self.on_dead()

    # -- the device application ---------------------------------------
    def handler(self, text):
        rng = self.rng
        try:
            obj = json.loads(text)
            qid = self._find_id(obj)
        except Exception as ex:  # noqa: BLE001
            self.case.violate("request-corrupted", f"{type(ex).__name__} {ex}", text=text[:300])
            return json.dumps({"error_code": -1003})
        want = self.queries.get(qid)
        self.case.expect(want is not None and self._body(obj) == want, "request-changed",
                         "the request the device decoded is not the caller's", text=text[:300])
        rep = {"reply_to": qid, "serial": len(self.served), "pad": gen.rjson(rng, 2),
               "t": gen.rtext(rng), "big": "z" * rng.choice([0, 0, 0, 10, 3000])}
        self.served[rep["serial"]] = rep
        if self.style == "iot":
            out = {"mod": {"echo": rep}}
        elif self.style == "smart":
            out = {"error_code": 0, "result": rep}
        elif self.style == "cam":
            out = {"error_code": 0, "echo": rep}
        return json.dumps(out, ensure_ascii=rng.random() < 0.7)

    def _find_id(self, obj):
        if self.style == "iot":
            return obj["mod"]["echo"]["id"]
        if self.style == "smart":
            return obj["params"]["id"]
        return obj["echo"]["id"]

    def _body(self, obj):
        if self.style == "iot":
            return refs.canon(obj["mod"]["echo"])
        if self.style == "smart":
            return refs.canon(obj["params"]) if obj.get("method") == "echo" else None
        return refs.canon(obj["echo"])

    def make(self):
        qid = len(self.queries)
        body = {"id": qid, "m": gen.rjson(self.rng, 2), "t": gen.rtext(self.rng),
                "pad": "q" * self.rng.choice([0, 0, 0, 300, 5000])}
        self.queries[qid] = refs.canon(body)
        if self.style == "iot":
            return qid, {"mod": {"echo": body}}
        if self.style == "smart":
            return qid, {"echo": body}
        return qid, {"get": {"echo": body}}

    def unwrap(self, res):
        if self.style == "iot":
            return res["mod"]["echo"]
        return res["get"]["echo"] if self.style == "cam" else res["echo"]

    def check_reply(self, qid, res):
        try:
            rep = self.unwrap(res)
            rid = rep["reply_to"]
        except Exception:  # noqa: BLE001
            self.case.violate("wrong-reply", f"query {qid} returned {res!r:.300}")
            return
        if rid != qid:
            self.case.violate("wrong-reply", f"query {qid} was given the reply to {rid}")
            return
        self.case.expect(refs.canon(rep) == refs.canon(self.served.get(rep.get("serial"))), "reply-changed",
                         "returned data differs from what the device sent")

    # -- queries ------------------------------------------------------
    async def sequential(self, proto, retry):
        case = self.case
        o0 = len(self.obs)
        qid, req = self.make()
        res = exc = None
        try:
            res = await proto.query(req, retry_count=retry)
        except KasaException as ex:
            exc = ex
        except asyncio.CancelledError:
            raise
        except Exception as ex:  # noqa: BLE001
            obs = self.obs[o0:]
            what = f"{type(ex).__name__} instead of a library exception"
            if obs:
                case.violate(f"undocumented-exception:{type(ex).__name__}", f"{what}: {ex}; observed {obs}")
            else:
                raise
            self.outcomes.append(("undocumented", type(ex).__name__))
            return None, ex
        obs = self.obs[o0:]
        self.judge(qid, obs, res, exc, retry)
        return res, exc

    def judge(self, qid, obs, res, exc, retry):
        case = self.case
        att = self.split(obs)
        self.outcomes.append((tuple(att), type(exc).__name__ if exc else "ok"))
        for o in att:
            case.covered("outcome:" + o)
        for o in att[:-1]:
            if o == "ok":
                case.violate("retried-after-success", f"attempts {att}")
            elif o in ("fatal", "auth"):
                case.violate("retried-permanent-error", f"attempts {att}")
        if len(att) > retry + 1:
            case.violate("too-many-attempts", f"{att} with retry_count={retry}; observed {obs}")
        last = att[-1] if att else None
        if exc is None:
            if last != "any":
                case.expect(last == "ok", "made-up-result", f"success although the device did {obs}")
                self.check_reply(qid, res)
            if len(att) > 1:
                case.covered("retry-succeeded")
            return
        if (last or "").startswith("incomplete:"):
            case.violate("failed-without-cause", f"{exc!r} although the device answered {last[11:]} correctly",
                         observed=obs)
        elif last == "ok":
            case.violate("lost-reply", f"the device answered but the query raised {exc!r}", observed=obs)
        elif last in RETRYABLE:
            if len(att) != retry + 1:
                case.violate("gave-up-early", f"attempts {att} of {retry + 1} before {exc!r}")
        if len(obs[-1:]) and len(obs[-1]) > 2 and last not in ("ok", "any"):
            code = obs[-1][2]
            case.expect(isinstance(exc, kasa.DeviceError) and exc.error_code is refs_code(code), "wrong-error-code",
                        f"device error {code} reported as {exc!r} with code {getattr(exc, 'error_code', None)!r}")
        if last == "timeout":
            case.expect(isinstance(exc, kasa.TimeoutError), "wrong-error", f"timeout reported as {type(exc).__name__}: {exc}")
        elif last == "auth":
            case.expect(isinstance(exc, kasa.AuthenticationError), "wrong-error",
                        f"authentication failure reported as {type(exc).__name__}: {exc}")
        elif last in ("conn", "fatal", "retry"):
            case.expect(not isinstance(exc, (kasa.TimeoutError, kasa.AuthenticationError)), "wrong-error",
                        f"{last} failure reported as {type(exc).__name__}: {exc}")
        elif last is None:
            case.violate("no-attempt", f"query raised {exc!r} without contacting the device")

    async def concurrent(self, loop, proto, n, cancel_at=None):
        case = self.case
        reqs = [self.make() for _ in range(n)]
        tasks = [loop.create_task(proto.query(r, retry_count=self.rng.choice([0, 1, 2]))) for _, r in reqs]
        victim = None
        if cancel_at is not None:
            victim = self.rng.randrange(n)
            loop.call_later(cancel_at, tasks[victim].cancel)
        rs = await asyncio.gather(*tasks, return_exceptions=True)
        case.covered("concurrent")
        for i, ((qid, _), r) in enumerate(zip(reqs, rs)):
            if isinstance(r, asyncio.CancelledError):
                case.expect(i == victim, "foreign-cancel", "a query was cancelled by its neighbour")
            elif isinstance(r, KasaException):
                pass
            elif isinstance(r, BaseException):
                case.violate(f"undocumented-exception:{type(r).__name__}", repr(r))
            elif ("any" not in [o[1] for o in self.obs]):
                self.check_reply(qid, r)
        self.outcomes.append(("conc", tuple(type(r).__name__ for r in rs)))
        return rs

    async def cancelled(self, loop, proto, delay):
        """Start a query and cancel it after ``delay`` (None: after a few loop turns)."""
        case = self.case
        o0 = len(self.obs)
        qid, req = self.make()
        t = loop.create_task(proto.query(req, retry_count=self.rng.choice([0, 1, 3])))
        if delay is None:
            for _ in range(self.rng.randrange(0, 40)):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(delay)
        t.cancel()
        try:
            res = await t
            if "any" not in [o[1] for o in self.obs[o0:]]:
                self.check_reply(qid, res)
            self.outcomes.append(("cancel-too-late",))
            return False
        except asyncio.CancelledError:
            if len(self.obs) > o0:
                case.covered("cancelled-in-flight")
            self.outcomes.append(("cancel", tuple(o[0] for o in self.obs[o0:])))
            return True
        except KasaException as ex:
            self.outcomes.append(("cancel-raised", type(ex).__name__))
            return False


def refs_code(code):
    from kasa.exceptions import SmartErrorCode
    try:
        return SmartErrorCode(code)
    except ValueError:
        return SmartErrorCode.INTERNAL_UNKNOWN_ERROR


def finish(case, run, hist=None):
    """Verdicts about the run as a whole."""
    if run.exc is not None:
        if isinstance(run.exc, (Deadlock, Livelock)):
            case.violate("hang", f"{type(run.exc).__name__}: {run.exc}")
        else:
            raise run.exc
    case.expect(not run.leftover_tasks, "leaked-task", str(run.leftover_tasks)[:500])
    case.expect(not run.unhandled, "unhandled-error", str([str(u) for u in run.unhandled])[:800])


def expected_exc(ex):
    return isinstance(ex, KasaException)
