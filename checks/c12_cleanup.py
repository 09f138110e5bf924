"""C12: every connection the library opens is closed, nothing else is."""
from __future__ import annotations

import asyncio
import errno
import json
import random

import aiohttp

from kasa import Credentials, Device, Discover, KasaException
from kasa.device_factory import get_protocol
from kasa.httpclient import get_cookie_jar

from checks.c11_connect import pick
from kmon import refs
from kmon.core import Family
from kmon.history import finish
from kmon.net import Hang, Net
from kmon.rig import KINDS, Rig
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: a resource monitor (in-memory sockets, datagram endpoints, HTTP sessions, pending connects, tasks) "
             "audited after every disconnect, failed or cancelled operation, with cancellation injected at a chosen loop step and "
             "faults injected on the wire")
NOTE = ("real connect/update/discover/probe against servers of every transport; each case first runs undisturbed to learn its "
        "number of loop steps, then again with the cancellation at a random step")
RULE = "a case = one operation history with faults and at most a few cancellations; non-trivial = something was opened"
ASSUMPTIONS = ("Audited without garbage collection, 10 ms after the operation ended.",
               "A second interruption while the library is cleaning up after a first one is not claimed.",
               "Disconnecting while other tasks still query the device is not exercised.")
HTTP = [k for k in KINDS if k != "xor"]
LIVE = [k for k in KINDS if k != "linkie"]
REQUIRED_COVER = [*(f"protocol:{k}" for k in KINDS), *(f"connect:failed-{k}" for k in LIVE), *(f"connect:cancelled-{k}" for k in LIVE), *(f"connect:ok-{k}" for k in LIVE),
                  "connect:user-session", "life:reopened", "life:cancelled", "life:failed", "discover:cancelled", "discover:callback-raised",
                  "discover:ok", "discover:cancelled-in-callback", "single:cancelled", "single:ok", "single:none",
                  "probe:cancelled", "probe:found", "probe:nothing"]


class Audit:
    """The resource monitor."""

    def __init__(self, case, net, loop, session=None):
        self.case, self.net, self.loop, self.session = case, net, loop, session

    def own(self):
        """Connections that are not in the user's own session."""
        mine = self.session_conns()
        return [c for c in self.net.open_conns() if c not in mine]

    def session_conns(self):
        if self.session is None or self.session.connector is None:
            return []
        # every HTTP connection belongs to the user's session when one was given
        return [c for c in self.net.conns if c.port != 9999]

    async def closed(self, what):
        case, net = self.case, self.net
        await asyncio.sleep(0.01)
        case.expect(not self.own(), "connection-left-open", f"{what}: {[(c.host, c.port) for c in self.own()]}")
        left = [s for s in net.open_sessions() if s is not self.session]
        case.expect(not left, "session-left-open", f"{what}: {len(left)} HTTP sessions")
        case.expect(not net.open_udp_endpoints(), "endpoint-left-open", what)
        case.expect(not net.pending_connects, "connect-left-pending", what)
        me = asyncio.current_task()
        rest = [t.get_coro().__qualname__ for t in asyncio.all_tasks() if t is not me and not t.done()]
        case.expect(not rest, "task-left-running", f"{what}: {rest}")
        self.users(what)

    def users(self, what):
        if self.session is not None:
            self.case.expect(not self.session.closed, "user-session-closed", what)
            others = [s for s in self.net.sessions if s is not self.session]
            self.case.expect(not others, "user-session-not-used", f"{what}: {len(others)} other sessions were made")


async def cancelled_at(loop, coro, step):
    """Run ``coro`` and cancel it ``step`` loop turns from now -> (result, exception, was cancelled)."""
    task = loop.create_task(coro)
    start = loop.steps
    fired = [False]

    def hook(n):
        if not fired[0] and n - start >= step:
            fired[0] = True
            if not task.done():
                task.cancel()
                return True
        return False

    loop.step_hook = hook if step is not None else None
    try:
        await asyncio.wait([task])
    finally:
        loop.step_hook = None
    if task.cancelled():
        return None, None, True
    if task.exception() is not None:
        return None, task.exception(), False
    return task.result(), None, False


def faulty_plan(rng, kind, rate):
    if kind == "xor":
        faults = [("close-before",), ("reset-before",), ("stall",), ("truncate", 7), ("raw", b"\0\0\0\4abcd"), ("text", b"[]"),
                  ("slow", 0.5), ("ok-then-close",), ("truncate-stall", 9)]
    else:
        faults = [("disconnect",), ("reset",), ("stall",), ("stall-mid",), ("status", 403), ("status", 500), ("body", b"junk"),
                  ("body", b'{"error_code":-1}'), ("garbage",), ("partial",), ("slow", 0.5), ("status", 503)]

    def plan(stage, n):
        return rng.choice(faults) if rng.random() < rate[0] else None

    return plan


def policy(rng, rate):
    def pol(n):
        if rng.random() < rate[0]:
            return rng.choice([Hang, 0.7, ConnectionRefusedError(errno.ECONNREFUSED, "refused"), OSError(errno.EHOSTUNREACH, "no route"),
                               ConnectionResetError(errno.ECONNRESET, "reset"), TimeoutError("t")])
        return rng.choice([None, None, 0.05])
    return pol


def build(case, rng, net, kind, rate, **kw):
    model, fam, cname = pick(rng, kind)
    frng = random.Random(rng.random())
    rig = Rig(kind, net, rng, lambda t: model.request(json.loads(t)), family=fam, plan=faulty_plan(frng, kind, rate),
              connect_policy=policy(frng, rate), timeout=2, **kw)
    return rig, model


def attempt(case, seed, scenario, step):
    """One run of ``scenario(case, rng, loop, step)`` with its own network; -> (loop steps taken, run)."""
    net = Net(case)
    rng = random.Random(seed)
    box = {}

    async def main(loop):
        await scenario(case, rng, net, loop, step, box)

    run = vrun(main, net=net)
    return box, run


def twice(case, scenario):
    """Undisturbed first; then with the cancellation somewhere inside."""
    seed = case.rng.random()
    box, run = attempt(case, seed, scenario, None)
    finish(case, run)
    if case.violations or not box.get("steps"):
        return
    for _ in range(3):
        _, run = attempt(case, seed, scenario, case.rng.randrange(box["steps"] + 1))
        finish(case, run)
        if case.violations:
            return


def f_connect(case):
    """Connects that fail or are cancelled at any step leave nothing; successful ones close at disconnect and reopen."""
    kind = LIVE[case.index % len(LIVE)]
    own = case.rng.random() < 0.6 or kind == "xor"
    rate0 = case.rng.choice([0.0, 0.0, 0.05, 0.3, 1.0])

    async def scenario(case, rng, net, loop, step, box):
        rate = [rate0]
        session = None if own else aiohttp.ClientSession(cookie_jar=get_cookie_jar())
        rig, model = build(case, rng, net, kind, rate, auth=rng.choice(["plain", "plain", "hash", "none"]))
        rig.loop = loop
        if rng.random() < 0.1:
            rig.config.credentials = Credentials("user@x.org", "wrong")
        if session:
            rig.config.http_client = session
            case.covered("user-session")
        audit = Audit(case, net, loop, session)
        s0 = loop.steps
        dev, exc, cancelled = await cancelled_at(loop, Device.connect(config=rig.config), step)
        box["steps"] = loop.steps - s0
        if dev is None:
            case.covered(("cancelled-" if cancelled else "failed-") + kind)
            await audit.closed(f"{kind} connect {'cancelled at ' + str(step) if cancelled else 'failed ' + repr(exc)[:80]}")
            case.count("opened", len(net.conns))
        else:
            case.covered("ok-" + kind)
            case.expect(net.open_conns() or kind != "xor" or rate0, "no-connection", kind)
            await dev.disconnect()
            await audit.closed(f"{kind} disconnect")
            rate[0] = 0.0
            n = len(net.conns)
            try:
                await dev.update()
                case.expect(len(net.conns) > n or session, "no-new-connection", kind)
            except KasaException as ex:
                case.violate("dead-after-disconnect", f"{kind}: {ex!r}")
            await dev.disconnect()
            await audit.closed(f"{kind} second disconnect")
            await dev.disconnect()          # once more does no harm
            await audit.closed(f"{kind} third disconnect")
        if session:
            audit.users(kind)
            await session.close()

    twice(case, scenario)
    case.sample = (kind, own, rate0)
    case.nontrivial((kind, own, rate0, case.index))


def f_life(case):
    """Histories of updates and switches with faults, cancellations and disconnects on one device."""
    rng = case.rng
    kind = LIVE[case.index % len(LIVE)]
    net = Net(case)
    rate = [0.0]
    session = None
    ops = []

    async def main(loop):
        nonlocal session
        rig, model = build(case, rng, net, kind, rate)
        rig.loop = loop
        if kind != "xor" and rng.random() < 0.4:
            session = rig.config.http_client = aiohttp.ClientSession(cookie_jar=get_cookie_jar())
        audit = Audit(case, net, loop, session)
        dev = await Device.connect(config=rig.config)
        steps = 60
        for _ in range(rng.randrange(3, 9)):
            rate[0] = rng.choice([0.0, 0.1, 0.5, 1.0])
            op = rng.choice(["update", "update", "cancel", "query", "disconnect", "wait"])
            ops.append(op)
            if op == "wait":
                await asyncio.sleep(rng.choice([0.1, 20, 4000, 90000]))
            elif op == "disconnect":
                await dev.disconnect()
                await audit.closed(f"{kind} disconnect after {ops}")
            else:
                coro = dev.update() if op != "query" else dev.protocol.query(
                    {"system": {"get_sysinfo": {}}} if rig.style == "iot" else
                    {"get_device_info": None} if rig.style == "smart" else {"getDeviceInfo": {"device_info": {"name": ["basic_info"]}}})
                s0 = loop.steps
                _, exc, cancelled = await cancelled_at(loop, coro, rng.randrange(steps) if op == "cancel" else None)
                if cancelled:
                    case.covered("cancelled")
                elif exc is not None:
                    case.covered("failed")
                    if not isinstance(exc, KasaException):
                        raise exc
                else:
                    steps = max(10, loop.steps - s0)
        await dev.disconnect()
        await audit.closed(f"{kind} disconnect after {ops}")
        rate[0] = 0.0
        await asyncio.sleep(1)
        for i in (1, 2):
            try:
                await dev.update()
                break
            except KasaException as ex:
                if i == 2:
                    case.violate("dead-after-disconnect", f"{kind}: {ex!r} after {ops}")
        case.covered("reopened")
        await dev.disconnect()
        await audit.closed(f"{kind} last disconnect after {ops}")
        if session:
            audit.users(kind)
            await session.close()

    run = vrun(main, net=net)
    case.sample = (kind, ops)
    case.nontrivial((kind, tuple(ops), case.index))
    finish(case, run)


def reply_for(rng, kind, rig, fam, model):
    _, enc, lv, https, dport, style = KINDS[kind]
    if kind == "xor":
        return refs.xor_plain_to_wire(json.dumps(model.request({"system": {"get_sysinfo": {}}})).encode()), 9999
    schm = {"is_support_https": https, "encrypt_type": enc.value, "http_port": rig.port}
    if lv:
        schm["lv"] = lv
    res = {"device_type": fam, "device_model": "M(EU)", "device_id": "ID", "ip": rig.host, "mac": "AA-BB-CC-DD-EE-FF",
           "mgt_encrypt_schm": schm}
    return rng.randbytes(16) + json.dumps({"error_code": 0, "result": res}).encode(), 20002


class Boom(Exception):
    pass


def f_discover(case):
    """Discovery whose callbacks talk to the devices: failing callbacks and cancellation leave nothing open."""
    how = case.rng.choice(["plain", "plain", "raise", "slow"])
    n = case.rng.randrange(1, 4)
    target = case.rng.random() < 0.2

    async def scenario(case, rng, net, loop, step, box):
        rate = [0.0]
        replies = []
        rigs = []
        for i in range(n):
            kind = rng.choice(LIVE)
            rig, model = build(case, rng, net, kind, rate, host=f"10.1.2.{3 + i}")
            rig.loop = loop
            rigs.append(rig)
            replies.append((*reply_for(rng, kind, rig, rig.params.device_family.value, model), rig.host, rng.choice([0.01, 0.5, 1.7, 4.9])))
        if rng.random() < 0.4:       # and an unsupported and a broken one
            bad = {"device_type": "SMART.TAPOCHIME2", "device_model": "M", "device_id": "I", "ip": "10.1.2.90", "mac": "AA",
                   "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "NEW"}}
            replies.append((b"\0" * 16 + json.dumps({"error_code": 0, "result": bad}).encode(), 20002, "10.1.2.90", 0.2))
            replies.append((b"\0" * 16 + b"{}", 20002, "10.1.2.91", 0.2))
        sent, raised = [], []
        inside = [0]
        exc_cls = rng.choice([KasaException, Boom, ValueError, asyncio.TimeoutError])
        victim = rng.randrange(n)

        def respond(tr, data, addr):
            if not sent:
                sent.append(1)
                for data_, port, host, delay in replies:
                    tr.inject(data_, (host, port), delay)

        net.udp_responder = respond

        async def on_discovered(dev):
            inside[0] += 1
            try:
                await dev.update()
                if how == "slow":
                    await asyncio.sleep(rng.choice([1, 8]))
                    await dev.update()
                if how == "raise" and dev.host == rigs[victim].host:
                    case.covered("callback-raised")
                    raised.append(1)
                    raise exc_cls("callback failed")
            finally:
                inside[0] -= 1

        async def on_unsupported(ex):
            if how == "slow":
                await asyncio.sleep(6)

        kw = {}
        if target:
            kw["target"] = rigs[0].host
        audit = Audit(case, net, loop)
        s0 = loop.steps
        res, exc, cancelled = await cancelled_at(loop, Discover.discover(
            on_discovered=on_discovered, on_unsupported=on_unsupported, credentials=Credentials("user@x.org", "Passw0rd"), timeout=2, **kw), step)
        box["steps"] = loop.steps - s0
        if res is None:
            case.covered("cancelled" if cancelled else "failed")
            if cancelled and inside[0] or cancelled and net.conns:
                case.covered("cancelled-in-callback")
            if not cancelled and not isinstance(exc, exc_cls):
                raise exc
            if cancelled and raised:     # cancelled while it was already cleaning up after the failure: not claimed
                return
            await audit.closed(f"discover {'cancelled at ' + str(step) if cancelled else 'failed ' + repr(exc)} ({how})")
        else:
            case.covered("ok")
            case.expect(not net.open_udp_endpoints(), "endpoint-left-open", how)
            for d in res.values():
                await d.disconnect()
            await audit.closed(f"discover and disconnect ({how})")

    twice(case, scenario)
    case.sample = (how, n, target)
    case.nontrivial((how, n, target, case.index))


def f_single(case):
    """Single-host discovery."""
    how = case.rng.choice(["ok", "ok", "none", "unsupported", "invalid"])

    async def scenario(case, rng, net, loop, step, box):
        kind = rng.choice(LIVE)
        rig, model = build(case, rng, net, kind, [0.0])
        rig.loop = loop
        data, port = reply_for(rng, kind, rig, rig.params.device_family.value, model)
        if how == "unsupported":
            data, port = b"\0" * 16 + json.dumps({"error_code": 0, "result": {"device_type": "X.Y"}}).encode(), 20002
        elif how == "invalid":
            data, port = b"\0" * 16 + b"{", 20002

        def respond(tr, d, addr):
            if how != "none" and len(tr.sent) == 1:
                tr.inject(data, (rig.host, port), delay)

        delay = rng.choice([0.0, 0.3, 4.0])
        net.udp_responder = respond
        audit = Audit(case, net, loop)
        s0 = loop.steps
        dev, exc, cancelled = await cancelled_at(loop, Discover.discover_single(
            rig.host, credentials=Credentials("user@x.org", "Passw0rd"), timeout=2), step)
        box["steps"] = loop.steps - s0
        if dev is None:
            case.covered("cancelled" if cancelled else "none")
            if exc is not None and not isinstance(exc, KasaException):
                raise exc
        else:
            case.covered("ok")
            await dev.update()
            case.expect(not net.open_udp_endpoints(), "endpoint-left-open", how)
            await dev.disconnect()
        await audit.closed(f"discover_single {how} cancelled={cancelled}")

    twice(case, scenario)
    case.sample = how
    case.nontrivial((how, case.index))


def f_probe(case):
    """try_connect_all: found, not found, cancelled; with and without a session of the user."""
    kind = case.rng.choice([None, "xor", "klap1", "klap2", "aes2", "cam", "camplain", "token"])
    own = case.rng.random() < 0.6
    rate0 = case.rng.choice([0.0, 0.0, 0.2])

    async def scenario(case, rng, net, loop, step, box):
        session = None if own else aiohttp.ClientSession(cookie_jar=get_cookie_jar())
        if kind:
            rig, model = build(case, rng, net, kind, [rate0])
            rig.loop = loop
        audit = Audit(case, net, loop, session)
        s0 = loop.steps
        dev, exc, cancelled = await cancelled_at(loop, Discover.try_connect_all(
            "10.1.2.3", credentials=Credentials("user@x.org", "Passw0rd"), timeout=2, http_client=session), step)
        box["steps"] = loop.steps - s0
        if exc is not None:
            raise exc
        case.covered("cancelled" if cancelled else "found" if dev else "nothing")
        if dev is not None:
            await dev.disconnect()
        await audit.closed(f"probing {kind} {'cancelled at ' + str(step) if cancelled else ''}")
        if session:
            audit.users(str(kind))
            await session.close()

    twice(case, scenario)
    case.sample = (kind, own, rate0)
    case.nontrivial((kind, own, rate0, case.index))


def f_protocol(case):
    """Protocol objects alone (every transport): queries that work, fail or are cancelled, then close."""
    kind = list(KINDS)[case.index % len(KINDS)]
    own = case.rng.random() < 0.6 or kind == "xor"
    rate0 = case.rng.choice([0.0, 0.0, 0.2, 1.0])

    async def scenario(case, rng, net, loop, step, box):
        session = None if own else aiohttp.ClientSession(cookie_jar=get_cookie_jar())
        echo = {"iot": {"mod": {"echo": {"a": 1}}}, "smart": {"error_code": 0, "result": {}}, "cam": {"error_code": 0, "echo": {}}}
        frng = random.Random(rng.random())
        rate = [rate0]
        rig = Rig(kind, net, rng, lambda t: echo[rig.style], plan=faulty_plan(frng, kind, rate), connect_policy=policy(frng, rate), timeout=2)
        rig.loop = loop
        rig.config.http_client = session
        audit = Audit(case, net, loop, session)
        proto = get_protocol(rig.config)
        req = {"iot": {"mod": {"echo": {}}}, "smart": {"echo": None}, "cam": {"get": {"echo": {}}}}[rig.style]
        s0 = loop.steps
        res, exc, cancelled = await cancelled_at(loop, proto.query(req, retry_count=1), step)
        box["steps"] = loop.steps - s0
        await proto.close()
        await audit.closed(f"{kind} query {'cancelled at ' + str(step) if cancelled else repr(exc)[:80]}")
        rate[0] = 0.0
        try:
            await proto.query(req)
        except KasaException as ex:
            case.violate("dead-after-disconnect", f"{kind}: {ex!r}")
        case.covered(kind)
        await proto.close()
        await audit.closed(f"{kind} close")
        if session:
            await session.close()

    twice(case, scenario)
    case.sample = (kind, own, rate0)
    case.nontrivial((kind, own, rate0, case.index))


FAMILIES = [Family("protocol", f_protocol, 300, 6000), Family("connect", f_connect, 500, 12000), Family("life", f_life, 400, 10000), Family("discover", f_discover, 250, 6000),
            Family("single", f_single, 200, 4000), Family("probe", f_probe, 150, 3000)]
