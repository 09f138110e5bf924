"""C24: devices in one process do not influence each other, and what callers pass in is never altered."""
from __future__ import annotations

import asyncio
import copy
import dataclasses
import datetime
import enum
import logging
import os
import pickle
import random
import re
import struct
import zoneinfo

import aiohttp

from kasa import Credentials, Device, DeviceConfig, Feature, KasaException, LightState, Module
from kasa.device_factory import get_protocol
from kasa.httpclient import get_cookie_jar
from kasa.iot.iotbulb import BehaviorMode, TurnOnBehavior, TurnOnBehaviors

from checks import c17_features as c17
from checks import c18_settings as c18
from checks.c11_connect import pick
from checks.c12_cleanup import faulty_plan, policy
from kmon import sims
from kmon.core import Family
from kmon.gen import rcuts
from kmon.history import History, finish
from kmon.net import Net
from kmon.rig import KINDS, Rig
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring, differential: every device plays a seeded script once alone in a pristine process and once amid other devices in a used process; a trace comparator "
             "demands identical observations and identical device-side logs; snapshot monitors compare everything the caller handed in before and after")
NOTE = ("wire: up to five protocol stacks of all transports on one network, on shared addresses and shared HTTP sessions, with faults, cancellations and closes; "
        "crowd: up to four simulated devices with updates, settings, errors and everything readable dumped; args: every call that takes a mutable argument")
RULE = "a case = one group of devices run together and each of them alone (args: one device and a history of calls); non-trivial = at least two devices answered"
ASSUMPTIONS = ("Timing is the virtual clock's: a device's timing depends on its own script only.",
               "The process that runs a device alone was forked before any device object was made.",
               "A device stores session data (connection keys) and the default timeout in its own DeviceConfig.")
REQUIRED_COVER = [*(f"wire:{k}" for k in KINDS), "wire:shared-session", "wire:shared-host", "wire:cancel", "wire:close", "wire:failed", "wire:healthy", "wire:split",
                  "crowd:iot", "crowd:smart", "crowd:cam", "crowd:twins", "crowd:mixed", "crowd:setting", "crowd:failed", "crowd:refused", "crowd:children", "crowd:cancel",
                  "crowd:sequential", "args:query", "args:batch", "args:child", "args:custom-effect", "args:light-state", "args:preset", "args:behaviors",
                  "args:config", "args:discovery", "args:cam-query", "args:iot-query", "args:debug-log"]
T = Feature.Type
ADDR = re.compile(r"0x[0-9a-f]{6,}")


# -- the pristine process ---------------------------------------------------
class Zygote:
    """A process forked before any device existed; forks a child per request."""

    def __init__(self):
        self.pid = os.getpid()
        self.req_r, self.req_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        self.child = os.fork()
        if self.child == 0:
            try:
                os.close(self.req_w)
                os.close(self.res_r)
                self.serve()
            finally:
                os._exit(0)
        os.close(self.req_r)
        os.close(self.res_w)

    @staticmethod
    def _recv(fd):
        head = b""
        while len(head) < 8:
            c = os.read(fd, 8 - len(head))
            if not c:
                return None
            head += c
        n = struct.unpack("<Q", head)[0]
        out = []
        while n:
            c = os.read(fd, min(n, 1 << 20))
            if not c:
                return None
            out.append(c)
            n -= len(c)
        return b"".join(out)

    @staticmethod
    def _send(fd, data):
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def serve(self):
        import signal
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        while (req := self._recv(self.req_r)) is not None:
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    signal.alarm(50)
                    name, args = pickle.loads(req)
                    try:
                        res = ("ok", globals()[name](*args))
                    except BaseException as ex:  # noqa: BLE001
                        import traceback
                        res = ("error", "".join(traceback.format_exception(ex))[-3000:])
                    self._send(self.res_w, pickle.dumps(res))
                except BaseException:  # noqa: BLE001
                    code = 1
                os._exit(code)
            _, status = os.waitpid(pid, 0)
            if status:
                self._send(self.res_w, pickle.dumps(("error", f"the lone device's process ended with status {status}")))

    def call(self, name, *args):
        self._send(self.req_w, pickle.dumps((name, args)))
        data = self._recv(self.res_r)
        if data is None:
            raise RuntimeError("pristine process is gone")
        kind, val = pickle.loads(data)
        if kind == "error":
            raise RuntimeError(f"lone run failed: {val}")
        return val


_Z: list = []


def zygote():
    if not _Z or _Z[0].pid != os.getpid():
        _Z[:] = [Zygote()]
    return _Z[0]


class Sink:
    """Case stand-in with a rng of its own: used for one device of several, or in the lone process."""

    def __init__(self, rng, case=None, who=""):
        self.rng, self.case, self.who = rng, case, who
        self.violations, self.cover = [], set()

    def violate(self, mech, msg, **kw):
        self.violations.append((mech, msg))
        if self.case is not None:
            self.case.violate(mech, f"{self.who}: {msg}", **kw)

    def expect(self, cond, mech, msg="", **kw):
        if self.case is not None:
            self.case.count("oracle_checks")
        if not cond:
            self.violate(mech, msg, **kw)
        return bool(cond)

    def covered(self, *keys):
        self.cover |= set(keys)
        if self.case is not None:
            self.case.covered(*keys)

    def event(self, *a):
        if self.case is not None:
            self.case.event(*a)

    def count(self, *a):
        if self.case is not None:
            self.case.count(*a)


def describe(ex):
    """An exception without what differs between runs."""
    code = getattr(ex, "error_code", None)
    return f"{type(ex).__name__} {code}"


def compare(case, who, alone, amid, mech):
    """The first difference between two logs of one device."""
    for i in range(max(len(alone), len(amid))):
        a = alone[i] if i < len(alone) else None
        b = amid[i] if i < len(amid) else None
        if a != b:
            case.violate(mech, f"{who}: step {i}: alone {str(a)[:600]} - among others {str(b)[:600]}")
            return False
    case.count("steps_compared", len(alone))
    return True


# -- protocol stacks on one network -------------------------------------------
LOGIN = ("handshake1", "handshake", "login", "plainlogin")


def wire_spec(rng):
    n = rng.randrange(2, 6)
    shared = rng.random() < 0.6
    same = rng.choice(list(KINDS)) if rng.random() < 0.4 else None
    out = []
    for i in range(n):
        kind = same or rng.choice(list(KINDS))
        one_host = rng.random() < 0.4 and kind != "xor"
        out.append({"kind": kind, "seed": rng.random(), "host": "10.1.9.1" if one_host else f"10.1.9.{10 + i}",
                    "port": 2000 + i if one_host or rng.random() < 0.2 else None, "session": shared and rng.random() < 0.9,
                    "sick": rng.choice([0.0, 0.0, 0.05, 0.3]), "n": rng.randrange(3, 9), "same_login": rng.random() < 0.3})
    return out


class Stack:
    """One protocol stack and its script."""

    def __init__(self, spec, net, case, who):
        self.spec, self.who = spec, who
        kind = spec["kind"]
        seed = spec["seed"]
        self.sink = Sink(random.Random(f"{seed}a"), case, who)
        self.rng = random.Random(f"{seed}b")
        srng, prng = random.Random(f"{seed}c"), random.Random(f"{seed}d")
        style = KINDS[kind][5]
        self.hist = History(self.sink, net, style, lambda o: [])
        net.on_dead_write = None
        user, pw = ("user@x.org", "Passw0rd") if spec["same_login"] else (f"u{seed}@x.org", f"pw{seed}")
        sick = faulty_plan(prng, kind, [spec["sick"]])

        def plan(stage, n):
            self.note("stage", stage)
            f = sick(stage, n)
            if f is not None:
                return f
            r = prng.random()
            if r < 0.4:
                self.sink.covered("split")
                return ("cut", rcuts(prng, 400), prng.random() * 0.1)
            if r < 0.7:
                return ("slow", prng.random() * 0.5)
            return ("chunked",) if r < 0.8 and kind != "xor" else None

        def bad(mech, msg="", **kw):
            # with faults around, order and session mishaps are the device's own
            if not spec["sick"]:
                self.sink.violate(f"device-saw:{mech}", msg)

        kw = {}
        if spec["port"] is not None:
            kw["port_override"] = spec["port"]
        if spec["sick"]:
            kw["connect_policy"] = policy(prng, [spec["sick"] / 2])
        self.loop, self.log = None, []
        self.rig = Rig(kind, net, srng, self.hist.handler, host=spec["host"], user=user, pw=pw, plan=plan, bad=bad, timeout=2, **kw)
        if not spec["sick"]:
            self.rig.srv.strict_seq = True
        http = getattr(self.rig.srv, "http", None)
        if http is not None:
            self.watch_cookies(http)

    def note(self, *what):
        """With the time: nobody has to wait for another device."""
        self.log.append((round(self.loop.time(), 6) if self.loop else None, *what))

    def watch_cookies(self, http):
        """A session cookie another device issued never arrives here."""
        inner, issued = http.app, set()

        def app(req):
            got = req.cookies.get("TP_SESSIONID")
            self.sink.expect(got is None or got in issued, "foreign-cookie", f"{got}, issued here: {issued}")
            self.note("headers", {k: v if k not in ("cookie", "content-length", "seq", "tapo_tag") else "" for k, v in req.headers.items()})
            r = inner(req)
            for k, v in (r.headers if r is not None else ()):
                if k == "Set-Cookie":
                    issued.add(v.split(";")[0].partition("=")[2])
            return r

        http.app = app

    async def play(self, loop, session):
        self.loop = self.rig.loop = loop
        if session is not None and self.spec["session"]:
            self.rig.config.http_client = session
        proto = get_protocol(config=self.rig.config)
        self.rng.random()
        await asyncio.sleep(self.rng.random())
        ok = closed = 0
        for _ in range(self.spec["n"]):
            r = self.rng.random()
            if r < 0.15:
                t = self.rng.choice([0.3, 5, 20, 200]) + self.rng.random()
                await asyncio.sleep(t)
            elif r < 0.25 and not self.spec["sick"] == 0.0:
                await proto.close()
                self.sink.covered("close")
                closed += 1
                self.note("close")
            elif r < 0.35 and self.spec["sick"]:
                await self.cancelled(loop, proto)
            else:
                qid, req = self.hist.make()
                keep = copy.deepcopy(req)
                try:
                    res = await proto.query(req, retry_count=self.rng.choice([0, 1, 3]))
                except KasaException as ex:
                    self.note("failed", qid, describe(ex))
                    self.sink.covered("failed")
                    if not self.spec["sick"]:
                        self.sink.violate("healthy-failed", f"{ex!r}")
                else:
                    ok += 1
                    self.hist.check_reply(qid, res)
                    self.note("ok", qid)
                self.sink.expect(req == keep, "request-altered", f"{keep} became {req}"[:600])
        await proto.close()
        if not self.spec["sick"]:
            self.sink.covered("healthy")
            logins = [s for s in self.rig.srv.stages() if s in LOGIN]
            case_max = 1
            if self.spec["kind"] not in ("xor", "linkie"):
                first = {s: logins.count(s) for s in set(logins)}
                self.sink.expect(all(v == case_max for v in first.values()), "login-lost", f"{first}") if ok else None
        return ok

    async def cancelled(self, loop, proto):
        qid, req = self.hist.make()
        t = loop.create_task(proto.query(req, retry_count=1))
        await asyncio.sleep(self.rng.random() * 3)
        t.cancel()
        try:
            await t
            self.note("too late", qid)
        except asyncio.CancelledError:
            self.note("cancelled", qid)
            self.sink.covered("cancel")
        except KasaException as ex:
            self.note("failed", qid, describe(ex))


def wire_run(specs, case=None):
    """Play all stacks together -> (logs, run, answered)."""
    box = {}

    class Quiet:
        def __getattr__(self, _):
            return lambda *a, **k: None

    net = Net(case or Quiet())

    async def main(loop):
        session = aiohttp.ClientSession(cookie_jar=get_cookie_jar()) if any(s["session"] for s in specs) else None
        stacks = [Stack(s, net, case, f"{s['kind']} {s['host']}:{s['port']}") for s in specs]
        box["stacks"] = stacks
        box["ok"] = await asyncio.gather(*(s.play(loop, session) for s in stacks))
        if session is not None:
            await session.close()

    run = vrun(main, net=net)
    return box, run


def wire_alone(spec):
    box, run = wire_run([spec])
    if run.exc is not None:
        return [("ended", repr(run.exc)[:200])]
    st = box["stacks"][0]
    return [*st.log, ("stages", st.rig.srv.stages()), ("verdicts", [v[0] for v in st.sink.violations])]


def f_wire(case):
    z = zygote()
    specs = wire_spec(case.rng)
    plain = copy.deepcopy(specs)
    box, run = wire_run(specs, case)
    finish(case, run)
    if run.exc is not None:
        return
    for spec, st in zip(plain, box["stacks"]):
        case.covered(spec["kind"])
        alone = z.call("wire_alone", spec)
        amid = [*st.log, ("stages", st.rig.srv.stages()), ("verdicts", [v[0] for v in st.sink.violations])]
        compare(case, st.who, alone, amid, "differs-among-others")
    if sum(s["session"] for s in specs) > 1:
        case.covered("shared-session")
    if len({s["host"] for s in specs}) < len(specs):
        case.covered("shared-host")
    case.count("queries", sum(box["ok"]))
    case.sample = [(s["kind"], s["host"], s["port"], s["session"], s["sick"], len(st.log)) for s, st in zip(specs, box["stacks"])]
    if sum(1 for n in box["ok"] if n) > 1:
        case.nontrivial((case.sample, case.index))


# -- devices amid devices -------------------------------------------------------
HIDE = {"protocol", "config", "credentials", "parent", "children", "modules", "features", "device", "loop", "call", "repeat_alarm"}


def dump(obj, depth=0):
    """Everything readable of a value, as text without addresses."""
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return repr(obj)
    if isinstance(obj, enum.Enum):
        return str(obj)
    if isinstance(obj, (datetime.datetime, datetime.timedelta, datetime.date, datetime.time, zoneinfo.ZoneInfo)):
        return str(obj)
    if depth > 6:
        return "..."
    if isinstance(obj, dict):
        return "{" + ", ".join(f"{dump(k, depth + 1)}: {dump(v, depth + 1)}" for k, v in obj.items()) + "}"
    if isinstance(obj, (list, tuple)):
        return "[" + ", ".join(dump(v, depth + 1) for v in obj) + "]"
    if isinstance(obj, (set, frozenset)):
        return "<" + ", ".join(sorted(dump(v, depth + 1) for v in obj)) + ">"
    if isinstance(obj, BaseException):
        return describe(obj)
    if dataclasses.is_dataclass(obj) and not isinstance(obj, type):
        return type(obj).__name__ + str({f.name: dump(getattr(obj, f.name), depth + 1) for f in dataclasses.fields(obj)})
    return ADDR.sub("", f"<{type(obj).__module__}.{type(obj).__name__}>")


def props(obj):
    out = {}
    for cls in type(obj).__mro__:
        for name, v in vars(cls).items():
            if isinstance(v, property) and not name.startswith("_") and name not in HIDE and name not in out:
                try:
                    out[name] = dump(getattr(obj, name))
                except Exception as ex:  # noqa: BLE001
                    out[name] = "!" + describe(ex)
    return out


def everything(dev):
    out = []
    for i, d in enumerate([dev, *dev.children]):
        out.append((i, "device", props(d)))
        for name, m in d.modules.items():
            out.append((i, str(name), props(m)))
        for fid, f in d.features.items():
            try:
                v = dump(f.value)
            except Exception as ex:  # noqa: BLE001
                v = "!" + describe(ex)
            try:
                unit = dump(f.unit)
                lim = (f.minimum_value, f.maximum_value) if f.type is T.Number else list(f.choices) if f.type is T.Choice else None
            except Exception as ex:  # noqa: BLE001
                lim = unit = describe(ex)
            out.append((i, "feature " + fid, (v, dump(lim), unit, f.name, f.precision_hint)))
    return out


def crowd_spec(rng):
    how = rng.choice(["twins", "family", "mixed", "mixed"])
    n = rng.randrange(2, 5)
    kind0 = rng.choice(["iot", "iot", "smart", "smart", "smart", "cam"])
    seed0 = rng.random()
    out = []
    for _ in range(n):
        kind = kind0 if how != "mixed" else rng.choice(["iot", "smart", "smart", "cam"])
        out.append({"kind": kind, "pick": seed0 if how == "twins" else rng.random(), "seed": rng.random(), "steps": rng.randrange(2, 7),
                    "fault": rng.choice([0.0, 0.0, 0.1, 0.3]), "host": f"127.0.1.{len(out)}"})
    return how, out


class Actor:
    """One simulated device and its script; ``log`` holds all that could be observed of it."""

    def __init__(self, spec, case=None):
        self.spec, self.case = spec, case
        self.rng = rng = random.Random(f"{spec['seed']}r")
        self.frng = random.Random(f"{spec['seed']}f")
        self.drng = random.Random(f"{spec['seed']}d")
        self.log = []
        w = object.__new__(c18.World)
        w.rng, w.kind, w.case = random.Random(f"{spec['pick']}"), spec["kind"], None
        w.refuse, w.refused = None, []
        kind = spec["kind"]
        prng = w.rng
        if kind == "iot":
            w.name = prng.choice(sims.names("iot"))
            w.model = sims.iot_model(w.name)
            sims.iot_enrich(w.model, rng, datetime.datetime(2023, 11, 14, 22, 13))
            w.dev, w.tr = sims.iot_device(w.model, sims.config(spec["host"]))
            w.model.fault = self.iot_fault
        elif kind == "smart":
            w.name = prng.choice(sims.names("smart"))
            kids = prng.sample(sims.names("smart/child"), 3) if w.name in sims.hub_names() else None
            w.model = sims.smart_model(w.name, rng, children=kids)
            w.dev, w.tr = sims.smart_device(w.model, sims.config(spec["host"]))
            w.model.fault = self.smart_fault
            for m in (w.model, *w.model.children.values()):
                c17.vary(m, rng)
        else:
            w.name = prng.choice(sims.names("smartcam"))
            kids = prng.sample(sims.names("smart/child"), 2) + [prng.choice(sims.names("smartcam/child"))] if w.name.startswith("H200") else None
            w.model = sims.cam_model(w.name, rng, children=kids)
            w.dev, w.tr = sims.cam_device(w.model, sims.config(spec["host"]))
            w.model.fault = self.smart_fault
        w.rng = rng
        self.w, self.dev, self.model = w, w.dev, w.model
        self.name = w.name
        w.tr.delay = lambda: self.drng.random() * 2
        w.tr.fail = self.fail
        self.armed, self.loop = False, None
        self.shake()

    def iot_fault(self, module, method, params, child_ids):
        return self.frng.choice([-1, -3, -10000]) if self.armed and self.frng.random() < self.spec["fault"] and method != "get_sysinfo" else None

    def smart_fault(self, model, method, params):
        if self.armed and self.frng.random() < self.spec["fault"] and method not in ("component_nego", "get_device_info", "getDeviceInfo"):
            return self.frng.choice([-1001, -1008, -1])
        return None

    def fail(self, n, request):
        from kasa.exceptions import TimeoutError as KTimeout, _ConnectionError
        if self.armed and self.frng.random() < self.spec["fault"] / 2:
            return self.frng.choice([KTimeout("t"), _ConnectionError("c"), KasaException("k")])
        return None

    def shake(self):
        kind, rng, m = self.spec["kind"], self.rng, self.model
        try:
            if kind == "iot":
                c18.iot_shake(m, rng)
            elif kind == "smart":
                for x in (m, *m.children.values()):
                    c18.smart_shake(x, rng)
            else:
                c18.cam_shake(m, rng)
        except (KeyError, AttributeError, TypeError):
            pass

    def note(self, *what):
        self.log.append((what[0], round(self.loop.time(), 6) if self.loop else None, *what[1:]))

    def cover(self, key):
        if self.case is not None:
            self.case.covered(key)

    async def step(self, what, coro):
        """Run one library call and note how it ended."""
        try:
            res = await coro
        except KasaException as ex:
            self.note(what, describe(ex))
            self.cover("failed")
            return False
        except Exception as ex:  # noqa: BLE001
            self.note(what, describe(ex))
            return False
        self.note(what, "ok", dump(res))
        return True

    async def play(self, loop):
        rng, dev = self.rng, self.dev
        self.loop = loop
        await asyncio.sleep(rng.random() * 3)
        self.armed = rng.random() < 0.3
        for _ in range(3):
            if await self.step("update", dev.update()):
                break
            self.armed = False
        self.note("state", everything(dev))
        if len(dev.children):
            self.cover("children")
        for _ in range(self.spec["steps"]):
            self.armed = rng.random() < 0.5
            r = rng.random()
            if r < 0.2:
                self.shake()
            elif r < 0.3:
                t = loop.create_task(dev.update())
                await asyncio.sleep(rng.random() * 2)
                t.cancel()
                try:
                    await t
                    self.note("too late")
                except asyncio.CancelledError:
                    self.note("cancelled")
                    self.cover("cancel")
                except Exception as ex:  # noqa: BLE001
                    self.note(describe(ex))
            elif r < 0.8:
                devs = [dev, *dev.children]
                d = rng.choice(devs)
                ops = []
                try:
                    ops = [*c18.feature_ops(self.w, d), *c18.method_ops(self.w, d), *light_ops(rng, d)]
                except Exception as ex:  # noqa: BLE001
                    self.note("ops", describe(ex))
                if ops:
                    op = rng.choice(ops)
                    n = len(self.model.log)
                    if await self.step(op[0], op[1]()):
                        self.cover("setting")
                    elif any(e[3] for e in self.model.log[n:]):
                        self.cover("refused")
            else:
                await asyncio.sleep(rng.choice([1, 30, 4000, 90000]) + rng.random())
            await self.step("update", dev.update())
            self.note("state", everything(dev))
        for e in self.model.log:
            self.note("device", *map(dump, e))
        await dev.disconnect()


def light_ops(rng, d):
    out = []
    light = d.modules.get(Module.Light)
    if light is not None:
        if light.has_feature("brightness"):
            v = rng.randint(1, 100)
            out.append((f"brightness {v}", lambda: light.set_brightness(v)))
        if light.has_feature("hsv"):
            h = (rng.randint(0, 360), rng.randint(0, 100), rng.randint(1, 100))
            out.append((f"hsv {h}", lambda: light.set_hsv(*h)))
        out.append(("light state", lambda: light.set_state(LightState(light_on=True))))
    eff = d.modules.get(Module.LightEffect)
    if eff is not None:
        name = rng.choice(eff.effect_list)
        b = rng.choice([None, rng.randint(1, 100)])
        out.append((f"effect {name} {b}", lambda: eff.set_effect(name, brightness=b)))
    pre = d.modules.get(Module.LightPreset)
    if pre is not None:
        name = rng.choice(pre.preset_list)
        out.append((f"preset {name}", lambda: pre.set_preset(name)))
        if pre.preset_states_list:
            i = rng.randrange(len(pre.preset_states_list))
            p = copy.copy(pre.preset_states_list[i])
            out.append((f"save {i}", lambda: pre.save_preset(f"Light preset {i + 1}", p)))
    return out


def crowd_run(specs, case=None, sequential=False):
    box = {}

    async def main(loop):
        box["actors"] = actors = [Actor(s, case) for s in specs]
        await asyncio.gather(*(a.play(loop) for a in actors))

    return box, vrun(main, max_steps=3_000_000)


def crowd_alone(spec):
    box, run = crowd_run([spec])
    if run.exc is not None:
        return [("ended", describe(run.exc))]
    return box["actors"][0].log


def f_crowd(case):
    z = zygote()
    how, specs = crowd_spec(case.rng)
    if case.rng.random() < 0.3:        # one after the other instead of at the same time
        case.covered("sequential")
        actors = []
        for s in specs:
            box, run = crowd_run([s], case)
            finish(case, run)
            if run.exc is not None:
                return
            actors += box["actors"]
    else:
        box, run = crowd_run(specs, case)
        finish(case, run)
        if run.exc is not None:
            return
        actors = box["actors"]
    case.covered(how, *(s["kind"] for s in specs))
    for a in actors:
        alone = z.call("crowd_alone", a.spec)
        compare_states(case, f"{a.name} ({how})", alone, a.log)
        case.count("observations", len(a.log))
    case.sample = (how, [(a.name, len(a.log)) for a in actors])
    case.nontrivial((case.sample, case.index))


def compare_states(case, who, alone, amid):
    for i in range(max(len(alone), len(amid))):
        a = alone[i] if i < len(alone) else None
        b = amid[i] if i < len(amid) else None
        if a != b:
            if a and b and a[0] == b[0] == "state" and a[1] == b[1]:
                da = {(x[0], x[1]): x[2] for x in a[2]}
                db = {(x[0], x[1]): x[2] for x in b[2]}
                keys = [k for k in {**da, **db} if da.get(k) != db.get(k)]
                a, b = [(k, da.get(k)) for k in keys[:3]], [(k, db.get(k)) for k in keys[:3]]
                if keys and isinstance(a[0][1], dict) and isinstance(b[0][1], dict):
                    sub = [k for k in {**a[0][1], **b[0][1]} if a[0][1].get(k) != b[0][1].get(k)]
                    a, b = [(keys[0], k, a[0][1].get(k)) for k in sub], [(keys[0], k, b[0][1].get(k)) for k in sub]
            case.violate("differs-among-others", f"{who}: step {i}: alone {str(a)[:600]} - among others {str(b)[:600]}")
            return
    case.count("steps_compared", len(alone))


# -- what the caller hands in -------------------------------------------------
class Watch:
    """Snapshots of mutable arguments, compared after the call."""

    def __init__(self, case):
        self.case, self.items = case, []

    def __call__(self, obj, what):
        self.items.append((what, obj, copy.deepcopy(obj), dump(obj)))
        return obj

    def check(self, tag):
        for what, obj, keep, text in self.items:
            self.case.expect(obj == keep and dump(obj) == text, "argument-altered", f"{tag}: {what} was {text[:300]}, is now {dump(obj)[:300]}")
            self.case.count("arguments")


async def quiet(coro):
    try:
        return await coro
    except Exception:  # noqa: BLE001 - failures are other properties' concern
        return None


def smart_query(rng, model):
    """A request of several methods the device knows, some with parameters."""
    out = {}
    known = [m for m in model.info if m.startswith("get") and isinstance(model.info[m], dict)]
    for m in rng.sample(known, min(len(known), rng.choice([1, 2, 6, 25]))):
        out[m] = rng.choice([None, None, {}, {"start_index": 0}, {"x": [1, {"y": 2}]}])
    if rng.random() < 0.2:
        out["get_no_such_thing"] = {"a": 1}
    return out


def f_args(case):
    rng = case.rng
    tables()
    kind = ["smart", "iot", "cam", "strip", "iotbulb", "connect", "dim"][case.index % 7]
    if kind == "connect":
        return connect_args(case)

    async def main(loop):
        watch = Watch(case)
        if rng.random() < 0.3:
            logging.getLogger("kasa").setLevel(logging.DEBUG)
            case.covered("debug-log")
        if kind in ("strip", "dim"):
            strips, dims = [], []
            for n in sims.names("smart"):
                info = sims.load("smart", n)
                if isinstance(info.get("get_device_info", {}).get("lighting_effect"), dict):
                    strips.append(n)
                elif isinstance(info.get("get_preset_rules"), dict):
                    dims.append(n)
            model = sims.smart_model(rng.choice(strips if kind == "strip" else dims), rng)
            dev, tr = sims.smart_device(model)
        elif kind == "iotbulb":
            names = [n for n in sims.names("iot") if "light_state" in (s := sims.load("iot", n)["system"]["get_sysinfo"]) and (s.get("preferred_state") or "lighting_effect_state" in s)]
            model = sims.iot_model(rng.choice(names))
            dev, tr = sims.iot_device(model)
        else:
            a = Actor({"kind": kind, "pick": rng.random(), "seed": rng.random(), "fault": 0.2, "host": "127.0.0.9"}, None)
            model, dev, tr = a.model, a.dev, a.w.tr
        await dev.update()
        for _ in range(rng.randrange(4, 12)):
            if kind in ("smart", "cam", "iot") and rng.random() < 0.3:
                a.armed = not a.armed
            watch.items = []
            for tag, call in arg_ops(case, rng, kind, dev, model, watch):
                case.event("call", tag)
                await quiet(call())
                watch.check(f"{dev.model} {tag}")
                case.count("calls")
            intact(case)
        # and later operations do not reach back to what was handed in
        case.sample = (kind, dev.model)
        case.nontrivial((kind, dev.model, case.index))

    try:
        finish(case, vrun(main, max_steps=3_000_000))
    finally:
        logging.getLogger("kasa").setLevel(logging.NOTSET)


_TABLES: list = []


def tables():
    if not _TABLES:
        from kasa.iot import effects as e1
        from kasa.smart import effects as e2
        for t in (e1.EFFECT_MAPPING_V1, e2.EFFECT_MAPPING):
            _TABLES.append((t, copy.deepcopy({k: dict(v) if isinstance(v, dict) else v for k, v in t.items()})))


def intact(case):
    for t, keep in _TABLES:
        case.expect({k: dict(v) if isinstance(v, dict) else v for k, v in t.items()} == keep, "built-in-altered", "a built-in effect definition changed")


def arg_ops(case, rng, kind, dev, model, watch):
    """Calls with mutable arguments: (label, call)."""
    out = []
    mods = dev.modules
    if kind in ("smart", "strip", "dim"):
        q = watch(smart_query(rng, model), "the request")
        case.covered("query")
        if len(q) > 5:
            case.covered("batch")
        out.append((f"query of {len(q)}", lambda: dev.protocol.query(q)))
        if dev.children and model.children:
            child = rng.choice(list(dev.children))
            cm = model.children.get(child.device_id)
            if cm is not None:
                q2 = watch(smart_query(rng, cm), "the child request")
                case.covered("child")
                out.append((f"child query of {len(q2)}", lambda: child.protocol.query(q2)))
    elif kind == "cam":
        q = watch(rng.choice([{"getDeviceInfo": {"device_info": {"name": ["basic_info", "info"]}}},
                              {"get": {"device_info": {"name": ["basic_info"]}}},
                              {"getLastAlarmInfo": {"system": {"name": ["last_alarm_info"]}}, "getLensMaskConfig": {"lens_mask": {"name": ["lens_mask_info"]}}},
                              {"set": {"led": {"config": {"enabled": "on"}}}}, {"do": {"motor": {"move": {"x_coord": "5", "y_coord": "1"}}}},
                              {"setLedStatus": {"led": {"config": {"enabled": "off"}}}, "getLedStatus": {"led": {"name": ["config"]}}}]), "the request")
        case.covered("cam-query")
        out.append(("query", lambda: dev.protocol.query(q)))
        for child in dev.children:
            q3 = watch({"getDeviceInfo": {"device_info": {"name": ["basic_info"]}}} if type(child).__name__ == "SmartCamChild" else
                       {"get_device_info": None, "get_device_time": {}}, "the child request")
            out.append(("child query", lambda: child.protocol.query(q3)))
            break
    else:
        q = {}
        for m, methods in model.info.items():
            if isinstance(methods, dict) and rng.random() < 0.4:
                q[m] = {k: rng.choice([{}, None, {"year": 2023}]) for k in methods if k.startswith("get")}
        q = watch(q or {"system": {"get_sysinfo": {}}}, "the request")
        case.covered("iot-query")
        out.append(("query", lambda: dev.protocol.query(q)))
    light, eff, pre = mods.get(Module.Light), mods.get(Module.LightEffect), mods.get(Module.LightPreset)
    if light is not None:
        st = watch(LightState(light_on=rng.choice([None, True, False]), brightness=rng.choice([None, 5, 70]),
                              **({"hue": 10, "saturation": 20} if light.has_feature("hsv") and rng.random() < 0.4 else {}),
                              transition=rng.choice([None, None, 100])), "the light state")
        case.covered("light-state")
        out.append(("set_state", lambda: light.set_state(st)))
    if eff is not None and eff.has_custom_effects and getattr(model, "sysinfo", {}):
        cur = model.sysinfo.get("lighting_effect_state") or model.sysinfo.get("lighting_effect")
        if cur:
            table = _TABLES[0 if kind == "iotbulb" else 1][0]
            base = rng.choice([v for v in table.values() if isinstance(v, dict)])
            d = copy.deepcopy(dict(base))
            d.update(name=rng.choice(["Mine", base["name"]]), custom=rng.choice([0, 1]))
            for k in rng.sample(sorted(d), min(3, len(d))):
                if k not in ("name", "id") and rng.random() < 0.5:
                    d.pop(k)
            d = watch(d, "the effect")
            case.covered("custom-effect")
            out.append(("set_custom_effect", lambda: eff.set_custom_effect(d)))
    if eff is not None:
        name = rng.choice(eff.effect_list)
        br = rng.choice([None, 1, 33])
        out.append((f"set_effect {name}", lambda: eff.set_effect(name, brightness=br, transition=rng.choice([None, 500]))))
    if pre is not None and pre.has_save_preset and pre.preset_states_list:
        i = rng.randrange(len(pre.preset_states_list))
        p = copy.deepcopy(pre.preset_states_list[i])
        if getattr(p, "brightness", None) is not None:
            p.brightness = rng.randint(1, 100)
        p = watch(p, "the preset")
        case.covered("preset")
        out.append((f"save_preset {i}", lambda: pre.save_preset(f"Light preset {i + 1}", p)))
    if kind == "iotbulb":
        one = lambda: TurnOnBehavior.from_dict(rng.choice([{"mode": "last_status"}, {"mode": "customize_preset", "index": 2},
                                                           {"mode": "customize_preset", "brightness": 5, "hue": 1, "saturation": 2, "color_temp": 0}]))
        bh = watch(TurnOnBehaviors(one(), one()), "the behaviors")
        case.covered("behaviors")
        out.append(("set_turn_on_behavior", lambda: dev.set_turn_on_behavior(bh)))
    if kind in ("iot", "iotbulb") and rng.random() < 0.5:
        info = {"system": {"get_sysinfo": copy.deepcopy(model.sysinfo)}}
    else:
        info = {"device_type": "IOT.SMARTPLUGSWITCH" if kind.startswith("iot") else "SMART.TAPOPLUG", "device_model": "M1(EU)", "device_id": "D", "ip": "127.0.0.9", "mac": "AA-BB-CC-DD-EE-FF",
                "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "AES", "http_port": 80, "lv": 2}, "decrypted_data": {"x": [1]},
                "owner": "o", "extra": {"y": {}}}
    if rng.random() < 0.4:
        info = watch(info, "the discovery answer")
        case.covered("discovery")

        async def feed():
            dev.update_from_discover_info(info)
            await dev.update()

        out.append(("update_from_discover_info", feed))
    ops = []
    if kind in ("smart", "iot", "cam"):
        pass
    for tag, call in out:
        ops.append((tag, call))
    if rng.random() < 0.5:
        ops.append(("update", lambda: dev.update()))
    return ops


def connect_args(case):
    """Configurations and credentials of connected and failing devices."""
    rng = case.rng
    net = Net(case)
    kinds = [k for k in KINDS if k != "linkie"]

    async def main(loop):
        cred = Credentials("user@x.org", "Passw0rd")
        rigs, devs = [], []
        for i in range(rng.randrange(1, 4)):
            kind = rng.choice(kinds)
            model, fam, _ = pick(rng, kind)
            rate = rng.choice([0.0, 0.0, 0.3])
            rig = Rig(kind, net, rng, lambda t, model=model: model.request(__import__("json").loads(t)), family=fam, host=f"10.1.7.{i + 1}",
                      plan=faulty_plan(random.Random(rng.random()), kind, [rate]), timeout=rng.choice([2, 2, 7]))
            rig.loop = loop
            cfg = rig.config
            cfg.credentials = cred
            keep = (copy.deepcopy(cfg.to_dict_control_credentials()), copy.deepcopy(cfg.connection_type), dump(cfg.connection_type), cfg.host, cfg.timeout,
                    cfg.port_override, cfg.credentials_hash, cfg.batch_size, cfg.http_client)
            rigs.append((kind, cfg, keep))
            dev = await quiet(Device.connect(config=cfg))
            if dev is not None:
                devs.append(dev)
                await quiet(dev.update())
        for dev in devs:
            await dev.disconnect()
        case.covered("config")
        for kind, cfg, keep in rigs:
            now = (cfg.to_dict_control_credentials(), cfg.connection_type, dump(cfg.connection_type), cfg.host, cfg.timeout, cfg.port_override,
                   cfg.credentials_hash, cfg.batch_size, cfg.http_client)
            a, b = {k: v for k, v in keep[0].items() if k != "aes_keys"}, {k: v for k, v in now[0].items() if k != "aes_keys"}
            case.expect((a, *keep[1:]) == (b, *now[1:]), "argument-altered", f"{kind}: the configuration was {a}, is now {b}"[:900])
            case.expect(cfg.credentials is cred and cred == Credentials("user@x.org", "Passw0rd"), "argument-altered", f"{kind}: credentials {cred}")
            case.count("arguments", 2)
        case.sample = ("connect", [r[0] for r in rigs])
        case.nontrivial((case.sample, case.index))

    finish(case, vrun(main, net=net))


FAMILIES = [Family("wire", f_wire, 1500, 20000), Family("crowd", f_crowd, 500, 8000), Family("args", f_args, 1400, 14000)]
