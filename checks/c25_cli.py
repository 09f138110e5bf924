"""C25: the command line acts on the addressed device, with the given arguments, and tells the truth."""
from __future__ import annotations

import asyncio
import ast
import contextlib
import dataclasses
import datetime
import io
import json
import logging
import random
import re
import sys
import types
import zoneinfo

from asyncclick.testing import CliRunner

import kasa.device
from kasa import AuthenticationError, Credentials, Device, DeviceConfig, DeviceType, Discover, Feature, KasaException, LightState, Module, TimeoutError as KTimeout
from kasa import cli as _pkg  # noqa: F401
from kasa.cli import common, device as _d, discover as _di, feature as _f, hub as _h, light as _l, main as cmain, schedule as _s, time as _t, usage as _u, vacuum as _v, wifi as _w  # noqa: F401
from kasa.deviceconfig import DeviceEncryptionType, DeviceFamily
from kasa.exceptions import _ConnectionError
from kasa.interfaces import Energy
from kasa.iot import IotBulb, IotDevice
from kasa.iot.iottimezone import TIMEZONE_INDEX, get_matching_timezones
from kasa.smart import SmartDevice

from checks import c17_features as c17
from checks import c18_settings as c18
from checks.c11_connect import pick
from kmon import clock, expect, refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.net import Net
from kmon.rig import KINDS, Rig
from kmon.vloop import vrun

clock.install()
if hasattr(common, "_echo") and "rich" in sys.modules:
    sys.modules["rich"].get_console().width = 4000
TECHNIQUE = ("runtime monitoring, differential: every command line runs the real CLI in process on one simulated device and the documented library call on its twin; monitors compare exit status, "
             "output, JSON document, commands executed and device state, and watch that everything contacted is closed")
NOTE = ("every command, with valid, invalid and missing arguments, children by name, id, index and prompt, refusals and failing devices, in text and JSON mode, "
        "over all simulated device kinds; addressing by host, type, encryption, alias and environment; discovery commands on the in-memory network")
RULE = "a case = a session of command lines on one device (device), one addressing (address), or one network (network); non-trivial = a device was contacted or an argument error was due"
ASSUMPTIONS = ("A confirmation that the user declines may end with status 0.",
               "Wording is free; the values a device reports are looked for in the text.",
               "Text in lower-case [tags] is formatting and is left out; long lines are wrapped.",
               "With --alias the discovery's own timeouts apply.")
REQUIRED_COVER = ["device:iot", "device:smart", "device:cam", "device:child-name", "device:child-id", "device:child-index", "device:child-prompt", "device:child-group", "device:no-child",
                  "device:refused", "device:dead", "device:dies", "device:usage", "device:missing", "device:json", "device:declined", "device:verbose", "device:debug",
                  *(f"device:ok-{c}" for c in ("state", "sysinfo", "on", "off", "toggle", "led", "alias", "brightness", "temperature", "hsv", "effect", "presets", "presets-modify",
                                               "turn-on-behavior", "feature", "feature-all", "action", "time-get", "time-set", "time-sync", "energy", "usage", "schedule-list",
                                               "schedule-delete", "wifi-scan", "wifi-join", "hub-list", "hub-supported", "hub-pair", "hub-unpair", "records", "consumables",
                                               "consumables-reset", "command", "raw-command", "reboot", "factory-reset", "update-credentials", "logs")),
                  "address:host", "address:type", "address:camera", "address:legacy", "address:encrypt", "address:alias", "address:alias-missing", "address:alias-failed", "address:env",
                  "address:bad-option", "address:help", "address:no-host",
                  "network:list", "network:detail", "network:host", "network:raw", "network:config", "network:auth-failed", "network:unsupported", "network:dead", "network:json"]
T = Feature.Type
TAG = re.compile(r"\[/?[a-z]+]")
ADDR = re.compile(r"0x[0-9a-f]{6,}")
NOW = datetime.datetime(2026, 3, 10, 11, 22, 33, tzinfo=datetime.timezone.utc)
HOST = "127.0.0.9"


# -- running the command line -------------------------------------------------
@dataclasses.dataclass
class Out:
    code: int
    text: str
    err: str
    exc: BaseException | None


async def cli_run(argv, stdin="", env=None):
    """One run of the command line tool."""
    runner = CliRunner(mix_stderr=False)
    keep_argv, keep_cfg = sys.argv, logging.basicConfig
    sys.argv, logging.basicConfig = ["kasa", *argv], lambda **kw: None
    try:
        r = await runner.invoke(cmain.cli, argv, input=stdin, env={**{k: None for k in ENVS}, **(env or {})})
    finally:
        sys.argv, logging.basicConfig = keep_argv, keep_cfg
    return Out(r.exit_code, r.stdout, r.stderr, r.exception)


ENVS = ("KASA_HOST", "KASA_PORT", "KASA_NAME", "KASA_TARGET", "KASA_VERBOSE", "KASA_DEBUG", "KASA_TYPE", "KASA_JSON", "KASA_ENCRYPT_TYPE", "KASA_DEVICE_FAMILY",
        "KASA_LOGIN_VERSION", "KASA_HTTPS", "KASA_TIMEOUT", "KASA_DISCOVERY_TIMEOUT", "KASA_USERNAME", "KASA_PASSWORD", "KASA_CREDENTIALS_HASH")


@contextlib.contextmanager
def patched(obj, **kw):
    keep = {k: obj.__dict__[k] for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in keep.items():
            setattr(obj, k, v)


def plain(obj):
    """What a JSON document can say about a result."""
    def default(v):
        return v.internal_state if isinstance(v, Device) else str(v)
    return json.loads(ADDR.sub("0x", json.dumps(obj, default=default)))


def flat(text):
    return re.sub(r"\s", "", ADDR.sub("0x", TAG.sub("", text)))


# -- twins ------------------------------------------------------------------------
class Twin:
    """One of two identical devices."""

    def __init__(self, seed, kind):
        rng = random.Random(seed)
        self.w = c18.World(types.SimpleNamespace(rng=rng), kind)
        self.model, self.kind = self.w.model, kind
        for m in [self.model, *getattr(self.model, "children", {}).values()]:
            if kind == "smart" and isinstance(m, sims.SmartModel):
                c17.vary(m, rng)
        if rng.random() < 0.5:
            {"iot": c18.iot_shake, "smart": c18.smart_shake, "cam": c18.cam_shake}[kind](self.model, rng)
        self.hub = bool(self.model.children) if kind != "iot" else False
        if self.hub and rng.random() < 0.8:
            for _ in range(rng.randrange(1, 3)):
                name = rng.choice(sims.names("smart/child"))
                info = sims.load("smart/child", name)["get_device_info"]
                cid = sims.hexid(rng)
                self.model.pairable[cid] = ("smart/child", name, {"device_id": cid, "category": info["category"], "device_model": info["model"], "name": f"New {cid[:4]}"})
        self.transports = []

    def device(self, cfg):
        dev, tr = {"iot": sims.iot_device, "smart": sims.smart_device, "cam": sims.cam_device}[self.kind](self.model, cfg)
        self.transports.append(tr)
        return dev

    def snapshot(self):
        """The device's whole state, apart from answers that are made up when first asked for."""
        if self.kind == "iot":
            return self.model.snapshot()
        return [{k: v for k, v in m.snapshot().items() if k not in sims.MISSING or v != sims.MISSING[k][2]} for m in [self.model, *self.model.children.values()]]

    def log(self, n):
        return [e for e in self.w.log_since(n) if self.kind != "iot" or e[2:] != (None, -1)]     # (no entries for modules it does not have)


def mutating(request, kind):
    """Requests that do more than read."""
    if kind == "iot":
        return any(m != "context" and isinstance(v, dict) and any(not k.startswith("get") for k in v) for m, v in json.loads(request).items())
    return any(not m.startswith(("get", "component", "multiple", "control")) for m in re.findall(r'"method": ?"([^"]+)"', request))


def deltas(x, y, at=""):
    if isinstance(x, dict) and isinstance(y, dict):
        for k in {*x, *y}:
            yield from deltas(x.get(k), y.get(k), f"{at}.{k}")
    elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            yield from deltas(p, q, f"{at}[{i}]")
    elif x != y:
        yield at, x, y


# -- commands ------------------------------------------------------------------------
@dataclasses.dataclass
class Cmd:
    name: str
    path: list             # command path, possibly with a group in front
    args: list
    op: object = None      # async (device) -> result
    wrong: str = ""        # "usage", "missing", "declined": fails (declined: may end with 0) without any command
    shown: object = None   # (device, result) -> texts that have to appear
    stdin: str = ""
    child: bool = True     # takes child options
    group: bool = True     # the group takes child options
    update: bool = True    # the CLI updates first
    json: bool = True      # the result is the JSON document
    result: object = None  # (result, document) -> does the document tell the result


def word(v):
    return "" if v is None else str(v)


def commands(rng, tw, root, d):
    """Command lines with what they stand for, chosen by looking at the twin (updated)."""
    mods, out = d.modules, []
    child = d is not root

    def add(*a, **kw):
        out.append(Cmd(*a, **kw))

    def path(group, cmd):
        return [group, cmd] if rng.random() < 0.4 else [cmd]

    def transition():
        t = rng.choice([None, None, 0, 1000, 2500])
        return (["--transition", str(t)] if t is not None else []), t

    async def value(v):
        return v

    # state and basics
    async def do_state(x):
        for attr in ("alias", "model", "host", "port", "is_on", "time", "timezone", "device_info", "region", "mac", "rssi"):
            getattr(x, attr)
        return x.internal_state

    def feats(x, _):
        res = [word(x.alias), x.model, x.host, str(x.is_on), str(x.time)]
        for y in [x, *x.children]:
            for f in y.features.values():
                with contextlib.suppress(Exception):
                    res.append(str(f))
        return res

    add("state", path("device", "state"), [], do_state, shown=feats)
    add("state", path("device", "state"), [], do_state, shown=feats)
    async def do_sysinfo(x):
        return x.sys_info
    add("sysinfo", path("device", "sysinfo"), [], do_sysinfo)
    for name in ("on", "off", "toggle", "on", "toggle"):
        opt, t = transition()

        async def power(x, name=name, t=t):
            turn = x.turn_on if name == "on" or name == "toggle" and not x.is_on else x.turn_off
            return await turn(transition=t)
        add(name, path("device", name), opt, power, shown=lambda x, r: [word(x.alias)])
    add("on", path("device", "on"), ["--transition", "soon"], wrong="usage")
    led = mods.get(Module.Led)
    val = rng.choice([None, "on", "off", "true", "0", "maybe"])
    if val == "maybe":
        add("led", path("device", "led"), [val], wrong="usage")
    elif led is None:
        add("led", path("device", "led"), [val] if val else [], wrong="missing")
    elif val is None:
        async def do_led(x):
            return x.modules[Module.Led].led
        add("led", path("device", "led"), [], do_led, shown=lambda x, r: [str(r)])
    else:
        async def do_led(x, val=val):
            return await x.modules[Module.Led].set_led(val in ("on", "true"))
        add("led", path("device", "led"), [val], do_led)
    text = rng.choice([None, None, "Lamp", "Büro ☕", "x y", "'q\"", "0", "", "日本", "a,b"])
    if text is None:
        async def do_alias(x):
            return x.alias
        add("alias", path("device", "alias"), [], do_alias, shown=lambda x, r: [word(r), *(word(c.alias) for c in x.children)])
    else:
        async def do_alias(x, text=text):
            r = await x.set_alias(text)
            await root.update()
            return r
        add("alias", path("device", "alias"), [text], do_alias, shown=lambda x, r: [word(x.alias)])

    # features
    if not child or rng.random() < 0.5:
        async def do_feature_all(x):
            return None

        def all_feats(x, _):
            res = []
            for y in [x, *x.children]:
                for f in y.features.values():
                    with contextlib.suppress(Exception):
                        res.append(str(f))
            return res
        add("feature-all", ["feature"], [], do_feature_all, shown=all_feats)
    for f in rng.sample(list(d.features.values()), min(4, len(d.features))):
        fid = f.id
        if f.type is T.Action:
            async def action(x, fid=fid):
                return await x.features[fid].set_value(None)
            add("action", ["feature"], [fid], action, shown=lambda x, r: [str(r)])
            continue

        async def get(x, fid=fid):
            return x.features[fid].value

        def show(x, r, fid=fid):
            return [str(r), *([x.features[fid].unit] if x.features[fid].unit else [])]
        add("feature", ["feature"], [fid], get, shown=show)
        if f.attribute_setter is None:
            v = repr(rng.choice([1, True, "x"]))
        elif f.type is T.Switch:
            v = repr(rng.choice([True, False]))
        elif f.type is T.Number:
            v = repr(rng.choice([f.minimum_value, f.maximum_value, rng.randint(int(f.minimum_value), int(f.maximum_value)), f.maximum_value + 1, f.minimum_value - 1]))
        elif f.type is T.Choice:
            v = repr(rng.choice([*f.choices, "bogus"]))
        else:
            v = repr("x")
        if rng.random() < 0.15:
            add("feature", ["feature"], [fid, rng.choice(["unquoted", "'half", "on off"])], wrong="usage")
        if v.startswith("-"):
            continue    # looks like an option

        async def put(x, fid=fid, v=ast.literal_eval(v)):
            r = await x.features[fid].set_value(v)
            await root.update()
            return r
        add("feature", ["feature"], [fid, v], put, shown=lambda x, r, fid=fid: [str(x.features[fid].value)])
    add("feature", ["feature"], ["no_such_feature", *rng.choice([[], ["1"]])], wrong="missing")

    # lights
    light = mods.get(Module.Light)
    has = {k: bool(light and light.has_feature(k)) for k in ("brightness", "color_temp", "hsv")}
    n = rng.choice([None, 0, 1, 50, 100, rng.randint(0, 100), 101])
    opt, t = transition()
    if n == 101:
        add("brightness", path("light", "brightness"), ["101"], wrong="usage")
    elif not has["brightness"]:
        add("brightness", path("light", "brightness"), [] if n is None else [str(n)], wrong="missing")
    elif n is None:
        async def do_bri(x):
            return x.modules[Module.Light].brightness
        add("brightness", path("light", "brightness"), [], do_bri, shown=lambda x, r: [str(r)])
    else:
        async def do_bri(x, n=n, t=t):
            return await x.modules[Module.Light].set_brightness(n, transition=t)
        add("brightness", path("light", "brightness"), [str(n), *opt], do_bri)
    lo, hi = light.get_feature("color_temp").range if has["color_temp"] else (2500, 6500)
    n = rng.choice([None, None, lo, hi, rng.randint(lo, hi), 2500, 9000, 100, 9001])
    opt, t = transition()
    if n is not None and not 2500 <= n <= 9000:
        add("temperature", path("light", "temperature"), [str(n)], wrong="usage")
    elif not has["color_temp"]:
        add("temperature", path("light", "temperature"), [] if n is None else [str(n)], wrong="missing")
    elif n is None:
        async def do_temp(x):
            return x.modules[Module.Light].color_temp
        add("temperature", path("light", "temperature"), [], do_temp, shown=lambda x, r, rg=(lo, hi): [str(r), *map(str, rg)], json=False)
    else:
        async def do_temp(x, n=n, t=t):
            return await x.modules[Module.Light].set_color_temp(n, transition=t)
        add("temperature", path("light", "temperature"), [str(n), *opt], do_temp)
    h, s, v = rng.choice([0, 360, rng.randint(0, 360)]), rng.randint(0, 100), rng.randint(0, 100)
    args = rng.choice([[], [], [h, s, v], [h, s, v], [h, s], [h], [361, s, v], [h, 101, v]])
    opt, t = transition()
    if args and (args[0] > 360 or args[1:] and args[1] > 100):
        add("hsv", path("light", "hsv"), [*map(str, args)], wrong="usage")
    elif not has["hsv"]:
        add("hsv", path("light", "hsv"), [*map(str, args)], wrong="missing")
    elif not args:
        async def do_hsv(x):
            return x.modules[Module.Light].hsv
        add("hsv", path("light", "hsv"), [], do_hsv, shown=lambda x, r: [str(r[0]), str(r[1]), str(r[2])])
    elif len(args) < 3:
        add("hsv", path("light", "hsv"), [*map(str, args)], wrong="usage")
    else:
        async def do_hsv(x, a=tuple(args), t=t):
            return await x.modules[Module.Light].set_hsv(*a, transition=t)
        add("hsv", path("light", "hsv"), [*map(str, args), *opt], do_hsv)
    le = mods.get(Module.LightEffect)
    if le is None:
        add("effect", path("light", "effect"), rng.choice([[], ["Off"]]), wrong="missing")
    else:
        e = rng.choice([None, *le.effect_list, "bogus"])
        if e is None:
            async def do_eff(x):
                return x.modules[Module.LightEffect].effect
            add("effect", path("light", "effect"), [], do_eff, shown=lambda x, r: [str(r), *map(str, x.modules[Module.LightEffect].effect_list)])
        elif e == "bogus":
            add("effect", path("light", "effect"), [e], wrong="usage")
        else:
            async def do_eff(x, e=e):
                return await x.modules[Module.LightEffect].set_effect(e)
            add("effect", path("light", "effect"), [e], do_eff)
    lp = mods.get(Module.LightPreset)
    tail = rng.choice([["presets"], ["presets", "list"]])
    tail = ["light", *tail] if rng.random() < 0.4 else tail
    if lp is None:
        add("presets", tail, [], wrong="missing")
        add("presets-modify", ["presets", "modify"], ["0", "--brightness", "5"], wrong="missing")
    else:
        async def do_presets(x):
            return x.modules[Module.LightPreset].preset_states_list

        def presets_shown(x, r):
            return [str(v) for p in r for v in (p.hue, p.saturation, p.brightness, p.color_temp) if v]
        add("presets", tail, [], do_presets, shown=presets_shown)
        k = len(lp.preset_states_list)
        i = rng.choice([*range(k), *range(k), k, k + 3, -1, -k]) if k else 0
        lo, hi = light.get_feature("color_temp").range if has["color_temp"] else (2500, 6500)
        new = {"brightness": rng.randint(1, 100), "hue": rng.randint(0, 360), "saturation": rng.randint(0, 100), "temperature": rng.randint(lo, hi)}
        new = {x: new[x] for x in rng.sample(list(new), rng.randrange(0, 5))}
        if rng.random() < 0.1:
            new["brightness"] = 0
        args = [y for x, v in new.items() for y in (f"--{x}", str(v))] + (["--"] if i < 0 else []) + [str(i)]
        if not 0 <= i < k or not new:
            add("presets-modify", ["presets", "modify"], args, wrong="missing")
        else:
            async def do_modify(x, i=i, new=dict(new)):
                m = x.modules[Module.LightPreset]
                p = m.preset_states_list[i]
                new = {"color_temp" if k == "temperature" else k: v for k, v in new.items()}
                return await m.save_preset(m.preset_list[i + 1], dataclasses.replace(p, **{k: v for k, v in new.items() if getattr(p, k) is not None}))
            add("presets-modify", ["presets", "modify"], args, do_modify)
    if not isinstance(d, IotBulb) or d.device_type is not DeviceType.Bulb:
        add("turn-on-behavior", ["light", "turn-on-behavior"], [], wrong="missing")
    else:
        kind = rng.choice(["soft", "hard"])
        how = rng.choice(["show", "last", "preset", "preset", "untyped", "untyped-preset", "bogus"])
        n = rng.choice([0, 0, 1, 3])
        args = {"show": [], "last": ["--type", kind, "--last"], "preset": ["--type", kind, "--preset", str(n)], "untyped": ["--last"],
                "untyped-preset": ["--preset", str(n)], "bogus": ["--type", "weird", "--last"]}[how]
        if how in ("untyped", "untyped-preset", "bogus"):
            add("turn-on-behavior", ["light", "turn-on-behavior"], args, wrong="usage")
        elif how == "show":
            async def do_tob(x):
                return await x.get_turn_on_behavior()
            add("turn-on-behavior", ["light", "turn-on-behavior"], args, do_tob, shown=lambda x, r: [str(r)])
        else:
            async def do_tob(x, kind=kind, n=n if how == "preset" else None):
                b = await x.get_turn_on_behavior()
                getattr(b, kind).preset = n
                return await x.set_turn_on_behavior(b)
            add("turn-on-behavior", ["light", "turn-on-behavior"], args, do_tob)

    # history
    en = mods.get(Module.Energy)
    args = rng.choice([[], [], ["--year", "2026"], ["--month", "2026-03"], ["--erase"], ["--year", "26"], ["--month", "2026-13"]])
    if args in (["--year", "26"], ["--month", "2026-13"]):
        add("energy", ["energy"], args, wrong="usage")
    elif en is None or args and not en.supports(Energy.ModuleFeature.PERIODIC_STATS):
        add("energy", ["energy"], args, wrong="missing")
    else:
        async def do_energy(x, args=args):
            e = x.modules[Module.Energy]
            if args == ["--erase"]:
                return await e.erase_stats()
            if args and args[0] == "--year":
                return await e.get_monthly_stats(year=2026)
            if args:
                return await e.get_daily_stats(year=2026, month=3)
            st = e.status
            [st[k] for k in ("current", "voltage", "power", "total")], e.consumption_today, e.consumption_this_month
            return st

        def energy_shown(x, r, args=args):
            e = x.modules[Module.Energy]
            if args and args != ["--erase"]:
                return [f"{k}, {v}" for k, v in r.items()]
            return [] if args else [str(r["current"]), str(r["voltage"]), str(r["power"]), str(r["total"]), str(e.consumption_today), str(e.consumption_this_month)]
        add("energy", ["energy"], args, do_energy, shown=energy_shown)
    us = mods.get("usage")
    args = rng.choice([[], ["--year", "2026"], ["--month", "2026-03"], ["--erase"], ["--month", "March"]])
    if args == ["--month", "March"]:
        add("usage", ["usage"], args, wrong="usage")
    elif us is None:
        add("usage", ["usage"], args, wrong="missing")
    else:
        async def do_usage(x, args=args):
            u = x.modules["usage"]
            if args == ["--erase"]:
                return await u.erase_stats()
            if args and args[0] == "--year":
                return await u.get_monthstat(year=2026)
            if args:
                return await u.get_daystat(year=2026, month=3)
            return {"today": u.usage_today, "month": u.usage_this_month}

        def usage_shown(x, r, args=args):
            if args and args != ["--erase"]:
                return [f"{k}, {v}" for k, v in r.items()]
            return [] if args else [str(v) for v in r.values()]
        add("usage", ["usage"], args, do_usage, shown=usage_shown,
            result=None if args else (lambda r, doc: isinstance(doc, dict) and sorted(map(str, doc.values())) == sorted(map(str, r.values()))))
    kind = rng.choice(["schedule", "schedule", "antitheft", "countdown", "bogus"])
    sched = mods.get(kind) if kind in ("schedule", "antitheft", "countdown") else None
    args = [kind] if kind != "schedule" or rng.random() < 0.5 else []
    if sched is None or not sched.rules:
        add("schedule-list", ["schedule", "list"], args, wrong="missing", group=False)
    else:
        async def do_rules(x, kind=kind):
            return x.modules[kind].rules
        add("schedule-list", ["schedule", "list"], args, do_rules, shown=lambda x, r: [str(y) for y in r], group=False)
    sched = mods.get("schedule")
    ids = [r.id for r in sched.rules] if sched is not None and hasattr(sched, "rules") else []
    if ids and rng.random() < 0.7:
        async def do_delete(x, rid=rng.choice(ids)):
            m = x.modules["schedule"]
            return await m.delete_rule(next(r for r in m.rules if r.id == rid))
        add("schedule-delete", ["schedule", "delete"], ["--id", do_delete.__defaults__[0]], do_delete, group=False)
    else:
        add("schedule-delete", ["schedule", "delete"], ["--id", "NO-SUCH-RULE"], wrong="missing", group=False)
    logs = mods.get(Module.TriggerLogs)
    if logs is None:
        add("logs", ["device", "logs"], [], wrong="missing")
    else:
        async def do_logs(x):
            await root.update(update_children=True)
            return x.modules[Module.TriggerLogs].logs
        add("logs", ["device", "logs"], [], do_logs, shown=lambda x, r: [str(y) for y in r], json=False)

    # vacuums
    rec = mods.get(Module.CleanRecords)
    for tail in (["records"], ["records", "list"]):
        if rec is None:
            add("records", ["vacuum", *tail], [], wrong="missing", group=False)
            continue

        async def do_rec(x):
            r = x.modules[Module.CleanRecords]
            return (r.parsed_data, r.total_clean_area, r.area_unit, r.total_clean_time, r.total_clean_count)

        def rec_shown(x, r, tail=tail):
            if tail == ["records"]:
                return [str(v) for v in r[1:]]
            return [f"{e.timestamp}" for e in r[0].records]
        add("records", ["vacuum", *tail], [], do_rec, shown=rec_shown, json=False, group=False)
    con = mods.get(Module.Consumables)
    if con is None:
        add("consumables", ["vacuum", "consumables"], [], wrong="missing", group=False)
        add("consumables-reset", ["vacuum", "consumables", "reset"], ["filter_time"], wrong="missing", group=False)
    else:
        async def do_con(x):
            return list(x.modules[Module.Consumables].consumables.values())
        add("consumables", ["vacuum", "consumables"], [], do_con, shown=lambda x, r: [str(v) for c in r for v in (c.id, c.used, c.remaining)], json=False, group=False)
        cid = rng.choice([*con.consumables, *con.consumables, "bogus"])
        if cid == "bogus":
            add("consumables-reset", ["vacuum", "consumables", "reset"], [cid], wrong="missing", group=False)
        else:
            async def do_reset(x, cid=cid):
                await x.modules[Module.Consumables].reset_consumable(cid)
            add("consumables-reset", ["vacuum", "consumables", "reset"], [cid], do_reset, json=False, group=False)

    # raw commands
    if tw.kind == "iot":
        cmd = rng.choice([("system", "get_sysinfo", None), ("system", "set_led_off", {"off": rng.randint(0, 1)}), ("system", "set_dev_alias", {"alias": "n"}), ("time", "get_time", {}),
                          ("system", "no_such", {}), ("nope", "get", {}), ("system", "set_relay_state", {"state": rng.randint(0, 1)})])

        async def do_cmd(x, c=cmd):
            return await x._query_helper(*c)
    else:
        cmd = rng.choice([(None, "get_device_info", None), *([(None, "set_device_info", {"device_on": True})] if "device_on" in d.sys_info else []), (None, "get_device_time", None), (None, "get_nope", {"a": 1}),
                          (None, "set_device_info", {"nickname": "TGFtcA=="})])

        async def do_cmd(x, c=cmd):
            return await x._query_helper(c[1], c[2])
    broken = rng.random() < 0.12
    args = [cmd[1], *(["{'a'"] if broken else [repr(cmd[2])] if cmd[2] is not None else [])]
    if tw.kind == "iot" and not child and rng.random() < 0.3:
        add("raw-command", ["raw-command"], [cmd[0], *args], do_cmd, "missing" if broken else "", child=False, update=False)
    else:
        add("command", ["command"], [*(["--module", cmd[0]] if cmd[0] else []), *args], do_cmd, "missing" if broken else "", update=False,
            shown=lambda x, r: [json.dumps(r)])
    if tw.kind != "iot" and not child and rng.random() < 0.3:
        add("raw-command", ["raw-command"], ["m", *args], do_cmd, "missing" if broken else "", child=False, update=False)
    if child:
        return out

    # commands that take no child
    async def do_time(x):
        return x.time
    add("time-get", rng.choice([["time"], ["time", "get"]]), [], do_time, shown=lambda x, r: [str(r), str(x.timezone)], child=False, group=False)
    tm = mods.get(Module.Time)
    y, mo, da, hh, mi, ss = rng.randrange(2024, 2036), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.choice([None, 0, 7, 59])
    bad = rng.random() < 0.12
    if bad:
        mo = rng.choice([0, 13])
    zone = rng.choice([None, None, rng.choice(list(TIMEZONE_INDEX.values())), "Europe/Berlin", "Europe/Vienna", "America/New_York", "Asia/Kathmandu", "Mars/Base"])
    for name in ("time-set", "time-sync"):
        skip = rng.random() < 0.3
        decline = rng.random() < 0.2
        if name == "time-sync":
            zone = rng.choice([None, None, zone, "Etc/UTC", "Africa/Abidjan", "Atlantic/Reykjavik"])
        opts = (["--timezone", zone] if zone else []) + (["--skip-confirm"] if skip else [])
        args = opts if name == "time-sync" else [str(v) for v in (y, mo, da, hh, mi)] + ([str(ss)] if ss is not None else []) + opts
        tz = zoneinfo.ZoneInfo(zone) if zone and zone in zoneinfo.available_timezones() else None
        asks = tz is not None and not skip and isinstance(root, IotDevice) and zone not in TIMEZONE_INDEX.values()
        wrong = ""
        if tm is None:
            wrong = "missing"
        elif zone and tz is None:
            wrong = "missing"
        elif asks:
            wrong = "declined" if decline else "ask"
        if name == "time-sync":
            when = NOW.astimezone().replace(tzinfo=None)
            if tz is not None and not wrong and tz.utcoffset(when) != NOW.astimezone().utcoffset():
                wrong = "missing"
            if tz is not None and wrong == "ask" and tz.utcoffset(when) != NOW.astimezone().utcoffset():
                wrong = "missing"
            when = when.replace(tzinfo=tz)
        else:
            if bad and not wrong:
                wrong = "missing"
            if bad and wrong == "ask":
                wrong = "missing"
            when = None if bad else datetime.datetime(y, mo, da, hh, mi, ss or 0, 0, tz)

        async def do_set(x, when=when, ask=wrong == "ask", tz=tz):
            if ask and not await get_matching_timezones(tz):
                raise KasaException("no such zone")
            await x.modules[Module.Time].set_time(when)
            await x.update()
        add(name, ["time", name[5:]], args, do_set, "" if wrong == "ask" else wrong, stdin=("n\n" if decline else "y\n") if asks else "", child=False, group=False,
            shown=lambda x, r: [str(x.modules[Module.Time].time)], json=not asks)
    add("wifi-scan", ["wifi", "scan"], [], lambda x: x.wifi_scan(), shown=lambda x, r: [n.ssid for n in r], child=False, group=False)
    ssid, pw, kt = rng.choice(["net", "My Wifi", "ü☕"]), rng.choice(["secret", "p w", ""]), rng.choice(["3", "wpa2_psk", "0"])
    ask_kt, ask_pw = rng.random() < 0.3, rng.random() < 0.3 and pw
    args = [ssid, *([] if ask_kt else ["--keytype", kt]), *([] if ask_pw else ["--password", pw])]
    add("wifi-join", ["wifi", "join"], args, lambda x: x.wifi_join(ssid, pw, keytype=kt), stdin=(f"{kt}\n" if ask_kt else "") + (f"{pw}\n" if ask_pw else ""), child=False, group=False,
        json=not (ask_kt or ask_pw), shown=lambda x, r: [ssid])
    delay = rng.choice([None, 0, 1, 5])

    add("reboot", path("device", "reboot"), [] if delay is None else ["--delay", str(delay)], lambda x, n=delay: x.reboot(1 if n is None else n), child=False, group=False)
    yes = rng.random() < 0.7
    add("factory-reset", ["device", "factory-reset"], [], lambda x: x.factory_reset(), "" if yes else "declined", stdin="y\n" if yes else rng.choice(["n\n", "\n", ""]), child=False, json=False, group=False)
    yes = rng.random() < 0.7
    isold = not isinstance(root, SmartDevice)
    add("update-credentials", rng.choice([["device", "update-credentials"], ["update_credentials"]]), ["--username", "new@x.org", "--password", "n3w"],
        lambda x: x.update_credentials("new@x.org", "n3w"), "missing" if isold else "" if yes else "declined", stdin="y\n" if yes else "n\n", child=False, json=False, group=False)
    cs = mods.get(Module.ChildSetup)
    nohub = root.device_type is not DeviceType.Hub or cs is None
    if nohub:
        add("hub-list", ["hub", rng.choice(["list", "supported", "pair"])], [], wrong="missing", child=False, group=False)
        return out

    async def do_list(x):
        return list(x.children)
    add("hub-list", ["hub", "list"], [], do_list, shown=lambda x, r: [c.device_id for c in r], child=False, json=False, group=False)

    async def do_sup(x):
        return x.modules[Module.ChildSetup].supported_categories
    add("hub-supported", ["hub", "supported"], [], do_sup, shown=lambda x, r: list(r), child=False, json=False, group=False)
    n = rng.choice([None, 1, 30])
    add("hub-pair", ["hub", "pair"], [] if n is None else ["--timeout", str(n)], lambda x, n=n: x.modules[Module.ChildSetup].pair(timeout=10 if n is None else n),
        shown=lambda x, r: [c["device_id"] for c in r], child=False, json=False, group=False)
    cid = rng.choice([*(c.device_id for c in root.children), "NOPE"])
    if cid == "NOPE":
        add("hub-unpair", ["hub", "unpair"], [cid], wrong="missing", child=False, group=False)
    else:
        async def do_unpair(x, cid=cid):
            r = await x.modules[Module.ChildSetup].unpair(cid)
            await x.update()
            if any(c.device_id == cid for c in x.children):
                raise KasaException("still there")
            return r
        add("hub-unpair", ["hub", "unpair"], [cid], do_unpair, shown=lambda x, r, cid=cid: [cid], child=False, group=False)
    return out


ALL_KINDS = ("iot", "smart", "cam", "smart", "iot")


# -- sessions on one device -------------------------------------------------------------
def f_device(case):
    rng = case.rng
    kind = ALL_KINDS[case.index % len(ALL_KINDS)]
    seed = rng.random()
    clock.set_now(NOW)

    async def main(loop):
        a, b = Twin(seed, kind), Twin(seed, kind)
        for tw in (a, b):       # answers a recording lacks are made up when first asked for
            dev = tw.device(sims.config(HOST))
            await dev.update()
            if isinstance(dev, IotBulb):
                tw.model.request({dev.LIGHT_SERVICE: {"get_default_behavior": {}}})
        case.covered(kind)
        for step in range(rng.randrange(3, 6)):
            if not await one(case, rng, loop, a, b, step):
                return

    try:
        run = vrun(main, max_steps=3_000_000)
    finally:
        clock.set_now(None)
    case.sample = (kind, seed)
    case.nontrivial((kind, case.index))
    finish(case, run)


async def one(case, rng, loop, a, b, step):
    kind = a.kind
    cfg = dict(timeout=5)
    devb = b.device(sims.config(HOST, **cfg))
    try:
        await devb.update()
    except Exception as ex:  # noqa: BLE001
        case.covered("unusable")
        if not step:
            raise AssertionError(f"twin cannot be read: {ex!r}") from ex
        return False        # (commands made a device of it that does not exist)
    target = devb
    childopts, stdin, prompt = [], "", False
    if devb.children and rng.random() < 0.5:
        i = rng.randrange(len(devb.children))
        how = rng.choice(["name", "id", "index", "prompt", "name"])
        c = devb.children[i]
        alias_ok = c.alias and not c.alias.startswith("-") and [x.alias for x in devb.children].count(c.alias) == 1 and all(c.alias != x.device_id for x in devb.children)
        if how == "name" and not alias_ok:
            how = "index"
        target = c
        case.covered(f"child-{how}")
        childopts = {"name": [rng.choice(["--child", "--name"]), c.alias], "id": ["--child", c.device_id], "index": [rng.choice(["--child-index", "--index"]), str(i)],
                     "prompt": ["--child"]}[how]
        if how == "prompt":
            prompt = True
            stdin = f"{i}\n"
    cmds = commands(rng, b, devb, target)
    # every kind of command gets its share
    name = rng.choice(sorted({c.name for c in cmds if not (b.hub and rng.random() < 0.5) or c.name.startswith("hub")}) or ["state"])
    cmd = rng.choice([c for c in cmds if c.name == name])
    if childopts and not cmd.child:
        childopts, prompt, stdin = [], False, ""
    nochild = False
    if cmd.child and not childopts and rng.random() < 0.06:
        nochild = True
        case.covered("no-child")
        n = len(devb.children)
        childopts = rng.choice([["--child", "No Such Child"], ["--child-index", str(n)], ["--child-index", "-1"], ["--child", "x", "--child-index", "0"], ["--child-index", "first"]])
    use_json = cmd.wrong == "declined" and False or rng.random() < 0.4
    if prompt or cmd.stdin:
        use_json = False
    flags = (["--json"] if use_json else []) + rng.choice([[], [], [], ["-v"], ["--debug"], ["-d", "-v"]])
    if "-v" in flags:
        case.covered("verbose")
    if "-d" in flags or "--debug" in flags:
        case.covered("debug")
    group_child = childopts and cmd.group and len(cmd.path) == 2 and cmd.path[0] in ("device", "light") and not nochild and rng.random() < 0.5
    if group_child:
        case.covered("child-group")
        tail = [cmd.path[0], *(childopts if not prompt else ["--child"]), cmd.path[1], *cmd.args]
    elif cmd.path[-1] == "presets" and childopts:
        tail = [*cmd.path, *childopts]
    else:
        opts = childopts
        if rng.random() < 0.5 and "--" not in cmd.args and not prompt:
            tail = [*cmd.path, *cmd.args, *opts]
        elif prompt:    # the option's value is optional: nothing may follow it that could be one
            if "--" in cmd.args:
                return True
            tail = [*cmd.path, *cmd.args, *opts]
        else:
            tail = [*cmd.path, *opts, *cmd.args]
    argv = ["--host", HOST, *flags, *tail]
    if group_child and prompt:
        argv = ["--host", HOST, *flags, cmd.path[0], "--child", cmd.path[1], *cmd.args]
        # a command name after --child is taken as its value
        return True
    # trouble
    trouble = rng.choice([None, None, None, None, None, "refuse", "refuse", "dead", "dies"])
    code = rng.choice([-1, -3, -20001] if kind == "iot" else [-1002, -1008, -1001, 9999 and -1, -1501])
    if kind == "cam":
        code = rng.choice([-40106, -40210, -60103, -1])

    def arm(tw):
        if trouble == "refuse":
            tw.w.refuse = code
        dead = [trouble == "dead"]
        dmg = random.Random(seed_t)
        ex = dmg.choice([KTimeout("no answer"), _ConnectionError("gone"), KasaException("nonsense"), AuthenticationError("login")])

        def fail(n, request):
            if trouble == "dies" and mutating(request, kind):
                dead[0] = True
            return type(ex)(*ex.args) if dead[0] else None
        if trouble in ("dead", "dies"):
            tw.transports[-1].fail = fail

    def disarm(tw):
        tw.w.refuse = None
    seed_t = rng.random()
    made = []

    async def discover_single(host, **kw):
        dev = a.device(sims.config(host, timeout=kw.get("timeout")))
        made.append(dev)
        arm(a)
        return dev

    na, nb = len(a.model.log), len(b.model.log)
    ta = len(a.transports)
    before = a.snapshot()
    with patched(Discover, discover_single=staticmethod(discover_single)):
        out = await cli_run(argv, stdin + cmd.stdin)
    disarm(a)
    tag = f"kasa {' '.join(argv)}"
    case.event("cli", argv[2:], out.code, trouble, stdin + cmd.stdin, out.text[-300:])
    case.count("command_lines")
    # closed
    for tr in a.transports[ta:]:
        case.expect(tr.closes >= 1, "not-closed", f"{tag}: the connection stays open (exit {out.code})")
        case.expect(tr.inflight == 0, "still-talking", tag)
    doca = a.log(na)
    # what it stands for
    wrong = "nochild" if nochild else cmd.wrong
    if wrong in ("usage", "missing", "declined", "nochild") or trouble == "dead":
        if wrong == "usage":
            case.covered("usage")
        elif wrong == "missing":
            case.covered("missing")
        elif wrong == "declined":
            case.covered("declined")
        if trouble == "dead":
            case.covered("dead")
        ok = case.expect(not doca, "acted", f"{tag}: {wrong or trouble}, yet it sent {doca!r:.300}")
        ok &= case.expect(a.snapshot() == before, "acted", f"{tag}: {wrong or trouble}, yet the device changed: {list(deltas(before, a.snapshot()))[:3]!r:.300}")
        if wrong != "declined" or trouble == "dead":
            case.expect(out.code != 0, "false-success", f"{tag}: {wrong or trouble}, exit status 0: {out.text[-300:]!r}")
            if not use_json:
                case.expect((out.text + out.err).strip() or out.exc is not None, "silent-failure", tag)
        elif out.code == 0:
            case.count("declined_status_0")
        if wrong == "usage" and trouble != "dead":
            case.expect("Usage" in out.err or out.code == 1, "no-usage", f"{tag}: {out.err[-300:]!r}")
        return ok
    arm(b)
    result, exc = None, None
    if not cmd.update and target is devb:
        devb = target = b.device(sims.config(HOST, **cfg))
        arm(b)
    try:
        result = await cmd.op(target)
    except Exception as ex:  # noqa: BLE001
        exc = ex
    disarm(b)
    docb = b.log(nb)
    if trouble == "refuse" and b.w.refused:
        case.covered("refused")
    if trouble == "dies" and exc is not None:
        case.covered("dies")
    a.w.refused.clear()
    b.w.refused.clear()
    ok = case.expect(doca == docb, "acted-differently", f"{tag}: sent {doca!r:.400}, the library call sends {docb!r:.400} (exit {out.code}, {out.text[-200:]!r}, call: {exc!r})")
    ok &= case.expect(a.snapshot() == b.snapshot(), "acted-differently", f"{tag}: the device's state differs from that after the library call")
    if exc is not None:
        case.expect(out.code != 0, "false-success", f"{tag}: {exc!r}, yet exit status 0: {out.text[-300:]!r}")
        if not use_json:
            case.expect((out.text + out.err).strip() or out.exc is not None, "silent-failure", tag)
        return ok
    if not case.expect(out.code == 0, "false-failure", f"{tag}: exit status {out.code} although the call succeeds: {out.text[-300:]!r} {out.err[-300:]!r} {out.exc!r}"):
        return False
    case.covered(f"ok-{cmd.name}")
    if use_json:
        case.covered("json")
        try:
            doc = json.loads(ADDR.sub("0x", out.text))
        except ValueError as ex:
            case.violate("not-json", f"{tag}: {ex}: {out.text[:300]!r}")
            return ok
        if cmd.result is not None:
            case.expect(cmd.result(result, doc), "wrong-result", f"{tag}: {doc!r:.300}, result {result!r:.300}")
        elif cmd.json:
            case.expect(doc == plain(result), "wrong-result", f"{tag}: {doc!r:.300}, result {plain(result)!r:.300}")
    elif cmd.shown is not None:
        text = flat(out.text)
        for want in cmd.shown(target, result):
            want = flat(want)
            if not case.expect(want in text, "not-shown", f"{tag}: {want!r:.200} is not in the output: {text[:500]!r}"):
                break
    return ok


# -- addressing --------------------------------------------------------------------
LEGACY = {"plug": "IotPlug", "switch": "IotWallSwitch", "bulb": "IotBulb", "dimmer": "IotDimmer", "strip": "IotStrip", "lightstrip": "IotLightStrip"}


class Spy:
    """Everything that could be contacted, recorded."""

    def __init__(self):
        self.calls = []         # (how, arguments)
        self.devs = []

    def note(self, how, **kw):
        self.calls.append((how, kw))


def iot_of(rng, cname):
    m = sims.iot_model(rng.choice([n for n in sims.names("iot") if expect.sysinfo_class(sims.iot_model(n).request({"system": {"get_sysinfo": {}}})["system"]["get_sysinfo"]) == cname]))
    sims.iot_enrich(m, rng, NOW.replace(tzinfo=None))
    return m


def make(rng, kind):
    """(model, builder) of a device that can be used."""
    if kind == "iot":
        m = sims.iot_model(rng.choice(sims.names("iot")))
        sims.iot_enrich(m, rng, NOW.replace(tzinfo=None))
        return m, sims.iot_device
    if kind == "smart":
        m = sims.smart_model(rng.choice([n for n in sims.names("smart") if n not in sims.hub_names()]), rng)
        return m, sims.smart_device
    m = sims.cam_model(rng.choice([n for n in sims.names("smartcam") if not n.startswith("H200")]), rng)
    return m, sims.cam_device


def f_address(case):
    """Which device is contacted, how and with what; and what is refused without contacting anything."""
    rng = case.rng
    mode = ("host", "type", "camera", "legacy", "encrypt", "alias", "alias-missing", "alias-failed", "env", "bad-option", "help", "no-host")[case.index % 12]
    host = rng.choice(["10.3.3.3", "plug.lan"])
    port = rng.choice([None, None, 8080])
    timeout = rng.choice([None, 1, 30])
    dtimeout = rng.choice([None, 2, 20])
    creds = rng.choice([None, ("user@x.org", "p w")])
    chash = rng.choice([None, None, "aGFzaA=="])
    target = rng.choice([None, "192.168.7.255"])
    use_json = rng.random() < 0.4
    spy, transports = Spy(), []
    opts = []
    env = {}
    case.covered(mode)

    def opt(name, value, var=None):
        if value is None:
            return
        if var and mode == "env" and rng.random() < 0.7:
            env[var] = str(value)
        else:
            opts.extend([f"--{name}", str(value)])

    def build(model, builder, cfg):
        dev, tr = builder(model, cfg)
        transports.append(tr)
        spy.devs.append(dev)
        return dev

    kinds = {"camera": "cam", "type": "smart", "legacy": "iot"}
    kind = kinds.get(mode) or rng.choice(["iot", "smart", "cam"])
    model, builder = make(rng, kind)
    cname = None
    if mode == "legacy":
        t = rng.choice(list(LEGACY))
        cname = LEGACY[t]
        model, builder = iot_of(rng, cname), sims.iot_device

    async def fake_single(h, **kw):
        spy.note("single", host=h, **kw)
        return build(model, builder, DeviceConfig(h, timeout=kw["timeout"], credentials=kw["credentials"]))

    async def fake_connect(*, host=None, config=None):
        spy.note("connect", config=config, host=host)
        dev = build(model, builder, config)
        await dev.update()
        return dev

    def fake_xor(*, config):
        spy.note("xor", config=config)
        tr = sims.SimTransport(config, model, 9999)
        transports.append(tr)
        return tr

    net = []
    alias = rng.choice(["Lamp One", "büro", "X"])

    def set_alias(m, b, text):
        if b is sims.iot_device:
            m.sysinfo["alias"] = text
        elif b is sims.cam_device:
            m.info["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"] = text
        else:
            m.sysinfo["nickname"] = c18.b64(text)

    if mode.startswith("alias"):
        for i in range(rng.randrange(1, 5)):
            k = rng.choice(["iot", "smart", "cam"])
            m, b = make(rng, k)
            set_alias(m, b, rng.choice([f"Other {i}", f"{alias} {i}", f"my {alias}", alias[:-1]]))
            net.append((f"10.3.3.{i}", m, b, rng.random() < 0.2))
        if mode == "alias":
            m, b = make(rng, kind)
            model, builder = m, b
            set_alias(m, b, rng.choice([alias, alias.upper(), alias.lower()]))
            net.insert(rng.randrange(len(net) + 1), ("10.3.3.77", m, b, False))

    async def fake_discover(**kw):
        spy.note("discover", **kw)
        if mode == "alias-failed":
            raise rng.choice([OSError(101, "Network is unreachable"), KasaException("nope"), KTimeout("slow")])
        found = {}
        for h, m, b, sick in net:
            dev = build(m, b, DeviceConfig(h, credentials=kw.get("credentials")))
            if sick:
                transports[-1].fail = lambda n, r: KTimeout("no answer")
            found[h] = dev
            await asyncio.sleep(0.1)
            if kw.get("on_discovered"):
                await kw["on_discovered"](dev)
                if rng.random() < 0.3:
                    await kw["on_discovered"](dev)
        await asyncio.sleep(1)
        return found

    bad = None
    cmd = rng.choice([["sysinfo"], ["sysinfo"], ["alias"], ["device", "alias"], []])
    if mode in ("host", "env", "type", "camera", "encrypt"):
        opt("host", host, "KASA_HOST")
        opt("port", port, "KASA_PORT")
        opt("timeout", timeout, "KASA_TIMEOUT")
        opt("discovery-timeout", dtimeout, "KASA_DISCOVERY_TIMEOUT")
        if creds:
            opt("username", creds[0], "KASA_USERNAME")
            opt("password", creds[1], "KASA_PASSWORD")
        opt("credentials-hash", chash, "KASA_CREDENTIALS_HASH")
    enc = lv = fam = https = None
    if mode == "type":
        opts += ["--type", rng.choice(["smart", "SMART"])]
        enc = rng.choice([None, "KLAP", "AES"])
        fam = rng.choice([None, *[f.value for f in DeviceFamily if f.value.startswith("SMART.")]])
        lv = rng.choice([None, 1, 3])
        https = rng.choice([None, True, False])
    elif mode == "camera":
        opts += ["--type", "camera"]
        enc = rng.choice([None, "KLAP"])
        lv = rng.choice([None, 1])
    elif mode == "encrypt":
        enc = rng.choice([e.value for e in DeviceEncryptionType])
        enc = rng.choice([enc, enc.lower()])
        fam = rng.choice([None, *[f.value for f in DeviceFamily]])
        lv = rng.choice([None, 1, 2, 3])
        https = rng.choice([None, True, False])
    elif mode == "legacy":
        opts += ["--host", host, "--type", rng.choice([t, t.upper()])]
        opt("port", port)
        opt("timeout", timeout)
    for name, v in (("encrypt-type", enc), ("device-family", fam), ("login-version", lv)):
        opt(name, v)
    if https is not None:
        opts.append("--https" if https else "--no-https")
    if mode.startswith("alias"):
        opt("alias", alias)
        opt("target", target)
        if creds:
            opts += ["--username", creds[0], "--password", creds[1]]
    if mode == "no-host":
        cmd = rng.choice([["sysinfo"], ["on"], ["device", "on"], ["feature"], ["command", "get_device_info"], ["hub", "list"]])
        bad = 1
    if mode == "bad-option":
        bad, opts, cmd = rng.choice([(2, ["--host", host, "--alias", "x"], cmd), (2, ["--host", host, "--username", "u"], cmd), (2, ["--host", host, "--password", "u"], cmd),
                                     (1, ["--host", host, "--target", "10.0.0.255"], cmd), (2, ["--host", host, "--type", "fridge"], cmd), (2, ["--host", host, "--port", "http"], cmd),
                                     (2, ["--host", host, "--timeout", "x"], cmd), (2, ["--host", host, "--encrypt-type", "ROT13"], cmd), (2, ["--host", host], ["dance"]),
                                     (1, ["--host", host, "--type", "smart", "--device-family", "SMART.FRIDGE"], ["sysinfo"]),
                                     (2, ["--host", host, "--bogus"], cmd), (2, ["--host"], []), (2, ["--host", host, "--login-version", "two"], cmd)])
    if mode == "help":
        opts, cmd = [], [*rng.choice([[], ["device"], ["light"], ["hub"], ["device", "on"], ["time", "set"], ["discover"], ["discover", "raw"], ["feature"], ["vacuum"], ["energy"], ["wifi", "join"], ["wifi", "scan"], ["vacuum", "records", "list"], ["vacuum", "consumables", "reset"], ["hub", "pair"], ["time", "sync"], ["usage"],
                                      ["schedule", "list"], ["command"], ["light", "presets", "modify"], ["light", "turn-on-behavior"], ["shell"]]), "--help"]
    if opts == ["--host"]:
        use_json = False
    argv = [*opts, *(["--json"] if use_json and mode != "help" else []), *cmd]

    async def main(loop):
        with patched(Discover, discover_single=staticmethod(fake_single), discover=staticmethod(fake_discover)), patched(Device, connect=staticmethod(fake_connect)), \
                patched(kasa.device, XorTransport=fake_xor):
            out = await cli_run(argv, env=env)
        left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        for t in left:              # the tool's process ends here
            t.cancel()
        await asyncio.gather(*left, return_exceptions=True)
        return out

    run = vrun(main, max_steps=3_000_000)
    tag = f"kasa {' '.join(argv)} {env or ''}"
    case.sample = (mode, argv)
    case.nontrivial((mode, case.index))
    finish(case, run)
    out = run.result
    if out is None:
        return
    case.event("cli", argv, out.code, [c[0] for c in spy.calls])
    case.count("command_lines")
    for tr in transports:
        if tr.requests:
            case.expect(tr.closes >= 1, "not-closed", f"{tag}: the connection stays open (exit {out.code})")
    if mode == "help":
        case.expect(out.code == 0 and "Usage" in out.text and "Options" in out.text, "no-help", f"{tag}: {out.code} {out.text[:200]!r} {out.err[-200:]!r}")
    if bad or mode == "help":
        case.expect(not spy.calls, "contacted", f"{tag}: {spy.calls!r:.300}")
        if bad:
            case.expect(out.code != 0, "false-success", f"{tag}: exit status 0: {out.text[-300:]!r}")
            if not use_json or bad == 2:
                case.expect((out.text + out.err).strip(), "silent-failure", tag)
        return
    want_creds = Credentials(*creds) if creds else None
    if mode != "legacy":        # (the devices that are made here build such transports, too)
        spy.calls = [c for c in spy.calls if c[0] != "xor"]
    hows = [c[0] for c in spy.calls]
    if mode in ("alias-missing", "alias-failed"):
        case.expect(out.code != 0, "false-success", f"{tag}: exit status 0: {out.text[-300:]!r}")
        case.expect(set(hows) == {"discover"}, "contacted", f"{tag}: {hows}")
        return
    if not case.expect(out.code == 0, "false-failure", f"{tag}: exit status {out.code}: {out.text[-300:]!r} {out.err[-300:]!r} {out.exc!r}"):
        return
    how, kw = spy.calls[0]
    case.expect(len(hows) == 1 or mode in ("alias", "legacy") and len(set(hows)) == 1, "contacted", f"{tag}: {hows}")
    if mode in ("host", "env"):
        got = (how, kw.get("host"), kw.get("port"), kw.get("credentials"), kw.get("timeout"), kw.get("discovery_timeout"))
        want = ("single", host, port, want_creds, timeout if timeout is not None else 5, dtimeout if dtimeout is not None else 10)
        case.expect(got == want, "wrong-address", f"{tag}: {got}, expected {want}")
    elif mode == "legacy":
        c = kw["config"]
        got = (how, c.host, c.port_override, c.timeout)
        want = ("xor", host, port, timeout if timeout is not None else 5)
        case.expect(got == want, "wrong-address", f"{tag}: {got}, expected {want}")
    elif mode in ("type", "camera", "encrypt"):
        c = kw["config"]
        cp = c.connection_type
        if mode == "camera":
            conn = ("SMART.IPCAMERA", "AES", 2, True)
        else:
            conn = (fam or "SMART.TAPOPLUG", next(e.value for e in DeviceEncryptionType if e.value.lower() == (enc or "KLAP").lower()), lv if lv is not None else 2, bool(https))
        got = (how, c.host, c.port_override, c.credentials, c.credentials_hash, c.timeout, cp.device_family.value, cp.encryption_type.value, cp.login_version, cp.https)
        want = ("connect", host, port, want_creds, chash, timeout if timeout is not None else 5, *conn)
        case.expect(got == want, "wrong-address", f"{tag}: {got}, expected {want}")
    else:
        got = (how, kw.get("target"), kw.get("credentials"))
        case.expect(got == ("discover", target or "255.255.255.255", want_creds), "wrong-address", f"{tag}: {got}")
    si = model.sysinfo if kind != "cam" or builder is not sims.cam_device else model.info["getDeviceInfo"]["device_info"]["basic_info"]
    ident = next((str(si[k]) for k in ("deviceId", "device_id", "dev_id") if k in si), None)
    if cmd == ["sysinfo"] and ident:
        case.expect(re.sub(r"\s", "", ident) in re.sub(r"\s", "", out.text), "wrong-device", f"{tag}: {ident} is not in {out.text[:400]!r}")
    if use_json:
        try:
            doc = json.loads(out.text)
        except ValueError as ex:
            case.violate("not-json", f"{tag}: {ex}: {out.text[:300]!r}")
            return
        case.expect(doc is not None or cmd[-1:] == ["alias"], "wrong-result", f"{tag}: null")



# -- the network -----------------------------------------------------------------------
LOGIN = ("user@x.org", "Passw0rd")
IOTPORT, NEWPORT = 9999, 20002


class Host:
    """A device on the in-memory network that answers discovery."""

    def __init__(self, rng, net, ip, fate):
        self.ip, self.fate = ip, fate
        kinds = [k for k in KINDS if k not in ("linkie", "aes1", "camhub")]
        if fate == "auth":
            kinds = [k for k in kinds if k != "xor"]
        self.kind = kind = rng.choice(kinds)
        self.model, self.fam, self.cname = pick(rng, kind)
        if kind in ("xor", "klap1"):
            sims.iot_enrich(self.model, rng, NOW.replace(tzinfo=None))
        self.alias = rng.choice([f"Dev {ip[-2:]}", f"Büro {ip[-1]}"])
        if kind in ("xor", "klap1"):
            self.model.sysinfo["alias"] = self.alias
        elif kind.startswith("cam"):
            self.model.info["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"] = self.alias
        else:
            self.model.sysinfo["nickname"] = c18.b64(self.alias)
        user, pw = LOGIN if fate != "auth" else ("other@x.org", "secret")
        self.rig = Rig(kind, net, rng, lambda t: self.model.request(json.loads(t)), family=self.fam, host=ip, user=user, pw=pw,
                       connect_policy=(lambda n: ConnectionRefusedError(111, "Connection refused")) if fate == "dead" else None)
        _, enc, lv, https, dport, _ = KINDS[kind]
        self.enc, self.https = enc.value, https
        if kind == "xor" and fate != "unsupported":
            self.port = IOTPORT
            if "mac" in self.model.sysinfo:
                self.model.sysinfo["mac"] = "AA:BB:CC:1D:2E:" + ip[-2:].replace(".", "0")
            self.info = json.loads(json.dumps(self.model.request({"system": {"get_sysinfo": {}}})))
            self.reply = refs.xor_plain_to_wire(json.dumps(self.info).encode())
            si = self.info["system"]["get_sysinfo"]
            self.secrets = [str(si[k]) for k in ("deviceId", "hwId", "oemId", "mac") if len(str(si.get(k, ""))) > 8 and re.search("[1-9A-F]", str(si[k])) and not str(si[k]).startswith("SCRUB")]
        else:
            self.port = NEWPORT
            self.secrets = ["0a1b2c3d4e5f60718293a4b5c6d7e8f9", "AA-BB-CC-1D-2E-" + ip[-2:].replace(".", "0")]
            res = {"device_type": self.fam.value if fate != "unsupported" else "SMART.TAPOTOASTER", "device_model": "M200(EU)", "device_id": self.secrets[0], "ip": ip,
                   "mac": self.secrets[1], "owner": "F00D" * 8,
                   "mgt_encrypt_schm": {"is_support_https": https, "encrypt_type": enc.value, "http_port": dport, **({"lv": lv} if lv is not None else {})}}
            self.info = {"error_code": 0, "result": res}
            self.reply = rng.randbytes(16) + json.dumps(self.info).encode()


def f_network(case):
    """The discovery commands show every device that answers exactly once, with its name or what is wrong."""
    rng = case.rng
    net = Net(case)
    cmd = ("list", "detail", "default", "raw", "config", "host-list", "host", "host-raw", "list", "detail")[case.index % 10]
    single = cmd.startswith("host") or cmd == "config"
    fates = ["ok", "ok", "ok", "auth", "unsupported", "dead"]
    hosts = [Host(rng, net, f"10.1.2.{i}", rng.choice(fates)) for i in rng.sample(range(10, 90), 1 if single else rng.randrange(0, 5))]
    by_ip = {h.ip: h for h in hosts}
    login = rng.random() < 0.85 or cmd == "config"
    redact = rng.random() < 0.5
    use_json = rng.random() < 0.4
    opts = [*(["--username", LOGIN[0], "--password", LOGIN[1]] if login else []), *(["--host", hosts[0].ip] if single else []), "--discovery-timeout", "3", "--timeout", "2",
            *(["--json"] if use_json else [])]
    sub = {"list": ["discover", "list"], "detail": ["discover", "detail"], "default": rng.choice([["discover"], []]), "raw": ["discover", "raw"], "config": ["discover", "config"],
           "host-list": ["discover", "list"], "host": rng.choice([["discover"], []]), "host-raw": ["discover", "raw"]}[cmd]
    if sub[-1:] == ["raw"] and redact:
        sub.append("--redact")
    argv = [*opts, *sub]

    async def main(loop):
        for h in hosts:
            h.rig.loop = loop

        def respond(tr, data, addr):
            if sum(a == addr for _, _, a in tr.sent) > 1:
                return
            for h in hosts:
                if addr[1] == h.port and addr[0] in (h.ip, "255.255.255.255"):
                    tr.inject(h.reply, (h.ip, h.port), rng.choice([0.05, 0.1, 0.4]))
                    if rng.random() < 0.2:
                        tr.inject(h.reply, (h.ip, h.port), 0.5)

        net.udp_responder = respond
        out = await cli_run(argv)
        follow = None
        if cmd == "config" and out.code == 0 and not use_json:
            m = re.search(r"--device-family (\S+) --encrypt-type (\S+) (--(?:no-)?https)", out.text)
            if case.expect(m is not None, "not-shown", f"no options to connect with: {out.text[-300:]!r}"):
                follow = await cli_run(["--host", hosts[0].ip, "--username", LOGIN[0], "--password", LOGIN[1], "--device-family", m[1], "--encrypt-type", m[2], m[3],
                                        "device", "alias"])
        return out, follow

    run = vrun(main, net=net, max_steps=3_000_000)
    tag = f"kasa {' '.join(argv)} with {[(h.ip, h.kind, h.fate) for h in hosts]}"
    case.sample = (cmd, [(h.kind, h.fate) for h in hosts])
    case.nontrivial((cmd, case.index))
    finish(case, run)
    if run.result is None:
        return
    out, follow = run.result
    case.event("cli", argv, out.code, len(net.connect_log))
    case.count("command_lines")
    for h in hosts:
        case.covered({"auth": "auth-failed"}.get(h.fate, h.fate))
        if not login and h.fate == "ok" and h.kind != "xor":
            h.fate = "auth"
    left = net.open_conns()
    case.expect(not left, "not-closed", f"{tag}: {left!r:.300} left open (exit {out.code})")
    case.expect(not net.open_sessions(), "not-closed", f"{tag}: {len(net.open_sessions())} HTTP sessions left open (exit {out.code})")
    case.expect(not net.open_udp_endpoints(), "not-closed", f"{tag}: a socket of the discovery left open (exit {out.code})")
    text = out.text
    h = hosts[0] if hosts else None
    if cmd == "config":
        case.covered("config")
        works = h.fate in ("ok", "unsupported")
        if works and h.fate == "ok":
            if case.expect(out.code == 0, "false-failure", f"{tag}: {out.code} {text[-300:]!r}") and follow is not None:
                case.expect(follow.code == 0 and h.alias in follow.text, "wrong-options", f"{tag}: the options shown do not work: {follow.text[-300:]!r}")
        elif h.fate in ("dead", "auth"):
            case.expect(out.code != 0, "false-success", f"{tag}: {text[-300:]!r}")
        return
    if single:
        case.covered("host")
        if h.fate == "dead" and sub in (["discover"], []) or h.fate in ("auth", "unsupported") and sub == []:
            case.expect(out.code != 0, "false-success", f"{tag}: exit status 0: {text[-300:]!r}")
            return
    if out.code and cmd == "host-raw" and h.fate == "unsupported":
        return      # it is an error, too
    if not case.expect(out.code == 0, "false-failure", f"{tag}: exit status {out.code}: {text[-400:]!r} {out.err[-200:]!r} {out.exc!r}"):
        return
    case.covered(cmd)
    if use_json:
        case.covered("json")
        try:
            doc = json.loads(text)
        except ValueError as ex:
            case.violate("not-json", f"{tag}: {ex}: {text[:300]!r}")
            return
        if single:      # the document is the device's own
            if h.fate == "ok" and "raw" not in sub:
                case.expect(isinstance(doc, dict) and doc and h.ip not in doc, "wrong-result", f"{tag}: {doc!r:.300}")
            return
        want = sorted(x.ip for x in hosts if x.fate != "unsupported")
        if case.expect(isinstance(doc, dict) and sorted(doc) == want, "wrong-result", f"{tag}: hosts {sorted(doc or [])}, expected {want}: {text[:80]!r}"):
            for ip, d in doc.items():
                x = by_ip[ip]
                case.expect(isinstance(d, dict) and (d or x.fate != "ok" or sub[-1] not in ("detail", "list", "discover")), "wrong-result", f"{tag}: {ip}: {d!r:.200}")
        return
    if sub[:2] == ["discover", "raw"]:
        docs, pos, dec = [], 0, json.JSONDecoder()
        body = text[text.index("{"):] if "{" in text else ""
        while body[pos:].strip():
            pos += len(body[pos:]) - len(body[pos:].lstrip())
            try:
                d, pos = dec.raw_decode(body, pos)
            except ValueError as ex:
                case.violate("not-json", f"{tag}: {ex}: {body[pos:pos + 200]!r}")
                return
            docs.append(d)
        got = sorted(d["meta"]["ip"] for d in docs)
        case.expect(got == sorted(by_ip), "not-exactly-once", f"{tag}: {got}")
        for d in docs:
            x = by_ip.get(d["meta"]["ip"])
            if x is None:
                continue
            case.expect(d["meta"]["port"] == x.port, "wrong-result", f"{tag}: {d['meta']}")
            if redact:
                for sec in x.secrets:
                    case.expect(sec not in json.dumps(d), "not-redacted", f"{tag}: {sec} in {d!r:.600}")
            else:
                case.expect(d["discovery_response"] == x.info, "wrong-result", f"{tag}: {d['discovery_response']!r:.300} is not what the device sent")
        return
    lines = text.splitlines()
    if sub == ["discover", "list"]:
        for x in hosts:
            mine = [ln for ln in lines if ln.startswith(x.ip + " ")]
            if not case.expect(len(mine) == 1, "not-exactly-once", f"{tag}: {x.ip} in {mine} of {text!r:.600}"):
                continue
            ln = mine[0]
            good = x.fate == "ok"
            case.expect((x.alias in ln) == good, "wrong-row", f"{tag}: {ln!r} for {x.fate} {x.alias!r}")
            if x.fate == "unsupported":
                case.expect("UNSUPPORTED" in ln, "wrong-row", f"{tag}: {ln!r}")
            else:
                case.expect(all(w in ln.split() for w in (x.fam.value, x.enc)) or x.kind == "xor", "wrong-row", f"{tag}: {ln!r} for {x.fam.value} {x.enc}")
            if x.fate == "auth":
                case.expect("Authentication failed" in ln, "wrong-row", f"{tag}: {ln!r}")
            if x.fate == "dead":
                case.expect("Error" in ln or "Timed out" in ln, "wrong-row", f"{tag}: {ln!r}")
        extra = [ln for ln in lines if re.match(r"\d+\.\d+\.", ln) and ln.split()[0] not in by_ip]
        case.expect(not extra, "not-exactly-once", f"{tag}: {extra}")
        return
    n = {f: sum(x.fate == f for x in hosts) for f in ("ok", "auth", "unsupported", "dead")}
    for x in hosts:
        if x.fate == "ok":
            case.expect(sum(ln.strip() == f"Host: {x.ip}" for ln in lines) == 1 and x.alias in text, "not-exactly-once", f"{tag}: {x.ip} {x.alias!r} in {text[:600]!r}")
    case.expect(text.count("== Unsupported device ==") == n["unsupported"], "not-exactly-once", f"{tag}: {text[:600]!r}")
    case.expect(text.count("== Authentication failed") == n["auth"], "not-exactly-once", f"{tag}: {text[:600]!r}")
    if not single:
        case.expect(re.findall(r"Found (\d+) devices$", text, re.M) == [str(len(hosts) - n["unsupported"])], "wrong-count", f"{tag}: {text[-300:]!r}")
        if n["unsupported"]:
            case.expect(f"Found {n['unsupported']} unsupported devices" in text, "wrong-count", f"{tag}: {text[-300:]!r}")
        if n["auth"]:
            case.expect(f"Found {n['auth']} devices that failed to authenticate" in text, "wrong-count", f"{tag}: {text[-300:]!r}")


FAMILIES = [Family("device", f_device, 4500, 40000), Family("address", f_address, 2400, 24000), Family("network", f_network, 600, 8000)]
