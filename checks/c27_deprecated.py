"""C27: the old names of the API keep working: they mean what their replacements mean, and say that they are old."""
from __future__ import annotations

import asyncio
import json
import random
import warnings
from types import SimpleNamespace

import kasa
import kasa.iot
import kasa.iot.modules.lightpreset
from kasa import DeviceType, Module

from kmon import clock, gen, refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.net import Net
from kmon.servers import XorServer
from kmon.vloop import vrun

from checks import c18_settings as c18
from checks.c18_settings import World

TECHNIQUE = ("runtime monitoring: every modelled device and child is read through the old names after every change of its state, next to "
             "the names which replace them; commands run through the old name on one device and through the new name on its twin, and a "
             "monitor compares what the two executed, returned and raised; a recorder of warnings demands one DeprecationWarning at the "
             "caller's line")
NOTE = ("old device, light and energy attributes, old methods, old class names, the old protocol class and star import; the table of "
        "replacements is the harness' own")
RULE = "a case = one device read or commanded through old names; non-trivial = at least one old name answered"
ASSUMPTIONS = ("What the replacing module attribute gives is judged by C16-C21.",)
REQUIRED_COVER = [f"read:{k}" for k in ("type", "light", "led", "effect-dict", "effect-name", "effect-list", "presets-old", "presets-new", "emeter",
                                        "absent", "raises", "light-module", "energy-module", "modules", "child", "unknown", "before-update",
                                        "iot", "smart", "cam")] + \
    [f"call:{k}" for k in ("set_brightness", "set_hsv", "set_color_temp", "set_led", "set_effect", "set_custom_effect", "save_preset",
                           "get_emeter_realtime", "get_emeter_daily", "get_emeter_monthly", "erase_emeter_stats", "own-name", "refused", "raises")] + \
    [f"names:{k}" for k in ("class", "device-class", "star", "unknown", "protocol", "own-port", "timeout")]

TYPES = {"is_bulb": DeviceType.Bulb, "is_dimmer": DeviceType.Dimmer, "is_light_strip": DeviceType.LightStrip, "is_plug": DeviceType.Plug,
         "is_wallswitch": DeviceType.WallSwitch, "is_strip": DeviceType.Strip, "is_strip_socket": DeviceType.StripSocket}
READS = {  # name: (module, what the name stands for, feature of the light which has to be there)
    "brightness": (Module.Light, "brightness"), "hsv": (Module.Light, "hsv"), "color_temp": (Module.Light, "color_temp"),
    "led": (Module.Led, "led"), "emeter_realtime": (Module.Energy, "status"), "emeter_today": (Module.Energy, "consumption_today"),
    "emeter_this_month": (Module.Energy, "consumption_this_month"), "current_consumption": (Module.Energy, "current_consumption")}
LIGHT = {"is_color": "hsv", "is_dimmable": "brightness", "is_variable_color_temp": "color_temp"}
ENERGY = {"emeter_today": "consumption_today", "emeter_this_month": "consumption_this_month", "realtime": "status"}
ABSENT = object()


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "to_dict"):
        return v.to_dict()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def get(fn):
    """(value or exception, warnings)"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            v = fn()
        except Exception as ex:  # noqa: BLE001
            v = ex
    return v, seen


def same(a, b):
    if isinstance(a, Exception) or isinstance(b, Exception):
        return type(a) is type(b) and (str(a) == str(b) or isinstance(a, AttributeError))
    if a is b or isinstance(a, type):
        return a is b
    try:
        return type(a) is type(b) and plain(a) == plain(b)
    except Exception:  # noqa: BLE001
        return False


def told(case, tag, name, seen):
    """Exactly the warning which names the old attribute, at the caller's line."""
    dep = [w for w in seen if issubclass(w.category, DeprecationWarning)]
    case.expect(len(dep) == 1 and name in str(dep[0].message), "no-warning", f"{tag}: {[str(w.message) for w in dep]}")
    if dep:
        case.expect(dep[0].filename == __file__, "warning-elsewhere", f"{tag}: reported at {dep[0].filename}:{dep[0].lineno}")


def check(case, tag, name, old, want, wantwarn=True):
    v, seen = old
    if want is ABSENT:
        case.expect(isinstance(v, AttributeError), "absent-name-answers", f"{tag}: {v!r}")
        case.covered("absent")
        return
    case.expect(same(v, want), "old-name-differs", f"{tag}: {v!r}, its replacement {want!r}")
    if wantwarn:
        told(case, tag, name, seen)
    if isinstance(want, Exception):
        case.covered("raises")


def attr(mod, name):
    return get(lambda: getattr(mod, name))[0]


def read_all(case, w, d):
    M = d.modules
    tag = f"{d.model} of {w.name}"
    light, led, energy, effect, preset = (M.get(x) for x in (Module.Light, Module.Led, Module.Energy, Module.LightEffect, Module.LightPreset))
    for name, t in TYPES.items():
        check(case, f"{tag} {name}", name, get(lambda: getattr(d, name)), d.device_type is t)
    case.covered("type")
    for name, (mod, new) in READS.items():
        m = M.get(mod)
        if name == "led" and w.kind == "iot" and d is not w.dev:
            case.expect(d.led is False, "old-name-differs", f"{tag}: sockets have no led: {d.led}")
            continue
        old = get(lambda: getattr(d, name))
        check(case, f"{tag} {name}", name, old, ABSENT if m is None else attr(m, new))
        if m is not None:
            case.covered({Module.Light: "light", Module.Led: "led", Module.Energy: "emeter"}[mod])
    for name, f in LIGHT.items():
        old = get(lambda: getattr(d, name))
        check(case, f"{tag} {name}", name, old, ABSENT if light is None else light.has_feature(f))
        if light is not None:
            case.expect(old[0] is (light.get_feature(f) is not None), "wrong-ability", f"{tag} {name}: {old[0]}")
            check(case, f"{tag} light.{name}", name, get(lambda: getattr(light, name)), light.has_feature(f))
            case.covered("light-module")
    check(case, f"{tag} has_effects", "has_effects", get(lambda: d.has_effects), ABSENT if light is None else effect is not None)
    rng = ABSENT
    if light is not None:
        f = light.get_feature("color_temp")
        rng = kasa.KasaException("Color temperature not supported") if f is None else kasa.ColorTempRange(f.minimum_value, f.maximum_value)
        check(case, f"{tag} light.has_effects", "has_effects", get(lambda: light.has_effects), effect is not None)
        check(case, f"{tag} light.valid_temperature_range", "valid_temperature_range", get(lambda: light.valid_temperature_range), rng)
        v, _ = get(lambda: light.no_such_name)
        case.expect(isinstance(v, AttributeError), "unknown-name-answers", repr(v))
    check(case, f"{tag} valid_temperature_range", "valid_temperature_range", get(lambda: d.valid_temperature_range), rng)
    if effect is None:
        want = names = ABSENT
    else:
        now = effect.effect
        info = d.sys_info if w.kind == "iot" else d.internal_state.get("get_device_info", {})
        raw = info.get("lighting_effect_state") if w.kind == "iot" else info.get("lighting_effect")
        if raw is not None:
            want, names = raw, [x for x in effect.effect_list if x != "Off"]
            case.covered("effect-dict")
        else:
            want, names = now, effect.effect_list
            case.covered("effect-name")
        case.covered("effect-list")
    check(case, f"{tag} effect", "effect", get(lambda: d.effect), want)
    v, seen = get(lambda: d.effect_list)
    check(case, f"{tag} effect_list", "effect_list", (list(v) if isinstance(v, tuple) else v, seen), names)
    if preset is None:
        want = ABSENT
    elif w.kind == "iot":
        cls = kasa.iot.modules.lightpreset.IotLightPreset
        want = get(lambda: [cls(**p) for p in d.sys_info["preferred_state"] if "id" not in p])[0]
        case.covered("presets-old")
    else:
        want = preset.preset_states_list
        case.covered("presets-new")
    check(case, f"{tag} presets", "presets", get(lambda: d.presets), want)
    if energy is not None:
        for name, new in ENERGY.items():
            check(case, f"{tag} energy.{name}", name, get(lambda: getattr(energy, name)), attr(energy, new))
        v, _ = get(lambda: energy.no_such_name)
        case.expect(isinstance(v, AttributeError), "unknown-name-answers", repr(v))
        case.covered("energy-module")
    v, seen = get(lambda: d.supported_modules)
    case.expect(v is d.modules or v == d.modules, "old-name-differs", f"{tag} supported_modules")
    told(case, f"{tag} supported_modules", "supported_modules", seen)
    case.covered("modules")
    for name in ("no_such_name", "set_no_such_name", "is_toaster", "__wrapped__"):
        v, seen = get(lambda: getattr(d, name))
        case.expect(isinstance(v, AttributeError), "unknown-name-answers", f"{tag} {name}: {v!r}")
        case.expect(not seen, "unknown-name-warns", f"{tag} {name}")
    case.covered("unknown")


def f_read(case):
    rng = case.rng
    kind = rng.choice(["iot", "iot", "smart", "smart", "cam"])
    case.covered(kind)

    async def main(loop):
        w = World(case, kind)
        if rng.random() < 0.2:
            d = w.dev
            for name, t in TYPES.items():
                check(case, f"{w.name} {name} before update", name, get(lambda: getattr(d, name)), d.device_type is t)
            case.expect(not w.tr.requests, "reading-sends", "before the first update")
            case.covered("before-update")
        for n in range(rng.choice([1, 2])):
            if kind == "iot":
                c18.iot_shake(w.model, rng)
            else:
                for m in (w.model, *w.model.children.values()):
                    (c18.smart_shake if isinstance(m, sims.SmartModel) else c18.cam_shake)(m, rng)
            await w.dev.update()
            before, sent = w.view(), len(w.tr.requests)
            for d in w.devs():
                read_all(case, w, d)
                if d is not w.dev:
                    case.covered("child")
            case.expect(len(w.tr.requests) == sent, "reading-sends", str(w.tr.requests[sent:])[:200])
            case.expect(w.view() == before, "reading-changes", w.name)
            case.event("read", w.name, n)
            await asyncio.sleep(100000)
        case.sample = (w.name, len(w.devs()))
        case.nontrivial((w.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def calls_for(rng, w, d):
    """(old name, how to get at the old and the new one, arguments)."""
    M, out = d.modules, []

    def add(name, new, *args, on=None, **kw):
        """on: the module which carries the old name (None: the device)."""
        out.append((name, on, new, args, kw))

    if (m := M.get(Module.Light)) is not None:
        tr = rng.choice([{}, {"transition": rng.choice([0, 500, 1000])}])
        add("set_brightness", (Module.Light, "set_brightness"), rng.choice([1, 37, 100, 101, -1]), **tr)
        lo, hi = 2700, 6500
        if (f := m.get_feature("color_temp")) is not None:
            lo, hi = f.minimum_value, f.maximum_value
        add("set_color_temp", (Module.Light, "set_color_temp"), rng.choice([lo, hi, (lo + hi) // 2, hi + 1]), **tr)
        hsv = (rng.randrange(361), rng.randrange(101))
        add("set_hsv", (Module.Light, "set_hsv"), *hsv, *rng.choice([(), (rng.randint(1, 100),)]), **tr)
    if M.get(Module.Led) is not None:
        add("set_led", (Module.Led, "set_led"), rng.random() < 0.5)
    if (m := M.get(Module.LightEffect)) is not None:
        add("set_effect", (Module.LightEffect, "set_effect"), rng.choice([*m.effect_list, "No such effect"]),
            **rng.choice([{}, {"brightness": rng.randint(1, 100)}]))
        add("set_custom_effect", (Module.LightEffect, "set_custom_effect"),
            {"name": "Mine", "enable": 1, "brightness": rng.randint(1, 100), "id": "abc", "custom": 1, "type": "static"})
    if M.get(Module.LightPreset) is not None and w.kind == "iot":
        p = rng.choice([{"hue": rng.randrange(360), "saturation": rng.randrange(100), "color_temp": 0},
                        {"color_temp": 2700, "hue": 0, "saturation": 0}])
        add("save_preset", None, {"index": rng.choice([0, 1, 2, 3, 4, 9]), "brightness": rng.randint(1, 100), **p})
    if M.get(Module.Energy) is not None:
        y = rng.choice([{}, {"year": 2024}])
        mo = rng.choice([{}, {"month": 3}])
        k = rng.choice([{}, {"kwh": False}, {"kwh": True}])
        for name, new, kw in (("get_emeter_realtime", "get_status", {}), ("get_emeter_daily", "get_daily_stats", {**y, **mo, **k}),
                              ("get_emeter_monthly", "get_monthly_stats", {**y, **k})):
            add(name, (Module.Energy, new), **kw)
        for name, new, kw in (("get_realtime", "get_status", {}), ("get_daystat", "get_daily_stats", {**y, **mo, **k}),
                              ("get_monthstat", "get_monthly_stats", {**y, **k}), ("erase_emeter_stats", "erase_stats", {})):
            if w.kind == "iot" and name in ("get_daystat", "get_monthstat"):    # names of their own, which take no unit
                kw.pop("kwh", None)
            if name not in ("get_daystat", "get_monthstat") or w.kind != "cam":
                add(name, (Module.Energy, new), on=Module.Energy, **kw)
    return out


def w_own(d, on, name):
    """IOT energy modules count usage in the same way as time: both have these names."""
    return on is not None and name in ("get_daystat", "get_monthstat") and isinstance(d, kasa.iot.IotDevice)


async def run(fn):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            r = await fn()
        except Exception as ex:  # noqa: BLE001
            r = ex
    return r, seen


def f_call(case):
    rng = case.rng
    kind = rng.choice(["iot", "iot", "smart", "cam"])
    seed = rng.randrange(1 << 48)

    async def main(loop):
        a, b = (World(SimpleNamespace(rng=random.Random(seed)), kind) for _ in range(2))
        await a.dev.update()
        await b.dev.update()
        done = 0
        for _ in range(rng.choice([8, 16])):
            i = rng.randrange(len(a.devs()))
            da, db = a.devs()[i], b.devs()[i]
            s = rng.randrange(1 << 48)
            calls = calls_for(random.Random(s), a, da)
            if not calls:
                continue
            name, on, new, args, kw = calls[random.Random(s + 1).randrange(len(calls))]
            tag = f"{da.model} of {a.name}: {name}{args}{kw or ''}"
            if rng.random() < 0.15:
                a.refuse = b.refuse = -3 if kind == "iot" else -1008 if kind == "smart" else -40209
            na, nb = len(a.model.log), len(b.model.log)
            old, seen = get(lambda: getattr(da if on is None else da.modules[on], name))
            if w_own(da, on, name):
                case.covered("own-name")
            else:
                told(case, tag, name, seen)
            case.expect(len(a.model.log) == na, "reading-sends", tag)
            if not callable(old):
                case.violate("old-name-differs", f"{tag}: {old!r}")
                return
            if new is None:      # save_preset: the device has to be told just this
                cls = kasa.iot.modules.lightpreset.IotLightPreset
                p = args[0]
                with_preset = cls(**p)
                ra, _ = await run(lambda: old(with_preset))
                log = [e[1:] for e in a.log_since(na)]
                n = len([x for x in da.sys_info.get("preferred_state") or [] if "id" not in x])
                if n == 0 or p["index"] >= len(da.sys_info["preferred_state"]):
                    case.expect(isinstance(ra, kasa.KasaException) and not log, "wrong-result", f"{tag}: {ra!r} {log}")
                    case.covered("raises")
                elif a.refuse is not None:
                    case.expect(isinstance(ra, kasa.KasaException), "wrong-result", f"{tag}: {ra!r}")
                    case.covered("refused")
                else:
                    case.expect(not isinstance(ra, Exception) and len(log) == 1 and log[0][0].endswith(".set_preferred_state")
                                and log[0][1] == p, "wrong-command", f"{tag}: {log} {ra!r}")
                    case.covered("save_preset")
                a.refuse = b.refuse = None
                await db.modules[Module.LightPreset].call("set_preferred_state", p) if log and log[0][2] == 0 else None
            else:
                ra, _ = await run(lambda: old(*args, **kw))
                fresh = getattr(db.modules[new[0]], new[1])
                rb, _ = await run(lambda: fresh(*args, **kw))
                la, lb = a.model.log[na:], b.model.log[nb:]
                case.expect(same(ra, rb) or (isinstance(ra, Exception) and isinstance(rb, Exception) and type(ra) is type(rb)),
                            "old-name-differs", f"{tag}: {ra!r}, its replacement {rb!r}")
                case.expect(list(la) == list(lb), "wrong-command", f"{tag}: {list(la)[:3]}, its replacement {list(lb)[:3]}")
                if isinstance(rb, Exception):
                    case.covered("refused" if a.refuse is not None else "raises")
                if not isinstance(rb, Exception) or name == "erase_emeter_stats":
                    case.covered({"get_realtime": "get_emeter_realtime", "get_daystat": "get_emeter_daily",
                                  "get_monthstat": "get_emeter_monthly"}.get(name, name))
                    done += 1
                a.refuse = b.refuse = None
            case.event(name, type(ra).__name__)
            await a.dev.update()
            await b.dev.update()
            case.expect(a.view() == b.view(), "states-differ", f"{tag}: {c18.diff(b.view(), a.view())}")
            if case.violations:
                return
        case.sample = (a.name, done)
        if done:
            case.nontrivial((a.name, case.index))

    with clock.at(__import__("datetime").datetime(2024, 3, 9, 12, 0, 0).astimezone()):
        finish(case, vrun(main, max_steps=3_000_000))


CLASSES = {"SmartDeviceException": "KasaException", "UnsupportedDeviceException": "UnsupportedDeviceError", "AuthenticationException": "AuthenticationError",
           "TimeoutException": "TimeoutError", "ConnectionType": "DeviceConnectionParameters", "EncryptType": "DeviceEncryptionType",
           "DeviceFamilyType": "DeviceFamily"}
DEVICES = {"SmartDevice": "IotDevice", "SmartPlug": "IotPlug", "SmartBulb": "IotBulb", "SmartLightStrip": "IotLightStrip", "SmartStrip": "IotStrip",
           "SmartDimmer": "IotDimmer"}


def f_names(case):
    """Old classes and the old protocol."""
    rng = case.rng
    for name, new in CLASSES.items():
        check(case, f"kasa.{name}", name, get(lambda: getattr(kasa, name)), getattr(kasa, new))
        case.expect(getattr(kasa, new).__name__ == new, "wrong-class", new)
        case.covered("class")
    for name, new in DEVICES.items():
        check(case, f"kasa.{name}", name, get(lambda: getattr(kasa, name)), getattr(kasa.iot, new))
        case.covered("device-class")
    check(case, "kasa.SmartBulbPreset", "SmartBulbPreset", get(lambda: kasa.SmartBulbPreset), kasa.iot.modules.lightpreset.IotLightPreset)
    for name in ("NoSuchName", "_deprecated_nothing", "SmartToaster"):
        v, seen = get(lambda: getattr(kasa, name))
        case.expect(isinstance(v, AttributeError) and not seen, "unknown-name-answers", f"{name}: {v!r}")
        case.covered("unknown")
    ns: dict = {}
    v, _ = get(lambda: exec("from kasa import *", ns))  # noqa: S102
    case.expect(not isinstance(v, Exception), "star-import-fails", repr(v))
    for n in ("Discover", "Device", "Module", "KasaException", "Credentials", "DeviceConfig", "Feature", "IotProtocol", "SmartProtocol"):
        case.expect(ns.get(n) is getattr(kasa, n), "star-import-lacks", n)
    case.covered("star")
    cls, seen = get(lambda: kasa.TPLinkSmartHomeProtocol)
    told(case, "kasa.TPLinkSmartHomeProtocol", "TPLinkSmartHomeProtocol", seen)
    for _ in range(3):
        text = gen.json_text(rng) if hasattr(gen, "json_text") else json.dumps({"a": rng.choice(["x", "ü", "日本", "\x00\x7f"]), "n": rng.random()})
        enc = cls.encrypt(text)
        case.expect(enc == refs.xor_frame(text.encode()), "wrong-cipher", text[:60])
        case.expect(cls.decrypt(enc[4:]) == text, "wrong-plaintext", text[:60])
    v, _ = get(lambda: cls(""))
    case.expect(isinstance(v, kasa.KasaException), "no-host-accepted", repr(v))
    port = rng.choice([None, None, 12345])
    timeout = rng.choice([None, 2, 9])
    mute = rng.random() < 0.4
    asked = [{"system": {"get_sysinfo": {}}}, {"emeter": {"get_realtime": {"x": rng.randrange(99)}}}]
    answer = {"system": {"get_sysinfo": {"alias": "Ü", "err_code": 0}}, "emeter": {"get_realtime": {"power": rng.randrange(99)}}}

    async def main(loop):
        net = Net.current if hasattr(Net, "current") else NET[0]
        srv = XorServer(net, "127.0.0.7", port or 9999, lambda text: {k: answer[k] for k in json.loads(text)}, bad=case.violate, clock=loop.time,
                        rng=rng, plan=lambda stage, n: ("stall",) if mute else None)
        p = cls("127.0.0.7", **({"port": port} if port else {}), **({"timeout": timeout} if timeout else {}))
        for q in asked:
            t = loop.time()
            try:
                got = await p.query(q if rng.random() < 0.5 else json.dumps(q), retry_count=0)
            except kasa.KasaException as ex:
                case.expect(mute and isinstance(ex, kasa.TimeoutError), "old-protocol-fails", repr(ex))
                case.expect(abs(loop.time() - t - (timeout or 5)) < 0.01, "wrong-timeout", f"{loop.time() - t} s, asked for {timeout}")
                case.covered("timeout")
            else:
                case.expect(got == {k: answer[k] for k in q} and not mute, "wrong-answer", f"{q}: {got}")
        case.expect([json.loads(x) for x in srv.plain_requests] == ([] if mute else asked), "wrong-request", str(srv.plain_requests))
        await p.close()
        case.covered("protocol")
        if port:
            case.covered("own-port")

    net = Net(case)
    NET[:] = [net]
    finish(case, vrun(main, net=net, max_steps=500_000))
    case.sample = (port, timeout, mute)
    case.nontrivial(case.index)


NET: list = []
FAMILIES = [Family("read", f_read, 500, 9000), Family("call", f_call, 500, 9000), Family("names", f_names, 30, 200)]
