"""C17: every feature honours its declared type, range and choices, read and set through the feature interface."""
from __future__ import annotations

import asyncio
import datetime
import enum
import math
import typing

from kasa import Feature, KasaException
from kasa.module import FeatureAttribute

from kmon import sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: random walks through the feature interface of every modelled device with valid and invalid values; an online "
             "monitor checks each read against the declared type, range and choices and each write against the device-side execution log")
NOTE = "all features of all IOT, SMART and camera fixture devices and children; values in, at and around the limits and of foreign types"
RULE = "a case = one walk on one device; non-trivial = at least one value was set and read back"
ASSUMPTIONS = ("Switches are given booleans (other types are not validated by the feature interface).",
               "A color temperature of 0 stands for a light showing a color; effects stored by other applications may have other names than the listed.",
               "A sensor may be None while the device does not report it.")
T = Feature.Type
LOCAL = {"pan_step", "tilt_step"}          # kept by the library: step width of the next pan/tilt
SKIP_SET = {"unpair", "pair", "reboot"}
BOUND_IDS = {"alarm_volume": ("alarm_volume_level", "alarm_volume"), "battery": "battery_level", "color_temp": "color_temperature",
             "fan_speed_preset": "vacuum_fan_speed", "sleep_mode": "fan_sleep_mode", "waterlevel": "mop_waterlevel",
             "protection_threshold": "power_protection_threshold"}
REQUIRED_COVER = ["iot:number", "iot:switch", "iot:choice", "iot:action", "iot:invalid-number", "iot:invalid-choice", "iot:read-only",
                  "iot:bound", "iot:strip", "iot:bulb", "iot:dimmer", "smart:number", "smart:switch", "smart:choice", "smart:action",
                  "smart:invalid-number", "smart:invalid-choice", "smart:read-only", "smart:bound", "smart:child", "smart:unbound",
                  "cam:number", "cam:switch", "cam:choice", "cam:action", "cam:invalid-number", "cam:invalid-choice", "cam:read-only", "cam:child",
                  "iot:edge", "smart:edge", "smart:nan", "iot:value-read", "smart:value-read", "cam:value-read",
                  "smart:own-limits", "smart:known-choices", "iot:limits", "cam:limits", "iot:known-choices",
                  "direct:iot-refused", "direct:smart-refused", "direct:cam-refused", "direct:edge-sent", "iot:printed", "smart:printed", "cam:printed"]


# documented ranges of number features, and those a device reports itself (functions of its model)
LIMITS = {"dimmer_fade_off_time": (0, 10000), "dimmer_fade_on_time": (0, 10000), "dimmer_gentle_off_time": (0, 120000),
          "dimmer_gentle_on_time": (0, 120000), "dimmer_ramp_rate": (10, 50), "dimmer_threshold_min": (0, 51), "brightness": (0, 100),
          "pir_threshold": (0, 100), "alarm_volume_level": (0, 3), "clean_count": (1, 3), "fan_speed_level": (0, 4), "volume": (0, 100),
          "temperature_offset": (-10, 10), "alarm_volume": (0, 10)}
CHOICES = {"pir_range": {"Far", "Mid", "Near", "Custom"}, "alarm_volume": {"mute", "low", "normal", "high"},
           "vacuum_fan_speed": {"Quiet", "Standard", "Turbo", "Max", "Ultra"}, "mop_waterlevel": {"Disable", "Low", "Medium", "High"},
           "dustbin_mode": {"Smart", "Light", "Balanced", "Max", "Off"}, "temperature_unit": {"celsius", "fahrenheit"}}


def smart_limits(m):
    """What a SMART device reports about its own ranges."""
    si, out = m.sysinfo, {}
    if "color_temp_range" in si:
        out["color_temperature"] = tuple(si["color_temp_range"])
    if "min_control_temp" in si:
        out["target_temperature"] = (si["min_control_temp"], si["max_control_temp"])
    if isinstance(m.info.get("get_max_power"), dict):
        out["power_protection_threshold"] = (0, m.info["get_max_power"]["max_power"])
    g = m.info.get("get_on_off_gradually_info")
    if "max_fade_on_time" in si:
        out["smooth_transition_on"], out["smooth_transition_off"] = (0, si["max_fade_on_time"]), (0, si["max_fade_off_time"])
    elif isinstance(g, dict) and "max_duration" in g.get("on_state", {}):
        out["smooth_transition_on"], out["smooth_transition_off"] = (0, g["on_state"]["max_duration"]), (0, g["off_state"]["max_duration"])
    return out


def vary(m, rng):
    """Other limits than the recorded."""
    si = m.sysinfo
    if "color_temp_range" in si and si["color_temp_range"][0] != si["color_temp_range"][1]:
        lo = rng.randrange(1500, 3500, 50)
        si["color_temp_range"] = [lo, lo + rng.randrange(50, 5000, 50)]
        if si.get("color_temp"):
            si["color_temp"] = rng.choice([0, lo, si["color_temp_range"][1]])
        for state in (m.info.get("get_preset_rules") or {}).get("states", []):
            if state.get("color_temp"):
                state["color_temp"] = rng.randint(*si["color_temp_range"])
    if "min_control_temp" in si:
        si["min_control_temp"] = rng.choice([-5, 0, 5, 10])
        si["max_control_temp"] = si["min_control_temp"] + rng.randrange(1, 40)
        si["target_temp"] = rng.uniform(si["min_control_temp"], si["max_control_temp"])
    if isinstance(m.info.get("get_max_power"), dict):
        m.info["get_max_power"]["max_power"] = rng.randrange(1000, 5000)
        pp = m.info.get("get_protection_power")
        if isinstance(pp, dict) and "protection_power" in pp:
            pp["protection_power"] = rng.randrange(0, 1000)
    g = m.info.get("get_on_off_gradually_info")
    if isinstance(g, dict) and "max_duration" in g.get("on_state", {}):
        for st in ("on_state", "off_state"):
            g[st]["max_duration"] = rng.randrange(1, 200)
            g[st]["duration"] = rng.randint(0, g[st]["max_duration"])
    if "max_fade_on_time" in si:
        for st in ("on", "off"):
            si[f"max_fade_{st}_time"] = rng.randrange(1, 200)
            si[f"fade_{st}_time"] = rng.randint(0, si[f"max_fade_{st}_time"])


def check_limits(case, w, d):
    """The declared range is the documented or reported one."""
    own = dict(LIMITS)
    if w.kind == "smart":
        own.update(smart_limits(w.model if d is w.dev else w.model.children[d.device_id]))
    for fid, f in d.features.items():
        if f.type is T.Number and fid in own:
            got = (f.minimum_value, f.maximum_value)
            case.expect(got == own[fid], "other-range", f"{d.model} {fid}: {got}, expected {own[fid]}")
            case.covered("limits")
            if own[fid] != LIMITS.get(fid):
                case.covered("own-limits")
        elif f.type is T.Choice and fid in CHOICES:
            case.expect(set(f.choices) == CHOICES[fid], "other-choices", f"{d.model} {fid}: {f.choices}")
            case.covered("known-choices")


def norm(v):
    return v.name if isinstance(v, enum.Enum) else v


def annotated(cls):
    """Names of the attributes declared as bound to a feature, and whether they are properties."""
    out = {}
    for klass in reversed(cls.__mro__):
        for name, obj in vars(klass).items():
            fn = obj.fget if isinstance(obj, property) else obj
            if not callable(fn) or not getattr(fn, "__annotations__", None):
                continue
            try:
                hints = typing.get_type_hints(fn, include_extras=True)
            except Exception:  # noqa: BLE001
                continue
            meta = getattr(hints.get("return"), "__metadata__", ())
            if any(isinstance(m, FeatureAttribute) for m in meta):
                out[name] = isinstance(obj, property)
            else:
                out.pop(name, None)
    return out


CACHE: dict = {}


def bound(cls):
    if cls not in CACHE:
        CACHE[cls] = annotated(cls)
    return CACHE[cls]


def read(case, dev, fid, f):
    """The value of a feature, checked against its declaration."""
    tag = f"{dev.model} {fid}"
    try:
        v, unit, choices = f.value, f.unit, f.choices
        lo, hi = f.minimum_value, f.maximum_value
    except Exception as ex:  # noqa: BLE001
        case.violate("unreadable", f"{tag}: {ex!r}")
        return None
    case.count("values_read")
    case.covered("value-read")
    case.expect(f.id == fid and isinstance(f.name, str) and f.name.strip() == f.name != "", "badly-declared", f"{tag}: id {f.id!r} name {f.name!r}")
    case.expect(f.type in T and f.category in Feature.Category and f.category is not Feature.Category.Unset, "badly-declared",
                f"{tag}: {f.type} {f.category}")
    case.expect(unit is None or isinstance(unit, (str, enum.Enum)) and unit != "", "bad-unit", f"{tag}: {unit!r}")
    if f.type in (T.Sensor, T.BinarySensor):
        case.expect(f.category is not Feature.Category.Config and f.attribute_setter is None, "badly-declared", f"{tag}: sensor that can be set")
    elif f.type is not T.Unknown:
        case.expect(f.attribute_setter is not None, "badly-declared", f"{tag}: {f.type} without a way to set it")
    if f.type is T.Switch or f.type is T.BinarySensor and v is not None:
        case.expect(isinstance(v, bool), "wrong-type", f"{tag}: {f.type} is {v!r}")
    elif f.type is T.Number:
        case.expect(lo <= hi, "bad-range", f"{tag}: {lo}..{hi}")
        num = isinstance(v, (int, float)) and not isinstance(v, bool)
        case.expect(num, "wrong-type", f"{tag}: number is {v!r}")
        if num and not (fid == "color_temperature" and v == 0):
            case.expect(lo <= v <= hi, "outside-range", f"{tag}: {v!r} not in {lo}..{hi}")
    elif f.type is T.Choice:
        ok = isinstance(choices, list) and choices and all(isinstance(c, str) for c in choices) and len(set(choices)) == len(choices)
        case.expect(ok, "bad-choices", f"{tag}: {choices!r}")
        foreign = fid == "light_effect" and isinstance(v, str) and v not in choices and getattr(dev, "_kmon_foreign", None) == v
        if ok and not foreign:
            case.expect(norm(v) in choices, "not-a-choice", f"{tag}: {v!r} not in {choices}")
    elif f.type is T.Action:
        case.expect(v == "<Action>", "wrong-type", f"{tag}: {v!r}")
    else:
        case.expect(not isinstance(v, (dict, list, bytes)), "wrong-type", f"{tag}: {v!r}")
    try:
        text = repr(f)
    except Exception as ex:  # noqa: BLE001
        case.violate("bad-repr", f"{tag}: {ex!r}")
        return v
    shown = text.removeprefix(f"{f.name} ({fid}): ")
    case.expect(shown != text, "bad-repr", f"{tag}: {text}")
    if f.type is T.Choice:
        for c in choices or ():
            case.expect((f"*{c}*" in shown) == (c == norm(v)) and c in shown, "bad-repr", f"{tag}: {v!r} of {choices} shown as {text}")
    else:
        p = round(v, f.precision_hint) if isinstance(v, float) and f.precision_hint is not None else v
        case.expect(shown.startswith(repr(p) if isinstance(p, enum.Enum) else str(p)), "bad-repr", f"{tag}: {v!r} shown as {text}")
    if f.type is T.Number:
        case.expect(shown.endswith(f"(range: {lo}-{hi})"), "bad-repr", f"{tag}: range {lo}..{hi} shown as {text}")
        shown = shown[:-len(f" (range: {lo}-{hi})")]
    if unit is not None:
        case.expect(shown.endswith(" " + (repr(unit) if isinstance(unit, enum.Enum) else unit)), "bad-repr", f"{tag}: unit {unit!r} shown as {text}")
    case.covered("printed")
    return v


def contract(case, dev):
    feats = dev.features
    for fid, f in feats.items():
        case.covered(f.type.name.lower() if f.type in (T.Action,) else "read")
        read(case, dev, fid, f)
    for mod in dev.modules.values():
        own = mod.device.features
        for name, is_prop in bound(type(mod)).items():
            attr = getattr(type(mod), name)
            try:
                f = mod.get_feature(attr)
                by_name = mod.get_feature(name)
                has = mod.has_feature(attr)
            except KasaException as ex:
                case.violate("not-bound", f"{dev.model} {type(mod).__name__}.{name}: {ex!r}")
                continue
            case.expect(f is by_name and has is (f is not None), "bound-differs", f"{dev.model} {type(mod).__name__}.{name}: {f!r} {by_name!r} {has}")
            base = name.removeprefix("set_")
            want = BOUND_IDS.get(base, base)
            want = want if isinstance(want, tuple) else (want,)
            if name == "_alarm_volume_str":
                want = ("alarm_volume",)
            if f is None:
                case.covered("unbound")
                case.expect(not any(x in own for x in want), "not-bound", f"{dev.model} {type(mod).__name__}.{name} has no feature although the device has {want}")
                continue
            case.expect(f.id in want, "bound-differs", f"{dev.model} {type(mod).__name__}.{name} has the feature {f.id}")
            case.expect(any(f is x for x in feats.values()), "bound-differs",
                        f"{dev.model} {type(mod).__name__}.{name}: its feature {f.id} is not among those of the device")
            if is_prop and f.type is not T.Action:
                try:
                    a, b = getattr(mod, name), f.value
                except Exception as ex:  # noqa: BLE001
                    case.violate("bound-differs", f"{dev.model} {type(mod).__name__}.{name}: {ex!r}")
                    continue
                if f.id == "power_protection_threshold" and b == 0:
                    continue        # shown as 0 while the protection is off
                same = a == b or norm(a) == norm(b) or isinstance(a, datetime.timedelta) and a / datetime.timedelta(milliseconds=1) == b
                case.expect(same, "bound-differs", f"{dev.model} {type(mod).__name__}.{name} is {a!r}, feature {f.id} {b!r}")
                case.covered("bound")


def invalid_values(rng, f):
    if f.type is T.Number:
        lo, hi = f.minimum_value, f.maximum_value
        return [lo - 1, hi + 1, lo - 0.001, hi + 0.001, -math.inf, math.inf, math.nan, str(lo), None, [lo], {}, b"1", 10**12, -10**12, "abc", complex(lo, 0)]
    choices = f.choices
    c = rng.choice(choices)
    out = [None, 0, 1.5, "", " " + c, c + "x", b"x", object(), [c], (c,), 99]
    for v in (c.swapcase(), c.upper(), c.lower()):
        if v not in choices:
            out.append(v)
    return out


def valid_values(rng, f):
    if f.type is T.Switch:
        return [True, False]
    if f.type is T.Number:
        lo, hi = f.minimum_value, f.maximum_value
        return [lo, hi, lo + (hi - lo) // 2, rng.randint(math.ceil(lo), math.floor(hi))]
    if f.type is T.Choice:
        return list(f.choices)
    return []


class World:
    def __init__(self, case, kind):
        self.case, self.rng, self.kind = case, case.rng, kind
        rng = self.rng
        if kind == "iot":
            self.name = rng.choice(sims.names("iot"))
            self.model = sims.iot_model(self.name)
            sims.iot_enrich(self.model, rng, datetime.datetime.now())
            self.dev, self.tr = sims.iot_device(self.model)
            si = self.model.sysinfo
            case.covered("strip" if si.get("children") else "bulb" if "light_state" in si else "dimmer" if "brightness" in si else "plug")
            eff = si.get("lighting_effect_state") or {}
            self.dev._kmon_foreign = eff.get("name")
        elif kind == "smart":
            self.name = rng.choice(sims.names("smart"))
            kids = rng.sample(sims.names("smart/child"), 3) if self.name in sims.hub_names() else None
            self.model = sims.smart_model(self.name, rng, children=kids)
            for m in (self.model, *self.model.children.values()):
                vary(m, rng)
            self.dev, self.tr = sims.smart_device(self.model)
            self.dev._kmon_foreign = (self.model.sysinfo.get("lighting_effect") or {}).get("name")
        else:
            self.name = rng.choice(sims.names("smartcam"))
            kids = rng.sample(sims.names("smart/child"), 2) + [rng.choice(sims.names("smartcam/child"))] if self.name.startswith("H200") else None
            self.model = sims.cam_model(self.name, rng, children=kids)
            self.dev, self.tr = sims.cam_device(self.model)

    def owner(self, dev):
        """Key of a device in the execution log."""
        if dev is self.dev:
            return None
        return (dev.child_id,) if self.kind == "iot" else dev.device_id

    def commands(self, since):
        out = []
        for did, method, params, code in self.model.log[since:]:
            base = method.rsplit(".", 1)[-1] if self.kind == "iot" else method
            if base.startswith(("get", "component")) or base in ("control_child", "controlChild"):
                continue
            out.append((did, method, params, code))
        return out


def walk(case, kind):
    rng = case.rng

    async def main(loop):
        w = World(case, kind)
        await w.dev.update()
        devs = [w.dev, *w.dev.children]
        if len(devs) > 1:
            case.covered("child")
        for d in devs:
            contract(case, d)
            check_limits(case, w, d)
        done = 0
        for _ in range(rng.choice([6, 12, 20])):
            if case.violations:
                break
            devs = [w.dev, *w.dev.children]
            d = rng.choice(devs)
            fid = rng.choice(list(d.features))
            f = d.features[fid]
            tag = f"{d.model} {fid}"
            n, since = len(w.tr.requests), len(w.model.log)
            if f.attribute_setter is None and f.type is not T.Unknown:
                case.covered("read-only")
                await refuse(case, w, d, f, tag, rng.choice([True, 0, 1, "x", None, f.value]), n)
                continue
            if f.type in (T.Number, T.Choice) and rng.random() < 0.55:
                v = rng.choice(invalid_values(rng, f))
                case.covered("invalid-number" if f.type is T.Number else "invalid-choice", *(["nan"] if v != v else []))
                await refuse(case, w, d, f, tag, v, n)
                continue
            if f.type is T.Action:
                if fid in SKIP_SET:
                    continue
                try:
                    await f.set_value(rng.choice([None, True]))
                except Exception as ex:  # noqa: BLE001
                    case.violate("action-failed", f"{tag}: {ex!r}")
                    continue
                sent = [e for e in w.model.log[since:] if e[1] not in ("control_child", "controlChild")]
                case.expect(sent and {e[0] for e in sent} == {w.owner(d)} and len(w.commands(since)) <= 1, "not-sent",
                            f"{tag}: action executed {sent}")
                case.covered("action")
            else:
                pool = valid_values(rng, f)
                if not pool:
                    continue
                v = rng.choice(pool)
                if v in (f.minimum_value, f.maximum_value) and f.type is T.Number:
                    case.covered("edge")
                await accept(case, w, d, f, tag, v, since)
                done += 1
            await asyncio.sleep(rng.choice([0, 1, 60, 3600]))
            await w.dev.update()
            for x in [w.dev, *w.dev.children]:
                contract(case, x)
        case.sample = (w.name, done, len(w.tr.requests))
        if done:
            case.nontrivial((w.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


async def refuse(case, w, d, f, tag, v, n):
    case.event("refuse", tag, repr(v))
    try:
        before = norm(f.value)
    except Exception:  # noqa: BLE001
        before = None
    try:
        await f.set_value(v)
    except ValueError:
        pass
    except Exception as ex:  # noqa: BLE001
        case.violate("wrong-error", f"{tag} = {v!r}: {ex!r}")
    else:
        case.violate("accepted", f"{tag} = {v!r} was accepted: {[r[:200] for r in w.tr.requests[n:]]}")
    case.expect(len(w.tr.requests) == n, "sent-anyway", f"{tag} = {v!r}: {[r[:200] for r in w.tr.requests[n:]]}")
    case.expect(norm(f.value) == before, "changed-anyway", f"{tag} = {v!r}: {before!r} became {f.value!r}")
    case.count("invalid_values")


async def accept(case, w, d, f, tag, v, since):
    case.event("set", tag, repr(v))
    case.count("values_set")
    case.covered(f.type.name.lower())
    try:
        await f.set_value(v)
    except Exception as ex:  # noqa: BLE001
        case.violate("refused", f"{tag} = {v!r}: {ex!r}")
        return
    sent = w.commands(since)
    bad = [c for c in sent if c[3]]
    case.expect(not bad, "device-refused", f"{tag} = {v!r}: {bad}")
    key = w.owner(d)
    if f.id in LOCAL:
        case.expect(not sent, "sent-anyway", f"{tag}: {sent}")
    elif not (f.id == "state" and d.children):
        case.expect(sent, "not-sent", f"{tag} = {v!r}: no command")
        who = {c[0] for c in sent}
        if w.kind == "iot":
            who = {(k[0][-2:] if k else None) for k in who}
            key = key[0][-2:] if key else None
        case.expect(who <= {key}, "wrong-device", f"{tag} = {v!r}: executed by {who}")
    await w.dev.update()
    if f.id == "brightness" and v == 0:
        case.expect(d.is_on is False, "not-read-back", f"{tag} = 0 leaves the light on")
        return
    if f.id == "light_preset":
        return          # equal presets cannot be told apart (C23)
    got = norm(f.value)
    case.expect(got == v, "not-read-back", f"{tag} = {v!r} reads back {got!r}: {[(c[1], c[2]) for c in sent]}")


def f_iot(case):
    walk(case, "iot")


def f_smart(case):
    walk(case, "smart")


def f_cam(case):
    walk(case, "cam")


# module setters that check their values themselves: feature -> (method, error); the limits are those of the feature
OWN_CHECK = {"alarm_duration": ("set_alarm_duration", ValueError), "alarm_sound": ("set_alarm_sound", ValueError),
             "alarm_volume": ("set_alarm_volume", ValueError), "alarm_volume_level": ("set_alarm_volume", ValueError),
             "brightness": ("set_brightness", ValueError), "color_temperature": ("set_color_temp", ValueError),
             "vacuum_fan_speed": ("set_fan_speed_preset", ValueError), "dustbin_mode": ("set_mode", ValueError),
             "fan_speed_level": ("set_fan_speed_level", ValueError), "light_effect": ("set_effect", ValueError),
             "light_preset": ("set_preset", ValueError), "mop_waterlevel": ("set_waterlevel", ValueError),
             "power_protection_threshold": ("set_protection_threshold", ValueError), "volume": ("set_volume", ValueError),
             "target_temperature": ("set_target_temperature", ValueError), "temperature_offset": ("set_temperature_offset", ValueError),
             "smooth_transition_off": ("set_turn_off_transition", ValueError), "smooth_transition_on": ("set_turn_on_transition", ValueError),
             "dimmer_fade_off_time": ("set_fade_off_time", KasaException), "dimmer_fade_on_time": ("set_fade_on_time", KasaException),
             "dimmer_gentle_off_time": ("set_gentle_off_time", KasaException), "dimmer_gentle_on_time": ("set_gentle_on_time", KasaException),
             "dimmer_ramp_rate": ("set_ramp_rate", KasaException), "dimmer_threshold_min": ("set_threshold_min", KasaException)}
UPPER_ONLY = {"smooth_transition_off", "smooth_transition_on"}      # the methods only check the maximum
NO_EDGE = {"light_effect", "light_preset", "brightness", "color_temperature"}   # C19, C23


def f_direct(case):
    """The module methods behind the features check their values themselves."""
    rng = case.rng
    kind = rng.choice(["iot", "smart", "smart", "cam"])

    async def main(loop):
        w = World(case, kind)
        await w.dev.update()
        pool = [(d, fid, f) for d in [w.dev, *w.dev.children] for fid, f in d.features.items() if fid in OWN_CHECK and f.container is not None]
        done = 0
        for d, fid, f in rng.sample(pool, min(len(pool), 8)):
            name, error = OWN_CHECK[fid]
            method = getattr(f.container, name)
            tag = f"{d.model} {type(f.container).__name__}.{name}"
            calls = []
            if f.type is T.Number:
                lo, hi = f.minimum_value, f.maximum_value
                bad = [hi + 1, hi + rng.choice([2, 50, 10**6])] + ([] if fid in UPPER_ONLY else [lo - 1, lo - rng.choice([2, 50, 10**6])])
                if fid == "alarm_duration" and lo == 0:
                    bad = [b for b in bad if b > hi]
                edges = [lo, hi]
                if fid == "power_protection_threshold":
                    calls += [(f"{tag[:tag.rindex('.')]}.set_enabled", lambda v: f.container.set_enabled(True, threshold=v), v) for v in bad]
                if fid.startswith("dimmer") and fid.endswith("time"):
                    calls += [(tag, method, datetime.timedelta(milliseconds=v)) for v in bad]
            else:
                c = rng.choice(f.choices)
                bad = [v for v in (c + "x", " " + c, c.swapcase(), "", rng.choice(["off", "none", "0", "nope"])) if v not in f.choices]
                edges = [rng.choice(f.choices)]
            calls += [(tag, method, v) for v in bad]
            before = norm(f.value)
            for t, m, v in rng.sample(calls, min(len(calls), 4)):
                n = len(w.tr.requests)
                case.event("direct", t, repr(v))
                try:
                    await m(v)
                except error as ex:
                    case.expect(error is ValueError or type(ex) is KasaException, "wrong-error", f"{t}({v!r}): {ex!r}")
                except Exception as ex:  # noqa: BLE001
                    case.violate("wrong-error", f"{t}({v!r}): {ex!r}")
                else:
                    case.violate("accepted", f"{t}({v!r}) was accepted: {[r[:200] for r in w.tr.requests[n:]]}")
                case.expect(len(w.tr.requests) == n, "sent-anyway", f"{t}({v!r}): {[r[:200] for r in w.tr.requests[n:]]}")
                case.expect(norm(f.value) == before, "changed-anyway", f"{t}({v!r}): {before!r} became {f.value!r}")
                case.covered(f"{kind}-refused")
                done += 1
            if fid not in NO_EDGE:
                v = rng.choice(edges)
                since = len(w.model.log)
                try:
                    await method(v)
                except Exception as ex:  # noqa: BLE001
                    case.violate("refused", f"{tag}({v!r}): {ex!r}")
                    continue
                case.expect(w.commands(since), "not-sent", f"{tag}({v!r}): no command")
                await w.dev.update()
                case.covered("edge-sent")
                if fid != "power_protection_threshold":
                    got = norm(f.value)
                    case.expect(got == v, "not-read-back", f"{tag}({v!r}) reads back {got!r}")
        case.sample = (w.name, done)
        if done:
            case.nontrivial((w.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


FAMILIES = [Family("iot", f_iot, 900, 12000), Family("smart", f_smart, 1500, 16000), Family("cam", f_cam, 500, 6000),
            Family("direct", f_direct, 600, 9000)]
