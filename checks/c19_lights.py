"""C19: light commands carry only valid values and exactly the requested change."""
from __future__ import annotations

import copy
import warnings

from kasa import DeviceError, KasaException, Module
from kasa.exceptions import SMART_AUTHENTICATION_ERRORS, SMART_RETRYABLE_ERRORS, SmartErrorCode
from kasa.interfaces import LightState
from kasa.iot.iotbulb import BehaviorMode

from kmon import sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: histories of light commands with valid and invalid arguments on every kind of light in random on/off and color states; a monitor "
             "on the wire log compares each command with a reference computed from the arguments alone, an online checker compares all readings with the "
             "simulated light's own state after every update")
NOTE = "all fixture bulbs, strips, dimmers and SMART lights incl. light children, with capabilities switched on and off; valid, boundary and invalid arguments"
RULE = "a case = one light and a history of up to 25 commands; non-trivial = at least one command reached the light"
ASSUMPTIONS = ("The light applies a command it accepts completely and one it refuses not at all.",
               "No light effect is running (C23); values of light states beyond brightness are not validated by the library before they are sent.",
               "Booleans are accepted as integers.")
REQUIRED_COVER = ["bulb:cmd", "bulb:invalid", "bulb:missing", "bulb:refused", "bulb:off", "bulb:behavior", "dimmer:cmd", "dimmer:invalid", "dimmer:missing",
                  "dimmer:refused", "dimmer:off", "smart:cmd", "smart:invalid", "smart:missing", "smart:refused", "smart:off", "smart:child",
                  "bulb:restore", "bulb:transition", "dimmer:transition", "bulb:legacy-names", "smart:legacy-names"]
CODES = [c for c in SmartErrorCode if c.value < 0 and c not in SMART_RETRYABLE_ERRORS and c not in SMART_AUTHENTICATION_ERRORS
         and not c.name.startswith(("INTERNAL", "UNKNOWN_METHOD", "JSON_DECODE", "HANDSHAKE", "SESSION", "DEVICE_BLOCKED", "HOMEKIT_LOGIN",
                                    "BAD_USERNAME", "BAD_PASSWORD"))]
BULBS = DIMMERS = SMARTS = None
# the documented white ranges of the legacy bulbs
KELVIN = [("LB130", 2500, 9000), ("LB120", 2700, 6500), ("LB230", 2500, 9000), ("KB130", 2500, 9000), ("KL130", 2500, 9000), ("KL125", 2500, 6500),
          ("KL135", 2500, 9000), ("KL120(EU)", 2700, 6500), ("KL120(US)", 2700, 5000), ("KL430", 2500, 9000)]


def lists():
    global BULBS, DIMMERS, SMARTS
    if BULBS is None:
        BULBS, DIMMERS, SMARTS = [], [], []
        for n in sims.names("iot"):
            si = sims.iot_model(n).sysinfo
            if "light_state" in si:
                BULBS.append(n)
            elif "brightness" in si:
                DIMMERS.append(n)
        for n in sims.names("smart"):
            f = sims.load("smart", n)
            if "brightness" in f["get_device_info"] or any("brightness" in c.get("get_device_info", {}) for c in f.get("child_devices", {}).values()):
                SMARTS.append(n)


class Light:
    """One light: the library's device, the simulated one, and what the simulated one can do."""

    def __init__(self, case, kind):
        lists()
        self.case, self.rng, self.kind = case, case.rng, kind
        rng = self.rng
        self.name = rng.choice({"bulb": BULBS, "dimmer": DIMMERS, "smart": SMARTS}[kind])
        if kind == "smart":
            self.model = sims.smart_model(self.name, rng)
        else:
            self.model = sims.iot_model(self.name)
            self.caps()
        self.top = None
        self.refuse, self.refused = None, []
        self.model.fault = self.fault
        self.top, self.tr = (sims.smart_device if kind == "smart" else sims.iot_device)(self.model)

    def fault(self, *a):
        method = a[1]
        if self.refuse is None or method.startswith(("get", "component")) or method in ("control_child", "multipleRequest"):
            return None
        self.refused.append(method)
        return self.refuse

    def caps(self):
        """Legacy bulbs say what they can do: vary it."""
        si, rng = self.model.sysinfo, self.rng
        if self.kind == "bulb" and rng.random() < 0.4:
            si["is_color"], si["is_variable_color_temp"] = rng.randrange(2), rng.randrange(2)
            if rng.random() < 0.3:
                si["model"] = rng.choice([f"{k[0]}" for k in KELVIN] + ["KL999(US)"])
                if "(" not in si["model"]:
                    si["model"] += rng.choice(["(US)", "(EU)"])

    def select(self):
        """The device whose light is exercised: the top device or one of its children."""
        devs = [d for d in (self.top, *self.top.children) if (m := d.modules.get(Module.Light)) is not None and m.device is d]
        self.d = self.rng.choice(devs)
        self.light = self.d.modules[Module.Light]
        self.m = self.model if self.d is self.top else self.model.children[self.d.device_id]
        si = self.m.sysinfo
        if self.kind == "bulb":
            self.color, self.white = bool(si["is_color"]), bool(si["is_variable_color_temp"])
            self.range = next(((a, b) for name, a, b in KELVIN if si["model"].startswith(name)), (2700, 5000))
        elif self.kind == "dimmer":
            self.color = self.white = False
        else:
            self.color = "color" in self.m.components and "hue" in si
            self.range = tuple(si.get("color_temp_range") or (2500, 6500))
            self.white = "color_temperature" in self.m.components and "color_temp" in si and self.range[0] != self.range[1]

    def shuffle(self):
        """Put the light into a state of its own."""
        rng = self.rng
        for m in (self.model, *getattr(self.model, "children", {}).values()) if self.kind == "smart" else (self.model,):
            si = m.sysinfo
            if self.kind == "bulb":
                st = {"brightness": rng.randint(1, 100), "hue": 0, "saturation": 0, "color_temp": 0, "mode": "normal"}
                if si["is_color"] and rng.random() < 0.6:
                    st.update(hue=rng.randint(0, 360), saturation=rng.randint(0, 100))
                elif si["is_variable_color_temp"]:
                    st["color_temp"] = rng.choice([2700, 4000, 5000])
                si["light_state"] = {"on_off": 1, **st} if rng.random() < 0.6 else {"on_off": 0, "dft_on_state": st}
                if si.get("lighting_effect_state"):
                    si["lighting_effect_state"]["enable"] = 0
            elif self.kind == "dimmer":
                si["brightness"], si["relay_state"] = rng.randint(1, 100), rng.randrange(2)
            elif "brightness" in si:
                si["brightness"], si["device_on"] = rng.randint(1, 100), rng.random() < 0.6
                if "hue" in si:
                    si.update(hue=rng.randint(0, 360), saturation=rng.randint(0, 100), color_temp=0)
                if "color_temp" in si and rng.random() < 0.5:
                    si["color_temp"] = rng.choice([2700, 4000, 6000])
                if "dynamic_light_effect_enable" in si:
                    si["dynamic_light_effect_enable"] = False
                    si.pop("dynamic_light_effect_id", None)
                if isinstance(si.get("lighting_effect"), dict):
                    si["lighting_effect"]["enable"] = 0
                    if isinstance(m.info.get("get_lighting_effect"), dict):
                        m.info["get_lighting_effect"]["enable"] = 0
                if isinstance(m.info.get("get_dynamic_light_effect_rules"), dict):
                    m.info["get_dynamic_light_effect_rules"]["enable"] = False
                    m.info["get_dynamic_light_effect_rules"].pop("current_rule_id", None)

    def truth(self):
        si = self.m.sysinfo
        if self.kind == "bulb":
            on = bool(si["light_state"]["on_off"])
            src = si["light_state"] if on else si["light_state"]["dft_on_state"]
        elif self.kind == "dimmer":
            on, src = bool(si["relay_state"]), si
        else:
            on, src = si["device_on"], si
        return on, {k: src.get(k) for k in ("brightness", "hue", "saturation", "color_temp")}

    def log_since(self, n):
        out = []
        for did, method, params, code in self.model.log[n:]:
            base = method.rsplit(".", 1)[-1]
            if not base.startswith(("get", "component")) and base != "control_child":
                out.append((did, method, params, code))
        return out


# -- the commands -----------------------------------------------------------
GOOD_B = [1, 2, 50, 99, 100]
BAD_B = [(-1, ValueError), (101, ValueError), (50.5, TypeError), ("50", TypeError), (10**6, ValueError)]
BAD_H = [(-1, ValueError), (361, ValueError), (1.5, TypeError), ("1", TypeError), (None, TypeError)]
BAD_S = [(-1, ValueError), (101, ValueError), (1.5, TypeError), ("1", TypeError), (None, TypeError)]
TRANS = [None, None, 0, 1, 500, 60000]


def bulb_cmd(w, state, transition):
    """The command that asks a bulb for a state."""
    p = dict(state)
    if transition is not None:
        p["transition_period"] = transition
    restore = bool(p["on_off"]) and set(p) <= {"on_off", "transition_period"}
    if restore:
        w.case.covered("restore")
    p["ignore_default"] = 0 if restore else 1
    mod = w.model.light_module
    return [(f"{mod}.{'set_light_state' if mod == w.model.STRIP_LIGHT else 'transition_light_state'}", p)]


def dimmer_cmd(brightness, transition):
    return [("smartlife.iot.dimmer.set_dimmer_transition", {"brightness": brightness, "duration": transition or 1})]


def relay(on):
    return [("system.set_relay_state", {"state": int(on)})]


def make(w):
    """(label, call, errors expected (classes) or None, commands, changed readings)."""
    rng, light, d, kind = w.rng, w.light, w.d, w.kind
    on, cur = w.truth()
    op = rng.choice(["brightness", "brightness", "hsv", "hsv", "temp", "temp", "state", "state", "on", "off", "set_state"])
    bad = rng.random() < 0.3
    t = rng.choice(TRANS)
    errs = []
    kw = {} if t is None and rng.random() < 0.5 else {"transition": t}
    if kind == "dimmer" and rng.random() < 0.12 and op in ("brightness", "on", "off"):
        t, e = rng.choice([(-5, ValueError), ("5", TypeError), (1.5, TypeError)])
        kw = {"transition": t}
        errs.append(e)

    if op == "brightness":
        b = rng.choice([*GOOD_B, 0, rng.randint(0, 100)])
        if bad:
            b, e = rng.choice(BAD_B)
            errs.append(e)
            if kind == "smart":
                errs.append(ValueError)
        call = lambda: light.set_brightness(b, **kw)  # noqa: E731
        if errs:
            if kind == "dimmer" and b == 0 and t is None:
                errs = []
        want = {"on": b != 0, "brightness": b if b else cur["brightness"]}
        if kind == "bulb":
            cmd = None if errs else bulb_cmd(w, {"on_off": 0} if b == 0 else {"on_off": 1, "brightness": b}, t)
        elif kind == "dimmer":
            cmd = None if errs else (relay(False) if b == 0 and t is None else dimmer_cmd(b, t))
        else:
            cmd = [("set_device_info", {"device_on": False} if b == 0 else {"brightness": b})]
            want = {"on": False} if b == 0 else {"brightness": b}
        return f"set_brightness({b!r}, {kw})", call, errs, cmd, want
    if op == "hsv":
        h, s, v = rng.choice([0, 1, 359, 360, rng.randint(0, 360)]), rng.choice([0, 100, rng.randint(0, 100)]), rng.choice([None, 1, 100, 37])
        if bad:
            for _ in range(rng.choice([1, 1, 2])):
                which = rng.randrange(3)
                if which == 0:
                    h, e = rng.choice(BAD_H)
                elif which == 1:
                    s, e = rng.choice(BAD_S)
                else:
                    v, e = rng.choice(BAD_B)
                errs.append(e)
        if not w.color:
            errs = ["missing"]
        args = (h, s) if v is None and rng.random() < 0.5 else (h, s, v)
        call = lambda: light.set_hsv(*args, **kw)  # noqa: E731
        p = {"hue": h, "saturation": s, "color_temp": 0, **({} if v is None else {"brightness": v})}
        cmd = None if errs else bulb_cmd(w, {**p, "on_off": 1}, t) if kind == "bulb" else [("set_device_info", p)]
        want = {**p, **({"on": True} if kind == "bulb" else {})}
        return f"set_hsv{args} {kw}", call, errs, cmd, want
    if op == "temp":
        v = rng.choice([None, 1, 100, 42])
        x = 3000
        if w.white:
            x = rng.choice([*w.range, rng.randint(*w.range)])
        if bad:
            which = rng.randrange(2)
            if which and w.white:
                x, e = rng.choice([(w.range[0] - 1, ValueError), (w.range[1] + 1, ValueError), (0, ValueError), ("warm", TypeError), (-1, ValueError)])
            else:
                v, e = rng.choice(BAD_B)
            errs.append(e)
        if not w.white:
            errs = ["missing"]
        kws = {**kw, **({} if v is None else {"brightness": v})}
        call = lambda: light.set_color_temp(x, **kws)  # noqa: E731
        p = {"color_temp": x, **({} if v is None else {"brightness": v})}
        cmd = None if errs else bulb_cmd(w, {**p, "on_off": 1}, t) if kind == "bulb" else [("set_device_info", p)]
        want = {**p, **({"on": True} if kind == "bulb" else {})}
        return f"set_color_temp({x!r}, {kws})", call, errs, cmd, want
    if op == "state":
        f = {}
        if rng.random() < 0.5:
            f["light_on"] = rng.random() < 0.6
        if rng.random() < 0.6:
            f["brightness"] = rng.choice([*GOOD_B, 0])
            if bad and kind != "smart":
                f["brightness"], e = rng.choice(BAD_B)
                errs.append(e)
        if w.color and rng.random() < 0.4:
            f.update(hue=rng.randint(0, 360), saturation=rng.randint(0, 100), color_temp=0)
        elif w.white and rng.random() < 0.5:
            f["color_temp"] = rng.randint(*w.range)
        if t is not None and kind != "smart":
            f["transition"] = t
        tr = f.get("transition")
        st = LightState(**f)
        keep = copy.copy(st)

        async def call():
            res = await light.set_state(st)
            w.case.expect(st == keep, "argument-changed", f"set_state changed the state passed in: {keep} -> {st}")
            return res

        off = f.get("brightness") == 0 or f.get("light_on") is False
        rest = {k: v for k, v in f.items() if k in ("brightness", "hue", "saturation", "color_temp")}
        if rest.get("brightness") == 0:
            del rest["brightness"]
        if kind == "bulb":
            cmd = None if errs else bulb_cmd(w, {**rest, "on_off": int(not off)}, tr)
        elif kind == "dimmer":
            if off and f.get("light_on") is False:
                errs = []
            if errs:
                cmd = None
            elif off:
                cmd = relay(False) if tr is None else dimmer_cmd(0, tr)
            elif "brightness" in f:
                cmd = dimmer_cmd(f["brightness"], tr)
            else:
                cmd = relay(True) if tr is None else dimmer_cmd(cur["brightness"], tr)
            if off:
                rest = {}
        else:
            cmd = [("set_device_info", {**rest, "device_on": not off})]
        return f"set_state({f})", call, errs, cmd, {**rest, "on": not off}
    if op == "set_state":
        b = rng.random() < 0.5
        call = lambda: d.set_state(b)  # noqa: E731
        label, t, kw = f"device.set_state({b})", None, {}
        errs = []
    else:
        b = op == "on"
        label = f"turn_{op}({kw})"
        call = lambda: (d.turn_on if b else d.turn_off)(**kw)  # noqa: E731
    if kind == "bulb":
        cmd = bulb_cmd(w, {"on_off": int(b)}, t)
    elif kind == "dimmer":
        cmd = None if errs else relay(b) if t is None else dimmer_cmd(cur["brightness"] if b else 0, t)
    else:
        cmd = [("set_device_info", {"device_on": b})]
    return label, call, errs, cmd, {"on": b}


def readings(w, d):
    """What the library shows of the light, with its features."""
    light = d.modules[Module.Light]
    out = {"on": d.is_on, "state": light.state, "raw": dict(d.light_state) if w.kind == "bulb" else None}
    for attr in ("brightness", "hsv", "color_temp"):
        try:
            out[attr] = getattr(light, attr)
        except KasaException:
            out[attr] = "missing"
    return out


def check_readings(case, w, tag):
    on, src = w.truth()
    r = readings(w, w.d)
    case.expect(r["on"] is on, "misreported", f"{tag}: on is {r['on']}, the light has {on}")
    case.expect(r["brightness"] == src["brightness"], "misreported", f"{tag}: brightness {r['brightness']}, the light has {src['brightness']}")
    want = (src["hue"], src["saturation"], src["brightness"]) if w.color else "missing"
    case.expect(r["hsv"] == want, "misreported", f"{tag}: hsv {r['hsv']}, the light has {want}")
    want = src["color_temp"] if w.white else "missing"
    case.expect(r["color_temp"] == want, "misreported", f"{tag}: color temperature {r['color_temp']}, the light has {want}")
    st = LightState(light_on=False)
    if on:
        st = LightState(light_on=True, brightness=src["brightness"])
        if w.color:
            st.hue, st.saturation = src["hue"], src["saturation"]
        if w.white:
            st.color_temp = src["color_temp"]
    else:
        case.covered("off")
    case.expect(r["state"] == st, "misreported", f"{tag}: state {r['state']}, expected {st}")
    if w.kind == "bulb":
        ls = w.m.sysinfo["light_state"]
        want = ls if on else {**ls["dft_on_state"], "on_off": 0}
        case.expect(r["raw"] == want, "misreported", f"{tag}: light_state {r['raw']}, expected {want}")
    f = w.d.features
    case.expect(f["brightness"].value == r["brightness"], "misreported", f"{tag}: feature brightness {f['brightness'].value}")
    case.expect(("hsv" in f) == w.color and ("color_temperature" in f) == w.white, "capability", f"{tag}: features {sorted(f)}")
    if w.color:
        case.expect(f["hsv"].value == r["hsv"], "misreported", f"{tag}: feature hsv {f['hsv'].value}")
    if w.white:
        g = f["color_temperature"]
        case.expect(g.value == r["color_temp"], "misreported", f"{tag}: feature color temperature {g.value}")
        case.expect((g.minimum_value, g.maximum_value) == w.range, "range", f"{tag}: range {g.minimum_value}-{g.maximum_value}, expected {w.range}")
    for attr, has in (("brightness", True), ("hsv", w.color), ("color_temp", w.white)):
        case.expect(w.light.has_feature(attr) is has, "capability", f"{tag}: has_feature({attr}) is {not has}")


def legacy(case, w, tag):
    """The deprecated names on the device show the same."""
    d, light = w.d, w.light
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pairs = [("is_dimmable", True), ("is_color", w.color), ("is_variable_color_temp", w.white), ("brightness", light.brightness)]
        if w.color:
            pairs.append(("hsv", light.hsv))
        if w.white:
            pairs += [("color_temp", light.color_temp), ("valid_temperature_range", w.range)]
        for name, want in pairs:
            try:
                got = getattr(d, name)
            except Exception as ex:  # noqa: BLE001
                got = repr(ex)
            case.expect(got == want, "legacy-name", f"{tag}: device.{name} is {got!r}, expected {want!r}")
    case.covered("legacy-names")


async def behavior(case, w, tag):
    """What the bulb does when it gets power: read, change the preset, write, read."""
    rng, d = w.rng, w.d
    before = await d.get_turn_on_behavior()
    keep = copy.deepcopy(before)
    held = copy.deepcopy(w.model.info[w.model.light_module]["get_default_behavior"])
    new = copy.deepcopy(before)
    which = rng.choice(["soft", "hard"])
    other = "hard_on" if which == "soft" else "soft_on"
    idx = rng.choice([None, 0, 1, 2])
    getattr(new, which).preset = idx
    if rng.random() < 0.5:
        getattr(new, which).mode = BehaviorMode.Last if idx is None else BehaviorMode.Preset
    n = len(w.model.log)
    await d.set_turn_on_behavior(new)
    case.expect([c[1] for c in w.log_since(n)] == [f"{w.model.light_module}.set_default_behavior"], "wrong-command", f"{tag}: {w.log_since(n)}")
    now = w.model.info[w.model.light_module]["get_default_behavior"]
    got = now[which + "_on"]
    case.expect(got.get("index") == idx, "behavior", f"{tag}: {which} preset {got.get('index')}, expected {idx}")
    if idx is not None:
        case.expect(got["mode"] == "customize_preset", "behavior", f"{tag}: preset {idx} chosen, mode {got['mode']}")
    elif held[which + "_on"].get("index") is not None:
        case.expect(got["mode"] == "last_status", "behavior", f"{tag}: no preset any more, mode {got['mode']}")
    case.expect(now[other] == held[other], "behavior", f"{tag}: {other} changed from {held[other]} to {now[other]}")
    again = await d.get_turn_on_behavior()
    case.expect(getattr(again, which).preset == idx, "behavior", f"{tag}: read back {again}")
    case.expect(before == keep, "behavior", f"{tag}: an earlier answer changed")
    case.covered("behavior")


def history(case, kind):
    rng = case.rng

    async def main(loop):
        w = Light(case, kind)
        w.shuffle()
        await w.top.update()
        w.select()
        tag0 = f"{w.d.model}"
        check_readings(case, w, tag0)
        legacy(case, w, tag0)
        if w.d is not w.top:
            case.covered("child")
        sent = 0
        for _ in range(rng.choice([8, 15, 25])):
            if case.violations:
                break
            if rng.random() < 0.15:
                w.shuffle()
                await w.top.update()
                check_readings(case, w, tag0)
            if kind == "bulb" and rng.random() < 0.06:
                await behavior(case, w, tag0)
            on, src = w.truth()
            label, call, errs, cmd, want = make(w)
            tag = f"{tag0} {'on' if on else 'off'} {label}"
            before, n = readings(w, w.d), len(w.model.log)
            w.refuse, w.refused = None, []
            if rng.random() < 0.1:
                w.refuse = int(rng.choice(CODES)) if kind == "smart" else rng.choice([-1, -3, -10])
            code, err = w.refuse, None
            case.event("cmd", label)
            try:
                await call()
            except Exception as ex:  # noqa: BLE001
                err = ex
            w.refuse = None
            log = w.log_since(n)
            after = readings(w, w.d)
            case.expect(after == before, "changed-before-update", f"{tag}: {before} -> {after}")
            if errs:
                classes = (KasaException,) if errs == ["missing"] else tuple(errs)
                case.expect(isinstance(err, classes) and not (errs != ["missing"] and isinstance(err, KasaException)), "not-rejected",
                            f"{tag}: {err!r}, expected {errs}")
                case.expect(not log, "sent-though-invalid", f"{tag}: {log}")
                case.covered("missing" if errs == ["missing"] else "invalid")
            elif code is not None:
                ok = isinstance(err, DeviceError) and err.error_code == code if kind == "smart" else isinstance(err, KasaException)
                case.expect(ok and w.refused, "refusal", f"{tag}: refused with {code}: {err!r}")
                case.covered("refused")
            else:
                case.expect(err is None, "failed", f"{tag}: {err!r}")
                got = [(method, params) for did, method, params, c in log]
                case.expect(got == cmd, "wrong-command", f"{tag}: sent {got}, expected {cmd}")
                did = {c[0] for c in log}
                case.expect(len(did) == 1, "wrong-command", f"{tag}: {did}")
                case.covered("cmd")
                if any("transition_period" in p or "duration" in p for _, p in got):
                    case.covered("transition")
                case.count("commands")
                sent += 1
            await w.top.update()
            check_readings(case, w, tag)
            now_on, now = w.truth()
            exp_on, exp = on, dict(src)
            if not errs and code is None:
                exp.update({k: v for k, v in want.items() if k != "on"})
                exp_on = want.get("on", on)
            case.expect((now_on, now) == (exp_on, exp), "wrong-state", f"{tag}: the light has {now_on} {now}, expected {exp_on} {exp}")
        case.sample = (w.name, sent)
        if sent:
            case.nontrivial((w.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def f_bulb(case):
    history(case, "bulb")


def f_dimmer(case):
    history(case, "dimmer")


def f_smart(case):
    history(case, "smart")


FAMILIES = [Family("bulb", f_bulb, 700, 10000), Family("dimmer", f_dimmer, 350, 4000), Family("smart", f_smart, 700, 10000)]
