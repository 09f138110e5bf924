"""C18: settings take effect on the device and read back; everything else stays; rejected commands change nothing."""
from __future__ import annotations

import asyncio
import base64
import datetime
import enum
import json

from kasa import DeviceError, Feature, KasaException, Module
from kasa.exceptions import SMART_AUTHENTICATION_ERRORS, SMART_RETRYABLE_ERRORS, SmartErrorCode
from kasa.iot.iotdimmer import ActionType, ButtonAction, FadeType

from kmon import clock, sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: random histories of setters (features, device and module methods) on every modelled device; after each an online "
             "monitor compares the library's complete readable state and the device's own state with what the command asked for, with commands refused at random; "
             "reported values are compared with an independent reading of randomised device states")
NOTE = "all fixture devices and children of the three generations; features plus about 60 device and module setters; refusals with every final error code"
RULE = "a case = one history of up to 20 settings; non-trivial = at least one was accepted and read back"
ASSUMPTIONS = ("A device applies a command it accepts completely and one it refuses not at all.",
               "Commands the device does not know are not in the histories (they are refusals).",
               "Lights, effects, presets and time have their own properties (C19, C22, C23).")
T = Feature.Type
TIMEY = {"on_since", "device_time", "auto_off_at"}
REQUIRED_COVER = ["iot:feature", "iot:method", "iot:refused", "iot:reissued", "smart:feature", "smart:method", "smart:refused", "smart:child",
                  "smart:interval", "cam:feature", "cam:method", "cam:refused", "cam:child", "iot:strip-socket", "report_smart:value",
                  "report_iot:value", "report_cam:value", "smart:refused-child", "smart:unanswered", "iot:unanswered", "cam:unanswered"]
CODES = [c for c in SmartErrorCode if c.value < 0 and c not in SMART_RETRYABLE_ERRORS and c not in SMART_AUTHENTICATION_ERRORS
         and not c.name.startswith(("INTERNAL", "UNKNOWN_METHOD", "JSON_DECODE", "HANDSHAKE", "SESSION", "DEVICE_BLOCKED", "HOMEKIT_LOGIN",
                                    "BAD_USERNAME", "BAD_PASSWORD"))]


def norm(v):
    return v.name if isinstance(v, enum.Enum) else v


# -- reading --------------------------------------------------------------
def rules(m):
    return [(r.id, r.enable, tuple(r.wday or ())) for r in m.rules]


# name -> (module name, reader): more readable state than the features show
EXTRA = {
    "led": (Module.Led, lambda m: m.led), "led_night": (Module.Led, lambda m: json.dumps(getattr(m, "night_mode_settings", None))), "auto_off_minutes_": ("AutoOff", lambda m: m.delay),
    "auto_off_": ("AutoOff", lambda m: m.enabled), "pp_enabled": ("PowerProtection", lambda m: m.enabled),
    "pp_threshold": ("PowerProtection", lambda m: m.protection_threshold), "alarm_sound_": ("Alarm", lambda m: m.alarm_sound),
    "alarm_level": ("Alarm", lambda m: m.alarm_volume), "alarm_dur": ("Alarm", lambda m: m.alarm_duration),
    "alarm_active": ("Alarm", lambda m: m.active), "dust_mode": ("Dustbin", lambda m: m.mode),
    "dust_auto": ("Dustbin", lambda m: m.auto_collection), "frost": ("FrostProtection", lambda m: m.enabled),
    "trv_state": ("TemperatureControl", lambda m: m.state), "trv_target": ("TemperatureControl", lambda m: m.target_temperature),
    "trv_offset": ("TemperatureControl", lambda m: m.temperature_offset), "t_unit": ("TemperatureSensor", lambda m: m.temperature_unit),
    "child_prot": ("ChildProtection", lambda m: m.enabled), "child_lock_": ("ChildLock", lambda m: m.enabled),
    "auto_update": ("Firmware", lambda m: m.auto_update_enabled), "fan_level": ("Fan", lambda m: m.fan_speed_level),
    "fan_sleep": ("Fan", lambda m: m.sleep_mode), "trans": ("LightTransition", lambda m: m.enabled),
    "trans_on": ("LightTransition", lambda m: m.turn_on_transition if m._supports_on_and_off else None),
    "trans_off": ("LightTransition", lambda m: m.turn_off_transition if m._supports_on_and_off else None),
    "volume_": ("Speaker", lambda m: m.volume), "water": ("Mop", lambda m: m.waterlevel), "carpet": ("Clean", lambda m: m.carpet_boost),
    "suction": ("Clean", lambda m: m.fan_speed_preset), "count": ("Clean", lambda m: m.clean_count),
    "vac_status": ("Clean", lambda m: m.status), "lens": ("LensMask", lambda m: m.enabled),
    "motion_det": ("MotionDetection", lambda m: m.enabled), "person_det": ("PersonDetection", lambda m: m.enabled),
    "pet_det": ("PetDetection", lambda m: m.enabled), "tamper_det": ("TamperDetection", lambda m: m.enabled),
    "cry_det": ("BabyCryDetection", lambda m: m.enabled),
    "las_enabled": ("ambient", lambda m: m.enabled), "las_levels": ("ambient", lambda m: json.dumps(m.presets)),
    "pir_enabled_": ("motion", lambda m: m.enabled), "pir_range_": ("motion", lambda m: m.range),
    "pir_threshold_": ("motion", lambda m: m.threshold), "pir_timeout": ("motion", lambda m: m.inactivity_timeout),
    "dim_fade_on": ("dimmer", lambda m: m.fade_on_time), "dim_fade_off": ("dimmer", lambda m: m.fade_off_time),
    "dim_gentle_on": ("dimmer", lambda m: m.gentle_on_time), "dim_gentle_off": ("dimmer", lambda m: m.gentle_off_time),
    "dim_ramp": ("dimmer", lambda m: m.ramp_rate), "dim_min": ("dimmer", lambda m: m.threshold_min),
    "sched_rules": ("schedule", rules), "theft_rules": ("antitheft", rules),
}
READERS: dict = {}
# settings another reading of the same thing depends on
SAME = [{"state", "is_on", "fan_speed_level", "fan_level", "thermostat_mode", "trv_state", "frost"},
        {"brightness", "light_preset", "hsv", "color_temperature", "state", "is_on", "light_effect"},
        {"pir_enabled", "pir_enabled_", "pir_triggered"}, {"pir_range", "pir_range_", "pir_threshold", "pir_threshold_", "pir_triggered"},
        {"alarm_volume", "alarm_volume_level", "alarm_level"}, {"alarm_sound", "alarm_sound_"}, {"alarm_duration", "alarm_dur"},
        {"alarm", "alarm_active", "alarm_source"}, {"led"}, {"auto_off_minutes", "auto_off_minutes_"}, {"auto_off_enabled", "auto_off_"},
        {"power_protection_threshold", "pp_enabled", "pp_threshold"}, {"dustbin_mode", "dust_mode", "dust_auto", "dustbin_autocollection_enabled"},
        {"target_temperature", "trv_target", "state", "is_on", "trv_state", "frost", "thermostat_mode"}, {"temperature_offset", "trv_offset"},
        {"temperature_unit", "t_unit"}, {"child_lock", "child_prot", "child_lock_"}, {"auto_update_enabled", "auto_update"},
        {"fan_sleep_mode", "fan_sleep"}, {"smooth_transitions", "trans"}, {"smooth_transition_on", "trans", "trans_on"},
        {"smooth_transition_off", "trans", "trans_off"}, {"volume", "volume_"}, {"mop_waterlevel", "water"}, {"carpet_boost", "carpet"},
        {"vacuum_fan_speed", "suction"}, {"clean_count", "count"}, {"vacuum_status", "vac_status"}, {"state", "is_on", "lens"},
        {"motion_detection", "motion_det"}, {"person_detection", "person_det"}, {"pet_detection", "pet_det"},
        {"tamper_detection", "tamper_det"}, {"baby_cry_detection", "cry_det"}, {"ambient_light_enabled", "las_enabled"}, {"las_levels"},
        {"dimmer_fade_on_time", "dim_fade_on"}, {"dimmer_fade_off_time", "dim_fade_off"}, {"dimmer_gentle_on_time", "dim_gentle_on"},
        {"dimmer_gentle_off_time", "dim_gentle_off"}, {"dimmer_ramp_rate", "dim_ramp"}, {"dimmer_threshold_min", "dim_min"},
        {"pan_step"}, {"tilt_step"}, {"light_effect", "brightness", "hsv", "color_temperature", "light_preset"}]


def related(key, first):
    """What may change with a setting: everything that shows the same thing."""
    out = {key}
    for group in SAME:
        if first and key in group and not (key in ("state", "is_on") and "brightness" in group):
            out |= group
    if key in ("light_preset", "light_effect", "brightness", "color_temperature"):
        out |= SAME[1]
    return out


class World:
    def __init__(self, case, kind):
        self.case, self.rng, self.kind = case, case.rng, kind
        rng = self.rng
        if kind == "iot":
            self.name = rng.choice(sims.names("iot"))
            self.model = sims.iot_model(self.name)
            sims.iot_enrich(self.model, rng, clock.Clock.now())
            self.dev, self.tr = sims.iot_device(self.model)
        elif kind == "smart":
            self.name = rng.choice(sims.names("smart"))
            kids = rng.sample(sims.names("smart/child"), 3) if self.name in sims.hub_names() else None
            if rng.random() < 0.12:
                self.name = rng.choice([n for n in sims.names("smart") if n.startswith("RV")])
                kids = None
            self.model = sims.smart_model(self.name, rng, children=kids)
            if isinstance(self.model.info.get("getCleanInfo"), dict):
                self.model.info["getCleanInfo"].update(clean_time=7, clean_area=9, clean_percent=11)
            self.dev, self.tr = sims.smart_device(self.model)
        else:
            self.name = rng.choice(sims.names("smartcam"))
            kids = rng.sample(sims.names("smart/child"), 2) + [rng.choice(sims.names("smartcam/child"))] if self.name.startswith("H200") else None
            self.model = sims.cam_model(self.name, rng, children=kids)
            self.dev, self.tr = sims.cam_device(self.model)
        self.refuse = None
        self.refused = []
        if kind == "iot":
            self.model.fault = self._iot_fault
        else:
            self.model.fault = self._fault

    def _fault(self, model, method, params):
        if self.refuse is None or method.startswith(("get", "component")) or method in ("control_child", "controlChild", "multipleRequest"):
            return None
        self.refused.append(method)
        return self.refuse

    def _iot_fault(self, module, method, params, child_ids):
        if self.refuse is None or method.startswith("get"):
            return None
        self.refused.append(method)
        return self.refuse

    def devs(self):
        return [self.dev, *self.dev.children]

    def view(self):
        out = {}
        for i, d in enumerate(self.devs()):
            for fid, f in d.features.items():
                if fid in TIMEY or f.type is T.Action:
                    continue
                try:
                    out[i, fid] = norm(f.value)
                except Exception as ex:  # noqa: BLE001
                    out[i, fid] = repr(ex)
            out[i, "alias"] = d.alias
            out[i, "is_on"] = d.is_on
            for key, (mod, read) in EXTRA.items():
                m = d.modules.get(mod)
                if m is not None:
                    try:
                        out[i, key] = norm(read(m))
                    except Exception as ex:  # noqa: BLE001
                        out[i, key] = repr(ex)
        return out

    def log_since(self, n):
        out = []
        for did, method, params, code in self.model.log[n:]:
            base = method.rsplit(".", 1)[-1] if self.kind == "iot" else method
            if not base.startswith(("get", "component")) and base not in ("control_child", "controlChild"):
                out.append((did, method, params, code))
        return out


# -- settings ---------------------------------------------------------------
def feature_ops(w, d):
    rng = w.rng
    out = []
    for fid, f in d.features.items():
        if f.attribute_setter is None or f.type is T.Action or fid in ("light_effect", "light_preset", "pan_step", "tilt_step"):
            continue
        if f.type is T.Switch:
            v = rng.random() < 0.5
        elif f.type is T.Number:
            v = rng.choice([f.minimum_value, f.maximum_value, rng.randint(f.minimum_value, f.maximum_value)])
            if fid == "brightness" and v == 0:
                v = 1
        elif f.type is T.Choice:
            v = rng.choice(f.choices)
        else:
            continue
        out.append((f"feature {fid}={v!r}", lambda f=f, v=v: f.set_value(v), {fid: v}, related(fid, True)))
    return out


def method_ops(w, d):
    """(label, call, expected readings, settings that may change)."""
    rng, out, mods = w.rng, [], d.modules
    b = rng.random() < 0.5

    def add(label, call, want, may=()):
        keys = set(may)
        for k in want:
            keys |= related(k, True)
        out.append((label, call, want, keys))

    def m(name):
        return mods.get(name)

    child = d is not w.dev
    text = rng.choice(["Lamp", "Büro ☕", "a" * 31, "x y", "'quoted\"", "日本", "0", "\\back", "tab\tnew"])
    cam_child = type(d).__name__ == "SmartCamChild"
    if not cam_child and not (w.kind == "iot" and child and len(w.model.sysinfo["children"]) == 0):
        add(f"set_alias {text!r}", lambda: d.set_alias(text), {"alias": text})
    if w.kind == "iot" or "device_on" in d.sys_info and w.kind == "smart" or w.kind == "smart" and child and "device_on" in d.sys_info:
        add(f"set_state {b}", lambda: d.set_state(b), {"is_on": b})
        add("turn_on", lambda: d.turn_on(), {"is_on": True})
        add("turn_off", lambda: d.turn_off(), {"is_on": False})
    if (x := m(Module.Led)):
        add(f"set_led {b}", lambda: x.set_led(b), {"led": b})
    if (ao := m("AutoOff")):
        n = rng.choice([0, 1, 120, 1440])
        add(f"auto off {b}", lambda: ao.set_enabled(b), {"auto_off_": b, "auto_off_enabled": b})
        add(f"auto off after {n}", lambda n=n: ao.set_delay(n), {"auto_off_minutes_": n, "auto_off_minutes": n})
    if (pp := m("PowerProtection")):
        mx = pp._max_power
        n = rng.choice([1, mx, rng.randint(1, mx)])
        cur = pp.protection_threshold
        add(f"power protection {b}", lambda: pp.set_enabled(b),
            {"pp_enabled": b, "pp_threshold": cur if cur or not b else int(mx / 2)})
        add(f"power protection {b} {n}", lambda n=n: pp.set_enabled(b, threshold=n), {"pp_enabled": b, "pp_threshold": n})
        add(f"power protection threshold {n}", lambda n=n: pp.set_protection_threshold(n), {"pp_threshold": n, "pp_enabled": pp.enabled})
    if (al := m("Alarm")):
        if w.kind == "cam" and not child:
            n, vol, snd = rng.choice([0, 1, 6000]), rng.randint(0, 10), rng.choice(al.alarm_sounds)
            add(f"alarm volume {vol}", lambda vol=vol: al.set_alarm_volume(vol), {"alarm_level": vol, "alarm_volume": vol})
        else:
            n, vol, snd = rng.choice([1, 600, rng.randint(1, 600)]), rng.randint(0, 3), rng.choice(al.alarm_sounds)
            name = ["mute", "low", "normal", "high"][vol]
            arg = rng.choice([vol, name])
            add(f"alarm volume {arg!r}", lambda arg=arg: al.set_alarm_volume(arg),
                {"alarm_level": vol, "alarm_volume": name, "alarm_volume_level": vol})
            add("alarm play", lambda: al.play(), {"alarm_active": True, "alarm": True})
            add("alarm stop", lambda: al.stop(), {"alarm_active": False, "alarm": False, "alarm_source": None})
        add(f"alarm sound {snd!r}", lambda snd=snd: al.set_alarm_sound(snd), {"alarm_sound": snd, "alarm_sound_": snd})
        add(f"alarm duration {n}", lambda n=n: al.set_alarm_duration(n), {"alarm_duration": n, "alarm_dur": n})
    if (db := m("Dustbin")):
        mode = rng.choice(["Smart", "Light", "Balanced", "Max", "Off"])
        add(f"dustbin {mode}", lambda mode=mode: db.set_mode(mode), {"dust_mode": mode, "dust_auto": mode != "Off"})
        add(f"dustbin auto {b}", lambda: db.set_auto_collection(b), {"dust_auto": b, "dustbin_autocollection_enabled": b})
    if (fp := m("FrostProtection")):
        add(f"frost {b}", lambda: fp.set_enabled(b), {"frost": b, "trv_state": not b})
    for name in ("TemperatureControl", "Thermostat"):
        if (tc := m(name)):
            c = m("TemperatureControl")
            t = rng.choice([c.minimum_target_temperature, c.maximum_target_temperature, 20.5])
            add(f"{name} state {b}", lambda tc=tc: tc.set_state(b), {"trv_state": b, "state": b})
            add(f"{name} target {t}", lambda tc=tc, t=t: tc.set_target_temperature(t), {"trv_target": t, "target_temperature": t, "trv_state": True})
            if name == "TemperatureControl":
                off = rng.randint(-10, 10)
                add(f"offset {off}", lambda off=off: c.set_temperature_offset(off), {"trv_offset": off, "temperature_offset": off})
            else:
                u = rng.choice(["celsius", "fahrenheit"])
                add(f"thermostat unit {u}", lambda tc=tc, u=u: tc.set_temperature_unit(u), {"t_unit": u, "temperature_unit": u})
    for name, key in (("ChildProtection", "child_prot"), ("ChildLock", "child_lock_")):
        if (cp := m(name)):
            add(f"{name} {b}", lambda cp=cp: cp.set_enabled(b), {key: b, "child_lock": b})
    if (fw := m("Firmware")) and "auto_update_enabled" in d.features:
        add(f"auto update {b}", lambda: fw.set_auto_update_enabled(b), {"auto_update": b, "auto_update_enabled": b})
    if (fan := m("Fan")) and fan.device is d:
        n = rng.randint(0, 4)
        add(f"fan {n}", lambda n=n: fan.set_fan_speed_level(n), {"fan_level": n, "fan_speed_level": n, "is_on": n > 0})
        add(f"fan sleep {b}", lambda: fan.set_sleep_mode(b), {"fan_sleep": b, "fan_sleep_mode": b})
    if (lt := m("LightTransition")) and lt.device is d:
        want = {"trans": b}
        if lt._supports_on_and_off:     # the times the device keeps stay
            for side in ("on", "off"):
                t = fade_time(w, d, side) if b else 0
                want |= {f"trans_{side}": t, f"smooth_transition_{side}": t}
        add(f"transitions {b}", lambda: lt.set_enabled(b), want)
        if lt._supports_on_and_off:
            n = rng.randint(0, min(lt._turn_on_transition_max, lt._turn_off_transition_max))
            add(f"transition on {n}", lambda n=n: lt.set_turn_on_transition(n), {"trans_on": n, "smooth_transition_on": n})
            add(f"transition off {n}", lambda n=n: lt.set_turn_off_transition(n), {"trans_off": n, "smooth_transition_off": n})
    if (sp := m("Speaker")):
        n = rng.randint(0, 100)
        add(f"volume {n}", lambda n=n: sp.set_volume(n), {"volume": n, "volume_": n})
    if (mop := m("Mop")):
        lvl = rng.choice(["Disable", "Low", "Medium", "High"])
        add(f"water {lvl}", lambda lvl=lvl: mop.set_waterlevel(lvl), {"water": lvl, "mop_waterlevel": lvl})
    if (cl := m("Clean")):
        sp_ = rng.choice(["Quiet", "Standard", "Turbo", "Max", "Ultra"])
        n = rng.randint(1, 3)
        add(f"suction {sp_}", lambda sp_=sp_: cl.set_fan_speed_preset(sp_), {"suction": sp_, "vacuum_fan_speed": sp_})
        add(f"count {n}", lambda n=n: cl.set_clean_count(n), {"count": n, "clean_count": n})
        add(f"carpet {b}", lambda: cl.set_carpet_boost(b), {"carpet": b, "carpet_boost": b})
        if cl.error.name == "Ok":
            fresh = set() if cl.status.name == "Paused" else {"clean_area", "clean_time", "clean_progress"}     # a paused job goes on
            add("clean", lambda: cl.start(), {"vac_status": "Cleaning", "vacuum_status": "Cleaning"}, fresh)
            if cl.status.name == "GoingHome":
                add("pause", lambda: cl.pause(), {"vac_status": "Idle"})
            else:
                add("pause", lambda: cl.pause(), {"vac_status": "Paused", "vacuum_status": "Paused"})
            if cl.status.name == "Paused":
                add("resume", lambda: cl.resume(), {"vac_status": "Cleaning"})
            add("home", lambda: cl.return_home(), {"vac_status": "GoingHome"})
    if (lm := m("LensMask")) and "state" in d.features:
        add(f"lens mask {b}", lambda: lm.set_enabled(b), {"lens": b, "is_on": not b, "state": not b})
        add(f"set_state {b}", lambda: d.set_state(b), {"lens": not b, "is_on": b, "state": b})
        add(f"camera state {b}", lambda: m(Module.Camera).set_state(b), {"lens": not b, "is_on": b, "state": b})
    for name, key, fid in (("MotionDetection", "motion_det", "motion_detection"), ("PersonDetection", "person_det", "person_detection"),
                           ("PetDetection", "pet_det", "pet_detection"), ("TamperDetection", "tamper_det", "tamper_detection"),
                           ("BabyCryDetection", "cry_det", "baby_cry_detection")):
        if (det := m(name)):
            add(f"{name} {b}", lambda det=det: det.set_enabled(b), {key: b, fid: b})
    if w.kind != "iot":
        return out
    if (las := m("ambient")):
        n = rng.randint(0, 100)
        levels = json.loads(json.dumps(las.presets))
        levels[0]["value"] = n
        add(f"ambient {b}", lambda: las.set_enabled(b), {"las_enabled": b, "ambient_light_enabled": b})
        add(f"ambient limit {n}", lambda n=n: las.set_brightness_limit(n), {"las_levels": json.dumps(levels)})
    if (pir := m("motion")):
        n = rng.randrange(1000, 100000)
        rg = rng.choice(pir.ranges)
        thr = rng.randint(0, 100)
        add(f"motion {b}", lambda: pir.set_enabled(b), {"pir_enabled_": b, "pir_enabled": b})
        add(f"motion timeout {n}", lambda n=n: pir.set_inactivity_timeout(n), {"pir_timeout": n})
        add(f"motion range {rg}", lambda rg=rg: pir.set_range(pir._parse_range_value(rg.lower())), {"pir_range_": rg, "pir_range": rg})
        if "Custom" in pir.ranges:
            add(f"motion threshold {thr}", lambda thr=thr: pir.set_threshold(thr), {"pir_threshold_": thr, "pir_range_": "Custom"})
    if (dm := m("dimmer")):
        n = rng.choice([0, 1, 10000, rng.randint(0, 10000)])
        arg = rng.choice([n, datetime.timedelta(milliseconds=n)])
        td = datetime.timedelta(milliseconds=n)
        add(f"fade on {arg!r}", lambda arg=arg: dm.set_fade_on_time(arg), {"dim_fade_on": td, "dimmer_fade_on_time": n})
        add(f"fade off {arg!r}", lambda arg=arg: dm.set_fade_off_time(arg), {"dim_fade_off": td, "dimmer_fade_off_time": n})
        add(f"gentle on {arg!r}", lambda arg=arg: dm.set_gentle_on_time(arg), {"dim_gentle_on": td, "dimmer_gentle_on_time": n})
        add(f"gentle off {arg!r}", lambda arg=arg: dm.set_gentle_off_time(arg), {"dim_gentle_off": td, "dimmer_gentle_off_time": n})
        add(f"fade_type on {n}", lambda n=n: d.set_fade_time(FadeType.FadeOn, n), {"dim_fade_on": td})
        add(f"fade_type off {n}", lambda n=n: d.set_fade_time(FadeType.FadeOff, n), {"dim_fade_off": td})
        rate, mn = rng.randint(10, 50), rng.randint(0, 51)
        add(f"ramp {rate}", lambda rate=rate: dm.set_ramp_rate(rate), {"dim_ramp": rate, "dimmer_ramp_rate": rate})
        add(f"minimum {mn}", lambda mn=mn: dm.set_threshold_min(mn), {"dim_min": mn, "dimmer_threshold_min": mn})
        at, ba = rng.choice(list(ActionType)), rng.choice(list(ButtonAction))
        idx = rng.choice([None, 0, 3])
        out.append((f"button {at.name} {ba.name} {idx}", lambda at=at, ba=ba, idx=idx: d.set_button_action(at, ba, idx), {}, set()))
    for name, key in (("schedule", "sched_rules"), ("antitheft", "theft_rules")):
        if (rm := m(name)):
            rs = rm.rules
            if rs:
                gone = rng.choice(rs)
                add(f"{name} delete {gone.id}", lambda rm=rm, gone=gone: rm.delete_rule(gone), {key: [x for x in rules(rm) if x[0] != gone.id]})
            add(f"{name} delete all", lambda rm=rm: rm.delete_all_rules(), {key: []})
    return out


def model_of(w, d):
    return w.model if d is w.dev else w.model.children[d.device_id]


def fades(w, d):
    m = model_of(w, d)
    if "gradually_on_mode" in m.sysinfo:
        return {s: (bool(m.sysinfo[f"gradually_{s}_mode"]), m.sysinfo[f"fade_{s}_time"]) for s in ("on", "off")}
    g = m.get("get_on_off_gradually_info", None)
    return {s: (g[f"{s}_state"]["enable"], g[f"{s}_state"]["duration"]) for s in ("on", "off") if isinstance(g, dict) and f"{s}_state" in g}


def fade_time(w, d, side):
    m = model_of(w, d)
    if f"gradually_{side}_mode" in m.sysinfo:
        return m.sysinfo[f"fade_{side}_time"]
    return m.get("get_on_off_gradually_info", None)[f"{side}_state"]["duration"]


# records that are written as a whole: setting -> what may differ in the record afterwards
RECORDS = {"set_led": ("get_led_info", {"led_rule", "led_status"}), "dustbin auto": ("getDustCollectionInfo", {"auto_dust_collection"}),
           "feature dustbin_auto": ("getDustCollectionInfo", {"auto_dust_collection"}),
           "feature led": ("get_led_info", {"led_rule", "led_status"}),
           "dustbin Off": ("getDustCollectionInfo", {"auto_dust_collection"}), "auto off after": ("get_auto_off_config", {"delay_min"}),
           "auto off ": ("get_auto_off_config", {"enable"}), "alarm volume": ("get_alarm_configure", {"volume"}),
           "alarm sound": ("get_alarm_configure", {"type"}), "alarm duration": ("get_alarm_configure", {"duration"}),
           "power protection threshold": ("get_protection_power", {"protection_power"})}


def records(w, d):
    if w.kind != "smart":
        return {}
    m = model_of(w, d)
    out = {g: json.loads(json.dumps(m.get(g, None))) for g in {r[0] for r in RECORDS.values()} if isinstance(m.info.get(g), dict)}
    if "LightTransition" in d.modules:
        out["fades"] = fades(w, d)
    return out


def device_side(case, w, label, d, old):
    """Settings the library cannot read back on a plain update are looked up on the device itself."""
    if old:
        new = records(w, d)
        rec, keys = next((r for k, r in RECORDS.items() if label.startswith(k)), (None, ()))
        for g, val in old.items():
            if g == "fades":
                continue
            for k, v in diff(val, new[g]).items():
                if g == rec:
                    case.expect(k in keys, "record-changed", f"{d.model} {label}: {g}.{k} went from {v[0]!r} to {v[1]!r}")
    if old and label.startswith(("transition o", "feature smooth_transition_o")):
        side, n = (label.split()[1], int(label.split()[2])) if label[0] == "t" else (label.split("_")[2].split("=")[0], int(label.split("=")[1]))
        for s, (en, t) in fades(w, d).items():
            was = old["fades"][s]
            want = was if s != side else (True, n) if n else (False, was[1])
            case.expect((en, t) == want, "not-applied", f"{d.model} {label}: {s} was {was}, the device has {(en, t)}, expected {want}")
        case.covered("fade")
    if label.startswith("button "):
        _, at, ba, idx = label.split()
        beh = w.model.info["smartlife.iot.dimmer"]["get_default_behavior"]
        got = beh["double_click" if at == "DoubleClick" else "long_press"]
        want = {"mode": ButtonAction[ba].value, **({} if idx == "None" else {"index": int(idx)})}
        case.expect(got == want, "not-applied", f"{label}: the device has {got}, expected {want}")


def history(case, kind):
    rng = case.rng

    async def main(loop):
        w = World(case, kind)
        await w.dev.update()
        done = 0
        if len(w.devs()) > 1:
            case.covered("child")
        for _ in range(rng.choice([6, 12, 20])):
            if case.violations:
                break
            devs = w.devs()
            i = rng.randrange(len(devs))
            d = devs[i]
            fops, mops = feature_ops(w, d), method_ops(w, d)
            if not fops and not mops:
                continue
            use_method = mops and (not fops or rng.random() < 0.65)
            label, call, want, may = rng.choice(mops if use_method else fops)
            tag = f"{d.model} {label}"
            before, old = w.view(), records(w, d)
            n, sent = len(w.model.log), len(w.tr.requests)
            roll = rng.random()
            if roll < 0.22:
                await rejected(case, w, d, tag, call, before, n, child=i > 0)
                continue
            if roll < 0.3:
                await unanswered(case, w, tag, call, before, sent)
                continue
            case.event("set", tag)
            try:
                await call()
            except Exception as ex:  # noqa: BLE001
                case.violate("refused", f"{tag}: {ex!r}")
                break
            mid = w.view()
            case.expect(mid == before, "changed-before-update", f"{tag}: {diff(before, mid)}")
            for c in w.log_since(n):
                case.expect(c[3] == 0, "device-refused", f"{tag}: {c}")
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([1, 60, 4000]))
            await w.dev.update()
            after = w.view()
            compare(case, w, i, tag, before, after, want, may)
            device_side(case, w, label, d, old)
            case.covered("method" if use_method else "feature")
            if kind == "iot" and i:
                case.covered("strip-socket")
            if any(getattr(m, "MINIMUM_UPDATE_INTERVAL_SECS", 0) for m in d.modules.values()):
                case.covered("interval")
            done += 1
            case.count("settings")
            if rng.random() < 0.15:
                await asyncio.sleep(rng.choice([0, 5, 5000, 90000]))
                await w.dev.update()
                again = w.view()
                case.expect(again == after, "lost-later", f"{tag}: {diff(after, again)}")
                case.covered("reissued")
        case.sample = (w.name, done, len(w.tr.requests))
        if done:
            case.nontrivial((w.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}


def compare(case, w, i, tag, before, after, want, may):
    for key, val in want.items():
        if (i, key) in after:
            case.expect(after[i, key] == norm(val), "not-read-back", f"{tag}: {key} reads {after[i, key]!r}, expected {val!r}")
    if "light_preset" in may:
        may = may | {"light_preset"}
    for k, (x, y) in diff(before, after).items():
        j, key = k
        if j == i and key in may:
            continue
        if w.kind == "iot" and key in ("is_on", "state") and {"is_on", "state"} & set(want) and (i == 0 or j == 0):
            continue            # a strip is on when a socket is
        case.violate("changed-too", f"{tag}: {key} of device {j} went from {x!r} to {y!r}")


async def rejected(case, w, d, tag, call, before, n, child):
    """The device refuses: the error carries its code and nothing changes."""
    rng = case.rng
    code = rng.choice(CODES) if w.kind != "iot" else rng.choice([-1, -2, -3, -10, -32])
    w.refuse, w.refused = int(code), []
    try:
        await call()
    except DeviceError as ex:
        err = ex
    except KasaException as ex:
        err = ex
    except Exception as ex:  # noqa: BLE001
        case.violate("wrong-error", f"{tag} refused with {code!r}: {ex!r}")
        return
    else:
        err = None
    finally:
        w.refuse = None
    case.event("refuse", tag, int(code))
    if not w.refused:       # nothing to ask of the device (a strip whose sockets are all in that state)
        case.expect(err is None, "wrong-error", f"{tag}: {err!r} although nothing was refused")
    else:
        case.expect(err is not None, "no-error", f"{tag}: refused with {code!r}, no error")
        if err is not None and w.kind != "iot":
            case.expect(isinstance(err, DeviceError) and err.error_code == code, "wrong-error", f"{tag} refused with {code!r}: {err!r}")
        if err is not None and w.kind == "iot":
            case.expect(str(int(code)) in str(err), "wrong-error", f"{tag} refused with {code}: {err!r}")
        case.covered("refused", *(["refused-child"] if child else []))
        case.count("refusals")
    mid = w.view()
    case.expect(mid == before, "changed-though-refused", f"{tag} refused with {code!r}: {diff(before, mid)}")
    await w.dev.update()
    after = w.view()
    case.expect(after == before, "changed-though-refused", f"{tag} refused with {code!r}: {diff(before, after)}")


async def unanswered(case, w, tag, call, before, sent):
    """Every attempt fails on the wire before the device sees it: an error, nothing changes."""
    from kasa.exceptions import TimeoutError as KTimeout
    from kasa.exceptions import _ConnectionError
    make = case.rng.choice([lambda: KTimeout("no answer"), lambda: _ConnectionError("connection lost"), lambda: KasaException("odd")])
    hit = []
    w.tr.fail = lambda n, r: hit.append(n) or make()
    try:
        await call()
    except KasaException:
        case.expect(bool(hit), "wrong-error", tag)
    except Exception as ex:  # noqa: BLE001
        case.violate("wrong-error", f"{tag}: {ex!r}")
    else:
        case.expect(not hit, "no-error", f"{tag}: no attempt was answered, no error")
    finally:
        w.tr.fail = None
    case.event("unanswered", tag, len(hit))
    if hit:
        case.covered("unanswered")
    await w.dev.update()
    after = w.view()
    case.expect(after == before, "changed-though-failed", f"{tag}: {diff(before, after)}")


# -- reported values ----------------------------------------------------------
def b64(text):
    return base64.b64encode(text.encode()).decode()


TEXTS = ["Lamp", "Büro ☕", "日本", "a b", "0", "x" * 30]
MIN, UTC = datetime.timedelta(minutes=1), datetime.timezone.utc
# sysinfo key -> (new value, features that show it)
SMART_INFO = {
    "rssi": (lambda r: r.randint(-99, -10), {"rssi": lambda v: v}), "signal_level": (lambda r: r.randint(0, 3), {"signal_level": lambda v: v}),
    "battery_percentage": (lambda r: r.randint(0, 100), {"battery_level": lambda v: v}),
    "at_low_battery": (lambda r: r.random() < 0.5, {"battery_low": lambda v: v}),
    "current_humidity": (lambda r: r.randint(0, 100), {"humidity": lambda v: v}),
    "current_humidity_exception": (lambda r: r.choice([0, 5, -3]), {"humidity_warning": lambda v: v != 0}),
    "current_temp": (lambda r: round(r.uniform(-30, 60), 1), {"temperature": lambda v: v}),
    "current_temp_exception": (lambda r: r.choice([0, 5.1, -3]), {"temperature_warning": lambda v: v != 0}),
    "report_interval": (lambda r: r.randint(1, 60), {"report_interval": lambda v: v}),
    "open": (lambda r: r.random() < 0.5, {"is_open": lambda v: v}), "detected": (lambda r: r.random() < 0.5, {"motion_detected": lambda v: v}),
    "water_leak_status": (lambda r: r.choice(["normal", "water_leak", "water_dry"]),
                          {"water_leak": lambda v: {"normal": "Normal", "water_leak": "LeakDetected", "water_dry": "Drying"}[v]}),
    "in_alarm": (lambda r: r.random() < 0.5, {"alarm": lambda v: v, "water_alert": lambda v: v}),
    "in_alarm_source": (lambda r: r.choice(["", "hub", "x" * 8]), {"alarm_source": lambda v: v or None}),
    "overheated": (lambda r: r.random() < 0.5, {}),
    "overheat_status": (lambda r: r.choice(["normal", "overheated", "cool_down"]), {"overheated": lambda v: v != "normal"}),
    "power_protection_status": (lambda r: r.choice(["normal", "overloaded"]), {"overloaded": lambda v: v == "overloaded"}),
    "child_protection": (lambda r: r.random() < 0.5, {"child_lock": lambda v: v}),
    "temp_unit": (lambda r: r.choice(["celsius", "fahrenheit"]), {"temperature_unit": lambda v: v}),
    "temp_offset": (lambda r: r.randint(-10, 10), {"temperature_offset": lambda v: v}),
    "target_temp": (lambda r: r.randint(5, 30), {"target_temperature": lambda v: v}),
    "fan_sleep_mode_on": (lambda r: r.random() < 0.5, {"fan_sleep_mode": lambda v: v}),
}


def b(r):
    return r.random() < 0.5


# method -> key -> (new value, {feature: reading})
SMART_QUERIES = {
    "getBatteryInfo": {"battery_percentage": (lambda r: r.randint(0, 100), {"battery_level": lambda v: v})},
    "getCleanInfo": {"clean_area": (lambda r: r.randint(0, 200), {"clean_area": lambda v: v}),
                     "clean_percent": (lambda r: r.randint(0, 100), {"clean_progress": lambda v: v}),
                     "clean_time": (lambda r: r.choice([r.randint(0, 500), r.randint(500, 9000)]), {"clean_time": lambda v: v * MIN})},
    "getMopState": {"mop_state": (b, {"mop_attached": lambda v: v})},
    "getVolume": {"volume": (lambda r: r.randint(0, 100), {"volume": lambda v: v})},
    "getCleanAttr": {"suction": (lambda r: r.randint(1, 5), {"vacuum_fan_speed": lambda v: ["", "Quiet", "Standard", "Turbo", "Max", "Ultra"][v]}),
                     "cistern": (lambda r: r.randint(0, 3), {"mop_waterlevel": lambda v: ["Disable", "Low", "Medium", "High"][v]}),
                     "clean_number": (lambda r: r.randint(1, 3), {"clean_count": lambda v: v})},
    "getCarpetClean": {"carpet_clean_prefer": (lambda r: r.choice(["boost", "normal"]), {"carpet_boost": lambda v: v == "boost"})},
    "getConsumablesInfo": {key: (lambda r: r.randint(0, 30000), {
        f"{name}_used": lambda v: v * MIN, f"{name}_remaining": lambda v, h=hours: datetime.timedelta(hours=h) - v * MIN})
        for key, name, hours in (("roll_brush_time", "main_brush", 400), ("edge_brush_time", "side_brush", 200), ("filter_time", "filter", 200),
                                 ("sensor_time", "sensor", 30), ("charge_contact_time", "charging_contacts", 30))},
    "getDustCollectionInfo": {"auto_dust_collection": (b, {"dustbin_autocollection_enabled": lambda v: v})},
    "getCleanRecords": {"total_area": (lambda r: r.randint(0, 9999), {"total_clean_area": lambda v: v}),
                        "total_time": (lambda r: r.randint(0, 9999), {"total_clean_time": lambda v: v * MIN}),
                        "total_number": (lambda r: r.randint(0, 999), {"total_clean_count": lambda v: v}),
                        "lastest_day_record": (lambda r: [r.randint(1_600_000_000, 1_800_000_000), r.randint(0, 300), r.randint(0, 99), 1], {
                            "last_clean_time": lambda v: v[1] * MIN, "last_clean_area": lambda v: v[2],
                            "last_clean_timestamp": lambda v: datetime.datetime.fromtimestamp(v[0], UTC)})},
    "get_connect_cloud_state": {"status": (lambda r: r.choice([0, 1, 2]), {"cloud_connection": lambda v: v == 0})},
    "get_auto_off_config": {"enable": (b, {"auto_off_enabled": lambda v: v}), "delay_min": (lambda r: r.randint(0, 999), {"auto_off_minutes": lambda v: v})},
    "get_led_info": {"led_rule": (lambda r: r.choice(["always", "never", "night_mode"]), {"led": lambda v: v != "never"})},
    "get_auto_update_info": {"enable": (b, {"auto_update_enabled": lambda v: v})},
    "get_alarm_configure": {"duration": (lambda r: r.randint(1, 600), {"alarm_duration": lambda v: v}),
                            "volume": (lambda r: r.choice(["mute", "low", "normal", "high"]), {
                                "alarm_volume": lambda v: v, "alarm_volume_level": lambda v: ["mute", "low", "normal", "high"].index(v)})},
    "getChildLockInfo": {"child_lock_status": (b, {"child_lock": lambda v: v})},
}
VAC = {0: "Idle", 1: "Cleaning", 2: "Mapping", 4: "GoingHome", 5: "Charging", 6: "Charged", 7: "Paused", 8: "Undocked", 99: "UnknownInternal"}
VERR = {0: "Ok", 2: "SideBrushStuck", 3: "MainBrushStuck", 4: "WheelBlocked", 6: "Trapped", 7: "TrappedCliff", 14: "DustBinRemoved", 15: "UnableToMove",
        16: "LidarBlocked", 21: "UnableToFindDock", 22: "BatteryLow", 777: "UnknownInternal"}


def smart_shake(m, rng):
    """Give a SMART device a new state: what its features and attributes have to show then."""
    si, feats, attrs = m.sysinfo, {}, {}
    for key, (make, shown) in SMART_INFO.items():
        if key in si:
            if rng.random() < 0.8:
                si[key] = make(rng)
            for fid, fn in shown.items():
                feats[fid] = fn(si[key])
    if "overheated" in si and "overheat_status" not in si:
        feats["overheated"] = si["overheated"]
    for method, keys in SMART_QUERIES.items():
        val = m.info.get(method)
        if not isinstance(val, dict):
            continue
        for key, (make, shown) in keys.items():
            if key in val:
                if rng.random() < 0.8:
                    val[key] = make(rng)
                for fid, fn in shown.items():
                    feats[fid] = fn(val[key])
    ver = m.components.get("on_off_gradually", 0)
    g = m.info.get("get_on_off_gradually_info")
    if ver == 1 and isinstance(g, dict) and "enable" in g:
        g["enable"] = attrs["LightTransition.enabled"] = feats["smooth_transitions"] = b(rng)
    elif ver > 1 and "brightness" in si and ("gradually_on_mode" in si or isinstance(g, dict) and "on_state" in g):
        on = {}
        for s in ("on", "off"):
            en, t = b(rng), rng.randint(1, 60)
            if "gradually_on_mode" in si:
                si[f"gradually_{s}_mode"], si[f"fade_{s}_time"] = int(en), t
            else:
                g[f"{s}_state"].update(enable=en, duration=t)
            on[s] = en
            feats[f"smooth_transition_{s}"] = attrs[f"LightTransition.turn_{s}_transition"] = t if en else 0
        attrs["LightTransition.enabled"] = on["on"] or on["off"]
    if isinstance(m.info.get("getVacStatus"), dict):
        v = m.info["getVacStatus"]
        v["status"], err = rng.choice(list(VAC)), rng.choice([0, 0, *VERR])
        v["err_status"] = rng.choice([[err], [err, 3]]) if err else rng.choice([[0], []])
        if not v["err_status"] or v["err_status"][0] == 0:
            err = 0
        feats["vacuum_error"] = VERR[err]
        feats["vacuum_status"] = "Error" if err else VAC[v["status"]]
        dc = m.info.get("getDustCollectionInfo")
        if isinstance(dc, dict):
            feats["dustbin_mode"] = {0: "Smart", 1: "Light", 2: "Balanced", 3: "Max"}[dc["dust_collection_mode"]] if dc["auto_dust_collection"] else "Off"
    if "ssid" in si:
        text = rng.choice(TEXTS)
        si["ssid"] = b64(text)
        attrs["ssid"] = feats["ssid"] = text
    if "nickname" in si:
        text = rng.choice(TEXTS)
        si["nickname"] = b64(text)
        attrs["alias"] = text
    if "device_on" in si:
        si["device_on"] = b(rng)
        attrs["is_on"] = si["device_on"]
        feats["state"] = si["device_on"]
    if "frost_protection_on" in si:
        si["frost_protection_on"] = b(rng)
        feats["state"] = not si["frost_protection_on"]
        si["trv_states"] = rng.choice([[], ["heating"], ["low_battery"], ["heating", "low_battery"], ["progress_calibration"]])
        known = [x for x in si["trv_states"] if x != "low_battery"]
        feats["thermostat_mode"] = ("Off" if si["frost_protection_on"] else
                                    {"heating": "Heating", "progress_calibration": "Calibrating"}[known[0]] if known else
                                    "Idle" if not si["trv_states"] else None)
        if feats["thermostat_mode"] is None:
            del feats["thermostat_mode"]
    if "fan_speed_level" in si:
        si["fan_speed_level"] = rng.randint(1, 4)
        feats["fan_speed_level"] = si["fan_speed_level"] if si["device_on"] else 0
    if isinstance(si.get("latitude"), int):
        si["latitude"], si["longitude"] = rng.randint(-900000, 900000), rng.randint(-1800000, 1800000)
        attrs["location"] = {"latitude": si["latitude"] / 10000, "longitude": si["longitude"] / 10000}
    if "fw_ver" in si:
        si["fw_ver"] = f"1.{rng.randint(0, 99)}.{rng.randint(0, 99)} Build 2301{rng.randint(10, 31)} Rel.{rng.randint(0, 9999)}"
        feats["current_firmware_version"] = si["fw_ver"]
    if isinstance(m.info.get("get_led_info"), dict) and isinstance(m.info["get_led_info"].get("night_mode"), dict):
        night = m.info["get_led_info"]["night_mode"]
        night.update(start_time=rng.randint(0, 1439), end_time=rng.randint(0, 1439), sunrise_offset=rng.randint(-60, 60),
                     sunset_offset=rng.randint(-60, 60), night_mode_type=rng.choice(["custom", "sunrise_sunset"]))
        attrs["Led.night_mode_settings"] = {"start": night["start_time"], "end": night["end_time"], "type": night["night_mode_type"],
                                            "sunrise_offset": night["sunrise_offset"], "sunset_offset": night["sunset_offset"]}
    attrs["mac"] = str(si.get("mac")).replace("-", ":")
    attrs["device_id"] = si["device_id"]
    attrs["rssi"] = si.get("rssi")
    attrs["hw_info"] = {"sw_ver": si.get("fw_ver"), "hw_ver": si.get("hw_ver"), "mac": si.get("mac"), "type": si.get("type"),
                        "hwId": si.get("device_id"), "dev_name": attrs.get("alias"), "oemId": si.get("oem_id")}
    return feats, attrs


def cam_shake(m, rng):
    feats, attrs = {}, {}
    bi = m.info["getDeviceInfo"]["device_info"]["basic_info"]
    text = rng.choice(TEXTS)
    bi["device_alias"] = text
    if "child_info_from_parent" in m.info:
        m.info["child_info_from_parent"]["alias"] = text
    attrs["alias"] = text
    ct = m.info.get("getConnectionType")
    if isinstance(ct, dict) and "rssiValue" in ct and m.parent is None:
        ct["rssiValue"], ct["rssi"] = rng.randint(-99, -10), str(rng.randint(0, 4))
        attrs["rssi"] = feats["rssi"] = ct["rssiValue"]
        feats["signal_level"] = ct["rssi"]
    for method, mod, section, fid in (("getLensMaskConfig", "lens_mask", "lens_mask_info", "state"),
                                      ("getLedStatus", "led", "config", "led"),
                                      ("getDetectionConfig", "motion_detection", "motion_det", "motion_detection"),
                                      ("getPersonDetectionConfig", "people_detection", "detection", "person_detection"),
                                      ("getPetDetectionConfig", "pet_detection", "detection", "pet_detection"),
                                      ("getTamperDetectionConfig", "tamper_detection", "tamper_det", "tamper_detection"),
                                      ("getBCDConfig", "sound_detection", "bcd", "baby_cry_detection")):
        val = m.info.get(method)
        if isinstance(val, dict) and section in val.get(mod, {}) and "enabled" in val[mod][section]:
            val[mod][section]["enabled"] = rng.choice(["on", "off"])
            on = val[mod][section]["enabled"] == "on"
            feats[fid] = not on if fid == "state" else on
            if fid == "state":
                attrs["is_on"] = not on
    sc = m.info.get("getSirenConfig")
    if isinstance(sc, dict) and "duration" in sc:
        sc["duration"], sc["volume"] = rng.randint(1, 600), str(rng.randint(0, 10))
        feats["alarm_duration"], feats["alarm_volume"] = sc["duration"], int(sc["volume"])
        m.info["getSirenStatus"]["status"] = rng.choice(["on", "off"])
        feats["alarm"] = m.info["getSirenStatus"]["status"] == "on"
    return feats, attrs


def iot_shake(m, rng):
    """A new state of a legacy device: [(features, attributes)] of the device and its sockets."""
    si, feats, attrs = m.sysinfo, {}, {}
    si["rssi"] = rng.randint(-99, -10)
    feats["rssi"] = attrs["rssi"] = si["rssi"]
    if si.get("alias") is not None:
        si["alias"] = attrs["alias"] = rng.choice(TEXTS)
    if "led_off" in si:
        si["led_off"] = rng.randrange(2)
        feats["led"] = si["led_off"] == 0
    for k in ("latitude", "longitude"):
        if k in si:
            si[k] = round(rng.uniform(-90, 90), 4)
        if k + "_i" in si:
            si[k + "_i"] = rng.randint(-900000, 900000)
    if "latitude" in si:
        attrs["location"] = {k: si[k] for k in ("latitude", "longitude")}
    elif "latitude_i" in si:
        attrs["location"] = {k: si[k + "_i"] / 10000 for k in ("latitude", "longitude")}
    mac = si.get("mac") or si.get("mic_mac")
    if mac:
        mac = mac.replace("-", ":")
        attrs["mac"] = mac if ":" in mac else ":".join(mac[i:i + 2].lower() for i in range(0, 12, 2))
    kids = []
    if si.get("children"):
        for c in si["children"]:
            c["state"], c["alias"] = rng.randrange(2), rng.choice(TEXTS)
            kids.append(({"state": c["state"] == 1}, {"is_on": c["state"] == 1, "alias": c["alias"]}))
        attrs["is_on"] = any(c["state"] for c in si["children"])
        feats["state"] = attrs["is_on"]
    elif "relay_state" in si:
        si["relay_state"] = rng.randrange(2)
        attrs["is_on"] = feats["state"] = bool(si["relay_state"])
    for name in ("cnCloud", "smartlife.iot.common.cloud"):
        ci = m.info.get(name)
        if isinstance(ci, dict) and isinstance(ci.get("get_info"), dict):
            ci["get_info"]["cld_connection"] = rng.randrange(2)
            feats["cloud_connection"] = bool(ci["get_info"]["cld_connection"])
    las = m.info.get("smartlife.iot.LAS")
    if isinstance(las, dict) and "get_current_brt" in las:
        las["get_config"]["devs"][0]["enable"] = rng.randrange(2)
        las["get_current_brt"]["value"] = rng.randrange(101)
        feats["ambient_light"] = las["get_current_brt"]["value"]
        feats["ambient_light_enabled"] = bool(las["get_config"]["devs"][0]["enable"])
    pir = m.info.get("smartlife.iot.PIR")
    if isinstance(pir, dict) and "get_adc_value" in pir:
        c = pir["get_config"]
        c["enable"], c["trigger_index"], c["array"] = rng.randrange(2), rng.randrange(4), [rng.randrange(101) for _ in range(4)]
        adc = pir["get_adc_value"]["value"] = rng.randrange(0, 4096)
        mid = c["max_adc"] // 2
        pct = (mid - adc) / (mid if mid - adc < 0 else c["max_adc"] - mid) * 100
        feats.update(pir_enabled=bool(c["enable"]), pir_range=["Far", "Mid", "Near", "Custom"][c["trigger_index"]],
                     pir_threshold=c["array"][c["trigger_index"]], pir_value=mid - adc, pir_adc_value=adc, pir_percent=pct,
                     pir_triggered=bool(c["enable"]) and abs(pct) > 100 - c["array"][c["trigger_index"]])
    dim = m.info.get("smartlife.iot.dimmer")
    if isinstance(dim, dict) and "get_dimmer_parameters" in dim:
        g = dim["get_dimmer_parameters"]
        for k, fid, hi in (("fadeOnTime", "dimmer_fade_on_time", 10000), ("fadeOffTime", "dimmer_fade_off_time", 10000),
                           ("gentleOnTime", "dimmer_gentle_on_time", 120000), ("gentleOffTime", "dimmer_gentle_off_time", 120000),
                           ("minThreshold", "dimmer_threshold_min", 51), ("rampRate", "dimmer_ramp_rate", 50)):
            g[k] = feats[fid] = rng.randint(10, hi)
    if "brightness" in si:
        si["brightness"] = feats["brightness"] = rng.randint(1, 100)
    return [(feats, attrs), *kids]


def same(got, want):
    if isinstance(want, datetime.datetime):
        return isinstance(got, datetime.datetime) and got.tzinfo is not None and got == want
    if isinstance(want, float) and isinstance(got, (int, float)):
        return abs(got - want) < 1e-9
    return got == want and (isinstance(got, bool) == isinstance(want, bool) or want is None)


def check_report(case, d, feats, attrs):
    for fid, want in feats.items():
        if fid in d.features:
            f = d.features[fid]
            try:
                got = norm(f.value)
            except Exception as ex:  # noqa: BLE001
                case.violate("unreadable", f"{d.model} {fid}: {ex!r}")
                continue
            case.expect(same(got, want), "misreported", f"{d.model} {fid} shows {got!r}, the device has {want!r}")
            case.covered("value")
            case.count("values_compared")
    for name, want in attrs.items():
        try:
            mod, _, name = name.rpartition(".")
            if mod and mod not in d.modules:
                continue
            got = getattr(d.modules[mod] if mod else d, name)
        except Exception as ex:  # noqa: BLE001
            case.violate("unreadable", f"{d.model} {name}: {ex!r}")
            continue
        case.expect(same(got, want), "misreported", f"{d.model} .{name} is {got!r}, the device has {want!r}")
        case.count("values_compared")


def report(case, kind):
    rng = case.rng

    async def main(loop):
        w = World(case, kind)
        for n in range(rng.choice([2, 3, 4])):
            if kind == "iot":
                want = iot_shake(w.model, rng)
            else:
                shake = [(m, (smart_shake if isinstance(m, sims.SmartModel) else cam_shake)(m, rng))
                         for m in (w.model, *w.model.children.values())]
            await w.dev.update()
            if kind == "iot":
                for d, (feats, attrs) in zip(w.devs(), want, strict=True):
                    check_report(case, d, feats, attrs)
            else:
                for m, (feats, attrs) in shake:
                    d = w.dev if m is w.model else next((c for c in w.dev.children if c.device_id == m.device_id), None)
                    if d is not None:
                        if d is not w.dev and kind == "smart" and not w.name.startswith(("H100", "KH100")):
                            attrs = {k: v for k, v in attrs.items() if k not in ("hw_info", "ssid")}
                        check_report(case, d, feats, attrs)
            case.count("updates")
            await asyncio.sleep(rng.choice([90001, 100000]))
        case.sample = (w.name, len(w.tr.requests))
        case.nontrivial((w.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def f_report_iot(case):
    report(case, "iot")


def f_report_smart(case):
    report(case, "smart")


def f_report_cam(case):
    report(case, "cam")


def f_iot(case):
    history(case, "iot")


def f_smart(case):
    history(case, "smart")


def f_cam(case):
    history(case, "cam")


FAMILIES = [Family("iot", f_iot, 600, 9000), Family("smart", f_smart, 900, 12000), Family("cam", f_cam, 400, 6000),
            Family("report_iot", f_report_iot, 300, 4000), Family("report_smart", f_report_smart, 600, 8000), Family("report_cam", f_report_cam, 200, 2500)]
