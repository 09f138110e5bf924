"""C23: light effects and presets are reported, chosen and saved under the right name."""
from __future__ import annotations

import asyncio
import base64
import copy

from kasa import LightState, Module

from kmon import sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: histories of effect and preset operations, by the library and by other applications, against simulated lights; after every operation an "
             "oracle over the device's own state decides the running effect, its brightness and the preset shown, and which record may have changed")
NOTE = ("legacy bulbs and light strips, SMART bulbs, strips, dimmers and their children; effect presets between light presets, edited and raw scene names; effects started and "
        "stopped by other applications; refused commands; the built-in effect tables are compared before and after")
RULE = "a case = one light and a history of operations; non-trivial = at least one effect or preset was chosen or saved"
ASSUMPTIONS = ("A light in a running effect leaves it when a color or color temperature is set.",
               "The effect ids of the built-in effects are the ones in the library at the pinned commit.",
               "Presets are saved with all the values the preset had, or (SMART color lights) with the brightness alone; scene names of one bulb differ and raw ones do not spell valid UTF-8 in base64.")
REQUIRED_COVER = ["iot:effect", "iot:off", "iot:custom", "iot:external", "iot:brightness", "iot:preset", "iot:save", "iot:save-mixed", "iot:deprecated", "iot:rejected",
                  "iot:refused", "iot:not-set", "iot:unnamed",
                  "strip:effect", "strip:off", "strip:custom", "strip:external", "strip:brightness", "strip:preset", "strip:save", "strip:save-mixed", "strip:rejected",
                  "strip:refused",
                  "bulb:partial", "bulb:effect", "bulb:off", "bulb:external", "bulb:brightness", "bulb:preset", "bulb:save", "bulb:raw", "bulb:encoded", "bulb:rejected", "bulb:refused",
                  "dim:preset", "dim:save", "dim:child", "dim:rejected", "dim:not-set"]
IDS_V1 = {"Aurora": "xqUxDhbAhNLqulcuRMyPBmVGyTOyEMEu", "Bubbling Cauldron": "tIwTRQBqJpeNKbrtBMFCgkdPTbAQGfRP", "Candy Cane": "HCOttllMkNffeHjEOLEgrFJjbzQHoxEJ",
          "Christmas": "bwTatyinOUajKrDwzMmqxxJdnInQUgvM", "Flicker": "bCTItKETDFfrKANolgldxfgOakaarARs", "Hanukkah": "CdLeIgiKcQrLKMINRPTMbylATulQewLD",
          "Haunted Mansion": "oJnFHsVQzFUTeIOBAhMRfVeujmSauhjJ", "Icicle": "joqVjlaTsgzmuQQBAlHRkkPAqkBUiqeb", "Lightning": "ojqpUUxdGHoIugGPknrUcRoyJiItsjuE",
          "Ocean": "oJjUMosgEMrdumfPANKbkFmBcAdEQsPy", "Rainbow": "izRhLCQNcDzIKdpMPqSTtBMuAIoreAuT", "Raindrop": "QbDFwiSFmLzQenUOPnJrsGqyIVrJrRsl",
          "Spring": "URdUpEdQbnOOechDBPMkKrwhSupLyvAg", "Valentines": "QglBhMShPHUAuxLqzNEefFrGiJwahOmz"}
IDS = STRIPS = BULBS = DIMS = IOTS = TABLES = None


def lists():
    global IDS, STRIPS, BULBS, DIMS, IOTS, TABLES
    if TABLES is not None:
        return
    from kasa.iot import effects as e1
    from kasa.smart import effects as e2
    TABLES = (e1.EFFECT_MAPPING_V1, copy.deepcopy(e1.EFFECT_MAPPING_V1), e2.EFFECT_MAPPING, copy.deepcopy(e2.EFFECT_MAPPING))
    STRIPS, BULBS, DIMS = [], [], []
    for n in sims.names("smart"):
        info = sims.load("smart", n)
        if isinstance(info.get("get_device_info", {}).get("lighting_effect"), dict):
            STRIPS.append(n)
        elif isinstance(info.get("get_dynamic_light_effect_rules"), dict):
            BULBS.append(n)
        elif isinstance(info.get("get_preset_rules"), dict) or any(isinstance(c.get("get_preset_rules"), dict) for c in (info.get("child_devices") or {}).values()):
            DIMS.append(n)
    IOTS = [n for n in sims.names("iot") if (s := sims.load("iot", n)["system"]["get_sysinfo"]).get("preferred_state") is not None and "light_state" in s]


def tables_intact(case):
    a, b, c, d = TABLES
    case.expect(a == b and c == d, "tables", "a built-in effect definition was changed")


def white(rng):
    return {"brightness": rng.randint(1, 100), "color_temp": rng.choice([2700, 3000, 4000, 5000, 6500]), "hue": 0, "saturation": rng.choice([0, 100])}


def colored(rng):
    return {"brightness": rng.randint(1, 100), "color_temp": 0, "hue": rng.randint(0, 360), "saturation": rng.randint(0, 100)}


class Refuser:
    """Refuses the next changing command when armed."""

    def __init__(self, model, iot):
        self.armed, self.hits = False, 0
        self.iot = iot
        model.fault = self.fault

    def fault(self, *a):
        m = a[1]
        if not self.armed or m.startswith(("get", "component")) or m in ("control_child", "multipleRequest"):
            return None
        self.hits += 1
        return -3 if self.iot else -1008


class World:
    def __init__(self, case, model, dev, tr, kind):
        self.case, self.rng, self.model, self.dev, self.tr, self.kind = case, case.rng, model, dev, tr, kind
        self.refuser = Refuser(model, kind == "iot")

    def commands(self, n):
        out = []
        for did, method, params, code in self.model.log[n:]:
            base = method.rsplit(".", 1)[-1]
            if not base.startswith(("get", "component")) and base != "control_child":
                out.append((base, params, code))
        return out

    async def call(self, tag, coro):
        """Run one operation; -> 'ok' | 'rejected' (own validation) | 'error' (refused by the device)."""
        from kasa import KasaException
        n = len(self.model.log)
        self.case.event("call", tag)
        try:
            await coro
        except ValueError as ex:
            self.case.expect(not self.commands(n), "sent-before-rejection", f"{tag}: rejected with {ex!r} after sending {self.commands(n)!r}"[:400])
            return "rejected"
        except KasaException:
            return "error"
        except Exception as ex:  # noqa: BLE001
            self.case.violate("crash", f"{tag}: {type(ex).__name__}: {ex}")
            return "crash"
        return "ok"

    async def refused(self, tag, make, shot):
        """The device refuses the command: reported as an error, nothing changes."""
        from kasa import KasaException
        self.refuser.armed, self.refuser.hits = True, 0
        before = shot()
        try:
            await make()
        except KasaException:
            pass
        except Exception as ex:  # noqa: BLE001
            self.case.violate("refusal", f"{tag}: the refusal became {type(ex).__name__}: {ex}")
        else:
            self.case.expect(self.refuser.hits == 0, "refusal", f"{tag}: the device refused and the call returned normally")
        self.refuser.armed = False
        self.case.expect(shot() == before, "refusal", f"{tag}: a refused command changed the device")
        self.case.covered("refused")

    async def update(self, tag):
        try:
            await self.dev.update()
        except Exception as ex:  # noqa: BLE001
            self.case.violate("update", f"{tag}: update raised {type(ex).__name__}: {ex}")
            return False
        return True


def read(case, tag, what, fn):
    try:
        return fn()
    except Exception as ex:  # noqa: BLE001
        case.violate("read", f"{tag}: {what} raised {type(ex).__name__}: {ex}")
        return Ellipsis


def agree(case, tag, what, fn, want):
    got = read(case, tag, what, fn)
    if got is Ellipsis:
        return
    case.count("values")
    case.event("value", what, str(got)[:80])
    case.expect(got == want, what.split(" ")[0], f"{tag}: {what} is {got!r}, expected {want!r}"[:500])


def shown(presets, cur, color, temp):
    """The first preset that equals the light's state."""
    for name, p in presets:
        if p["brightness"] == cur["brightness"] and (not temp or p.get("color_temp") == cur["color_temp"]) and \
                (not color or (p.get("hue"), p.get("saturation")) == (cur["hue"], cur["saturation"])):
            return name
    return "Not set"


def state_of(obj):
    return {k: getattr(obj, k, None) for k in ("brightness", "hue", "saturation", "color_temp")}


def strip_none(d):
    return {k: v for k, v in d.items() if v is not None}


FIELDS = ("brightness", "hue", "saturation", "color_temp")


# -- legacy bulbs and strips -------------------------------------------------
def f_iot(case):
    rng = case.rng
    lists()

    async def main(loop):
        model = sims.iot_model(rng.choice([n for n in IOTS if "KL4" in n] if rng.random() < 0.6 else IOTS))
        si = model.sysinfo
        color, temp = bool(si["is_color"]), bool(si["is_variable_color_temp"])
        strip = "lighting_effect_state" in si
        entries = []
        for i in range(rng.choice([0, 1, 3, 4, 5, 8])):
            if strip and rng.random() < 0.35:
                name = rng.choice(list(IDS_V1))
                entries.append({"index": i, "brightness": 100, "custom": 0, "id": IDS_V1[name], "mode": 2})
            else:
                e = {"index": i, **(colored(rng) if color and (not temp or rng.random() < 0.5) else white(rng))}
                if not temp:
                    e["color_temp"] = 0
                if strip:
                    e["mode"] = 1
                entries.append(e)
        si["preferred_state"] = entries
        if strip:
            si["lighting_effect_state"] = {"brightness": 50, "custom": 0, "enable": 0, "id": "", "name": "station"}
        first = {"brightness": rng.randint(1, 100), "hue": rng.randint(0, 360) if color else 0, "saturation": rng.randint(0, 100) if color else 0,
                 "color_temp": 0 if color else 2700, "mode": "normal"}
        si["light_state"] = {"on_off": 1, **first} if rng.random() < 0.7 else {"on_off": 0, "dft_on_state": first}
        dev, tr = sims.iot_device(model)
        w = World(case, model, dev, tr, "iot")
        if not await w.update("first"):
            return
        lp, light, le = dev.modules[Module.LightPreset], dev.modules[Module.Light], dev.modules.get(Module.LightEffect)
        case.expect((le is not None) == strip, "module", f"{si['model']}: effects module {le}")

        def presets():
            return [(f"Light preset {i + 1}", p) for i, p in enumerate(si["preferred_state"]) if "id" not in p]

        def light_now():
            st = si["light_state"]
            return dict(st if st["on_off"] else st["dft_on_state"])

        def effect_now():
            eff = si["lighting_effect_state"]
            return (eff["name"] or "Custom") if eff["enable"] else "Off"

        def verify(tag):
            cur = light_now()
            if strip and effect_now() != "Off":
                cur["brightness"] = si["lighting_effect_state"]["brightness"]
            agree(case, tag, "preset_list", lambda: list(lp.preset_list), ["Not set"] + [n for n, _ in presets()])
            agree(case, tag, "preset_states", lambda: [state_of(s) for s in lp.preset_states_list], [{k: p.get(k) for k in FIELDS} for _, p in presets()])
            agree(case, tag, "preset", lambda: lp.preset, shown(presets(), cur, color, temp))
            if f := dev.features.get("light_preset"):
                agree(case, tag, "preset feature", lambda: f.value, shown(presets(), cur, color, temp))
                agree(case, tag, "preset choices", lambda: list(f.choices), ["Not set"] + [n for n, _ in presets()])
            agree(case, tag, "brightness", lambda: light.brightness, cur["brightness"])
            if strip:
                agree(case, tag, "effect", lambda: le.effect, effect_now())
                agree(case, tag, "effect_list", lambda: list(le.effect_list), ["Off", *IDS_V1])
                agree(case, tag, "effect_brightness", lambda: le.brightness, si["lighting_effect_state"]["brightness"])
                if f := dev.features.get("light_effect"):
                    agree(case, tag, "effect feature", lambda: f.value, effect_now())
                    agree(case, tag, "effect choices", lambda: list(f.choices), ["Off", *IDS_V1])

        verify("first")
        ops = ["preset", "preset", "save", "save", "deprecated", "bad-preset", "not-set", "move"] + (
            ["effect", "effect", "off", "custom", "external", "ext-off", "bad-effect", "brightness"] if strip else ["brightness"])
        for step in range(rng.randint(3, 10)):
            op = rng.choice(ops)
            tag = f"{si['model']} {step} {op}"
            prefs0, eff0 = copy.deepcopy(si["preferred_state"]), copy.deepcopy(si.get("lighting_effect_state"))
            refuse = rng.random() < 0.08
            want_prefs, want_eff = prefs0, eff0
            names = [n for n, _ in presets()]

            async def go(make, tag=tag, refuse=refuse):
                if refuse:
                    await w.refused(tag, make, lambda: copy.deepcopy(si))
                    return False
                r = await w.call(tag, make())
                case.expect(r == "ok", "failed", f"{tag}: {r}")
                return r == "ok"

            if op == "effect":
                name = rng.choice(list(IDS_V1))
                kw = {}
                if rng.random() < 0.4:
                    kw["brightness"] = rng.randint(1, 100)
                if rng.random() < 0.4:
                    kw["transition"] = rng.choice([0, 1, 500, 3000])
                via = dev.features.get("light_effect") if not kw and rng.random() < 0.4 else None
                if await go(lambda: via.set_value(name) if via else le.set_effect(name, **kw)):
                    want_eff = {**TABLES[1][name], **kw}
                    case.expect(want_eff["id"] == IDS_V1[name] and si["lighting_effect_state"].get("enable") == 1, "effect", f"{tag}: {name} got {si['lighting_effect_state']!r}"[:300])
                    case.covered("effect")
                    case.nontrivial(("effect", name))
            elif op == "off":
                if await go(lambda: le.set_effect("Off")):
                    case.expect(not si["lighting_effect_state"]["enable"], "off", f"{tag}: still {si['lighting_effect_state']!r}"[:300])
                    want_eff = si["lighting_effect_state"]
                    case.covered("off")
            elif op == "custom":
                d = {**copy.deepcopy(TABLES[1][rng.choice(list(IDS_V1))]), "custom": 1, "id": sims.hexid(rng, 32), "name": rng.choice(["", "My own", "Sparkle", "Fête"]),
                     "brightness": rng.randint(1, 100)}
                mine = copy.deepcopy(d)
                if await go(lambda: le.set_custom_effect(d)):
                    want_eff = mine
                    case.covered("custom", *(["unnamed"] if not mine["name"] else []))
                case.expect(d == mine, "caller-changed", f"{tag}: the caller's effect was changed")
            elif op == "external":
                name = rng.choice([*IDS_V1, "", "Other app", "station"])
                si["lighting_effect_state"] = want_eff = {"brightness": rng.randint(1, 100), "custom": int(name not in IDS_V1), "enable": 1,
                                                          "id": IDS_V1.get(name, sims.hexid(rng, 32)), "name": name}
                case.covered("external", *(["unnamed"] if not name else []))
            elif op == "ext-off":
                si["lighting_effect_state"]["enable"] = 0
                want_eff = copy.deepcopy(si["lighting_effect_state"])
            elif op == "bad-effect":
                r = await w.call(tag, le.set_effect(rng.choice(["foobar", "", "aurora", "off", "Custom", "Aurora "])))
                case.expect(r == "rejected", "rejected", f"{tag}: {r}")
                case.covered("rejected")
            elif op == "brightness":
                b = rng.randint(1, 100)
                running = strip and effect_now() != "Off"
                if await go(lambda: light.set_brightness(b)):
                    want_eff = {**eff0, "brightness": b} if running else eff0
                    case.covered("brightness")
            elif op == "move":
                cur = light_now()
                cur.update(colored(rng) if color and rng.random() < 0.7 else {"brightness": rng.randint(1, 100)})
                if not temp:
                    cur["color_temp"] = 0
                si["light_state"] = {"on_off": 1, **cur} if rng.random() < 0.7 else {"on_off": 0, "dft_on_state": cur}
            elif op in ("preset", "not-set"):
                if op == "preset" and not names:
                    continue
                name = rng.choice(names) if op == "preset" else "Not set"
                via = dev.features.get("light_preset") if rng.random() < 0.4 else None
                if await go(lambda: via.set_value(name) if via else lp.set_preset(name)):
                    cur = light_now()
                    case.expect(si["light_state"]["on_off"] == 1, "chosen", f"{tag}: the light is off")
                    want_eff = {**eff0, "enable": 0} if strip and (op == "preset" or color) else si.get("lighting_effect_state")
                    if op == "preset":
                        p = dict(presets())[name]
                        keys = [k for k in FIELDS if k == "brightness" or (k == "color_temp" and temp) or (k in ("hue", "saturation") and color)]
                        case.expect({k: cur[k] for k in keys} == {k: p[k] for k in keys}, "chosen", f"{tag}: {name} is {p}, the light shows {cur}")
                        case.covered("preset")
                        case.nontrivial(("preset", name))
                    else:
                        case.expect(cur["brightness"] == 100, "chosen", f"{tag}: not set -> {cur}")
                        case.covered("not-set")
            elif op == "bad-preset":
                r = await w.call(tag, rng.choice([lp.set_preset, lambda n: lp.save_preset(n, LightState(brightness=1))])(
                    rng.choice(["foobar", "Light preset 0", "Light preset 99", "light preset 1", ""])))
                if names:
                    case.expect(r == "rejected", "rejected", f"{tag}: {r}")
                else:
                    case.expect(r in ("rejected", "error"), "rejected", f"{tag}: {r}")
                case.covered("rejected")
            elif op == "save":
                if not names:
                    continue
                name = rng.choice(names)
                pos = next(i for i, p in enumerate(si["preferred_state"]) if f"Light preset {i + 1}" == name)
                new = colored(rng) if color and rng.random() < 0.6 else white(rng)
                obj = LightState(**new)
                if rng.random() < 0.4:
                    obj = next(s for n, s in zip(names, lp.preset_states_list) if n == name)
                    for k in FIELDS:
                        setattr(obj, k, new[k])
                if await go(lambda: lp.save_preset(name, obj)):
                    got = si["preferred_state"]
                    case.expect(len(got) == len(prefs0) and all(got[i] == p for i, p in enumerate(prefs0) if i != pos), "saved-elsewhere",
                                f"{tag}: saving {name} changed another entry: {prefs0} -> {got}"[:600])
                    case.expect({k: got[pos].get(k) for k in FIELDS} == new and got[pos]["index"] == pos and "id" not in got[pos], "saved",
                                f"{tag}: {name} is {got[pos]}, saved {new}")
                    want_prefs = got
                    case.covered("save", *(["save-mixed"] if any("id" in p for p in prefs0[:pos]) else []))
                    case.nontrivial(("save", name))
            elif op == "deprecated":
                if not names:
                    continue
                olds = read(case, tag, "deprecated presets", lambda: list(lp._deprecated_presets))
                if olds is Ellipsis:
                    continue
                case.expect([state_of(o) for o in olds] == [{k: p.get(k) for k in FIELDS} for _, p in presets()], "preset_states", f"{tag}: {olds}"[:300])
                o = rng.choice(olds)
                pos, new = o.index, colored(rng) if color else white(rng)
                if rng.random() < 0.25:
                    o.index = rng.choice([len(prefs0), 20])
                    r = await w.call(tag, lp._deprecated_save_preset(o))
                    case.expect(r == "error" and si["preferred_state"] == prefs0, "rejected", f"{tag}: index {o.index} {r}")
                    continue
                for k in FIELDS:
                    setattr(o, k, new[k])
                if await go(lambda: lp._deprecated_save_preset(o)):
                    got = si["preferred_state"]
                    case.expect(all(got[i] == p for i, p in enumerate(prefs0) if i != pos), "saved-elsewhere", f"{tag}: {prefs0} -> {got}"[:600])
                    case.expect({k: got[pos].get(k) for k in FIELDS} == new, "saved", f"{tag}: {got[pos]}, saved {new}")
                    want_prefs = got
                    case.covered("deprecated")
            case.expect(si["preferred_state"] == want_prefs, "side-effect", f"{tag}: presets {prefs0} -> {si['preferred_state']}"[:600])
            if strip:
                got = si["lighting_effect_state"]
                case.expect(got == want_eff, "effect", f"{tag}: the device's effect is {got!r}, expected {want_eff!r}"[:700])
            if not await w.update(tag):
                return
            verify(tag)
        tables_intact(case)

    finish(case, vrun(main, max_steps=3_000_000))


# -- SMART -------------------------------------------------------------------
def leave_effect(model, refuser):
    """A color set on a light stops its effect."""
    def hook(m, method, params):
        if refuser.armed or method != "set_device_info" or not isinstance(params, dict) or not {"hue", "saturation", "color_temp"} & set(params):
            return
        si = m.sysinfo
        if isinstance(si.get("lighting_effect"), dict):
            si["lighting_effect"]["enable"] = 0
        if si.get("dynamic_light_effect_enable"):
            m.do_set_dynamic_light_effect_rule_enable({"enable": False})
    model.hooks.append(hook)


class Smart(World):
    """One SMART light and the oracle for its presets."""

    def __init__(self, case, name, kind):
        model = sims.smart_model(name, case.rng)
        dev, tr = sims.smart_device(model)
        super().__init__(case, model, dev, tr, kind)
        leave_effect(model, self.refuser)
        self.name = name.split(".")[0]

    edited = False

    def select(self):
        devs = [d for d in (self.dev, *self.dev.children) if (m := d.modules.get(Module.LightPreset)) is not None and m.device is d]
        if not devs:
            self.case.violate("module", f"{self.name}: no presets")
            return False
        self.d = self.rng.choice(devs)
        self.lp, self.light = self.d.modules[Module.LightPreset], self.d.modules[Module.Light]
        self.m = self.model if self.d is self.dev else self.model.children[self.d.device_id]
        si = self.m.sysinfo
        rng_ = si.get("color_temp_range") or (2500, 6500)
        self.color = "color" in self.m.components and "hue" in si
        self.temp = "color_temperature" in self.m.components and "color_temp" in si and rng_[0] != rng_[1]
        return True

    def shuffle(self):
        """Presets and a light state of its own."""
        rng = self.rng
        for m in (self.model, *self.model.children.values()):
            si = m.sysinfo
            if "brightness" in si:
                si["brightness"], si["device_on"] = rng.randint(1, 100), rng.random() < 0.7
            if "hue" in si:
                si.update(**{k: v for k, v in colored(rng).items()})
            self.shuffle_presets(m)

    def shuffle_presets(self, m):
        rng, si, pr = self.rng, m.sysinfo, m.info.get("get_preset_rules")
        if "preset_state" in si:
            si["preset_state"] = [{"brightness": rng.randint(1, 100)} for _ in range(rng.randint(1, 6))]
            if isinstance(pr, dict) and "brightness" in pr:
                pr["brightness"] = [e["brightness"] for e in si["preset_state"]]
        elif isinstance(pr, dict) and "states" in pr:
            kinds = rng.choice([0.6, 0.6, 0.6, 0.0])       # also: none of them has a color
            states = [{"color_temp": 0, **(colored(rng) if rng.random() < kinds else white(rng))} for _ in range(rng.choice([1, 3, 4, 7, 7, 14]))]
            if self.kind == "strip":
                for i in range(len(states)):
                    if rng.random() < 0.3 and len(states) > 1:
                        states[i] = {"lighting_effect": copy.deepcopy(rng.choice(list(TABLES[3].values())))}
            pr["states"] = states
            if "sum" in pr:
                pr["sum"] = len(states)
        elif isinstance(pr, dict) and "brightness" in pr:
            pr["brightness"] = [rng.randint(1, 100) for _ in range(rng.randint(1, 6))]

    def entries(self):
        """[(name, position on the device, values)]"""
        si, pr = self.m.sysinfo, self.m.info.get("get_preset_rules") or {}
        if "preset_state" in si:
            return [(f"Light preset {i + 1}", i, e) for i, e in enumerate(si["preset_state"])]
        if "states" in pr:
            plain = [(i, e) for i, e in enumerate(pr["states"]) if "lighting_effect" not in e]
            return [(f"Light preset {k + 1}", i, e) for k, (i, e) in enumerate(plain)]
        return [(f"Brightness preset {i + 1}", i, {"brightness": b}) for i, b in enumerate(pr.get("brightness", []))]

    def presets(self):
        return [(n, e) for n, _, e in self.entries()]

    def effect(self):
        """(name or None, brightness) of the running effect."""
        return None

    def current(self):
        si = self.m.sysinfo
        cur = {k: si.get(k) for k in FIELDS}
        if (e := self.effect()) is not None:
            cur["brightness"] = e
        return cur

    def verify(self, tag):
        case, cur, lp = self.case, self.current(), self.lp
        names = ["Not set"] + [n for n, _ in self.presets()]
        agree(case, tag, "preset_list", lambda: list(lp.preset_list), names)
        agree(case, tag, "preset_states", lambda: [state_of(s) for s in lp.preset_states_list], [{k: p.get(k) for k in FIELDS} for _, p in self.presets()])
        agree(case, tag, "preset", lambda: lp.preset, shown(self.presets(), cur, self.color, self.temp))
        agree(case, tag, "brightness", lambda: self.light.brightness, cur["brightness"])
        if f := self.d.features.get("light_preset"):
            agree(case, tag, "preset feature", lambda: f.value, shown(self.presets(), cur, self.color, self.temp))
            agree(case, tag, "preset choices", lambda: list(f.choices), names)

    def frozen(self):
        """The records an operation must not touch unless it is about them."""
        si, info = self.m.sysinfo, self.m.info
        return copy.deepcopy({"pr": info.get("get_preset_rules"), "ps": si.get("preset_state"), "eff": si.get("lighting_effect"),
                              "rules": (info.get("get_dynamic_light_effect_rules") or {}).get("rule_list") if isinstance(info.get("get_dynamic_light_effect_rules"), dict) else None,
                              "dyn": (si.get("dynamic_light_effect_enable"), si.get("dynamic_light_effect_id"))})

    async def go(self, tag, make, refuse):
        if refuse:
            await self.refused(tag, make, lambda: self.m.snapshot())
            return False
        r = await self.call(tag, make())
        self.case.expect(r == "ok", "failed", f"{tag}: {r}")
        return r == "ok"

    async def preset_op(self, op, tag, refuse):
        """-> keys of frozen() the operation may have changed."""
        case, rng, lp, m = self.case, self.rng, self.lp, self.m
        entries = self.entries()
        feat = self.d.features.get("light_preset") if rng.random() < 0.4 else None
        if op == "preset":
            if not entries:
                return ()
            name, pos, p = rng.choice(entries)
            if await self.go(tag, lambda: feat.set_value(name) if feat else lp.set_preset(name), refuse):
                si = m.sysinfo
                case.expect(si["device_on"] is True, "chosen", f"{tag}: the light is off")
                want = {k: p[k] for k in FIELDS if k in p}
                case.expect({k: si.get(k) for k in want} == want, "chosen", f"{tag}: {name} is {p}, the light shows { {k: si.get(k) for k in FIELDS} }")
                case.covered("preset")
                case.nontrivial(("preset", name))
            return ("eff", "dyn")
        if op == "not-set":
            if await self.go(tag, lambda: feat.set_value("Not set") if feat else lp.set_preset("Not set"), refuse):
                case.expect(m.sysinfo["brightness"] == 100 and m.sysinfo["device_on"] is True, "chosen", f"{tag}: not set -> {m.sysinfo.get('brightness')}")
                case.covered("not-set")
            return ("eff", "dyn")
        if op == "bad-preset":
            bad = rng.choice(["foobar", "Light preset 0", "Light preset 99", "brightness preset 1", ""])
            r = await self.call(tag, lp.set_preset(bad) if rng.random() < 0.5 else lp.save_preset(bad, LightState(brightness=1)))
            case.expect(r == "rejected", "rejected", f"{tag}: {r}")
            case.covered("rejected")
            return ()
        # save
        if not entries:
            return ()
        name, pos, old = rng.choice(entries)
        simple = all(set(e) <= {"brightness"} for _, _, e in entries)
        partial = not simple and rng.random() < 0.2 and any(set(e) > {"brightness"} for n, _, e in entries if n != name)
        new = {"brightness": rng.randint(1, 100)} if simple or partial else (colored(rng) if rng.random() < 0.6 else white(rng))
        obj = LightState(**new)
        if partial:
            case.covered("partial")
        elif rng.random() < 0.4:
            obj = dict(zip([n for n, _, _ in entries], lp.preset_states_list)).get(name, obj)
            for k, v in new.items():
                setattr(obj, k, v)
        before = {p: e for _, p, e in copy.deepcopy(entries)}
        raw = copy.deepcopy((m.info.get("get_preset_rules") or {}).get("states"))
        if await self.go(tag, lambda: lp.save_preset(name, obj), refuse):
            after = {p: e for _, p, e in self.entries()}
            case.expect(set(after) == set(before) and all(after[p] == e for p, e in before.items() if p != pos), "saved-elsewhere",
                        f"{tag}: saving {name} changed another preset: {before} -> {after}"[:600])
            now = (m.info.get("get_preset_rules") or {}).get("states")
            if raw is not None and now is not None:
                case.expect(len(raw) == len(now) and all(a == b for i, (a, b) in enumerate(zip(raw, now)) if i != pos), "saved-elsewhere",
                            f"{tag}: saving {name} changed another entry")
            case.expect(strip_none(after.get(pos) or {}) == new, "saved", f"{tag}: {name} is {after.get(pos)}, saved {new}")
            case.covered("save", *(["save-mixed"] if raw is not None and any("lighting_effect" in e for e in raw[:pos]) else []))
            case.nontrivial(("save", name))
        return ("pr", "ps")

    def move(self):
        """Another application changes the light, or its presets."""
        if self.rng.random() < 0.2:
            self.shuffle_presets(self.m)
            self.edited = True
            self.case.covered("presets-edited")
        si, rng = self.m.sysinfo, self.rng
        si["brightness"], si["device_on"] = rng.randint(1, 100), rng.random() < 0.7
        if "hue" in si and rng.random() < 0.6:
            si.update(colored(rng) if rng.random() < 0.6 else white(rng))
        if rng.random() < 0.3 and self.entries():
            si.update({k: v for k, v in rng.choice(self.entries())[2].items() if k in FIELDS})


PRESET_OPS = ["preset", "preset", "save", "save", "bad-preset", "not-set", "move"]


def drive(case, w, ops, special, setup=None, verify=None):
    rng = case.rng

    async def main(loop):
        w.shuffle()
        if setup:
            setup()
        if not await w.update("first") or not w.select():
            return
        w.verify("first")
        if verify:
            verify("first")
        for step in range(rng.randint(3, 10)):
            op = rng.choice(ops)
            tag = f"{w.name} {step} {op}"
            refuse = rng.random() < 0.08
            before = w.frozen()
            if op == "move":
                w.move()
                if w.edited:        # presets are read once a day
                    w.edited = False
                    await asyncio.sleep(86401)
                touched = ("eff", "dyn", "pr", "ps")
            elif op in PRESET_OPS:
                touched = await w.preset_op(op, tag, refuse)
            else:
                touched = await special(op, tag, refuse)
            after = w.frozen()
            for k in before:
                if k not in touched:
                    case.expect(before[k] == after[k], "side-effect", f"{tag}: {k} {before[k]!r} -> {after[k]!r}"[:600])
            if not await w.update(tag):
                return
            w.verify(tag)
            if verify:
                verify(tag)
        tables_intact(case)

    finish(case, vrun(main, max_steps=3_000_000))


def f_dim(case):
    lists()
    rng = case.rng
    name = rng.choice([n for n in DIMS if "KS240" in n] if rng.random() < 0.3 else DIMS)
    w = Smart(case, name, "dim")

    async def special(op, tag, refuse):
        b = rng.randint(1, 100)
        if await w.go(tag, lambda: w.light.set_brightness(b), refuse):
            case.expect(w.m.sysinfo["brightness"] == b, "brightness", f"{tag}: {w.m.sysinfo['brightness']}, set {b}")
        if w.m is not w.model:
            case.covered("child")
        return ()
    drive(case, w, [*PRESET_OPS, "brightness"], special)


# SMART strip effects and their ids
def f_strip(case):
    lists()
    rng = case.rng
    w = Smart(case, rng.choice(STRIPS), "strip")
    names = list(TABLES[3])
    case.expect(names == [e["name"] for e in TABLES[3].values()], "tables", "an effect is listed under another name")
    si = w.model.sysinfo

    def setup():
        si["lighting_effect"] = {"brightness": 50, "custom": 0, "display_colors": [], "enable": 0, "id": "", "name": "station"}

    def running():
        e = si["lighting_effect"]
        return bool(e["enable"]) and e["name"] in names

    def effect_now():
        e = si["lighting_effect"]
        if e["enable"] and e["name"] in names:
            return e["name"]
        if e["enable"] and e["custom"]:
            return e["name"] or "Custom"
        return "Off"
    w.effect = lambda: si["lighting_effect"]["brightness"] if running() else None

    def verify(tag):
        le = w.dev.modules[Module.LightEffect]
        agree(case, tag, "effect", lambda: le.effect, effect_now())
        agree(case, tag, "effect_list", lambda: list(le.effect_list), ["Off", *names])
        agree(case, tag, "effect_brightness", lambda: le.brightness, si["lighting_effect"]["brightness"])
        agree(case, tag, "active", lambda: le.is_active, running())
        if f := w.dev.features.get("light_effect"):
            agree(case, tag, "effect feature", lambda: f.value, effect_now())
            agree(case, tag, "effect choices", lambda: list(f.choices), ["Off", *names])

    async def special(op, tag, refuse):
        le, light = w.dev.modules[Module.LightEffect], w.dev.modules[Module.Light]
        eff, bright = copy.deepcopy(si["lighting_effect"]), si["brightness"]
        sent = len(w.model.log)
        if op == "effect":
            name, kw = rng.choice(names), {}
            if rng.random() < 0.4:
                kw["brightness"] = rng.randint(1, 100)
            if rng.random() < 0.4:
                kw["transition"] = rng.choice([0, 1, 500, 3000])
            via = w.dev.features.get("light_effect") if not kw and rng.random() < 0.4 else None
            shown_b = w.current()["brightness"]
            if await w.go(tag, lambda: via.set_value(name) if via else le.set_effect(name, **kw), refuse):
                want = {**TABLES[3][name], "brightness": shown_b, **kw}
                got = [p for m, p, c in w.commands(sent) if m == "set_lighting_effect"]
                case.expect(got == [want], "effect", f"{tag}: {name} sent {got!r}, expected {want!r}"[:800])
                case.expect(si["brightness"] == bright, "side-effect", f"{tag}: plain brightness changed")
                case.covered("effect")
                case.nontrivial(("effect", name))
            return ("eff",)
        if op == "off":
            if await w.go(tag, lambda: le.set_effect("Off"), refuse):
                case.expect(not si["lighting_effect"]["enable"], "off", f"{tag}: still {si['lighting_effect']!r}")
                case.covered("off")
            return ("eff",)
        if op == "custom":
            d = {**copy.deepcopy(TABLES[3][rng.choice(names)]), "custom": 1, "id": sims.hexid(rng, 32), "name": rng.choice(["My own", "Sparkle", "Fête"]), "brightness": rng.randint(1, 100)}
            mine = copy.deepcopy(d)
            if await w.go(tag, lambda: le.set_custom_effect(d), refuse):
                got = [p for m, p, c in w.commands(sent) if m == "set_lighting_effect"]
                case.expect(got == [mine], "custom", f"{tag}: sent {got!r}"[:400])
                case.covered("custom")
            case.expect(d == mine, "caller-changed", f"{tag}: the caller's effect was changed")
            si["lighting_effect"]["custom"] = 1 if si["lighting_effect"]["name"] == mine["name"] else si["lighting_effect"]["custom"]
            return ("eff",)
        if op == "external":
            name = rng.choice([*names, "Other app", "", "softAP"])
            si["lighting_effect"] = {"brightness": 0 if name == "softAP" else rng.randint(1, 100), "custom": int(name not in (*names, "softAP")), "display_colors": [], "enable": 1,
                                     "id": TABLES[3].get(name, {}).get("id", sims.hexid(rng, 20)), "name": name}
            case.covered("external")
            return ("eff",)
        if op == "ext-off":
            si["lighting_effect"]["enable"] = 0
            return ("eff",)
        if op == "bad-effect":
            r = await w.call(tag, le.set_effect(rng.choice(["foobar", "", "aurora", "off", "Custom", "Aurora "])))
            case.expect(r == "rejected", "rejected", f"{tag}: {r}")
            case.covered("rejected")
            return ()
        b = rng.randint(1, 100)
        direct = running() and rng.random() < 0.4
        if direct and rng.random() < 0.2:
            b = 0
        act = running()
        if await w.go(tag, lambda: (le if direct else light).set_brightness(b), refuse):
            if direct and b == 0:
                case.expect(not si["lighting_effect"]["enable"], "off", f"{tag}: brightness 0 left {si['lighting_effect']!r}")
                return ("eff",)
            want = {**eff, "brightness": b} if act else eff
            case.expect(si["lighting_effect"] == want, "brightness", f"{tag}: effect {eff!r} -> {si['lighting_effect']!r}, set {b}")
            case.expect(si["brightness"] == (bright if act else b), "brightness", f"{tag}: plain brightness {bright} -> {si['brightness']}, set {b} active {act}")
            case.covered("brightness")
        return ("eff",)
    drive(case, w, [*PRESET_OPS, "effect", "effect", "effect", "off", "custom", "external", "ext-off", "bad-effect", "brightness", "brightness"], special, setup, verify)


RAW = ["Party", "Relax", "Warm", "Movie night!", "Été", "Blue moon", "Cozy", "Café 21", "a", "Reading time", "Good night", "日本", "Calm", "x y z w"]
EDITED = ["Kids", "Party", "Relax", "party2", "Warm", "Movie night!", "Été", "日本", "My evening", "QUJD", "Off-ish", "a", "bW92aWUh"]


def f_bulb(case):
    lists()
    rng = case.rng
    w = Smart(case, rng.choice(BULBS), "bulb")
    si, info = w.model.sysinfo, w.model.info
    rules = info["get_dynamic_light_effect_rules"]
    labels = {}

    def setup():
        rules["enable"] = False
        rules.pop("current_rule_id", None)
        si["dynamic_light_effect_enable"] = False
        si.pop("dynamic_light_effect_id", None)
        for r in rules["rule_list"]:
            how = rng.choice(["plain", "raw", "encoded"])
            if how == "plain":
                r["scene_name"], labels[r["id"]] = "", {"L1": "Party", "L2": "Relax"}[r["id"]]
            else:
                name = next(n for n in rng.sample(RAW if how == "raw" else EDITED, 10) if n not in labels.values() and n not in ("Party", "Relax"))
                labels[r["id"]] = name
                r["scene_name"] = name if how == "raw" else base64.b64encode(name.encode()).decode()
                case.covered(how)
            b = rng.randint(1, 100)
            r["color_status_list"] = [[b, *c[1:]] for c in r["color_status_list"]]
        if rng.random() < 0.4:
            w.model.do_set_dynamic_light_effect_rule_enable({"enable": True, "id": rng.choice(list(labels))})

    def rule(rid):
        return next(r for r in rules["rule_list"] if r["id"] == rid)

    def active():
        return si.get("dynamic_light_effect_id") if si["dynamic_light_effect_enable"] else None
    w.effect = lambda: rule(active())["color_status_list"][0][0] if active() else None

    def verify(tag):
        le = w.dev.modules[Module.LightEffect]
        agree(case, tag, "effect_list", lambda: list(le.effect_list), ["Off", *(labels[r["id"]] for r in rules["rule_list"])])
        agree(case, tag, "effect", lambda: le.effect, labels[active()] if active() else "Off")
        agree(case, tag, "active", lambda: le.is_active, bool(active()))
        if active():
            agree(case, tag, "effect_brightness", lambda: le.brightness, rule(active())["color_status_list"][0][0])
        if f := w.dev.features.get("light_effect"):
            agree(case, tag, "effect feature", lambda: f.value, labels[active()] if active() else "Off")
            agree(case, tag, "effect choices", lambda: list(f.choices), ["Off", *(labels[r["id"]] for r in rules["rule_list"])])

    def kept(tag, old, changed, b):
        """Only the brightness of one rule changes (a default name may get stored)."""
        for r in old:
            new = rule(r["id"])
            want = [[b, *c[1:]] for c in r["color_status_list"]] if r["id"] == changed else r["color_status_list"]
            case.expect(new["color_status_list"] == want, "brightness", f"{tag}: rule {r['id']} {r['color_status_list']} -> {new['color_status_list']}, wanted {want}"[:500])
            case.expect(new["scene_name"] == (r["scene_name"] or new["scene_name"]), "renamed", f"{tag}: {r['scene_name']!r} -> {new['scene_name']!r}")
            case.expect({k: v for k, v in new.items() if k not in ("scene_name", "color_status_list")} ==
                        {k: v for k, v in r.items() if k not in ("scene_name", "color_status_list")}, "rule", f"{tag}: {r} -> {new}"[:500])

    async def special(op, tag, refuse):
        le, light = w.dev.modules[Module.LightEffect], w.dev.modules[Module.Light]
        old, bright, was = copy.deepcopy(rules["rule_list"]), si["brightness"], active()
        if op == "effect":
            rid, kw = rng.choice(list(labels)), {}
            if rng.random() < 0.5:
                kw["brightness"] = rng.randint(1, 100)
            via = w.dev.features.get("light_effect") if not kw and rng.random() < 0.4 else None
            b = kw.get("brightness", w.current()["brightness"])
            if await w.go(tag, lambda: via.set_value(labels[rid]) if via else le.set_effect(labels[rid], **kw), refuse):
                case.expect(active() == rid, "effect", f"{tag}: asked for {labels[rid]}, {active()} runs")
                kept(tag, old, rid, b)
                case.expect(si["brightness"] == bright, "side-effect", f"{tag}: plain brightness changed")
                case.covered("effect")
                case.nontrivial(("effect", rid))
            return ("dyn", "rules")
        if op == "off":
            if await w.go(tag, lambda: le.set_effect("Off"), refuse):
                case.expect(active() is None, "off", f"{tag}: {active()} still runs")
                case.covered("off")
            return ("dyn",)
        if op == "external":
            w.model.do_set_dynamic_light_effect_rule_enable({"enable": True, "id": rng.choice(list(labels))})
            case.covered("external")
            return ("dyn",)
        if op == "ext-off":
            w.model.do_set_dynamic_light_effect_rule_enable({"enable": False})
            return ("dyn",)
        if op == "bad-effect":
            r = await w.call(tag, le.set_effect(rng.choice(["foobar", "", "off", "L1", "party "])))
            case.expect(r == "rejected", "rejected", f"{tag}: {r}")
            case.covered("rejected")
            return ()
        b = rng.randint(1, 100)
        if await w.go(tag, lambda: light.set_brightness(b), refuse):
            kept(tag, old, was, b)
            case.expect(active() == was, "effect", f"{tag}: {was} -> {active()}")
            case.expect(si["brightness"] == (bright if was else b), "brightness", f"{tag}: plain brightness {bright} -> {si['brightness']}, set {b}, effect {was}")
            case.covered("brightness")
        return ("rules",)
    drive(case, w, [*PRESET_OPS, "effect", "effect", "effect", "off", "external", "ext-off", "bad-effect", "brightness", "brightness"], special, setup, verify)


FAMILIES = [Family("iot", f_iot, 1600, 30000), Family("strip", f_strip, 1000, 20000), Family("bulb", f_bulb, 1000, 20000), Family("dim", f_dim, 600, 10000)]
