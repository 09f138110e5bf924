"""C26: one-shot commands reach the device exactly once, with exactly the given values; what they return is what the device said."""
from __future__ import annotations

import asyncio
import base64
import copy
import datetime
import json
import urllib.parse

import kasa
from kasa import Credentials, DeviceConfig, Module
from kasa.smartcam.modules.camera import StreamResolution

from kmon import clock, refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

from checks.c18_settings import World

TECHNIQUE = ("runtime monitoring: histories of one-shot commands on every modelled device; a monitor on the device-side execution "
             "log demands exactly the commands the call stands for, once, with the given values, on that device; pairing, firmware "
             "updates and Wi-Fi scans run against scripted devices whose script is the oracle for results and callbacks")
NOTE = ("reboot, reset, Wi-Fi, credentials, MAC, alarms, vacuum actions, pan/tilt, statistics, cloud, pairing, firmware update and "
        "stream addresses over all fixture devices and children; refused, unanswered and invalid commands")
RULE = "a case = one device and a history of one-shot commands; non-trivial = at least one was executed"
ASSUMPTIONS = ("A refused command has no effect.", "What a device that does not know a command answers is a refusal.",
               "The time written along with Wi-Fi and credential settings is the one last read.")
REQUIRED_COVER = [f"act:{k}" for k in ("reboot", "reset", "wifi_join", "wifi_scan", "credentials", "set_mac", "alarm-play", "alarm-stop", "alarm-invalid",
                                       "locate", "empty", "consumable", "move", "pan-step", "erase", "delete-all", "delete-rule", "rules-enable", "cloud", "refused",
                                       "unanswered", "unknown-time", "join-unanswered", "scan-undecodable", "scan-paged", "scan-refused",
                                       "on-child", "smart", "cam", "iot")] + \
    [f"pair:{k}" for k in ("paired", "late", "not-added", "nothing", "unpaired", "unpair-feature", "refused", "pair-feature", "smart", "cam")] + \
    [f"firmware:{k}" for k in ("checked", "check-failed", "not-checked", "none-new", "no-cloud", "updated", "device-error", "unreachable",
                               "never-ends", "no-callback", "download-refused")] + \
    [f"ask:{k}" for k in ("time", "timezone", "firmwares", "pir", "details", "light-state", "behaviors", "turn-on", "sysinfo", "daystat",
                          "monthstat", "triggered", "not-triggered", "refused", "unanswered", "on-child", "repeated")] + \
    [f"urls:{k}" for k in ("quoted", "from-config", "from-hash", "no-credentials", "hub-child", "sd")]

TEXTS = ["home", "Mön Wläñ", "a b", "p@ss:wörd/?#[]&=+%20", "日本", "'\"\\", "x" * 32, "tab\tnew\n"]


def b64(x):
    return base64.b64encode(x if isinstance(x, bytes) else x.encode()).decode()


def ops_for(case, w, d):
    """(name, call, commands the device has to execute, effect) for one device of the world."""
    rng = case.rng
    iot = w.kind == "iot"
    out = []
    child = d is not w.dev
    if iot:
        did = (d.child_id,) if child else None
    else:
        did = d.device_id if child else None
    M = d.modules

    def add(name, call, want, effect=None, weight=1, invalid=None, lone=None):
        out.extend([(name, call, [(did, *x) for x in want], effect, invalid, lone)] * weight)

    n = rng.choice([0, 1, 5, 60])
    delay = rng.choice([{}, {"delay": n}])
    add("reboot", lambda: d.reboot(**delay), [("system.reboot" if iot else "device_reboot", {"delay": delay.get("delay", 1)})])
    if "reboot" in d.features and not delay:
        add("reboot", lambda: d.features["reboot"].set_value(None), [("system.reboot" if iot else "device_reboot", {"delay": 1})])
    add("reset", d.factory_reset, [("system.reset", ANY) if iot else ("device_reset", None)])
    ssid, pw = rng.choice(TEXTS), rng.choice(TEXTS)
    if iot and not child:
        kt = rng.choice(["3", "2", "0"])
        target = w.wifi
        want = [(target + ".set_stainfo", {"ssid": ssid, "password": pw, "key_type": int(kt)})]
        args = (ssid, pw, kt) if rng.random() < 0.7 or kt != "3" else (ssid, pw)
        add("wifi_join", lambda: d.wifi_join(*args), want, weight=2)
        mac = ":".join(f"{rng.randrange(256):02X}" for _ in range(6))
        add("set_mac", lambda: d.set_mac(mac), [("system.set_mac_addr", {"mac": mac})], effect=lambda: d.mac == mac)
    elif not iot:
        kt = rng.choice(["wpa2_psk", "wpa3_sae", "none"])
        time = (d.internal_state or {}).get("get_device_time")
        creds = w.dev.config.credentials
        account = {"username": b64(creds.username), "password": b64(creds.password)}
        if isinstance(time, dict):
            args = (ssid, pw, kt) if rng.random() < 0.7 or kt != "wpa2_psk" else (ssid, pw)
            add("wifi_join", lambda: d.wifi_join(*args),
                [("set_qs_info", {"account": account, "wireless": {"key_type": kt, "password": b64(pw), "ssid": b64(ssid)}, "time": time})], weight=2,
                lone=True)
            add("credentials", lambda: d.update_credentials(ssid, pw),
                [("set_qs_info", {"account": {"username": b64(ssid), "password": b64(pw)}, "time": time})])
        else:
            bad = rng.choice([lambda: d.wifi_join(ssid, pw), lambda: d.update_credentials(ssid, pw)])
            add("unknown-time", bad, [], invalid=kasa.KasaException)
    al = M.get(Module.Alarm)
    if al is not None:
        cam = type(al).__module__.startswith("kasa.smartcam")
        kw, p = {}, {}
        if rng.random() < 0.5:
            kw["duration"] = rng.choice([0, 1, 6000, 77] if cam else [1, 600, 77])
            p["duration" if cam else "alarm_duration"] = kw["duration"]
        if rng.random() < 0.5:
            v = rng.choice([0, 1, 3] + ([10] if cam else []))
            names = ["mute", "low", "normal", "high"]
            kw["volume"] = v if cam or rng.random() < 0.5 else names[v]
            p["volume" if cam else "alarm_volume"] = str(v) if cam else names[v]
        if rng.random() < 0.5:
            kw["sound"] = rng.choice(al.alarm_sounds)
            p["siren_type" if cam else "alarm_type"] = kw["sound"]
        if cam:
            want = ([("setSirenConfig", {"siren": p})] if p else []) + [("setSirenStatus", {"siren": {"status": "on"}})]
            stop = [("setSirenStatus", {"siren": {"status": "off"}})]
        else:
            want, stop = [("play_alarm", p)], [("stop_alarm", NONE)]
        add("alarm-play", lambda: al.play(**kw), want, effect=lambda: al.active is True, weight=2)
        add("alarm-stop", al.stop, stop, effect=lambda: al.active is False)
        if "test_alarm" in d.features:
            add("alarm-play", lambda: d.features["test_alarm"].set_value(None), [("setSirenStatus", {"siren": {"status": "on"}})] if cam else [("play_alarm", NONE)],
                effect=lambda: al.active is True)
            add("alarm-stop", lambda: d.features["stop_alarm"].set_value(None), stop, effect=lambda: al.active is False)
        bad = dict(kw)
        bad.update(rng.choice([{"duration": 6001 if cam else 601}, {"duration": -1}, {"volume": 11 if cam else 4}, {"volume": -1}, {"sound": "Nöise"}] +
                              ([] if cam else [{"duration": 0}, {"volume": "loud"}])))
        add("alarm-invalid", lambda: al.play(**bad), [], invalid=ValueError)
    if (m := M.get(Module.Speaker)) is not None:
        add("locate", rng.choice([m.locate, lambda: d.features["locate"].set_value(None)]), [("playSelectAudio", {"audio_type": "seek_me"})], weight=2)
    if (m := M.get(Module.Dustbin)) is not None:
        add("empty", rng.choice([m.start_emptying, lambda: d.features["dustbin_empty"].set_value(None)]),
            [("setSwitchDustCollection", {"switch_dust_collection": True})], weight=2)
    if (mco := M.get(Module.Consumables)) is not None and mco.consumables:
        cid = rng.choice(list(mco.consumables))
        key = mco.consumables[cid]._data_key.removesuffix("_time")
        others = {k: v.used for k, v in mco.consumables.items() if k != cid}
        call = rng.choice([lambda: mco.reset_consumable(cid), lambda: d.features[cid + "_reset"].set_value(None)])
        add("consumable", call, [("resetConsumablesTime", {"reset_list": [key]})], weight=3,
            effect=lambda: mco.consumables[cid].used == datetime.timedelta(0) and all(mco.consumables[k].used == v for k, v in others.items()))
    if (mpt := M.get("PanTilt")) is not None:
        x, y = rng.randrange(-360, 361), rng.randrange(-90, 91)
        kind = rng.choice(["move", "pan", "tilt", "feature", "feature", "feature"])

        def cmd(x, y):
            return [("do_motor", {"move": {"x_coord": str(x), "y_coord": str(y)}})]

        if kind == "move":
            add("move", lambda: mpt.move(pan=x, tilt=y), cmd(x, y), weight=2)
        elif kind == "pan":
            add("move", lambda: mpt.pan(x), cmd(x, 0), weight=2)
        elif kind == "tilt":
            add("move", lambda: mpt.tilt(y), cmd(0, y), weight=2)
        else:
            f = rng.choice(["pan_right", "pan_left", "tilt_up", "tilt_down"])
            ps, ts = w.steps.get(did, (30, 10))
            add("pan-step", lambda: d.features[f].set_value(None),
                cmd(*{"pan_right": (-ps, 0), "pan_left": (ps, 0), "tilt_up": (0, ts), "tilt_down": (0, -ts)}[f]), weight=2)
            step, which = rng.randrange(1, 90), rng.choice(["pan_step", "tilt_step"])

            async def set_step():
                await d.features[which].set_value(step)
                w.steps[did] = (step, ts) if which == "pan_step" else (ps, step)

            add("pan-step", set_step, [], effect=lambda: d.features[which].value == step, lone=False)
    if iot:
        for name in (Module.IotUsage, Module.Energy):
            if (m := M.get(name)) is not None and not (name is Module.Energy and (not hasattr(m, "erase_stats") or type(m).__name__ == "StripEmeter")):
                def empty(m=m, key=m._module):
                    return not (m.data.get("get_daystat") or {}).get("day_list") and not (m.data.get("get_monthstat") or {}).get("month_list")
                add("erase", m.erase_stats, [(f"{m._module}.{'erase_runtime_stat' if name is Module.IotUsage else 'erase_emeter_stat'}", ANY)], effect=empty)
        for name in (Module.IotSchedule, Module.IotAntitheft):
            if (m := M.get(name)) is not None and isinstance(w.model.info.get(m._module), dict) and not child and not w.model.sysinfo.get("children"):
                add("delete-all", m.delete_all_rules, [(f"{m._module}.delete_all_rules", ANY)], effect=lambda m=m: m.rules == [])
                on = rng.random() < 0.5
                stored = lambda m=m: w.model.info[m._module]["get_rules"]  # noqa: E731
                add("rules-enable", lambda m=m, on=on: m.set_enabled(on), [(f"{m._module}.set_overall_enable", {"enable": on})],
                    effect=lambda stored=stored, on=on: bool(stored().get("enable")) is on)
                if m.rules:
                    r = rng.choice(m.rules)
                    left = [x.id for x in m.rules if x.id != r.id]
                    add("delete-rule", lambda m=m, r=r: m.delete_rule(r), [(f"{m._module}.delete_rule", {"id": r.id})], weight=3,
                        effect=lambda m=m, left=left, stored=stored: [x.id for x in m.rules] == left == [x["id"] for x in stored()["rule_list"]])
        if (mcl := M.get(Module.IotCloud)) is not None and not child:
            u, p = rng.choice(TEXTS), rng.choice(TEXTS)
            for call, method, params in ((lambda: mcl.connect(u, p), "bind", {"username": u, "password": p}), (mcl.disconnect, "unbind", ANY),
                                         (lambda: mcl.set_server(u), "set_server_url", {"server": u})):
                add("cloud", call, [(f"{mcl._module}.{method}", params)])
    return out


class _Any:
    def __repr__(self):
        return "*"


ANY = NONE = _Any()          # no parameters


def same(got, want):
    return len(got) == len(want) and all(
        tuple(g[:2]) == tuple(v[:2]) and (not g[2] if v[2] in (ANY, NONE) or not v[2] else refs.canon(g[2]) == refs.canon(v[2])) for g, v in zip(got, want))


def f_act(case):
    rng = case.rng
    clock.install()
    w = World(case, rng.choices(["iot", "smart", "cam"], [4, 5, 3])[0])
    model = w.model
    w.steps = {}
    w.wifi = rng.choice(["netif", "netif", "smartlife.iot.common.softaponboarding"])
    nets = []
    if w.kind == "iot":
        for k in ("netif", "smartlife.iot.common.softaponboarding"):
            model.info.pop(k, None)
        model.info[w.wifi] = {}
        plain = model.execute

        def execute(module, method, params, child_ids):
            if method in ("set_stainfo", "set_server_url"):
                return None
            if method == "get_scaninfo":
                return {"ap_list": copy.deepcopy(nets), "version": 2}
            return plain(module, method, params, child_ids)

        model.execute = execute
    else:
        model.page = rng.choice([1, 2, 5, 10, 50])

    def networks():
        nets.clear()
        for i in range(rng.choice([0, 1, 3, 7, 12])):
            if w.kind == "iot":
                e = {"ssid": rng.choice(TEXTS), "key_type": rng.randrange(4)}
                if w.wifi != "netif" or rng.random() < 0.2:
                    e.update(cipher_type=rng.randrange(4), bssid=f"00:11:22:33:44:{i:02x}", channel=rng.randrange(1, 14), rssi=-rng.randrange(90))
            else:
                raw = rng.choice([t.encode() for t in TEXTS] + [b"", b"caf\xe9", b"\xff\xfe\x00home"])
                e = {"ssid": b64(raw), "key_type": rng.choice(["wpa2_psk", "none"]), "signal_level": rng.randrange(4)}
                if rng.random() < 0.8:
                    e.update(bssid=f"001122{i:06x}", channel=rng.randrange(1, 14), cipher_type=rng.choice([0, 2]))
            nets.append(e)
        if w.kind != "iot":
            model.info["get_wireless_scan_info"] = {"ap_list": copy.deepcopy(nets), "start_index": 0, "sum": len(nets), "wep_supported": False}

    def scan_compare(got):
        case.expect(len(got) == len(nets), "networks-lost", f"{len(got)} of {len(nets)} networks")
        if len(nets) > 1 and w.kind != "iot" and model.page < len(nets):
            case.covered("scan-paged")
        for g, e in zip(got, nets):
            if w.kind == "iot":
                want = e["ssid"]
            else:
                raw = base64.b64decode(e["ssid"])
                try:
                    want = raw.decode()
                except UnicodeDecodeError:
                    want = None
                    case.covered("scan-undecodable")
            if want is not None:
                case.expect(g.ssid == want, "network-changed", f"{g.ssid!r} of {want!r}")
            for k in ("key_type", "cipher_type", "bssid", "channel", "signal_level", "rssi"):
                case.expect(getattr(g, k) == e.get(k), "network-changed", f"{k} {getattr(g, k)!r} of {e}")

    async def main(loop):
        await w.dev.update()
        case.covered(w.kind)
        done = 0
        for _ in range(rng.choice([4, 8, 14])):
            d = rng.choice(w.devs()) if rng.random() < 0.4 else w.dev
            if rng.random() < 0.15:
                networks()
                n0 = len(model.log)
                w.refuse = None
                refuse = rng.random() < 0.25
                faults = []
                if refuse:
                    keep = model.fault
                    if w.kind == "iot":
                        model.fault = lambda *a: faults.append(a[1]) or (-3 if a[1] == "get_scaninfo" else None)
                    else:
                        model.fault = lambda m, method, p: -1008 if method == "get_wireless_scan_info" else None
                try:
                    got = await w.dev.wifi_scan()
                except kasa.KasaException:
                    case.expect(refuse or w.kind == "cam", "scan-failed", "wifi_scan of an answering device failed")
                    case.covered("scan-refused")
                else:
                    if w.kind == "cam":
                        nets[:] = [e for e in nets]
                    case.expect(not refuse, "scan-made-up", f"{got} though the device refused to scan")
                    if not refuse:
                        scan_compare(got)
                        case.covered("wifi_scan")
                finally:
                    if refuse:
                        model.fault = keep
                case.expect(not [e for e in w.log_since(n0) if not e[3]], "extra-command", f"a scan executed {w.log_since(n0)}")
                continue
            ops = ops_for(case, w, d)
            # rarely met commands first
            names = sorted({o[0] for o in ops})
            pick = rng.choice(names)
            name, call, want, effect, invalid, lone = rng.choice([o for o in ops if o[0] == pick])
            n0 = len(model.log)
            before = model.snapshot()
            tag = f"{w.name} {name}"
            mode = rng.choices(["ok", "refused", "unanswered"], [7, 2, 1])[0]
            if invalid or not want:
                mode = "ok"
            if mode == "refused":
                w.refuse = -3 if w.kind == "iot" else -40209 if w.kind == "cam" else -1008
            elif mode == "unanswered":
                n_req = len(w.tr.requests)
                w.tr.fail = lambda n, r: kasa.TimeoutError("no answer")
            exc = None
            try:
                await call()
            except kasa.KasaException as ex:
                exc = ex
            except ValueError as ex:
                exc = ex
                case.expect(invalid is ValueError, "undocumented-exception", f"{tag}: {ex!r}")
            except Exception as ex:  # noqa: BLE001
                exc = ex
                case.violate("undocumented-exception", f"{tag}: {ex!r}")
            finally:
                w.refuse, w.tr.fail = None, None
            log = w.log_since(n0)
            ran = [e for e in log if not e[3]]
            if mode == "refused":
                case.expect(isinstance(exc, kasa.KasaException), "refusal-lost", f"{tag}: {exc!r} although refused")
                if w.kind != "iot" and isinstance(exc, kasa.DeviceError):
                    case.expect(exc.error_code == (-40209 if w.kind == "cam" else -1008), "wrong-code", f"{tag}: {exc!r}")
                case.expect(not ran and refs.canon(model.snapshot()) == refs.canon(before), "refused-but-changed", f"{tag}: {ran}")
                case.expect(all(any(same([e], [v]) for v in want) for e in log) or name == "wifi_join" and w.kind == "iot",
                            "wrong-command", f"{tag}: {log} for {want}")
                case.covered("refused")
            elif mode == "unanswered":
                if name == "wifi_join" and lone:
                    case.expect(exc is None, "join-needs-answer", f"{tag}: {exc!r}")
                    case.expect(len(w.tr.requests) == n_req + 1, "join-repeated", f"{tag}: {len(w.tr.requests) - n_req} requests")
                    case.covered("join-unanswered")
                else:
                    case.expect(isinstance(exc, kasa.KasaException), "failure-lost", f"{tag}: {exc!r} although nothing was answered")
                case.covered("unanswered")
            elif invalid:
                case.expect(isinstance(exc, invalid), "invalid-accepted", f"{tag}: {exc!r}")
                case.expect(not log, "invalid-sent", f"{tag}: {log}")
                case.covered(name)
            else:
                case.expect(exc is None, "command-failed", f"{tag}: {exc!r}")
                miss = [e for e in log if e[3] == -1 and not e[2]]       # the module asked first is not there
                case.expect(same(ran, want) and (not set(map(str, log)) - set(map(str, ran + miss))), "wrong-command", f"{tag}: device executed {log}, asked for {want}")
                case.covered(name)
                done += 1
                if d is not w.dev:
                    case.covered("on-child")
                if effect is not None:
                    await w.dev.update()
                    if d is not w.dev and w.kind != "iot":
                        await d.update()
                    try:
                        case.expect(effect(), "no-effect", f"{tag} {ran}")
                    except Exception as ex:  # noqa: BLE001
                        case.violate("no-effect", f"{tag}: {ex!r}")
            case.event(name, mode)
            if case.violations:
                return
        await w.dev.update()
        case.sample = (w.name, done)
        if done:
            case.nontrivial((w.name, case.index))

    with clock.at(datetime.datetime(2024, 3, 9, 12, 0, 0).astimezone()):
        finish(case, vrun(main, max_steps=3_000_000))


def f_pair(case):
    """Pairing and unpairing children of hubs."""
    rng = case.rng
    smart = rng.random() < 0.6
    if smart:
        name = rng.choice([n for n in sims.hub_names() if "child_quick_setup" in json.dumps(sims.load("smart", n)["component_nego"])])
        model = sims.smart_model(name, rng, children=rng.sample(sims.names("smart/child"), rng.randrange(3)))
        dev, tr = sims.smart_device(model)
        begin, scan, addm = "begin_scanning_child_device", "get_scan_child_device_list", "add_child_device_list"
    else:
        name = rng.choice([n for n in sims.names("smartcam") if n.startswith("H200")])
        model = sims.cam_model(name, rng, children=rng.sample(sims.names("smart/child"), rng.randrange(2)) +
                               rng.sample(sims.names("smartcam/child"), rng.randrange(2)))
        dev, tr = sims.cam_device(model)
        begin, scan, addm = "startScanChildDevice", "getScanChildDeviceList", "addScanChildDeviceList"
    case.covered("smart" if smart else "cam")
    near: dict = {}
    state = {"begun": None, "found": [], "refuse": None}
    plain = model.execute

    def strip(p):
        return p if smart else p["childControl"]

    async def main(loop):
        def execute(method, params):
            if state["refuse"] == method:
                return -1008 if smart else -40209
            if method == begin:
                state["begun"] = loop.time()
                return None if smart else {}
            if method == scan:
                t = loop.time() - state["begun"] if state["begun"] is not None else -1
                state["found"] = [copy.deepcopy(v["entry"]) for v in near.values() if v["after"] <= t]
                return {"child_device_list": copy.deepcopy(state["found"]), "scan_status": "scanning", **({} if smart else {"scan_wait_time": 55})}
            if method == addm:
                for e in strip(params)["child_device_list"]:
                    x = near.get(e["device_id"])
                    if x is None or x["entry"] != e:
                        return -1008 if smart else -40209
                for e in strip(params)["child_device_list"]:
                    x = near[e["device_id"]]
                    if x["ok"]:
                        del near[e["device_id"]]
                        model.add_child(*((sims.load(x["kind"], x["name"]), e["device_id"]) + ((x["kind"] == "smartcam/child",) if not smart else ())))
                return None if smart else {}
            return plain(method, params)

        model.execute = execute
        await dev.update()
        m = dev.modules.get(Module.ChildSetup)
        if m is None:
            return
        case.nontrivial((name, case.index))
        for _ in range(rng.choice([2, 4, 6])):
            ids = [c.device_id for c in dev.children]
            case.expect(sorted(ids) == sorted(model.children), "children-differ", f"{name}: {ids}")
            op = rng.choice(["pair", "pair", "unpair", "refused"])
            n0 = len(model.log)
            state["begun"] = None
            objs = {c.device_id: c for c in dev.children}
            if op in ("pair", "refused"):
                timeout = rng.choice([0, 1, 5, 10, 30])
                use_feature = rng.random() < 0.2
                if use_feature:
                    timeout = 10
                near.clear()
                for _ in range(rng.choice([0, 1, 2, 4])):
                    kind = "smart/child" if smart or rng.random() < 0.6 else "smartcam/child"
                    cname = rng.choice(sims.names(kind))
                    info = sims.load(kind, cname)
                    cid = sims.hexid(rng)
                    entry = info["get_device_info"] if kind == "smart/child" else info["child_info_from_parent"]
                    near[cid] = {"kind": kind, "name": cname, "after": rng.choice([0, 0, 0, 0.5, 4, 9.5, 31, 99]), "ok": rng.random() < 0.85,
                                 "entry": {"device_id": cid, "category": entry["category"], "device_model": entry.get("model") or entry["device_model"],
                                           "name": b64(f"New {cid[:4]}")}}
                if op == "refused":
                    state["refuse"] = rng.choice([begin, scan, addm])
                there = set(model.children)
                exc = got = None
                t0 = loop.time()
                try:
                    got = await (dev.features["pair"].set_value(None) if use_feature else m.pair() if timeout == 10 else m.pair(timeout=timeout))
                except kasa.KasaException as ex:
                    exc = ex
                refused, state["refuse"] = state["refuse"], None
                if refused and (refused != addm or state["found"]):
                    case.expect(exc is not None, "refusal-lost", f"{name}: pairing with {refused} refused returned {got}")
                    case.expect(set(model.children) == there, "paired-though-refused", str(refused))
                    case.covered("refused")
                    state["found"] = []
                    continue
                case.expect(exc is None, "pair-failed", f"{name}: {exc!r}")
                if exc:
                    return
                case.expect(loop.time() - t0 >= timeout, "scan-too-short", f"{loop.time() - t0} s of {timeout}")
                cmds = [e for e in model.log[n0:] if e[1] in (begin, scan, addm)]
                due = [k for k, v in [*near.items()] if v["after"] <= timeout and v["ok"]]
                new = set(model.children) - there
                case.expect(not due, "not-paired", f"{name}: in pairing mode but not added: {due}; {[e[1] for e in cmds]}")
                case.expect([e[1] for e in cmds] == [begin, scan] + ([addm] if state["found"] else []), "wrong-command", str([e[1] for e in cmds]))
                if not use_feature:
                    case.expect(sorted(e["device_id"] for e in got) == sorted(new) and all(e in state["found"] for e in got),
                                "wrong-pair-result", f"{name}: {got}, added {new}")
                else:
                    case.covered("pair-feature")
                if len(new) != len(state["found"]):
                    case.covered("not-added")
                case.covered("paired" if new else "nothing")
                if any(v["after"] > timeout for v in near.values()):
                    case.covered("late")
                kids = {c.device_id: c for c in dev.children}
                case.expect(set(kids) == set(model.children), "children-differ", f"{name}: after pairing")
                case.expect(all(kids.get(k) is v for k, v in objs.items()), "identity-lost", "siblings were replaced")
                state["found"] = []
            elif ids:
                cid = rng.choice(ids)
                there = set(model.children)
                c = dev.get_child_device(cid)
                if rng.random() < 0.4 and "unpair" in c.features:
                    await c.features["unpair"].set_value(None)
                    case.covered("unpair-feature")
                else:
                    await m.unpair(cid)
                case.expect(there - set(model.children) == {cid}, "wrong-child-removed", f"{name}: {there - set(model.children)} for {cid}")
                kids = {c.device_id: c for c in dev.children}
                case.expect(set(kids) == set(model.children), "children-differ", f"{name}: after unpairing")
                case.expect(all(v is objs[k] for k, v in kids.items()), "identity-lost", "siblings were replaced")
                case.covered("unpaired")
            case.event(op, len(dev.children))
            if case.violations:
                return
        case.sample = (name, len(dev.children))

    finish(case, vrun(main, max_steps=3_000_000))


def f_firmware(case):
    """Checking for and installing firmware."""
    rng = case.rng
    name = rng.choice([n for n in sims.names("smart") if '"firmware"' in json.dumps(sims.load("smart", n)["component_nego"])])
    model = sims.smart_model(name, rng)
    dev, tr = sims.smart_device(model)
    cloud = rng.random() < 0.8
    if any(c == "cloud_connect" for c in model.components):
        model.info["get_connect_cloud_state"] = {"status": 0 if cloud else 1}
    else:
        cloud = False
    script = {"states": None, "told": [], "downloads": 0, "check": None}
    plain = model.execute

    def execute(method, params):
        if method == "get_latest_fw":
            return copy.deepcopy(script["check"])
        if method == "fw_download":
            if script["refuse"]:
                return -1008
            script["downloads"] += 1
            return None
        if method == "get_fw_download_state":
            st = script["states"]
            if isinstance(st, list):
                x = st.pop(0) if st else end
            else:
                x = {"status": 2, "download_progress": 50, "reboot_time": 5, "upgrade_time": 5, "auto_upgrade": False}
            if isinstance(x, int):
                return x
            if x["status"] == 0:
                model.sysinfo["fw_ver"] = script["new"]
            script["told"].append(x)
            return copy.deepcopy(x)
        return plain(method, params)

    model.execute = execute
    end = {"status": 0, "download_progress": 100, "reboot_time": 5, "upgrade_time": 5, "auto_upgrade": False}

    def state(status):
        return {"status": status, "download_progress": rng.randrange(101), "reboot_time": rng.randrange(1, 9), "upgrade_time": rng.randrange(1, 20),
                "auto_upgrade": rng.random() < 0.5}

    async def main(loop):
        await dev.update()
        m = dev.modules[Module.Firmware]
        info = None
        case.nontrivial((name, case.index))
        for _ in range(rng.choice([2, 4, 6])):
            op = rng.choice(["check", "check", "update", "update", "refresh"])
            n0 = len(model.log)
            if op == "check":
                new = rng.random() < 0.7
                script["new"] = f"1.{rng.randrange(9)}.{rng.randrange(9)} Build 2401{rng.randrange(10, 31)} Rel.{rng.randrange(99999):06d}"
                fw = {"fw_size": rng.randrange(9999), "fw_ver": script["new"], "hw_id": "", "need_to_upgrade": new if rng.random() < 0.7 else not new, "oem_id": "00",
                      "release_date": rng.choice(["", "2024-02-29", "2023-12-01"]), "release_note": rng.choice(["", "fixes"]), "type": rng.choice([1, 2, 3]) if new else 0}
                if rng.random() < 0.2:
                    fw = {k: fw[k] for k in ("need_to_upgrade", "type")}
                script["check"] = -1008 if rng.random() < 0.2 else fw
                got = await (m.check_latest_firmware() if rng.random() < 0.8 else dev.features["check_latest_firmware"].set_value(None))
                if script["check"] == -1008:
                    case.expect(got is None, "made-up-firmware", f"{got} although the check failed")
                    info = None
                    case.covered("check-failed")
                else:
                    info = fw
                    date = fw.get("release_date")
                    g = m.firmware_update_info
                    case.expect(g is not None and (g.status, g.needs_upgrade, g.version, g.fw_size, g.release_notes, g.oem_id, g.release_date) ==
                                (fw["type"], fw["need_to_upgrade"], fw.get("fw_ver"), fw.get("fw_size"), fw.get("release_note"), fw.get("oem_id"),
                                 datetime.date.fromisoformat(date) if date else None), "wrong-firmware-info", f"{g} of {fw}")
                    case.covered("checked")
            elif op == "refresh":
                await dev.update()
            else:
                available = bool(info and info["type"] and cloud)
                script["told"], script["downloads"], script["refuse"] = [], 0, rng.random() < 0.12
                body = []
                for _ in range(rng.randrange(6)):
                    body += rng.choice([[state(2)], [state(2)], [state(3)], [state(1)], [-1008], [-1], ["down"]])
                last = [state(-rng.randrange(1, 9))] if rng.random() < 0.25 else [dict(end)]
                forever = rng.random() < 0.1
                down = [i for i, x in enumerate(body) if x == "down"]
                script["states"] = None if forever else [x for x in body if x != "down"] + last
                outage = {"left": 6 * len(down)}

                def fail(n, request):
                    if "get_fw_download_state" in request and outage["left"] and script["told"]:
                        outage["left"] -= 1
                        return kasa.exceptions._ConnectionError("rebooting")

                tr.fail = fail
                told = []

                async def progress(st):
                    told.append(st)

                cb = progress if rng.random() < 0.75 else None
                exc = res = None
                t0 = loop.time()
                try:
                    res = await (m.update(progress_cb=cb) if cb else m.update())
                except Exception as ex:  # noqa: BLE001
                    exc = ex
                tr.fail = None
                await asyncio.sleep(0.01)
                tag = f"{name}: update {exc!r}"
                if not available:
                    case.expect(isinstance(exc, kasa.KasaException), "update-without-firmware", tag)
                    case.expect(not [e for e in model.log[n0:]], "update-without-firmware", f"{tag}: {model.log[n0:]}")
                    case.covered("not-checked" if not info else "none-new" if not info["type"] else "no-cloud")
                    continue
                if script["refuse"]:
                    case.expect(isinstance(exc, kasa.KasaException) and not script["told"], "refusal-lost", tag)
                    case.covered("download-refused")
                    continue
                case.expect(script["downloads"] == 1, "wrong-command", f"{tag}: {script['downloads']} downloads")
                if forever:
                    case.expect(isinstance(exc, TimeoutError), "update-never-ends", tag)
                    case.expect(295 <= loop.time() - t0 <= 330, "update-never-ends", f"after {loop.time() - t0} s")
                    n1 = len(model.log)
                    await asyncio.sleep(20)
                    case.expect(len(model.log) == n1, "still-running", f"{tag}: {model.log[n1:][:2]}")
                    case.covered("never-ends")
                else:
                    case.expect(exc is None and res is not None and res.get("status") == last[0]["status"], "wrong-update-result", f"{tag}: {res}, device ended with {last}")
                    case.covered("device-error" if last[0]["status"] < 0 else "updated")
                    if down:
                        case.covered("unreachable")
                    case.expect(not script["states"], "ended-early", f"{tag}: {script['states']} not read")
                if cb:
                    case.expect([(s.status, s.progress, s.reboot_time, s.upgrade_time, s.auto_upgrade) for s in told] ==
                                [(s["status"], s["download_progress"], s["reboot_time"], s["upgrade_time"], s["auto_upgrade"]) for s in script["told"]],
                                "wrong-progress", f"{tag}: callback saw {told}, device told {script['told']}")
                else:
                    case.covered("no-callback")
                if not forever and last[0]["status"] == 0:
                    await dev.update()
                    case.expect(m.current_firmware == script["new"], "stale-firmware", f"{m.current_firmware} of {script['new']}")
            # what is reported follows the last check
            case.expect(m.latest_firmware == (info.get("fw_ver") if info else None), "wrong-firmware-info", f"latest {m.latest_firmware} of {info}")
            case.expect(m.update_available is (bool(info["type"]) if info and cloud else None), "wrong-firmware-info", f"available {m.update_available} of {info}")
            case.expect(dev.features["update_available"].value is m.update_available, "wrong-firmware-info", "feature")
            case.expect(m.current_firmware == model.sysinfo["fw_ver"] or op != "refresh", "stale-firmware", m.current_firmware)
            case.event(op)
            if case.violations:
                return
        case.sample = (name, op)

    finish(case, vrun(main, max_steps=3_000_000))


def f_urls(case):
    """Stream and onvif addresses of cameras."""
    rng = case.rng
    chars = "abcXYZ019 :@/?#[]!$&'()*+,;=%-._~\"\\äß日"

    def word(empty=0.1):
        return "" if rng.random() < empty else "".join(rng.choice(chars) for _ in range(rng.randrange(1, 14)))

    name = rng.choice(sims.names("smartcam"))
    kids = [rng.choice(sims.names("smartcam/child"))] if name.startswith("H200") else None
    model = sims.cam_model(name, rng, children=kids)
    own = rng.choice(["plain", "hash", "badhash", "none"])
    host = rng.choice(["127.0.0.9", "10.0.0.200", "camera.local"])
    mine = Credentials(word(), word())
    cfg = {"plain": lambda: DeviceConfig(host, credentials=mine), "none": lambda: DeviceConfig(host),
           "hash": lambda: DeviceConfig(host, credentials_hash=b64(json.dumps({"un": mine.username, "pwd": mine.password}))),
           "badhash": lambda: DeviceConfig(host, credentials_hash=rng.choice(["bm9qc29u", "***", b64("{}")]))}[own]()
    dev, tr = sims.cam_device(model, cfg)

    async def main(loop):
        await dev.update()
        for d in [dev, *dev.children]:
            m = d.modules.get(Module.Camera)
            if m is None:
                continue
            case.nontrivial((name, case.index))
            for _ in range(4):
                given = rng.choice([None, Credentials(word(), word()), Credentials("foo", word(0))])
                res = rng.choice([None, StreamResolution.HD, StreamResolution.SD])
                kw = {} if res is None else {"stream_resolution": res}
                url = m.stream_rtsp_url(given, **kw) if given is not None else m.stream_rtsp_url(**kw)
                c = given or (mine if own in ("plain", "hash") else None)
                tag = f"{name} {c} {own}: {url}"
                if d is not dev:
                    case.expect(url is None and m.onvif_url() is None, "address-of-hub-child", tag)
                    case.covered("hub-child")
                    continue
                case.expect(m.onvif_url() == f"http://{host}:2020/onvif/device_service", "wrong-onvif", str(m.onvif_url()))
                if given is None and own == "plain" and not (mine.username or mine.password):
                    c = None
                if c is None or not c.username or not c.password:
                    case.expect(url is None, "address-without-credentials", tag)
                    case.covered("no-credentials")
                    continue
                if not case.expect(url is not None, "no-address", tag):
                    continue
                try:
                    u = urllib.parse.urlsplit(url)
                    u.hostname, u.port  # noqa: B018
                except ValueError as ex:
                    case.violate("wrong-address", f"{tag}: {ex}")
                    continue
                user, _, rest = u.netloc.rpartition("@")[0].partition(":")
                case.expect((urllib.parse.unquote(user), urllib.parse.unquote(rest)) == (c.username, c.password), "wrong-credentials", tag)
                case.expect((u.scheme, u.hostname, u.port, u.path, u.query, u.fragment) ==
                            ("rtsp", host, 554, "/stream2" if res is StreamResolution.SD else "/stream1", "", ""), "wrong-address", tag)
                case.expect(all(x.isascii() and x not in ' "<>\\^`{|}' for x in url), "unquoted", tag)
                case.covered("quoted")
                if given is None:
                    case.covered("from-config" if own == "plain" else "from-hash")
                if res is StreamResolution.SD:
                    case.covered("sd")
                case.count("urls")
        case.sample = (name, own)

    finish(case, vrun(main, max_steps=2_000_000))


def f_ask(case):
    """Questions which are put to an IOT device at once: it is asked once, for exactly that, and the answer is what it says now."""
    rng = case.rng
    clock.install()
    w = World(case, "iot")
    if rng.random() < 0.35:
        want = rng.choice(["PIR", "LAS", "bulb", "dimmer"])
        names = [n for n in sims.names("iot") if {"PIR": n.startswith("ES20"), "LAS": n.startswith("ES20"), "bulb": n.startswith(("KL", "LB")),
                                                  "dimmer": n.startswith(("HS220", "KS2", "ES20"))}[want]]
        if names:
            w.name = rng.choice(names)
            w.model = sims.iot_model(w.name)
            sims.iot_enrich(w.model, rng, clock.Clock.now())
            w.dev, w.tr = sims.iot_device(w.model)
            w.model.fault = w._iot_fault
    model = w.model
    plain = model.execute
    extra = {}          # (module, method) -> present answer, for questions the recordings do not answer

    def execute(module, method, params, child_ids):
        if (module, method) in extra:
            return copy.deepcopy(extra[module, method])
        return plain(module, method, params, child_ids)

    model.execute = execute

    def store(module, child):
        return model.children_extra[child.child_id][module] if child is not None else model.info[module]

    def questions(d):
        child = d if d is not w.dev else None
        M = d.modules
        out = []

        def add(name, call, module, method, params, answer, check=None, weight=1):
            out.extend([(name, call, module, method, params, answer, check)] * weight)

        add("sysinfo", d.get_sys_info, "system", "get_sysinfo", None, lambda: copy.deepcopy(model.sysinfo))
        for key, has in ((Module.IotUsage, True), (Module.Energy, True)):
            m = M.get(key)
            if m is None or not hasattr(m, "get_raw_daystat") or not hasattr(type(m), "query_for_command") or m._module not in (
                    model.children_extra.get(getattr(d, "child_id", None), {}) if child is not None else model.info):
                continue
            if child is None and model.sysinfo.get("children"):
                continue
            rec = store(m._module, child)
            if not isinstance(rec, dict) or "get_daystat" not in rec or not rec["get_daystat"].get("day_list") or not rec["get_monthstat"].get("month_list"):
                continue
            e = rng.choice(rec["get_daystat"]["day_list"])
            y, mo = (e["year"], e["month"]) if rng.random() < 0.7 else (e["year"] - rng.randrange(3), rng.randrange(1, 13))
            e = rng.choice(rec["get_monthstat"]["month_list"])
            y2 = e["year"] - rng.choice([0, 0, 1])

            def touch(m=m):
                for k in ("get_daystat", "get_monthstat"):
                    for x in next(v for n, v in store(m._module, child)[k].items() if n.endswith("_list")):
                        for n in x:
                            if n not in ("year", "month", "day"):
                                x[n] = rng.randrange(1000)

            def days(m=m, y=y, mo=mo):
                return {"day_list": [x for x in store(m._module, child)["get_daystat"]["day_list"] if (x["year"], x["month"]) == (y, mo)]}

            def months(m=m, y2=y2):
                return {"month_list": [x for x in store(m._module, child)["get_monthstat"]["month_list"] if x["year"] == y2]}

            def ask_days(m=m, y=y, mo=mo):
                touch(m)
                return m.get_raw_daystat(year=y, month=mo)

            def ask_months(m=m, y2=y2):
                touch(m)
                return m.get_raw_monthstat(year=y2)

            add("daystat", ask_days, m._module, "get_daystat", {"year": y, "month": mo}, days)
            add("monthstat", ask_months, m._module, "get_monthstat", {"year": y2}, months)
        if child is not None:
            return out
        m = M.get(Module.Time)
        if m is not None and isinstance(model.info.get(m._module), dict):
            t = datetime.datetime(rng.choice([1970, 2024, 2030]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))

            def ask_time():
                model.info[m._module]["get_time"] = {"year": t.year, "month": t.month, "mday": t.day, "hour": t.hour, "min": t.minute, "sec": t.second}
                return m.get_time()

            def right(got):
                return got is not None and got.replace(tzinfo=None) == t and got.tzinfo is not None and \
                    got.utcoffset() == t.replace(tzinfo=m.timezone).utcoffset()

            tz = rng.randrange(110)

            def ask_zone():
                model.info[m._module]["get_timezone"] = {"index": tz}
                return m.get_timezone()

            add("time", ask_time, m._module, "get_time", None, None, right, 2)
            add("timezone", ask_zone, m._module, "get_timezone", None, lambda: {"index": tz})
        m2 = M.get(Module.IotCloud)
        if m2 is not None and isinstance(model.info.get(m2._module), dict):
            fw = {"fw_list": [{"fwVer": f"1.{i}.{rng.randrange(100)}", "fwUrl": rng.choice(TEXTS)} for i in range(rng.randrange(3))]}
            ask = lambda: (extra.__setitem__((m2._module, "get_intl_fw_list"), fw), m2.get_available_firmwares())[1]  # noqa: E731
            add("firmwares", ask, m2._module, "get_intl_fw_list", None, lambda: fw)
        m3 = M.get(Module.IotMotion)
        if m3 is not None and isinstance(model.info.get(m3._module), dict) and model.info[m3._module].get("get_config"):
            v = rng.choice([0, 4095, rng.randrange(4096), rng.randrange(1500, 2600)])
            cfg = model.info[m3._module]["get_config"]
            lo, hi = int(cfg["min_adc"]), int(cfg["max_adc"])
            mid = abs(hi - lo) // 2

            def ask_pir():
                model.info[m3._module]["get_adc_value"] = {"value": v}
                return m3.get_pir_state()

            def right_pir(got):
                off = mid - v
                share = 100 * off / (mid - lo if off < 0 else hi - mid)
                on = bool(cfg["enable"]) and abs(share) > 100 - int(cfg["array"][cfg["trigger_index"]])
                case.covered("triggered" if on else "not-triggered")
                return got.adc_value == v and got.pir_value == off and abs(got.pir_percent - share) < 1e-6 and got.pir_triggered is on

            add("pir", ask_pir, m3._module, "get_adc_value", None, None, right_pir, 6)
        if hasattr(w.dev, "get_light_details"):
            lm = model.light_module
            det = {"lamp_beam_angle": rng.randrange(360), "min_voltage": 110, "max_voltage": 120 + rng.randrange(9), "wattage": rng.randrange(20),
                   "incandescent_equivalent": 60, "max_lumens": rng.randrange(2000), "color_rendering_index": 80}
            ask = lambda: (extra.__setitem__((lm, "get_light_details"), det), w.dev.get_light_details())[1]  # noqa: E731
            add("details", ask, lm, "get_light_details", None, lambda: det)

            def ask_state():
                st = model.sysinfo["light_state"]
                for x in (st, st.get("dft_on_state") or {}):
                    if "brightness" in x:
                        x["brightness"] = rng.randrange(1, 101)
                return w.dev.get_light_state()

            add("light-state", ask_state, lm, "get_light_state", None, lambda: copy.deepcopy(model.sysinfo["light_state"]))

            def mode(off):
                k = rng.choice(["last_status", "customize_preset"] + (["circadian"] if off else []))
                return {"mode": k, **({"index": rng.randrange(4)} if k == "customize_preset" else {})}

            beh = {"hard_on": mode(True), "soft_on": mode(False)}
            ask = lambda: (extra.__setitem__((lm, "get_default_behavior"), beh), w.dev.get_turn_on_behavior())[1]  # noqa: E731

            def right_turn(got):
                for side, part in (("hard", got.hard), ("soft", got.soft)):
                    if part.mode.value != beh[side + "_on"]["mode"] or part.preset != beh[side + "_on"].get("index"):
                        return False
                return True

            add("turn-on", ask, lm, "get_default_behavior", None, None, right_turn)
        if hasattr(w.dev, "get_behaviors") and isinstance(model.info.get("smartlife.iot.dimmer"), dict):
            beh2 = {k: {"mode": rng.choice(["none", "last_status", "gentle_on_off", "instant_on_off"])} for k in ("double_click", "hard_on", "soft_on", "long_press")}
            ask = lambda: (extra.__setitem__(("smartlife.iot.dimmer", "get_default_behavior"), beh2), w.dev.get_behaviors())[1]  # noqa: E731
            add("behaviors", ask, "smartlife.iot.dimmer", "get_default_behavior", None, lambda: beh2, None, 2)
        return out

    async def main(loop):
        await w.dev.update()
        for _ in range(rng.choice([3, 6, 10])):
            d = rng.choice(w.devs()) if rng.random() < 0.5 else w.dev
            qs = questions(d)
            pick = rng.choice(sorted({q[0] for q in qs}))
            name, call, module, method, params, answer, check = rng.choice([q for q in qs if q[0] == pick])
            tag = f"{w.name} {name}"
            key = (d.child_id,) if d is not w.dev else None
            mode = rng.choices(["ok", "refused", "unanswered"], [8, 1, 1])[0]
            shown = w.view()
            keep = model.fault
            if mode == "refused":
                model.fault = lambda mo, me, p, c: -3 if me == method else keep(mo, me, p, c)
            elif mode == "unanswered":
                w.tr.fail = lambda n, r: kasa.TimeoutError("no answer")
            for again in range(rng.choice([1, 1, 2])):
                exc = got = None
                n0 = len(model.log)
                try:
                    got = await call()
                except kasa.KasaException as ex:
                    exc = ex
                except Exception as ex:  # noqa: BLE001
                    exc = ex
                    case.violate("undocumented-exception", f"{tag}: {ex!r}")
                log = [e for e in model.log[n0:]]
                asked = [e for e in log if e[1] == f"{module}.{method}"]
                if mode != "ok":
                    case.expect((got is None and exc is None) if name == "time" else isinstance(exc, kasa.KasaException), "failure-lost", f"{tag} {mode}: {exc!r} {got!r}")
                    case.expect(mode != "refused" or len(asked) == 1, "asked-again", f"{tag}: {log}")
                    case.covered(mode)
                    continue
                if not case.expect(exc is None, "question-failed", f"{tag}: {exc!r}"):
                    continue
                case.expect(log == asked and len(asked) == 1 and asked[0][0] == key and
                            (not asked[0][2] if params is None else refs.canon(asked[0][2]) == refs.canon(params)), "wrong-question", f"{tag}: {log} for {params}")
                if check is not None:
                    case.expect(check(got), "wrong-answer", f"{tag}: {got!r}")
                else:
                    if isinstance(got, dict) and "err_code" in got:
                        got = {k: v for k, v in got.items() if k != "err_code"}
                    want = {k: v for k, v in answer().items() if k != "err_code"}
                    case.expect(refs.canon(got) == refs.canon(want), "wrong-answer", f"{tag}: {got!r} of {want!r}")
                case.covered(name)
                if again:
                    case.covered("repeated")
                if d is not w.dev:
                    case.covered("on-child")
                case.event(name)
            model.fault, w.tr.fail = keep, None
            # a question alone changes nothing else that is reported
            now = w.view()
            moved = {k for k in shown if repr(now.get(k)) != repr(shown[k])}
            if name == "pir":
                m = d.modules[Module.IotMotion]
                if mode == "ok":
                    case.expect(m.adc_value == model.info[module]["get_adc_value"]["value"] and check(m.pir_state), "stale-answer", f"{tag}: {m.adc_value}")
                moved = {k for k in moved if "pir" not in str(k[1])}
            case.expect(not moved, "changed-by-question", f"{tag}: {sorted(map(str, moved))[:4]}")
            if rng.random() < 0.3:
                await w.dev.update()
            if case.violations:
                return
        case.nontrivial((w.name, case.index))
        case.sample = (w.name, pick)

    finish(case, vrun(main, max_steps=3_000_000))


FAMILIES = [Family("act", f_act, 2400, 24000), Family("pair", f_pair, 500, 6000), Family("firmware", f_firmware, 600, 8000), Family("ask", f_ask, 900, 12000),
            Family("urls", f_urls, 250, 4000)]
