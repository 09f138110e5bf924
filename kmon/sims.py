"""Stateful device models (application level), driven through the real protocol classes.

A model keeps the device's state in the shape the repository's recorded device answers have, executes every
method for real (getters answer from the state, setters change it) and logs what was executed on which device.
"""
from __future__ import annotations

import copy
import functools
import glob
import json
import os

from kasa import Credentials, DeviceConfig
from kasa.transports.basetransport import BaseTransport

from .core import REPO, HarnessError

FIX = os.path.join(REPO, "tests", "fixtures")
PARAMS_ERROR, UNKNOWN_METHOD, CAM_UNSUPPORTED = -1008, -1002, -40106

# answers for methods newer than some recordings: method -> (component, min version, result)
MISSING = {
    "get_wireless_scan_info": ("wireless", 1, {"ap_list": [], "start_index": 0, "sum": 0, "wep_supported": False}),
    "get_auto_off_config": ("auto_off", 1, {"delay_min": 10, "enable": False}),
    "get_led_info": ("led", 1, {"led_rule": "never", "led_status": False, "night_mode": {
        "end_time": 420, "night_mode_type": "sunrise_sunset", "start_time": 1140, "sunrise_offset": 0,
        "sunset_offset": 0}}),
    "get_latest_fw": ("firmware", 1, {"fw_size": 0, "fw_ver": "1.0.5 Build 230801 Rel.095702", "hw_id": "",
                                      "need_to_upgrade": False, "oem_id": "", "release_date": "", "release_note": "",
                                      "type": 0}),
    "get_homekit_info": ("homekit", 1, {"mfi_setup_code": "000-00-000", "mfi_setup_id": "0000",
                                        "mfi_token_token": "0" * 33, "mfi_token_uuid": "0000-0000"}),
    "get_auto_update_info": ("firmware", 2, {"enable": True, "random_range": 120, "time": 180}),
    "get_alarm_configure": ("alarm", 1, {"duration": 10, "type": "Doorbell Ring 2", "volume": "low"}),
    "get_support_alarm_type_list": ("alarm", 1, {"alarm_type_list": ["Doorbell Ring 1", "Doorbell Ring 2"]}),
    "get_device_usage": ("device", 1, {}),
    "get_connect_cloud_state": ("cloud_connect", 1, {"status": 0}),
    "get_emeter_data": ("energy_monitoring", 1, {"current_ma": 33, "energy_wh": 971, "power_mw": 1003,
                                                 "voltage_mv": 121215}),
    "get_emeter_vgain_igain": ("energy_monitoring", 1, {"igain": 10861, "vgain": 118657}),
    "get_protection_power": ("power_protection", 1, {"enabled": False, "protection_power": 0}),
    "get_max_power": ("power_protection", 1, {"max_power": 3904}),
    "get_matter_setup_info": ("matter", 1, {"setup_code": "00000000000", "setup_payload": "00:0000000-0000.00.000"}),
    "get_support_child_device_category": ("child_quick_setup", 1, {"device_category_list": [{"category": "subg.trv"}]}),
    "get_scan_child_device_list": ("child_quick_setup", 1, {"child_device_list": [], "scan_status": "idle"}),
    "get_device_time": ("time", 1, {"region": "Europe/Berlin", "time_diff": 60, "timestamp": 1700000000}),
    "getMatterSetupInfo": ("matter", 1, {"setup_code": "00000000000", "setup_payload": "00:0000000-0000.00.000"}),
    "getSupportChildDeviceCategory": ("childQuickSetup", 1, {"device_category_list": [
        {"category": "ipcamera"}, {"category": "subg.trv"}, {"category": "subg.trigger"},
        {"category": "subg.plugswitch"}]}),
    "getScanChildDeviceList": ("childQuickSetup", 1, {"child_device_list": [], "scan_wait_time": 55,
                                                      "scan_status": "idle"}),
}
WHOLE_RECORDS = {"set_auto_off_config", "set_protection_power", "setDustCollectionInfo"}
NO_STATE_SETTERS = {"set_qs_info", "fw_download", "setSwitchDustCollection", "playSelectAudio", "begin_scanning_child_device",
                    "add_child_device_list", "device_reboot", "device_reset", "startScanChildDevice",
                    "addScanChildDeviceList"}


@functools.cache
def fixtures(kind: str) -> dict[str, str]:
    """name -> raw JSON of the recorded answers of ``kind`` (iot, smart, smart/child, smartcam, smartcam/child)."""
    out = {}
    for p in sorted(glob.glob(os.path.join(FIX, kind, "*.json"))):
        out[os.path.basename(p)[:-5]] = open(p, encoding="utf-8").read()
    if not out:
        raise HarnessError(f"no recordings for {kind} under {FIX}")
    return out


@functools.cache
def names(kind: str) -> list[str]:
    return list(fixtures(kind))


def load(kind: str, name: str) -> dict:
    return json.loads(fixtures(kind)[name])


def hexid(rng, n=40):
    return "".join(rng.choice("0123456789ABCDEF") for _ in range(n))


class Log(list):
    """(device id or None, method, params, outcome) in execution order."""

    def executed(self, *prefixes):
        return [e for e in self if not prefixes or e[1].startswith(prefixes)]


class Model:
    """Common parts of the SMART and camera models."""

    def __init__(self, info, *, device_id=None, parent=None, log=None, page=10):
        self.info, self.device_id, self.parent, self.page = info, device_id, parent, page
        self.log = log if log is not None else Log()
        self.children: dict[str, Model] = {}
        self.fault = None             # (model, method, params) -> error code or None
        self.multi_on_error = "continue"   # continue | stop-include | stop-omit
        self.hooks = []               # (model, method, params) before execution
        self.pairable: dict[str, tuple] = {}    # devices in pairing mode near a hub: id -> (recording kind, name, what the scan shows)
        self._components()

    def root(self):
        return self.parent.root() if self.parent else self

    def _fault(self, method, params):
        f = self.root().fault
        return f(self, method, params) if f else None

    def run(self, method, params):
        """Execute one method: the device's answer object."""
        for h in self.root().hooks:
            h(self, method, params)
        code = self._fault(method, params)
        if code is None:
            before = copy.deepcopy(self.info) if not method.startswith(("get", "component")) else None
            try:
                res = self.execute(method, params)
            except (KeyError, TypeError, IndexError, ValueError, AttributeError):
                # a request this device cannot make sense of: refused, and without any effect
                if before is not None:
                    self.info.clear()
                    self.info.update(before)
                res = PARAMS_ERROR
            if isinstance(res, int):
                code = res
        if code is not None:
            self.log.append((self.device_id, method, copy.deepcopy(params), code))
            return {"error_code": code}
        self.log.append((self.device_id, method, copy.deepcopy(params), 0))
        out = {"error_code": 0}
        if res is not None:
            out["result"] = res
        return out

    def request(self, obj):
        """A request object as it arrives on the wire."""
        method = obj.get("method")
        if method == "multipleRequest":
            responses = []
            for r in obj["params"]["requests"]:
                resp = self.request(r)
                if resp["error_code"] != 0 and self.root().multi_on_error == "stop-omit":
                    break
                resp["method"] = r["method"]
                responses.append(resp)
                if resp["error_code"] != 0 and self.root().multi_on_error == "stop-include":
                    break
            return {"result": {"responses": responses}, "error_code": 0}
        return self.single(obj, method)

    def paged(self, result, start):
        if isinstance(result, dict) and "start_index" in result and "sum" in result:
            key = next((k for k in result if isinstance(result[k], list)), None)
            if key is not None:
                full = result[key]
                return {**result, "start_index": start, "sum": len(full), key: full[start:start + self.root().page]}
        return result

    def snapshot(self):
        return copy.deepcopy(self.info)


class SmartModel(Model):
    """A SMART device (plug, bulb, strip, hub, vacuum...) or SMART child."""

    def _components(self):
        self.components = {c["id"]: c["ver_code"] for c in
                           (self.info.get("component_nego") or {}).get("component_list", [])}

    @property
    def sysinfo(self):
        return self.info["get_device_info"]

    def single(self, obj, method):
        return self.run(method, obj.get("params"))

    # -- children -----------------------------------------------------
    def add_child(self, info, child_id, position=None):
        """Attach a child described by its own recorded answers."""
        info["get_device_info"]["device_id"] = child_id
        child = SmartModel(info, device_id=child_id, parent=self, log=self.log)
        self.children[child_id] = child
        lst = self.info.setdefault("get_child_device_list", {"start_index": 0, "sum": 0, "child_device_list": []})
        comps = self.info.setdefault("get_child_device_component_list",
                                     {"start_index": 0, "sum": 0, "child_component_list": []})
        lst["child_device_list"].append(info["get_device_info"])
        comps["child_component_list"].append({"device_id": child_id,
                                              "component_list": copy.deepcopy(info["component_nego"]["component_list"])})
        return child

    def remove_child(self, child_id):
        self.children.pop(child_id, None)
        lst = self.info["get_child_device_list"]
        lst["child_device_list"] = [c for c in lst["child_device_list"] if c.get("device_id") != child_id]
        comps = self.info["get_child_device_component_list"]
        comps["child_component_list"] = [c for c in comps["child_component_list"] if c.get("device_id") != child_id]

    def adopt_recorded_children(self):
        """Children recorded inline (strips, fan/light switches), or from the list entries alone."""
        lst = (self.info.get("get_child_device_list") or {}).get("child_device_list", [])
        comps = {c["device_id"]: c for c in
                 (self.info.get("get_child_device_component_list") or {}).get("child_component_list", [])}
        inline = self.info.get("child_devices") or {}
        for i, entry in enumerate(lst):
            cid = entry["device_id"]
            info = copy.deepcopy(inline.get(cid)) or {"get_device_info": copy.deepcopy(entry)}
            if "component_nego" not in info:
                if cid not in comps:
                    continue
                info["component_nego"] = {"component_list": copy.deepcopy(comps[cid]["component_list"])}
            if "get_device_info" not in info:
                info["get_device_info"] = copy.deepcopy(entry)
            if "device_on" in entry:
                info["get_device_info"].setdefault("device_on", entry["device_on"])
            self.children[cid] = SmartModel(info, device_id=cid, parent=self, log=self.log)
            lst[i] = info["get_device_info"]

    # -- execution ----------------------------------------------------
    def execute(self, method, params):
        info = self.info
        if method == "control_child":
            child = self.children.get(params["device_id"])
            if child is None:
                return -1101
            req = params["requestData"]
            return {"responseData": child.request({k: v for k, v in req.items() if v is not None})}
        if method in ("component_nego", "qs_component_nego") or method.startswith("get"):
            return self.get(method, params)
        special = getattr(self, "do_" + method, None)
        if special:
            return special(params)
        if method == "begin_scanning_child_device" and self.pairable:
            info["get_scan_child_device_list"] = {"child_device_list": [copy.deepcopy(e) for _, _, e in self.pairable.values()],
                                                  "scan_status": "scanning"}
        if method == "add_child_device_list" and self.pairable:
            for c in params["child_device_list"]:
                kind, name, _ = self.pairable.pop(c["device_id"])
                self.add_child(load(kind, name), c["device_id"])
        if method in NO_STATE_SETTERS:
            return None
        if method.startswith("set"):
            target = "get" + method[3:]
            cur = self.get(target, None)
            if isinstance(cur, int):
                return UNKNOWN_METHOD
            if not isinstance(params, dict):
                return PARAMS_ERROR
            if method in WHOLE_RECORDS:
                self.replace(info[target], params)
            else:
                self.merge(info[target], params)
            return None
        return UNKNOWN_METHOD

    @staticmethod
    def replace(dst, src):
        """A record that is written as a whole: what a command leaves out falls back to its zero."""
        for k in dst:
            dst[k] = copy.deepcopy(src[k]) if k in src else type(dst[k])()
        dst.update(copy.deepcopy(src))

    @staticmethod
    def merge(dst, src):
        for k, v in src.items():
            if isinstance(v, dict) and isinstance(dst.get(k), dict):
                SmartModel.merge(dst[k], v)
            else:
                dst[k] = copy.deepcopy(v)

    def get(self, method, params):
        info = self.info
        val = info.get(method)
        if val is None and method not in info or isinstance(val, int) and method in MISSING:
            miss = MISSING.get(method)
            if miss and self.components.get(miss[0], 0) >= miss[1]:
                info[method] = copy.deepcopy(miss[2])
            elif method == "get_on_off_gradually_info" and "on_off_gradually" in self.components:
                info[method] = ({"enable": True} if self.components["on_off_gradually"] == 1 else
                                {s: {"duration": 5, "enable": False, "max_duration": 60}
                                 for s in ("off_state", "on_state")})
            else:
                return val if isinstance(val, int) and val < 0 else PARAMS_ERROR
            val = info[method]
        if isinstance(val, int) and not isinstance(val, bool) and val < 0:
            return val
        start = params.get("start_index", 0) if isinstance(params, dict) else 0
        return copy.deepcopy(self.paged(val, start))

    # -- setters without a simple getter ------------------------------
    def do_set_device_info(self, params):
        self.sysinfo.update(copy.deepcopy(params))

    def do_set_dynamic_light_effect_rule_enable(self, p):
        rules = self.info["get_dynamic_light_effect_rules"]
        if p["enable"]:
            if p["id"] not in [r["id"] for r in rules["rule_list"]]:
                return PARAMS_ERROR
            rules["enable"], rules["current_rule_id"] = True, p["id"]
            self.sysinfo["dynamic_light_effect_enable"], self.sysinfo["dynamic_light_effect_id"] = True, p["id"]
        else:
            rules["enable"] = False
            rules.pop("current_rule_id", None)
            self.sysinfo["dynamic_light_effect_enable"] = False
            self.sysinfo.pop("dynamic_light_effect_id", None)

    def do_edit_dynamic_light_effect_rule(self, p):
        for r in self.info["get_dynamic_light_effect_rules"]["rule_list"]:
            if r["id"] == p["id"]:
                r.update(copy.deepcopy(p))
                return None
        return PARAMS_ERROR

    def do_set_lighting_effect(self, p):
        le = self.sysinfo["lighting_effect"]
        if p.get("brightness") is not None:
            le["brightness"] = p["brightness"]
        if "enable" in p:
            le.update({k: p[k] for k in ("enable", "name", "id")})
            self.info["get_lighting_effect"] = copy.deepcopy(p)

    def do_set_led_info(self, p):
        self.info["get_led_info"] if "get_led_info" in self.info else self.get("get_led_info", None)
        led = self.info["get_led_info"]
        self.replace(led, p)
        led["led_status"] = p["led_rule"] != "never"

    def do_set_preset_rules(self, p):
        if "get_preset_rules" in self.info and "brightness" in self.info["get_preset_rules"]:
            self.info["get_preset_rules"]["brightness"] = list(p["brightness"])
        elif "preset_state" not in self.sysinfo:
            return PARAMS_ERROR
        if "preset_state" in self.sysinfo:
            self.sysinfo["preset_state"] = [{"brightness": b} for b in p["brightness"]]

    def do_edit_preset_rules(self, p):
        self.info["get_preset_rules"]["states"][p["index"]] = copy.deepcopy(p["state"])

    def do_set_on_off_gradually_info(self, p):
        self.get("get_on_off_gradually_info", None)
        g = self.info.get("get_on_off_gradually_info")
        if self.components.get("on_off_gradually") == 1:
            g["enable"] = p["enable"]
            return None
        for st, mode, dur in (("on_state", "gradually_on_mode", "fade_on_time"),
                              ("off_state", "gradually_off_mode", "fade_off_time")):
            if st in p:
                if isinstance(g, dict) and st in g:
                    g[st].update(p[st])
                if mode in self.sysinfo:
                    self.sysinfo[mode] = 1 if p[st]["enable"] else 0
                    if "duration" in p[st] and dur in self.sysinfo:
                        self.sysinfo[dur] = p[st]["duration"]

    def do_set_temperature_unit(self, p):
        if "temp_unit" not in self.sysinfo:
            return UNKNOWN_METHOD
        if p["temp_unit"] not in ("celsius", "fahrenheit"):
            return PARAMS_ERROR
        self.sysinfo["temp_unit"] = p["temp_unit"]

    def do_set_child_protection(self, p):
        self.sysinfo["child_protection"] = p["enable"]

    def do_set_device_time(self, p):
        self.get("get_device_time", None)
        self.info["get_device_time"].update(copy.deepcopy(p))

    def do_remove_child_device_list(self, p):
        for c in p["child_device_list"]:
            self.remove_child(c["device_id"])

    def do_play_alarm(self, p):
        self.sysinfo["in_alarm"] = True
        self.sysinfo["in_alarm_source"] = "none"

    def do_stop_alarm(self, p):
        self.sysinfo["in_alarm"] = False
        self.sysinfo["in_alarm_source"] = ""

    def do_set_alarm_configure(self, p):
        self.get("get_alarm_configure", None)
        self.replace(self.info["get_alarm_configure"], p)

    # vacuums
    def _vac(self, status):
        self.info["getVacStatus"]["status"] = status

    def do_setSwitchClean(self, p):
        if p["clean_on"]:       # a new job, not the paused one
            self.info["getCleanInfo"].update(clean_time=0, clean_area=0, clean_percent=0)
        self._vac(1 if p["clean_on"] else 6)

    def do_setRobotPause(self, p):
        if p["pause"] or self.info["getVacStatus"]["status"] == 7:      # only a paused job goes on
            self._vac(7 if p["pause"] else 1)

    def do_setSwitchCharge(self, p):
        self._vac(4 if p["switch_charge"] else 0)

    def do_setCleanAttr(self, p):
        if p.get("type", "global") not in ("global", "pose"):
            return PARAMS_ERROR
        self.info["getCleanAttr"].update(copy.deepcopy(p))

    def do_resetConsumablesTime(self, p):
        for name in p["reset_list"]:
            key = name if name in self.info["getConsumablesInfo"] else name + "_time"
            self.info["getConsumablesInfo"][key] = 0


class CamModel(Model):
    """A camera, doorbell or camera hub, or a camera child."""

    SETTERS = {("system", "sys", "dev_alias"): ("getDeviceInfo", "device_info", "basic_info", "device_alias"),
               ("system", "clock_status", "seconds_from_1970"): ("getClockStatus", "system", "clock_status",
                                                                 "seconds_from_1970"),
               ("system", "clock_status", "local_time"): ("getClockStatus", "system", "clock_status", "local_time")}

    def _components(self):
        lst = ((self.info.get("getAppComponentList") or {}).get("app_component") or {}).get("app_component_list", [])
        self.components = {c["name"]: c["version"] for c in lst}

    def single(self, obj, method):
        if method in ("get", "do"):
            module = next(k for k in obj if k != "method")
            res = self.run(f"{method}_{module}", obj[module])
            if res["error_code"]:
                return res
            return {**(res.get("result") or {}), "error_code": 0}
        if method == "set":
            module = next(k for k in obj if k != "method")
            return self.run("set_" + module, obj[module])
        if "params" in obj:
            return self.run(method, obj["params"])
        # single style: {"method": m, module: {...}}
        return self.run(method, {k: v for k, v in obj.items() if k != "method"} or None)

    def add_child(self, info, child_id, cam=False):
        if cam:
            info["getDeviceInfo"]["device_info"]["basic_info"]["dev_id"] = child_id
            entry = info["child_info_from_parent"]
            entry["device_id"] = child_id
            child = CamModel(info, device_id=child_id, parent=self, log=self.log)
            comp = info["getAppComponentList"]["app_component"]["app_component_list"]
        else:
            info["get_device_info"]["device_id"] = child_id
            entry = info["get_device_info"]
            child = SmartModel(info, device_id=child_id, parent=self, log=self.log)
            comp = info["component_nego"]["component_list"]
        self.children[child_id] = child
        lst = self.info.setdefault("getChildDeviceList", {"start_index": 0, "sum": 0, "child_device_list": []})
        lst["child_device_list"].append(entry)
        comps = self.info.setdefault("getChildDeviceComponentList",
                                     {"start_index": 0, "sum": 0, "child_component_list": []})
        comps["child_component_list"].append({"device_id": child_id, "component_list": copy.deepcopy(comp)})
        return child

    def remove_child(self, child_id):
        self.children.pop(child_id, None)
        lst = self.info["getChildDeviceList"]
        lst["child_device_list"] = [c for c in lst["child_device_list"] if c.get("device_id") != child_id]
        comps = self.info["getChildDeviceComponentList"]
        comps["child_component_list"] = [c for c in comps["child_component_list"] if c.get("device_id") != child_id]

    def clear_children(self):
        for m, k in (("getChildDeviceList", "child_device_list"),
                     ("getChildDeviceComponentList", "child_component_list")):
            if m in self.info:
                self.info[m][k] = []
                self.info[m]["sum"] = 0

    def execute(self, method, params):
        info = self.info
        if method == "controlChild":
            p = params["childControl"]
            child = self.children.get(p["device_id"])
            if child is None:
                return -40418
            return {"response_data": child.request({k: v for k, v in p["request_data"].items() if v is not None})}
        if method == "removeChildDeviceList":
            for c in params["childControl"]["child_device_list"]:
                self.remove_child(c["device_id"])
            return {}
        if method == "startScanChildDevice" and self.pairable:
            info["getScanChildDeviceList"] = {"child_device_list": [copy.deepcopy(e) for _, _, e in self.pairable.values()],
                                              "scan_wait_time": 55, "scan_status": "scanning"}
        if method == "addScanChildDeviceList" and self.pairable:
            for c in params["childControl"]["child_device_list"]:
                kind, name, _ = self.pairable.pop(c["device_id"])
                self.add_child(load(kind, name), c["device_id"], cam=kind == "smartcam/child")
        if method in NO_STATE_SETTERS:
            return {}
        if method.startswith("do_"):
            return info.get(method) or {}
        if method.startswith("get"):
            return self.get(method, params)
        if method.startswith("set"):
            return self.set(method, params)
        return -40210

    def get(self, method, params):
        info = self.info
        if method not in info and method.startswith("get_"):
            camel = "get" + "".join(w.capitalize() for w in method[4:].split("_"))
            if isinstance(info.get(camel), dict):
                method = camel
        if method not in info:
            miss = MISSING.get(method)
            if not (miss and self.components.get(miss[0], 0) >= miss[1]):
                return CAM_UNSUPPORTED
            info[method] = copy.deepcopy(miss[2])
        val = info[method]
        if isinstance(val, int) and val < 0:
            return val
        if method.startswith("get_"):
            return copy.deepcopy(val.get("get", val))
        start = 0
        if isinstance(params, dict) and params:
            sub = next(iter(params.values()))
            if isinstance(sub, dict):
                start = sub.get("start_index", 0)
        return copy.deepcopy(self.paged(val, start))

    def set(self, method, params):
        info = self.info
        get_method = "get" + method[3:]
        for module, sections in params.items():
            for section, vals in sections.items():
                if not isinstance(vals, dict):
                    if section not in info[get_method]:
                        return -40101
                    if isinstance(info[get_method][section], str) != isinstance(vals, str):
                        return -40209
                    info[get_method][section] = vals
                    continue
                for k, v in vals.items():
                    path = self.SETTERS.get((module, section, k)) or (get_method, module, section, k)
                    d = info
                    for key in path[:-1]:
                        d = d[key]
                    if path[-1] not in d:
                        return -40101
                    if isinstance(d[path[-1]], str) != isinstance(v, str):
                        return -40209
                    d[path[-1]] = v
                    if path[-1] == "device_alias" and "child_info_from_parent" in info:
                        info["child_info_from_parent"]["alias"] = v
        return {}


class SimTransport(BaseTransport):
    """Carries requests to a model; counts, delays and failures are the harness's choice."""

    def __init__(self, config, model, port=80, chash="simhash"):
        self.model, self._dport, self._chash = model, port, chash
        super().__init__(config=config)
        self.requests: list[str] = []
        self.resets = self.closes = self.inflight = self.max_inflight = 0
        self.fail = None        # (n, request) -> exception or reply object or None
        self.delay = None       # () -> seconds

    @property
    def default_port(self):
        return self._dport

    @property
    def credentials_hash(self):
        return self._chash

    async def send(self, request):
        import asyncio
        self.requests.append(request)
        self.inflight += 1
        self.max_inflight = max(self.max_inflight, self.inflight)
        try:
            if self.delay:
                await asyncio.sleep(self.delay())
            if self.fail:
                r = self.fail(len(self.requests) - 1, request)
                if isinstance(r, BaseException):
                    raise r
                if r is not None:
                    return r
            return json.loads(json.dumps(self.model.request(json.loads(request))))
        finally:
            self.inflight -= 1

    async def close(self):
        self.closes += 1

    async def reset(self):
        self.resets += 1


def config(host="127.0.0.9", **kw):
    kw.setdefault("credentials", Credentials("user@example.com", "secret"))
    return DeviceConfig(host, **kw)


# -- builders ---------------------------------------------------------
def smart_parents():
    """Names of recordings with children of their own (strips, switches)."""
    return [n for n in names("smart") if not n.startswith(("H100", "KH100", "H200")) and
            (load("smart", n).get("get_child_device_list") or {}).get("child_device_list")]


def hub_names():
    return [n for n in names("smart") if n.startswith(("H100", "KH100"))]


def smart_model(name, rng=None, kind="smart", children=None, **kw):
    """Model of a recorded SMART device; hubs get ``children`` (names of child recordings)."""
    info = load(kind, name)
    info.pop("discovery_result", None)
    m = SmartModel(info, **kw)
    if name.startswith(("H100", "KH100")):
        for key, sub in (("get_child_device_list", "child_device_list"),
                         ("get_child_device_component_list", "child_component_list")):
            info[key] = {"start_index": 0, "sum": 0, sub: []}
        info.pop("child_devices", None)
        for c in children or []:
            m.add_child(load("smart/child", c), hexid(rng))
    else:
        m.adopt_recorded_children()
    return m


def cam_model(name, rng=None, children=None, **kw):
    info = load("smartcam", name)
    info.pop("discovery_result", None)
    m = CamModel(info, **kw)
    if "getChildDeviceList" in info:
        m.clear_children()
        for c in children or []:
            if c in fixtures("smartcam/child"):
                m.add_child(load("smartcam/child", c), hexid(rng), cam=True)
            else:
                m.add_child(load("smart/child", c), hexid(rng))
    return m


def smart_device(model, cfg=None, cls=None):
    from kasa.protocols import SmartProtocol
    from kasa.smart import SmartDevice
    cfg = cfg or config()
    t = SimTransport(cfg, model)
    dev = (cls or SmartDevice)(cfg.host, config=cfg, protocol=SmartProtocol(transport=t))
    return dev, t


def cam_device(model, cfg=None):
    from kasa.protocols.smartcamprotocol import SmartCamProtocol
    from kasa.smartcam import SmartCamDevice
    cfg = cfg or config()
    t = SimTransport(cfg, model, 443)
    return SmartCamDevice(cfg.host, config=cfg, protocol=SmartCamProtocol(transport=t)), t


# -- IOT --------------------------------------------------------------
UNSUPPORTED_MODULE = {"err_code": -1, "err_msg": "module not support"}
UNSUPPORTED_METHOD = {"err_code": -2, "err_msg": "member not support"}


class IotModel:
    """A legacy device: {module: {method: params}} requests, optional child context."""

    BULB_LIGHT = "smartlife.iot.smartbulb.lightingservice"
    STRIP_LIGHT = "smartlife.iot.lightStrip"

    def __init__(self, info):
        info.pop("discovery_result", None)
        self.info = info
        self.log = Log()
        self.fault = None            # (module, method, params, child_ids) -> err_code or None
        self.modfault = None         # (module) -> True when not supported
        self.children_extra: dict = {}    # child id -> {module: {method: result}} own data
        self.requests: list = []
        self.clock = None            # () -> naive local datetime

    @property
    def sysinfo(self):
        return self.info["system"]["get_sysinfo"]

    @property
    def light_module(self):
        return self.STRIP_LIGHT if "length" in self.sysinfo else self.BULB_LIGHT

    def child_full_id(self, child):
        """The id a client addresses a socket with."""
        cid = child["id"]
        return cid if len(cid) > 2 else self.sysinfo["deviceId"] + cid

    def request(self, obj):
        obj = json.loads(json.dumps(obj))
        self.requests.append(obj)
        child_ids = obj.pop("context", {}).get("child_ids")
        out = {}
        for module, methods in obj.items():
            if (module not in self.info and not self._builtin(module)) or (self.modfault and self.modfault(module)):
                self.log.append((self._key(child_ids), module, None, -1))
                out[module] = dict(UNSUPPORTED_MODULE)
                continue
            rec = self.info.get(module)
            if isinstance(rec, dict) and rec.get("err_code") and "err_msg" in rec:
                self.log.append((self._key(child_ids), module, None, rec["err_code"]))
                out[module] = copy.deepcopy(rec)
                continue
            out[module] = {}
            for method, params in methods.items():
                code = self.fault(module, method, params, child_ids) if self.fault else None
                res = None
                if code is None:
                    res = self.execute(module, method, params, child_ids)
                    if isinstance(res, int):
                        code = res
                if code is not None:
                    out[module][method] = {"err_code": code, "err_msg": "failed"}
                else:
                    out[module][method] = {**(res or {}), "err_code": 0}
                self.log.append((self._key(child_ids), f"{module}.{method}", copy.deepcopy(params), code or 0))
        return out

    def snapshot(self):
        return copy.deepcopy([self.info, self.children_extra])

    @staticmethod
    def _key(child_ids):
        return tuple(child_ids) if child_ids else None

    def _builtin(self, module):
        return (module == self.light_module and "light_state" in self.sysinfo or
                module == "smartlife.iot.lighting_effect" and "lighting_effect_state" in self.sysinfo or
                module == "smartlife.iot.common.system" and "light_state" in self.sysinfo)

    def child(self, child_ids):
        if not child_ids:
            return None
        if len(child_ids) != 1:
            return -3
        for c in self.sysinfo.get("children", []):
            if child_ids[0] in (c["id"], self.child_full_id(c)):
                return c
        return -3

    def execute(self, module, method, params, child_ids):
        child = self.child(child_ids)
        if isinstance(child, int):
            return child
        name = f"{module}.{method}"
        target = child if child is not None else self.sysinfo
        params = params or {}
        if method == "get_sysinfo":
            return copy.deepcopy(self.sysinfo)
        if child is not None:
            extra = self.children_extra.get(self.child_full_id(child), {}).get(module)
            if extra is not None and method in extra:
                return self._stat(copy.deepcopy(extra[method]), method, params)
            if extra is not None and not method.startswith("get"):
                return self.setter(module, extra, method, params)
        if method == "set_relay_state":
            target["state" if child is not None else "relay_state"] = params["state"]
            if child is None and "children" in self.sysinfo and "relay_state" not in self.sysinfo:
                for c in self.sysinfo["children"]:
                    c["state"] = params["state"]
            return None
        if method == "set_dev_alias":
            target["alias"] = params["alias"]
            return None
        if method == "set_led_off":
            self.sysinfo["led_off"] = params["off"]
            return None
        if method == "set_mac_addr":
            self.sysinfo["mac"] = params["mac"]
            return None
        if method in ("reboot", "reset", "start_calibrate"):
            return None
        if module in (self.BULB_LIGHT, self.STRIP_LIGHT):
            return self.light(method, params)
        if module == "smartlife.iot.dimmer":
            return self.dimmer(method, params)
        if name == "smartlife.iot.lighting_effect.set_lighting_effect":
            self.sysinfo["lighting_effect_state"] = copy.deepcopy(params)
            return None
        if module in ("time", "smartlife.iot.common.timesetting"):
            return self.time(module, method, params)
        store = self.info.get(module)
        if not isinstance(store, dict):
            return -1
        if method.startswith("get") and method in store:
            if store[method] is None:
                return -2
            return self._stat(copy.deepcopy(store[method]), method, params)
        return self.setter(module, store, method, params)

    @staticmethod
    def _stat(res, method, params):
        """Statistics of another period than the recorded one are empty."""
        if method in ("get_daystat", "get_monthstat") and isinstance(res, dict):
            key = next((k for k in res if k.endswith("_list")), None)
            if key:
                res[key] = [e for e in res[key] if e.get("year") == params.get("year", e.get("year")) and
                            (method == "get_monthstat" or e.get("month") == params.get("month", e.get("month")))]
        return res

    def setter(self, module, store, method, params):
        if module == "smartlife.iot.LAS":
            dev = store["get_config"]["devs"][0]
            if method == "set_enable":
                dev["enable"] = params["enable"]
                return None
            if method == "set_brt_level":
                dev["level_array"][params["index"] if "index" in params else 0]["value"] = params["value"]
                return None
        if module == "smartlife.iot.PIR":
            cfg = store["get_config"]
            if method == "set_enable":
                cfg["enable"] = params["enable"]
                return None
            if method == "set_trigger_sens":
                cfg["trigger_index"] = params["index"]
                if "value" in params:
                    cfg["array"][params["index"]] = params["value"]
                return None
            if method == "set_cold_time":
                cfg["cold_time"] = params["cold_time"]
                return None
        if module in ("schedule", "smartlife.iot.common.schedule", "anti_theft", "smartlife.iot.common.anti_theft",
                      "countdown"):
            rules = store.get("get_rules", {}).get("rule_list", [])
            if method == "edit_rule":
                for r in rules:
                    if r["id"] == params["id"]:
                        r.update(params)
                        return None
                return -10
            if method == "delete_rule":
                if params["id"] not in [r["id"] for r in rules]:
                    return -10
                rules[:] = [r for r in rules if r["id"] != params["id"]]
                return None
            if method == "set_overall_enable":
                store.setdefault("get_rules", {})["enable"] = params["enable"]
                return None
            if method == "delete_all_rules":
                rules.clear()
                return None
            if method == "add_rule":
                rules.append({**params, "id": "NEW"})
                return None
            if method == "erase_runtime_stat":
                for k in ("get_daystat", "get_monthstat"):
                    if isinstance(store.get(k), dict):
                        for kk in store[k]:
                            if kk.endswith("_list"):
                                store[k][kk] = []
                return None
        if method == "erase_emeter_stat":
            for k in ("get_daystat", "get_monthstat"):
                if isinstance(store.get(k), dict):
                    for kk in store[k]:
                        if kk.endswith("_list"):
                            store[k][kk] = []
            return None
        if method in ("bind", "unbind"):
            store.setdefault("get_info", {})["binded"] = 1 if method == "bind" else 0
            return None
        return -2

    # -- lights -------------------------------------------------------
    def light(self, method, params):
        si = self.sysinfo
        store = self.info.get(self.light_module, {})
        st = si["light_state"]
        if method == "get_light_state":
            return copy.deepcopy(st)
        if method in ("transition_light_state", "set_light_state"):
            want = "set_light_state" if self.light_module == self.STRIP_LIGHT else "transition_light_state"
            if method != want:
                return -2
            p = {k: v for k, v in params.items() if k not in ("transition_period", "ignore_default")}
            base = dict(st.get("dft_on_state") or {k: v for k, v in st.items() if k != "on_off"})
            on = p.pop("on_off", st.get("on_off"))
            if "color_temp" in p and p["color_temp"] and ("hue" not in p):
                pass
            base.update(p)
            eff = si.get("lighting_effect_state")
            if eff and eff.get("enable") and (("hue" in p) or ("saturation" in p) or ("color_temp" in p)):
                eff["enable"] = 0
            elif eff and eff.get("enable") and "brightness" in p:
                eff["brightness"] = p["brightness"]     # the device applies it to the running effect
            if on:
                si["light_state"] = {"on_off": 1, **base}
            else:
                si["light_state"] = {"on_off": 0, "dft_on_state": base}
            return copy.deepcopy(si["light_state"])
        if method == "set_preferred_state":
            prefs = si["preferred_state"]
            for i, p in enumerate(prefs):
                if p["index"] == params["index"]:
                    prefs[i] = copy.deepcopy(params)
                    return None
            return -3
        if method == "set_default_behavior":
            cur = store.setdefault("get_default_behavior", {})
            cur.update(copy.deepcopy(params))
            return None
        if method == "get_light_details" and method not in store:
            return {"color_rendering_index": 80, "incandescent_equivalent": 60, "lamp_beam_angle": 150,
                    "max_lumens": 800, "max_voltage": 120, "min_voltage": 110, "wattage": 10}
        if method == "get_default_behavior" and method not in store:
            store[method] = {"hard_on": {"mode": "last_status"}, "soft_on": {"mode": "last_status"}}
            self.info[self.light_module] = store
        if method in store:
            return copy.deepcopy(store[method])
        return -2

    def dimmer(self, method, params):
        si = self.sysinfo
        store = self.info.get("smartlife.iot.dimmer") or {}
        if method == "set_brightness":
            si["brightness"] = params["brightness"]
            return None
        if method == "set_dimmer_transition":
            if params["brightness"] == 0:
                si["relay_state"] = 0
            else:
                si["relay_state"], si["brightness"] = 1, params["brightness"]
            return None
        if method == "set_switch_state":
            si["relay_state"] = params["state"]
            return None
        keymap = {"calibrate_brightness": "minThreshold", "set_fade_on_time": "fadeOnTime",
                  "set_fade_off_time": "fadeOffTime", "set_gentle_on_time": "gentleOnTime",
                  "set_gentle_off_time": "gentleOffTime", "set_button_ramp_rate": "rampRate"}
        if method in keymap and "get_dimmer_parameters" in store:
            vals = list(params.values())
            if len(vals) != 1:
                return -3
            store["get_dimmer_parameters"][keymap[method]] = vals[0]
            return None
        if method in ("set_double_click_action", "set_long_press_action"):
            beh = store.setdefault("get_default_behavior", {})
            beh[method[4:-7]] = copy.deepcopy(params)
            return None
        if method in store and method.startswith("get"):
            return copy.deepcopy(store[method])
        return -2

    def time(self, module, method, params):
        store = self.info.get(module) or {}
        tz = store.setdefault("get_timezone", {"index": 39}) if isinstance(store, dict) else None
        if method == "get_time":
            if self.clock:
                n = self.clock()
                return {"year": n.year, "month": n.month, "mday": n.day, "hour": n.hour, "min": n.minute,
                        "sec": n.second}
            return copy.deepcopy(store[method]) if method in store else -2
        if method == "get_timezone":
            return copy.deepcopy(tz)
        if method in ("set_timezone", "set_time"):
            p = dict(params)
            if "index" in p:
                tz["index"] = p.pop("index")
            p.pop("zone_str", None)
            if p:
                store["get_time"] = {k: p[k] for k in ("year", "month", "mday", "hour", "min", "sec")}
                self.set_clock = p
            return None
        return -2


def iot_model(name):
    return IotModel(load("iot", name))


def iot_device(model, cfg=None):
    from kasa import device_factory
    from kasa.protocols import IotProtocol
    cfg = cfg or config()
    t = SimTransport(cfg, model, 9999, None)
    cls = device_factory.get_device_class_from_sys_info({"system": {"get_sysinfo": model.sysinfo}})
    dev = cls(cfg.host, config=cfg, protocol=IotProtocol(transport=t))
    return dev, t


# -- filling in what old recordings lack ---------------------------------
def stat_lists(rng, now, unit, days=6, months=4, scale=1000):
    """(day_list, month_list) around ``now`` in shuffled-free chronological order; ``unit`` names the value key."""
    def val():
        v = rng.randrange(0, scale)
        return v / 1000 if unit == "energy" else v
    dl, ml = [], []
    d0 = max(1, now.day - days)
    for d in range(d0, now.day + 1):
        if d == now.day and rng.random() < 0.15:
            continue
        dl.append({"year": now.year, "month": now.month, "day": d, unit: val()})
    for m in range(max(1, now.month - months), now.month + 1):
        ml.append({"year": now.year, "month": m, unit: val()})
    return dl, ml


def iot_module_names(model):
    """(schedule, usage, anti theft, time, cloud, emeter) module names of this kind of device."""
    si = model.sysinfo
    if "light_state" in si:
        p = "smartlife.iot.common."
        return p + "schedule", p + "anti_theft", p + "timesetting", p + "cloud", p + "emeter"
    return "schedule", "anti_theft", "time", "cnCloud", "emeter"


def rule(rng, i, bulb):
    r = {"id": hexid(rng, 32), "name": f"rule {i}", "enable": rng.randrange(2), "wday": [rng.randrange(2) for _ in range(7)],
         "repeat": rng.randrange(2), "sact": rng.choice([0, 1]) if not bulb else 2, "stime_opt": rng.choice([-1, 0, 1, 2]),
         "smin": rng.randrange(1440), "eact": -1, "etime_opt": -1, "emin": 0}
    if bulb:
        r["s_light"] = {"saturation": 0, "hue": 0, "brightness": rng.randrange(101), "color_temp": 2700, "mode": "customize_preset",
                        "on_off": 1}
    return r


def iot_enrich(model, rng, now, per_child=True):
    """Give the device the modules a live device of its kind has (old recordings have only some)."""
    si = model.sysinfo
    sched, theft, tmod, cloud, emeter = iot_module_names(model)
    bulb = "light_state" in si
    ene = "ENE" in si.get("feature", "") or bulb

    def usage():
        dl, ml = stat_lists(rng, now, "time", scale=1440)
        return {"get_realtime": {"total_time": rng.randrange(9999)}, "get_daystat": {"day_list": dl},
                "get_monthstat": {"month_list": ml}}

    def rules():
        return {"get_rules": {"enable": rng.randrange(2), "rule_list": [rule(rng, i, bulb) for i in range(rng.randrange(3))],
                              "version": 2}}

    def emet():
        new = bulb or rng.random() < 0.6
        dl, ml = stat_lists(rng, now, "energy_wh" if new else "energy", scale=5000)
        if bulb:
            rt = {"power_mw": rng.randrange(20000)}
        elif new:
            rt = {"current_ma": rng.randrange(5000), "power_mw": rng.randrange(900000), "total_wh": rng.randrange(99999),
                  "voltage_mv": rng.randrange(100000, 250000)}
        else:
            rt = {"current": rng.randrange(5000) / 1000, "power": rng.randrange(900000) / 1000,
                  "total": rng.randrange(99999) / 1000, "voltage": rng.randrange(100000, 250000) / 1000}
        return {"get_realtime": rt, "get_daystat": {"day_list": dl}, "get_monthstat": {"month_list": ml}}

    info = model.info
    info[sched] = {**rules(), "get_next_action": {"type": -1}, **usage()}
    info[theft] = {**rules(), "get_next_action": {"type": -1}}
    info.setdefault(tmod, {"get_time": {"year": now.year, "month": now.month, "mday": now.day, "hour": now.hour,
                                        "min": now.minute, "sec": now.second},
                           "get_timezone": {"index": rng.randrange(0, 110)}})
    info.setdefault(cloud, {"get_info": {"username": "", "server": "devs.tplinkcloud.com", "binded": rng.randrange(2),
                                         "cld_connection": rng.randrange(2), "illegalType": 0, "stopConnect": 0,
                                         "tcspStatus": 1, "fwDlPage": "", "tcspInfo": "", "fwNotifyType": -1}})
    if ene:
        info[emeter] = emet()
    if "smartlife.iot.dimmer" in info:
        info["smartlife.iot.dimmer"].setdefault("get_default_behavior", {
            k: {"mode": "last_status"} for k in ("double_click", "hard_on", "soft_on", "long_press")})
    for m, extra in (("smartlife.iot.LAS", {"get_current_brt": {"value": rng.randrange(101)}}),
                     ("smartlife.iot.PIR", {"get_adc_value": {"value": rng.randrange(4096)}})):
        if m in info and "get_config" in info[m]:
            for k, v in extra.items():
                info[m].setdefault(k, v)
    if si.get("children") and per_child:
        for c in si["children"]:
            d = {sched: {**rules(), "get_next_action": {"type": -1}, **usage()},
                 theft: {**rules(), "get_next_action": {"type": -1}}}
            if ene:
                d[emeter] = emet()
            model.children_extra[model.child_full_id(c)] = d
            c["on_time"] = rng.randrange(100000) if c["state"] else 0
    return model
