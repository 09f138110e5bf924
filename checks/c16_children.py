"""C16: the children of a hub, strip or multi-socket device mirror what the device lists."""
from __future__ import annotations

import asyncio
import base64
import copy
import json

from kasa import DeviceType, KasaException, TimeoutError
from kasa.exceptions import _ConnectionError

from kmon import sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: histories of pairing, unpairing, state changes, child failures and updates on stateful hub, strip and camera hub "
             "models; after every update the children seen through the API are compared with the list the device gave last")
NOTE = "SMART hubs and strips, camera hubs with SMART and camera children, IOT strips; list pages of every size, failing lists and children"
RULE = "a case = one history on one parent device; non-trivial = at least three updates were compared"
ASSUMPTIONS = ("The sockets of a strip or multi-part switch do not change: pairing and unpairing happens on hubs.",
               "While the list of children cannot be read (or is not due after an error) the children stay as last read.")
REQUIRED_COVER = ["hub:added", "hub:removed", "hub:replaced", "hub:reordered", "hub:unsupported", "hub:components-late", "hub:list-error",
                  "hub:child-error", "hub:child-offline", "hub:child-timeout", "hub:outage", "hub:no-children-update", "hub:identity-kept", "hub:emptied",
                  "hub:re-paired", "hub:unknown-category", "hub:paged", "hub:id-missing", "hub:app-renamed",
                  "cam:added", "cam:removed", "cam:unsupported", "cam:child-error", "cam:cam-child", "cam:smart-child", "cam:list-error",
                  "cam:child-timeout", "strip:state", "strip:child-error", "strip:renamed", "iot:state", "iot:renamed", "iot:own-update", "hub:lookups", "cam:lookups",
                  "strip:lookups", "iot:lookups"]
CATEGORIES = {"plug.powerstrip.sub-plug": DeviceType.Plug, "subg.plugswitch.switch": DeviceType.WallSwitch,
              "subg.trigger.contact-sensor": DeviceType.Sensor, "subg.trigger.temp-hmdt-sensor": DeviceType.Sensor,
              "subg.trigger.water-leak-sensor": DeviceType.Sensor, "subg.trigger.motion-sensor": DeviceType.Sensor,
              "kasa.switch.outlet.sub-fan": DeviceType.Fan, "kasa.switch.outlet.sub-dimmer": DeviceType.Dimmer,
              "subg.trv": DeviceType.Thermostat, "subg.trigger.button": DeviceType.Sensor}
# what a feature shows of the state the parent reports for a child
FEATURES = {"temperature": ("current_temp", None), "humidity": ("current_humidity", None), "battery_level": ("battery_percentage", None),
            "is_open": ("open", None), "rssi": ("rssi", None), "signal_level": ("signal_level", None), "motion_detected": ("detected", None),
            "state": ("device_on", None), "battery_low": ("at_low_battery", None), "auto_off_at": None}
ERR = [-1001, -1002, -1301, -1101, 9999, -2001, -40210, -1]


def b64(s):
    return base64.b64encode(s.encode()).decode()


def children_in(text):
    """Ids of the children a request is for."""
    out, stack = set(), [json.loads(text)]
    while stack:
        o = stack.pop()
        if isinstance(o, dict):
            if o.get("method") in ("control_child",) and isinstance(o.get("params"), dict):
                out.add(o["params"].get("device_id"))
            if isinstance(o.get("childControl"), dict) and "request_data" in o["childControl"]:
                out.add(o["childControl"].get("device_id"))
            stack += [v for v in o.values() if isinstance(v, (dict, list))]
        elif isinstance(o, list):
            stack += [v for v in o if isinstance(v, (dict, list))]
    return out


class Parent:
    """A SMART or camera parent with a reference of what its children should be."""

    LISTS = {False: ("get_child_device_list", "get_child_device_component_list"),
             True: ("getChildDeviceList", "getChildDeviceComponentList")}

    def __init__(self, case, loop, shape):
        self.case, self.rng, self.loop, self.shape = case, case.rng, loop, shape
        rng = self.rng
        self.cam = shape == "cam"
        page = rng.choice([1, 2, 3, 10])
        if shape == "strip":
            self.model = sims.smart_model(rng.choice(sims.smart_parents()), rng, page=page)
            self.dev, self.tr = sims.smart_device(self.model)
        elif shape == "hub":
            self.model = sims.smart_model(rng.choice(sims.hub_names()), rng, page=page,
                                          children=[self.some() for _ in range(rng.choice([0, 1, 2, 4, 7]))])
            self.dev, self.tr = sims.smart_device(self.model)
        else:
            names = [n for n in sims.names("smartcam") if n.startswith("H200")]
            self.model = sims.cam_model(rng.choice(names), rng, page=page,
                                        children=[self.some() for _ in range(rng.choice([0, 1, 2, 4, 7]))])
            self.dev, self.tr = sims.cam_device(self.model)
        self.ls, self.lc = self.LISTS[self.cam]
        self.sub, self.subc = "child_device_list", "child_component_list"
        self.faults: dict = {}            # (device id or None, method or None) -> code
        self.slow: set = set()            # children whose requests time out
        self.model.fault = lambda m, meth, p: self.faults.get((m.device_id if m.parent else None, meth)) or (
            self.faults.get((m.device_id, None)) if m.parent else None)
        self.tr.fail = self.fail
        self.out = False
        self.gone: list = []              # unpaired: (info)
        self.hidden: dict = {}            # components not listed yet
        self.read = {self.ls: None, self.lc: None}
        self.known: dict = {}             # id -> child object
        self.stale: dict = {}             # id -> info last shown
        self.junk = 0
        self.updates = 0

    def some(self):
        pool = sims.names("smart/child")
        if self.cam and self.rng.random() < 0.4:
            pool = sims.names("smartcam/child")
        return self.rng.choice(pool)

    def fail(self, n, text):
        if self.out:
            return self.rng.choice([TimeoutError("t"), _ConnectionError("c"), KasaException("k")])
        if self.slow and self.slow & children_in(text):
            return TimeoutError("child")
        return None

    def listed(self):
        return self.model.info[self.ls][self.sub] if self.ls in self.model.info else []

    def comps(self):
        return self.model.info[self.lc][self.subc] if self.lc in self.model.info else []

    # -- history steps ------------------------------------------------
    def add(self):
        name = self.some()
        cid = sims.hexid(self.rng)
        if self.cam and name in sims.fixtures("smartcam/child"):
            self.model.add_child(sims.load("smartcam/child", name), cid, cam=True)
        else:
            self.model.add_child(sims.load("smart/child", name), cid)
        self.place(cid)
        self.case.covered("added")
        return cid

    def place(self, cid):
        """A new child may appear anywhere in the list."""
        lst = self.listed()
        e = lst.pop()
        lst.insert(self.rng.randrange(len(lst) + 1), e)
        cl = self.comps()
        e = cl.pop()
        cl.insert(self.rng.randrange(len(cl) + 1), e)

    def step(self):
        rng, case = self.rng, self.case
        ids = list(self.model.children)
        ops = ["state"] * 4
        if self.shape != "strip":
            ops += ["add", "add", "remove", "replace", "shuffle", "unsupported", "late", "repair", "noid", "unhide", "empty"]
        op = rng.choice(ops)
        case.event(op)
        if op == "add" and len(ids) < 10:
            self.add()
        elif op in ("remove", "replace") and ids:
            cid = rng.choice(ids)
            child = self.model.children[cid]
            self.gone.append((cid, child.info, isinstance(child, sims.CamModel)))
            self.model.remove_child(cid)
            self.hidden.pop(cid, None)
            case.covered("removed")
            if op == "replace":
                self.add()
                case.covered("replaced")
        elif op == "empty" and ids and rng.random() < 0.3:
            for cid in ids:
                self.model.remove_child(cid)
            self.listed().clear()
            self.comps().clear()
            self.hidden.clear()
            case.covered("emptied")
        elif op == "repair" and self.gone:
            cid, info, cam = self.gone.pop(rng.randrange(len(self.gone)))
            if cid not in self.model.children:
                if self.cam:
                    self.model.add_child(info, cid, cam=cam)
                else:
                    self.model.add_child(info, cid)
                self.place(cid)
                case.covered("re-paired")
        elif op == "shuffle":
            rng.shuffle(self.listed())
            rng.shuffle(self.comps())
            case.covered("reordered")
        elif op == "unsupported" and not self.cam and rng.random() < 0.5:
            # of an unknown category, but complete: may be shown as a device of unknown type
            info = sims.load("smart/child", rng.choice(sims.names("smart/child")))
            info["get_device_info"]["category"] = "subg.unknown.thing"
            self.model.add_child(info, sims.hexid(rng))
            self.case.covered("unknown-category")
        elif op == "unsupported":
            self.junk += 1
            cid = sims.hexid(rng)
            entry = {"device_id": cid, "category": "subg.unknown.thing", "model": "X9", "nickname": b64("junk")}
            if self.cam:
                if rng.random() < 0.5:
                    entry.pop("category")
                self.comps().append({"device_id": cid, "component_list": [{"id": "device", "ver_code": 1}]})
            self.listed().insert(rng.randrange(len(self.listed()) + 1), entry)
            case.covered("unsupported")
        elif op == "late" and ids:
            # a child listed before its components are
            cid = self.add()
            cl = self.comps()
            self.hidden[cid] = next(c for c in cl if c["device_id"] == cid)
            cl.remove(self.hidden[cid])
        elif op == "unhide" and self.hidden:
            cid, c = self.hidden.popitem()
            if cid in self.model.children:
                self.comps().append(c)
                case.covered("components-late")
        elif op == "noid":
            self.listed().insert(rng.randrange(len(self.listed()) + 1), {"category": "subg.trv", "model": "?"})
            case.covered("id-missing")
        elif op == "state" and ids:
            self.change(rng.choice(ids))

    def change(self, cid):
        rng = self.rng
        child = self.model.children[cid]
        if isinstance(child, sims.CamModel):
            e = next(x for x in self.listed() if x.get("device_id") == cid)
            e["alias"] = f"cam {rng.randrange(999)}"
            self.case.covered("app-renamed", "state")
            return
        si = child.sysinfo
        for k, f in (("current_temp", lambda: rng.randrange(-100, 400) / 10), ("current_humidity", lambda: rng.randrange(101)),
                     ("battery_percentage", lambda: rng.randrange(101)), ("open", lambda: rng.random() < 0.5),
                     ("rssi", lambda: -rng.randrange(30, 90)), ("signal_level", lambda: rng.randrange(4)),
                     ("detected", lambda: rng.random() < 0.5), ("device_on", lambda: rng.random() < 0.5),
                     ("at_low_battery", lambda: rng.random() < 0.5)):
            if k in si and rng.random() < 0.6:
                si[k] = f()
        if rng.random() < 0.4 and "nickname" in si:
            si["nickname"] = b64(f"child {rng.randrange(9999)} \u00fc")
            self.case.covered("app-renamed", "renamed")
        self.case.covered("state")

    def break_some(self):
        rng, case = self.rng, self.case
        self.faults, self.slow, self.out = {}, set(), False
        ids = list(self.model.children)
        r = rng.random()
        if r < 0.12:
            self.faults[(None, rng.choice([self.ls, self.lc]) if self.shape != "strip" else self.ls)] = rng.choice(ERR)
            case.covered("list-error")
        elif r < 0.25 and ids:
            cid = rng.choice(ids)
            self.faults[(cid, None)] = rng.choice(ERR)
            case.covered("child-error")
        elif r < 0.33 and ids:
            self.faults[(None, "controlChild" if self.cam else "control_child")] = rng.choice(ERR)
            case.covered("child-offline")
        elif r < 0.4 and ids:
            self.slow = {rng.choice(ids)}
            case.covered("child-timeout")
        elif r < 0.46:
            self.out = True
            case.covered("outage")

    # -- oracle ---------------------------------------------------------
    async def update(self, update_children=True):
        case = self.case
        since = len(self.model.log)
        before = {c.device_id: c for c in self.dev.children}
        err = None
        try:
            await self.dev.update(update_children)
        except KasaException as ex:
            err = ex
        except Exception as ex:  # noqa: BLE001
            case.violate("update-raised", f"{self.shape}: {ex!r}")
            return False
        self.updates += 1
        done = [(m, code) for did, m, _, code in self.model.log[since:] if did is None]
        tag = f"{self.shape} update {self.updates}"
        case.event("update", update_children, repr(err), len(self.model.children))
        if err is not None:
            case.expect(self.out, "update-failed", f"{tag}: {err!r} faults {self.faults}")
            case.expect({c.device_id: c for c in self.dev.children} == before, "children-changed", f"{tag}: children changed by a failed update")
            for m in (self.ls, self.lc):
                if self.shape != "strip" or m == self.ls:
                    self.read[m] = "?"     # may or may not have been asked for and lost
            return True
        case.expect(not self.out, "update-silent", f"{tag} succeeded although nothing answered")
        for m, src in ((self.ls, self.listed), (self.lc, self.comps)):
            codes = [c for x, c in done if x == m]
            if codes:
                self.read[m] = copy.deepcopy(src()) if not any(codes) else "err"
                if len(codes) > 1:
                    case.covered("paged")
            elif self.read[m] == "?":
                self.read[m] = "err"
        if isinstance(self.read[self.ls], list) and isinstance(self.read[self.lc], list):
            have = {c["device_id"] for c in self.read[self.lc]}
            want = {}
            for e in self.read[self.ls]:
                cid = e.get("device_id")
                if cid not in have:
                    continue
                if self.cam and e.get("category") not in CATEGORIES and e.get("category") != "camera":
                    continue
                want[cid] = e
            self.want = want
            case.covered("list-read")
        self.compare(tag, before)
        return True

    def compare(self, tag, before):
        case = self.case
        kids = list(self.dev.children)
        ids = [c.device_id for c in kids]
        case.expect(len(set(ids)) == len(ids), "duplicate-child", f"{tag}: {ids}")
        miss, extra = set(self.want) - set(ids), set(ids) - set(self.want)
        miss = {i for i in miss if self.want[i].get("category") != "subg.unknown.thing"}
        case.expect(not miss, "child-missing", f"{tag}: {[self.want[i].get('model') for i in miss]} listed but not among the children")
        case.expect(not extra, "child-not-listed", f"{tag}: {extra} not listed any more")
        for c in kids:
            cid = c.device_id
            if cid in before:
                case.expect(c is before[cid], "identity-lost", f"{tag}: {c!r} is a new object")
                case.covered("identity-kept")
            e = self.want.get(cid)
            if e is None:
                continue
            what = f"{tag} child {e.get('model') or e.get('device_model')}"
            try:
                self.compare_child(what, c, e)
            except Exception as ex:  # noqa: BLE001
                case.violate("child-unreadable", f"{what}: {ex!r}")
        lookups(case, self.dev, tag)
        for cid in {*before, *(g[0] for g in self.gone)} - set(self.want):
            case.expect(self.dev.get_child_device(cid) is None, "child-not-listed", f"{tag}: {cid} still found")

    def compare_child(self, what, c, e):
        case, dev = self.case, self.dev
        case.count("children_compared")
        case.expect(dev.get_child_device(c.device_id) is c, "child-lookup", f"{what}: not found by its id")
        case.expect(c.parent is dev, "child-parent", f"{what}: parent {c.parent!r}")
        if e.get("category") == "camera":
            case.covered("cam-child")
            case.expect(c.alias == e["alias"], "child-state", f"{what}: alias {c.alias!r}, reported {e['alias']!r}")
            case.expect(c.model == e["device_model"] and c.device_type in (DeviceType.Camera, DeviceType.Doorbell), "child-state",
                        f"{what}: {c.model} {c.device_type}")
            return
        case.covered("smart-child")
        case.expect(c.sys_info == e, "child-state", f"{what}: shows {diff(c.sys_info, e)}")
        if e.get("nickname"):
            alias = base64.b64decode(e["nickname"]).decode()
            case.expect(c.alias == alias, "child-state", f"{what}: alias {c.alias!r}, reported {alias!r}")
            same = [x for x in dev.children if (x.alias or "").lower() == alias.lower()]
            if alias and len(same) == 1:
                case.expect(dev.get_child_device(alias) is c, "child-lookup", f"{what}: {alias!r} found {dev.get_child_device(alias)!r}")
        if e.get("category") in CATEGORIES:
            case.expect(c.device_type is CATEGORIES[e["category"]], "child-type", f"{what}: {c.device_type} for {e['category']}")
        case.expect(c.model == e["model"], "child-state", f"{what}: model {c.model}")
        case.expect(len(c.features) > 0 and len(c.modules) > 0, "child-incomplete", f"{what}: {len(c.features)} features")
        for fid, src in FEATURES.items():
            if src and fid in c.features and src[0] in e:
                v = c.features[fid].value
                w = e[src[0]]
                case.expect(v == w, "child-state", f"{what}: {fid} is {v!r}, reported {w!r}")
                case.count("child_features")
        if "device_on" in e:
            case.expect(c.is_on is e["device_on"], "child-state", f"{what}: is_on {c.is_on}")


def lookups(case, dev, tag):
    """Every way of looking up a child finds the right one, and what does not exist is not found."""
    rng, kids = case.rng, list(dev.children)
    aliases = [c.alias for c in kids]
    for i, c in enumerate(kids):
        case.expect(dev.get_plug_by_index(i) is c, "child-lookup", f"{tag}: index {i} found {dev.get_plug_by_index(i)!r}")
        case.expect(dev.get_child_device(c.device_id) is c, "child-lookup", f"{tag}: id {c.device_id}")
        if c.alias:
            first = next(x for x in kids if x.alias == c.alias)
            case.expect(dev.get_plug_by_name(c.alias) is first, "child-lookup", f"{tag}: name {c.alias!r}")
            name = rng.choice([c.alias, c.alias.upper(), c.alias.lower(), c.alias.swapcase()])
            if name not in [x.device_id for x in kids]:
                low = [x for x in kids if (x.alias or "").lower() == name.lower()]
                if low:
                    case.expect(dev.get_child_device(name) is low[0], "child-lookup", f"{tag}: {name!r} of {aliases}")
    for bad in ("", "no such child", *[a + " " for a in aliases[:1] if a and a + " " not in aliases]):
        if bad in aliases:
            continue
        case.expect(dev.get_child_device(bad) is None, "child-lookup", f"{tag}: {bad!r} found {dev.get_child_device(bad)!r} of {aliases}")
        try:
            x = dev.get_plug_by_name(bad)
        except KasaException:
            pass
        else:
            case.violate("child-lookup", f"{tag}: name {bad!r} found {x!r}")
    for bad in (len(kids), len(kids) + rng.randrange(1, 9), -1, -len(kids)):
        try:
            x = dev.get_plug_by_index(bad) if bad or not kids else None
        except KasaException:
            pass
        else:
            if bad or not kids:
                case.violate("child-lookup", f"{tag}: index {bad} of {len(kids)} found {x!r}")
    case.covered("lookups")


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}


def history(case, shape):
    rng = case.rng

    async def main(loop):
        p = Parent(case, loop, shape)
        if not await p.update():
            return
        for _ in range(rng.choice([4, 8, 15])):
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                p.step()
            p.break_some() if rng.random() < 0.45 else (p.faults.clear(), p.slow.clear(), setattr(p, "out", False))
            await asyncio.sleep(rng.choice([0, 1, 10, 30, 31, 60, 90, 3600, 90000]))
            uc = rng.random() < 0.75
            if not uc:
                case.covered("no-children-update")
            ok = await p.update(uc)
            if not ok or case.violations:
                break
        p.faults, p.slow, p.out = {}, set(), False
        if not case.violations:
            await asyncio.sleep(400)
            await p.update()
            want = {k for k, e in p.want.items() if e.get("category") != "subg.unknown.thing"}
            case.expect(want <= {c.device_id for c in p.dev.children}, "child-missing", "final")
        case.sample = (p.dev.model, p.updates, len(p.model.children))
        if p.updates >= 3:
            case.nontrivial((p.dev.model, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def f_hub(case):
    history(case, "hub")


def f_cam(case):
    history(case, "cam")


def f_strip(case):
    history(case, "strip")


def f_iot(case):
    """Sockets of IOT strips: state and names as the strip last reported them."""
    import datetime
    rng = case.rng

    async def main(loop):
        names = [n for n in sims.names("iot") if sims.load("iot", n).get("system", {}).get("get_sysinfo", {}).get("children")]
        m = sims.iot_model(rng.choice(names))
        sims.iot_enrich(m, rng, datetime.datetime.now())
        dev, tr = sims.iot_device(m)
        seen = None
        objs = None
        n = 0
        for _ in range(rng.choice([3, 6, 10])):
            for c in m.sysinfo["children"]:
                if rng.random() < 0.5:
                    c["state"] = rng.randrange(2)
                    c["on_time"] = rng.randrange(1, 9999) if c["state"] else 0
                    case.covered("state")
                if rng.random() < 0.3:
                    c["alias"] = f"Socket {rng.randrange(9999)}"
                    case.covered("renamed")
            rng.random() < 0.3 and rng.shuffle(m.sysinfo["children"])
            if objs and rng.random() < 0.2:
                await rng.choice(list(dev.children)).update()     # reads only the socket's modules
                case.covered("own-update")
            else:
                await dev.update(rng.random() < 0.8 if objs else True)
                seen = copy.deepcopy(m.sysinfo["children"])
            n += 1
            tag = f"{m.sysinfo['model']} update {n}"
            kids = list(dev.children)
            case.expect(len(kids) == len(seen), "child-missing", f"{tag}: {len(kids)} children of {len(seen)}")
            if objs is not None:
                case.expect(len(kids) == len(objs) and all(a is b for a, b in zip(kids, objs)), "identity-lost", f"{tag}: sockets replaced")
            objs = kids
            by = {dev.mac + "_" + e["id"]: e for e in seen}
            for c in kids:
                e = by.get(c.device_id)
                if e is None:
                    case.violate("child-not-listed", f"{tag}: {c.device_id}")
                    continue
                case.expect((c.alias, c.is_on) == (e["alias"], bool(e["state"])), "child-state",
                            f"{tag}: {c.alias!r} {c.is_on}, reported {e['alias']!r} {e['state']}")
                case.expect(c.features["state"].value is bool(e["state"]) if c.features else True, "child-state", f"{tag}: state feature")
                same = [x for x in seen if x["alias"].lower() == e["alias"].lower()]
                if len(same) == 1:
                    case.expect(dev.get_child_device(e["alias"]) is c, "child-lookup", f"{tag}: {e['alias']}")
                case.count("children_compared")
            lookups(case, dev, tag)
            case.expect(dev.is_on == any(e["state"] for e in seen), "child-state", f"{tag}: strip is_on {dev.is_on}")
            if case.violations:
                break
        case.sample = (m.sysinfo["model"], n)
        case.nontrivial((m.sysinfo["model"], case.index))

    finish(case, vrun(main, max_steps=2_000_000))


FAMILIES = [Family("hub", f_hub, 400, 8000), Family("cam", f_cam, 300, 5000), Family("strip", f_strip, 200, 3000), Family("iot", f_iot, 150, 2000)]
