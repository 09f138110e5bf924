"""C08: requests for a child device reach exactly that child, and its answers come back to it alone."""
from __future__ import annotations

import asyncio
import base64
import datetime

import kasa
from kasa import Device, Module
from kasa.exceptions import SmartErrorCode

from kmon import clock, refs, sims
from kmon.core import Family
from kmon.history import finish, refs_code
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: the real devices and protocols drive stateful models of strips, switches, hubs and camera "
             "hubs; a monitor over the device-side execution log and the models' states decides who was reached and "
             "whose answer was returned")
NOTE = ("children of recorded strips/switches, hubs with random sets of recorded child devices, IOT strips; sequential and "
        "concurrent child queries, single and multi method, per-child and envelope errors")
ASSUMPTIONS = ("The models' children are addressed by the envelope (control_child / controlChild / context.child_ids) only.",)
RULE = "execution log of the device models: addressed child == asked child; answers, errors and states compared per child"
REQUIRED_COVER = ["smart:child-query", "smart:child-error", "smart:child-multi", "smart:child-multi-error", "smart:concurrent",
                  "smart:child-set", "smart:parent-command", "smart:envelope-error", "smart:state-compared",
                  "cam:child-query", "cam:child-error", "cam:child-multi", "cam:child-multi-error", "cam:concurrent",
                  "cam:child-set", "cam:envelope-error", "cam:state-compared",
                  "iot:child-set", "iot:child-error", "iot:child-query", "iot:parent-command", "iot:state-compared",
                  "iot:concurrent", "iot:module-data-compared", "iot:listed-in-another-order"]

CODES = [-1001, -1002, -1008, -1005, -1301, -1401, -2001, -40101, -40209, 9999]   # reported, never retried
CODES = [c for c in CODES]


def _mask(resp):
    return {k: v for k, v in resp.items()} if isinstance(resp, dict) else resp


def perturb_smart(rng, child):
    """Give the child values of its own."""
    si = child.sysinfo if isinstance(child, sims.SmartModel) else child.info["child_info_from_parent"]
    if isinstance(child, sims.SmartModel):
        si["nickname"] = base64.b64encode(f"child {sims.hexid(rng, 8)}".encode()).decode()
        for k in ("rssi", "jamming_rssi"):
            if k in si:
                si[k] = -rng.randrange(20, 100)
        for k in ("device_on", "open", "detected", "at_low_battery"):
            if isinstance(si.get(k), bool):
                si[k] = rng.random() < 0.5
    else:
        si["alias"] = f"cam {sims.hexid(rng, 8)}"
        child.info["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"] = si["alias"]


def compare_states(case, dev, model, tag):
    kids = {c.device_id: c for c in dev.children}
    case.expect(set(kids) == set(model.children), "children-differ", f"library {sorted(kids)} device {sorted(model.children)}")
    for cid, child in kids.items():
        m = model.children.get(cid)
        if m is None:
            continue
        if isinstance(m, sims.SmartModel):
            want = base64.b64decode(m.sysinfo["nickname"]).decode() if m.sysinfo.get("nickname") else None
            case.expect(child.alias == want or not want, "foreign-state", f"alias {child.alias!r} of a child called {want!r}")
            if "device_on" in m.sysinfo:
                case.expect(child.is_on is m.sysinfo["device_on"], "foreign-state",
                            f"is_on {child.is_on} of a child with device_on {m.sysinfo['device_on']}")
            case.expect(refs.canon(child.sys_info) == refs.canon(m.sysinfo), "foreign-state", "sysinfo of another child or moment")
        else:
            case.expect(child.alias == m.info["child_info_from_parent"]["alias"], "foreign-state", f"alias {child.alias}")
        for meth, got in child.internal_state.items():
            if isinstance(got, SmartErrorCode) or meth not in m.info:
                continue
            case.expect(refs.canon(got) == refs.canon(m.get(meth, None)), "foreign-module-data",
                        f"{meth} of child {cid}", got=got, want=m.get(meth, None))
            case.count("module_data_compared")
    case.covered("state-compared")


def f_smart(case):
    _smart(case, False)


def f_cam(case):
    _smart(case, True)


def _smart(case, cam):
    rng = case.rng
    if cam:
        name = rng.choice([n for n in sims.names("smartcam") if n.startswith("H200")])
        kids = [rng.choice(sims.names("smart/child") + sims.names("smartcam/child") * 5) for _ in range(rng.randrange(2, 6))]
        model = sims.cam_model(name, rng, children=kids)
    elif rng.random() < 0.5:
        name = rng.choice(sims.hub_names())
        kids = [rng.choice(sims.names("smart/child")) for _ in range(rng.randrange(2, 6))]
        model = sims.smart_model(name, rng, children=kids)
    else:
        name = rng.choice(sims.smart_parents())
        kids = []
        model = sims.smart_model(name, rng)
    for c in model.children.values():
        perturb_smart(rng, c)
    dev, tr = (sims.cam_device if cam else sims.smart_device)(model)
    model.multi_on_error = rng.choice(["continue", "continue", "stop-include"])
    codes: dict = {}
    model.fault = lambda m, method, params: codes.get((m.device_id, method))
    env = "controlChild" if cam else "control_child"

    async def main(loop):
        await dev.update()
        compare_states(case, dev, model, "first")
        children = {c.device_id: c for c in dev.children}
        if not children:
            return
        ids = list(children)

        def getters(cid):
            m = model.children[cid]
            return [k for k in m.info if k.startswith("get") and isinstance(m.info[k], dict)
                    and not ("sum" in m.info[k] and len(next((v for v in m.info[k].values() if isinstance(v, list)), [])) > 9)]

        def plain(e):
            return e[1] not in (env, "multipleRequest")

        def check_answer(cid, method, res, params=None):
            got = res.get(method, "missing") if isinstance(res, dict) else res
            want = codes.get((cid, method))
            if want is not None:
                case.expect(isinstance(got, SmartErrorCode) and got is refs_code(want), "wrong-child-answer",
                            f"{method} of {cid} failed with {want}, the caller got {got!r:.300}")
            else:
                m = model.children[cid]
                case.expect(got != "missing" and refs.canon(got) == refs.canon(m.get(method, params)), "wrong-child-answer",
                            f"{method} of {cid}", got=got, want=m.get(method, params))

        for _ in range(rng.randrange(3, 9)):
            op = rng.choice(["single", "single-error", "multi", "multi-error", "envelope", "set", "parent", "concurrent",
                             "update"])
            cid = rng.choice(ids)
            child = children[cid]
            before = {c: model.children[c].snapshot() for c in ids}
            pbefore = {k: v for k, v in model.snapshot().items() if "hild" not in k}
            n0 = len(model.log)
            codes.clear()
            expected_ids = {cid}
            changed: set = set()
            gs = getters(cid)
            if op == "single" and gs:
                method = rng.choice(gs)
                res = await child.protocol.query({method: {}} if cam or rng.random() < 0.7 else method)
                check_answer(cid, method, res)
                case.covered("child-query")
            elif op == "single-error":
                method = rng.choice(gs or ["get_device_info"]) if rng.random() < 0.7 else "get_unknown_thing"
                codes[(cid, method)] = rng.choice(CODES)
                case.event("single-error", cid, method, codes[(cid, method)])
                try:
                    res = await child.protocol.query({method: {}})
                    case.violate("child-error-lost", f"{method} failed with {codes[(cid, method)]} but {res!r:.300} was returned")
                except kasa.DeviceError as ex:
                    case.expect(ex.error_code is refs_code(codes[(cid, method)]), "wrong-error-code",
                                f"{codes[(cid, method)]} -> {ex.error_code!r}")
                case.covered("child-error")
            elif op in ("multi", "multi-error") and len(gs) > 1:
                ms = rng.sample(gs, rng.randrange(2, min(len(gs), 7) + 1))
                if op == "multi-error":
                    for method in rng.sample(ms, rng.randrange(1, len(ms))):
                        codes[(cid, method)] = rng.choice(CODES)
                res = await child.protocol.query({method: {} if cam else None for method in ms})
                ran = [e[1] for e in model.log[n0:] if plain(e) and e[0] == cid]
                for method in ran:
                    check_answer(cid, method, res)
                if model.multi_on_error == "continue" or cam:
                    case.expect(sorted(ran) == sorted(ms), "child-method-not-executed", f"asked {ms} executed {ran}")
                case.expect(set(res) <= set(ms), "made-up-answer", f"asked {ms} got {list(res)}")
                case.covered("child-multi")
                if codes:
                    case.covered("child-multi-error")
            elif op == "envelope":
                code = rng.choice(CODES)
                codes[(None, env)] = code
                method = rng.choice(gs or ["get_device_info"])
                many = rng.random() < 0.3 and len(gs) > 1
                try:
                    res = await child.protocol.query({method: {}} if not many else {g: {} for g in gs[:2]})
                    if many and cam:
                        case.expect(all(v is refs_code(code) for v in res.values()), "child-error-lost", f"{code}: {res!r:.200}")
                    else:
                        case.violate("child-error-lost", f"{env} failed with {code} but {res!r:.300} was returned")
                except kasa.DeviceError as ex:
                    case.expect(ex.error_code is refs_code(code), "wrong-error-code", f"{code} -> {ex.error_code!r}")
                expected_ids = {None}
                case.covered("envelope-error")
            elif op == "set":
                m = model.children[cid]
                if isinstance(m, sims.CamModel):
                    await child.set_alias("new alias")
                    case.expect(m.info["child_info_from_parent"]["alias"] == "new alias", "child-not-reached", "set_alias")
                elif "device_on" in m.sysinfo and rng.random() < 0.7:
                    on = rng.random() < 0.5
                    await (child.turn_on() if on else child.turn_off())
                    case.expect(m.sysinfo["device_on"] is on, "child-not-reached", f"turn {'on' if on else 'off'}")
                else:
                    await child.set_alias("new näme")
                    case.expect(base64.b64decode(m.sysinfo["nickname"]).decode() == "new näme", "child-not-reached", "set_alias")
                changed = {cid}
                case.covered("child-set")
            elif op == "parent":
                expected_ids = {None}
                if not cam:
                    await dev.set_alias("parent")
                    case.expect(base64.b64decode(model.sysinfo["nickname"]).decode() == "parent", "parent-not-reached", "")
                    if "device_on" in model.sysinfo:
                        await dev.turn_on()
                    case.covered("parent-command")
                else:
                    await dev.set_alias("parent")
                pbefore = None
                for e in model.log[n0:]:
                    case.expect(e[0] is None and e[1] != env, "parent-command-sent-to-child", str(e)[:200])
            elif op == "concurrent":
                jobs = []
                for c in [rng.choice(ids) for _ in range(rng.randrange(2, 6))]:
                    g = getters(c)
                    if g:
                        jobs.append((c, rng.choice(g)))
                tr.delay = lambda: rng.choice([0, 0.01, 0.5])
                rs = await asyncio.gather(*(children[c].protocol.query({g: {}}) for c, g in jobs))
                tr.delay = None
                for (c, g), r in zip(jobs, rs):
                    check_answer(c, g, r)
                expected_ids = {c for c, _ in jobs}
                case.expect(tr.max_inflight <= 1, "overlapping-requests", str(tr.max_inflight))
                case.covered("concurrent")
            elif op == "update":
                if rng.random() < 0.5:
                    for c in model.children.values():
                        perturb_smart(rng, c)
                before = {c: model.children[c].snapshot() for c in ids}
                await dev.update()
                compare_states(case, dev, model, "later")
                expected_ids = set(ids) | {None}
            else:
                continue
            for e in model.log[n0:]:
                if plain(e):
                    case.expect(e[0] in expected_ids, "wrong-child-reached",
                                f"{op} for {expected_ids} executed {e[1]} on {e[0]}")
            for c in ids:
                if c not in changed:
                    case.expect(refs.canon(model.children[c].snapshot()) == refs.canon(before[c]), "sibling-changed",
                                f"{op} for {cid} changed {c}")
            if pbefore is not None:
                now = {k: v for k, v in model.snapshot().items() if "hild" not in k and k in pbefore}
                case.expect(refs.canon(now) == refs.canon(pbefore), "parent-changed", f"{op} for {cid} changed the parent")
            case.event(op, cid)
        codes.clear()
        await dev.update()
        compare_states(case, dev, model, "last")

    case.sample = (name, kids)
    case.nontrivial((name, tuple(kids), case.index))
    finish(case, vrun(main))


def f_iot(case):
    rng = case.rng
    name = rng.choice([n for n in sims.names("iot") if "children" in sims.load("iot", n)["system"]["get_sysinfo"]])
    model = sims.iot_model(name)
    clock.install()
    now = datetime.datetime(2024, 3, 9, 12, 0, 0).astimezone()
    si = model.sysinfo
    for i, c in enumerate(si["children"]):
        c["id"] = f"{i:02d}" if rng.random() < 0 else sims.hexid(rng, 40) + f"{i:02d}"
        c["alias"], c["state"] = f"socket {sims.hexid(rng, 6)}", rng.randrange(2)
    sims.iot_enrich(model, rng, now.replace(tzinfo=None))
    if rng.random() < 0.3:
        model.info["countdown"] = {"get_rules": {"rule_list": []}, "get_next_action": {"type": -1}}
    dev, tr = sims.iot_device(model)
    codes: dict = {}
    model.fault = lambda mod, method, params, ids: codes.get((ids[0] if ids else None, method))

    def compare():
        kids = {c.child_id: c for c in dev.children}
        case.expect(sorted(kids) == sorted(c["id"] for c in si["children"]), "children-differ", str(list(kids)))
        for c in si["children"]:
            k = kids[c["id"]]
            case.expect(k.alias == c["alias"] and k.is_on == bool(c["state"]), "foreign-state",
                        f"{k.alias}/{k.is_on} of {c['alias']}/{c['state']}")
            extra = model.children_extra[c["id"]]
            for mname, mod in k.modules.items():
                data = extra.get(mod._module)
                if not data:
                    continue
                for method, want in data.items():
                    got = mod.data.get(method)
                    if method in mod.query().get(mod._module, {}) and "year" not in str(want):
                        case.expect(refs.canon({**(got or {}), "err_code": 0}) == refs.canon({**want, "err_code": 0}),
                                    "foreign-module-data", f"{mname}.{method} of {c['alias']}", got=got, want=want)
                        case.covered("module-data-compared")
        case.covered("state-compared")

    async def main(loop):
        await dev.update()
        compare()
        kids = {c.child_id: c for c in dev.children}
        ids = list(kids)
        for _ in range(rng.randrange(3, 9)):
            cid = rng.choice(ids)
            child = kids[cid]
            codes.clear()
            n0 = len(model.log)
            before = {c["id"]: dict(c) for c in si["children"]}
            pb = {k: v for k, v in si.items() if k != "children"}
            op = rng.choice(["set", "set", "query", "error", "parent", "concurrent", "update"])
            if rng.random() < 0.25:
                # the order in which a strip lists its sockets means nothing
                rng.shuffle(si["children"])
                case.covered("listed-in-another-order")
                await dev.update()
                compare()
                n0 = len(model.log)
            only = (cid,)
            changed = set()
            if op == "set":
                c = next(c for c in si["children"] if c["id"] == cid)
                if rng.random() < 0.7:
                    on = rng.random() < 0.5
                    await (child.turn_on() if on else child.turn_off())
                    case.expect(c["state"] == int(on), "child-not-reached", "turn")
                else:
                    await child.set_alias("new näme")
                    case.expect(c["alias"] == "new näme", "child-not-reached", "alias")
                changed = {cid}
                case.covered("child-set")
            elif op == "query":
                u = child.modules[Module.IotUsage]
                got = await u.get_raw_daystat()
                want = model._stat(dict(model.children_extra[cid]["schedule"]["get_daystat"]), "get_daystat",
                                   {"year": now.year, "month": now.month})
                case.expect(got["day_list"] == want["day_list"], "wrong-child-answer", f"{got} != {want}")
                if Module.Energy in child.modules:
                    st = await child.modules[Module.Energy].get_status()
                    rt = model.children_extra[cid]["emeter"]["get_realtime"]
                    p = rt["power"] if "power" in rt else rt["power_mw"] / 1000
                    case.expect(abs(st.power - p) < 1e-6, "wrong-child-answer", f"power {st.power} of {p}")
                case.covered("child-query")
            elif op == "error":
                codes[(cid, "set_relay_state")] = -3
                try:
                    await child.turn_on()
                    case.violate("child-error-lost", "turn_on of a refusing socket succeeded")
                except kasa.KasaException:
                    pass
                case.covered("child-error")
            elif op == "parent":
                only = None
                await dev.set_alias("strip")
                await dev.modules[Module.Led].set_led(rng.random() < 0.5)
                case.expect(si["alias"] == "strip", "parent-not-reached", "alias")
                pb = None
                case.covered("parent-command")
            elif op == "concurrent":
                todo = [(rng.choice(ids), rng.random() < 0.5) for _ in range(3)]
                tr.delay = lambda: rng.choice([0, 0.1])
                for c, _ in todo:
                    changed.add(c)
                await asyncio.gather(*(kids[c].turn_on() for c in {c for c, _ in todo}))
                tr.delay = None
                for c in si["children"]:
                    if c["id"] in changed:
                        case.expect(c["state"] == 1, "child-not-reached", "concurrent turn_on")
                only = "any"
                case.covered("concurrent")
            else:
                await dev.update()
                compare()
                only = "any"
            for e in model.log[n0:]:
                if only != "any":
                    case.expect(e[0] == only, "wrong-child-reached", f"{op} for {only}: {e[1]} on {e[0]}")
            for c in si["children"]:
                if c["id"] not in changed:
                    case.expect(c == before[c["id"]], "sibling-changed", f"{op} for {cid} changed {c['id']}")
            if pb is not None:
                case.expect({k: v for k, v in si.items() if k != "children"} == pb, "parent-changed", op)
            case.event(op, cid)
        codes.clear()
        await dev.update()
        compare()

    case.sample = (name, len(si["children"]))
    case.nontrivial((name, case.index))
    with clock.at(now):
        finish(case, vrun(main))


FAMILIES = [Family("smart", f_smart, 900, 12000), Family("cam", f_cam, 700, 10000), Family("iot", f_iot, 500, 8000)]
