"""C20: an IOT update reads all supported modules without overloading the device."""
from __future__ import annotations

import copy
import datetime
import inspect
import warnings

from kasa import KasaException
from kasa.iot.iotstrip import IotStripPlug

from kmon import sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: sequences of updates of every legacy device kind with random unsupported modules, answer limits, changing data and failures; "
             "a monitor on the wire records every question and answer, an offline checker compares each module's data with the answers of that very update "
             "and the size estimate of each request with the limit")
NOTE = "all legacy fixture devices and strips; limits from one module per request to everything at once; unsupported modules and methods; failing requests"
RULE = "a case = one device and up to 6 updates; non-trivial = at least one update was split or a module was unsupported or failed"
ASSUMPTIONS = ("A device supports the same modules for as long as it runs.",
               "A module that alone exceeds the limit is still asked, in a request without other modules.",
               "The estimates are those of the library (2048 for statistics, 1024 for the system information, 256 for the rest).")
REQUIRED_COVER = ["update:split", "update:unsupported", "update:method-error", "update:strip", "update:single", "update:bulb", "fail:failed", "fail:strip",
                  "fail:split", "before:property", "before:discovered"]
STATS = {"get_realtime", "get_daystat", "get_monthstat"}


class Rig:
    def __init__(self, case, limit=True):
        self.case, self.rng = case, case.rng
        rng = self.rng
        self.name = rng.choice(sims.names("iot"))
        self.model = sims.iot_model(self.name)
        self.vary()
        keys = sorted({*sims.iot_module_names(self.model), *self.model.info} - {"system"})
        self.gone = {k for k in keys if rng.random() < rng.choice([0, 0.15, 0.5])}
        self.model.modfault = lambda module: module in self.gone
        self.bad = {}
        if rng.random() < 0.3:
            self.bad = {(m, meth): rng.choice([-1, -2, -10]) for m in ("schedule", "emeter", "anti_theft", "countdown", "smartlife.iot.common.schedule")
                        for meth in ("get_daystat", "get_next_action", "get_rules") if rng.random() < 0.3}
        self.model.fault = lambda module, method, params, ids: self.bad.get((module, method))
        self.wire = []
        inner = self.model.request

        def request(obj):
            res = inner(obj)
            self.wire.append((copy.deepcopy(obj), copy.deepcopy(res)))
            return res

        self.model.request = request
        self.dev, self.tr = sims.iot_device(self.model)
        self.cls = type(self.dev)
        self.kids = bool(self.model.sysinfo.get("children"))
        self.patched = None
        if limit and rng.random() < 0.75:
            self.patched = rng.choice([600, 1300, 2100, 3400, 4096, 4700, 6000])

    def vary(self):
        sims.iot_enrich(self.model, self.rng, datetime.datetime.now())
        si = self.model.sysinfo
        si["rssi"] = self.rng.randint(-99, -20)

    def limit(self):
        if self.patched is not None:
            return self.patched
        return 4096 if "light_state" in self.model.sysinfo else 16384


def context(req):
    ids = req.get("context", {}).get("child_ids")
    return ids[0] if ids else None


def ctx_of(rig, d):
    return None if d is rig.dev else d.child_id


def groups(req):
    """The estimated answer sizes of the parts of a request."""
    out = []
    for module, methods in req.items():
        if module == "context":
            continue
        if module == "system":
            out.append(1024)
            continue
        if set(methods) & STATS:
            out.append(2048)
        if set(methods) - STATS:
            out.append(256)
    return out


def check_wire(case, rig, wire, tag, unsupported, first):
    asked = {}
    for req, res in wire:
        sizes = groups(req)
        if sum(sizes) > rig.limit():
            case.expect(len(sizes) == 1, "overloaded",
                        f"{tag}: estimated {sum(sizes)} > {rig.limit()}: {({k: list(v) for k, v in req.items() if k != 'context'})}")
        for module, methods in req.items():
            if module == "context":
                continue
            key = (context(req), module)
            if not first:
                case.expect(key not in unsupported, "asked-unsupported", f"{tag}: {key} asked again")
            for m in methods:
                asked[key, m] = asked.get((key, m), 0) + 1
            if res[module].get("err_code"):
                unsupported.add(key)
                case.covered("unsupported")
    for (key, m), n in asked.items():
        ok = 2 if first and key[1] == "system" else 1
        case.expect(n <= ok, "asked-twice", f"{tag}: {key} {m} asked {n} times in one update")
    case.count("requests", len(wire))
    return asked


def answers(wire):
    out = {}
    for req, res in wire:
        for module, methods in req.items():
            if module == "context":
                continue
            for m in methods:
                if m in res.get(module, {}):
                    out[context(req), module, m] = res[module][m]
    return out


def module_data(rig, d):
    """{(module name, wire module, method): data the library holds}."""
    out = {}
    for name, m in d.modules.items():
        if m._device is not d:
            continue
        for key, methods in m.query().items():
            if key == "context":
                continue
            for meth in methods:
                try:
                    out[str(name), key, meth] = copy.deepcopy(m.data[meth])
                except Exception as ex:  # noqa: BLE001
                    out[str(name), key, meth] = ex
    return out


def check_data(case, rig, wire, tag, unsupported):
    got = answers(wire)
    si = rig.model.sysinfo
    case.expect(rig.dev.sys_info == {**si, "err_code": 0}, "stale", f"{tag}: system information is not that of this update")
    for d in (rig.dev, *rig.dev.children):
        c = ctx_of(rig, d)
        data = module_data(rig, d)
        case.count("data_compared", len(data))
        for (name, key, meth), val in data.items():
            want = got.get((c, key, meth))
            if want is None:
                case.violate("not-read", f"{tag}: {name} of {c}: {key}.{meth} was not read in this update")
                continue
            case.expect(not isinstance(val, Exception) and val == want, "stale", f"{tag}: {name} of {c}: {key}.{meth} is {str(val)[:80]}, the device said {str(want)[:80]}")
        for name, m in d.modules.items():
            if m._device is d and m.query():
                for key in m.query():
                    case.expect((c, key) not in unsupported, "unsupported-module", f"{tag}: {name} of {c} is listed though {key} is unsupported")
        # every module that was asked and answered is there
        served = {key for (cc, key, meth) in got if cc == c and key != "system" and (c, key) not in unsupported}
        have = {key for m in d.modules.values() if m._device is d for key in m.query()}
        case.expect(served <= have, "missing-module", f"{tag}: {c} answered for {served - have} but no module shows it")


def classes(rig):
    return {rig.cls, IotStripPlug} if rig.kids else {rig.cls}


def patch(rig):
    if rig.patched is None:
        return None
    keep = {c: c.__dict__.get("max_device_response_size") for c in classes(rig)}
    for c in keep:
        c.max_device_response_size = property(lambda self: rig.patched)
    return keep


def unpatch(rig, keep):
    for c, old in (keep or {}).items():
        if old is None:
            del c.max_device_response_size
        else:
            c.max_device_response_size = old


def f_update(case):
    rng = case.rng

    async def main(loop):
        rig = Rig(case)
        keep = patch(rig)
        try:
            unsupported, split, spent = set(), False, 0
            for n in range(rng.choice([2, 3, 4, 6])):
                rig.wire.clear()
                await rig.dev.update()
                spent += 1
                tag = f"{rig.name} limit {rig.limit()} update {n}"
                case.event("update", n, [(context(r), {k: sorted(v) for k, v in r.items() if k != "context"}) for r, _ in rig.wire])
                check_wire(case, rig, rig.wire, tag, unsupported, n == 0)
                check_data(case, rig, rig.wire, tag, unsupported)
                if n and len([1 for r, _ in rig.wire if context(r) is None]) > 1:
                    split = True
                    case.covered("split")
                if case.violations:
                    break
                if rng.random() < 0.7:
                    rig.vary()
                if rig.bad:
                    case.covered("method-error")
                    if rng.random() < 0.4:
                        rig.bad.pop(rng.choice(sorted(rig.bad)))
            case.covered("strip" if rig.kids else "single")
            if "light_state" in rig.model.sysinfo:
                case.covered("bulb")
            case.sample = (rig.name, spent, len(rig.tr.requests))
            if split or unsupported:
                case.nontrivial((rig.name, case.index))
        finally:
            unpatch(rig, keep)

    finish(case, vrun(main, max_steps=3_000_000))


def f_fail(case):
    """A request of an update fails: every device has all of the old data or all of the new."""
    rng = case.rng

    async def main(loop):
        rig = Rig(case)
        keep = patch(rig)
        try:
            await rig.dev.update()
            unsupported = set()
            for req, res in rig.wire:
                unsupported |= {(context(req), k) for k in req if k != "context" and res[k].get("err_code")}
            failed = 0
            for n in range(rng.choice([2, 4])):
                await asyncio_sleep(rng)
                old = {ctx_of(rig, d): (module_data(rig, d), copy.deepcopy(d.sys_info)) for d in (rig.dev, *rig.dev.children)}
                rig.vary()
                rig.wire.clear()
                nth, seen = rng.choice([0, 0, 1, 1, 2, 3]), [0]
                start = len(rig.tr.requests)
                kinds = [KasaException("broken"), KasaException("other")]

                def fail(n, r, nth=nth, start=start):
                    i = len(rig.tr.requests) - start - 1
                    return rng.choice(kinds) if i == nth else None

                rig.tr.fail = fail
                err = None
                try:
                    await rig.dev.update()
                except KasaException as ex:
                    err = ex
                rig.tr.fail = None
                hit = len(rig.tr.requests) - start > nth
                tag = f"{rig.name} limit {rig.limit()}: request {nth} of update {n} failed"
                case.event("fail", nth, repr(err))
                case.expect((err is not None) == hit, "error", f"{tag}: {err!r}")
                if hit:
                    failed += 1
                    case.covered("failed", *(["strip"] if rig.kids else []), *(["split"] if nth else []))
                new = answers(rig.wire)
                for d in (rig.dev, *rig.dev.children):
                    c = ctx_of(rig, d)
                    now = module_data(rig, d)
                    was = old[c][0]
                    fresh = {k: new.get((c, k[1], k[2])) for k in was}
                    case.expect(now == was or now == fresh, "mixed", f"{tag}: {c} holds a mixture: "
                                f"{[k for k in now if now[k] != was[k]][:3]} new, {[k for k in now if now[k] != fresh[k]][:3]} old")
                if hit and not rig.kids:
                    case.expect(module_data(rig, rig.dev) == old[None][0], "mixed", f"{tag}: data changed although the update failed")
                rig.wire.clear()
                await rig.dev.update()
                check_wire(case, rig, rig.wire, tag + ", next update", set(unsupported), False)
                check_data(case, rig, rig.wire, tag + ", next update", unsupported)
                if case.violations:
                    break
            case.sample = (rig.name, failed, len(rig.tr.requests))
            if failed:
                case.nontrivial((rig.name, case.index))
        finally:
            unpatch(rig, keep)

    finish(case, vrun(main, max_steps=3_000_000))


async def asyncio_sleep(rng):
    import asyncio
    await asyncio.sleep(rng.choice([0, 1, 60]))


def f_before(case):
    """Reading anything before the first update gives a value or the library's error."""
    rng = case.rng

    async def main(loop):
        rig = Rig(case, limit=False)
        dev = rig.dev
        tag = rig.name
        if rng.random() < 0.4:
            dev.update_from_discover_info({"system": {"get_sysinfo": copy.deepcopy(rig.model.sysinfo)}})
            case.covered("discovered")
            tag += " discovered"
        raised = 0
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for name in sorted(dir(type(dev))):
                if name.startswith("_") or not isinstance(inspect.getattr_static(type(dev), name), property):
                    continue
                try:
                    getattr(dev, name)
                except KasaException:
                    raised += 1
                except Exception as ex:  # noqa: BLE001
                    case.violate("wrong-error", f"{tag}: {name} before the first update: {ex!r}")
                case.covered("property")
                case.count("properties")
        case.expect(not rig.tr.requests, "asked", f"{tag}: reading properties sent {rig.tr.requests}")
        await dev.update()
        case.sample = (rig.name, raised)
        if raised:
            case.nontrivial((rig.name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


FAMILIES = [Family("update", f_update, 500, 8000), Family("fail", f_fail, 300, 5000), Family("before", f_before, 150, 1500)]
