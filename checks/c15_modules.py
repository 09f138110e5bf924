"""C15: a failing module never breaks the update of a SMART device; pauses, disabling and recovery are as documented."""
from __future__ import annotations

import asyncio
import json

from kasa import KasaException, TimeoutError
from kasa.exceptions import _ConnectionError

from kmon import refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: update histories on stateful device models with injected per-method errors, batch failures, outages and "
             "clock steps; an online reference of when each module is due decides from the device-side execution log and the stamped answers")
NOTE = "every SMART and camera fixture, hubs and strips with children; faults per device and method, exact interval boundaries"
RULE = "a case = one update history; non-trivial = at least one module query failed or an interval boundary was crossed"
ASSUMPTIONS = ("Once disabled a module is not asked again: recovery is claimed for modules that failed fewer than ten times in a row.",
               "The answer to get_device_info/getDeviceInfo is the device itself answering; without it the update fails.",
               "Features that exist only when a module reported a value (voltage, current) are decided by the first successful update.",
               "A strip that does not report its children on the first update gets none (the list of components is read once).")
# seconds between two queries of a module (documented constants); children of hubs are asked once a day
INTERVALS = {"Led": 3600, "Firmware": 86400, "LightTransition": 60, "LightPreset": 60, "Cloud": 60, "TriggerLogs": 3600,
             "ChildSetup": 86400, "LightEffect": 86400}
CAM_INTERVALS = {"ChildSetup": 86400}
DAY, PAUSE, LIMIT = 86400, 30, 10
INFO = ("get_device_info", "getDeviceInfo")
CODES = [-1001, -1002, -1005, -1008, -1401, -2001, -40101, -40210, -1301, -1012, 9999, -1501, 1100, -40401]
REQUIRED_COVER = ["faults:error", "faults:batch-failed", "faults:outage", "faults:interval-kept", "faults:interval-due", "faults:child-error",
                  "faults:recovered", "faults:no-children-update", "faults:info-failed", "faults:fresh-compared", "faults:child-due",
                  "backoff:paused", "backoff:due", "backoff:disabled", "backoff:recovered", "backoff:boundary-before",
                  "backoff:boundary-at", "first:failed", "first:outage", "first:info-error", "first:module-error", "first:complete",
                  "first:hub", "first:strip", "first:cam"]


def ticks(obj, out=None):
    out = set() if out is None else out
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k == "_tick":
                out.add(v)
            else:
                ticks(v, out)
    elif isinstance(obj, list):
        for v in obj:
            ticks(v, out)
    return out


class Stamp:
    """Stamps every answer of a model with the number of the update it was given in."""

    def __init__(self, model):
        self.n = 0
        self.answers: dict = {}       # (device id, method) -> tick
        model.hooks.append(self.hook)

    def hook(self, model, method, params):
        if method in ("control_child", "controlChild"):
            return
        try:
            model.get(method, None)
        except Exception:  # noqa: BLE001
            pass
        val = model.info.get(method)
        if not isinstance(val, dict):
            return
        val["_tick"] = self.n
        if isinstance(model, sims.CamModel):
            for v in val.values():
                if isinstance(v, dict):
                    v["_tick"] = self.n
            if method == "getDeviceInfo":
                val["device_info"]["basic_info"]["_tick"] = self.n
        if method in ("get_child_device_list", "getChildDeviceList"):
            for v in val["child_device_list"]:
                v["_tick"] = self.n


class Ref:
    """What is expected of one device (parent or child)."""

    def __init__(self, case, dev, did, cam, hub_child):
        self.case, self.dev, self.did, self.hub_child = case, dev, did, hub_child
        self.intervals = CAM_INTERVALS if cam else INTERVALS
        self.state: dict = {}     # module name -> [last lo, last hi, errors]
        self.store: dict = {}     # method -> tick or "err"
        self.bind(dev)

    def bind(self, dev):
        self.dev = dev
        self.mods = {}
        for m in dev.modules.values():
            q = m.query()
            if q:
                self.mods[m.name] = (m, list(q))
                self.state.setdefault(m.name, [None, None, 0])
        self.shared = {k for _, ks in self.mods.values() for k in ks if sum(k in o for _, o in self.mods.values()) > 1}

    def interval(self, name):
        err = self.state[name][2]
        if err:
            return PAUSE * err
        return DAY if self.hub_child else self.intervals.get(name, 0)

    def due(self, name, lo, hi):
        """True, False or None (cannot tell)."""
        a, b, err = self.state[name]
        if err >= LIMIT:
            return False
        iv = self.interval(name)
        if a is None or not iv or lo - b >= iv:
            return True
        return False if hi - a < iv else None

    def errs(self, name):
        mod, keys = self.mods[name]
        if name in ("DeviceModule", "devicemodule"):
            return False
        need = [k for k in keys if not (name == "Energy" and k == "get_energy_usage" and len(keys) > 1)]
        return any(self.store.get(k, "err") == "err" for k in need)

    def expected(self, lo, hi):
        must, may = set(), set()
        for name, (_, keys) in self.mods.items():
            d = self.due(name, lo, hi)
            if d:
                must |= set(keys)
            elif d is None:
                may |= set(keys)
        return must, may

    def settle(self, lo, hi, executed, hooks=True, force=()):
        """Book one update: answers, then which modules are fine. ``force``: queried without this device executing it."""
        due = {}
        for name, (_, keys) in self.mods.items():
            d = self.due(name, lo, hi)
            if d is None:
                d = all(k in executed or k in force for k in keys)
            due[name] = d
        for k, v in executed.items():
            if v != "err" or k not in INFO:     # the last known device info is kept
                self.store[k] = v
        for k in force:
            if k not in executed and k not in INFO:
                self.store[k] = "err"
        if not hooks:
            return
        for name in self.mods:
            st = self.state[name]
            if st[2] >= LIMIT:
                continue
            bad = self.errs(name)
            if due[name]:
                st[0], st[1] = lo, hi
                if bad:
                    st[2] += 1
                    self.case.covered("error", *(["child-error"] if self.did else []), *(["disabled"] if st[2] == LIMIT else []))
                else:
                    if st[2]:
                        self.case.covered("recovered")
                    st[2] = 0
            elif not bad:
                st[2] = 0

    def judge(self, tag):
        for name, (mod, keys) in self.mods.items():
            err = self.state[name][2]
            self.case.expect(mod.disabled == (err >= LIMIT), "disabled-wrong", f"{tag} {name}: disabled {mod.disabled} after {err} failures in a row")
            if err >= LIMIT and self.shared & set(keys):
                continue
            need = [k for k in keys if not (name == "Energy" and k == "get_energy_usage" and len(keys) > 1)]
            bad = [k for k in need if self.store.get(k, "err") == "err"]
            if name in ("DeviceModule", "devicemodule"):
                # the device info is always known; the usage is not read by the first update
                bad = [k for k in bad if k in self.store and k not in INFO]
            try:
                data = mod.data
            except KasaException as ex:
                self.case.expect(bad, "module-unavailable", f"{tag} {name}: {ex!r} although {keys} were answered")
                continue
            except Exception as ex:  # noqa: BLE001
                self.case.violate("module-raises", f"{tag} {name}: {ex!r}")
                continue
            if bad:
                self.case.violate("error-hidden", f"{tag} {name}: no error although {bad} failed: {data!r:.200}")
                continue
            want = {self.store[k] for k in keys if self.store.get(k, "err") != "err"}
            got = ticks(data)
            self.case.expect(got <= want and max(want) in got, "stale-data", f"{tag} {name}: data of update {sorted(got)}, last read in {sorted(want)}")
            self.case.count("module_data_checked")

    def next_due(self, now):
        """Moments at which a module becomes due."""
        out = []
        for name in self.mods:
            a, b, err = self.state[name]
            if a is not None and err < LIMIT and self.interval(name):
                t = b + self.interval(name)
                if t > now:
                    out.append((t, bool(err)))
        return out


def nreq(text):
    n = 1
    obj = json.loads(text)
    stack = [obj]
    while stack:
        o = stack.pop()
        if isinstance(o, dict):
            if isinstance(o.get("requests"), list):
                n = max(n, len(o["requests"]))
            stack += [v for v in o.values() if isinstance(v, (dict, list))]
        elif isinstance(o, list):
            stack += [v for v in o if isinstance(v, (dict, list))]
    return n


def build(rng):
    r = rng.random()
    if r < 0.3:
        cam = True
        hub = rng.random() < 0.5
        names = [n for n in sims.names("smartcam") if n.startswith("H200") == hub]
        kids = rng.sample(sims.names("smart/child") + sims.names("smartcam/child"), rng.randrange(0, 5)) if hub else None
        model = sims.cam_model(rng.choice(names), rng, children=kids)
        return model, sims.cam_device, True, "cam"
    if r < 0.45:
        return sims.smart_model(rng.choice(sims.smart_parents()), rng), sims.smart_device, False, "strip"
    if r < 0.6:
        kids = rng.sample(sims.names("smart/child"), rng.randrange(0, 6))
        return sims.smart_model(rng.choice(sims.hub_names()), rng, children=kids), sims.smart_device, False, "hub"
    names = [n for n in sims.names("smart") if not n.startswith(("H100", "KH100", "H200"))]
    return sims.smart_model(rng.choice(names), rng), sims.smart_device, False, "plain"


class World:
    def __init__(self, case, loop):
        self.case, self.rng, self.loop = case, case.rng, loop
        self.model, self.make, self.cam, self.shape = build(self.rng)
        self.stamp = Stamp(self.model)
        self.dev, self.tr = self.make(self.model)
        self.faults: dict = {}        # (device id, method) -> code
        self.mode = None              # None | batch | out
        self.exc = None
        self.model.fault = lambda m, meth, p: self.faults.get((m.device_id if m.parent else None, meth))
        self.tr.fail = self.fail
        self.root: Ref | None = None
        self.kids: dict = {}
        self.child_tick = None

    def fail(self, n, text):
        if self.mode == "out" or self.mode == "batch" and nreq(text) > 1:
            return self.exc()
        return None

    def executed(self, since):
        out: dict = {}
        for did, method, _, code in self.model.log[since:]:
            if method in ("control_child", "controlChild"):
                continue
            out.setdefault(did, {})[method] = self.stamp.n if code == 0 else "err"
        return out

    def bind(self):
        if self.root is None:
            self.root = Ref(self.case, self.dev, None, self.cam, False)
        else:
            self.root.bind(self.dev)
        hub = self.shape == "hub" or self.cam
        for c in self.dev.children:
            if c.device_id not in self.kids:
                self.kids[c.device_id] = Ref(self.case, c, c.device_id, self.cam and not isinstance(self.model.children[c.device_id], sims.SmartModel), hub)

    async def first(self):
        """A first update without faults."""
        self.stamp.n += 1
        lo = self.loop.time()
        await self.dev.update()
        hi = self.loop.time()
        self.bind()
        self.name = self.dev.model
        ex = self.executed(0)
        self.root.settle(lo, lo, ex.get(None, {}))
        for cid, ref in self.kids.items():
            ref.settle(lo, hi, ex.get(cid, {}))
        self.child_tick = self.stamp.n
        self.judge("first update")

    def judge(self, tag):
        self.root.judge(tag)
        for cid, ref in self.kids.items():
            ref.judge(f"{tag} child {ref.dev.model}")

    async def update(self, update_children=True, child=None):
        case = self.case
        self.stamp.n += 1
        n = self.stamp.n
        since = len(self.model.log)
        lo = self.loop.time()
        target = self.kids[child].dev if child else self.dev
        tag = f"{self.name} update {n} mode {self.mode} faults {[k[1] for k in self.faults]}"
        err = None
        try:
            await target.update(update_children)
        except KasaException as ex:
            err = ex
        except Exception as ex:  # noqa: BLE001
            case.violate("update-raised", f"{tag}: {ex!r}")
            return
        hi = self.loop.time()
        ex = self.executed(since)
        case.event("update", n, lo, hi, type(err).__name__, {str(k): v for k, v in ex.items()})
        if child:
            case.expect(err is None, "update-failed", f"{tag}: child update {err!r}")
            case.expect(set(ex) <= {child}, "queried-others", f"{tag}: {set(ex)} for an update of {child}")
            self.child_step(child, lo, hi, ex, tag)
            self.judge(tag)
            return
        # the parent
        try:
            case.expect(self.dev.model == self.name and self.name in repr(self.dev), "model-lost", f"{tag}: {self.dev!r}")
        except Exception as ex:  # noqa: BLE001
            case.violate("model-lost", f"{tag}: {ex!r}")
        info_bad = self.mode == "out" or (None, INFO[self.cam]) in self.faults
        mine = ex.get(None, {})
        must, _ = self.root.expected(lo, lo)
        if self.mode != "out":
            self.schedule(self.root, mine, must, set(), tag)
        if info_bad:
            case.covered("outage" if self.mode == "out" else "info-failed")
            case.expect(err is not None, "update-silent", f"{tag}: the device did not answer but update() succeeded")
            case.expect(not any(k for k in ex if k is not None), "queried-others", f"{tag}: children asked although the device failed")
            self.root.settle(lo, lo, mine, hooks=False, force=must)
            return
        case.expect(err is None, "update-failed", f"{tag}: {err!r}")
        if err is not None:
            return
        self.root.settle(lo, lo, mine)
        lists = [k for k in self.root.store if k in ("get_child_device_list", "getChildDeviceList", "get_child_device_component_list",
                                                     "getChildDeviceComponentList")]
        if lists and all(self.root.store[k] != "err" for k in lists):
            self.child_tick = max(self.root.store[k] for k in lists if "component" not in k.lower())
        for cid in list(self.kids):
            if self.is_hub() and not update_children:
                case.expect(not ex.get(cid), "queried-others", f"{tag}: child asked {ex.get(cid)} with update_children=False")
                case.covered("no-children-update")
                continue
            self.child_step(cid, lo, hi, ex, tag)
        self.judge(tag)
        case.expect(self.dev.sys_info.get("_tick") == n, "stale-info", f"{tag}: device info of update {self.dev.sys_info.get('_tick')}")
        for ref in self.kids.values():
            case.expect(ref.dev.sys_info.get("_tick") == self.child_tick, "stale-info",
                        f"{tag}: child info of update {ref.dev.sys_info.get('_tick')}, last read in {self.child_tick}")

    def is_hub(self):
        return self.shape == "hub" or self.cam

    def child_step(self, cid, lo, hi, ex, tag):
        ref = self.kids[cid]
        mine = ex.get(cid, {})
        must, may = ref.expected(lo, hi)
        if self.mode == "out":
            ref.settle(lo, hi, {}, force=must | may if lo == hi else must)
            return
        self.schedule(ref, mine, must, may, tag + f" child {ref.dev.model}")
        ref.settle(lo, hi, mine)

    def schedule(self, ref, mine, must, may, tag):
        case = self.case
        got = set(mine)
        if must - got:
            case.violate("not-asked", f"{tag}: {sorted(must - got)} was due: {self.why(ref, must - got)}")
        extra = got - must - may
        if extra:
            case.violate("asked-too-early", f"{tag}: {sorted(extra)} was not due: {self.why(ref, extra)}")
        kept = {k for _, ks in ref.mods.values() for k in ks} - got
        if kept:
            case.covered("interval-kept")
        for name, (_, keys) in ref.mods.items():
            iv = ref.intervals.get(name) if not ref.hub_child else DAY
            st = ref.state[name]
            if iv and st[0] is not None and set(keys) <= got:
                case.covered("child-due" if ref.did else "interval-due")
            if st[2]:
                case.covered("due" if set(keys) <= got else "paused")
        case.count("schedule_checked", len(ref.mods))

    def why(self, ref, keys):
        return [(n, dict(zip(("last", "_", "errors"), ref.state[n])), ref.interval(n), self.loop.time()) for n, (_, ks) in ref.mods.items()
                if set(ks) & set(keys)][:3]

    def pairs(self, critical=False):
        """(device id, method) of every module query."""
        out = []
        for ref in [self.root, *self.kids.values()]:
            for _, keys in ref.mods.values():
                out += [(ref.did, k) for k in keys if critical or k not in INFO]
        return sorted(set(out), key=str)

    def snapshot(self, dev):
        out = {}
        for fid, f in dev.features.items():
            if fid == "on_since" or f.type is type(f).Type.Action:
                continue
            try:
                v = f.value
            except Exception as ex:  # noqa: BLE001
                v = type(ex).__name__
            out[fid] = repr(v)
        return out

    async def compare_fresh(self, missing_ok=False):
        """The recovered device is indistinguishable from one set up just now."""
        case = self.case
        fresh, _ = self.make(self.model)
        self.stamp.n += 1
        await fresh.update()
        pairs = [(self.dev, fresh)]
        mine, new = ({c.device_id: c for c in d.children} for d in (self.dev, fresh))
        case.expect(list(mine) == list(new), "not-recovered", f"{self.dev.model}: children {list(mine)} of {list(new)}")
        pairs += [(mine[k], new[k]) for k in mine if k in new]
        for a, b in pairs:
            case.expect(list(map(str, a.modules)) == list(map(str, b.modules)), "not-recovered",
                        f"{a.model}: modules {list(map(str, a.modules))} of {list(map(str, b.modules))}")
            if any(m.disabled for m in a.modules.values()):
                continue
            x, y = self.snapshot(a), self.snapshot(b)
            diff = {k: (x.get(k), y.get(k)) for k in {*x, *y} if x.get(k) != y.get(k) and not (missing_ok and k not in x)}
            case.expect(not diff, "not-recovered", f"{a.model}: features (recovered, fresh) {diff}")
            case.covered("fresh-compared")
            case.count("features_compared", len(y))


GAPS = [0, 1, 1, 5, 10, 29, 30, 31, 59, 60, 61, 90, 120, 300, 3599, 3600, 3601, 86399, 86400, 86401]
EXC = [lambda: TimeoutError("slow"), lambda: _ConnectionError("gone"), lambda: KasaException("odd"), lambda: KeyError("x")]


def gap(w, rng, bias):
    if rng.random() < bias:
        refs_ = [w.root, *w.kids.values()]
        nxt = [t for r in refs_ for t in r.next_due(w.loop.time())]
        err = [t for t, e in nxt if e]
        nxt = err if err and rng.random() < 0.8 else [t for t, _ in nxt]
        if nxt:
            t = min(nxt) if rng.random() < 0.7 else rng.choice(nxt)
            d = rng.choice([-1, 0, 0, 0, 1])
            w.case.covered("boundary-before" if d < 0 else "boundary-at")
            return max(0, t - w.loop.time() + d)
    return rng.choice(GAPS)


def f_faults(case):
    rng = case.rng

    async def main(loop):
        w = World(case, loop)
        await w.first()
        for _ in range(rng.choice([4, 8, 14])):
            if rng.random() < 0.5:
                for k in list(w.faults):
                    if rng.random() < 0.5:
                        del w.faults[k]
            if rng.random() < 0.6:
                for k in rng.sample(w.pairs(), min(len(w.pairs()), rng.choice([1, 1, 2, 5]))):
                    w.faults[k] = rng.choice(CODES)
            if rng.random() < 0.08:
                w.faults[(None, INFO[w.cam])] = rng.choice(CODES[:6])
            else:
                w.faults.pop((None, INFO[w.cam]), None)
            r = rng.random()
            w.mode = "batch" if r < 0.15 else "out" if r < 0.27 else None
            w.exc = rng.choice(EXC)
            await asyncio.sleep(gap(w, rng, 0.3))
            child = None
            if w.kids and w.mode is None and rng.random() < 0.15:
                child = rng.choice(list(w.kids))
            if w.mode == "batch":
                case.covered("batch-failed")
            await w.update(update_children=rng.random() < 0.8, child=child)
            if case.violations:
                break
        w.faults.clear()
        w.mode = None
        if not case.violations:
            await asyncio.sleep(2 * DAY)
            await w.update()
            await w.compare_fresh()
        case.sample = (w.dev.model, w.stamp.n, len(w.model.log))
        case.nontrivial((w.dev.model, case.index))

    finish(case, vrun(main, max_steps=2_000_000))


def f_backoff(case):
    rng = case.rng

    async def main(loop):
        w = World(case, loop)
        await w.first()
        cand = w.pairs()
        if not cand:
            return
        kids = [p for p in cand if p[0]]
        bad = rng.choice(kids) if kids and rng.random() < 0.3 else rng.choice(cand)
        code = rng.choice(CODES)
        w.faults[bad] = code
        total = rng.choice([4, 12, 26, 26])
        for i in range(total):
            await asyncio.sleep(gap(w, rng, 0.85))
            if rng.random() < 0.05:
                w.faults.pop(bad, None)
            elif rng.random() < 0.1:
                w.faults[bad] = code
            await w.update()
            if case.violations:
                break
        w.faults.clear()
        if not case.violations:
            await asyncio.sleep(2 * DAY)
            await w.update()
            await w.compare_fresh()
        case.sample = (w.dev.model, bad[1], w.stamp.n)
        case.nontrivial((w.dev.model, bad[1], case.index))

    finish(case, vrun(main, max_steps=2_000_000))


def f_first(case):
    """Failing first updates, then a device that answers."""
    rng = case.rng

    async def main(loop):
        w = World(case, loop)
        how = rng.choice(["outage", "outage", "info-error", "module-error"])
        nego = ["getAppComponentList"] if w.cam else ["component_nego"]
        n = 0
        partial = how == "module-error"
        if partial:
            # only methods of modules: the update succeeds, the modules come later
            probe, _ = w.make(w.model)
            await probe.update()
            w.stamp.n += 1
            w.dev, w.tr = probe, None
            w.bind()
            keep = ("get_child_device_component_list", "get_child_device_list", "getChildDeviceList", "getChildDeviceComponentList")
            cand = [p for p in w.pairs() if p[1] not in keep and p[0] is None and p[1] not in ("get_connect_cloud_state", "getConnectionType")]
            w.root, w.kids = None, {}
            w.dev, w.tr = w.make(w.model)
            w.tr.fail = w.fail
            for k in rng.sample(cand, min(len(cand), rng.choice([1, 2, 4]))):
                w.faults[k] = rng.choice(CODES)
            w.stamp.n += 1
            tag = f"{w.shape} first update with {[(k[1], v) for k, v in w.faults.items()]}"
            try:
                await w.dev.update()
            except KasaException as ex:
                case.violate("update-failed", f"{tag}: {ex!r}")
            except Exception as ex:  # noqa: BLE001
                case.violate("update-raised", f"{tag}: {ex!r}")
            case.covered("module-error")
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                w.mode, w.faults = None, {}
                if how == "outage":
                    w.mode = "late"
                    limit = len(w.tr.requests) + rng.choice([0, 0, 1, 1, 2, 3])
                    w.exc = rng.choice(EXC)
                    w.tr.fail = lambda i, text: w.exc() if i >= limit else None
                    case.covered("outage")
                else:
                    w.faults = {(None, rng.choice(nego + [INFO[w.cam]])): rng.choice(CODES)}
                    case.covered("info-error")
                w.stamp.n += 1
                try:
                    await w.dev.update()
                    case.event("first update succeeded")
                    partial = True
                except KasaException:
                    n += 1
                except Exception as ex:  # noqa: BLE001
                    case.violate("update-raised", f"{w.shape} {how}: {ex!r}")
                await asyncio.sleep(rng.choice([0, 1, 30]))
            if n:
                case.covered("failed")
        w.faults, w.mode, w.tr.fail = {}, None, None
        await asyncio.sleep(rng.choice([0, 1, 5, 30, 60]))
        w.stamp.n += 1
        try:
            await w.dev.update()
        except Exception as ex:  # noqa: BLE001
            case.violate("not-recovered", f"{w.shape} {how}: update of a working device: {ex!r}")
            return
        await asyncio.sleep(2 * DAY)
        w.stamp.n += 1
        await w.dev.update()
        await w.compare_fresh(missing_ok=partial)
        case.covered("complete", w.shape)
        case.sample = (w.dev.model, how, n)
        case.nontrivial((w.dev.model, how, case.index))

    finish(case, vrun(main, max_steps=2_000_000))


FAMILIES = [Family("faults", f_faults, 500, 8000), Family("backoff", f_backoff, 300, 5000), Family("first", f_first, 400, 6000)]
