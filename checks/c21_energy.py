"""C21: energy and usage figures are in the documented units and sum up; on_since is stable and true."""
from __future__ import annotations

import asyncio
import copy
import datetime
import math

from kasa import Device, KasaException, Module
from kasa.emeterstatus import EmeterStatus

from kmon import clock, sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: simulated meters with known physical values reported in every format; an oracle compares every public figure, feature and "
             "statistic of devices, sockets and strips with the physical values in the documented unit on arbitrary calendar days, and an online checker follows "
             "the reported switch-on moment over histories of switching, jittering and jumping device clocks")
NOTE = "all legacy devices with meters, all SMART devices with energy modules and on_time; old and new value formats; days around month, year and DST changes"
RULE = "a case = one device and a history of readings; non-trivial = at least one figure or switch-on moment was compared with its physical value"
ASSUMPTIONS = ("Host and device agree on the calendar day.",
               "The sockets of a strip report in the same format (milli units, as all known strips do).",
               "One reading of a device uses one format.",
               "The hour a legacy device's local clock shows twice at the end of daylight saving is not examined.")
REQUIRED_COVER = ["iot:new", "iot:old", "iot:partial", "iot:strip", "iot:bulb", "iot:stats", "iot:rollover", "iot:nextday", "smart:v1", "smart:v2", "smart:fallback",
                  "smart:child", "status:new", "status:old", "since:iot", "since:strip", "since:smart", "since:child", "since:jitter", "since:jump-back",
                  "since:jump-forward", "since:off", "since:dst", "since:restart"]
UTC = datetime.timezone.utc
IOTS = SMARTS = ONTIME = None


def lists():
    global IOTS, SMARTS, ONTIME
    if IOTS is None:
        IOTS, SMARTS, ONTIME = [], [], []
        for n in sims.names("iot"):
            si = sims.iot_model(n).sysinfo
            if "ENE" in si.get("feature", "") or "light_state" in si:
                IOTS.append(n)
        for n in sims.names("smart"):
            f = sims.load("smart", n)
            recs = [f["get_device_info"], *(c.get("get_device_info", {}) for c in f.get("child_devices", {}).values())]
            comps = str(f.get("component_nego")) + str(f.get("get_child_device_component_list"))
            if "energy_monitoring" in comps and "get_energy_usage" in f or any("get_energy_usage" in c for c in f.get("child_devices", {}).values()):
                SMARTS.append(n)
            if any("on_time" in r for r in recs):
                ONTIME.append(n)
    clock.install()


def near(a, b, tol=0.0):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and math.isclose(a, b, rel_tol=1e-9, abs_tol=max(tol, 1e-9))


# -- legacy meters ----------------------------------------------------
class Meter:
    """What one meter (device or socket) measures, in base units."""

    def __init__(self, rng, fmt):
        self.rng, self.fmt, self.salt = rng, fmt, rng.getrandbits(32)
        self.fields = ("power", "current", "voltage", "total")
        if fmt == "partial":
            self.fields = tuple(rng.choice([("power",), ("power", "total"), ("power", "voltage", "current")]))
        self.read()

    def read(self):
        r = self.rng
        self.mw, self.ma = r.choice([0, r.randrange(1, 4_000_000)]), r.choice([0, r.randrange(1, 16_000)])
        self.mv, self.wh = r.choice([0, r.randrange(90_000, 260_000)]), r.choice([0, r.randrange(1, 9_000_000)])

    def realtime(self):
        v = {"power": self.mw, "current": self.ma, "voltage": self.mv, "total": self.wh}
        unit = {"power": "mw", "current": "ma", "voltage": "mv", "total": "wh"}
        keys = list(self.fields)
        self.rng.shuffle(keys)
        if self.fmt == "old":
            return {k: v[k] / 1000 for k in keys}
        return {f"{k}_{unit[k]}": v[k] for k in keys}

    def want(self, k):
        return {"power": self.mw, "current": self.ma, "voltage": self.mv, "total": self.wh}[k] / 1000 if k in self.fields else None

    def _hash(self, *key):
        return hash((self.salt, *key)) & 0xffff

    def day_wh(self, y, m, d):
        h = self._hash("day", y, m, d)
        return None if h % 7 == 0 else h % 9000

    def month_wh(self, y, m):
        h = self._hash("month", y, m)
        return None if h % 9 == 0 else h * 3

    def minutes(self, y, m, d=None):
        h = self._hash("min", y, m, d)
        return None if h % 7 == 0 else h % (1441 if d else 40000)

    def daystat(self, y, m, upto, kind):
        f = self.day_wh if kind == "energy" else self.minutes
        return [self.row({"year": y, "month": m, "day": d}, f(y, m, d), kind) for d in range(1, days(y, m) + 1)
                if f(y, m, d) is not None and (y, m, d) <= upto]

    def monthstat(self, y, upto, kind):
        f = self.month_wh if kind == "energy" else self.minutes
        return [self.row({"year": y, "month": m}, f(y, m), kind) for m in range(1, 13) if f(y, m) is not None and (y, m) <= upto[:2]]

    def row(self, base, v, kind):
        if kind == "time":
            return {**base, "time": v}
        return {**base, "energy": v / 1000} if self.fmt == "old" else {**base, "energy_wh": v}


def days(y, m):
    return ((datetime.date(y + (m == 12), m % 12 + 1, 1)) - datetime.timedelta(days=1)).day


def moment(rng):
    """A host moment, often next to the end of a day, month or year."""
    y = rng.choice([2019, 2023, 2024, 2025])
    m = rng.randrange(1, 13)
    d = rng.choice([1, days(y, m), rng.randint(1, days(y, m)), rng.randint(1, days(y, m))])
    h, mi = rng.choice([(0, 0), (23, 59), (12, 30)])
    return datetime.datetime(y, m, d, h, mi, rng.randrange(60)).astimezone()


class IotRig:
    def __init__(self, case, name):
        self.case, self.rng, self.name = case, case.rng, name
        rng = self.rng
        self.model = m = sims.iot_model(name)
        self.now = moment(rng)
        sims.iot_enrich(m, rng, self.now.replace(tzinfo=None))
        m.clock = lambda: self.now.replace(tzinfo=None)
        self.sched, _, _, _, self.emeter = sims.iot_module_names(m)
        kids = m.sysinfo.get("children") or []
        self.strip, self.bulb = bool(kids), "light_state" in m.sysinfo
        fmt = "new" if self.strip else rng.choice(["new", "old", "partial"])
        case.covered(fmt, *(["strip"] if self.strip else []), *(["bulb"] if self.bulb else []))
        self.meters = {None: Meter(rng, fmt)}
        for c in kids:
            self.meters[m.child_full_id(c)] = Meter(rng, fmt)
        orig = m.execute

        def execute(module, method, params, child_ids):
            mt = self.meters.get(child_ids[0] if child_ids else None)
            upto = (self.now.year, self.now.month, self.now.day)
            kind = "energy" if module == self.emeter else "time" if module == self.sched else None
            if mt is not None and kind:
                if method == "get_realtime" and kind == "energy":
                    return mt.realtime()
                if method == "get_daystat":
                    return {"day_list": mt.daystat(params["year"], params["month"], upto, kind)}
                if method == "get_monthstat":
                    return {"month_list": mt.monthstat(params["year"], upto, kind)}
            return orig(module, method, params, child_ids)

        m.execute = execute
        self.dev, self.tr = sims.iot_device(m)


def f_iot(case):
    lists()
    rng = case.rng

    async def main(loop):
        rig = IotRig(case, rng.choice([n for n in IOTS if sims.iot_model(n).sysinfo.get("children")]) if rng.random() < 0.25 else rng.choice(IOTS))
        try:
            for n in range(rng.choice([1, 2, 3])):
                clock.set_now(rig.now)
                for m in rig.meters.values():
                    m.read()
                await rig.dev.update()
                tag = f"{rig.name} at {rig.now:%Y-%m-%d %H:%M}"
                socks = [(d, rig.meters[d.child_id]) for d in rig.dev.children]
                for d, mt in ([] if rig.strip else [(rig.dev, rig.meters[None])]) + socks:
                    compare(case, rig, d, mt, f"{tag} {getattr(d, 'child_id', '')}")
                    await stats(case, rig, d, [mt], tag)
                if rig.strip:
                    compare_strip(case, rig, rig.dev, [m for _, m in socks], tag)
                    await stats(case, rig, rig.dev, [m for _, m in socks], tag)
                # a later look at the same data never shows another day as today
                read = rig.now
                later = read + datetime.timedelta(days=rng.choice([1, 1, 2, 28, 30, 31, 365, 366]), minutes=rng.choice([0, 1]))
                clock.set_now(later)
                case.covered("nextday")
                if (later.year, later.month) != (read.year, read.month):
                    case.covered("rollover")
                for d, mt in ([] if rig.strip else [(rig.dev, rig.meters[None])]) + socks:
                    stale(case, d, mt, read, later, f"{tag} read at {later:%Y-%m-%d}")
                if case.violations:
                    break
                rig.now = later if rng.random() < 0.7 else read + datetime.timedelta(minutes=rng.choice([0, 3]))
            case.sample = (rig.name, rig.now.isoformat())
            case.nontrivial((rig.name, case.index))
        finally:
            clock.set_now(None)

    finish(case, vrun(main, max_steps=3_000_000))


def figure(case, tag, name, got, want, tol=0.0, none_ok=False):
    case.count("figures")
    case.event("figure", name, got, want)
    if want is None:
        case.expect(got is None or none_ok and got == 0, "unit", f"{tag}: {name} is {got!r} though the device does not report it")
    else:
        case.expect(near(got, want, tol), "unit", f"{tag}: {name} is {got!r}, physically {want!r}")


def feature(case, tag, d, fid, want, unit, tol=0.0):
    f = d.features.get(fid)
    if f is None:
        case.expect(want is None, "feature", f"{tag}: no feature {fid}")
        return
    case.expect(f.unit == unit, "unit", f"{tag}: feature {fid} is in {f.unit!r}")
    figure(case, tag, f"feature {fid}", f.value, want, tol)


def compare(case, rig, d, mt, tag):
    e = d.modules[Module.Energy]
    y, m, day = rig.now.year, rig.now.month, rig.now.day
    for st, what in ((e.status, "status"),):
        for k in ("power", "current", "voltage", "total"):
            figure(case, tag, f"{what}.{k}", getattr(st, k), mt.want(k))
            if mt.want(k) is not None:
                figure(case, tag, f"{what}[{k}]", st[k], mt.want(k))
                up = {"power": "power_mw", "current": "current_ma", "voltage": "voltage_mv", "total": "total_wh"}[k]
                figure(case, tag, f"{what}[{up}]", st[up], mt.want(k) * 1000)
    figure(case, tag, "current_consumption", e.current_consumption, mt.want("power"))
    figure(case, tag, "current", e.current, mt.want("current"))
    figure(case, tag, "voltage", e.voltage, mt.want("voltage"))
    figure(case, tag, "consumption_total", e.consumption_total, mt.want("total"))
    wh, mwh = mt.day_wh(y, m, day) or 0, mt.month_wh(y, m) or 0
    figure(case, tag, "consumption_today", e.consumption_today, wh / 1000)
    figure(case, tag, "consumption_this_month", e.consumption_this_month, mwh / 1000)
    feature(case, tag, d, "current_consumption", mt.want("power"), "W")
    feature(case, tag, d, "consumption_today", wh / 1000, "kWh")
    feature(case, tag, d, "consumption_this_month", mwh / 1000, "kWh")
    feature(case, tag, d, "consumption_total", mt.want("total"), "kWh")
    feature(case, tag, d, "voltage", mt.want("voltage"), "V")
    feature(case, tag, d, "current", mt.want("current"), "A")
    # which figures exist is decided by what the device reports
    for fid, k in (("consumption_total", "total"), ("voltage", "voltage"), ("current", "current")):
        case.expect((fid in d.features) == (k in mt.fields), "feature", f"{tag}: feature {fid} is {'there' if fid in d.features else 'missing'}, fields {mt.fields}")
    u = d.modules[Module.IotUsage]
    figure(case, tag, "usage_today", u.usage_today, mt.minutes(y, m, day))
    figure(case, tag, "usage_this_month", u.usage_this_month, mt.minutes(y, m))


def compare_strip(case, rig, d, meters, tag):
    e = d.modules[Module.Energy]
    y, m, day = rig.now.year, rig.now.month, rig.now.day
    power, amps, total = (sum(x.want(k) for x in meters) for k in ("power", "current", "total"))
    volts = sum(x.want("voltage") for x in meters) / len(meters)
    st = e.status
    for k, want in (("power", power), ("current", amps), ("total", total)):
        figure(case, tag, f"strip status.{k}", getattr(st, k), want)
    figure(case, tag, "strip status.voltage", st.voltage, volts, 0.0011)
    figure(case, tag, "strip current_consumption", e.current_consumption, power)
    figure(case, tag, "strip current", e.current, amps)
    figure(case, tag, "strip voltage", e.voltage, volts, 0.0011)
    figure(case, tag, "strip consumption_total", e.consumption_total, total)
    wh = sum(x.day_wh(y, m, day) or 0 for x in meters)
    mwh = sum(x.month_wh(y, m) or 0 for x in meters)
    figure(case, tag, "strip consumption_today", e.consumption_today, wh / 1000)
    figure(case, tag, "strip consumption_this_month", e.consumption_this_month, mwh / 1000)
    feature(case, tag, d, "current_consumption", power, "W")
    feature(case, tag, d, "consumption_today", wh / 1000, "kWh")
    feature(case, tag, d, "consumption_this_month", mwh / 1000, "kWh")
    feature(case, tag, d, "consumption_total", total, "kWh")
    feature(case, tag, d, "voltage", volts, "V", 0.0011)
    feature(case, tag, d, "current", amps, "A")


async def stats(case, rig, d, meters, tag):
    """Statistics of a requested period, and the live status."""
    rng, e, now = rig.rng, d.modules[Module.Energy], rig.now
    upto = (now.year, now.month, now.day)
    what = rng.choice(["day", "month", "status", "usage", "day-default", "month-default"])
    y, m = rng.choice([now.year, now.year - 1]), rng.randint(1, 12)
    kwh = rng.choice([None, True, False])
    kw = {} if kwh is None else {"kwh": kwh}
    scale = 1 if kwh is False else 1 / 1000
    case.covered("stats")
    if what == "status":
        st = await e.get_status()
        for k in ("power", "current", "voltage", "total"):
            ws = [x.want(k) for x in meters]
            want = None if None in ws else sum(ws) / (len(ws) if k == "voltage" else 1)
            figure(case, tag, f"get_status {k}", getattr(st, k), want, 0.0011 if k == "voltage" and len(ws) > 1 else 0)
        return
    if what == "usage":
        if len(meters) > 1:
            return
        u = d.modules[Module.IotUsage]
        if rng.random() < 0.5:
            got, want = await u.get_daystat(year=y, month=m), {dd: meters[0].minutes(y, m, dd) for dd in range(1, days(y, m) + 1) if (y, m, dd) <= upto}
        else:
            got, want = await u.get_monthstat(year=y), {mm: meters[0].minutes(y, mm) for mm in range(1, 13) if (y, mm) <= upto[:2]}
        want = {k: v for k, v in want.items() if v is not None}
        case.expect(got == want, "statistics", f"{tag}: usage of {y}-{m}: {got}, want {want}")
        return
    if what.startswith("day"):
        if what == "day-default":
            y, m = now.year, now.month
            got = await e.get_daily_stats(**kw)
        else:
            got = await e.get_daily_stats(year=y, month=m, **kw)
        want = {}
        for x in meters:
            for dd in range(1, days(y, m) + 1):
                if (y, m, dd) <= upto and x.day_wh(y, m, dd) is not None:
                    want[dd] = want.get(dd, 0) + x.day_wh(y, m, dd) * scale
    else:
        if what == "month-default":
            y = now.year
            got = await e.get_monthly_stats(**kw)
        else:
            got = await e.get_monthly_stats(year=y, **kw)
        want = {}
        for x in meters:
            for mm in range(1, 13):
                if (y, mm) <= upto[:2] and x.month_wh(y, mm) is not None:
                    want[mm] = want.get(mm, 0) + x.month_wh(y, mm) * scale
    case.count("statistics", len(want))
    case.event("stats", what, y, m, kwh, dict(got))
    ok = set(got) == set(want) and all(near(got[k], want[k]) for k in want)
    case.expect(ok, "statistics", f"{tag}: {what} statistics of {y}-{m} kwh={kwh}: {dict(got)}, want {want}")


def stale(case, d, mt, read, later, tag):
    """Data read at ``read`` looked at ``later``: today's figures are unknown, the month's only if it is still the same month."""
    e, u = d.modules[Module.Energy], d.modules[Module.IotUsage]
    case.expect(not e.consumption_today, "other-day", f"{tag}: consumption_today is {e.consumption_today}, a figure of another day")
    case.expect(not u.usage_today, "other-day", f"{tag}: usage_today is {u.usage_today}, a figure of another day")
    if (later.year, later.month) == (read.year, read.month):
        figure(case, tag, "consumption_this_month", e.consumption_this_month, (mt.month_wh(read.year, read.month) or 0) / 1000)
    else:
        want = 0
        case.expect(near(e.consumption_this_month or 0, want), "other-month", f"{tag}: consumption_this_month is {e.consumption_this_month}, of another month")
        case.expect(not u.usage_this_month, "other-month", f"{tag}: usage_this_month is {u.usage_this_month}, of another month")


# -- SMART meters -----------------------------------------------------
def f_smart(case):
    lists()
    rng = case.rng

    async def main(loop):
        name = rng.choice(SMARTS)
        model = sims.smart_model(name, rng)
        dev, tr = sims.smart_device(model)
        seen, broken = 0, set()
        model.fault = lambda m, method, params: -1008 if (m.info["get_device_info"]["device_id"], method) in broken else None
        for n in range(rng.choice([1, 2, 4])):
            truth = {}
            if broken:
                broken.clear()
                await asyncio.sleep(600)
            for m in (model, *model.children.values()):
                if "get_energy_usage" in m.info:
                    truth[m.info["get_device_info"]["device_id"]] = meter(case, rng, m)
            if n and rng.random() < 0.3:
                broken |= {(did, rng.choice(["get_energy_usage", "get_emeter_data"])) for did in truth}
            await dev.update()
            for d in (dev, *dev.children):
                t = truth.get(d.device_id)
                e = d.modules.get(Module.Energy)
                if e is None or t is None:
                    continue
                seen += 1
                tag = f"{name} {d.device_id[-6:]}"
                if d is not dev:
                    case.covered("child")
                if (lost := {m for did, m in broken if did == d.device_id}) and (t["kind"] != "v1" or "get_energy_usage" in lost):
                    unread(case, tag, e, t, lost.pop())
                    case.covered("unread")
                    continue
                case.covered(t["kind"])
                figure(case, tag, "current_consumption", e.current_consumption, t["power"])
                figure(case, tag, "consumption_today", e.consumption_today, t["today"])
                figure(case, tag, "consumption_this_month", e.consumption_this_month, t["month"])
                figure(case, tag, "voltage", e.voltage, t["volts"])
                figure(case, tag, "current", e.current, t["amps"])
                case.expect(e.consumption_total is None, "unit", f"{tag}: consumption_total {e.consumption_total}")
                feature(case, tag, d, "current_consumption", t["power"], "W")
                feature(case, tag, d, "consumption_today", t["today"], "kWh")
                feature(case, tag, d, "consumption_this_month", t["month"], "kWh")
                feature(case, tag, d, "voltage", t["volts"], "V")
                feature(case, tag, d, "current", t["amps"], "A")
                st = e.status
                figure(case, tag, "status.power", st.power, t["status"])
                figure(case, tag, "status.voltage", st.voltage, t["volts"])
                figure(case, tag, "status.current", st.current, t["amps"])
                if t["kind"] == "v1" and t["today"] is not None:
                    figure(case, tag, "status.total", st.total, t["today"])
                if rng.random() < 0.5:
                    if rng.random() < 0.6 and not broken:      # asked of the device, not of the last update
                        t = meter(case, rng, model if d is dev else model.children[d.device_id])
                        case.covered("live")
                    st = await e.get_status()
                    figure(case, tag, "get_status power", st.power, t["status"])
                    figure(case, tag, "get_status voltage", st.voltage, t["volts"])
            if case.violations:
                break
        case.sample = (name, seen)
        if seen:
            case.nontrivial((name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def unread(case, tag, e, t, method):
    """A query of the meter failed in this update: no figure of an earlier one may be shown."""
    for name, key in (("current_consumption", "power"), ("consumption_today", "today"), ("consumption_this_month", "month"), ("voltage", "volts"), ("current", "amps")):
        try:
            got = getattr(e, name)
        except KasaException:
            continue
        case.expect(got is None or method == "get_energy_usage" and t[key] is not None and near(got, t[key], 1.0 if key == "power" else 0.0),
                    "old-figure", f"{tag}: {method} failed, {name} is {got}, the device has {t[key]}")


def meter(case, rng, m):
    """Give the device new readings; -> what they mean physically."""
    mw = rng.choice([0, rng.randrange(1, 4_000_000)])
    wh, mwh = rng.choice([0, rng.randrange(1, 20_000)]), rng.choice([0, rng.randrange(1, 500_000)])
    mv, ma = rng.randrange(90_000, 260_000), rng.choice([0, rng.randrange(1, 16_000)])
    use = m.info["get_energy_usage"]
    if not isinstance(use, dict):
        return None
    use.update(current_power=mw, today_energy=wh, month_energy=mwh)
    t = {"power": mw / 1000, "today": wh / 1000, "month": mwh / 1000, "volts": None, "amps": None, "kind": "v1", "status": mw / 1000}
    if m.components.get("energy_monitoring", 0) > 1:
        if not isinstance(m.info.get("get_emeter_data"), dict):
            m.info["get_emeter_data"] = {"energy_wh": 971}
        t.update(kind="v2", volts=mv / 1000, amps=ma / 1000)
        m.info["get_emeter_data"].update(power_mw=mw, voltage_mv=mv, current_ma=ma)
        if isinstance(m.info.get("get_current_power"), dict):
            m.info["get_current_power"]["current_power"] = mw // 1000
        if rng.random() < 0.3:
            use.pop("current_power")
            t["kind"] = "fallback"
            if rng.random() < 0.3 and isinstance(m.info.get("get_current_power"), dict):
                m.info["get_emeter_data"].pop("power_mw")       # the power is known in whole watts only
                t["power"], t["status"] = mw // 1000, None
                if rng.random() < 0.4:
                    m.info["get_current_power"].pop("current_power")
                    t["power"] = None
    elif rng.random() < 0.15:
        use.pop("current_power")
        t["power"], t["status"] = None, 0.0
    for key, name in (("today_energy", "today"), ("month_energy", "month")):
        if rng.random() < 0.1:
            use.pop(key)
            t[name] = None
    return t


# -- the status container --------------------------------------------
def f_status(case):
    rng = case.rng
    for _ in range(rng.randint(5, 20)):
        fmt = rng.choice(["new", "old", "partial"])
        mt = Meter(rng, fmt)
        raw = mt.realtime()
        if rng.random() < 0.5:
            raw["err_code"] = 0
        keep = copy.deepcopy(raw)
        st = EmeterStatus(raw)
        for k in rng.sample(["power", "current", "voltage", "total"], 4):
            figure(case, f"{raw}", k, getattr(st, k), mt.want(k))
        for up, k in (("power_mw", "power"), ("current_ma", "current"), ("voltage_mv", "voltage"), ("total_wh", "total")):
            if mt.want(k) is not None:
                figure(case, f"{raw}", up, st[up], mt.want(k) * 1000)
        case.expect(dict(st.items()) == keep and raw == keep, "changed", f"{keep} became {dict(st.items())}")
        case.covered("old" if fmt == "old" else "new")
        try:
            st[rng.choice(["powers", "", "slot", "POWER"])]
        except KeyError:
            pass
        else:
            case.violate("unknown-key", f"{raw}: an unknown key has a value")
        repr(st)
        case.event("status", fmt, sorted(keep))
    case.nontrivial((case.index,))


# -- the switch-on moment ---------------------------------------------
class Since:
    """The truth about one switchable thing."""

    def __init__(self, key):
        self.key, self.on, self.at, self.shown, self.fresh = key, False, 0, None, False


def f_since(case):
    lists()
    rng = case.rng

    async def main(loop):
        kind = rng.choice(["iot", "iot", "smart", "smart"])
        # around the european and american changes, or anywhere
        base = rng.choice([1711846800, 1729990800, 1710054000, 1730613600, 1_700_000_000 + rng.randrange(50_000_000)]) - rng.randrange(0, 40_000)
        st = {"t": base, "off": 0, "jit": 0}
        if kind == "iot":
            names = [n for n in sims.names("iot")]
            name = rng.choice(names)
            model = sims.iot_model(name)
            sims.iot_enrich(model, rng, datetime.datetime(2024, 3, 1, 12))
            kids = model.sysinfo.get("children") or []
            things = {c["id"]: Since(c["id"]) for c in kids} or {None: Since(None)}
            dev, tr = sims.iot_device(model)
            tmod = sims.iot_module_names(model)[2]
            model.info[tmod]["get_timezone"] = {"index": rng.choice([39, 39, 6, 10, 13, 71, 90, 18])}
        else:
            name = rng.choice(ONTIME)
            model = sims.smart_model(name, rng)
            dev, tr = sims.smart_device(model)
            recs = {m.info["get_device_info"]["device_id"]: m.info["get_device_info"] for m in (model, *model.children.values())}
            things = {i: Since(i) for i, r in recs.items() if "on_time" in r and "device_on" in r}
            time = model.info.get("get_device_time")
            if not things or not isinstance(time, dict):
                return
            region, diff = rng.choice([("Europe/Berlin", 60), ("America/New_York", -300), ("Australia/Sydney", 600), ("Asia/Kolkata", 330), ("", 120), ("UTC", 0)])
            time.update(region=region, time_diff=diff)
        zone = [None]

        def report():
            """Put the state of the things into the device's answers."""
            now = st["t"] + st["off"] + st["jit"]
            if kind == "iot":
                wall = datetime.datetime.fromtimestamp(now, zone[0] or UTC)
                model.clock = lambda: wall.replace(tzinfo=None, fold=0)
            else:
                model.info["get_device_time"]["timestamp"] = now
            for th in things.values():
                secs = st["t"] - th.at if th.on else 0
                th.secs = secs
                if kind == "iot" and th.key is None:
                    si = model.sysinfo
                    if "light_state" in si:
                        ls = si["light_state"]
                        ls = ls.get("dft_on_state") or {k: v for k, v in ls.items() if k != "on_off"}
                        si["light_state"] = {"on_off": 1, **ls} if th.on else {"on_off": 0, "dft_on_state": ls}
                    else:
                        si["relay_state"] = int(th.on)
                    if "on_time" in si:
                        si["on_time"] = secs
                elif kind == "iot":
                    c = next(c for c in model.sysinfo["children"] if c["id"] == th.key)
                    c["state"], c["on_time"] = int(th.on), secs
                else:
                    recs[th.key]["device_on"], recs[th.key]["on_time"] = th.on, secs

        report()
        await dev.update()
        zone[0] = dev.timezone
        checks = 0
        for n in range(rng.randint(4, 18)):
            step = rng.choice([1, 7, 60, 60, 600, 3600, 3600, 7200, 86400, 200_000])
            before = datetime.datetime.fromtimestamp(st["t"], zone[0]).utcoffset()
            st["t"] += step
            if datetime.datetime.fromtimestamp(st["t"], zone[0]).utcoffset() != before:
                case.covered("dst")
            st["jit"] = rng.choice([0, 0, 1, -1, 2])
            if rng.random() < 0.12:
                jump = rng.choice([-1, 1]) * rng.choice([30, 3600, 7200, 86_400])
                st["off"] += jump
                case.covered("jump-back" if jump < 0 else "jump-forward")
            for th in things.values():
                x = rng.random()
                if x < 0.25:
                    th.on = not th.on
                    th.at = st["t"] - rng.randrange(0, step)
                elif x < 0.33 and th.on:       # off and on again since the last look
                    th.at = st["t"] - rng.randrange(0, step)
                    case.covered("restart")
            now = st["t"] + st["off"] + st["jit"]
            wall = datetime.datetime.fromtimestamp(now, zone[0])
            if kind == "iot" and wall.replace(fold=0).utcoffset() != wall.replace(fold=1).utcoffset():
                continue
            report()
            await dev.update()
            tag = f"{name} step {n}"
            look(case, rng, kind, dev, model, things, st, tag)
            checks += 1
            if case.violations:
                break
        case.sample = (name, checks)
        if checks:
            case.nontrivial((name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


def look(case, rng, kind, dev, model, things, st, tag):
    now = datetime.datetime.fromtimestamp(st["t"] + st["off"] + st["jit"], UTC)
    devs = {None: dev}
    for c in dev.children:
        devs[c.child_id if kind == "iot" else c.device_id] = c
    if kind == "smart":
        devs[dev.device_id] = dev
    shown = []
    for th in things.values():
        d = devs.get(th.key) or devs.get(model.sysinfo["deviceId"] + th.key if kind == "iot" and th.key else None)
        if d is None:
            continue
        got = d.on_since
        has = kind == "smart" or th.key is not None or "on_time" in model.sysinfo
        case.event("since", tag, str(th.key), th.on, got and got.isoformat())
        if not th.on or not has:
            case.expect(got is None, "on-while-off", f"{tag}: {th.key} on={th.on}: on_since is {got}")
            th.shown = None
            case.covered("off")
            continue
        want = now - datetime.timedelta(seconds=th.secs)
        case.count("moments")
        case.covered("strip" if kind == "iot" and th.key else kind, *(["child"] if kind == "smart" and d is not dev else []))
        if got is None or got.tzinfo is None:
            case.violate("wrong", f"{tag}: {th.key} is on, on_since is {got!r}")
            continue
        diff = abs((want - th.shown).total_seconds()) if th.shown else None
        if diff is not None and diff < 5:
            if diff:
                case.covered("jitter")
            case.expect(got.astimezone(UTC) == th.shown, "unstable", f"{tag}: {th.key} stayed on, on_since moved from {th.shown} to {got.astimezone(UTC)} (reported {want})")
        elif diff == 5:
            case.expect(got.astimezone(UTC) in (th.shown, want), "wrong", f"{tag}: {th.key}: on_since {got.astimezone(UTC)} is neither {th.shown} nor {want}")
        else:
            case.expect(got.astimezone(UTC) == want, "wrong", f"{tag}: {th.key}: on_since is {got.astimezone(UTC)}, device says {want} (before {th.shown})")
            zone = dev.timezone
            case.expect(got.utcoffset() == want.astimezone(zone).utcoffset(), "zone", f"{tag}: {th.key}: on_since {got} has not the device's offset")
        case.expect(d.on_since == got, "unstable", f"{tag}: {th.key}: on_since differs on a second look")
        th.shown = got.astimezone(UTC)
        shown.append(th.shown)
    if kind == "iot" and dev.children:
        got = dev.on_since
        if not shown:
            case.expect(got is None, "on-while-off", f"{tag}: the strip is off, on_since {got}")
        else:
            case.expect(got is not None and got.astimezone(UTC) == min(shown), "wrong", f"{tag}: strip on_since {got}, sockets {shown}")


FAMILIES = [Family("iot", f_iot, 500, 8000), Family("smart", f_smart, 300, 5000), Family("status", f_status, 200, 2000), Family("since", f_since, 900, 15000)]
