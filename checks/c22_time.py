"""C22: device time and time zone are reported and set as the same instant."""
from __future__ import annotations

import datetime
import zoneinfo
from zoneinfo import ZoneInfo

from kasa import DeviceError, KasaException, Module

from kmon import clock, sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: histories of updates and set_time calls against simulated device clocks in every zone; an oracle built on the zone database and the "
             "firmware's zone table compares the reported instant, offset and zone with the clock's, and the clock and zone left on the device with the requested ones")
NOTE = "all legacy zone indexes, all IANA zones, unknown zones, instants around daylight saving changes; naive, zoned and fixed-offset times; legacy, SMART, camera devices and children"
RULE = "a case = one device clock and a history of updates and set_time calls; non-trivial = at least one time was compared"
ASSUMPTIONS = ("The firmware's zone table is the one in the library at the pinned commit.",
               "Legacy devices cannot tell the two passes of the hour repeated at the end of daylight saving apart.",
               "Two zones have the same rules when their offsets agree at noon of every day of the current year.")
REQUIRED_COVER = ["iot:get", "iot:unknown", "iot:naive", "iot:zoned", "iot:fixed", "iot:rejected", "iot:mapped", "iot:exact", "iot:strip", "iot:edge",
                  "iot:no-zone", "smart:get", "smart:unknown", "smart:blank", "smart:naive", "smart:zoned", "smart:fixed", "smart:child", "smart:fold",
                  "cam:get", "cam:unknown", "cam:naive", "cam:zoned", "cam:fixed", "iot:refused", "smart:refused", "cam:refused"]
UTC = datetime.timezone.utc
# firmware zone index -> zone
INDEX = (
    "Etc/GMT+12", "Pacific/Samoa", "US/Hawaii", "US/Alaska", "Mexico/BajaNorte", "Etc/GMT+8", "PST8PDT", "US/Arizona", "America/Mazatlan", "MST",
    "MST7MDT", "Mexico/General", "Etc/GMT+6", "CST6CDT", "America/Monterrey", "Canada/Saskatchewan", "America/Bogota", "Etc/GMT+5", "EST",
    "America/Indiana/Indianapolis", "America/Caracas", "America/Asuncion", "Etc/GMT+4", "Canada/Atlantic", "America/Cuiaba", "Brazil/West",
    "America/Santiago", "Canada/Newfoundland", "America/Sao_Paulo", "America/Argentina/Buenos_Aires", "America/Cayenne", "America/Miquelon",
    "America/Montevideo", "Chile/Continental", "Etc/GMT+2", "Atlantic/Azores", "Atlantic/Cape_Verde", "Africa/Casablanca", "UCT", "GB",
    "Africa/Monrovia", "Europe/Amsterdam", "Europe/Belgrade", "Europe/Brussels", "Europe/Sarajevo", "Africa/Lagos", "Africa/Windhoek", "Asia/Amman",
    "Europe/Athens", "Asia/Beirut", "Africa/Cairo", "Asia/Damascus", "EET", "Africa/Harare", "Europe/Helsinki", "Asia/Istanbul", "Asia/Jerusalem",
    "Europe/Kaliningrad", "Africa/Tripoli", "Asia/Baghdad", "Asia/Kuwait", "Europe/Minsk", "Europe/Moscow", "Africa/Nairobi", "Asia/Tehran",
    "Asia/Muscat", "Asia/Baku", "Europe/Samara", "Indian/Mauritius", "Asia/Tbilisi", "Asia/Yerevan", "Asia/Kabul", "Asia/Ashgabat",
    "Asia/Yekaterinburg", "Asia/Karachi", "Asia/Kolkata", "Asia/Colombo", "Asia/Kathmandu", "Asia/Almaty", "Asia/Dhaka", "Asia/Novosibirsk",
    "Asia/Rangoon", "Asia/Bangkok", "Asia/Krasnoyarsk", "Asia/Chongqing", "Asia/Irkutsk", "Asia/Singapore", "Australia/Perth", "Asia/Taipei",
    "Asia/Ulaanbaatar", "Asia/Tokyo", "Asia/Seoul", "Asia/Yakutsk", "Australia/Adelaide", "Australia/Darwin", "Australia/Brisbane",
    "Australia/Canberra", "Pacific/Guam", "Australia/Hobart", "Antarctica/DumontDUrville", "Asia/Magadan", "Asia/Srednekolymsk", "Etc/GMT-11",
    "Asia/Anadyr", "Pacific/Auckland", "Etc/GMT-12", "Pacific/Fiji", "Etc/GMT-13", "Pacific/Apia", "Etc/GMT-14")
ZONES = SMARTS = None
_RULES: dict = {}


def lists():
    global ZONES, SMARTS
    if ZONES is None:
        ZONES = sorted(z for z in zoneinfo.available_timezones() if z != "localtime" and not z.startswith(("posix", "right")))
        SMARTS = [n for n in sims.names("smart") if isinstance(sims.load("smart", n).get("get_device_time"), dict)
                  and "region" in sims.load("smart", n)["get_device_time"]]
    clock.install()


def rules(tz, year):
    """The offsets at noon of every day of the year."""
    key = (str(tz), year)
    if key not in _RULES:
        start = datetime.datetime(year, 1, 1, 12)
        _RULES[key] = tuple(tz.utcoffset(start + datetime.timedelta(days=i)) for i in range(365))
    return _RULES[key]


def edge(rng, tz, year):
    """A wall time in ``year``, often next to an offset change of the zone."""
    off = rules(tz, year)
    changes = [i for i in range(1, 365) if off[i] != off[i - 1]]
    start = datetime.datetime(year, 1, 1)
    if changes and rng.random() < 0.6:
        return start + datetime.timedelta(days=rng.choice(changes), seconds=rng.choice([0, 3599, 3600, 5400, 7199, 7200, 9000, 10799, 10800, 10801, rng.randrange(86400)])), True
    return start + datetime.timedelta(seconds=rng.randrange(365 * 86400)), False


def twice(wall, tz):
    return wall.replace(tzinfo=tz, fold=0).utcoffset() != wall.replace(tzinfo=tz, fold=1).utcoffset()


def skipped(wall, tz):
    a = wall.replace(tzinfo=tz)
    return a.astimezone(UTC).astimezone(tz).replace(tzinfo=None) != wall


def request(rng, year):
    """A time to set: -> (datetime, zone, kind)."""
    kind = rng.choice(["naive", "zoned", "zoned", "zoned", "fixed"])
    if kind == "naive":
        return None, kind
    if kind == "fixed":
        return datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 60, 120, -300, -480, 330, 345, 13 * 60, 17, -721 + 2, 840, -60, rng.randrange(-840, 840)]))), kind
    return ZoneInfo(rng.choice(INDEX) if rng.random() < 0.35 else rng.choice(ZONES)), kind


def same(case, tag, got, want, what, zone=None):
    case.count("times")
    case.event("time", what, str(got), str(want))
    if not isinstance(got, datetime.datetime) or got.tzinfo is None:
        case.violate("time", f"{tag}: {what} is {got!r}")
        return
    case.expect(got.astimezone(UTC) == want.astimezone(UTC), "time", f"{tag}: {what} is {got.isoformat()}, the clock shows {want.isoformat()}")
    case.expect(got.utcoffset() == want.utcoffset() and got.replace(tzinfo=None) == want.replace(tzinfo=None), "offset",
                f"{tag}: {what} is {got.isoformat()}, the clock shows {want.isoformat()}")


class Refuser:
    def __init__(self, model, iot=False, codes=(-1,)):
        self.on, self.codes = None, codes
        if iot:
            model.fault = lambda module, method, params, ids: self.on if not method.startswith("get") else None
        else:
            model.fault = lambda m, method, params: self.on if not method.startswith("get") and method != "multipleRequest" else None


# -- legacy devices ---------------------------------------------------
def f_iot(case):
    lists()
    rng = case.rng

    async def main(loop):
        year = rng.choice([2019, 2021, 2023, 2024, 2025, 2026])
        clock.set_now(datetime.datetime(year, rng.randint(1, 12), rng.randint(1, 28), 12).astimezone())
        name = rng.choice(sims.names("iot"))
        model = sims.iot_model(name)
        sims.iot_enrich(model, rng, datetime.datetime(year, 3, 1, 12))
        ref = Refuser(model, iot=True)
        dev, tr = sims.iot_device(model)
        store = model.info[sims.iot_module_names(model)[2]]
        st = {"wall": datetime.datetime(year, 3, 1), "index": 39}
        orig = model.time

        def time(module, method, params):
            if method in ("set_time", "set_timezone"):
                if "year" in params:
                    st["wall"] = datetime.datetime(*(params[k] for k in ("year", "month", "mday", "hour", "min", "sec")))
                if method == "set_timezone":
                    st["index"] = params["index"]
                elif "index" in params:
                    return -3
                return None
            return orig(module, method, params)

        model.time = time
        model.clock = lambda: st["wall"]
        lost = rng.random() < 0.06          # the device cannot tell its zone
        if lost:
            case.covered("no-zone")
            keep = model.fault
            model.fault = lambda module, method, params, ids: -2 if method == "get_timezone" else keep(module, method, params, ids)
        seen = 0
        try:
            for n in range(rng.randint(2, 7)):
                if n == 0 or rng.random() < 0.4:
                    st["index"] = rng.randrange(110) if rng.random() < 0.9 else rng.choice([110, 111, 200, 255])
                unknown = lost or st["index"] > 109
                zone = UTC if unknown else ZoneInfo(INDEX[st["index"]])
                if n == 0 or rng.random() < 0.5:
                    st["wall"], at_edge = edge(rng, zone, year)
                    if at_edge:
                        case.covered("edge")
                else:
                    st["wall"] += datetime.timedelta(seconds=rng.randrange(100_000))
                if skipped(st["wall"], zone):
                    st["wall"] += datetime.timedelta(hours=3)
                store["get_timezone"] = {"index": st["index"]}
                await dev.update()
                seen += 1
                tag = f"{name} index {st['index']} wall {st['wall']}"
                check_iot(case, rng, dev, st, zone, tag, unknown)
                if dev.children:
                    case.covered("strip")
                if rng.random() < 0.7 and not case.violations:
                    await set_iot(case, rng, dev, model, st, store, zone, year, tag, ref, lost)
                if case.violations:
                    break
            case.sample = (name, seen)
            case.nontrivial((name, case.index))
        finally:
            clock.set_now(None)

    finish(case, vrun(main, max_steps=3_000_000))


def check_iot(case, rng, dev, st, zone, tag, unknown):
    wall = st["wall"]
    case.covered("unknown" if unknown else "get")
    for what, got in (("time", dev.time), ("module time", dev.modules[Module.Time].time)):
        if twice(wall, zone):
            case.expect(got.replace(tzinfo=None) == wall, "time", f"{tag}: {what} {got}")
            continue
        same(case, tag, got, wall.replace(tzinfo=zone), what)
    tz = dev.timezone
    case.expect(rules(tz, wall.year) == rules(zone, wall.year), "zone", f"{tag}: zone {tz}, the device has {zone}")


async def set_iot(case, rng, dev, model, st, store, zone, year, tag, ref, lost):
    tz, kind = request(rng, year)
    wall, _ = edge(rng, tz or zone, year)
    want = wall.replace(tzinfo=tz)
    if skipped(wall, tz or zone):
        return
    if rng.random() < 0.15:
        want = want.replace(microsecond=rng.randrange(1_000_000))
    supported = tz is None or any(rules(ZoneInfo(z), year) == rules(tz, year) for z in INDEX) or getattr(tz, "key", None) in INDEX
    old, sent = dict(st), len(model.log)
    ref.on = rng.choice([-1, -2, -3, -10]) if rng.random() < 0.12 else None
    refused = ref.on
    tag = f"{tag}; set_time({want.isoformat()} {tz})"
    try:
        await dev.modules[Module.Time].set_time(want)
    except Exception as ex:  # noqa: BLE001
        case.event("set", str(want), str(tz), repr(ex))
        if refused and supported:
            case.covered("refused")
            case.expect(isinstance(ex, KasaException), "error", f"{tag}: refused with {refused}: {ex!r}")
        else:
            case.expect(not supported and isinstance(ex, (ValueError, KasaException)), "error", f"{tag}: {ex!r}")
            case.expect(len(model.log) == sent, "sent", f"{tag}: rejected, but {model.log[sent:]} was sent")
            case.covered("rejected")
        case.expect(st == old, "changed", f"{tag}: failed, but the device changed to {st}")
        ref.on = None
        return
    ref.on = None
    case.event("set", str(want), str(tz), dict(st))
    case.covered(kind)
    if refused:
        case.violate("error", f"{tag}: the device refused with {refused} but the call succeeded")
        return
    if not supported:
        case.violate("zone", f"{tag}: no zone of the device has these rules, but it was set to {st}")
        return
    case.expect(st["wall"] == wall, "set", f"{tag}: the clock was set to {st['wall']}")
    if tz is None:
        case.expect(st["index"] == old["index"], "zone", f"{tag}: the zone changed to {st['index']}")
        now = zone
    else:
        now = ZoneInfo(INDEX[st["index"]]) if st["index"] < 110 else UTC
        if lost:        # the zone of such a device is not known, its clock shows the given time
            return
        exact = getattr(tz, "key", None) in INDEX
        case.covered("exact" if exact else "mapped")
        case.expect(rules(now, year) == rules(tz, year), "zone", f"{tag}: zone {tz} became {now}")
        if exact:
            case.expect(getattr(now, "key", None) == tz.key, "zone", f"{tag}: zone {tz} became {now} though the device has it")
    if st["wall"] != wall or case.violations:
        return
    store["get_timezone"] = {"index": st["index"]}
    await dev.update()
    got = dev.time
    if not twice(wall, now):
        same(case, tag, got, wall.replace(tzinfo=now), "time after set_time")
        base = want.replace(tzinfo=tz or now, microsecond=0)
        if not twice(wall, tz or now) and base.utcoffset() == wall.replace(tzinfo=now).utcoffset():
            case.expect(got.astimezone(UTC) == base.astimezone(UTC), "set", f"{tag}: reads back as {got.isoformat()}")


# -- SMART devices and cameras ----------------------------------------
def stamp(rng, tz, year):
    wall, _ = edge(rng, tz, year)
    return int(wall.replace(tzinfo=tz, fold=rng.randrange(2)).timestamp())


def f_smart(case):
    lists()
    rng = case.rng

    async def main(loop):
        year = rng.choice([2019, 2023, 2024, 2025])
        parents = [n for n in sims.smart_parents() if n in SMARTS]
        name = rng.choice(parents) if rng.random() < 0.3 else rng.choice(SMARTS)
        model = sims.smart_model(name, rng)
        rec = model.info["get_device_time"]
        ref = Refuser(model)
        dev, tr = sims.smart_device(model)
        seen = 0
        for n in range(rng.randint(2, 7)):
            mode = rng.choice(["zone", "zone", "zone", "unknown", "blank"])
            diff = rng.choice([0, 60, -300, 330, 345, 840, -570])
            if mode == "zone":
                tz = ZoneInfo(rng.choice(ZONES))
                rec.update(region=tz.key, timestamp=stamp(rng, tz, year))
                rec["time_diff"] = int(tz.utcoffset(datetime.datetime(year, 1, 1)).total_seconds() // 60)
            else:
                tz = datetime.timezone(datetime.timedelta(minutes=diff))
                rec.update(region="" if mode == "blank" else rng.choice(["Mars/Olympus", "XYZ", "UTC+02:30", "GMT+25"]), time_diff=diff, timestamp=stamp(rng, tz, year))
            await dev.update()
            seen += 1
            tag = f"{name} {rec}"
            case.covered({"zone": "get"}.get(mode, mode))
            want = datetime.datetime.fromtimestamp(rec["timestamp"], tz)
            if want.fold:
                case.covered("fold")
            devs = [("time", dev)]
            for c in dev.children:
                if Module.Time not in c.modules:
                    devs.append((f"child {c.device_id[-4:]} time", c))
            for what, d in devs:
                same(case, tag, d.time, want, what)
                case.expect(d.timezone.utcoffset(want.replace(tzinfo=None)) == tz.utcoffset(want.replace(tzinfo=None)), "zone", f"{tag}: {what}zone {d.timezone}")
                if d is not dev:
                    case.covered("child")
            f = dev.features.get("device_time")
            if f is not None:
                same(case, tag, f.value, want, "feature device_time")
            if rng.random() < 0.6 and not case.violations:
                await set_smart(case, rng, dev, model, rec, tz, year, tag, ref)
            if case.violations:
                break
        case.sample = (name, seen)
        case.nontrivial((name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


async def set_smart(case, rng, dev, model, rec, zone, year, tag, ref):
    tz, kind = request(rng, year)
    wall, _ = edge(rng, tz or zone, year)
    if skipped(wall, tz or zone):
        return
    want = wall.replace(tzinfo=tz, fold=rng.randrange(2))
    full = want.replace(tzinfo=tz or zone)
    if rng.random() < 0.2:
        want = want.replace(microsecond=rng.randrange(1_000_000))
    keep = dict(rec)
    ref.on = -1010 if rng.random() < 0.12 else None
    refused = ref.on
    tag = f"{tag}; set_time({want.isoformat()} {tz})"
    try:
        await dev.modules[Module.Time].set_time(want)
    except Exception as ex:  # noqa: BLE001
        case.expect(bool(refused) and isinstance(ex, DeviceError), "error", f"{tag}: {ex!r}")
        case.expect(rec == keep, "changed", f"{tag}: failed, but the device changed to {rec}")
        case.covered("refused")
        ref.on = None
        return
    ref.on = None
    case.event("set", str(want), str(tz), dict(rec))
    case.covered(kind)
    case.expect(not refused, "error", f"{tag}: the device refused but the call succeeded")
    case.expect(rec["timestamp"] == int(full.timestamp()), "set", f"{tag}: the clock was set to {rec['timestamp']}, want {int(full.timestamp())}")
    case.expect(rec["time_diff"] == full.utcoffset().total_seconds() // 60 or full.utcoffset().total_seconds() % 60, "set", f"{tag}: the offset was set to {rec['time_diff']}")
    if kind == "naive":
        case.expect(rec["region"] == keep["region"], "zone", f"{tag}: the zone became {rec['region']}")
    elif kind == "zoned":
        case.expect(rec["region"] == tz.key, "zone", f"{tag}: the zone became {rec['region']}")
    await dev.update()
    if not full.utcoffset().total_seconds() % 60:
        same(case, tag, dev.time, full, "time after set_time")


def f_cam(case):
    lists()
    rng = case.rng

    async def main(loop):
        year = rng.choice([2019, 2023, 2024, 2025])
        name = rng.choice(sims.names("smartcam"))
        model = sims.cam_model(name, rng)
        basic = model.info["getTimezone"]["system"]["basic"]
        clk = model.info["getClockStatus"]["system"]["clock_status"]
        ref = Refuser(model)
        dev, tr = sims.cam_device(model)
        seen = 0
        for n in range(rng.randint(2, 7)):
            if n == 0 or rng.random() < 0.5:
                if rng.random() < 0.75:
                    tz = ZoneInfo(rng.choice(ZONES))
                    basic["zone_id"] = tz.key
                    unknown = False
                else:
                    m = rng.choice([0, 60, 330, 345, 600, -300, -210])
                    tz = datetime.timezone(datetime.timedelta(minutes=m))
                    basic.update(zone_id=rng.choice(["Mars/Olympus", "Nowhere"]), timezone=f"UTC{'-' if m < 0 else '+'}{abs(m) // 60:02}:{abs(m) % 60:02}")
                    unknown = True
                clk["seconds_from_1970"] = stamp(rng, tz, year)
            else:
                clk["seconds_from_1970"] += rng.randrange(100_000)
            clk["local_time"] = f"{datetime.datetime.fromtimestamp(clk['seconds_from_1970'], tz):%Y-%m-%d %H:%M:%S}"
            await dev.update()
            seen += 1
            tag = f"{name} {basic['zone_id']} {clk['seconds_from_1970']}"
            case.covered("unknown" if unknown else "get")
            if Module.Time not in dev.modules:
                return
            want = datetime.datetime.fromtimestamp(clk["seconds_from_1970"], tz)
            same(case, tag, dev.time, want, "time")
            same(case, tag, dev.modules[Module.Time].time, want, "module time")
            if "device_time" in dev.features:
                same(case, tag, dev.features["device_time"].value, want, "feature device_time")
            case.expect(dev.timezone.utcoffset(want.replace(tzinfo=None)) == tz.utcoffset(want.replace(tzinfo=None)), "zone", f"{tag}: zone {dev.timezone}")
            if rng.random() < 0.6 and not case.violations:
                tz, unknown = await set_cam(case, rng, dev, model, basic, clk, tz, unknown, year, tag, ref)
            if case.violations:
                break
        case.sample = (name, seen)
        case.nontrivial((name, case.index))

    finish(case, vrun(main, max_steps=3_000_000))


async def set_cam(case, rng, dev, model, basic, clk, zone, unknown, year, tag, ref):
    tz, kind = request(rng, year)
    wall, _ = edge(rng, tz or zone, year)
    if skipped(wall, tz or zone):
        return zone, unknown
    want = wall.replace(tzinfo=tz, fold=rng.randrange(2))
    full = want.replace(tzinfo=tz or zone)
    if rng.random() < 0.2:
        want = want.replace(microsecond=rng.randrange(1_000_000))
    keep = (dict(basic), dict(clk))
    ref.on = -40101 if rng.random() < 0.12 else None
    refused = ref.on
    tag = f"{tag}; set_time({want.isoformat()} {tz})"
    try:
        await dev.modules[Module.Time].set_time(want)
    except Exception as ex:  # noqa: BLE001
        case.expect(bool(refused) and isinstance(ex, DeviceError), "error", f"{tag}: {ex!r}")
        case.expect((basic, clk) == keep, "changed", f"{tag}: failed, but the device changed to {basic} {clk}")
        case.covered("refused")
        ref.on = None
        return zone, unknown
    ref.on = None
    case.event("set", str(want), str(tz), dict(basic), dict(clk))
    case.covered(kind)
    case.expect(not refused, "error", f"{tag}: the device refused but the call succeeded")
    now = tz if kind == "zoned" else zone
    case.expect(clk["seconds_from_1970"] == int(full.timestamp()), "set", f"{tag}: the clock was set to {clk['seconds_from_1970']}, want {int(full.timestamp())}")
    shown = full.astimezone(UTC).astimezone(now).replace(tzinfo=None)
    case.expect(clk["local_time"] == f"{shown:%Y-%m-%d %H:%M:%S}", "set", f"{tag}: the local time was set to {clk['local_time']}, want {shown}")
    case.expect(basic["zone_id"] == (tz.key if kind == "zoned" else keep[0]["zone_id"]), "zone", f"{tag}: the zone became {basic['zone_id']}")
    await dev.update()
    same(case, tag, dev.time, full.astimezone(UTC).astimezone(now), "time after set_time")
    return now, unknown and kind != "zoned"


FAMILIES = [Family("iot", f_iot, 700, 12000), Family("smart", f_smart, 500, 8000), Family("cam", f_cam, 400, 6000)]
