"""C14: with redaction on, logged responses and redacted data hold no private values."""
from __future__ import annotations

import base64
import copy
import json
import logging
import re
import string

from kasa import Credentials, Device, Discover, KasaException
from kasa.discover import DECRYPTED_REDACTORS, NEW_DISCOVERY_REDACTORS
from kasa.protocols import iotprotocol, smartprotocol
from kasa.protocols.protocol import redact_data

from checks import c10_discovery as c10
from checks.c11_connect import pick
from kmon import refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.net import Net
from kmon.rig import KINDS, Rig
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring with taint-like sentinels: every private value of the simulated devices is replaced by a unique one, and "
             "every captured debug record of the protocol, transport and discovery code is searched for it; differential oracle over the "
             "redaction helper")
NOTE = ("all fixture devices with unique private values over every transport, single, batched, paged and child queries, and discovery answers "
        "of supported, unsupported and malformed devices; generated nestings through the redaction helper")
RULE = "a case = one device session, one discovery run or one redacted document; non-trivial = at least one private value was in the data"
ASSUMPTIONS = ("Log records of requests are not responses: a private value the client itself sent may appear in them.",
               "IP addresses are not redacted, and ids and MAC addresses are only partly masked, on purpose: the full value must not appear.",
               "Answers that cannot be parsed and error pages (HTTP status other than 200) are logged as they are.")
LOGGERS = ("kasa.protocols", "kasa.transports", "kasa.httpclient", "kasa.discover", "kasa.device_factory")

# The private fields per kind of document, and what they hold.
IOT = {"latitude": "geo", "longitude": "geo", "latitude_i": "geo", "longitude_i": "geo", "deviceId": "id", "alias": "name", "mac": "mac",
       "mic_mac": "mac", "ssid": "name", "oemId": "id", "hwId": "id", "username": "name"}
SMART = {"latitude": "geo", "longitude": "geo", "la": "geo", "lo": "geo", "device_id": "id", "parent_device_id": "id",
         "original_device_id": "id", "nickname": "b64", "mac": "mac", "ssid": "b64", "bssid": "mac", "oem_id": "id", "hw_id": "id",
         "fw_id": "id", "setup_code": "code", "setup_payload": "code", "mfi_setup_code": "code", "mfi_setup_id": "code",
         "mfi_token_token": "code", "mfi_token_uuid": "code", "dev_id": "id", "ext_addr": "id", "device_name": "name",
         "device_alias": "name", "alias": "name", "board_sn": "id", "custom_sn": "id", "location": "name", "map_data": "b64",
         "map_name": "b64", "cd": "b64"}
DISC = {"device_id": "id", "device_name": "name", "owner": "id", "mac": "mac", "master_device_id": "id", "group_id": "id",
        "group_name": "b64"}
DECR = {"connect_ssid": "b64", "device_id": "id", "owner": "id"}
TABLES = {"iot": (IOT, iotprotocol.REDACTORS), "smart": (SMART, smartprotocol.REDACTORS), "disc": (DISC, NEW_DISCOVERY_REDACTORS),
          "decr": (DECR, DECRYPTED_REDACTORS)}
REQUIRED_COVER = [*(f"redact:{t}" for t in TABLES), "redact:children", "redact:area_list", "redact:encrypt_info", "redact:empties",
                  *(f"device:{k}" for k in KINDS if k != "linkie"), "device:linkie", "device:off", "device:single", "device:batch",
                  "device:child", "device:paged", "discover:ok", "discover:unsupported", "discover:legacy", "discover:decrypted",
                  "discover:off"]


class Salt:
    """Replaces private values by unique ones of the same shape, equal ones alike."""

    def __init__(self, rng):
        self.rng, self.map = rng, {}

    def value(self, kind, old):
        rng = self.rng
        if isinstance(old, (int, float)) and not isinstance(old, bool):
            n = rng.randrange(10 ** 7, 10 ** 8)
            return n if isinstance(old, int) else n / 10 ** 5
        if not isinstance(old, str) or not old:
            return old
        key = (kind, old)
        if key in self.map:
            return self.map[key]
        word = "".join(rng.choice(string.ascii_letters + string.digits) for _ in range(22))
        if kind == "mac":
            h = rng.randbytes(3).hex() + "".join(f"{rng.randrange(16, 256):02x}" for _ in range(3))
            h = h.upper() if rng.random() < 0.7 else h
            sep = next((c for c in ":-" if c in old), "" if len(old) == 12 else ":")
            v = sep.join(h[i:i + 2] for i in range(0, 12, 2))
        elif kind == "id":
            v = sims.hexid(rng, max(len(old), 16))
        elif kind == "b64":
            v = base64.b64encode(word.encode()).decode()
        elif kind == "code":
            v = word[:11] + rng.choice(["-", ""]) + word[11:]
        elif kind == "name":
            v = "Ab" + word
        self.map[key] = v
        return v

    def apply(self, obj, table):
        if isinstance(obj, list):
            for o in obj:
                self.apply(o, table)
        elif isinstance(obj, dict):
            for k, v in obj.items():
                if k in table and isinstance(v, (str, int, float)):
                    obj[k] = self.value(table[k], v)
                elif k == "children" and table is IOT and isinstance(v, list):
                    for c in v:
                        if isinstance(c, dict):
                            c["alias"] = self.value("name", c.get("alias"))
                            if len(c.get("id", "")) > 2:
                                c["id"] = self.value("id", c["id"])
                elif k == "area_list" and isinstance(v, list):
                    for a in v:
                        if isinstance(a, dict) and a.get("name"):
                            a["name"] = self.value("b64", a["name"])
                else:
                    self.apply(v, table)
        return obj


def collect(obj, table, out):
    """{text: field} of every private value in a document."""
    if isinstance(obj, list):
        for o in obj:
            collect(o, table, out)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            if k in table and isinstance(v, (str, int, float)) and not isinstance(v, bool):
                add(out, k, table[k], v)
            elif k == "children" and table is IOT and isinstance(v, list):
                for c in v:
                    if isinstance(c, dict):
                        add(out, "children.alias", "name", c.get("alias"))
                        add(out, "children.id", "id", c.get("id"))
                        collect({x: y for x, y in c.items() if x not in ("alias", "id")}, table, out)
            elif k == "area_list" and isinstance(v, list):
                for a in v:
                    if isinstance(a, dict):
                        add(out, "area_list.name", "b64", a.get("name"))
            elif k == "encrypt_info" and table is DISC and isinstance(v, dict):
                add(out, "encrypt_info.key", "id", v.get("key"))
                add(out, "encrypt_info.data", "id", v.get("data"))
            elif k == "decrypted_data" and table is DISC:
                collect(v, DECR, out)
            else:
                collect(v, table, out)
    return out


def add(out, field, kind, v):
    s = str(v)
    if v is None or len(s) < 8:
        return
    out[s] = field
    if kind == "mac" and len(s) == 17:
        out[s[9:]] = field + " (tail)"
        out[s[:11]] = field + " (head)"
    if kind == "mac" and len(s) == 12:
        out[s[:8]] = field + " (head)"
    if kind == "b64":
        try:
            out[base64.b64decode(s).decode()] = field + " (decoded)"
        except ValueError:
            pass


class Capture(logging.Handler):
    """Every record of the library, while active, at the most verbose level."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, rec):
        text = rec.getMessage()
        if rec.exc_info:
            text += "\n" + logging.Formatter().formatException(rec.exc_info)
        self.records.append((rec.name, text))

    def __enter__(self):
        self.logger = logging.getLogger("kasa")
        self.state = (self.logger.level, self.logger.propagate)
        self.logger.setLevel(logging.DEBUG)
        self.logger.propagate = False
        self.logger.addHandler(self)
        return self

    def __exit__(self, *a):
        self.logger.removeHandler(self)
        self.logger.level, self.logger.propagate = self.state[0], self.state[1]
        self.logger.setLevel(self.state[0])


def finder(secrets):
    alts = "|".join(re.escape(s) for s in sorted(secrets, key=len, reverse=True))
    return re.compile(r"(?<![0-9A-Za-z])(?:" + alts + r")") if alts else re.compile(r"(?!)")


def judge(case, cap, secrets, requested, off):
    """No private value in the records of responses; none at all that the client had not sent."""
    rx = finder(secrets)
    sent = set(rx.findall(requested))
    hits = 0
    shown = set()
    for name, text in cap.records:
        if not name.startswith(LOGGERS):
            continue
        case.event("record", name, len(text))
        for s in set(rx.findall(text)):
            shown.add(s)
            if off:
                continue
            if s in sent and "<<" not in text:
                continue
            hits += 1
            at = text.find(s)
            case.violate("private-value-logged", f"{secrets[s]} {s!r} in a record of {name}: ...{text[max(0, at - 120):at + 60]}")
            if hits > 3:
                return shown
    case.count("records", len(cap.records))
    case.count("private values", len(secrets))
    return shown


# -- the redaction helper ---------------------------------------------
PLAIN = ["model", "state", "err_code", "error_code", "result", "responses", "list", "children", "child_device_list", "type", "x", "rssi",
         "method", "system", "get_sysinfo", "start_index", "sum", "area", "names", "macs", "device", "id_", "Mac", "Alias", "ids", "id", "name"]
EMPTY = [None, "", 0, False, [], {}]


def doc(rng, salt, table, depth, stats):
    r = rng.random()
    if depth <= 0 or r < 0.15:
        return rng.choice([None, True, 0, 1, -5, 2.5, "", "text", [], {}, 10 ** 12, "ü", [1, "a", None], "REDACTED"])
    if r < 0.4:
        return [doc(rng, salt, table, depth - 1, stats) for _ in range(rng.randrange(4))]
    d = {}
    for _ in range(rng.randrange(1, 6)):
        if rng.random() < 0.5:
            k = rng.choice(list(table))
            kind = table[k]
            if rng.random() < 0.1:
                d[k] = rng.choice(["", None])
                stats.add("empties")
            elif kind == "geo":
                d[k] = salt.value(kind, rng.choice([1, 1.5]))
            elif kind == "mac":
                d[k] = salt.value(kind, rng.choice(["001122334455", "00:11:22:33:44:55", "00-11-22-33-44-55"]) if rng.random() < .97 else 5)
                salt.map.clear()
            else:
                d[k] = salt.value(kind, "o" * 40)
                salt.map.clear()
        else:
            k = rng.choice(PLAIN)
            if k == "children" and table is IOT:
                continue
            d[k] = doc(rng, salt, table, depth - 1, stats)
    r = rng.random()
    if table is IOT and r < 0.25:
        stats.add("children")
        d["children"] = []
        for i in range(rng.randrange(1, 4)):
            c = {"state": i, "next_action": {"type": -1}, "id": salt.value("id", "o" * 42), "alias": salt.value("name", "o")}
            salt.map.clear()
            if rng.random() < 0.2:
                c["alias"] = ""
            d["children"].append(c)
    if table is SMART and r < 0.15:
        stats.add("area_list")
        d["area_list"] = [{"id": i, "type": "room", "name": salt.value("b64", f"o{i}"), "vertexs": [[0, 1], [2, i]]} for i in range(rng.randrange(3))]
        salt.map.clear()
    if table is DISC and r < 0.3:
        stats.add("encrypt_info")
        d["encrypt_info"] = {"sym_schm": "AES", "key": sims.hexid(rng, 60), "data": sims.hexid(rng, 80)}
        if rng.random() < 0.5:
            d["decrypted_data"] = {"connect_ssid": salt.value("b64", "o1"), "device_id": salt.value("id", "o2"), "n": 5}
            salt.map.clear()
    return d


def skeleton(obj, table):
    """The document with every private value blanked, everything else as it is."""
    if isinstance(obj, list):
        return [skeleton(o, table) for o in obj]
    if isinstance(obj, dict):
        out = {}
        for k, v in obj.items():
            if k in table and not (v is None or v == ""):
                out[k] = "*"
            elif k == "children" and table is IOT and isinstance(v, list):
                out[k] = [{x: ("*" if x == "id" or x == "alias" and y else y) for x, y in c.items()} for c in v]
            elif k == "area_list" and table is SMART and isinstance(v, list):
                out[k] = [{x: ("*" if x == "name" else y) for x, y in a.items()} for a in v]
            elif k == "encrypt_info" and table is DISC and isinstance(v, dict):
                out[k] = {x: ("*" if x in ("key", "data") else y) for x, y in v.items()}
            elif k == "decrypted_data" and table is DISC:
                out[k] = skeleton(v, DECR)
            else:
                out[k] = skeleton(v, table)
        return out
    return obj


def f_redact(case):
    rng = case.rng
    total = 0
    for _ in range(40):
        tname = rng.choice(list(TABLES))
        table, redactors = TABLES[tname]
        stats = set()
        data = doc(rng, Salt(rng), table, rng.choice([1, 2, 3, 5]), stats)
        keep = copy.deepcopy(data)
        out = redact_data(data, redactors)
        desc = f"{tname} {keep!r:.700}"
        case.expect(refs.canon(data) == refs.canon(keep), "input-changed", f"{data!r:.500} was {desc}")
        secrets = collect(keep, table, {})
        left = collect(out, table, {})
        for s in finder(secrets).findall(json.dumps(out, ensure_ascii=False)):
            case.violate("private-value-left", f"{secrets[s]} {s!r} in {out!r:.500} of {desc}")
        a, b = skeleton(out, table), skeleton(keep, table)
        case.expect(json.dumps(a) == json.dumps(b), "other-values-changed", f"{out!r:.500} of {desc}")
        del left
        if secrets:
            case.covered(tname, *stats)
            total += len(secrets)
        case.event(tname, len(secrets), out)
    case.count("private values", total)
    case.sample = (total,)
    case.nontrivial(case.index)


# -- sessions ----------------------------------------------------------
def private_model(rng, kind, salt):
    """A fixture device with unique private values, its family and its connect()-class."""
    orig = sims.load
    table = IOT if KINDS[kind][5] == "iot" else SMART

    def load(k, name):
        o = salt.apply(orig(k, name), table)
        if table is SMART and rng.random() < 0.7:
            di = o.get("get_device_info")
            if isinstance(di, dict):
                for key, v in (("latitude", 5), ("longitude", 5), ("location", "x"), ("ssid", "eA=="), ("fw_id", "0" * 32)):
                    di[key] = salt.value(table[key], v)
        return o
    sims.load = load
    try:
        if kind == "linkie":
            return sims.iot_model(rng.choice(sims.names("iot"))), None
        r = rng.random()
        if KINDS[kind][5] == "smart" and kind != "klap2s" and kind != "token" and r < 0.45:
            if r < 0.25:
                m = sims.smart_model(rng.choice(sims.hub_names()), rng, children=rng.sample(sims.names("smart/child"), rng.randrange(1, 6)),
                                     page=rng.choice([2, 10]))
            else:
                m = sims.smart_model(rng.choice(sims.smart_parents()), rng)
            return m, rng.choice(KINDS[kind][0])
        if kind == "camhub" and r < 0.7:
            name = rng.choice([n for n in sims.names("smartcam") if n.startswith("H200")])
            kids = rng.sample(sims.names("smart/child") + sims.names("smartcam/child"), rng.randrange(1, 5))
            return sims.cam_model(name, rng, children=kids), rng.choice(KINDS[kind][0])
        m, fam, _ = pick(rng, kind)
        return m, fam
    finally:
        sims.load = orig


def all_infos(model):
    out = [model.info]
    kids = getattr(model, "children", None)
    if isinstance(kids, dict):
        for c in kids.values():
            out += all_infos(c)
    return out


def f_device(case):
    rng = case.rng
    kind = list(KINDS)[case.index % len(KINDS)]
    style = KINDS[kind][5]
    table = IOT if style == "iot" else SMART
    net = Net(case)
    salt = Salt(rng)
    model, fam = private_model(rng, kind, salt)
    if style == "iot" and kind != "linkie":
        import datetime
        sims.iot_enrich(model, rng, datetime.datetime(2024, 5, 6, 7, 8, 9))
    off = rng.random() < 0.2
    requested = []

    def handler(text):
        requested.append(text)
        ans = json.loads(text)
        out = model.request(ans)
        if state.get("collect"):
            collect(out, table, answered)
        return out

    answered: dict = {}
    state = {}
    rig = Rig(kind, net, rng, handler, family=fam)
    secrets: dict = {}
    for info in all_infos(model):
        collect(info, table, secrets)
    wrong = []

    async def main(loop):
        rig.loop = loop
        if kind == "linkie":
            from kasa.device_factory import get_protocol
            proto = get_protocol(rig.config)
            dev = None
        else:
            dev = await Device.connect(config=rig.config)
            proto = dev.protocol
        if off:
            proto._redact_data = False
        start = len(cap.records)
        if dev:
            await dev.update()
            for c in dev.children[:3]:
                await c.update()
                case.covered("child")
        await queries(proto)
        if off:
            text = "\n".join(t for n, t in cap.records[start:] if n.startswith("kasa.protocols"))
            state["shown"] = text
        await proto.close()

    async def queries(proto):
        if style == "iot":
            for mod in rng.sample(sorted(model.info), min(4, len(model.info))):
                for meth in sorted(model.info[mod] if isinstance(model.info[mod], dict) else ()):
                    want = model.info[mod][meth]
                    if not meth.startswith("get") or not isinstance(want, dict):
                        continue
                    got = await single(proto, {mod: {meth: None}})
                    case.covered("single")
                    if meth == "get_sysinfo" or meth == "get_info":
                        check(want, got[mod][meth], f"{mod}.{meth}")
            if kind != "linkie":
                await proto.query({m: {} for m in list(model.info)[:2]})
            case.covered("batch")
            return
        methods = [m for m, v in model.info.items() if m.startswith("get") and isinstance(v, dict) and v and
                   not (style == "cam" and m.startswith("get_"))]
        if style == "smart":
            for m in ["get_device_info", *rng.sample(methods, min(4, len(methods)))]:
                got = await single(proto, m)
                if got is not None:
                    check(model.info[m], got[m], m)
                    case.covered("single")
        else:
            for m in rng.sample(methods, min(4, len(methods))):
                want = model.info[m]
                mod = next(iter(want))
                got = await ask(proto, {m: {mod: {"name": list(want[mod])} if isinstance(want[mod], dict) else {}}})
                if got is not None:
                    check(want, got[m], m)
                    case.covered("single")
            await single(proto, "getDeviceInfo")
            await single(proto, {"get": {"device_info": {"name": ["basic_info"]}}})
            if model.children:
                got = await ask(proto, {"getChildDeviceList": {"childControl": {"start_index": 0}}})
                check(model.info["getChildDeviceList"]["child_device_list"], got["getChildDeviceList"]["child_device_list"], "children")
                case.covered("paged")
        for _ in range(2):
            sel = rng.sample(methods, min(rng.choice([2, 5, 7]), len(methods)))
            got = await ask(proto, {m: None for m in sel} if style == "smart" else
                            {m: {next(iter(model.info[m])): {}} for m in sel})
            if got is not None:
                case.covered("batch")
                for m in sel:
                    if not isinstance(got[m], dict):
                        continue
                    check(model.info[m], got[m], m)
        for cid, child in list(model.children.items())[:4]:
            if style == "smart":
                got = await ask(proto, {"control_child": {"device_id": cid, "requestData": {"method": "get_device_info"}}})
                if got is not None:
                    check(child.info["get_device_info"], got["control_child"]["responseData"]["result"], "control_child")
                case.covered("child")
            elif style == "cam":
                req = ({"method": "getDeviceInfo", "params": {"device_info": {"name": ["basic_info"]}}} if "getDeviceInfo" in child.info
                       else {"method": "get_device_info"})
                got = await single(proto, {"multipleRequest": {"requests": [
                    {"method": "controlChild", "params": {"childControl": {"device_id": cid, "request_data": req}}}]}})
                if got is not None:
                    check(child.info[req["method"]], got["multipleRequest"]["responses"][0]["result"]["response_data"]["result"], "child")
                case.covered("child")
        if model.children and style == "smart" and len(model.children) > model.page:
            case.covered("paged")

    async def single(proto, q):
        state["collect"] = off
        try:
            return await ask(proto, q)
        finally:
            state["collect"] = False

    async def ask(proto, q):
        try:
            return await proto.query(q)
        except KasaException as ex:
            case.event("refused", q, type(ex).__name__)
            return None

    def check(want, got, what):
        a, b = copy.deepcopy(want), copy.deepcopy(got)
        for o in (a, b):
            if isinstance(o, dict):
                for k in ("err_code", "start_index", "sum"):
                    o.pop(k, None)
        if refs.canon(a) != refs.canon(b):
            wrong.append(f"{what}: {json.dumps(b)[:400]} is not what the device sent: {json.dumps(a)[:400]}")

    with Capture() as cap:
        run = vrun(main, net=net)
    if run.exc is not None:
        case.violate("session-failed", f"{kind} {run.exc!r}")
    for w in wrong[:3]:
        case.violate("answer-altered", f"{kind} {w}")
    judge(case, cap, secrets, "\n".join(requested), off)
    if off:
        shown = state.get("shown", "")
        missing = [(x, f) for x, f in answered.items() if x in secrets and x not in shown and "(" not in f]
        case.expect(not missing, "not-logged", f"{kind}: redaction off, yet not logged: {missing[:3]}")
        case.covered("off")
    case.covered(kind)
    case.sample = (kind, fam and fam.value, off, len(secrets), len(cap.records))
    case.nontrivial((case.index,))
    finish(case, run)


def f_discover(case):
    rng = case.rng
    net = Net(case)
    salt = Salt(rng)
    secrets: dict = {}
    hosts = []
    kinds = set()
    off = rng.random() < 0.2
    supported: dict = {}
    for i in range(rng.choice([1, 2, 4])):
        ip = f"192.168.1.{10 + i}"
        if rng.random() < 0.35:
            kind, resp, exp = c10.legacy_reply(rng)
            salt.apply(resp, IOT)
            collect(resp, IOT, secrets)
            if kind == "ok":
                collect(resp, IOT, supported)
            hosts.append((ip, 9999, refs.xor_plain_to_wire(json.dumps(resp).encode())))
            kinds.add("legacy")
        else:
            kind, resp, exp = c10.new_reply(rng, ip)
            secret = None
            res = resp.get("result") if isinstance(resp, dict) else None
            if isinstance(res, dict) and "mac" in res:
                for k, v in (("device_name", "n"), ("master_device_id", "0" * 32), ("group_id", "0" * 32), ("group_name", "eA==")):
                    if rng.random() < 0.5:
                        res[k] = v
                if rng.random() < 0.5 and "encrypt_info" not in res:
                    res["encrypt_info"] = {"sym_schm": rng.choice(["AES", "TPAP"]), "key": sims.hexid(rng, 64), "data": sims.hexid(rng, 64)}
                salt.apply(resp, DISC)
                collect(resp, DISC, secrets)
                if kind == "ok":
                    collect(resp, DISC, supported)
                if res.get("encrypt_info", {}).get("sym_schm") == "AES" and rng.random() < 0.7:
                    secret = salt.apply({"connect_type": "wireless", "device_id": sims.hexid(rng), "connect_ssid": "eA==",
                                         "owner": sims.hexid(rng), "more": [{"device_id": sims.hexid(rng)}]}, DECR)
                    collect(secret, DECR, secrets)
                    kinds.add("decrypted")
            hosts.append((ip, 20002, (resp, secret, c10.header(rng))))
        kinds.add(kind)
    state = {}

    async def main(loop):
        def respond(tr, data, addr):
            if addr[1] == 20002 and "pem" not in state:
                state["pem"] = json.loads(data[16:])["params"]["rsa_key"]
                for ip, port, data in hosts:
                    tr.inject(c10.encode(case, (0, port, data), state["pem"]), (ip, port), rng.uniform(0.01, 2))
        net.udp_responder = respond
        single = len(hosts) == 1 and rng.random() < 0.4
        try:
            if single:
                await Discover.discover_single(hosts[0][0], discovery_timeout=3, credentials=Credentials("u", "p"))
            else:
                await Discover.discover(discovery_timeout=3)
        except KasaException as ex:
            case.event("refused", type(ex).__name__)

    before = Discover._redact_data
    if off:
        Discover._redact_data = False
    try:
        with Capture() as cap:
            run = vrun(main, net=net)
    finally:
        Discover._redact_data = before
    if run.exc is not None:
        case.violate("discovery-failed", repr(run.exc))
    shown = judge(case, cap, secrets, "", off)
    if off:
        missing = [(s, f) for s, f in supported.items() if s not in shown and "(" not in f and not f.startswith(("encrypt_info", "children"))]
        case.expect(not missing, "not-logged", f"redaction off, yet missing: {missing[:4]}")
        case.covered("off")
    case.covered(*kinds)
    case.sample = (sorted(kinds), len(secrets), len(cap.records), off)
    if secrets:
        case.nontrivial(case.index)
    finish(case, run)


FAMILIES = [Family("redact", f_redact, 400, 4000), Family("device", f_device, 660, 6600), Family("discover", f_discover, 400, 4000)]
