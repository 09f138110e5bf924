"""C10: discovery reports every answering host once, correctly, and survives garbage."""
from __future__ import annotations

import asyncio
import base64
import binascii
import copy
import json
import struct

import kasa
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
from kasa import Credentials, Discover, KasaException, UnsupportedDeviceError

from kmon import expect, refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.net import Net
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring of the real discovery code on an in-memory UDP network and a virtual clock: a reference classification "
             "of every datagram, an exactly-once monitor over the callbacks and results, and a monitor of the sent queries")
NOTE = ("random sets of hosts with valid, unsupported, malformed, duplicated, re-ordered and foreign datagrams on both ports, for "
        "discover() and discover_single(), with all callbacks and options")
RULE = "a case = one discovery run over 0-8 hosts; non-trivial = at least two datagrams arrived"
ASSUMPTIONS = ("A host is classified by the first datagram it sends from one of the two discovery ports.",)
REQUIRED_COVER = ["many:ok", "many:unsupported", "many:invalid", "many:legacy", "many:new", "many:dup", "many:foreign",
                  "many:encrypted", "many:late", "many:target", "many:mixed-ports", "single:ok", "single:unsupported",
                  "single:silent", "single:invalid", "single:hostname", "single:unresolvable", "single:others"]

GARBAGE = [b"", b"\0", b"x" * 15, b"x" * 16, b"y" * 40, b"\xff" * 64, b"0" * 16 + b"{", b"0" * 16 + b"nope",
           b"0" * 16 + b"\xff\xfe\x00", b"0" * 16 + b"[" * 400]


def header(rng):
    return bytes([2, 0, 0, 1]) + rng.randbytes(12)


def new_reply(rng, ip):
    """(kind, response object, expectations) of a device answering on the newer discovery port."""
    family = rng.choice([f for f in expect.FAMILIES if f.startswith("SMART")] * 3 + list(expect.FAMILIES))
    enc = rng.choice(["KLAP", "AES", "AES", "KLAP", "XOR"] if rng.random() < 0.2 else ["KLAP", "AES"])
    https = rng.random() < (0.9 if family in ("SMART.IPCAMERA", "SMART.TAPODOORBELL", "SMART.TAPOROBOVAC") else 0.2)
    http_port = rng.choice([None, None, 80, 443, 4433, 8080])
    lv = rng.choice([None, 1, 2])
    model = rng.choice(["P100", "H200(EU)", "C210", "L530E(US)", "KS240(US)", "X"])
    res = {"device_type": family, "device_model": model, "device_id": rng.randbytes(16).hex(), "ip": ip,
           "mac": "-".join(f"{b:02X}" for b in rng.randbytes(6)), "factory_default": False, "is_support_iot_cloud": True,
           "obd_src": "tplink", "owner": rng.randbytes(16).hex().upper()}
    schm = {"is_support_https": https}
    via_info = rng.random() < 0.3
    if not via_info:
        schm["encrypt_type"] = enc
    if http_port is not None:
        schm["http_port"] = http_port
    if lv is not None:
        schm["lv"] = lv
    res["mgt_encrypt_schm"] = schm
    et = None
    if via_info:
        res["encrypt_info"] = {"sym_schm": enc, "key": "", "data": ""}
    if rng.random() < 0.4:
        et = rng.choice([["1"], ["1", "2"], ["3"]])
        res["encrypt_type"] = et
    if rng.random() < 0.5:
        res["device_name"] = "name"
        res["firmware_version"] = "1.0.0"
    login = lv or (max(int(i) for i in et) if et else None)
    kind, unsup = "ok", None
    r = rng.random()
    if r < 0.25:
        kind = "unsupported"
        unsup = rng.choice(["missing", "family", "enc", "noscheme", "noenc", "shape"])
        if unsup == "missing":
            del res[rng.choice(["device_type", "device_model", "device_id", "ip", "mac"])]
        elif unsup == "family":
            res["device_type"] = rng.choice(["SMART.TOASTER", "X", "", "IOT.TOASTER", "SMART."])
        elif unsup == "enc":
            if via_info:
                res["encrypt_info"]["sym_schm"] = rng.choice(["TPAP", "RSA"])
            else:
                schm["encrypt_type"] = rng.choice(["TPAP", "", "aes"]) if rng.random() < 0.9 else "NONE"
        elif unsup == "noscheme":
            del res["mgt_encrypt_schm"]
        elif unsup == "noenc":
            schm.pop("encrypt_type", None)
            res.pop("encrypt_info", None)
        elif unsup == "shape":
            return "unsupported", rng.choice([{}, [], {"result": None}, {"result": []}, 5, "x", None, {"error_code": -1}]), {}
    w, c = expect.wire(family, enc, https), expect.cls(family, https)
    if kind == "ok" and (w is None or c is None):
        kind = "unsupported"
    exp = {}
    if kind == "ok":
        exp = dict(cls=c, protocol=w[0], transport=w[1], port=http_port or w[2], family=family, enc=enc, https=https, lv=login,
                   http_port=http_port, legacy=False, id=res["device_id"], model=model.partition("(")[0])
        if w[1] in ("LinkieTransportV2", "XorTransport"):
            exp["port"] = w[2]
    return kind, {"error_code": 0, "result": res}, exp


def legacy_reply(rng, name=None):
    model = sims.iot_model(name or rng.choice(sims.names("iot")))
    resp = model.request({"system": {"get_sysinfo": {}}})
    si = resp["system"]["get_sysinfo"]
    kind = "ok"
    r = rng.random()
    if r < 0.3:
        kind = "invalid"
        k = rng.choice(["notype", "badtype", "shape", "errcode"])
        if k == "notype":
            si.pop("type", None), si.pop("mic_type", None)
        elif k == "badtype":
            for key in ("type", "mic_type"):
                if key in si:
                    si[key] = "IOT.SMARTTOASTER"
        elif k == "errcode":
            resp = {"system": {"get_sysinfo": {"err_code": -1}}}
        else:
            resp = rng.choice([{}, [], None, 5, "x", {"system": {}}, {"system": {"err_code": -1}}, {"emeter": {}}])
    elif r < 0.36:
        kind = "camera"     # nested information: a legacy camera
        resp = {"system": {"get_sysinfo": {"err_code": 0, "system": {**si, "type": "IOT.IPCAMERA"}}}}
    exp = {}
    if kind == "ok":
        t = si.get("mic_type", si.get("type"))
        exp = dict(cls=expect.sysinfo_class(si), protocol="IotProtocol", transport="XorTransport", port=9999, family=t, enc="XOR",
                   https=False, lv=None, http_port=None, legacy=True, id=si["hwId"], model=None, alias=si.get("alias"))
    return kind, resp, exp


class Host:
    def __init__(self, ip):
        self.ip = ip
        self.packets = []       # (arrival, source port, bytes or callable(query key) -> bytes, kind, response, expectations)


def make_host(rng, ip, end, dport, stats):
    h = Host(ip)
    n = rng.choice([1, 1, 1, 2, 3, 5])
    for i in range(n):
        t = rng.uniform(0.001, end * 0.999) if rng.random() < 0.93 else end + rng.uniform(0.001, 5)
        if rng.random() < 0.15:
            t = rng.uniform(0.001, 0.01)
        r = rng.random()
        if i and rng.random() < 0.5:
            _, port, data, kind, resp, exp = rng.choice(h.packets)
            h.packets.append((t, port, data, kind, resp, exp))
        elif r < 0.07:
            h.packets.append((t, rng.choice([1, 53, 9998, 20001, 45000]), rng.choice(GARBAGE), "foreign", None, {}))
        elif r < 0.15:
            port = rng.choice([dport, 20002])
            h.packets.append((t, port, rng.choice(GARBAGE), "invalid", None, {}))
        elif r < 0.5:
            kind, resp, exp = legacy_reply(rng)
            h.packets.append((t, dport, refs.xor_plain_to_wire(json.dumps(resp).encode()), kind, resp, exp))
        else:
            kind, resp, exp = new_reply(rng, ip)
            secret = None
            res = resp.get("result") if isinstance(resp, dict) else None
            info = res.get("encrypt_info") if isinstance(res, dict) else None
            if info and info["sym_schm"] == "AES" and rng.random() < 0.7:
                secret = {"connect_type": "wireless", "device_id": rng.randbytes(8).hex(), "n": rng.randrange(999)}
                exp["secret"] = secret
            h.packets.append((t, 20002, (resp, secret, header(rng)), kind, resp, exp))
    h.packets.sort(key=lambda p: p[0])
    return h


def encode(case, packet, pem):
    """The wire bytes of a packet (devices encrypt for the key in the query)."""
    data = packet[2]
    if isinstance(data, bytes):
        return data
    resp, secret, head = data
    resp = copy.deepcopy(resp)
    if secret is not None and pem is not None:
        key, iv = case.rng.randbytes(16), case.rng.randbytes(16)
        pub = serialization.load_pem_public_key(pem.encode())
        enc = pub.encrypt(key + iv, padding.OAEP(padding.MGF1(hashes.SHA1()), hashes.SHA1(), None))  # noqa: S303
        resp["result"]["encrypt_info"] = {
            "sym_schm": "AES", "key": base64.b64encode(enc).decode(),
            "data": base64.b64encode(refs.cbc_enc(key, iv, json.dumps(secret).encode())).decode()}
    return head + json.dumps(resp).encode()


def check_query(case, sent, target, dport, packets, start, interval, upto):
    """The queries are the documented ones, sent the configured number of times to both ports."""
    pem = None
    for port in (dport, 20002):
        at = [t - start for t, _, a in sent if a == (target, port)]
        want = [i * interval for i in range(packets) if i * interval < upto - 1e-9]
        if port == dport == 20002:
            continue
        case.expect(len(at) == len(want) and all(abs(x - y) < 1e-6 for x, y in zip(at, want)), "query-schedule",
                    f"port {port}: sent at {at}, expected {want}")
    for t, data, addr in sent:
        case.expect(addr[0] == target and addr[1] in (dport, 20002), "query-target", str(addr))
        if addr[1] == 20002:
            case.expect(data[:4] == bytes([2, 0, 0, 1]), "query-format", data[:16].hex())
            size, flags, pad = struct.unpack(">HBB", data[4:8])
            case.expect(size == len(data) - 16 and flags == 17 and pad == 0, "query-format", data[:16].hex())
            crc = int.from_bytes(data[12:16], "big")
            blank = data[:12] + struct.pack(">I", 0x5A6B7C8D) + data[16:]
            case.expect(crc == binascii.crc32(blank), "query-crc", data[:16].hex())
            pem = json.loads(data[16:])["params"]["rsa_key"]
        else:
            plain = refs.xor_wire_to_plain(data)
            case.expect(json.loads(plain) == {"system": {"get_sysinfo": {}}}, "query-format", repr(plain))
    return pem


def judge_device(case, dev, exp, ip, host, creds, timeout, port):
    d = f"{ip} {exp}"
    case.expect(type(dev).__name__ == exp["cls"], "wrong-class", f"{type(dev).__name__}: {d}")
    case.expect(dev.host == host, "wrong-host", f"{dev.host}: {d}")
    case.expect(type(dev.protocol).__name__ == exp["protocol"], "wrong-protocol", f"{type(dev.protocol).__name__}: {d}")
    tr = dev.protocol._transport
    case.expect(type(tr).__name__ == exp["transport"], "wrong-transport", f"{type(tr).__name__}: {d}")
    case.expect(tr._port == (port or exp["port"]), "wrong-port", f"{tr._port} (override {port}): {d}")
    cfg = dev.config
    case.expect(cfg.credentials == creds, "wrong-credentials", f"{cfg.credentials}: {d}")
    case.expect(cfg.timeout == (timeout or 5), "wrong-timeout", f"{cfg.timeout}, wanted {timeout}: {d}")
    case.expect(cfg.port_override == port, "wrong-port", f"{cfg.port_override}: {d}")
    ct = cfg.connection_type
    got = (ct.device_family.value, ct.encryption_type.value, ct.https, ct.login_version, ct.http_port)
    want = (exp["family"], exp["enc"], exp["https"], exp["lv"], exp["http_port"])
    case.expect(got == want, "wrong-parameters", f"{got} != {want}: {d}")
    if exp["legacy"]:
        case.expect(dev.alias == exp["alias"] and dev.hw_info["hwId"] == exp["id"], "wrong-data", f"{dev.alias} {dev.hw_info} {d}")
    else:
        case.expect(dev.model == exp["model"], "wrong-data", f"{dev.model}: {d}")
        info = dev._discovery_info
        case.expect(info["device_id"] == exp["id"] and info["ip"] == ip, "wrong-data", f"{info!r:.300}: {d}")
        if exp.get("secret"):
            case.expect(info.get("decrypted_data") == exp["secret"], "encrypted-info", f"{info.get('decrypted_data')} {d}")
            case.covered("encrypted")


def options(rng):
    creds = rng.choice([None, Credentials("u@x", "pw")])
    return creds, rng.choice([None, None, 3, 20]), rng.choice([None, None, None, 12345])


def f_many(case):
    rng = case.rng
    net = Net(case)
    creds, timeout, port = options(rng)
    dport = port or 9999
    dtimeout = rng.choice([1, 2, 5, 7])
    packets = rng.choice([1, 2, 3, 5])
    nh = rng.choice([0, 1, 2, 3, 5, 8])
    hosts = [make_host(rng, f"192.168.1.{10 + i}", dtimeout, dport, None) for i in range(nh)]
    target = rng.choice(["255.255.255.255", "255.255.255.255", "192.168.1.255"] + [h.ip for h in hosts][:2])
    userpass = creds is not None and rng.random() < 0.4
    seen_ok, seen_unsup, seen_raw = [], [], []
    slow = rng.choice([0, 0, 0.1, 3, 9])
    cbs = {k for k in ("ok", "unsup", "raw") if rng.random() < 0.75}
    errors = [rng.uniform(0, dtimeout) for _ in range(rng.choice([0, 0, 1, 3]))]
    state = {}

    # reference: what each host is
    end = dtimeout
    decided = {}
    late = {}
    for t, h, p in sorted(((p[0], h, p) for h in hosts for p in h.packets), key=lambda x: x[0]):
        if p[3] == "foreign":
            case.covered("foreign")
            continue
        if t >= end:
            case.covered("late")
            late.setdefault(h.ip, p)
            continue
        if h.ip in decided:
            case.covered("dup")
            if p[1] != decided[h.ip][1]:
                case.covered("mixed-ports")
            continue
        decided[h.ip] = p
        if h.ip == target:
            end = t     # the answer that was asked for: discovery is over
            case.covered("target")

    async def main(loop):
        async def on_ok(dev):
            seen_ok.append(dev)
            await asyncio.sleep(slow)

        async def on_unsup(ex):
            seen_unsup.append(ex)
            await asyncio.sleep(slow)

        def respond(tr, data, addr):
            if addr[1] == 20002 and addr[1] != dport and "pem" not in state:
                state["pem"] = json.loads(data[16:])["params"]["rsa_key"]
                state["t0"] = loop.time()
                for h in hosts:
                    for p in h.packets:
                        tr.inject(encode(case, p, state["pem"]), (h.ip, p[1]), p[0])
                for e in errors:
                    tr.inject_error(OSError(101, "unreachable"), e)

        net.udp_responder = respond
        kw = {}
        if "ok" in cbs:
            kw["on_discovered"] = on_ok
        if "unsup" in cbs:
            kw["on_unsupported"] = on_unsup
        if "raw" in cbs:
            kw["on_discovered_raw"] = lambda raw: seen_raw.append(copy.deepcopy(raw))
        if creds and userpass:
            kw.update(username=creds.username, password=creds.password)
        elif creds:
            kw["credentials"] = creds
        t0 = loop.time()
        found = await Discover.discover(target=target, discovery_timeout=dtimeout, discovery_packets=packets, port=port,
                                        timeout=timeout, **kw)
        state["dur"] = loop.time() - t0
        state["sends"] = net.udp[0].sent
        state["start"] = t0
        return found

    run = vrun(main, net=net)
    if run.exc is not None:
        case.violate("discovery-aborted", f"{run.exc!r} for {[(p[0], p[3]) for h in hosts for p in h.packets]}")
        return
    found = run.result
    # hosts answering while the callbacks are still running may or may not be reported
    reported = set(found) | {d.host for d in seen_ok} | {e.host for e in seen_unsup} | {r["meta"]["ip"] for r in seen_raw}
    for ip in set(late) - set(decided):
        if ip in reported:
            decided[ip] = late[ip]
    groups = {k: {ip for ip, p in decided.items() if p[3] == k or (k == "invalid" and p[3] == "camera")}
              for k in ("ok", "unsupported", "invalid")}
    # a legacy camera is either unsupported or unusable, but not a device
    nohost = [e for e in seen_unsup if e.host is None]
    cams = {ip for ip, p in decided.items() if p[3] == "camera"}
    case.expect(set(found) == groups["ok"], "wrong-devices", f"found {sorted(found)}, expected {sorted(groups['ok'])}; {decided!r:.600}")
    for ip in set(found) & groups["ok"]:
        judge_device(case, found[ip], decided[ip][5], ip, ip, creds, timeout, port)
        case.covered("ok")
        case.covered("legacy" if decided[ip][5]["legacy"] else "new")
    for k in ("unsupported", "invalid"):
        if groups[k]:
            case.covered(k)
    if "ok" in cbs:
        case.expect(sorted(d.host for d in seen_ok) == sorted(groups["ok"]), "callback", f"on_discovered for {[d.host for d in seen_ok]}")
        case.expect(all(found.get(d.host) is d for d in seen_ok), "callback", "callback got another object than the result")
    if "unsup" in cbs:
        got = sorted(e.host for e in seen_unsup if e.host)
        case.expect(sorted(set(got) | cams) == sorted(groups["unsupported"] | cams) and len(got) == len(set(got)), "callback",
                    f"on_unsupported for {got}, expected {sorted(groups['unsupported'])}")
        case.expect(len(nohost) <= sum(any(p[3] == 'camera' for p in h.packets) for h in hosts), "callback", f"{nohost}")
        case.expect(all(isinstance(e, UnsupportedDeviceError) for e in seen_unsup), "callback", repr(seen_unsup))
    if "raw" in cbs:
        readable = {ip: p for ip, p in decided.items() if p[4] is not None or p[3] != "invalid"}
        got = sorted(r["meta"]["ip"] for r in seen_raw)
        case.expect(len(got) == len(set(got)) and set(got) >= groups["ok"] | groups["unsupported"] and set(got) <= set(decided), "callback",
                    f"raw for {got}, expected {sorted(readable)}")
        for r in seen_raw:
            p = decided.get(r["meta"]["ip"])
            if p is None or p[4] is None:
                continue
            want = p[4]
            if p[5].get("secret") or isinstance(p[2], tuple) and p[2][1]:
                want = {**want, "result": {**want["result"], "encrypt_info": r["discovery_response"]["result"].get("encrypt_info")}}
            case.expect(r["discovery_response"] == want and r["meta"]["port"] == p[1], "callback", f"raw {r!r:.300} != {want!r:.300}")
    if "pem" in state:
        check_query(case, state["sends"], target, dport, packets, state["start"], dtimeout / packets, end)
    # callbacks (also of answers that arrive meanwhile) are awaited
    base, pending = end, slow if cbs & {"ok", "unsup"} and (groups["ok"] | groups["unsupported"] | cams) else 0
    if pending and late:
        pending += max(p[0] for p in late.values()) - end
    case.expect(base - 1e-6 <= state["dur"] <= base + pending + 0.01, "duration",
                f"took {state['dur']:.3f}s, discovery time {base:.3f}, callbacks {pending}")
    case.expect(not net.open_udp_endpoints(), "endpoint-left-open", "")
    if sum(len(h.packets) for h in hosts) > 1:
        case.nontrivial((target, packets, [[(p[1], p[3], p[5].get("cls")) for p in h.packets] for h in hosts]))
    case.sample = [[(round(p[0], 2), p[1], p[3]) for p in h.packets] for h in hosts]
    finish(case, run)


def f_single(case):
    rng = case.rng
    net = Net(case)
    creds, timeout, port = options(rng)
    dport = port or 9999
    dtimeout = rng.choice([1, 2, 5])
    ip = "192.168.1.50"
    hostname = rng.choice([ip, ip, "plug.local", "nowhere.local"])
    silent = rng.random() < 0.2
    me = make_host(rng, ip, dtimeout, dport, None)
    if silent:
        me.packets = [p for p in me.packets if p[3] == "foreign"]
    others = [make_host(rng, f"192.168.1.{60 + i}", dtimeout, dport, None) for i in range(rng.choice([0, 0, 1, 3]))]
    use_cb = rng.random() < 0.3
    raws, unsups = [], []
    state = {}
    first = next((p for p in me.packets if p[3] != "foreign" and p[0] < dtimeout), None)

    async def main(loop):
        import socket as s

        async def getaddrinfo(host, p, **kw):
            if host == "nowhere.local":
                raise s.gaierror(-2, "Name or service not known")
            return [(s.AF_INET, s.SOCK_DGRAM, 17, "", (ip, 0))]

        loop.getaddrinfo = getaddrinfo

        def respond(tr, data, addr):
            if addr[1] == 20002 and "pem" not in state:
                state["pem"] = json.loads(data[16:])["params"]["rsa_key"]
                for h in (me, *others):
                    for p in h.packets:
                        tr.inject(encode(case, p, state["pem"]), (h.ip, p[1]), p[0])

        net.udp_responder = respond

        async def on_unsup(ex):
            unsups.append(ex)

        kw = {"on_unsupported": on_unsup} if use_cb else {}
        kw["on_discovered_raw"] = raws.append
        if creds:
            kw["credentials"] = creds
        t0 = loop.time()
        try:
            dev = await Discover.discover_single(hostname, discovery_timeout=dtimeout, port=port, timeout=timeout, **kw)
            out = ("device", dev) if dev is not None else ("none", None)
        except Exception as ex:  # noqa: BLE001
            out = ("raised", ex)
        state["dur"] = loop.time() - t0
        state["start"] = t0
        return out

    run = vrun(main, net=net)
    if run.exc is not None:
        case.violate("discovery-aborted", repr(run.exc))
        return
    what, val = run.result
    if others:
        case.covered("others")
    if hostname == "nowhere.local":
        case.expect(what == "raised" and type(val) is KasaException, "unresolvable", f"{what} {val!r}")
        case.covered("unresolvable")
    elif first is None:
        case.expect(what == "raised" and isinstance(val, kasa.TimeoutError), "silent-host", f"{what} {val!r}")
        case.expect(abs(state["dur"] - dtimeout) < 0.01, "duration", f"gave up after {state['dur']:.3f}s of {dtimeout}")
        case.covered("silent")
    else:
        kind = first[3]
        case.expect(abs(state["dur"] - first[0]) < 0.01, "duration", f"answer at {first[0]:.3f}, returned after {state['dur']:.3f}s")
        if kind == "ok":
            if case.expect(what == "device", "wrong-result", f"{what} {val!r} for {first!r:.400}"):
                judge_device(case, val, first[5], ip, hostname, creds, timeout, port)
                case.covered("ok")
                if hostname != ip:
                    case.covered("hostname")
        elif kind == "unsupported":
            if use_cb:
                case.expect(what == "none" and len(unsups) == 1 and isinstance(unsups[0], UnsupportedDeviceError), "wrong-result",
                            f"{what} {val!r} {unsups}")
            else:
                case.expect(what == "raised" and isinstance(val, UnsupportedDeviceError), "wrong-result", f"{what} {val!r} for {first!r:.400}")
            case.covered("unsupported")
        elif kind == "camera":
            case.expect(what == "none" or what == "raised" and isinstance(val, KasaException) and not isinstance(val, kasa.TimeoutError),
                        "wrong-result", f"{what} {val!r} for a legacy camera")
        else:
            case.expect(what == "raised" and isinstance(val, KasaException) and not isinstance(val, kasa.TimeoutError), "wrong-result",
                        f"{what} {val!r} for {first!r:.400}")
            case.covered("invalid")
    if "pem" in state:
        upto = first[0] if first else dtimeout
        check_query(case, net.udp[0].sent, ip, dport, 3, state["start"], dtimeout / 3, upto)
    case.expect(not net.open_udp_endpoints(), "endpoint-left-open", "")
    case.nontrivial((hostname, [(p[1], p[3]) for p in me.packets], len(others), use_cb, case.index % 50))
    case.sample = (hostname, [(round(p[0], 2), p[1], p[3]) for p in me.packets])
    finish(case, run)


FAMILIES = [Family("many", f_many, 2500, 60000), Family("single", f_single, 1500, 30000)]
