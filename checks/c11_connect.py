"""C11: connection parameters select the right protocol, transport, port and class."""
from __future__ import annotations

import itertools
import json

import kasa
from kasa import (Credentials, Device, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily, Discover,
                  KasaException, UnsupportedDeviceError)
from kasa.iot import IotDevice

from kmon import expect, refs, sims
from kmon.core import Family
from kmon.history import finish
from kmon.net import Net
from kmon.rig import KINDS, Rig
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring of real connects: a monitor of every TCP/TLS connection attempt (host, port, TLS) and of the protocol "
             "spoken to real protocol servers, against an independent support table; the matrix of parameters is enumerated")
NOTE = ("the whole matrix family x encryption x login version x https x http port x override; connect, save, restore and discover "
        "against servers of every transport; try_connect_all")
RULE = "a case = one combination or one device; non-trivial = a device was built or a combination was rejected"
ASSUMPTIONS = ("Device classes of newer legacy devices (KLAP) follow the announced family, as documented.",)
REQUIRED_COVER = ["matrix:rejected", "matrix:speaks", *(f"restore:{k}" for k in KINDS if k != "linkie"),
                  *(f"discovered:{k}" for k in KINDS if k != "linkie"), "tryall:found", "tryall:nothing"]

MATRIX = list(itertools.product(expect.FAMILIES, expect.ENCRYPTIONS, (None, 1, 2), (False, True), (None, 8443), (None, 7777)))


def f_matrix(case):
    """Every combination: which address is contacted how, and with which objects; or a rejection."""
    fam, enc, lv, https, http_port, override = MATRIX[case.index % len(MATRIX)]
    rng = case.rng
    net = Net(case)
    params = DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc), lv, https, http_port)
    if rng.random() < 0.5:
        params = DeviceConnectionParameters.from_values(fam, enc, login_version=lv, https=https, http_port=http_port)
    elif rng.random() < 0.5:  # only what is not the default
        kw = {k: v for k, v in (("login_version", lv), ("https", https), ("http_port", http_port)) if v}
        params = DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc), **kw)
    cfg = DeviceConfig(f"10.0.{case.index % 200}.7", timeout=2, port_override=override, connection_type=params,
                       credentials=rng.choice([Credentials("a@b.c", "pw"), Credentials("a@b.c", "pw"), None]))
    w, c = expect.wire(fam, enc, https), expect.cls(fam, https)
    supported = w is not None and (w[1] == "XorTransport" or c is not None)

    async def main(loop):
        out = None
        try:
            out = await Device.connect(config=cfg)
        except Exception as ex:  # noqa: BLE001
            out = ex
        return out

    run = vrun(main, net=net)
    out = run.result
    desc = (fam, enc, lv, https, http_port, override)
    contacted = {(h, p, t) for _, h, p, t in net.connect_log}
    if not supported:
        case.expect(isinstance(out, UnsupportedDeviceError), "not-rejected", f"{desc}: {out!r}")
        case.expect(not contacted, "contacted-unsupported", f"{desc}: {contacted}")
        case.covered("rejected")
    else:
        needs_auth = not fam.startswith("IOT.") and cfg.credentials is None
        if needs_auth:
            case.expect(isinstance(out, KasaException), "wrong-result", f"{desc} without login: {out!r}")
        else:
            case.expect(isinstance(out, KasaException) and not isinstance(out, UnsupportedDeviceError), "wrong-result", f"{desc}: {out!r}")
        port = override or (http_port if w[1] not in ("XorTransport", "LinkieTransportV2") else None) or w[2]
        tls = w[1] in ("SslAesTransport", "SslTransport", "LinkieTransportV2") or https and w[1].startswith("Klap")
        case.expect(contacted <= {(cfg.host, port, tls)} and (contacted or needs_auth), "wrong-endpoint",
                    f"{desc}: contacted {contacted}, expected {(cfg.host, port, tls)}")
        case.covered("speaks")
    case.expect(not net.open_conns(), "connection-left-open", str(desc))
    case.sample = desc
    case.nontrivial(desc)
    finish(case, run)


def pick(rng, kind):
    """A device model matching the kind, its family, its class name and its identity."""
    style = KINDS[kind][5]
    fams = KINDS[kind][0]
    if style == "iot":
        names = sims.names("iot")
        fam = rng.choice(fams)
        if kind == "klap1":
            want = ("IotBulb",) if "BULB" in fam.value else ("IotPlug",)
            names = [n for n in names if si_class(n) in want]
        name = rng.choice(names)
        return sims.iot_model(name), fam, si_class(name)
    fam = rng.choice(fams)
    if style == "smart":
        bad = ("H100", "KH100", "H200")
        ok = [n for n in sims.names("smart") if not n.startswith(bad)]
        if "ROBOVAC" in fam.value:
            ok = [n for n in ok if n.startswith("RV")]
        return sims.smart_model(rng.choice(ok), rng), fam, "SmartDevice"
    names = [n for n in sims.names("smartcam") if n.startswith("H200") == (kind == "camhub")]
    return sims.cam_model(rng.choice(names), rng), fam, "SmartCamDevice"


def si_class(name):
    return expect.sysinfo_class(sims.iot_model(name).request({"system": {"get_sysinfo": {}}})["system"]["get_sysinfo"])


def endpoint(net, since):
    return {(h, p, t) for _, h, p, t in net.connect_log[since:]}


TLS = {"klap2s", "cam", "camplain", "camhub", "token", "linkie"}


def f_restore(case):
    """Connect, save the configuration, connect again from it: the same device over the same protocol."""
    rng = case.rng
    kinds = [k for k in KINDS if k != "linkie"]
    kind = kinds[case.index % len(kinds)]
    net = Net(case)
    model, fam, cname = pick(rng, kind)
    http_port = rng.choice([None, None, 8085]) if kind != "xor" else None
    override = rng.choice([None, None, 5555])
    rig = Rig(kind, net, rng, lambda t: model.request(json.loads(t)), family=fam, http_port=http_port, port_override=override,
              auth=rng.choice(["plain", "plain", "hash"]))
    want = {(rig.host, rig.port, kind in TLS)}
    keep = rng.choice(["dict", "hash", "exclude", "json"])

    async def main(loop):
        rig.loop = loop
        dev = await Device.connect(config=rig.config)
        case.expect(type(dev).__name__ == cname, "wrong-class", f"{kind}: {type(dev).__name__}, expected {cname}")
        case.expect(endpoint(net, 0) == want, "wrong-endpoint", f"{kind}: {endpoint(net, 0)} != {want}")
        first = (type(dev.protocol).__name__, type(dev.protocol._transport).__name__)
        ident = (dev.model, dev.mac, dev.alias, sorted(map(str, dev.modules)), sorted(dev.features))
        ctype = dev.config.connection_type
        case.expect(ctype == rig.params, "parameters-changed", f"{ctype} != {rig.params}")
        creds = dev.config.credentials
        chash = dev.credentials_hash
        if keep == "dict":
            saved = dev.config.to_dict()
        elif keep == "json":
            saved = json.loads(dev.config.to_json())
        elif keep == "hash":
            saved = dev.config.to_dict_control_credentials(credentials_hash=chash)
        else:
            saved = dev.config.to_dict_control_credentials(exclude_credentials=True)
        saved = json.loads(json.dumps(saved))
        await dev.disconnect()
        case.expect(not net.open_conns(), "connection-left-open", kind)
        cfg = DeviceConfig.from_dict(saved)
        if keep == "exclude" and creds is not None:
            cfg.credentials = creds
        n, t = len(net.connect_log), len(rig.srv.trace)
        again = await Device.connect(config=cfg)
        case.expect(type(again) is type(dev), "restored-differs", f"{kind} {keep}: {type(again).__name__} != {type(dev).__name__}")
        case.expect(endpoint(net, n) == want, "restored-differs", f"{kind} {keep}: {endpoint(net, n)} != {want}")
        second = (type(again.protocol).__name__, type(again.protocol._transport).__name__)
        case.expect(first == second, "restored-differs", f"{kind} {keep}: {second} != {first}")
        ident2 = (again.model, again.mac, again.alias, sorted(map(str, again.modules)), sorted(again.features))
        case.expect(ident == ident2, "restored-differs", f"{kind} {keep}: {ident2!r:.300} != {ident!r:.300}")
        case.expect(len(rig.srv.trace) > t, "restored-differs", "nothing was asked")
        await again.disconnect()

    run = vrun(main, net=net)
    if run.exc is None:
        case.covered(kind)
    else:
        case.violate("connect-failed", f"{kind} {keep} {run.exc!r}")
    case.sample = (kind, fam.value, cname, keep, http_port, override)
    case.nontrivial((kind, cname, keep, http_port, override, case.index))
    finish(case, run)


def f_discovered(case):
    """A discovered device speaks to the right endpoint, and its saved configuration gives the same device."""
    rng = case.rng
    kinds = [k for k in KINDS if k != "linkie"]
    kind = kinds[case.index % len(kinds)]
    net = Net(case)
    model, fam, cname = pick(rng, kind)
    _, enc, lv, https, dport, style = KINDS[kind]
    http_port = rng.choice([dport, dport, None, 8085]) if kind != "xor" else None
    rig = Rig(kind, net, rng, lambda t: model.request(json.loads(t)), family=fam, http_port=http_port)
    want = {(rig.host, rig.port, kind in TLS)}
    if kind == "xor":
        reply = refs.xor_plain_to_wire(json.dumps(model.request({"system": {"get_sysinfo": {}}})).encode())
        sport = 9999
    else:
        schm = {"is_support_https": https, "encrypt_type": enc.value}
        res = {"device_type": fam.value, "device_model": "M(EU)", "device_id": "ID", "ip": rig.host, "mac": "AA-BB-CC-DD-EE-FF",
               "mgt_encrypt_schm": schm}
        if lv is not None:
            if rng.random() < 0.5:
                schm["lv"] = lv
            else:
                res["encrypt_type"] = [str(v) for v in range(1, lv + 1)]
                rng.shuffle(res["encrypt_type"])
        if http_port is not None:
            schm["http_port"] = http_port
        if rng.random() < 0.3:
            del schm["encrypt_type"]
            res["encrypt_info"] = {"sym_schm": enc.value, "key": "", "data": ""}
        reply = rng.randbytes(16) + json.dumps({"error_code": 0, "result": res}).encode()
        sport = 20002
    single = rng.random() < 0.5

    async def main(loop):
        rig.loop = loop

        def respond(tr, data, addr):
            if not tr.sent[1:]:
                tr.inject(reply, (rig.host, sport), 0.1)

        net.udp_responder = respond
        creds = Credentials("user@x.org", "Passw0rd")
        if single:
            dev = await Discover.discover_single(rig.host, credentials=creds)
        else:
            dev = (await Discover.discover(credentials=creds)).get(rig.host)
        if not case.expect(dev is not None, "not-discovered", kind):
            return
        case.expect(type(dev).__name__ == cname, "wrong-class", f"{kind}: {type(dev).__name__}, expected {cname}")
        case.expect(not net.connect_log, "contacted-early", str(net.connect_log))
        await dev.update()
        case.expect(endpoint(net, 0) == want, "wrong-endpoint", f"{kind}: {endpoint(net, 0)} != {want}")
        ident = (dev.model, dev.mac, dev.alias, sorted(map(str, dev.modules)), sorted(dev.features))
        saved = json.loads(json.dumps(dev.config.to_dict()))
        await dev.disconnect()
        n = len(net.connect_log)
        again = await Device.connect(config=DeviceConfig.from_dict(saved))
        case.expect(type(again) is type(dev), "restored-differs", f"{kind}: {type(again).__name__} != {type(dev).__name__}")
        case.expect(endpoint(net, n) == want, "restored-differs", f"{kind}: {endpoint(net, n)} != {want}")
        ident2 = (again.model, again.mac, again.alias, sorted(map(str, again.modules)), sorted(again.features))
        case.expect(ident == ident2, "restored-differs", f"{kind}: {ident2!r:.300} != {ident!r:.300}")
        await again.disconnect()

    run = vrun(main, net=net)
    if run.exc is None:
        case.covered(kind)
    else:
        case.violate("connect-failed", f"{kind} {run.exc!r}")
    case.sample = (kind, fam.value, cname, http_port, single)
    case.nontrivial((kind, cname, http_port, single, case.index))
    finish(case, run)


# kinds that trying everything can find: it tries one login version per transport, so not AES with the old login
TRYABLE = {"xor": "IotPlug", "klap1": "IotPlug", "klap2": "SmartDevice", "aes2": "SmartDevice",
           "cam": "SmartCamDevice", "camplain": "SmartCamDevice", "token": "SmartDevice", "klap2s": "SmartDevice"}


def f_tryall(case):
    """try_connect_all finds the device of any kind, reports each attempt once, and ends with a usable device."""
    rng = case.rng
    kind = rng.choice([*TRYABLE, "none"])
    net = Net(case)
    attempts = []
    rig = None
    if kind != "none":
        while True:
            model, fam, cname = pick(rng, kind)
            if kind != "xor" or cname == "IotPlug" or True:
                break
        rig = Rig(kind, net, rng, lambda t: model.request(json.loads(t)), family=fam)

    async def main(loop):
        if rig:
            rig.loop = loop
        dev = await Discover.try_connect_all("10.1.2.3", credentials=Credentials("user@x.org", "Passw0rd"), timeout=2,
                                             on_attempt=lambda a, ok: attempts.append((a, ok)))
        if kind == "none":
            case.expect(dev is None, "found-nothing", repr(dev))
            case.covered("nothing")
        elif case.expect(dev is not None, "not-found", kind):
            want = cname if kind in ("xor",) else TRYABLE[kind]
            case.expect(type(dev).__name__ == want or kind == "klap1", "wrong-class", f"{kind}: {type(dev).__name__} != {want}")
            n = len(net.connect_log)
            await dev.update()
            case.expect(all((h, p, t) == (rig.host, rig.port, kind in TLS) for _, h, p, t in net.connect_log[n:]), "wrong-endpoint", kind)
            case.covered("found")
            saved = DeviceConfig.from_dict(dev.config.to_dict())
            await dev.disconnect()
            again = await Device.connect(config=saved)
            case.expect(type(again) is type(dev), "restored-differs", kind)
            await again.disconnect()
        keys = [a for a, _ in attempts]
        case.expect(len(keys) == len(set(keys)), "attempt-twice", repr(keys))
        oks = [ok for _, ok in attempts]
        case.expect(oks == [False] * (len(oks) - 1) + [kind != "none"], "attempts", repr(oks))

    run = vrun(main, net=net)
    case.expect(not net.open_conns(), "connection-left-open", kind)
    if run.exc is not None:
        case.violate("connect-failed", f"{kind} {run.exc!r}")
    case.sample = (kind, len(attempts))
    case.nontrivial((kind, case.index))
    finish(case, run)


FAMILIES = [Family("matrix", f_matrix, len(MATRIX), len(MATRIX) * 3), Family("restore", f_restore, 500, 12000),
            Family("discovered", f_discovered, 400, 10000), Family("tryall", f_tryall, 150, 3000)]
