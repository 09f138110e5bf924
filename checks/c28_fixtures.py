"""C28: fixture files made from a device hold its answers, and nothing private of it, its children or its discovery."""
from __future__ import annotations

import contextlib
import copy
import io
import json
import logging
import os
import re
import shutil
import sys
import tempfile

from kasa.iot import IotDevice
from kasa.protocols import IotProtocol
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice

from kmon import core, sims
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

from checks import c14_redact as c14

if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)
from devtools import dump_devinfo as dd  # noqa: E402

TECHNIQUE = ("runtime monitoring with taint-like sentinels: the fixture maker runs against simulated devices in which every private value is "
             "unique; a monitor searches the results and the files written for those values, and compares everything else with the "
             "device's own answers to the queries on its execution log")
NOTE = ("SMART devices, strips, hubs, cameras, camera hubs, vacuums and IOT devices with unique private values; refused queries, children which "
        "do not answer, several batch sizes, combined queries which fail; discovery answers with decrypted data; files saved to a scratch folder")
RULE = "a case = one run of the fixture maker on one device; non-trivial = at least one private value was in the device's answers"
ASSUMPTIONS = ("The vendor part of a MAC address (its first half) is not private; IP addresses are replaced.",
               "Ids which stand for children are replaced by numbered ones, other masked values by anything that is not the value.")
REQUIRED_COVER = [f"smart:{k}" for k in ("plain", "strip", "hub", "child-file", "same-model", "refused", "mute-child", "discovery", "decrypted",
                                         "saved", "batch", "final-fails", "vacuum")] + \
    [f"cam:{k}" for k in ("plain", "hub", "child-file", "cam-child", "refused", "discovery", "saved")] + \
    [f"iot:{k}" for k in ("plain", "strip", "refused", "discovery", "final-fails", "saved")]

IPS = {"ip", "local_ip"}
LOOSE = {"channel", "bssid"}


def unmask(obj, rng, found):
    """Addresses of the device's own."""
    if isinstance(obj, list):
        for o in obj:
            unmask(o, rng, found)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            if k in IPS and isinstance(v, str) and v:
                obj[k] = f"10.{rng.randrange(100, 250)}.{rng.randrange(100, 250)}.{rng.randrange(100, 250)}"
                found[obj[k]] = k
            else:
                unmask(v, rng, found)


def alike(got, want, table, path=""):
    """First place where an answer differs in something which is not private."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{path}: {got!r} for {want!r}"
        if set(got) != set(want):
            return f"{path}: keys {sorted(map(str, set(got) ^ set(want)))}"
        for k, v in want.items():
            p = f"{path}.{k}"
            if k in IPS and isinstance(v, str) and v:
                if got[k] != "127.0.0.123":
                    return f"{p}: {got[k]!r}"
            elif (k in table or k in LOOSE) and not isinstance(v, (dict, list)):
                if v in (None, "") and got[k] != v:
                    return f"{p}: {got[k]!r} for nothing"
                if isinstance(v, str) and v and not (isinstance(got[k], str) and got[k] or k in LOOSE):
                    return f"{p}: {got[k]!r} for a text"
            elif k == "encrypt_info" and isinstance(v, dict):
                if set(got[k]) != set(v) or got[k].get("sym_schm") != v.get("sym_schm"):
                    return f"{p}: {got[k]}"
            elif k == "decrypted_data" and isinstance(v, dict):
                if r := alike(got[k], v, c14.DECR, p):
                    return r
            elif k == "children" and table is c14.IOT and isinstance(v, list):
                if len(got[k]) != len(v):
                    return f"{p}: {len(got[k])} for {len(v)}"
                for a, b in zip(got[k], v, strict=True):
                    if r := alike({x: y for x, y in a.items() if x not in ("id", "alias")}, {x: y for x, y in b.items() if x not in ("id", "alias")}, table, p):
                        return r
            elif k == "area_list" and isinstance(v, list):
                if len(got[k]) != len(v) or any(alike({**a, "name": 0}, {**b, "name": 0}, table, p) for a, b in zip(got[k], v, strict=True)):
                    return f"{p}: {got[k]}"
            elif r := alike(got[k], v, table, p):
                return r
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f"{path}: {got!r} for {want!r}"
        for i, (a, b) in enumerate(zip(got, want, strict=True)):
            if r := alike(a, b, table, f"{path}[{i}]"):
                return r
        return None
    return None if got == want and type(got) is type(want) else f"{path}: {got!r} for {want!r}"


class Quiet:
    """The maker talks a lot: off the screen, and its error records kept."""

    def __enter__(self):
        self.out = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.out)
        self.cm.__enter__()
        self.lvl = dd._LOGGER.disabled
        dd._LOGGER.disabled = True
        return self

    def __exit__(self, *a):
        dd._LOGGER.disabled = self.lvl
        self.cm.__exit__(*a)


def discovery(rng, model, salt, legacy=False):
    """A discovery answer as raw data, and what it hides."""
    res = {"device_id": "0" * 32, "owner": "0" * 32, "device_type": "SMART.TAPOPLUG", "device_model": "P100(EU)", "ip": "127.0.0.1",
           "mac": "00-11-22-33-44-55", "is_support_iot_cloud": True, "obd_src": "tplink", "factory_default": False,
           "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}}
    if rng.random() < 0.5:
        res.update(device_name="n", master_device_id="0" * 32, group_id="0" * 32, group_name="eA==")
    dec = False
    if rng.random() < 0.6:
        res["encrypt_info"] = {"sym_schm": "AES", "key": sims.hexid(rng, 64), "data": sims.hexid(rng, 64)}
        if rng.random() < 0.7:
            res["decrypted_data"] = salt.apply({"connect_type": "wireless", "device_id": sims.hexid(rng), "connect_ssid": "eA==",
                                                "owner": sims.hexid(rng)}, c14.DECR)
            dec = True
    salt.apply(res, c14.DISC)
    return {"result": res, "error_code": 0}, dec


def secrets_of(case, infos, table, disc, ips):
    out: dict = dict(ips)
    for i in infos:
        c14.collect(i, table, out)
    if disc:
        c14.collect(disc, c14.DISC, out)
    for s, f in list(out.items()):
        if re.fullmatch(r"[0-9A-F]{32,}", s):
            out[s[9:]] = f + " (rest)"
    out = {s: f for s, f in out.items() if re.search(r"[1-9A-Za-z]", s)}
    case.count("private values", len(out))
    return out


def privacy(case, secrets, tag, text):
    rx = re.compile("|".join(re.escape(s) for s in sorted(secrets, key=len, reverse=True))) if secrets else re.compile("(?!)")
    for s in sorted(set(rx.findall(text)))[:3]:
        at = text.find(s)
        case.violate("private-value-in-fixture", f"{tag}: {secrets[s]} {s!r}: ...{text[max(0, at - 90):at + 50]}")
    case.count("texts")


async def save(case, rng, proto, disc, batch, secrets, tag, results):
    """Once more, into a folder."""
    base = tempfile.mkdtemp(prefix="c28-")
    try:
        git = rng.random() < 0.6
        if git:
            for f in (dd.SMART_FOLDER, dd.SMARTCAM_FOLDER, dd.SMART_CHILD_FOLDER, dd.SMARTCAM_CHILD_FOLDER, dd.IOT_FOLDER):
                os.makedirs(os.path.join(base, f), exist_ok=True)
        with Quiet():
            await dd.handle_device(base, True, proto, discovery_info=copy.deepcopy(disc), batch_size=batch)
        want = {}
        for r in results:
            n = os.path.join(r.folder, r.filename + ".json") if git else os.path.join(dd.NO_GIT_FIXTURE_FOLDER, f"{r.filename}-{r.protocol_suffix}.json")
            want[os.path.normpath(n)] = r.data
        have = {os.path.relpath(os.path.join(d, f), base): os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs}
        case.expect(set(have) == set(want), "wrong-files", f"{tag}: {sorted(have)}, expected {sorted(want)}")
        for n, p in have.items():
            with open(p) as fh:
                text = fh.read()
            privacy(case, secrets, f"{tag} file {n}", n + text)
            case.expect(json.loads(text) == json.loads(json.dumps(want.get(n))), "wrong-file-content", f"{tag} {n}")
    finally:
        shutil.rmtree(base)
    case.covered("saved")


def full(m, method, params):
    """What the device has to say about one query, all pages of it."""
    root = m.root()
    page, root.page = root.page, 10 ** 6
    try:
        p = {**params, "start_index": 0} if isinstance(params, dict) and "start_index" in params else params
        return m.request({"method": method, **({"params": p} if p is not None else {})}).get("result")
    finally:
        root.page = page


def answered(case, tag, model, did, n0):
    """{method: params of its last success} on one device, from the execution log."""
    out = {}
    for d, method, params, code in model.log[n0:]:
        if d == did and code == 0 and method not in ("control_child", "controlChild", "multipleRequest"):
            out[method] = params
    return out


def faithful(case, tag, m, model, data, table, n0, n1):
    did = m.device_id if m is not model else None
    asked = answered(case, tag, model, did, n0)
    mark = len(model.log)
    for method, got in data.items():
        if method in ("child_devices", "discovery_result", "child_info_from_parent"):
            continue
        if method not in asked:
            case.violate("answer-from-nowhere", f"{tag} {method}: {str(got)[:100]}")
            continue
        want = full(m, method, asked[method])
        if m is not model and isinstance(m, sims.CamModel) is False and method == "get_child_device_list":
            continue
        if r := alike(json.loads(json.dumps(got)), json.loads(json.dumps(want if want is not None else got if not got else None)), table, method):
            case.violate("answer-differs", f"{tag}: {r[:300]}")
        case.count("answers")
    del model.log[mark:]
    for method in asked:
        case.expect(method in data, "answer-lost", f"{tag} {method}")


def f_smart(case):
    rng = case.rng
    salt = c14.Salt(rng)
    if rng.random() < 0.08:
        orig = sims.load
        sims.load = lambda k, n: salt.apply(orig(k, n), c14.SMART)
        try:
            model = sims.smart_model(rng.choice([n for n in sims.names("smart") if n.startswith("RV")]), rng)
        finally:
            sims.load = orig
    else:
        model, _ = c14.private_model(rng, next(k for k in c14.KINDS if c14.KINDS[k][5] == "smart" and k not in ("klap2s", "token")), salt)
    run_case(case, model, salt, "smart")


def f_cam(case):
    rng = case.rng
    salt = c14.Salt(rng)
    model, _ = c14.private_model(rng, "camhub", salt)
    run_case(case, model, salt, "cam")


def run_case(case, model, salt, kind):
    rng = case.rng
    table = c14.SMART
    ips: dict = {}
    for i in c14.all_infos(model):
        unmask(i, rng, ips)
    models = [model, *model.children.values()]
    disc, dec = discovery(rng, model, salt) if rng.random() < 0.6 else (None, False)
    batch = rng.choice([1, 2, 5, 5, 20])
    main_name = model.info.get("get_device_info", {}).get("model") or model.info["getDeviceInfo"]["device_info"]["basic_info"]["device_model"]
    refused: set = set()
    fate = rng.random()
    mute = None
    if fate < 0.35:
        every = [k for m in models for k in m.info if k.startswith("get") and k not in ("get_device_info", "getDeviceInfo",
                 "get_child_device_component_list")] + ["get_child_device_list", "getChildDeviceList"] * (20 if rng.random() < 0.2 else 0)
        refused = set(rng.sample(every, min(len(every), rng.choice([1, 2, 5]))))
    elif fate < 0.5 and model.children:
        mute = rng.choice(list(model.children))

    def fault(m, method, params):
        if m.device_id is not None and m.device_id == mute:
            return -1001 if kind == "smart" else -40209
        if method in refused:
            return -1008 if kind == "smart" else -40209
        return None

    model.fault = fault

    async def main(loop):
        dev, tr = (sims.smart_device if kind == "smart" else sims.cam_device)(model)
        model.fault = None
        await dev.update()
        model.fault = fault
        n0 = len(model.log)
        tag = f"{main_name}+{len(model.children)}" + (f" without {sorted(refused)}" if refused else "") + (" with a mute child" if mute else "")
        final_fails = not refused and not mute and rng.random() < 0.1
        if final_fails:
            state = {"n": 0}

            def fail(n, request):
                r = json.loads(request)
                if r.get("method") == "multipleRequest" and len(r["params"]["requests"]) > 1:
                    return {"error_code": -1001 if kind == "smart" else -40209}
                return None
            tr.fail = fail
        given = copy.deepcopy(disc)
        try:
            with Quiet():
                results = await dd.get_smart_fixtures(dev.protocol, discovery_info=given, batch_size=batch)
        except SystemExit as ex:
            case.expect(final_fails and ex.code == 1, "gave-up", f"{tag}: {ex!r}")
            case.covered("final-fails")
            return
        except Exception as ex:  # noqa: BLE001
            case.violate("no-fixture", f"{tag}: {ex!r}")
            return
        n1 = len(model.log)
        case.expect(given == disc, "discovery-changed", tag)
        secrets = secrets_of(case, c14.all_infos(model), table, disc, ips)
        for r in results:
            privacy(case, secrets, f"{tag} {r.filename}", r.filename + r.folder + json.dumps(r.data))
        head, rest = results[0], results[1:]
        di = dev.device_info if not disc else None
        suffix = ("SMART", "tests/fixtures/smart/") if kind == "smart" else ("SMARTCAM", "tests/fixtures/smartcam/")
        case.expect((head.protocol_suffix, head.folder) == suffix, "wrong-folder", f"{tag}: {head.protocol_suffix} {head.folder}")
        if di is not None and di.region != "":
            case.expect(head.filename == f"{di.long_name}{f'({di.region})' if di.region else ''}_{di.hardware_version}_{di.firmware_version}",
                        "wrong-name", f"{tag}: {head.filename}")
        faithful(case, tag, model, model, head.data, table, n0, n1)
        if disc:
            if r := alike(json.loads(json.dumps(head.data.get("discovery_result"))), disc, c14.DISC):
                case.violate("answer-differs", f"{tag}: discovery {r}")
            case.covered("discovery")
            if dec:
                case.covered("decrypted")
        else:
            case.expect("discovery_result" not in head.data, "answer-from-nowhere", tag)
        # the children: one number each, the same wherever they appear
        ids: dict = {}
        for lst, sub in (("get_child_device_component_list", "child_component_list"), ("get_child_device_list", "child_device_list"),
                         ("getChildDeviceComponentList", "child_component_list"), ("getChildDeviceList", "child_device_list")):
            if lst in head.data:
                orig = full(model, lst, {"start_index": 0} if kind == "smart" else {"childControl": {"start_index": 0}})
                for a, b in zip(head.data[lst][sub], orig[sub], strict=False):
                    ids.setdefault(b.get("device_id") or b.get("dev_id"), set()).add(a.get("device_id") or a.get("dev_id"))
        same = head.data.get("child_devices") or {}
        files = {}
        for r in rest:
            d = r.data
            files[(d.get("get_device_info") or {}).get("device_id") or d["getDeviceInfo"]["device_info"]["basic_info"].get("dev_id")] = r
        for cid, seen in ids.items():
            case.expect(len(seen) == 1 and all(re.fullmatch(r"SCRUBBED_CHILD_DEVICE_ID_\d+", str(s)) for s in seen), "child-id-differs",
                        f"{tag}: {cid} as {seen}")
        named = [s for seen in ids.values() for s in seen]
        case.expect(len(set(named)) == len(ids), "child-ids-mixed", f"{tag}: {ids}")
        for cid, m in model.children.items():
            if cid not in ids or cid == mute:
                continue
            name = next(iter(ids[cid]))
            model_name = (m.info.get("get_device_info") or {}).get("model") or \
                ((m.info.get("getDeviceInfo") or {}).get("device_info") or {}).get("basic_info", {}).get("device_model")
            has = bool(answered(case, tag, model, cid, n0))
            if name in same:
                data = same[name]
                case.covered("same-model")
                case.expect(model_name == main_name or model_name is None, "wrong-place", f"{tag}: {model_name} inside {main_name}")
            elif name in files:
                r = files[name]
                data = r.data
                case.covered("child-file")
                cam = isinstance(m, sims.CamModel)
                if cam:
                    case.covered("cam-child")
                case.expect(model_name != main_name, "wrong-place", f"{tag}: {model_name} beside {main_name}")
                case.expect((r.protocol_suffix, r.folder) == (("SMARTCAM.CHILD", "tests/fixtures/smartcam/child/") if cam else
                                                              ("SMART.CHILD", "tests/fixtures/smart/child/")), "wrong-folder", f"{tag}: {r.folder}")
                if cam:
                    entry = next(e for e in model.info["getChildDeviceList"]["child_device_list"] if e["device_id"] == cid)
                    if x := alike(json.loads(json.dumps(data.get("child_info_from_parent"))), entry, {**table, "device_id": "id"}):
                        case.violate("answer-differs", f"{tag}: child_info_from_parent {x}")
            else:
                case.expect(not has or kind == "smart" and "control_child" not in model.components, "child-lost", f"{tag}: {cid} {model_name}")
                continue
            faithful(case, f"{tag} child {model_name}", m, model, data, table, n0, n1)
        case.covered("hub" if main_name.startswith(("H100", "KH100", "H200")) and model.children else "strip" if model.children else "plain")
        if main_name.startswith("RV"):
            case.covered("vacuum")
        if refused:
            case.covered("refused")
        if mute:
            case.covered("mute-child")
        if batch != 5:
            case.covered("batch")
        case.event("made", [r.filename for r in results])
        if rng.random() < 0.4:
            try:
                await save(case, rng, dev.protocol, disc, batch, secrets, tag, results)
            except SystemExit as ex:
                case.violate("gave-up", f"{tag}: {ex!r}")
        case.sample = (tag, len(secrets), len(results), batch)
        if secrets:
            case.nontrivial((main_name, case.index))

    finish(case, vrun(main, max_steps=8_000_000))


def f_iot(case):
    rng = case.rng
    salt = c14.Salt(rng)
    orig = sims.load
    try:
        sims.load = lambda k, n: salt.apply(orig(k, n), c14.IOT)
        name = rng.choice(sims.names("iot"))
        model = sims.iot_model(name)
    finally:
        sims.load = orig
    disc, dec = discovery(rng, model, salt) if rng.random() < 0.5 else (None, False)
    if rng.random() < 0.2:
        disc = {"system": {"get_sysinfo": copy.deepcopy(model.sysinfo)}}
    refused = set()
    if rng.random() < 0.4:
        refused = set(rng.sample([k for k in model.info if k != "system"] or ["time"], 1))
        model.modfault = lambda m: m in refused
    final_fails = rng.random() < 0.15

    async def main(loop):
        dev, tr = sims.iot_device(model)
        tag = f"{name}" + (f" without {sorted(refused)}" if refused else "")
        if final_fails:
            tr.fail = lambda n, request: dd.KasaException("too much") if len(json.loads(request)) > 1 else None
            tag += " one module at a time"
        given = copy.deepcopy(disc)
        try:
            with Quiet():
                r = await dd.get_legacy_fixture(dev.protocol, discovery_info=given)
        except Exception as ex:  # noqa: BLE001
            case.violate("no-fixture", f"{tag}: {ex!r}")
            return
        secrets = secrets_of(case, [model.info], c14.IOT, disc if disc and "result" in disc else None, {})
        privacy(case, secrets, f"{tag} {r.filename}", r.filename + json.dumps(r.data))
        si = model.sysinfo
        case.expect((r.folder, r.protocol_suffix) == ("tests/fixtures/iot/", "IOT"), "wrong-folder", r.folder)
        case.expect(r.filename == f"{si['model']}_{si['hw_ver']}_{si['sw_ver'].split(' ')[0]}", "wrong-name", r.filename)
        asked = {}
        for q in tr.requests:
            for mod, methods in json.loads(q).items():
                for meth in methods:
                    asked[mod, meth] = True
        want: dict = {}
        for mod, meth in asked:
            a = model.request({mod: {meth: {}}})[mod]
            if "err_msg" not in a:
                want.setdefault(mod, {})[meth] = a[meth]
        data = {k: v for k, v in r.data.items() if k != "discovery_result"}
        for i, c in enumerate(data.get("system", {}).get("get_sysinfo", {}).get("children", [])):
            case.expect(c.get("id") == f"SCRUBBED_CHILD_DEVICE_ID_{i + 1}", "child-id-differs", f"{tag}: {c.get('id')}")
            case.covered("strip")
        if x := alike(json.loads(json.dumps(data)), want, c14.IOT):
            case.violate("answer-differs", f"{tag}: {x}")
        if disc and "result" in disc:
            if x := alike(json.loads(json.dumps(r.data.get("discovery_result"))), disc, c14.DISC):
                case.violate("answer-differs", f"{tag}: discovery {x}")
            case.covered("discovery")
        else:
            case.expect("discovery_result" not in r.data, "answer-from-nowhere", tag)
        case.covered("plain", *(["refused"] if refused else []), *(["final-fails"] if final_fails else []))
        if rng.random() < 0.3:
            await save(case, rng, dev.protocol, disc, 5, secrets, tag, [r])
        case.event("made", r.filename, len(want))
        case.sample = (tag, len(secrets))
        if secrets:
            case.nontrivial((name, case.index))

    finish(case, vrun(main, max_steps=8_000_000))


FAMILIES = [Family("smart", f_smart, 400, 4000), Family("cam", f_cam, 160, 2000), Family("iot", f_iot, 300, 3000)]
