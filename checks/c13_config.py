"""C13: saved connection configs restore losslessly and keep secrets out when asked."""
from __future__ import annotations

import base64
import copy
import json

from kasa import AuthenticationError, Credentials, Device, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily, KasaException

from checks.c11_connect import pick
from kmon import expect, gen, refs
from kmon.core import Family
from kmon.history import finish
from kmon.net import Net
from kmon.rig import KINDS, Rig, cred_hash
from kmon.vloop import vrun

TECHNIQUE = ("runtime monitoring: generated configs through the real serialisation with an independent document model as oracle; "
             "credential hashes used for real logins at protocol servers that check the proofs themselves")
NOTE = ("all fields generated, absent and at defaults; documents broken in every field; saved hashes against plain credentials on every "
        "authenticating transport")
RULE = "a case = one config, one broken document, or one login history; non-trivial = it was serialised or a login was attempted"
ASSUMPTIONS = ("An unset (None) timeout means the default timeout and may be restored as such.",
               "Unknown extra keys are ignored (forward compatibility).")
AUTH = [k for k in KINDS if k not in ("xor", "linkie")]
REQUIRED_COVER = ["roundtrip:full", "roundtrip:minimal", "control:hash", "control:blank", "control:excluded", "control:default",
                  "reject:missing", "reject:ill-typed", *(f"login:accepted-{k}" for k in AUTH), *(f"login:refused-{k}" for k in AUTH),
                  "login:precedence"]
TEXTS = ["", "a", "user@example.com", "pä$$ wörd", "日本語", "x" * 300, '"\\\n\t', "a:b", "=?&%", " lead", "\u0000z", "😀", "None", "null", "0"]


def text(rng):
    return rng.choice(TEXTS) if rng.random() < 0.7 else gen.rtext(rng).encode("utf-8", "ignore").decode()


INTS = [0, 1, 5, 10, 80, 443, 4433, 9999, 65535, 3600, -1, 2 ** 40]


def rconfig(rng):
    """(config, document model) - every field set, unset or at its default."""
    fam, enc = rng.choice(expect.FAMILIES), rng.choice(expect.ENCRYPTIONS)
    p = {"device_family": fam, "encryption_type": enc, "https": False}
    kw = {}
    if rng.random() < 0.6:
        kw["login_version"] = rng.choice([None, 1, 2, 3, 0])
    if rng.random() < 0.6:
        kw["https"] = rng.random() < 0.5
    if rng.random() < 0.5:
        kw["http_port"] = rng.choice([None, *INTS])
    p.update({k: v for k, v in kw.items() if v is not None})
    ct = DeviceConnectionParameters(DeviceFamily(fam), DeviceEncryptionType(enc), **kw)
    host = text(rng)
    doc = {"host": host, "timeout": 5, "connection_type": {"device_family": "IOT.SMARTPLUGSWITCH", "encryption_type": "XOR", "https": False}}
    c = {}
    if rng.random() < 0.8:
        c["connection_type"] = ct
        doc["connection_type"] = p
    if rng.random() < 0.5:
        c["timeout"] = rng.choice([5, *INTS])
    if rng.random() < 0.5:
        c["port_override"] = rng.choice([None, *INTS])
    if rng.random() < 0.5:
        c["credentials_hash"] = rng.choice([None, text(rng), cred_hash("klap2", "u", "p")])
    if rng.random() < 0.5:
        c["batch_size"] = rng.choice([None, *INTS])
    if rng.random() < 0.3:
        c["aes_keys"] = {"private": text(rng), "public": text(rng)}
    doc.update({k: copy.deepcopy(v) for k, v in c.items() if v is not None and k != "connection_type"})
    if rng.random() < 0.6:
        u, w = text(rng), text(rng)
        c["credentials"] = Credentials(u, w)
        doc["credentials"] = {"username": u, "password": w}
    if rng.random() < 0.2:
        c["http_client"] = object()
    return DeviceConfig(host, **c), doc


def same(a, b):
    return refs.canon(a) == refs.canon(b)


def f_roundtrip(case):
    """dict, JSON and JSON-of-dict: the document holds exactly the values; restoring gives an equal config, twice over."""
    rng = case.rng
    cfg, doc = rconfig(rng)
    before = copy.copy(cfg)
    d = cfg.to_dict()
    case.expect(same(d, doc), "document-differs", f"{d} != {doc}")
    j = cfg.to_json()
    case.expect(same(json.loads(j), doc), "document-differs", f"json {j} != {doc}")
    case.expect("http_client" not in j, "session-serialised", str(j)[:200])
    for how, back in (("dict", lambda: DeviceConfig.from_dict(copy.deepcopy(d))), ("json", lambda: DeviceConfig.from_json(j)),
                      ("stored", lambda: DeviceConfig.from_dict(json.loads(json.dumps(d))))):
        got = back()
        case.expect(got == cfg, "restored-differs", f"{how}: {got!r} != {cfg!r}")
        case.expect(got.credentials == cfg.credentials and same(got.to_dict(), doc), "restored-differs", how)
        case.expect(got.http_client is None, "restored-differs", "http_client")
    case.expect(cfg == before and cfg.http_client is before.http_client, "config-changed-by-saving", repr(cfg))
    # older documents: entries at their defaults may be missing
    thin = json.loads(json.dumps(d))
    for k, v in (("timeout", 5),):
        if thin.get(k) == v and rng.random() < 0.8:
            del thin[k]
    ct = thin["connection_type"]
    if ct == {"device_family": "IOT.SMARTPLUGSWITCH", "encryption_type": "XOR", "https": False} and rng.random() < 0.5:
        del thin["connection_type"]
    elif ct.get("https") is False:
        del ct["https"]
    got = DeviceConfig.from_dict(thin)
    case.expect(got == cfg, "default-not-restored", f"{thin} -> {got!r}, expected {cfg!r}")
    # entries present but null are as good as absent
    wide = json.loads(json.dumps(d))
    for k in ("port_override", "credentials", "credentials_hash", "batch_size", "aes_keys"):
        wide.setdefault(k, None)
    for k in ("login_version", "http_port"):
        wide["connection_type"].setdefault(k, None)
    got = DeviceConfig.from_dict(wide)
    case.expect(got == cfg, "default-not-restored", f"{wide} -> {got!r}, expected {cfg!r}")
    if cfg.timeout != 5:
        none = DeviceConfig.from_dict({**json.loads(json.dumps(d)), "timeout": cfg.timeout})
        case.expect(none == cfg, "restored-differs", "timeout")
    case.covered("minimal" if len(doc) <= 3 else "full" if len(doc) > 6 else "some")
    case.sample = doc
    case.nontrivial(refs.canon(doc))


def f_control(case):
    """Controlled credentials: the plain ones are never in the output."""
    rng = case.rng
    cfg, doc = rconfig(rng)
    secret = Credentials("user-" + "%016x" % rng.getrandbits(64), "pass-" + "%016x" % rng.getrandbits(64))
    if rng.random() < 0.8:
        cfg.credentials = secret
        doc["credentials"] = {"username": secret.username, "password": secret.password}
    before = copy.copy(cfg)
    h = rng.choice([None, "", text(rng), "aGFzaA=="])
    ex = rng.random() < 0.5
    kw = {}
    if h is not None:
        kw["credentials_hash"] = h
    if ex:
        kw["exclude_credentials"] = True
    out = cfg.to_dict_control_credentials(**kw)
    want = dict(doc)
    if h is None and not ex:
        case.covered("default")
    else:
        want.pop("credentials", None)
        if h:
            want["credentials_hash"] = h
            case.covered("hash")
        elif h == "":
            want.pop("credentials_hash", None)
            case.covered("blank")
        else:
            case.covered("excluded")
        flat = json.dumps(out)
        case.expect(secret.username not in flat and secret.password not in flat, "credentials-in-output", f"{kw}: {flat}")
    case.expect(same(out, want), "document-differs", f"{kw}: {out} != {want}")
    case.expect(cfg == before and cfg.credentials == before.credentials, "config-changed-by-saving", repr(cfg))
    back = DeviceConfig.from_dict(json.loads(json.dumps(out)))
    case.expect(same(back.to_dict(), want), "restored-differs", f"{back!r}")
    case.sample = (kw, want)
    case.nontrivial((refs.canon(want), repr(kw)))


BAD = {"int": ["x", "", {}, [], "1.5", [1]], "opt": ["x", {}, []], "enum": ["X", "", 5, None, [], {}, "smart.tapoplug"]}


def f_reject(case):
    """Documents without a required entry or with content that cannot be the field's are refused."""
    rng = case.rng
    cfg, doc = rconfig(rng)
    d = json.loads(json.dumps(doc))
    kind = rng.choice(["missing", "ill-typed"])
    if kind == "missing":
        where = rng.choice(["host", "connection_type.device_family", "connection_type.encryption_type", "keys", "empty"])
        if where == "host":
            del d["host"]
        elif where == "keys":
            d["aes_keys"] = rng.choice([{"private": "a"}, {"public": "b"}, {}])
        elif where == "empty":
            d = rng.choice([{}, {"foo": "bar"}])
        else:
            del d["connection_type"][where.split(".")[1]]
    else:
        where = rng.choice(["timeout", "port_override", "batch_size", "credentials", "connection_type", "device_family", "encryption_type",
                            "login_version", "http_port", "aes_keys", "document"])
        if where in ("timeout", "port_override", "batch_size"):
            d[where] = rng.choice(BAD["opt"])
        elif where in ("credentials", "connection_type", "aes_keys"):
            d[where] = rng.choice(["x", 5, [], ["a"]])
        elif where in ("device_family", "encryption_type"):
            d["connection_type"][where] = rng.choice(BAD["enum"])
        elif where in ("login_version", "http_port"):
            d["connection_type"][where] = rng.choice(BAD["opt"])
        else:
            d = rng.choice(["x", [], None, 5])
    try:
        got = DeviceConfig.from_dict(d)
    except (ValueError, LookupError, TypeError, KasaException):
        case.covered(kind)
    else:
        case.violate("accepted-broken", f"{where}: {d} gave {got!r}")
    if rng.random() < 0.3:
        try:
            got = DeviceConfig.from_json(rng.choice(["", "{", "[]", "null", '"x"', '{"host": 1', "{}"]))
            case.violate("accepted-broken", f"json gave {got!r}")
        except (ValueError, LookupError, TypeError, KasaException):
            pass
    if isinstance(d, dict):
        ct = d.get("connection_type")
        fam, enc = (ct.get("device_family"), ct.get("encryption_type")) if isinstance(ct, dict) else (None, None)
        ok = fam in expect.FAMILIES and enc in expect.ENCRYPTIONS
        try:
            DeviceConnectionParameters.from_values(fam, enc)
            case.expect(ok, "accepted-broken", f"from_values({fam!r}, {enc!r})")
        except KasaException:
            case.expect(not ok, "refused-valid", f"from_values({fam!r}, {enc!r})")
    case.sample = (kind, where)
    case.nontrivial((kind, where, case.index))


def f_login(case):
    """A saved hash logs in exactly where the credentials do; given credentials go before a hash."""
    rng = case.rng
    kind = AUTH[case.index % len(AUTH)]
    net = Net(case)
    model, fam, cname = pick(rng, kind)
    user, pw = rng.choice([("user@x.org", "Passw0rd"), ("Üser@x.org", "pä$$"), ("a", "b"), ("user@x.org", "x" * 100), ("日本", "\"q\\")])
    mode = rng.choice(["right", "right", "wrong", "hash-first", "creds-first"])
    rig = Rig(kind, net, rng, lambda t: model.request(json.loads(t)), family=fam, user=user, pw=pw, auth="none", keys=rng.random() < 0.5)
    base = rig.config

    async def login(**kw):
        cfg = DeviceConfig.from_dict(base.to_dict())
        for k, v in kw.items():
            setattr(cfg, k, v)
        try:
            dev = await Device.connect(config=cfg)
        except AuthenticationError as ex:
            return None, ex
        return dev, None

    async def main(loop):
        rig.loop = loop
        good = Credentials(user, pw)
        wrong = Credentials(user, pw + "x") if rng.random() < 0.7 else Credentials("other@x.org", pw)
        given = wrong if mode == "wrong" else good
        if mode in ("right", "wrong"):
            if rng.random() < 0.4:
                dev, ex = await login(credentials_hash=cred_hash(kind, given.username, given.password))
            else:
                dev, ex = await login(credentials=given)
            want = mode == "right"
            if not case.expect((dev is not None) is want, "login-differs", f"{kind} {mode} credentials: {dev} {ex!r}"):
                return
            if dev is None:
                case.covered(f"refused-{kind}")
                if kind.startswith("cam"):
                    return       # cameras remember a refused login
                h = cred_hash(kind, given.username, given.password)
            else:
                h = dev.credentials_hash
                case.expect(same_hash(h, cred_hash(kind, user, pw)), "hash-differs", f"{kind}: {h}")
                case.expect(pw not in h or len(pw) < 3, "plain-password-in-hash", f"{kind}: {h}")
                saved = json.loads(json.dumps(dev.config.to_dict_control_credentials(credentials_hash=h)))
                flat = json.dumps(saved)
                case.expect(len(pw) < 3 or pw not in flat and json.dumps(pw)[1:-1] not in flat, "credentials-in-output", flat)
                await dev.disconnect()
            dev2, ex2 = await login(credentials_hash=h)
            case.expect((dev2 is not None) is want, "hash-login-differs", f"{kind} {mode} hash: {dev2} {ex2!r}")
            if dev2 is not None:
                case.covered(f"accepted-{kind}")
                case.expect(dev2.credentials_hash == h, "hash-differs", f"{kind}: after connecting with it {dev2.credentials_hash} != {h}")
                cfg3 = DeviceConfig.from_dict(saved)
                dev3 = await Device.connect(config=cfg3)
                await dev2.disconnect()
                # the next save is the same
                again = dev3.config.to_dict_control_credentials(credentials_hash=dev3.credentials_hash)
                case.expect(same(again, saved), "restored-differs", f"{again} != {saved}")
                await dev3.disconnect()
        else:
            case.covered("precedence")
            gh, wh = (cred_hash(kind, c.username, c.password) for c in (good, wrong))
            if mode == "creds-first":
                dev, ex = await login(credentials=good, credentials_hash=wh)
                if case.expect(dev is not None, "hash-took-precedence", f"{kind}: {ex!r}"):
                    case.expect(same_hash(dev.credentials_hash, gh), "hash-differs", f"{kind}: {dev.credentials_hash}")
                    await dev.disconnect()
            else:
                dev, ex = await login(credentials=wrong, credentials_hash=gh)
                case.expect(dev is None, "hash-took-precedence", f"{kind}")
                if dev:
                    await dev.disconnect()

    run = vrun(main, net=net)
    case.sample = (kind, mode, user)
    case.nontrivial((kind, mode, user, case.index))
    finish(case, run)


def same_hash(a, b):
    """Equal, or equal documents where the hash is an encoded document."""
    if a == b:
        return True
    try:
        return json.loads(base64.b64decode(a)) == json.loads(base64.b64decode(b))
    except (ValueError, TypeError):
        return False


FAMILIES = [Family("roundtrip", f_roundtrip, 4000, 100000), Family("control", f_control, 2000, 50000), Family("reject", f_reject, 2000, 40000),
            Family("login", f_login, 400, 10000)]
