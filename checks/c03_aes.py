"""C03: RSA/AES passthrough sessions against an independent device model."""
from __future__ import annotations

import asyncio
import base64
import json

import kasa
from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.device_factory import get_protocol
from kmon import gen, refs
from kmon.core import Family
from kmon.history import History, finish
from kmon.net import Net
from kmon.servers import AesServer
from kmon.vloop import vrun

RULE = ("random histories (queries, concurrency, cancellation, expiry, reboots, device error codes at every stage, HTTP "
        "faults) of one protocol object against an independent RSA/AES device with login; non-trivial = the handshake "
        "was reached and at least two queries ran, identified by the sequence of attempt outcomes")
REQUIRED_COVER = ["outcome:ok", "outcome:conn", "outcome:timeout", "outcome:fatal", "outcome:auth", "outcome:retry",
                  "login1", "login2", "cred:own", "cred:default", "cred:foreign", "cred:hash", "rehandshake:expiry",
                  "session-reused", "cancelled-in-flight", "concurrent", "lost-session", "generated-key", "code:unknown",
                  "cookie:SESSIONID", "transport:auth", "transport:code", "transport:status", "transport:dropped", "transport:login-failed",
                  "transport:reset", "transport:expired", "transport:reused", "transport:timeout"]
ASSUMPTIONS = ["the device model implements the passthrough protocol independently; RSA padding by the cryptography package",
               "most cases reuse RSA key pairs given through the connection config (key generation is slow)"]
MARGIN = 1200
CODES = [*refs.RETRY_CODES, *refs.AUTH_CODES, -1003, -1008, -1010, -2, 1200, -20002, -100001, 424242, -7777]


def _make_keys():
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import rsa
    k = rsa.generate_private_key(public_exponent=65537, key_size=1024)
    priv = k.private_bytes(ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption())
    pub = k.public_key().public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo)
    return {"private": base64.b64encode(priv).decode(), "public": base64.b64encode(pub).decode()}


KEYS = [_make_keys() for _ in range(3)]


def f_history(case):
    rng = case.rng
    net = Net(case)
    lv = rng.choice([None, 1, 2, 2])
    login_version = 2 if lv == 2 else 1
    case.covered("login%d" % login_version)
    timeout = rng.choice([3, 5, 5, 10])
    host = "10.1.2.3"
    own = Credentials(rng.choice(["user@x.org", gen.rtext(rng, 9) or "u", "Ünï@c.de"]),
                      rng.choice(["Passw0rd", gen.rtext(rng, 12) or "p", "päss🙂"]))
    creds_kind = rng.choice(["plain", "plain", "plain", "hash", "none", "blank"])
    devkind = rng.choice(["own"] * 6 + ["default", "default", "foreign"])
    p_own = refs.aes_login_params(login_version, own.username, own.password)
    p_blank = refs.aes_login_params(login_version, "", "")
    p_default = refs.aes_login_params(login_version, *refs.DEFAULTS["TAPO"])
    first = p_blank if creds_kind in ("none", "blank") else p_own
    accept = {"own": [first], "default": [p_default], "foreign": []}[devkind]
    case.covered("cred:" + devkind)
    kw = {}
    if creds_kind == "plain":
        kw["credentials"] = own
        if rng.random() < 0.2:
            kw["credentials_hash"] = base64.b64encode(b'{"username":"x","password":"y"}').decode()
    elif creds_kind == "hash":
        kw["credentials_hash"] = base64.b64encode(json.dumps(p_own).encode()).decode()
        case.covered("cred:hash")
    elif creds_kind == "blank":
        kw["credentials"] = Credentials()
    http_port = rng.choice([None, None, 8099])
    over = rng.choice([None, None, None, 1234])
    port = over or http_port or 80
    if rng.random() < 0.93:
        keys = rng.choice(KEYS)
        kw["aes_keys"] = dict(keys)
    else:
        case.covered("generated-key")
    ct = DeviceConnectionParameters(rng.choice([DeviceFamily.SmartTapoPlug, DeviceFamily.SmartKasaSwitch]),
                                    DeviceEncryptionType.Aes, lv, False, http_port)
    cfg = DeviceConfig(host, timeout=timeout, port_override=over, connection_type=ct, **kw)
    cookie_name = rng.choice(["TP_SESSIONID", "TP_SESSIONID", "SESSIONID"])
    case.covered("cookie:" + cookie_name)
    ctimeout = rng.choice([86400, 86400, 1440, 3600, None, 1200, 600, 86401, 259200])
    eff = (86400 if ctimeout is None else ctimeout) - MARGIN
    p_fault = rng.choice([0.0, 0.1, 0.3, 0.5])
    st = {"excused": True, "hs_at": None, "last": None, "lenient": False, "fallback": False, "logged_in": False}
    loop_ref = [None]

    def now():
        return loop_ref[0].time()

    def harmless():
        k = rng.randrange(7)
        return [None, None, ("slow", timeout * 0.2), ("cut", gen.rcuts(rng, 200), 0.001), ("chunked",),
                ("close-after",), ("silent-close",)][k]

    def plan(stage, n):
        if stage == "lost":
            case.covered("lost-session")
            outcome("lost", "retry", 9999)
            return None
        out, f, code = "ok", harmless(), None
        if rng.random() < p_fault:
            opts = [(("disconnect",), "conn"), (("reset",), "conn"), (("stall",), "timeout"),
                    (("stall-mid",), "timeout"), (("disconnect", timeout * 0.5), "conn"),
                    (("status", rng.choice([400, 401, 403, 404, 429, 500, 503]), rng.choice([b"", b"oops", b'{"error_code": 9999}'])), "fatal"),
                    (("body", rng.choice([b"", b"nope", b"\xff\xfe", b"{"])), "fatal")]
            if not st["fallback"]:
                code = rng.choice([c for c in CODES if not (stage == "login" and c == -1501)])
                cls = refs.code_class(code)
                opts += [(("code", code), cls)] * 3
                if stage != "handshake":
                    opts += [(("inner", code), cls)] * 3
            if stage == "request":
                opts += [(("executed-then-drop",), "conn"), (("plain",), "ok"),
                         (("mangle", rng.choice(["", "%%%", "AAAA", "{"])), "fatal"), (("otherkey",), "fatal")]
            f, out = rng.choice(opts)
            if f[0] in ("code", "inner"):
                if refs_unknown(code):
                    case.covered("code:unknown")
            else:
                code = None
        else:
            code = None
        monitor(stage)
        outcome(stage, out, code)
        return f

    def refs_unknown(code):
        from kasa.exceptions import SmartErrorCode
        return code not in [e.value for e in SmartErrorCode]

    def on_rejected():
        if st["fallback"]:
            hist.obs[-1] = ("login", "auth", -1501)
            outcome_state("auth")
        else:
            hist.obs[-1] = ("login", "rejected")
            st["fallback"], st["excused"], st["logged_in"] = True, True, False
            srv.must_handshake = not st["lenient"]

    def outcome(stage, out, code=None):
        hist.obs.append((stage, out) if code is None else (stage, out, code))
        if stage in ("handshake", "login") and out != "ok":
            st["logged_in"] = False
        if stage == "login" and out == "ok":
            st["logged_in"], st["fallback"] = True, st["fallback"]
        outcome_state(out)
        st["last"] = stage

    def outcome_state(out):
        if out != "ok":
            st["excused"], st["fallback"] = True, False
            if out in ("fatal", "timeout", "retry", "auth") and not st["lenient"]:
                srv.must_handshake = True

    def monitor(stage):
        t = now()
        if stage == "handshake":
            if not st["excused"] and not st["lenient"]:
                if t - st["hs_at"] < eff - 0.01:
                    case.violate("needless-handshake", f"new handshake {t - st['hs_at']:.3f}s into a session valid for {eff}s")
                else:
                    case.covered("rehandshake:expiry")
            st["hs_at"], st["excused"] = t, True
        elif stage == "login":
            if st["logged_in"] and st["last"] not in ("handshake",) and not st["lenient"]:
                case.violate("needless-login", "login repeated in an established session")
        elif stage == "request":
            if st["last"] == "request":
                case.covered("session-reused")
                if t >= st["hs_at"] + timeout + eff + 0.3:
                    case.violate("expired-session-used", f"request {t - st['hs_at']:.3f}s after the handshake; expires after {eff}s")
            st["excused"], st["fallback"] = False, False

    def split(obs):
        att, cur = [], []
        for o in obs:
            cur.append(o)
            if o[1] == "rejected":
                continue
            if o[1] != "ok" or o[0] == "request":
                att.append(o[1])
                cur = []
        if cur:
            att.append("incomplete:" + cur[-1][0])
        return att

    hist = History(case, net, "smart", split)
    srv = AesServer(net, host, port, hist.handler, accept=accept, login_version=login_version, timeout=ctimeout,
                    cookie_name=cookie_name, life=rng.choice([None, None, 5000]), bad=case.violate, plan=plan,
                    clock=now, rng=rng)
    srv.on_rejected = on_rejected

    def on_dead():
        st["excused"], st["fallback"] = True, False

    hist.on_dead = on_dead

    async def main(loop):
        loop_ref[0] = loop
        proto = get_protocol(config=cfg)
        for _ in range(rng.randrange(2, 8)):
            k = rng.choice(["q"] * 7 + ["time", "time", "reboot", "cancel", "conc", "close"])
            if k == "q":
                st["fallback"] = False
                await hist.sequential(proto, rng.choice([0, 1, 2, 3]))
            elif k == "time":
                if st["hs_at"] is not None and rng.random() < 0.8:
                    target = st["hs_at"] + eff + rng.choice([-50, -5, 0, 1, timeout + 1, 30, 1000])
                    if target > now():
                        await asyncio.sleep(target - now())
                else:
                    await asyncio.sleep(rng.choice([0.3, 16, 60, 5000, 90000]))
            elif k == "reboot":
                srv.sess = None
            elif k in ("cancel", "conc"):
                st["lenient"], srv.must_handshake = True, False
                if k == "cancel":
                    await hist.cancelled(loop, proto, rng.choice([None, None, 0.001, timeout * 0.3]))
                else:
                    await hist.concurrent(loop, proto, rng.randrange(2, 4), rng.choice([None, None, 0.0, 0.001, timeout * 0.1]))
                st["excused"], st["lenient"], st["fallback"], st["logged_in"] = True, False, False, False
            else:
                await proto.close()
                st["excused"] = True
                srv.must_handshake = True
        if devkind == "foreign":
            case.expect(srv.count("request") == 0, "request-without-login", "request sent although no login succeeded")
        if srv.pubkeys:
            if "aes_keys" in kw:
                case.expect(set(srv.pubkeys) == {keys["public"]}, "other-key-pair", "the handshake does not use the configured key pair")
            case.expect((cfg.aes_keys or {}).get("public") == srv.pubkeys[-1] and len(set(srv.pubkeys)) == 1, "key-pair-not-kept",
                        "the configuration does not hold the key pair of the handshakes")
        logins = srv.logins
        case.expect(all(p in (first, p_default) for p in logins), "foreign-login",
                    "login with something else than the configured or default credentials", logins=logins)
        if devkind == "own":
            case.expect(p_default == first or p_default not in logins, "default-login-unasked",
                        "default credentials sent although the configured ones work")
        await proto.close()
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        case.expect(not net.open_conns(), "close-leaks", "connection open after close()")

    finish(case, vrun(main, net=net))
    if srv.count("handshake") and len(hist.outcomes) >= 2:
        case.nontrivial((login_version, creds_kind, devkind, hist.outcomes))
    for s in ("handshake", "login", "request"):
        case.count(s + "s", srv.count(s))
    case.sample = {"login": lv, "creds": creds_kind, "device": devkind, "outcomes": hist.outcomes[:8]}


def f_transport(case):
    """The transport alone, without a protocol that resets it: what itself makes a new handshake and login, and what must not."""
    rng = case.rng
    net = Net(case)
    lv = rng.choice([None, 1, 2])
    own = Credentials("user@x.org", rng.choice(["Passw0rd", gen.rtext(rng, 12) or "p"]))
    params = refs.aes_login_params(2 if lv == 2 else 1, own.username, own.password)
    ctimeout = rng.choice([86400, None, 3600, 1500, 200000])
    eff = (86400 if ctimeout is None else ctimeout) - MARGIN
    loop_ref, planned = [None], {}
    hist = History(case, net, "iot", lambda o: [])
    srv = AesServer(net, "10.0.0.7", 80, hist.handler, accept=[params], login_version=2 if lv == 2 else 1, timeout=ctimeout,
                    cookie_name=rng.choice(["TP_SESSIONID", "SESSIONID"]), bad=case.violate, plan=lambda stage, n: planned.pop(stage, None),
                    clock=lambda: loop_ref[0].time(), rng=rng)
    outs = []
    answers = {"auth": (kasa.AuthenticationError,), "retry": (kasa.exceptions._RetryableError,), "fatal": (kasa.DeviceError,)}

    async def main(loop):
        loop_ref[0] = loop
        ct = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, lv)
        tr = get_protocol(config=DeviceConfig("10.0.0.7", credentials=own, connection_type=ct, timeout=5, aes_keys=dict(rng.choice(KEYS))))._transport
        fresh, since, open_login = True, None, False     # must a handshake come first; may one (a login is outstanding)
        for _ in range(rng.randrange(4, 14)):
            k = rng.choice(["ok"] * 4 + ["code"] * 4 + ["status", "drop", "stall", "login"] + ["reset", "close", "expire", "near"])
            if k in ("reset", "close"):
                await (tr.reset() if k == "reset" else tr.close())
                fresh = True
                case.covered("transport:reset")
                continue
            if k in ("expire", "near"):
                if since is not None and not fresh and since + eff + 5 > loop.time():
                    target = since + eff + (5 if k == "expire" else -30)
                    if target > loop.time():
                        await asyncio.sleep(target - loop.time())
                    if k == "expire":
                        fresh = True
                        case.covered("transport:expired")
                continue
            if since is not None and loop.time() > since + eff - 15:       # too near to tell, or past it
                await asyncio.sleep(20)
                fresh = True
            if k == "login":
                if not fresh:
                    continue
                code = rng.choice([c for c in CODES if c not in (-1501, 9999)])
                planned["login"] = (rng.choice(["code", "inner"]), code)
            else:
                code = rng.choice(CODES)
                f = {"ok": None, "code": ("code", code), "status": ("status", rng.choice([400, 401, 403, 404, 429, 500, 503])), "drop": ("disconnect",),
                     "stall": ("stall",)}[k]
                if f:
                    planned["request"] = f
            h0, l0, r0, dead0 = srv.count("handshake"), srv.count("login"), srv.count("request"), len(hist.dead)
            qid, req = hist.make()
            exc = res = None
            t0 = loop.time()
            try:
                res = await tr.send(json.dumps(req))
            except kasa.KasaException as ex:
                exc = ex
            planned.clear()
            tag = f"{k} {code if k in ('code', 'login') else ''}: {exc!r} {outs[-4:]}"
            hs, lg, rq = srv.count("handshake") - h0, srv.count("login") - l0, srv.count("request") - r0
            outs.append((k, fresh, hs, lg))
            if len(hist.dead) > dead0 and not rq and k != "login":     # met a connection the device had dropped
                if hs:
                    since, fresh, open_login = t0, False, True
                continue
            want = (1, 1) if fresh else (0, 0)
            case.expect((hs, lg) == want or open_login and lg == 1, "wrong-handshake", f"{tag}: {hs} handshakes, {lg} logins, expected {want}")
            if hs:
                since = t0
            if not fresh and not open_login and k == "ok":
                case.covered("transport:reused")
            open_login = False
            if k == "login":
                case.expect(rq == 0, "request-after-failed-login", tag)
                case.expect(isinstance(exc, answers[refs.code_class(code)]), "wrong-error", tag)
                # after an authentication error a new handshake is due; after another error the login is still outstanding
                fresh, open_login = refs.code_class(code) == "auth", refs.code_class(code) != "auth"
                case.covered("transport:login-failed")
                continue
            fresh = False
            case.expect(rq == 1, "wrong-requests", f"{tag}: {rq} requests")
            if k == "ok":
                if case.expect(exc is None, "query-failed", tag):
                    hist.check_reply(qid, res)
            elif k == "code":
                cls = refs.code_class(code)
                case.expect(isinstance(exc, answers[cls]) and (cls != "fatal" or not isinstance(exc, answers["auth"] + answers["retry"])), "wrong-error", tag)
                if cls == "auth":
                    fresh = True
                    case.covered("transport:auth")
                else:
                    case.covered("transport:code")
                if code == 9999:
                    break
            elif k == "status":
                case.expect(isinstance(exc, kasa.KasaException) and not isinstance(exc, (kasa.DeviceError, kasa.TimeoutError)) and
                            type(exc).__name__ != "_ConnectionError", "wrong-error", tag)
                case.covered("transport:status")
            elif k == "drop":
                case.expect(type(exc).__name__ == "_ConnectionError", "wrong-error", tag)
                case.covered("transport:dropped")
            else:
                case.expect(isinstance(exc, kasa.TimeoutError), "wrong-error", tag)
                case.covered("transport:timeout")
            if case.violations:
                return
        await tr.close()

    finish(case, vrun(main, net=net))
    case.nontrivial((lv, tuple(outs)))
    case.sample = outs[:6]


FAMILIES = [Family("history", f_history, 9000, 100000), Family("transport", f_transport, 2000, 25000)]
