"""C04: HTTPS camera (nonce login, tags), vacuum (token) and Kasa camera transports."""
from __future__ import annotations

import asyncio
import base64
import json

import kasa
from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.device_factory import get_protocol
from kmon import gen, refs
from kmon.core import Family
from kmon.history import History, finish
from kmon.net import Net
from kmon.servers import CameraServer, LinkieServer, TokenServer
from kmon.vloop import vrun

RULE = ("random histories (queries, concurrency, cancellation, lost sessions, firmware changes, error codes, HTTP faults) "
        "against independent models of the TLS-AES camera, the token vacuum and the Kasa camera; non-trivial = at least "
        "two queries reached a login or request stage, identified by the sequence of attempt outcomes")
REQUIRED_COVER = ["camera:outcome:ok", "camera:outcome:conn", "camera:outcome:timeout", "camera:outcome:fatal",
                  "camera:outcome:auth", "camera:outcome:retry", "token:outcome:ok", "token:outcome:auth",
                  "token:outcome:retry", "linkie:outcome:ok", "linkie:outcome:retry", "secure", "plain", "sha256", "md5",
                  "blocked", "default-user", "badconfirm", "lost-session", "session-reused", "mode-change",
                  "camera:cancelled-in-flight", "token:expired",
                  "bare:reset", "bare:reused", "bare:auth", "bare:code"]
ASSUMPTIONS = ["device models are written independently of the library's transports",
               "TLS itself is not exercised: the in-memory network marks connections opened with TLS"]
CODES = [*refs.RETRY_CODES, *refs.AUTH_CODES, -1003, -40106, -40210, -60502, 424242, -7777]


def harmless(rng, timeout):
    k = rng.randrange(7)
    return [None, None, ("slow", timeout * 0.2), ("cut", gen.rcuts(rng, 200), 0.001), ("chunked",),
            ("close-after",), ("silent-close",)][k]


def net_faults(rng, timeout):
    return [(("disconnect",), "conn"), (("reset",), "conn"), (("stall",), "timeout"), (("stall-mid",), "timeout"),
            (("disconnect", timeout * 0.5), "conn"),
            (("status", rng.choice([400, 403, 404, 501, 503]), rng.choice([b"", b"oops", b'{"error_code": 9999}'])), "fatal"),
            (("body", rng.choice([b"", b"nope", b"\xff\xfe", b"{"])), "fatal")]


def split(obs):
    att, cur = [], []
    for o in obs:
        if o[0] in ("handshake1", "login") and cur and cur[-1][1] == "authish":
            att.append("auth")
            cur = []
        cur.append(o)
        if o[1] in ("next", "rejected", "authish", "authnext"):
            continue
        if o[1] != "ok" or o[0] == "request":
            att.append(o[1])
            cur = []
    if cur:
        att.append("auth" if cur[-1][1] in ("authish", "authnext") else "incomplete:" + cur[-1][0])
    return att


async def drive(case, loop, hist, proto, srv, st, extra, n=None):
    rng = case.rng
    timeout = st["timeout"]
    for _ in range(n or rng.randrange(2, 8)):
        k = rng.choice(["q"] * 7 + ["time", "cancel", "conc", "close", *extra])
        st["op"](k)
        if k == "q":
            await hist.sequential(proto, rng.choice([0, 1, 2, 3]))
        elif k == "time":
            await asyncio.sleep(rng.choice([0.3, 16, 60, 5000]))
        elif k == "cancel":
            await hist.cancelled(loop, proto, rng.choice([None, None, 0.001, timeout * 0.3]))
        elif k == "conc":
            await hist.concurrent(loop, proto, rng.randrange(2, 4), rng.choice([None, None, 0.0, 0.001, timeout * 0.1]))
        elif k == "close":
            await proto.close()
        elif k in extra:
            await extra[k]()
        st["op_done"](k)
    await proto.close()
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    case.expect(not hist.net.open_conns(), "close-leaks", "connection open after close()")


def f_camera(case):
    rng = case.rng
    net = Net(case)
    timeout = rng.choice([3, 5, 10])
    host = "10.1.2.3"
    own = Credentials(rng.choice(["user@x.org", "User@X.org", gen.rtext(rng, 9) or "u", "admin", "Ünï"]),
                      rng.choice(["Passw0rd", "7", gen.rtext(rng, 12) or "p", "päss🙂"]))
    kind = rng.choice(["plain", "plain", "plain", "hash", "none", "blank"])
    has = kind in ("plain", "hash")
    mode = rng.choice(["secure", "secure", "plain"])
    hashing = rng.choice(["sha256", "md5"])
    cam_user = rng.choice([own.username if has else "admin"] * 3 + ["admin", "admin", "other"])
    lib_pw = own.password if has else "admin"
    cam_pw = rng.choice([lib_pw] * 6 + ["zz" + lib_pw])
    case.covered(mode, hashing)
    kw = {}
    if kind == "plain":
        kw["credentials"] = own
    elif kind == "hash":
        kw["credentials_hash"] = base64.b64encode(json.dumps({"un": own.username, "pwd": own.password}).encode()).decode()
    elif kind == "blank":
        kw["credentials"] = Credentials()
    http_port = rng.choice([None, None, 8443])
    over = rng.choice([None, None, None, 1234])
    port = over or http_port or 443
    fam, https = rng.choice([(DeviceFamily.SmartIpCamera, True), (DeviceFamily.SmartIpCamera, False),
                             (DeviceFamily.SmartTapoDoorbell, True), (DeviceFamily.SmartTapoHub, True)])
    ct = DeviceConnectionParameters(fam, DeviceEncryptionType.Aes, rng.choice([None, 2, 3]), https, http_port)
    cfg = DeviceConfig(host, timeout=timeout, port_override=over, connection_type=ct, **kw)
    p_fault = rng.choice([0.0, 0.1, 0.3, 0.5])
    st = {"timeout": timeout, "excused": True, "lenient": False, "hs1n": 0, "last": None, "established": False}
    if has and rng.random() < 0.08:
        blocked = rng.choice([0, 1, 1500])
    else:
        blocked = None
    loop_ref = [None]

    def plan(stage, n):
        out, f, code = "ok", harmless(rng, timeout), None
        if stage == "handshake1":
            if st["last"] not in ("handshake1", "plainlogin") or st["closed"]:
                st["hs1n"] = 0
            st["closed"] = False
            if not st["excused"] and not st["lenient"]:
                case.violate("needless-handshake", "new login although the session is established and no error occurred")
            u = srv.current.get("username")
            second = st["hs1n"] >= 1 or not has
            st["hs1n"] += 1
            st["excused"] = True
            if u not in ((own.username if has else None), "admin"):
                case.violate("foreign-username", f"login as {u!r}")
            if u == "admin" and not (has and own.username == "admin"):
                case.covered("default-user")
            if blocked is not None and u == cam_user or blocked is not None:
                case.covered("blocked")
                out, code = ("next", None) if not second else ("fatal", -40404)
            elif srv.mode == "secure":
                if u == cam_user:
                    out = "ok" if cam_pw == lib_pw else "auth"
                else:
                    out = "auth" if second else "next"
            else:
                out = "ok" if u == cam_user else ("authish" if second else "next")
        elif stage == "plainlogin":
            good = srv.current.get("username") == cam_user and cam_pw == lib_pw
            out = "ok" if good else ("next" if has else "authnext") if st["hs1n"] < 2 else "auth"
        elif stage == "request":
            if st["last"] == "request":
                case.covered("session-reused")
            if srv.sess is None:
                case.covered("lost-session")
                out = "retry" if st["sess_mode"] == "secure" else "fatal"
                f = None
        if out in ("ok",) and rng.random() < p_fault:
            opts = net_faults(rng, timeout)
            if stage == "handshake1" and srv.mode == "secure":
                opts += [(("badconfirm", "otherpw"), "auth")] * 2
            elif stage == "handshake2":
                opts += [(("reject",), "auth")]
                code = rng.choice([c for c in CODES if c != -40413])
                opts += [(("json", {"error_code": code}), refs.code_class(code))] * 2
            elif stage == "request":
                code = rng.choice(CODES)
                opts += [(("code", code), refs.code_class(code)), (("inner", code), refs.code_class(code)),
                         (("executed-then-drop",), "conn"),
                         (("status", 500, rng.choice([b"", b"{}", b'{"result": {"response": "x"}}'])),
                          "retry" if st["sess_mode"] == "secure" else "fatal")]
                if st["sess_mode"] == "secure":
                    opts += [(("plain",), "ok"), (("unenc-root",), "ok"),
                             (("mangle", rng.choice(["%%%", "AAAA", "{", "!"])), "fatal")]
            f, out = rng.choice(opts)
            if f[0] == "badconfirm":
                case.covered("badconfirm")
            if f[0] not in ("code", "inner", "json"):
                code = None
        hist.obs.append((stage, out) if code is None else (stage, out, code))
        st["last"] = stage
        if stage in ("handshake2", "plainlogin") and out == "ok":
            st["excused"], st["sess_mode"] = False, srv.mode
        if out not in ("ok", "next", "authish", "authnext"):
            st["excused"], st["hs1n"], st["closed"] = True, 0, True
            if out != "conn" and stage == "request" and not st["lenient"]:
                srv.must_handshake = True
        return f

    st["sess_mode"], st["closed"] = mode, True
    hist = History(case, net, "cam", split)
    srv = CameraServer(net, host, port, hist.handler, username=cam_user, password=cam_pw, mode=mode, hashing=hashing,
                       bad=case.violate, plan=plan, clock=lambda: loop_ref[0].time(), rng=rng)
    srv.blocked = blocked

    def on_dead():
        srv.lost += 1
        st["excused"], st["closed"] = True, True

    hist.on_dead = on_dead

    def op(k):
        st["closed"] = True
        if k in ("cancel", "conc"):
            st["lenient"], srv.strict_seq, srv.must_handshake = True, False, False

    def op_done(k):
        if k in ("cancel", "conc"):
            st["lenient"], st["excused"] = False, True
        if k == "close":
            st["excused"], srv.must_handshake = True, True

    st["op"], st["op_done"] = op, op_done

    async def reboot():
        srv.sess = None

    async def change():
        """New firmware: the camera changes its login scheme (its sessions are lost)."""
        if blocked is None:
            srv.mode = "secure" if srv.mode == "plain" else "plain"
            srv.sess = None
            case.covered("mode-change")
            st["changed"] = True

    async def main(loop):
        loop_ref[0] = loop
        proto = get_protocol(config=cfg)
        await drive(case, loop, hist, proto, srv, st, {"reboot": reboot, **({"change": change} if rng.random() < 0.3 else {})})
        if cam_pw != lib_pw or cam_user == "other":
            case.expect(srv.count("request") == 0, "request-without-login", "request sent although no login can succeed")
        if mode == "secure" and not st.get("changed"):
            case.expect(not any("hashed" in b for b in srv.login_bodies), "hash-sent-to-secure-camera",
                        "the replayable password hash was sent to a camera that asked for the nonce login")

    finish(case, vrun(main, net=net))
    if p_fault == 0 and blocked is None and cam_pw == lib_pw and cam_user in ("admin", own.username if has else "admin"):
        case.expect(not any("AuthenticationError" in o[1:] for o in hist.outcomes), "good-login-rejected", f"{hist.outcomes}")
        case.covered("good-login")
    if len(hist.outcomes) >= 2:
        case.nontrivial((mode, kind, cam_user == "admin", cam_pw == lib_pw, hist.outcomes))
    for s in ("handshake1", "handshake2", "plainlogin", "request"):
        case.count(s, srv.count(s))
    case.sample = {"mode": mode, "creds": kind, "outcomes": hist.outcomes[:8]}


def f_token(case):
    rng = case.rng
    net = Net(case)
    timeout = rng.choice([3, 5, 10])
    host = "10.1.2.4"
    own = Credentials(rng.choice(["user@x.org", "User@X.org", gen.rtext(rng, 9) or "u"]), rng.choice(["Passw0rd", "päss🙂", "7"]))
    kind = rng.choice(["plain", "plain", "plain", "hash", "none"])
    first = (own.username, refs.cam_pwd_hash("md5", own.password)) if kind in ("plain", "hash") else ("", refs.cam_pwd_hash("md5", ""))
    default = (refs.DEFAULTS["TAPO"][0], refs.cam_pwd_hash("md5", refs.DEFAULTS["TAPO"][1]))
    devkind = rng.choice(["own"] * 5 + ["default", "default", "foreign"])
    accept = {"own": [first], "default": [default], "foreign": []}[devkind]
    kw = {}
    if kind == "plain":
        kw["credentials"] = own
    elif kind == "hash":
        kw["credentials_hash"] = base64.b64encode(json.dumps({"password": first[1], "username": first[0]}).encode()).decode()
    http_port, over = rng.choice([None, 8443]), rng.choice([None, None, 1234])
    port = over or http_port or 4433
    ct = DeviceConnectionParameters(DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, 2, rng.random() < 0.7, http_port)
    cfg = DeviceConfig(host, timeout=timeout, port_override=over, connection_type=ct, **kw)
    p_fault = rng.choice([0.0, 0.1, 0.3, 0.5])
    st = {"timeout": timeout, "excused": True, "lenient": False, "fallback": False, "at": None}
    loop_ref = [None]
    eff = 86400 - 1200

    def plan(stage, n):
        t = loop_ref[0].time()
        out, f, code = "ok", harmless(rng, timeout), None
        if stage == "login":
            if not st["excused"] and not st["lenient"]:
                if t - st["at"] < eff:
                    case.violate("needless-login", f"new login {t - st['at']:.3f}s into an established session")
                else:
                    case.covered("expired")
            st["excused"] = True
        elif st["at"] is not None and t > st["at"] + timeout + eff + 0.3 and not st["excused"]:
            case.violate("expired-session-used", "request after the session counts as expired")
        if stage == "request" and srv.lost_token:
            out, code, f = "retry", 9999, None
            case.covered("lost-session")
        elif rng.random() < p_fault:
            opts = net_faults(rng, timeout)
            if not st["fallback"]:
                code = rng.choice([c for c in CODES if not (stage == "login" and c == -1501)])
                opts += [(("code", code), refs.code_class(code))] * 4
            if stage == "request":
                opts += [(("executed-then-drop",), "conn")]
            f, out = rng.choice(opts)
            if f[0] != "code":
                code = None
        hist.obs.append((stage, out) if code is None else (stage, out, code))
        if stage == "login" and out == "ok":
            st["excused"], st["at"] = False, t
        if out != "ok":
            st["excused"], st["fallback"] = True, False
            if out != "conn" and not st["lenient"]:
                srv.must_login = True
        elif stage == "request":
            st["fallback"] = False
        return f

    def on_rejected():
        st["excused"] = True
        if st["fallback"]:
            hist.obs[-1] = ("login", "auth", -1501)
            st["fallback"] = False
        else:
            hist.obs[-1] = ("login", "rejected")
            st["fallback"] = True
        if not st["lenient"]:
            srv.must_login = True

    hist = History(case, net, "smart", split)
    srv = TokenServer(net, host, port, hist.handler, accept=accept, bad=case.violate, plan=plan,
                      clock=lambda: loop_ref[0].time(), rng=rng)
    srv.on_rejected = on_rejected

    def on_dead():
        st["excused"], st["fallback"] = True, False

    hist.on_dead = on_dead

    def op(k):
        st["fallback"] = False
        if k in ("cancel", "conc"):
            st["lenient"], srv.must_login = True, False

    def op_done(k):
        if k in ("cancel", "conc"):
            st["lenient"], st["excused"] = False, True
        if k == "close":
            st["excused"], srv.must_login = True, True

    st["op"], st["op_done"] = op, op_done

    async def reboot():
        if srv.token:
            srv.lost_token = True

    async def expire():
        if st["at"]:
            t = st["at"] + eff + rng.choice([-20, 1, timeout + 1, 900])
            if t > loop_ref[0].time():
                await asyncio.sleep(t - loop_ref[0].time())

    async def main(loop):
        loop_ref[0] = loop
        proto = get_protocol(config=cfg)
        await drive(case, loop, hist, proto, srv, st, {"reboot": reboot, "expire": expire})
        if devkind == "foreign":
            case.expect(srv.count("request") == 0, "request-without-login", "request sent although no login succeeded")
        got = [(p.get("username"), p.get("password")) for p in srv.logins]
        case.expect(all(p in (first, default) for p in got), "foreign-login", str(got))
        if devkind == "own":
            case.expect(first == default or default not in got, "default-login-unasked",
                        "default credentials sent although the configured ones work")

    finish(case, vrun(main, net=net))
    if p_fault == 0 and devkind != "foreign":
        case.expect(not any("AuthenticationError" in o[1:] for o in hist.outcomes), "good-login-rejected", f"{hist.outcomes}")
    if len(hist.outcomes) >= 2:
        case.nontrivial((kind, devkind, hist.outcomes))
    case.count("logins", srv.count("login"))
    case.count("request", srv.count("request"))
    case.sample = {"creds": kind, "device": devkind, "outcomes": hist.outcomes[:8]}


def f_linkie(case):
    rng = case.rng
    net = Net(case)
    timeout = rng.choice([3, 5])
    host = "10.1.2.5"
    http_port, over = rng.choice([None, 8443]), rng.choice([None, None, 1234])
    ct = DeviceConnectionParameters(DeviceFamily.IotIpCamera, DeviceEncryptionType.Xor, None, rng.random() < 0.5, http_port)
    cfg = DeviceConfig(host, timeout=timeout, port_override=over, connection_type=ct)
    p_fault = rng.choice([0.0, 0.2, 0.5])
    st = {"timeout": timeout}
    loop_ref = [None]

    def plan(stage, n):
        out, f = "ok", harmless(rng, timeout)
        if rng.random() < p_fault:
            f, out = rng.choice([*net_faults(rng, timeout), (("plainerr", {"err_code": -1, "m": "x"}), "x")])
            out = "retry"
        hist.obs.append((stage, out))
        return f

    hist = History(case, net, "iot", split)
    hist.on_dead = lambda: hist.obs.__setitem__(-1, ("dead", "retry"))
    srv = LinkieServer(net, host, over or http_port or 10443, hist.handler, bad=case.violate, plan=plan,
                       clock=lambda: loop_ref[0].time(), rng=rng)
    st["op"] = st["op_done"] = lambda k: None

    async def main(loop):
        loop_ref[0] = loop
        proto = get_protocol(config=cfg)
        await drive(case, loop, hist, proto, srv, st, {}, n=rng.randrange(2, 5))

    finish(case, vrun(main, net=net))
    if len(hist.outcomes) >= 2:
        case.nontrivial(hist.outcomes)
    case.count("request", srv.count("request"))
    case.sample = {"outcomes": hist.outcomes[:8]}


def f_bare(case):
    """The camera and vacuum transports alone: which results make the next send log in again, and which must not."""
    rng = case.rng
    net = Net(case)
    cam = rng.random() < 0.6
    own = Credentials(rng.choice(["user@x.org", "User@X.org"]), rng.choice(["Passw0rd", gen.rtext(rng, 12) or "p", "x"]))
    planned, loop_ref, outs = {}, [None], []
    hist = History(case, net, "cam" if cam else "smart", lambda o: [])
    kw = {"bad": case.violate, "plan": lambda stage, n: planned.pop(stage, None), "clock": lambda: loop_ref[0].time(), "rng": rng}
    if cam:
        mode = rng.choice(["secure", "secure", "plain"])
        srv = CameraServer(net, "10.1.2.6", 443, hist.handler, username=own.username, password=own.password, mode=mode,
                           hashing=rng.choice(["sha256", "md5"]), **kw)
        first = "handshake1"
        ct = DeviceConnectionParameters(DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, 2, True)
    else:
        mode = "token"
        srv = TokenServer(net, "10.1.2.6", 4433, hist.handler, accept=[(own.username, refs.cam_pwd_hash("md5", own.password))], **kw)
        first = "login"
        ct = DeviceConnectionParameters(DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, 2, True)
    answers = {"auth": (kasa.AuthenticationError,), "retry": (kasa.exceptions._RetryableError,), "fatal": (kasa.DeviceError,)}

    async def main(loop):
        loop_ref[0] = loop
        tr = get_protocol(config=DeviceConfig("10.1.2.6", credentials=own, connection_type=ct, timeout=5))._transport
        fresh = True
        for _ in range(rng.randrange(4, 14)):
            k = rng.choice(["ok"] * 4 + ["code"] * 4 + ["status", "drop", "stall", "reset", "close", "wait"])
            if k in ("reset", "close"):
                await (tr.reset() if k == "reset" else tr.close())
                fresh = True
                case.covered("bare:reset")
                continue
            if k == "wait":
                await asyncio.sleep(rng.choice([1, 30, 4000]))
                continue
            code = rng.choice(CODES)
            f = {"ok": None, "code": ("code", code), "status": ("status", rng.choice([400, 401, 403, 404, 429, 501, 503])),
                 "drop": ("disconnect",), "stall": ("stall",)}[k]
            if f:
                planned["request"] = f
            l0, r0, dead0, t0 = srv.count(first), srv.count("request"), len(hist.dead), loop.time()
            qid, req = hist.make()
            body = {"method": "get", **req["get"]} if cam else {"method": "echo", "params": req["echo"]}
            exc = res = None
            try:
                res = await tr.send(json.dumps(body))
            except kasa.KasaException as ex:
                exc = ex
            planned.clear()
            tag = f"{mode} {k} {code if k == 'code' else ''}: {exc!r} {outs[-4:]}"
            lg, rq = srv.count(first) - l0, srv.count("request") - r0
            outs.append((k, fresh, lg))
            if len(hist.dead) > dead0 and not rq:      # met a connection the device had dropped
                fresh = fresh and lg == 0
                continue
            case.expect(lg == (1 if fresh else 0), "wrong-login", f"{tag}: {lg} logins, expected {int(fresh)}")
            if not fresh and k == "ok":
                case.covered("bare:reused")
            fresh = False
            case.expect(rq == 1, "wrong-requests", f"{tag}: {rq} requests")
            if k == "ok":
                if case.expect(exc is None, "query-failed", tag):
                    hist.check_reply(qid, {"get": res} if cam else {"echo": res.get("result")})
            elif k == "code" and not (code in (-40413,) and cam):
                cls = refs.code_class(code)
                case.expect(isinstance(exc, answers[cls]) and (cls != "fatal" or not isinstance(exc, answers["auth"] + answers["retry"])), "wrong-error", tag)
                if cls == "auth":
                    fresh = True
                    case.covered("bare:auth")
                else:
                    case.covered("bare:code")
            elif k == "status":
                case.expect(isinstance(exc, kasa.KasaException) and not isinstance(exc, (kasa.DeviceError, kasa.TimeoutError)) and
                            type(exc).__name__ != "_ConnectionError", "wrong-error", tag)
            elif k == "drop":
                case.expect(type(exc).__name__ == "_ConnectionError", "wrong-error", tag)
            elif k == "stall":
                case.expect(isinstance(exc, kasa.TimeoutError) and loop.time() - t0 <= 5 * (1 if not lg else 4) + 1, "wrong-error", tag)
            if case.violations:
                return
        await tr.close()

    finish(case, vrun(main, net=net))
    if len(outs) > 2:
        case.nontrivial((mode, tuple(outs)))
    case.count("request", srv.count("request"))
    case.sample = {"mode": mode, "outs": outs[:6]}


FAMILIES = [Family("camera", f_camera, 6000, 80000), Family("token", f_token, 4000, 40000),
            Family("linkie", f_linkie, 1000, 10000), Family("bare", f_bare, 1500, 15000)]
