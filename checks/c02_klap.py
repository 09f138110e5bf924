"""C02: KLAP sessions against an independent device model."""
from __future__ import annotations

import asyncio
import base64
import json

import kasa
from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.device_factory import get_protocol
from kmon import gen, refs
from kmon.core import Family
from kmon.history import History, finish
from kmon.net import Net
from kmon.servers import KlapServer
from kmon.vloop import vrun

RULE = ("random histories (queries, concurrency, cancellation, time jumps around session expiry, reboots, 403s, HTTP "
        "faults) of one protocol object against an independent KLAP v1/v2 device; non-trivial = a handshake completed "
        "or was refused and at least two queries ran, identified by the sequence of attempt outcomes")
REQUIRED_COVER = ["outcome:ok", "outcome:conn", "outcome:timeout", "outcome:fatal", "outcome:auth", "outcome:retry",
                  "v1", "v2", "https", "cred:own", "cred:default", "cred:blank", "cred:foreign", "cred:hash",
                  "rehandshake:expiry", "rehandshake:403", "session-reused", "cancelled-in-flight", "concurrent", "no-cookie", "transport:403", "transport:status", "transport:dropped", "transport:reset",
                  "transport:expired", "transport:reused", "transport:timeout"]
ASSUMPTIONS = ["the device model implements KLAP independently from the published protocol",
               "aiohttp is the real client over an in-memory TCP network with a virtual clock"]
MARGIN = 1200


def rcred(rng):
    return Credentials(rng.choice(["user@x.org", gen.rtext(rng, 9) or "u", "Ünï@c.de", "a"]),
                       rng.choice(["Passw0rd", gen.rtext(rng, 12) or "p", "päss🙂", "b", " "]))


def f_history(case):
    rng = case.rng
    net = Net(case)
    version = rng.choice([1, 2])
    https = version == 2 and rng.random() < 0.25
    style = "iot" if version == 1 else "smart"
    case.covered("v%d" % version, *(["https"] if https else []))
    timeout = rng.choice([3, 5, 5, 10])
    host = "10.1.2.3"
    # credentials: what the caller has, what the device has
    own = rcred(rng)
    creds_kind = rng.choice(["plain", "plain", "plain", "hash", "none", "blank"])
    devkind = rng.choice(["own"] * 6 + ["default", "default", "blank", "foreign"])
    if creds_kind in ("none", "blank") and devkind == "own":
        devkind = rng.choice(["blank", "default", "foreign"])
    own_auth = refs.klap_auth(version, own.username, own.password)
    if devkind == "own":
        auth = own_auth
    elif devkind == "default":
        auth = refs.klap_auth(version, *refs.DEFAULTS[rng.choice(sorted(refs.DEFAULTS))])
    elif devkind == "blank":
        auth = refs.klap_auth(version, "", "")
    else:
        auth = refs.klap_auth(version, "other@x.org", "zzz" + gen.rtext(rng, 3))
    case.covered("cred:" + devkind)
    kw = {}
    if creds_kind == "plain":
        kw["credentials"] = own
        if rng.random() < 0.2:
            kw["credentials_hash"] = base64.b64encode(b"0" * 16).decode()   # credentials win
    elif creds_kind == "hash":
        kw["credentials_hash"] = base64.b64encode(own_auth).decode()
        case.covered("cred:hash")
    elif creds_kind == "blank":
        kw["credentials"] = Credentials()
    fam = DeviceFamily.IotSmartPlugSwitch if version == 1 else (
        DeviceFamily.SmartTapoRobovac if https else rng.choice([DeviceFamily.SmartTapoPlug, DeviceFamily.SmartKasaHub]))
    http_port = rng.choice([None, None, 8099])
    over = rng.choice([None, None, None, 1234])
    port = over or http_port or (4433 if https else 80)
    ct = DeviceConnectionParameters(fam, DeviceEncryptionType.Klap, rng.choice([None, 2]), https, http_port)
    cfg = DeviceConfig(host, timeout=timeout, port_override=over, connection_type=ct, **kw)
    cookie = rng.random() < 0.9
    if not cookie:
        case.covered("no-cookie")
    ctimeout = rng.choice([86400, 86400, 1440, 3600, None, 1200, 600, 86401, 259200])
    eff = (86400 if ctimeout is None or not cookie else ctimeout) - MARGIN
    p_fault = rng.choice([0.0, 0.1, 0.3, 0.5])
    st = {"excused": True, "reason": "first", "completed_at": None, "hs1_at": None, "last_stage": None,
          "hs_count": 0, "lenient": False}
    loop_ref = [None]

    def now():
        return loop_ref[0].time()

    def harmless():
        k = rng.randrange(7)
        return [None, None, ("slow", timeout * 0.2), ("cut", gen.rcuts(rng, 200), 0.001), ("chunked",),
                ("close-after",), ("silent-close",)][k]

    def plan(stage, n):
        out, f = "ok", harmless()
        if rng.random() < p_fault:
            opts = [(("disconnect",), "conn"), (("reset",), "conn"), (("stall",), "timeout"),
                    (("stall-mid",), "timeout"), (("disconnect", timeout * 0.5), "conn"),
                    (("status", rng.choice([400, 401, 404, 429, 500, 503]), rng.choice([b"", b"oops"])), "fatal")]
            if stage == "request":
                opts += [(("status", 403), "retry"), (("executed-then-drop",), "conn"), (("status", 403), "retry")]
            elif stage == "handshake1":
                opts += [(("short", rng.choice([0, 1, 16, 47])), "fatal"), (("status", 403), "fatal")]
            f, out = rng.choice(opts)
        if stage == "handshake1" and out == "ok" and devkind == "foreign":
            out = "auth"
        if stage == "request":
            s = srv.sess
            if s is None or (srv.life is not None and now() > s["at"] + srv.life):
                out = "retry"     # the device lost the session: it answers 403
                f = None
                srv.must_handshake = False
        monitor(stage, f, out)
        hist.obs.append((stage, out))
        return f

    def monitor(stage, f, out):
        t = now()
        if stage == "handshake1":
            st["hs_count"] += 1
            st["hs1_at"] = t
            if not st["excused"] and not st["lenient"]:
                age = t - st["completed_hs1_at"]
                if age < eff - 0.01:
                    case.violate("needless-handshake",
                                 f"new handshake {age:.3f}s into a session valid for {eff}s without any error")
                else:
                    case.covered("rehandshake:expiry")
            elif st["reason"] == "403":
                case.covered("rehandshake:403")
            st["excused"], st["reason"] = True, "pending"
        elif stage == "handshake2":
            if out == "ok":
                st["excused"], st["reason"] = False, None
                st["completed_hs1_at"] = st["hs1_at"]
                st["hs2_at"] = t
        elif stage == "request":
            if st["last_stage"] == "request":
                case.covered("session-reused")
                if st.get("hs2_at") is not None and t >= st["hs2_at"] + eff + 0.3:
                    case.violate("expired-session-used",
                                 f"request {t - st['hs2_at']:.3f}s after the handshake; the session counts as expired after {eff}s")
        if out != "ok":
            st["excused"], st["reason"] = True, "403" if out == "retry" else out
            if out in ("fatal", "timeout", "retry") and stage == "request" and not st["lenient"]:
                srv.must_handshake = True
        st["last_stage"] = stage

    def split(obs):
        att, cur = [], []
        for stage, out in obs:
            cur.append((stage, out))
            if out != "ok" or stage == "request":
                att.append(out)
                cur = []
            elif stage == "handshake1" and len(cur) > 1:
                pass
        if cur:
            att.append("incomplete:" + cur[-1][0])
        return att

    hist = History(case, net, style, split)
    srv = KlapServer(net, host, port, hist.handler, version=version, auth=auth, cookie=cookie, timeout=ctimeout,
                     tls=https, strict_seq=True, bad=case.violate, plan=plan, clock=now, rng=rng)

    def on_dead():
        srv.lost += 1
        st["excused"], st["reason"] = True, "conn"

    hist.on_dead = on_dead

    async def main(loop):
        loop_ref[0] = loop
        proto = get_protocol(config=cfg)
        nq = 0
        for _ in range(rng.randrange(2, 8)):
            k = rng.choice(["q"] * 7 + ["time", "time", "reboot", "cancel", "conc", "close"])
            if k == "q":
                res, exc = await hist.sequential(proto, rng.choice([0, 1, 2, 3]))
                nq += 1
            elif k == "time":
                e = st.get("hs2_at")
                if e is not None and rng.random() < 0.8:
                    target = e + eff + rng.choice([-50, -5, -1.5, 0, 0.5, 1, 30, 1000])
                    if target > now():
                        await asyncio.sleep(target - now())
                else:
                    await asyncio.sleep(rng.choice([0.3, 16, 60, 5000, 90000]))
            elif k == "reboot":
                srv.drop_session()
            elif k == "cancel":
                st["lenient"], srv.strict_seq, srv.must_handshake = True, False, False
                if await hist.cancelled(loop, proto, rng.choice([None, None, 0.001, timeout * 0.3])):
                    st["excused"], st["reason"] = True, "cancel"
                st["lenient"] = False
            elif k == "conc":
                st["lenient"], srv.strict_seq, srv.must_handshake = True, False, False
                await hist.concurrent(loop, proto, rng.randrange(2, 4),
                                      rng.choice([None, None, 0.0, 0.001, timeout * 0.1]))
                st["excused"], st["reason"], st["lenient"] = True, "concurrent", False
            else:
                await proto.close()
                st["excused"], st["reason"] = True, "close"
                srv.must_handshake = True
        if devkind == "foreign":
            case.expect(srv.count("request") == 0 and srv.count("handshake2") == 0, "request-without-authentication",
                        "data sent to a device that could not prove the credentials", stages=srv.stages())
        await proto.close()
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        case.expect(not net.open_conns(), "close-leaks", "connection open after close()")

    r = vrun(main, net=net)
    finish(case, r)
    if srv.count("handshake1") and len(hist.outcomes) >= 2:
        case.nontrivial((version, creds_kind, devkind, hist.outcomes))
    case.count("handshakes", srv.count("handshake1"))
    case.count("requests", srv.count("request"))
    case.sample = {"version": version, "creds": creds_kind, "device": devkind, "outcomes": hist.outcomes[:8]}


def f_gap(case):
    """After the device dropped a connection, consecutive HTTP requests are kept 0.25 s apart."""
    rng = case.rng
    net = Net(case)
    version = 2
    own = rcred(rng)
    times = []
    loop_ref = [None]
    dropped = [None]

    def plan(stage, n):
        t = loop_ref[0].time()
        if dropped[0] is not None and times:
            case.expect(t - times[-1] >= 0.25 - 1e-6, "requests-too-close",
                        f"request {t - times[-1]:.3f}s after the previous one on a device that drops connections")
        delay = rng.choice([0, 0.01, 0.3])
        times.append(t + delay)
        if rng.random() < 0.25:
            dropped[0] = t
            times[-1] = t
            case.covered("dropped")
            return ("disconnect",)
        return ("slow", delay)

    hist = History(case, net, "smart", lambda o: [])
    srv = KlapServer(net, "10.0.0.1", 80, hist.handler, version=version,
                     auth=refs.klap_auth(version, own.username, own.password), bad=case.violate, plan=plan,
                     clock=lambda: loop_ref[0].time(), rng=rng)

    async def main(loop):
        loop_ref[0] = loop
        ct = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap)
        proto = get_protocol(config=DeviceConfig("10.0.0.1", credentials=own, connection_type=ct))
        for _ in range(5):
            qid, req = hist.make()
            try:
                hist.check_reply(qid, await proto.query(req))
            except kasa.KasaException:
                pass
        await proto.close()

    finish(case, vrun(main, net=net))
    if dropped[0] is not None:
        case.nontrivial([round(t, 2) for t in times])


def f_transport(case):
    """The transport alone, without a protocol that resets it: what itself makes a new handshake, and what must not."""
    rng = case.rng
    net = Net(case)
    version = rng.choice([1, 2])
    own = rcred(rng)
    auth = refs.klap_auth(version, own.username, own.password)
    ctimeout = rng.choice([86400, None, 3600, 1500, 200000])
    eff = (86400 if ctimeout is None else ctimeout) - MARGIN
    loop_ref, planned = [None], [None]
    hist = History(case, net, "iot", lambda o: [])

    def plan(stage, n):
        return planned[0] if stage == "request" else None

    srv = KlapServer(net, "10.0.0.7", 80, hist.handler, version=version, auth=auth, timeout=ctimeout, bad=case.violate, plan=plan,
                     clock=lambda: loop_ref[0].time(), rng=rng)
    outs = []

    async def main(loop):
        loop_ref[0] = loop
        fam = DeviceFamily.IotSmartPlugSwitch if version == 1 else DeviceFamily.SmartTapoPlug
        ct = DeviceConnectionParameters(fam, DeviceEncryptionType.Klap)
        tr = get_protocol(config=DeviceConfig("10.0.0.7", credentials=own, connection_type=ct, timeout=5))._transport
        fresh, since = True, None        # must the next request be preceded by a handshake?
        for _ in range(rng.randrange(4, 14)):
            k = rng.choice(["ok"] * 4 + ["403", "403", "status", "drop", "stall", "reset", "close", "expire", "near"])
            if k in ("reset", "close"):
                await (tr.reset() if k == "reset" else tr.close())
                fresh = True
                case.covered("transport:reset")
                continue
            if k in ("expire", "near"):
                if since is None or fresh:
                    continue
                target = since + eff + (5 if k == "expire" else -30)
                if target > loop.time():
                    await asyncio.sleep(target - loop.time())
                    if k == "expire":
                        fresh = True
                        case.covered("transport:expired")
                continue
            if since is not None and loop.time() > since + eff - 15:       # too near to tell, or past it
                await asyncio.sleep(20)
                fresh = True
            code = rng.choice([400, 401, 402, 404, 418, 429, 500, 502, 503])
            planned[0] = {"ok": None, "403": ("status", 403), "status": ("status", code), "drop": ("disconnect",), "stall": ("stall",)}[k]
            h0, r0 = srv.count("handshake1"), srv.count("request")
            dead0 = len(hist.dead)
            qid, req = hist.make()
            exc = res = None
            t0 = loop.time()
            try:
                res = await tr.send(req if isinstance(req, str) else json.dumps(req))
            except kasa.KasaException as ex:
                exc = ex
            planned[0] = None
            tag = f"{k} {code if k == 'status' else ''}: {exc!r}"
            hs, rq = srv.count("handshake1") - h0, srv.count("request") - r0
            outs.append((k, fresh, hs))
            if len(hist.dead) > dead0 and not rq:
                fresh = True if hs else fresh      # met a dead connection
                if exc is not None:
                    srv.lost += 1
                    continue
            case.expect(hs == (1 if fresh else 0), "wrong-handshake", f"{tag}: {hs} handshakes, expected {int(fresh)} after {outs[-4:]}")
            case.expect(rq == 1, "wrong-requests", f"{tag}: {rq} requests")
            if fresh:
                since = t0
            elif k == "ok":
                case.covered("transport:reused")
            fresh = False
            if k == "ok":
                if case.expect(exc is None, "query-failed", tag):
                    hist.check_reply(qid, res)
            elif k == "403":
                case.expect(type(exc).__name__ == "_RetryableError", "wrong-error", tag)
                fresh = True
                case.covered("transport:403")
            elif k == "status":
                case.expect(isinstance(exc, kasa.KasaException) and not isinstance(exc, (kasa.AuthenticationError, kasa.TimeoutError)) and
                            type(exc).__name__ not in ("_RetryableError", "_ConnectionError"), "wrong-error", tag)
                case.covered("transport:status")
            elif k == "drop":
                case.expect(type(exc).__name__ == "_ConnectionError", "wrong-error", tag)
                case.covered("transport:dropped")
            else:
                case.expect(isinstance(exc, kasa.TimeoutError), "wrong-error", tag)
                case.expect(4.5 <= loop.time() - t0 < 9, "wrong-timeout", f"{loop.time() - t0} s")
                case.covered("transport:timeout")
            if case.violations:
                return
        await tr.close()

    finish(case, vrun(main, net=net))
    case.nontrivial((version, tuple(outs)))
    case.sample = outs[:6]


FAMILIES = [Family("history", f_history, 12000, 120000), Family("gap", f_gap, 400, 4000), Family("transport", f_transport, 1500, 20000)]
