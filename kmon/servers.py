"""Device-side protocol state machines (independent of the library).

Every server checks what it receives against the protocol and its own session
state and reports deviations through ``bad(mechanism, message, **detail)``.
``plan(stage, n)`` decides faults: None or a tuple, e.g. ("status", 500).
"""
from __future__ import annotations

import base64
import json
import struct

from . import refs
from .net import HttpServer, Reply
from .refs import HEX


def session_word(rng, low=8, high=48):
    """A session id or token: any letters and digits, any length."""
    return "".join(rng.choice("0123456789ABCDEFabcdefGHxyzXYZ") for _ in range(rng.choice([16, 32, rng.randrange(low, high)])))



class ServerBase:
    def __init__(self, net, host, port, handler, *, bad, plan=None, tls=False, clock, rng):
        self.net, self.host, self.port, self.handler = net, host, port, handler
        self.bad, self.plan, self.tls, self.clock, self.rng = bad, plan or (lambda stage, n: None), tls, clock, rng
        self.trace: list = []       # (stage, time, info)
        self.stage_n: dict = {}
        self.plain_requests: list = []   # decoded application requests
        self.last_fault = None

    def note(self, stage, **info):
        self.trace.append((stage, self.clock(), info))
        self.net.log("srv", self.host, stage, info)

    def fault(self, stage):
        n = self.stage_n.get(stage, 0)
        self.stage_n[stage] = n + 1
        f = self.plan(stage, n)
        self.last_fault = f
        if f:
            self.net.log("fault", stage, n, f)
        return f

    def count(self, stage):
        return self.stage_n.get(stage, 0)

    def stages(self):
        return [t[0] for t in self.trace]

    def serve(self, req_text):
        """Run the application on one plaintext request."""
        self.plain_requests.append(req_text)
        out = self.handler(req_text)
        return out if isinstance(out, (bytes, str)) else json.dumps(out)

    # transport level faults shared by all HTTP servers
    def http_fault(self, f, reply: Reply | None = None) -> Reply | None | bool:
        """Reply for a transport level fault; False when f is not one."""
        if not f:
            return False
        k = f[0]
        if k in ("disconnect", "reset"):
            return Reply(how=k, delay=f[1] if len(f) > 1 else 0.0)
        if k == "stall":
            return None
        if k == "stall-mid":
            return Reply(200, b"x" * 40, how="stall")
        if k == "status":
            return Reply(f[1], f[2] if len(f) > 2 else b"")
        if k == "body":
            return Reply(200, f[1])
        if k == "partial":
            return Reply(200, b"x" * 64, how="partial")
        if k == "garbage":
            return Reply(200, f[1] if len(f) > 1 else b"not http at all\r\n\r\n", how="garbage")
        return False


def shape(f, reply: Reply) -> Reply:
    """Apply harmless delivery faults (delay, segmentation, chunking, close)."""
    if not f:
        return reply
    if f[0] == "slow":
        reply.delay = f[1]
    elif f[0] == "cut":
        reply.cuts, reply.gap = list(f[1]), f[2]
    elif f[0] == "chunked":
        reply.chunked = True
    elif f[0] in ("close-after", "silent-close"):
        reply.how = f[0]
    return reply


# ---------------------------------------------------------------- XOR
class XorServer(ServerBase):
    """Legacy TCP device. plan("request", n) faults: see _answer."""

    def __init__(self, net, host, port=9999, handler=None, connect_policy=None, **kw):
        super().__init__(net, host, port, handler, **kw)
        net.listen(host, port, self._new, connect_policy)
        self.outstanding = 0

    def _new(self, conn):
        return _XorConn(self, conn)

    def on_request(self, conn, raw, text):
        self.note("request", conn=conn.serial, text=text[:80])
        f = self.fault("request")
        if f and f[0] == "close-before":
            conn.send_eof()
            return
        if f and f[0] == "reset-before":
            conn.send_reset()
            return
        if f and f[0] == "stall":
            return
        out = self.serve(text)
        if isinstance(out, str):
            out = out.encode()
        frame = refs.xor_frame(out)
        self._answer(conn, frame, out, f)

    def _answer(self, conn, frame, out, f):
        k = f[0] if f else "ok"
        if k == "ok":
            conn.send(frame)
        elif k == "slow":
            conn.send(frame, f[1])
        elif k == "cut":       # cuts, gap
            prev = 0
            for i, c in enumerate([*sorted({c for c in f[1] if 0 < c < len(frame)}), len(frame)]):
                conn.send(frame[prev:c], f[2] if i else 0.0)
                prev = c
        elif k == "truncate":  # n bytes then EOF
            conn.send(frame[:f[1] % (len(frame))])
            conn.send_eof(f[2] if len(f) > 2 else 0.0)
        elif k == "truncate-reset":
            conn.send(frame[:f[1] % (len(frame))])
            conn.send_reset(f[2] if len(f) > 2 else 0.0)
        elif k == "truncate-stall":
            conn.send(frame[:f[1] % (len(frame))])
        elif k == "late":      # arrives after the client gave up
            conn.send(frame, f[1])
        elif k == "raw":
            conn.send(f[1])
        elif k == "text":
            conn.send(refs.xor_frame(f[1]))
        elif k == "ok-then-close":
            conn.send(frame)
            conn.send_eof(f[1] if len(f) > 1 else 0.0)
        else:
            raise AssertionError(f)


class _XorConn:
    def __init__(self, srv, conn):
        self.srv, self.conn, self.buf = srv, conn, b""

    def data_received(self, conn, data):
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack(">I", self.buf[:4])[0]
            if n > 50_000_000:
                self.srv.bad("xor-bad-length", f"length prefix {n}")
                conn.send_eof()
                self.buf = b""
                return
            if len(self.buf) < 4 + n:
                return
            raw, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
            try:
                text = refs.xor_wire_to_plain(raw).decode()
            except UnicodeDecodeError as ex:
                self.srv.bad("xor-undecodable", f"request does not decrypt to text: {ex}")
                continue
            self.srv.on_request(conn, raw, text)

    def connection_lost(self, conn):
        if self.buf:
            self.srv.note("partial-request-at-close", n=len(self.buf))


# ---------------------------------------------------------------- KLAP
class KlapServer(ServerBase):
    """KLAP device; ``auth`` is the device's own auth hash."""

    def __init__(self, net, host, port, handler, *, version, auth, cookie=True, timeout=86400,
                 life=None, strict_seq=True, **kw):
        super().__init__(net, host, port, handler, **kw)
        self.version, self.auth, self.cookie, self.timeout = version, auth, cookie, timeout
        self.life = life            # device side life time, None = never expires
        self.strict_seq = strict_seq
        self.lost = 0               # requests that may have been lost on a dead connection
        self.pending = None         # (cookie, local, remote)
        self.sess = None            # dict(cookie, keys, last, at)
        self.http = HttpServer(net, self._app)
        self.must_handshake = False  # set after a 403 / driver request
        net.listen(host, port, self.http)
        self.forget = False

    def drop_session(self):
        """Device reboot: its session is gone (it will answer 403)."""
        self.sess = None

    def _app(self, req):
        if req.method != "POST":
            self.bad("klap-http-method", req.method)
        if req.conn.tls != self.tls:
            self.bad("klap-tls", f"tls={req.conn.tls}, want {self.tls}")
        ck = req.cookies
        if "TIMEOUT" in ck:
            self.bad("klap-timeout-cookie-sent", str(ck))
        if req.path == "/app/handshake1":
            return self._hs1(req)
        if req.path == "/app/handshake2":
            return self._hs2(req)
        if req.path == "/app/request":
            return self._request(req)
        self.bad("klap-path", req.path)
        return Reply(404)

    def _hs1(self, req):
        self.note("handshake1")
        f = self.fault("handshake1")
        if len(req.body) != 16:
            self.bad("klap-hs1-len", f"local seed of {len(req.body)} bytes")
        r = self.http_fault(f)
        if r is not False:
            return r
        remote = self.rng.randbytes(16)
        sid = session_word(self.rng) if self.cookie else None
        self.pending = (sid, req.body, remote)
        hdr = []
        if sid:
            hdr.append(("Set-Cookie", f"TP_SESSIONID={sid}"
                        + (f";TIMEOUT={self.timeout}" if self.timeout is not None else "")))
        body = remote + refs.klap_h1(self.version, req.body, remote, self.auth)
        if f and f[0] == "short":
            body = body[:f[1]]
        if f and f[0] == "foreign":   # hash for other credentials
            body = remote + refs.klap_h1(self.version, req.body, remote, f[1])
        return shape(f, Reply(200, body, hdr))

    def _hs2(self, req):
        self.note("handshake2")
        f = self.fault("handshake2")
        r = self.http_fault(f)
        if r is not False:
            return r
        if not self.pending:
            self.bad("klap-hs2-without-hs1", "")
            return Reply(403)
        sid, local, remote = self.pending
        self.pending = None
        if req.cookies.get("TP_SESSIONID") != sid:
            self.bad("klap-hs2-cookie", f"{req.cookies} != {sid}")
        if req.body != refs.klap_h2(self.version, local, remote, self.auth):
            self.bad("klap-hs2-proof", "handshake2 payload does not prove the credentials")
            return Reply(403)
        keys = refs.KlapKeys(self.version, local, remote, self.auth)
        self.sess = {"cookie": sid, "keys": keys, "last": keys.seq0, "at": self.clock()}
        self.must_handshake = False
        return shape(f, Reply(200, b""))

    def _request(self, req):
        params = dict(p.split("=", 1) for p in req.query.split("&") if "=" in p)
        self.note("request", seq=params.get("seq"))
        if self.must_handshake:
            self.bad("klap-session-used-after-invalidation",
                     "request sent under a session that had to be renegotiated")
        f = self.fault("request")
        s = self.sess
        if s is None:
            return Reply(403)
        if self.life is not None and self.clock() > s["at"] + self.life:
            self.sess = None
            return Reply(403)
        try:
            seq = int(params["seq"])
        except Exception:  # noqa: BLE001
            self.bad("klap-seq-missing", req.query)
            return Reply(400)
        if req.cookies.get("TP_SESSIONID") != s["cookie"]:
            self.bad("klap-request-cookie", f"{req.cookies} != {s['cookie']}")
        if not s["last"] < seq <= s["last"] + 1 + self.lost and (self.strict_seq or seq <= s["last"]):
            self.bad("klap-seq-order", f"seq {seq} after {s['last']}")
        try:
            text = s["keys"].open(seq, req.body).decode()
        except Exception as ex:  # noqa: BLE001
            self.bad("klap-request-unverifiable", f"{type(ex).__name__}: {ex}")
            return Reply(403)
        s["last"] = seq
        r = self.http_fault(f)
        if f and f[0] == "status" and f[1] == 403:
            self.sess = None
        if r is not False:
            if f[0] in ("disconnect-after",):
                self.serve(text)
            return r
        if f and f[0] == "executed-then-drop":
            self.serve(text)
            return Reply(how="disconnect")
        out = self.serve(text)
        if isinstance(out, str):
            out = out.encode()
        body = s["keys"].seal(seq, out)
        if f and f[0] == "wrongseq":
            body = s["keys"].seal(seq + 1, out)
        if f and f[0] == "flip":
            b = bytearray(body)
            b[f[1] % len(b)] ^= 1 << (f[1] % 8)
            body = bytes(b)
        if f and f[0] == "cutbody":
            body = body[:f[1] % (len(body) + 1)]
        return shape(f, Reply(200, body))


# ---------------------------------------------------------------- AES
class AesServer(ServerBase):
    """RSA/AES passthrough device with login_device."""

    def __init__(self, net, host, port, handler, *, accept, login_version=1, timeout=86400,
                 cookie_name="TP_SESSIONID", life=None, **kw):
        super().__init__(net, host, port, handler, **kw)
        self.life = life
        self.accept = accept                  # list of acceptable login params
        self.login_version = login_version
        self.timeout, self.cookie_name = timeout, cookie_name
        self.sess = None                      # dict(cookie, key, iv, token, at)
        self.http = HttpServer(net, self._app)
        self.logins: list = []
        self.pubkeys: list = []
        self.on_rejected = lambda: None
        net.listen(host, port, self.http)
        self.must_handshake = False

    def err(self, code, **extra):
        return Reply(200, json.dumps({"error_code": code, **extra}).encode())

    def _app(self, req):
        if req.path != "/app":
            self.bad("aes-path", req.path)
            return Reply(404)
        if req.conn.tls:
            self.bad("aes-tls", "plain http device contacted over tls")
        if "TIMEOUT" in req.cookies:
            self.bad("aes-timeout-cookie-sent", str(req.cookies))
        try:
            body = json.loads(req.body)
        except Exception as ex:  # noqa: BLE001
            self.bad("aes-body-not-json", f"{ex}")
            return Reply(400)
        m = body.get("method")
        if m == "handshake":
            return self._handshake(req, body)
        if m == "securePassthrough":
            return self._pass(req, body)
        self.bad("aes-method", str(m))
        return self.err(-1002)

    def _handshake(self, req, body):
        self.note("handshake")
        f = self.fault("handshake")
        if req.query:
            self.bad("aes-handshake-with-token", req.query)
        r = self.http_fault(f)
        if r is not False:
            return r
        if f and f[0] == "code":
            return self.err(f[1])
        key, iv = self.rng.randbytes(16), self.rng.randbytes(16)
        try:
            blob = refs.rsa_encrypt_for(body["params"]["key"], key + iv)
            self.pubkeys.append("".join(x for x in body["params"]["key"].split("\n") if "-----" not in x))
        except Exception as ex:  # noqa: BLE001
            self.bad("aes-handshake-key", f"{type(ex).__name__}: {ex}")
            return self.err(-1010)
        sid = session_word(self.rng)
        self.sess = {"cookie": sid, "key": key, "iv": iv, "token": None, "at": self.clock()}
        self.must_handshake = False
        ck = f"{self.cookie_name}={sid}" + (f";TIMEOUT={self.timeout}" if self.timeout is not None else "")
        return shape(f, Reply(200, json.dumps({"error_code": 0, "result": {"key": blob}}).encode(),
                              [("Set-Cookie", ck)]))

    def _pass(self, req, body):
        s = self.sess
        token = dict(p.split("=", 1) for p in req.query.split("&") if "=" in p).get("token")
        if s is None:
            self.note("passthrough-without-session")
            self.fault("lost")
            return self.err(9999)
        if self.must_handshake:
            self.bad("aes-session-used-after-invalidation", "request under an invalidated session")
        if self.life is not None and self.clock() > s["at"] + self.life:
            self.sess = None
            self.fault("lost")
            return self.err(9999)
        if req.cookies.get("TP_SESSIONID") != s["cookie"]:
            self.bad("aes-cookie", f"{req.cookies} != {s['cookie']}")
        try:
            text = refs.cbc_dec(s["key"], s["iv"], base64.b64decode(body["params"]["request"])).decode()
            inner = json.loads(text)
        except Exception as ex:  # noqa: BLE001
            self.bad("aes-request-undecryptable", f"{type(ex).__name__}: {ex}")
            return self.err(-1005)
        if inner.get("method") == "login_device":
            stage = "login"
        else:
            stage = "request"
        self.note(stage, token=token)
        f = self.fault(stage)
        if stage == "login" and token:
            self.bad("aes-login-with-token", token)
        if stage == "request":
            if s["token"] is None:
                self.bad("aes-request-before-login", text[:100])
                return self.err(9999)
            if token != s["token"]:
                self.bad("aes-token", f"{token} != {s['token']}")
                return self.err(9999)
        r = self.http_fault(f)
        if r is not False:
            return r
        if f and f[0] == "code":
            if f[1] in (9999,):
                self.sess = None
            return self.err(f[1])
        if stage == "login":
            p = inner.get("params")
            self.logins.append(p)
            if f and f[0] == "inner":
                out = {"error_code": f[1]}
            elif p in self.accept:
                s["token"] = session_word(self.rng)
                out = {"error_code": 0, "result": {"token": s["token"]}}
            else:
                self.sess = {**s, "token": None}
                out = {"error_code": -1501, "result": {}}
                self.on_rejected()
            out = json.dumps(out)
        elif f and f[0] == "executed-then-drop":
            self.serve(text)
            return Reply(how="disconnect")
        elif f and f[0] == "inner":
            out = json.dumps({"error_code": f[1]})
        else:
            out = self.serve(text)
        if isinstance(out, str):
            out = out.encode()
        if f and f[0] == "plain":
            resp = out.decode("utf-8", "replace")
        else:
            resp = base64.b64encode(refs.cbc_enc(s["key"], s["iv"], out)).decode()
        if f and f[0] == "mangle":
            resp = f[1] if isinstance(f[1], str) else resp[: f[1] % (len(resp) or 1)]
        if f and f[0] == "otherkey":
            resp = base64.b64encode(refs.cbc_enc(b"k" * 16, b"i" * 16, out)).decode()
        return shape(f, Reply(200, json.dumps({"error_code": 0, "result": {"response": resp}}).encode()))


# ---------------------------------------------------------------- camera TLS AES
class CameraServer(ServerBase):
    """Tapo camera. mode: "secure" (confirm sha256/md5) or "plain" (hashed md5 login)."""

    def __init__(self, net, host, port, handler, *, username, password, mode="secure", hashing="sha256",
                 **kw):
        super().__init__(net, host, port, handler, **kw)
        self.username, self.password, self.mode, self.hashing = username, password, mode, hashing
        self.pending: dict = {}      # cnonce -> nonce
        self.sess = None
        self.http = HttpServer(net, self._app)
        self.blocked = None          # seconds left, or None
        self.must_handshake = False
        self.login_bodies: list = []
        self.current: dict = {}      # login parameters being processed
        self.lost, self.strict_seq = 0, True
        net.listen(host, port, self.http)

    def js(self, obj, f=None, status=200):
        return shape(f, Reply(status, json.dumps(obj).encode(), [("Content-Type", "application/json")]))

    def _app(self, req):
        if not req.conn.tls:
            self.bad("cam-no-tls", "camera contacted without TLS")
        try:
            text = req.body.decode()
            body = json.loads(text)
        except Exception as ex:  # noqa: BLE001
            self.bad("cam-body-not-json", str(ex))
            return Reply(400)
        m = body.get("method")
        if req.path == "/":
            if m == "login":
                return self._login(req, body)
            self.bad("cam-method-at-root", str(m))
            return self.js({"error_code": -40401})
        if req.path.startswith("/stok=") and req.path.endswith("/ds"):
            stok = req.path[len("/stok="):-3]
            return self._ds(req, body, text, stok, m)
        self.bad("cam-path", req.path)
        return Reply(404)

    def _login(self, req, body):
        p = body.get("params", {})
        self.login_bodies.append(p)
        self.current = p
        if p.get("hashed"):
            return self._plain_login(p)
        if "digest_passwd" in p:
            return self._hs2(p)
        self.note("handshake1", user=p.get("username"))
        f = self.fault("handshake1")
        r = self.http_fault(f)
        if r is not False:
            return r
        if f and f[0] == "json":
            return self.js(f[1])
        if p.get("encrypt_type") != "3" or not p.get("cnonce"):
            self.bad("cam-hs1-params", str(p))
        if self.blocked is not None:
            return self.js({"error_code": -40401, "data": {"code": -40404, "sec_left": self.blocked}})
        if p.get("username") != self.username:
            if self.mode == "plain":
                return self.js({"error_code": -40401, "result": {"data": {
                    "code": -40411, "encrypt_type": ["1", "2"], "key": "k", "nonce": "Zz"}}})
            return self.js({"error_code": -40401, "result": {"data": {"code": -60502}}})
        if self.mode == "plain":
            return self.js({"error_code": -40401, "result": {"data": {
                "code": -40401, "time": 9, "max_time": 10, "sec_left": 0, "encrypt_type": ["1", "2"],
                "key": "k", "nonce": "Zz"}}})
        nonce = HEX(self.rng.randbytes(8))
        self.pending[p["cnonce"]] = nonce
        confirm = refs.cam_confirm(p["cnonce"], nonce, refs.cam_pwd_hash(self.hashing, self.password))
        if f and f[0] == "badconfirm":
            confirm = refs.cam_confirm(p["cnonce"], nonce, refs.cam_pwd_hash(self.hashing, f[1]))
        return self.js({"error_code": -40413, "result": {"data": {
            "code": -40413, "encrypt_type": ["3"], "key": "k", "nonce": nonce,
            "device_confirm": confirm}}}, f)

    def _hs2(self, p):
        self.note("handshake2", user=p.get("username"))
        f = self.fault("handshake2")
        r = self.http_fault(f)
        if r is not False:
            return r
        if f and f[0] == "json":
            return self.js(f[1])
        cn = p.get("cnonce")
        nonce = self.pending.pop(cn, None)
        h = refs.cam_pwd_hash(self.hashing, self.password)
        if nonce is None:
            self.bad("cam-hs2-nonce", f"cnonce {cn} was not used in handshake1")
            return self.js({"error_code": -40413, "result": {"data": {"code": -40401, "nonce": "AA"}}})
        if p.get("username") != self.username or p.get("encrypt_type") != "3":
            self.bad("cam-hs2-params", str({k: p.get(k) for k in ("username", "encrypt_type")}))
        if p.get("digest_passwd") != refs.cam_digest(cn, nonce, h) or (f and f[0] == "reject"):
            if not f:
                self.bad("cam-hs2-digest", "password digest is not valid for the device's password")
            return self.js({"error_code": -40413, "result": {"data": {
                "code": -40401, "encrypt_type": ["3"], "key": "k", "nonce": nonce, "device_confirm": ""}}})
        lsk, ivb = refs.cam_keys(cn, nonce, h)
        start = self.rng.choice([1, 100, 100, 2 ** 31 - 3, self.rng.randrange(1, 100000)])
        self.sess = {"stok": session_word(self.rng), "key": lsk, "iv": ivb, "next": start,
                     "cnonce": cn, "hash": h}
        self.must_handshake = False
        return self.js({"error_code": 0, "result": {"stok": self.sess["stok"], "user_group": "root",
                                                   "start_seq": start}}, f)

    def _plain_login(self, p):
        self.note("plainlogin", user=p.get("username"))
        f = self.fault("plainlogin")
        r = self.http_fault(f)
        if r is not False:
            return r
        if self.mode != "plain":
            self.bad("cam-plain-login-on-secure-device",
                     "the password hash was sent although the device asked for the nonce login")
        if p.get("username") != self.username or p.get("password") != refs.cam_pwd_hash("md5", self.password) \
                or (f and f[0] == "reject"):
            return self.js({"error_code": -40401, "result": {"data": {
                "code": -40401, "time": 8, "max_time": 10, "encrypt_type": ["1", "2"]}}})
        self.sess = {"stok": session_word(self.rng), "plain": True}
        self.must_handshake = False
        return self.js({"error_code": 0, "result": {"stok": self.sess["stok"], "user_group": "root"}}, f)

    def _ds(self, req, body, text, stok, m):
        self.note("request", stok=stok[:6], seq=req.headers.get("seq"))
        if self.must_handshake:
            self.bad("cam-session-used-after-invalidation", "request under an invalidated session")
        f = self.fault("request")
        s = self.sess
        if s is None or stok != s["stok"]:
            if s is not None:
                self.bad("cam-stok", f"{stok} is not the current session {s['stok']}")
            return Reply(500, b"")
        if s.get("plain"):
            if m == "securePassthrough":
                self.bad("cam-secure-on-plain", "encrypted message sent to a plain session")
                return self.js({"error_code": -40401})
            r = self.http_fault(f)
            if r is not False:
                return r
            if f and f[0] in ("code", "inner"):
                return self.js({"error_code": f[1]})
            if f and f[0] == "executed-then-drop":
                self.serve(text)
                return Reply(how="disconnect")
            out = self.serve(text)
            return shape(f, Reply(200, out.encode() if isinstance(out, str) else out))
        if m != "securePassthrough":
            self.bad("cam-not-encrypted", f"plain method {m} sent in a secure session")
            return self.js({"error_code": -40401})
        seq = req.headers.get("seq")
        try:
            n = int(seq)
        except (TypeError, ValueError):
            n = -1
        if n < s["next"] or (self.strict_seq and n > s["next"] + self.lost):
            self.bad("cam-seq", f"Seq {seq}, device expects {s['next']}")
            return Reply(500, b"")
        if req.headers.get("tapo_tag") != refs.cam_tag(text, s["cnonce"], s["hash"], seq):
            self.bad("cam-tag", "Tapo_tag does not verify")
            return Reply(500, b"")
        s["next"] = n + 1
        try:
            inner = refs.cbc_dec(s["key"], s["iv"], base64.b64decode(body["params"]["request"])).decode()
        except Exception as ex:  # noqa: BLE001
            self.bad("cam-request-undecryptable", str(ex))
            return self.js({"error_code": -1005})
        r = self.http_fault(f)
        if f and f[0] == "status" and f[1] == 500:
            self.sess = None
        if r is not False:
            return r
        if f and f[0] == "code":
            return self.js({"error_code": f[1]})
        if f and f[0] == "executed-then-drop":
            self.serve(inner)
            return Reply(how="disconnect")
        out = self.serve(inner) if not (f and f[0] == "inner") else ""
        if isinstance(out, str):
            out = out.encode()
        if f and f[0] == "inner":
            out = json.dumps({"error_code": f[1]}).encode()
        if f and f[0] == "unenc-root":
            return shape(f, Reply(200, out))
        if f and f[0] == "plain":
            resp = out.decode("utf-8", "replace")
        else:
            resp = base64.b64encode(refs.cbc_enc(s["key"], s["iv"], out)).decode()
        if f and f[0] == "mangle":
            resp = f[1] if isinstance(f[1], str) else resp[: f[1] % (len(resp) or 1)]
        return self.js({"error_code": 0, "seq": int(seq), "result": {"response": resp}}, f)


# ---------------------------------------------------------------- vacuum token
class TokenServer(ServerBase):
    """Plain HTTPS + token device (robot vacuum)."""

    def __init__(self, net, host, port, handler, *, accept, **kw):
        super().__init__(net, host, port, handler, **kw)
        self.accept = accept                      # list of (user, md5 password)
        self.token = None
        self.http = HttpServer(net, self._app)
        self.logins: list = []
        self.must_login = False
        self.lost_token = False
        self.issued: set = set()
        self.on_rejected = lambda: None
        net.listen(host, port, self.http)

    def js(self, obj, f=None):
        return shape(f, Reply(200, json.dumps(obj).encode(), [("Content-Type", "application/json")]))

    def _app(self, req):
        if not req.conn.tls:
            self.bad("tok-no-tls", "device contacted without TLS")
        if req.path != "/app":
            self.bad("tok-path", req.path)
            return Reply(404)
        try:
            text = req.body.decode()
            body = json.loads(text)
        except Exception as ex:  # noqa: BLE001
            self.bad("tok-body", str(ex))
            return Reply(400)
        token = dict(p.split("=", 1) for p in req.query.split("&") if "=" in p).get("token")
        if body.get("method") == "login":
            self.note("login")
            f = self.fault("login")
            if token and token not in self.issued:
                self.bad("tok-login-with-token", token)
            p = body.get("params", {})
            self.logins.append(p)
            r = self.http_fault(f)
            if r is not False:
                return r
            if f and f[0] == "code":
                return self.js({"error_code": f[1]})
            if (p.get("username"), p.get("password")) not in self.accept:
                self.on_rejected()
                return self.js({"error_code": -1501, "result": {"unknown": 1}})
            self.lost_token = False
            self.token = session_word(self.rng)
            self.issued.add(self.token)
            self.must_login = False
            return self.js({"error_code": 0, "result": {"token": self.token}}, f)
        self.note("request", token=token)
        if self.must_login:
            self.bad("tok-session-used-after-invalidation", "request without a new login")
        f = self.fault("request")
        if self.lost_token:
            return self.js({"error_code": 9999})
        if self.token is None or token != self.token:
            self.bad("tok-token", f"{token} != {self.token}")
            return self.js({"error_code": 9999})
        r = self.http_fault(f)
        if r is not False:
            return r
        if f and f[0] == "code":
            return self.js({"error_code": f[1]})
        if f and f[0] == "executed-then-drop":
            self.serve(text)
            return Reply(how="disconnect")
        out = self.serve(text)
        return shape(f, Reply(200, out.encode() if isinstance(out, str) else out))


# ---------------------------------------------------------------- Kasa cam
class LinkieServer(ServerBase):
    """Kasa camera: url-encoded base64 of XOR text over https basic auth."""

    def __init__(self, net, host, port, handler, **kw):
        super().__init__(net, host, port, handler, **kw)
        self.http = HttpServer(net, self._app)
        net.listen(host, port, self.http)

    def _app(self, req):
        from urllib.parse import unquote
        if not req.conn.tls:
            self.bad("linkie-no-tls", "")
        if req.path != "/data/LINKIE2.json":
            self.bad("linkie-path", req.path)
        user, pw = refs.DEFAULTS["KASACAMERA"]
        want = "Basic " + base64.b64encode(f"{user}:{pw}".encode()).decode()
        if req.headers.get("authorization") != want:
            self.bad("linkie-auth", str(req.headers.get("authorization")))
        self.note("request")
        f = self.fault("request")
        body = req.body.decode()
        try:
            assert body.startswith("content="), body[:30]
            val = body[len("content="):]
            assert not set(val) & set("+/= &"), "reserved character not url-encoded"
            text = refs.xor_wire_to_plain(base64.b64decode(unquote(val), validate=True)).decode()
        except Exception as ex:  # noqa: BLE001
            self.bad("linkie-request-undecodable", f"{type(ex).__name__}: {ex}")
            return Reply(400)
        r = self.http_fault(f)
        if r is not False:
            return r
        if f and f[0] == "plainerr":
            return Reply(200, json.dumps(f[1]).encode())
        out = self.serve(text)
        if isinstance(out, str):
            out = out.encode()
        return shape(f, Reply(200, base64.b64encode(refs.xor_plain_to_wire(out))))
