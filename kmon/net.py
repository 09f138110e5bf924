"""In-memory TCP / UDP / HTTP network under the virtual loop.

Everything kasa does reaches these objects through standard library / aiohttp
calls (``asyncio.open_connection``, ``loop.create_datagram_endpoint``, a real
``aiohttp.ClientSession`` whose connector ends in ``loop.create_connection``), so
the bytes on the wire are observed without touching the code under test.
"""
from __future__ import annotations

import asyncio
import errno
import inspect
import socket as _socket
import weakref

import aiohappyeyeballs
import aiohttp
import aiohttp.connector


class FakeSocket:
    """The few socket calls used by asyncio/aiohttp/kasa."""

    family = _socket.AF_INET
    type = _socket.SOCK_STREAM
    proto = 6

    def __init__(self, addr=None):
        self.addr = addr
        self.opts = []

    def setsockopt(self, *a):
        self.opts.append(a)

    def getsockname(self):
        return ("127.0.0.1", 40000)

    def getpeername(self):
        return self.addr

    def fileno(self):
        return -1

    def close(self):
        pass


class MemTransport(asyncio.Transport):
    """Client end of an in-memory TCP connection."""

    def __init__(self, loop, conn, protocol, tls):
        super().__init__()
        self._loop, self.conn, self._protocol = loop, conn, protocol
        self._closing = False
        self._lost = False
        self._paused = False
        self._buf: list = []
        self._extra = {"socket": FakeSocket((conn.host, conn.port)),
                       "peername": (conn.host, conn.port), "sockname": ("127.0.0.1", 40000)}
        if tls:
            self._extra["sslcontext"] = True
            self._extra["ssl_object"] = None

    # -- asyncio transport API ---------------------------------------
    def get_extra_info(self, name, default=None):
        return self._extra.get(name, default)

    def is_closing(self):
        return self._closing

    def get_protocol(self):
        return self._protocol

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_limits(self):
        return (0, 0)

    def can_write_eof(self):
        return False

    def is_reading(self):
        return not self._paused and not self._closing

    def pause_reading(self):
        self._paused = True

    def resume_reading(self):
        self._paused = False
        if self._buf:
            self._loop.call_soon(self._flush)

    def writelines(self, list_of_data):
        self.write(b"".join(bytes(x) for x in list_of_data))

    def write(self, data):
        if self._closing or self._lost:
            return
        data = bytes(data)
        if not data:
            return
        self.conn.client_bytes += len(data)
        err = self.conn.next_write_error
        if err is not None:
            self.conn.next_write_error = None
            self._drop(err)
            return
        self._loop.call_soon(self.conn._from_client, data)

    def close(self):
        if self._closing:
            return
        self._closing = True
        self._loop.call_soon(self._call_lost, None)

    def abort(self):
        self.close()

    def _drop(self, exc):
        if self._lost:
            return
        self._closing = True
        self._loop.call_soon(self._call_lost, exc)

    def _call_lost(self, exc):
        if self._lost:
            return
        self._lost = True
        self._buf.clear()
        self.conn._client_closed(exc)
        self._protocol.connection_lost(exc)

    # -- server side delivery ----------------------------------------
    def _deliver(self, item):
        if self._closing or self._lost:
            return
        self._buf.append(item)
        self._flush()

    def _flush(self):
        while self._buf and not self._paused and not self._closing:
            item = self._buf.pop(0)
            if item is EOF:
                keep = self._protocol.eof_received()
                if not keep:
                    self.close()
                return
            if isinstance(item, BaseException):
                self._drop(item)
                return
            self._protocol.data_received(item)


class _Eof:
    pass


EOF = _Eof()


class Conn:
    """Server end of one connection."""

    def __init__(self, net, loop, host, port, tls, serial):
        self.net, self.loop = net, loop
        self.host, self.port, self.tls, self.serial = host, port, tls, serial
        self.opened_at = loop.time()
        self.closed_at = None
        self.closed_by = None
        self.client_bytes = 0
        self.next_write_error = None
        self.handler = None
        self.transport: MemTransport | None = None
        self._seq_at = 0.0
        self.server_closed = False

    @property
    def open(self):
        return self.closed_at is None

    def _from_client(self, data):
        if self.open and self.server_closed:
            self.net.log("write-after-server-close", self.serial)
            if self.net.on_dead_write:
                self.net.on_dead_write(self)
            self._schedule(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"), 0.0)
        elif self.open and self.handler is not None:
            self.handler.data_received(self, data)

    def _client_closed(self, exc):
        if self.closed_at is None:
            self.closed_at = self.loop.time()
            self.closed_by = self.closed_by or "client"
            self.net.log("tcp-closed", self.serial, self.closed_by)
            cb = getattr(self.handler, "connection_lost", None)
            if cb:
                cb(self)

    def send(self, data, delay=0.0):
        """Deliver bytes to the client in order, delay seconds after the previous item."""
        self._schedule(bytes(data), delay)

    def send_eof(self, delay=0.0):
        self._schedule(EOF, delay)

    def send_reset(self, delay=0.0, exc=None):
        self._schedule(exc or ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"), delay)

    def _schedule(self, item, delay):
        at = max(self._seq_at, self.loop.time()) + delay
        self._seq_at = at
        if not isinstance(item, bytes):
            self.closed_by = self.closed_by or "server"
            self.server_closed = True
        if at <= self.loop.time():
            self.loop.call_soon(self.transport._deliver, item)
        else:
            self.loop.call_at(at, self.transport._deliver, item)


class Hang:
    """Connect policy: never completes."""


class Net:
    """The network: registered TCP listeners, UDP responders, accounting."""

    def __init__(self, case=None):
        self.case = case
        self.listeners: dict = {}
        self.conns: list[Conn] = []
        self.udp: list = []
        self.sessions: list = []
        self.connect_log: list = []
        self.udp_responder = None
        self.udp_open_error = None
        self.default_connect = ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        self.pending_connects = 0
        self.on_dead_write = None
        self.history: list = []
        _CURRENT[0] = weakref.ref(self)

    def log(self, *a):
        self.history.append(a)
        if self.case is not None:
            self.case.event(*a)

    def listen(self, host, port, handler_factory, connect_policy=None):
        """handler_factory(conn)->handler; connect_policy(n)->None|exc|Hang|delay."""
        self.listeners[(host, port)] = (handler_factory, connect_policy)

    async def connect_tcp(self, loop, protocol_factory, host, port, tls=False):
        n = len(self.connect_log)
        self.connect_log.append((loop.time(), host, port, tls))
        self.log("tcp-connect", n, host, port, tls)
        ent = self.listeners.get((host, port))
        if ent is None:
            await asyncio.sleep(0)
            raise self._fresh(self.default_connect)
        factory, policy = ent
        act = policy(n) if policy else None
        self.pending_connects += 1
        try:
            if act is Hang:
                await loop.create_future_forever() if hasattr(loop, "create_future_forever") \
                    else await asyncio.sleep(10_000_000)
            elif isinstance(act, (int, float)) and not isinstance(act, bool):
                await asyncio.sleep(act)
            else:
                await asyncio.sleep(0)
                if isinstance(act, BaseException):
                    raise self._fresh(act)
        finally:
            self.pending_connects -= 1
        conn = Conn(self, loop, host, port, tls, len(self.conns))
        protocol = protocol_factory()
        conn.transport = MemTransport(loop, conn, protocol, tls)
        conn.handler = factory(conn)
        self.conns.append(conn)
        self.log("tcp-open", conn.serial)
        protocol.connection_made(conn.transport)
        cb = getattr(conn.handler, "connection_made", None)
        if cb:
            cb(conn)
        return conn.transport, protocol

    @staticmethod
    def _fresh(exc):
        new = type(exc)(*exc.args)
        return new

    async def open_udp(self, loop, protocol_factory, local_addr, kw):
        await asyncio.sleep(0)
        if self.udp_open_error:
            raise self._fresh(self.udp_open_error)
        protocol = protocol_factory()
        tr = UdpTransport(loop, self, protocol)
        self.udp.append(tr)
        self.log("udp-open", len(self.udp))
        loop.call_soon(protocol.connection_made, tr)
        try:
            await asyncio.sleep(0)
        except asyncio.CancelledError:   # as the standard library does
            tr.close()
            raise
        return tr, protocol

    # -- accounting ---------------------------------------------------
    def open_conns(self):
        return [c for c in self.conns if c.open and not c.transport.is_closing()]

    def open_udp_endpoints(self):
        return [u for u in self.udp if not u.closed]

    def open_sessions(self):
        return [s for s in self.sessions if not s.closed]


class UdpTransport(asyncio.DatagramTransport):
    """In-memory datagram endpoint."""

    def __init__(self, loop, net, protocol):
        super().__init__()
        self._loop, self.net, self.protocol = loop, net, protocol
        self.closed = False
        self.sent: list = []
        self._extra = {"socket": FakeSocket(), "sockname": ("0.0.0.0", 45678)}

    def get_extra_info(self, name, default=None):
        return self._extra.get(name, default)

    def sendto(self, data, addr=None):
        if self.closed:
            return
        self.sent.append((self._loop.time(), bytes(data), addr))
        self.net.log("udp-send", addr, len(data))
        if self.net.udp_responder:
            self.net.udp_responder(self, bytes(data), addr)

    def inject(self, data, addr, delay=0.0):
        self._loop.call_later(delay, self._deliver, data, addr)

    def inject_error(self, exc, delay=0.0):
        self._loop.call_later(delay, self._err, exc)

    def _deliver(self, data, addr):
        if not self.closed:
            self.protocol.datagram_received(data, addr)

    def _err(self, exc):
        if not self.closed:
            self.protocol.error_received(exc)

    def is_closing(self):
        return self.closed

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.log("udp-closed")
            self._loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()


# ---------------------------------------------------------------- HTTP
_CURRENT: list = [None]


def _current():
    return _CURRENT[0]() if _CURRENT[0] else None


async def _start_connection(addr_infos, *, local_addr_infos=None, happy_eyeballs_delay=None,
                            interleave=None, loop=None, **kw):
    return FakeSocket(addr_infos[0][4][:2])


def install():
    """Route aiohttp's sockets into the virtual loop (before kasa is imported)."""
    import random
    import secrets
    secrets.token_bytes = lambda n=32: random.randbytes(n)  # reseeded per case: replayable
    aiohappyeyeballs.start_connection = _start_connection
    orig = aiohttp.ClientSession.__init__

    def init(self, *a, **kw):
        orig(self, *a, **kw)
        net = _current()
        if net is not None:
            net.sessions.append(self)

    init.__signature__ = inspect.signature(orig)
    aiohttp.ClientSession.__init__ = init


class Request:
    """One parsed HTTP request."""

    def __init__(self, method, path, query, headers, body, conn, n):
        self.method, self.path, self.query = method, path, query
        self.headers, self.body, self.conn, self.n = headers, body, conn, n

    @property
    def cookies(self):
        out = {}
        for part in self.headers.get("cookie", "").split(";"):
            if "=" in part:
                k, v = part.strip().split("=", 1)
                out[k] = v
        return out


class Reply:
    """What to answer; ``how`` may disturb delivery."""

    def __init__(self, status=200, body=b"", headers=None, *, delay=0.0, how="normal",
                 cuts=None, gap=0.0, chunked=False):
        self.status, self.body, self.headers = status, body, list(headers or [])
        self.delay, self.how, self.cuts, self.gap, self.chunked = delay, how, cuts, gap, chunked


class HttpServer:
    """Tiny HTTP/1.1 server; ``app(request) -> Reply | None`` (None = never answer)."""

    def __init__(self, net, app):
        self.net, self.app = net, app
        self.requests: list[Request] = []
        self.in_flight = 0
        self.max_in_flight = 0

    def __call__(self, conn):
        return _HttpConn(self)


class _HttpConn:
    def __init__(self, server):
        self.server = server
        self.buf = b""

    def data_received(self, conn, data):
        self.buf += data
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                return
            head = self.buf[:i].decode("latin1").split("\r\n")
            method, target, _ = head[0].split(" ", 2)
            headers = {}
            for line in head[1:]:
                k, v = line.split(":", 1)
                headers[k.strip().lower()] = v.strip()
            rest = self.buf[i + 4:]
            if headers.get("transfer-encoding", "").lower() == "chunked":
                body = b""
                while True:
                    j = rest.find(b"\r\n")
                    if j < 0:
                        return
                    n = int(rest[:j], 16)
                    if len(rest) < j + 2 + n + 2:
                        return
                    body += rest[j + 2:j + 2 + n]
                    rest = rest[j + 2 + n + 2:]
                    if n == 0:
                        break
            else:
                n = int(headers.get("content-length", "0") or 0)
                if len(rest) < n:
                    return
                body, rest = rest[:n], rest[n:]
            self.buf = rest
            path, _, query = target.partition("?")
            req = Request(method, path, query, headers, body, conn, len(self.server.requests))
            self.server.requests.append(req)
            self.answer(conn, req)

    def answer(self, conn, req):
        r = self.server.app(req)
        if r is None:
            return
        hdrs = [("Content-Type", "application/octet-stream")] if not any(
            h[0].lower() == "content-type" for h in r.headers) else []
        hdrs += r.headers
        if r.chunked:
            body = b"".join(b"%x\r\n%s\r\n" % (len(c), c) for c in
                            [r.body[i:i + 700] for i in range(0, len(r.body), 700)] if c) + b"0\r\n\r\n"
            hdrs.append(("Transfer-Encoding", "chunked"))
        else:
            body = r.body
            hdrs.append(("Content-Length", str(len(body))))
        if r.how == "close-after":
            hdrs.append(("Connection", "close"))
        raw = (f"HTTP/1.1 {r.status} X\r\n" + "".join(f"{k}: {v}\r\n" for k, v in hdrs)
               + "\r\n").encode("latin1") + body
        if r.how == "disconnect":
            conn.send_eof(r.delay)
            return
        if r.how == "reset":
            conn.send_reset(r.delay)
            return
        if r.how == "garbage":
            conn.send(r.body, r.delay)
            conn.send_eof()
            return
        if r.how == "partial":  # cut inside
            cut = max(1, (len(raw) * 2) // 3) if not r.cuts else r.cuts[0]
            conn.send(raw[:cut], r.delay)
            conn.send_eof(0.001)
            return
        if r.how == "stall":
            conn.send(raw[:max(1, len(raw) - 3)], r.delay)
            return
        if r.cuts:
            prev = 0
            first = True
            for c in [*sorted(c for c in r.cuts if 0 < c < len(raw)), len(raw)]:
                if c > prev:
                    conn.send(raw[prev:c], r.delay if first else r.gap)
                    first = False
                    prev = c
        else:
            conn.send(raw, r.delay)
        if r.how in ("close-after", "silent-close"):
            # silent-close: device closes without announcing it
            conn.send_eof(0.0 if r.how == "close-after" else 0.01)
