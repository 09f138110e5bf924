"""Deterministic asyncio event loop on a virtual clock, with an in-memory network.

* Time only moves when nothing is runnable, straight to the next timer.
* ``time.time``/``time.monotonic`` follow the virtual clock while a loop is active
  (installed before kasa is imported, so that every import style sees it).
* ``create_connection`` / ``create_datagram_endpoint`` are served by an in-memory
  network object (``loop.net``), so every byte kasa sends is observed below the
  standard library API that kasa uses.
* A loop with nothing runnable and no timer is a deadlock: Deadlock is raised.
* A loop that spins through more than ``max_steps`` iterations is a livelock.
"""
from __future__ import annotations

import asyncio
import random
import selectors
import time as _time

REAL_MONOTONIC = _time.monotonic
REAL_TIME = _time.time
REAL_SLEEP = _time.sleep
_ACTIVE: list["VLoop"] = []

EPOCH = 1_700_000_000.0  # virtual wall clock at loop time 0 (2023-11-14T22:13:20Z)


def _v_monotonic() -> float:
    return _ACTIVE[-1].vtime if _ACTIVE else REAL_MONOTONIC()


def _v_time() -> float:
    return _ACTIVE[-1].epoch + _ACTIVE[-1].vtime if _ACTIVE else REAL_TIME()


def install_clock() -> None:
    """Patch the time module; call before importing kasa."""
    _time.monotonic = _v_monotonic
    _time.time = _v_time
    _time.perf_counter_real = _time.perf_counter


class Deadlock(Exception):
    """Nothing is runnable and no timer is pending: the operation never ends."""


class Livelock(Exception):
    """The loop ran an absurd number of iterations without finishing."""


class _VSelector(selectors.BaseSelector):
    """Selector that never waits; it moves the virtual clock instead."""

    def __init__(self, loop_ref):
        self._inner = selectors.DefaultSelector()
        self._loop_ref = loop_ref

    def register(self, fileobj, events, data=None):
        return self._inner.register(fileobj, events, data)

    def unregister(self, fileobj):
        return self._inner.unregister(fileobj)

    def modify(self, fileobj, events, data=None):
        return self._inner.modify(fileobj, events, data)

    def select(self, timeout=None):
        loop = self._loop_ref[0]
        ready = self._inner.select(0)
        loop.steps += 1
        if loop.step_hook is not None and loop.step_hook(loop.steps):
            return ready              # something was scheduled just now
        if loop.steps > loop.max_steps:
            loop.steps = -10_000_000  # let the cleanup run
            raise Livelock(f"more than {loop.max_steps} loop iterations")
        if ready or timeout == 0:
            return ready
        if timeout is None:
            if loop.draining:
                raise Deadlock("nothing runnable while draining")
            raise Deadlock("nothing runnable and no timer pending")
        loop.vtime += timeout + 1e-9 * 0
        return ready

    def close(self):
        self._inner.close()

    def get_map(self):
        return self._inner.get_map()

    def get_key(self, fileobj):
        return self._inner.get_key(fileobj)


class VLoop(asyncio.SelectorEventLoop):
    """Virtual time event loop."""

    def __init__(self, *, net=None, start: float = 1000.0, max_steps: int = 400_000,
                 epoch: float = EPOCH):
        self.vtime = start
        self.epoch = epoch - start
        self.steps = 0
        self.max_steps = max_steps
        self.draining = False
        self.step_hook = None
        self.unhandled: list[dict] = []
        self.net = net
        ref = [None]
        super().__init__(_VSelector(ref))
        ref[0] = self
        self._clock_resolution = 1e-9
        self.set_exception_handler(self._on_unhandled)

    def _on_unhandled(self, loop, context):
        self.unhandled.append(context)

    def time(self):
        return self.vtime

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            res = func(*args)
        except BaseException as ex:  # noqa: BLE001
            fut.set_exception(ex)
        else:
            fut.set_result(res)
        return fut

    async def getaddrinfo(self, host, port, **kw):  # no resolver
        import socket
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (host, port or 0))]

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        if self.net is None:
            raise OSError(101, "network unreachable (no in-memory network)")
        sock = kw.get("sock")
        if sock is not None:  # aiohttp: the address was chosen by the (patched) happy eyeballs
            host, port = sock.addr
        return await self.net.connect_tcp(self, protocol_factory, host, port, bool(kw.get("ssl")))

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None,
                                       remote_addr=None, **kw):
        if self.net is None:
            raise OSError(101, "network unreachable (no in-memory network)")
        return await self.net.open_udp(self, protocol_factory, local_addr, kw)


class Run:
    """Result of running a coroutine on a virtual loop."""

    def __init__(self):
        self.result = None
        self.exc: BaseException | None = None
        self.leftover_tasks: list[str] = []
        self.unhandled: list[dict] = []
        self.vtime = 0.0
        self.steps = 0


def vrun(coro_factory, *, net=None, start=1000.0, max_steps=400_000, epoch=EPOCH,
         settle=True):
    """Run ``await coro_factory(loop)`` to completion on a fresh virtual loop."""
    loop = VLoop(net=net, start=start, max_steps=max_steps, epoch=epoch)
    out = Run()
    _ACTIVE.append(loop)
    asyncio.set_event_loop(loop)
    try:
        task = loop.create_task(coro_factory(loop))
        try:
            out.result = loop.run_until_complete(task)
        except (Deadlock, Livelock) as ex:
            out.exc = ex
            loop.draining = True
        except BaseException as ex:  # noqa: BLE001
            out.exc = ex
        # cancel leftovers
        loop.steps = 0
        rest = [t for t in asyncio.all_tasks(loop) if not t.done()]
        out.leftover_tasks = [repr(t.get_coro()) for t in rest if t is not task]
        for t in rest:
            t.cancel()
        if rest:
            try:
                loop.run_until_complete(asyncio.wait_for(
                    asyncio.gather(*rest, return_exceptions=True), 1e6))
            except BaseException:  # noqa: BLE001
                pass
        try:
            loop.run_until_complete(loop.shutdown_asyncgens())
        except BaseException:  # noqa: BLE001
            pass
        out.unhandled = list(loop.unhandled)
        out.vtime = loop.vtime
        out.steps = loop.steps
    finally:
        asyncio.set_event_loop(None)
        try:
            loop.close()
        finally:
            _ACTIVE.pop()
    return out
