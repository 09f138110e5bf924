"""Control what ``datetime.now`` says inside the library, without touching anything else in the process.

``install()`` replaces the datetime class (and the datetime module) in the namespaces of the loaded ``kasa`` modules by stand-ins whose
``now``/``today``/``utcnow`` follow ``NOW`` while it is set; everything they construct is an ordinary ``datetime.datetime``.
"""
from __future__ import annotations

import contextlib
import datetime as _dt
import sys
import types

REAL = _dt.datetime
NOW = None                  # aware datetime, or None for the real clock


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL)


class Clock(REAL, metaclass=_Meta):
    def __new__(cls, *a, **kw):
        return REAL(*a, **kw)

    @classmethod
    def now(cls, tz=None):
        if NOW is None:
            return REAL.now(tz)
        return NOW.astimezone(tz) if tz is not None else NOW.astimezone().replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)


class ClockDate(_dt.date, metaclass=type("_M2", (type,), {"__instancecheck__": lambda c, o: isinstance(o, _dt.date),
                                                         "__subclasscheck__": lambda c, s: issubclass(s, _dt.date)})):
    def __new__(cls, *a, **kw):
        return _dt.date(*a, **kw)

    @classmethod
    def today(cls):
        return Clock.now().date()


_MODULE = types.ModuleType("datetime")
_MODULE.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith("__")})
_MODULE.datetime, _MODULE.date = Clock, ClockDate
_REAL_DATE = _dt.date


def install():
    for name, mod in list(sys.modules.items()):
        if (name == "kasa" or name.startswith("kasa.")) and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is REAL:
                    setattr(mod, k, Clock)
                elif v is _REAL_DATE:
                    setattr(mod, k, ClockDate)
                elif v is _dt:
                    setattr(mod, k, _MODULE)


def set_now(when):
    global NOW
    NOW = when


@contextlib.contextmanager
def at(when):
    global NOW
    keep, NOW = NOW, when
    try:
        yield
    finally:
        NOW = keep
