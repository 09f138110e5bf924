PROPERTY = "C22"
NEEDS = "a naive time set on the other side of a daylight saving change"
BREAKS = "The offset sent with a naive time is the current one instead of the one at that time."
EDITS = [("smart/modules/time.py", """            utc_offset = cast(timedelta, self.timezone.utcoffset(dt))
""", """            utc_offset = cast(timedelta, self.time.utcoffset())
""")]
# --- demo
import asyncio
import datetime
from unittest.mock import AsyncMock, Mock
from zoneinfo import ZoneInfo

from kasa.smart.modules import Time


async def main():
    dev = Mock()
    dev._parent = None
    dev._last_update = {"get_device_time": {"timestamp": 1736900000, "time_diff": 60, "region": "Europe/Berlin"}}
    m = Time(dev, "time")
    m._timezone = ZoneInfo("Europe/Berlin")
    m.call = AsyncMock()
    await m.set_time(datetime.datetime(2025, 7, 1, 12))
    p = m.call.call_args[0][1]
    assert p["time_diff"] == 120 and p["timestamp"] == 1751364000, p


asyncio.run(main())
