PROPERTY = "C19"
NEEDS = "an IOT bulb turned on with a transition and nothing else"
BREAKS = "Turning on with a transition does not restore the light's previous state."
EDITS = [("iot/iotbulb.py", """NON_COLOR_MODE_FLAGS = {"transition_period", "on_off"}""", """NON_COLOR_MODE_FLAGS = {"transition", "on_off"}""")]
# --- demo
import asyncio

from kasa import DeviceConfig
from kasa.iot import IotBulb
from kasa.transports import XorTransport
from kasa.protocols import IotProtocol

sent = []


class P(IotProtocol):
    async def query(self, request, retry_count=3):
        sent.append(request)
        return {k: {m: {"err_code": 0} for m in v} for k, v in request.items()}


async def main():
    cfg = DeviceConfig("127.0.0.1")
    dev = IotBulb("127.0.0.1", config=cfg, protocol=P(transport=XorTransport(config=cfg)))
    await dev.turn_on(transition=1000)
    state = sent[-1][dev.LIGHT_SERVICE][dev.SET_LIGHT_METHOD]
    assert state == {"on_off": 1, "transition_period": 1000, "ignore_default": 0}, state


asyncio.run(main())
