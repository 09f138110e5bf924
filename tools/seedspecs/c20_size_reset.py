PROPERTY = "C20"
NEEDS = "a device whose answer limit is reached more than once in one update (bulbs)"
BREAKS = "The part that starts a new request is not counted, so later requests exceed what the device can answer."
EDITS = [("iot/iotdevice.py", """                req = {}
                est_response_size = module.estimated_query_response_size
""", """                req = {}
                est_response_size = 0
""")]
# --- demo
import asyncio

from kasa import DeviceConfig
from kasa.iot import IotBulb
from kasa.iot.iotmodule import IotModule
from kasa.protocols import IotProtocol
from kasa.transports import XorTransport

sent = []


class P(IotProtocol):
    async def query(self, request, retry_count=3):
        sent.append(sorted(request))
        return {k: {m: {"err_code": 0} for m in v} for k, v in request.items()}


class M(IotModule):
    estimated_query_response_size = 2048

    def query(self):
        return self.query_for_command("get_x")


async def main():
    cfg = DeviceConfig("127.0.0.1")
    dev = IotBulb("127.0.0.1", config=cfg, protocol=P(transport=XorTransport(config=cfg)))
    dev._last_update = {"x": {}}
    dev._modules = {f"m{i}": M(dev, f"m{i}") for i in range(7)}
    await dev._modular_update({})
    assert max(len(r) for r in sent) <= dev.max_device_response_size // 2048, sent


asyncio.run(main())
