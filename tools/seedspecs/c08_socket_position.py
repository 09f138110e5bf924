PROPERTY = "C08"
NEEDS = "a strip that lists its sockets in another order in a later answer"
BREAKS = "A socket shows the state and name of whichever socket is listed at its original position."
EDITS = [("iot/iotstrip.py", """        for plug in self._parent.sys_info["children"]:
            if plug["id"] == self.child_id:
                return plug
""", """        children = self._parent.sys_info["children"]
        for index, plug in enumerate(self._parent.children):
            if plug is self and index < len(children):
                return children[index]
""")]
# --- demo
import asyncio

from kasa import DeviceConfig
from kasa.iot import IotStrip
from kasa.protocols import IotProtocol
from kasa.transports.basetransport import BaseTransport

KIDS = [{"id": f"0{i}", "state": i % 2, "alias": f"socket {i}", "on_time": i, "next_action": {"type": -1}}
        for i in range(3)]


class P(IotProtocol):
    reverse = False

    async def query(self, request, retry_count=3):
        kids = [dict(k) for k in KIDS]
        if self.reverse:
            kids.reverse()
        res = {k: {m: {"err_code": -1} for m in v} for k, v in request.items() if k != "context"}
        res["system"] = {"get_sysinfo": {
            "alias": "strip", "model": "HS300(US)", "mac": "00:11:22:33:44:55", "deviceId": "80" * 20, "children": kids,
            "child_num": 3, "feature": "TIM", "led_off": 0, "hw_ver": "1.0", "sw_ver": "1.0.1", "rssi": -3,
            "err_code": 0, "mic_type": "IOT.SMARTPLUGSWITCH"}}
        return res


class T(BaseTransport):
    default_port = 80
    credentials_hash = None

    async def send(self, request):
        raise RuntimeError

    async def close(self):
        pass

    async def reset(self):
        pass


async def main():
    cfg = DeviceConfig("127.0.0.1")
    prot = P(transport=T(config=cfg))
    dev = IotStrip("127.0.0.1", config=cfg, protocol=prot)
    await dev.update()
    for rev in (False, True):
        prot.reverse = rev
        await dev.update()
        for k in KIDS:
            c = next(c for c in dev.children if c.child_id == k["id"])
            assert (c.alias, c.is_on) == (k["alias"], bool(k["state"])), (rev, c.alias, k)


asyncio.run(main())
