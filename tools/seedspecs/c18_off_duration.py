PROPERTY = "C18"
NEEDS = "a light whose turn-on and turn-off transitions have different durations, and the smooth transition switched as a whole"
BREAKS = "Switching the smooth transition overwrites the turn-off duration with the turn-on duration."
EDITS = [("smart/modules/lighttransition.py", """            off = await self.call(
                "set_on_off_gradually_info",
                {
                    "off_state": {
                        "enable": enable,
                        "duration": self._off_state["duration"],""", """            off = await self.call(
                "set_on_off_gradually_info",
                {
                    "off_state": {
                        "enable": enable,
                        "duration": self._on_state["duration"],""")]
# --- demo
import asyncio
import glob
import json

from kasa import Credentials, DeviceConfig
from kasa.smart import SmartDevice
from tests.fakeprotocol_smart import FakeSmartProtocol

sent = []


class P(FakeSmartProtocol):
    async def query(self, request, retry_count=3):
        if "set_on_off_gradually_info" in request:
            sent.append(request["set_on_off_gradually_info"])
        return await super().query(request, retry_count)


async def main():
    for p in sorted(glob.glob("tests/fixtures/smart/*.json")):
        info = json.load(open(p))
        st = info.get("get_on_off_gradually_info", {})
        if isinstance(st, dict) and "on_state" in st:
            break
    st["on_state"]["duration"], st["off_state"]["duration"] = 7, 21
    dev = SmartDevice("127.0.0.1", config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")),
                      protocol=P(info, "x"))
    await dev.update()
    await dev.modules["LightTransition"].set_enabled(True)
    vals = {k: v["duration"] for s in sent for k, v in s.items()}
    assert vals == {"on_state": 7, "off_state": 21}, vals


asyncio.run(main())
