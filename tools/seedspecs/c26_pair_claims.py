PROPERTY = "C26"
NEEDS = "a hub that finds several devices while pairing and cannot add one of them"
BREAKS = "Pairing reports devices as paired that the hub did not add."
EDITS = [("smart/modules/childsetup.py", """            if device_id in self._device._children:
                result = "added"
                successes.append(detected)
""", """            if device_id in self._device._children:
                result = "added"
            successes.append(detected)
""")]
# --- demo
import asyncio

from kasa.smart.modules.childsetup import ChildSetup


class Dev:
    host = "127.0.0.1"
    _children = {}

    async def update(self):
        self._children = {"A": object()}


async def main():
    cs = ChildSetup.__new__(ChildSetup)
    cs._device = Dev()
    found = [{"device_id": x, "device_model": "T100", "name": "n", "category": "c"} for x in "AB"]

    async def call(method, params=None):
        return {}

    cs.call = call
    res = await cs._add_devices({"child_device_list": found})
    assert [d["device_id"] for d in res] == ["A"], res


asyncio.run(main())
