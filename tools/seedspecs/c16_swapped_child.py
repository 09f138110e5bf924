PROPERTY = "C16"
NEEDS = "one child removed and another one paired between two updates"
BREAKS = "When the number of children stays the same, removed ones are still listed."
EDITS = [("smart/smartdevice.py", """        removed_ids = existing_child_ids - child_ids
        for removed_id in removed_ids:
""", """        removed_ids: set[str] = set()
        if len(child_ids) != len(existing_child_ids):
            removed_ids = existing_child_ids - child_ids
        for removed_id in removed_ids:
""")]
# --- demo
import asyncio
import glob
import json

from kasa import Credentials, DeviceConfig
from kasa.smart import SmartDevice
from tests.fakeprotocol_smart import FakeSmartProtocol

path = sorted(glob.glob("tests/fixtures/smart/H100*.json"))
for p in path:
    info = json.load(open(p))
    if len(info.get("get_child_device_list", {}).get("child_device_list", [])) >= 2:
        break
else:
    raise SystemExit("no fixture")
skip = None


class P(FakeSmartProtocol):
    async def query(self, request, retry_count=3):
        res = json.loads(json.dumps(await super().query(request, retry_count), default=int))
        for m, k in (("get_child_device_list", "child_device_list"),
                     ("get_child_device_component_list", "child_component_list")):
            if m in res:
                res[m][k] = [c for c in res[m][k] if c["device_id"] != skip]
                res[m]["sum"] = len(res[m][k])
        return res


async def main():
    global skip
    kids = [c["device_id"] for c in info["get_child_device_list"]["child_device_list"]]
    prot = P(info, "hub")
    dev = SmartDevice("127.0.0.1", config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")), protocol=prot)
    skip = kids[0]
    await dev.update()
    first = {c.device_id for c in dev.children}
    skip = kids[1]
    await dev.update()
    second = {c.device_id for c in dev.children}
    assert kids[1] in first and kids[1] not in second, (first, second)
    assert kids[0] in second and len(second) == len(first), second


asyncio.run(main())
