PROPERTY = "C17"
NEEDS = "a light reporting different maximum durations for turning on and off"
BREAKS = "The range of the turn-on transition is the one reported for turning off."
EDITS = [("smart/modules/lighttransition.py", """                    attribute_setter="set_turn_on_transition",
                    icon=icon,
                    type=Feature.Type.Number,
                    range_getter=lambda: (0, self._turn_on_transition_max),""",
          """                    attribute_setter="set_turn_on_transition",
                    icon=icon,
                    type=Feature.Type.Number,
                    range_getter=lambda: (0, self._turn_off_transition_max),""")]
# --- demo
import asyncio
import glob
import json

from kasa import Credentials, DeviceConfig
from kasa.smart import SmartDevice
from tests.fakeprotocol_smart import FakeSmartProtocol


async def main():
    for p in sorted(glob.glob("tests/fixtures/smart/*.json")):
        info = json.load(open(p))
        st = info.get("get_on_off_gradually_info", {})
        if isinstance(st, dict) and "on_state" in st:
            break
    st["on_state"]["max_duration"], st["off_state"]["max_duration"] = 20, 50
    dev = SmartDevice("127.0.0.1", config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")),
                      protocol=FakeSmartProtocol(info, "x"))
    await dev.update()
    assert dev.features["smooth_transition_on"].maximum_value == 20
    assert dev.features["smooth_transition_off"].maximum_value == 50


asyncio.run(main())
