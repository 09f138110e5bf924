PROPERTY = "C27"
NEEDS = "a light with effects while no effect is active"
BREAKS = "The old name has_effects tells whether an effect is active instead of whether the light has effects."
EDITS = [("device.py", """                lambda c: Module.LightEffect in c._device.modules,
""", """                lambda c: (effects := c._device.modules.get(Module.LightEffect))
                is not None
                and effects.effect != effects.LIGHT_EFFECTS_OFF,
""")]
# --- demo
import asyncio
import json
import warnings

from kasa import Credentials, DeviceConfig, Module
from kasa.smart import SmartDevice
from tests.fakeprotocol_smart import FakeSmartProtocol

warnings.simplefilter("ignore")


async def main():
    info = json.load(open("tests/fixtures/smart/L900-5(EU)_1.0_1.0.17.json"))
    prot = FakeSmartProtocol(info, "strip")
    dev = SmartDevice("127.0.0.1", config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")), protocol=prot)
    await dev.update()
    effects = dev.modules[Module.LightEffect]
    for name in ("Aurora", effects.LIGHT_EFFECTS_OFF):
        await effects.set_effect(name)
        await dev.update()
        assert dev.has_effects is True, name


asyncio.run(main())
