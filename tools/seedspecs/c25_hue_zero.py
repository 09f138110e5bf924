PROPERTY = "C25"
NEEDS = "a light preset whose saved hue is 0 (red), or modifying another value together with it"
BREAKS = "The command reports the preset as updated although the given hue is not applied."
EDITS = [("cli/light.py", "    if hue is not None and preset.hue is not None:\n", "    if hue is not None and preset.hue:\n")]
# --- demo
import asyncio

from asyncclick.testing import CliRunner

from kasa import Module
from kasa.cli.light import presets_modify
from kasa.interfaces import LightState

saved = []


class Presets:
    preset_list = ["Not set", "Preset 1"]

    @property
    def preset_states_list(self):
        return [LightState(brightness=50, hue=0, saturation=80)]

    async def save_preset(self, name, state):
        saved.append((name, state.hue, state.saturation))
        return {}


class Dev:
    modules = {Module.LightPreset: Presets()}
    children = []


async def main():
    import kasa.cli.common as common
    import kasa.device
    real = kasa.device.Device
    r = await CliRunner().invoke(presets_modify, ["0", "--hue", "120", "--saturation", "9"], obj=Dev())
    assert saved == [("Preset 1", 120, 9)], (saved, r.output, r.exception)


asyncio.run(main())
