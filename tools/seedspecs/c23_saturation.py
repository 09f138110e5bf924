PROPERTY = "C23"
NEEDS = "two presets (or a preset and the light's state) differing in nothing but the saturation"
BREAKS = "A light showing another saturation is reported as showing the preset."
EDITS = [("iot/modules/lightpreset.py", """                and (preset.hue == h or not is_color)
                and (preset.saturation == s or not is_color)
            ):""", """                and (preset.hue == h or not is_color or not s)
                and (preset.saturation == s or not is_color or preset.color_temp == 0)
            ):""")]
# --- demo
import asyncio
from unittest.mock import Mock

from kasa import Module
from kasa.interfaces.light import HSV
from kasa.iot.modules.lightpreset import LightPreset


async def main():
    dev, light = Mock(), Mock()
    light.has_feature = lambda f: True
    light.brightness, light.color_temp, light.hsv = 50, 0, HSV(120, 75, 50)
    dev.modules = {Module.Light: light}
    dev.sys_info = {"preferred_state": [
        {"index": 0, "brightness": 50, "hue": 120, "saturation": 20, "color_temp": 0},
        {"index": 1, "brightness": 50, "hue": 120, "saturation": 75, "color_temp": 0}]}
    m = LightPreset(dev, "system")
    type(m).data = property(lambda self: dev.sys_info)
    await m._post_update_hook()
    assert m.preset == "Light preset 2", m.preset


asyncio.run(main())
