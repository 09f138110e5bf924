PROPERTY = "C24"
NEEDS = "an effect set with a brightness on one light strip, then set without one on another (or the same) strip"
BREAKS = "The built-in definition of the effect is altered for every device of the process."
EDITS = [("iot/modules/lighteffect.py", """            effect_dict = EFFECT_MAPPING_V1[effect]
            effect_dict = {**effect_dict}
            if brightness""", """            effect_dict = EFFECT_MAPPING_V1[effect]
            if brightness""")]
# --- demo
import asyncio

from kasa.iot.modules.lighteffect import LightEffect


class Dev:
    _last_update = {}


def strip():
    sent = []
    m = LightEffect(Dev(), "smartlife.iot.lighting_effect")

    async def call(method, params):
        sent.append(dict(params))
        return {}

    m.call = call
    return m, sent


async def main():
    a, sa = strip()
    b, sb = strip()
    await b.set_effect("Aurora")
    await a.set_effect("Aurora", brightness=7, transition=12)
    await b.set_effect("Aurora")
    assert (sa[0]["brightness"], sa[0]["transition"]) == (7, 12), sa
    assert sb[0] == sb[1], "another strip got the brightness of the first"


asyncio.run(main())
