PROPERTY = "C21"
NEEDS = "a strip whose sockets have statistics for different days (one was off or added later)"
BREAKS = "Days on which the first socket has no figure are missing from the statistics of the strip."
EDITS = [("iot/iotstrip.py", """    for sum_dict in dicts:
        for day, value in sum_dict.items():
            total_dict[day] += value
    return total_dict
""", """    for day in dicts[0] if dicts else ():
        total_dict[day] = sum(sum_dict.get(day, 0.0) for sum_dict in dicts)
    return total_dict
""")]
# --- demo
import asyncio

from kasa import DeviceConfig, Module
from kasa.iot import IotStrip
from kasa.protocols import IotProtocol
from kasa.transports import XorTransport

KIDS = [{"id": f"0{i}", "state": 1, "alias": f"socket {i}", "on_time": i, "next_action": {"type": -1}} for i in range(2)]
DAYS = {"00": {3: 1}, "01": {3: 2, 4: 5}}


class P(IotProtocol):
    async def query(self, request, retry_count=3):
        sock = request.get("context", {}).get("child_ids", [""])[0][-2:]
        res = {}
        for k, v in request.items():
            if k == "context":
                continue
            res[k] = {m: {"err_code": -1} for m in v}
            if k == "emeter":
                for m in v:
                    if m == "get_realtime":
                        res[k][m] = {"voltage_mv": 1, "current_ma": 1, "power_mw": 1, "total_wh": 1, "err_code": 0}
                    elif m == "get_daystat":
                        res[k][m] = {"day_list": [{"year": 2024, "month": 2, "day": d, "energy_wh": e * 1000}
                                                  for d, e in DAYS.get(sock, {}).items()], "err_code": 0}
                    elif m == "get_monthstat":
                        res[k][m] = {"month_list": [], "err_code": 0}
        if "system" in request:
            res["system"] = {"get_sysinfo": {
                "alias": "strip", "model": "HS300(US)", "mac": "00:11:22:33:44:55", "deviceId": "80" * 20,
                "children": [dict(k) for k in KIDS], "child_num": 2, "feature": "TIM:ENE", "led_off": 0, "hw_ver": "1.0",
                "sw_ver": "1.0.1", "rssi": -3, "err_code": 0, "mic_type": "IOT.SMARTPLUGSWITCH"}}
        return res


async def main():
    cfg = DeviceConfig("127.0.0.1")
    dev = IotStrip("127.0.0.1", config=cfg, protocol=P(transport=XorTransport(config=cfg)))
    await dev.update()
    got = await dev.modules[Module.Energy].get_daily_stats(year=2024, month=2)
    assert dict(got) == {3: 3.0, 4: 5.0}, dict(got)


asyncio.run(main())
