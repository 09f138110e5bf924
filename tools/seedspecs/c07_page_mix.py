PROPERTY = "C07"
NEEDS = "a device that serves pages of different sizes: a short page in the middle of a list of three or more pages"
BREAKS = "Following pages are requested from multiples of the first page's size, skipping or repeating elements."
EDITS = [("protocols/smartprotocol.py", """        while (list_length := len(response_result[response_list_name])) < list_sum:
            request = self._get_list_request(method, params, list_length)""",
          """        page_size = next_index = len(response_result[response_list_name])
        while len(response_result[response_list_name]) < list_sum:
            request = self._get_list_request(method, params, next_index)
            next_index += page_size"""),
         ]
# --- demo
import asyncio
import json

from kasa import DeviceConfig
from kasa.protocols import SmartProtocol
from kasa.transports.basetransport import BaseTransport

ALL = [{"id": i} for i in range(11)]


class T(BaseTransport):
    default_port = 80
    credentials_hash = None
    sizes = [4, 2, 3, 4, 4, 4]

    async def send(self, request):
        start = (json.loads(request).get("params") or {}).get("start_index", 0)
        return {"error_code": 0, "result": {"start_index": start, "sum": 11,
                                            "rules": ALL[start:start + self.sizes.pop(0)]}}

    async def close(self):
        pass

    async def reset(self):
        pass


async def main():
    t = T(config=DeviceConfig("127.0.0.1"))
    res = (await SmartProtocol(transport=t).query("get_rules"))["get_rules"]["rules"]
    assert res == ALL, res


asyncio.run(main())
