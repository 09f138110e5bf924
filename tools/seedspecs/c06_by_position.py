PROPERTY = "C06"
NEEDS = "a device that answers the methods of a batch in another order, or leaves one out"
BREAKS = "Answers of a batch are assigned to the methods by position instead of by their name."
EDITS = [("protocols/smartprotocol.py", """            for response in responses:
                # some""", """            for sent, response in zip(requests_step, responses, strict=False):
                # some"""),
         ("protocols/smartprotocol.py", """                if not (method := response.get("method")):
                    if not""", """                method = sent["method"]
                if not response.get("method"):
                    if not""")]
# --- demo
import asyncio
import json

from kasa import DeviceConfig
from kasa.protocols import SmartProtocol
from kasa.transports.basetransport import BaseTransport


class T(BaseTransport):
    default_port = 80
    credentials_hash = None

    async def send(self, request):
        req = json.loads(request)
        res = [{"method": r["method"], "error_code": 0, "result": {"of": r["method"]}}
               for r in req["params"]["requests"]]
        return {"error_code": 0, "result": {"responses": res[::-1]}}

    async def close(self):
        pass

    async def reset(self):
        pass


async def main():
    t = T(config=DeviceConfig("127.0.0.1"))
    res = await SmartProtocol(transport=t).query({m: None for m in ("a", "b", "c")})
    assert res == {m: {"of": m} for m in ("a", "b", "c")}, res


asyncio.run(main())
