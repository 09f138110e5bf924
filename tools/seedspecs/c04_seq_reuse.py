PROPERTY = "C04"
NEEDS = "a connection that breaks after the camera accepted a message (the query is retried in the same session)"
BREAKS = "The sequence number of a message whose answer was lost is used again, which the camera rejects."
EDITS = [("transports/sslaestransport.py", """        self._seq += 1
        status_code, resp_dict""", """        status_code, resp_dict"""),
         ("transports/sslaestransport.py", """            ssl=await self._get_ssl_context(),
        )

        if TYPE_CHECKING:
            assert self._encryption_session is not None

        # Devices""", """            ssl=await self._get_ssl_context(),
        )
        self._seq += 1

        if TYPE_CHECKING:
            assert self._encryption_session is not None

        # Devices""")]
# --- demo
import asyncio
import json

import aiohttp

from kasa import Credentials, DeviceConfig
from kasa.exceptions import _ConnectionError
from kasa.transports.sslaestransport import SslAesTransport
from tests.transports.test_sslaestransport import MOCK_PWD, MOCK_USER, MockSslAesDevice

seqs = []


async def main():
    dev = MockSslAesDevice("127.0.0.1")

    async def post(self, url, *, headers=None, **k):
        res = await dev.post(url, headers=headers, **k)
        if headers and "Seq" in headers:
            seqs.append(int(headers["Seq"]))
            if len(seqs) == 2:
                raise aiohttp.ClientOSError("connection lost")
        return res

    aiohttp.ClientSession.post = post
    t = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials(MOCK_USER, MOCK_PWD)))
    req = json.dumps({"method": "getDeviceInfo"})
    await t.send(req)
    try:
        await t.send(req)
        raise SystemExit("no error")
    except _ConnectionError:
        pass
    await t.send(req)
    await t.close()
    assert [b - a for a, b in zip(seqs, seqs[1:])] == [1, 1], seqs


asyncio.run(main())
