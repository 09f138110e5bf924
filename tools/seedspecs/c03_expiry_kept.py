PROPERTY = "C03"
NEEDS = "a session that is renewed before it expires, used until after the first session's expiry"
BREAKS = "A renewed session keeps the first one's expiry: it is dropped too early, and then every request handshakes."
EDITS = [("transports/aestransport.py", """        self._token_url = None
        self._session_expire_at = None
        self._session_cookie = None

        # Device""", """        self._token_url = None
        self._session_cookie = None

        # Device"""),
         ("transports/aestransport.py", """        self._session_expire_at = time.time() + timeout - SESSION_EXPIRE_BUFFER_SECONDS
""", """        if self._session_expire_at is None:
            self._session_expire_at = (
                time.time() + timeout - SESSION_EXPIRE_BUFFER_SECONDS
            )
""")]
# --- demo
import asyncio
import json
import time

import aiohttp

from kasa import Credentials, DeviceConfig
from kasa.transports import AesTransport
from tests.transports.test_aestransport import MockAesDevice

log = []


class Dev(MockAesDevice):
    async def _return_handshake_response(self, url, json):
        log.append("handshake")
        return await super()._return_handshake_response(url, json)


async def main():
    dev = Dev("127.0.0.1")

    async def post(self, *a, **k):
        return await dev.post(*a, **k)
    aiohttp.ClientSession.post = post
    now = time.time()
    time.time = lambda: now
    t = AesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("foo", "bar")))
    req = json.dumps({"method": "get_device_info"})
    await t.send(req)
    now += 22 * 3600
    await t.reset()
    await t.send(req)
    assert len(log) == 2, log
    now += 2 * 3600
    await t.send(req)
    await t.send(req)
    await t.close()
    assert len(log) == 2, log


asyncio.run(main())
