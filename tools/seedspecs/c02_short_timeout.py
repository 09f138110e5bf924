PROPERTY = "C02"
NEEDS = "a device announcing a session timeout shorter than a day, and a pause between two queries"
BREAKS = "A KLAP session is used beyond the shorter lifetime the device announced in its TIMEOUT cookie."
EDITS = [("transports/klaptransport.py", """        timeout = int(
            http_client.get_cookie(self.TIMEOUT_COOKIE_NAME) or ONE_DAY_SECONDS
        )
""", """        timeout = max(
            int(http_client.get_cookie(self.TIMEOUT_COOKIE_NAME) or 0),
            ONE_DAY_SECONDS,
        )
""")]
# --- demo
import asyncio
import time

from kasa import Credentials, DeviceConfig
from kasa.httpclient import HttpClient
from kasa.transports import KlapTransportV2
from kasa.transports.klaptransport import KlapEncryptionSession

now = [1000.0]
time.monotonic = lambda: now[0]
creds = Credentials("user", "password")
auth = KlapTransportV2.generate_auth_hash(creds)
state = {"handshakes": 0}


async def post(self, url, *, params=None, data=None, json=None, headers=None, cookies_dict=None, ssl=False):
    if url.path.endswith("handshake1"):
        remote = bytes([state["handshakes"]]) * 16
        state["handshakes"] += 1
        state["pending"] = (data, remote)
        return 200, remote + KlapTransportV2.handshake1_seed_auth_hash(data, remote, auth)
    if url.path.endswith("handshake2"):
        state["session"] = KlapEncryptionSession(*state["pending"], auth)
        return 200, b""
    s = state["session"]
    s._seq = params["seq"] - 1
    return 200, s.encrypt(b'{"error_code": 0, "result": {"ok": 1}}')[0]


HttpClient.post = post
HttpClient.get_cookie = lambda self, name: {"TIMEOUT": "3600", "TP_SESSIONID": "abc"}.get(name)


async def main():
    t = KlapTransportV2(config=DeviceConfig("127.0.0.1", credentials=creds))
    await t.send("{}")
    now[0] += 3600
    await t.send("{}")
    await t.close()
    assert state["handshakes"] == 2, "the session was used after its lifetime"


asyncio.run(main())
