PROPERTY = "C10"
NEEDS = "a host that cannot be used (unsupported) and answers more than once, e.g. to each of the repeated broadcasts"
BREAKS = "An unsupported host is reported once per answer instead of once."
EDITS = [("discover.py", """        if ip in self.seen_hosts:
            return
""", """        if ip in self.discovered_devices:
            return
""")]
# --- demo
import asyncio
import json
from unittest.mock import Mock

from kasa.discover import Discover, _DiscoverProtocol

seen = []


async def main():
    async def on_unsupported(ex):
        seen.append(ex.host)

    p = _DiscoverProtocol(on_unsupported=on_unsupported)
    p.transport = Mock()
    info = {"error_code": 0, "result": {"device_type": "FOO.BAR", "device_model": "X1", "device_id": "1", "ip": "127.0.0.9",
            "mac": "00-11-22-33-44-55", "owner": "o", "mgt_encrypt_schm": {"is_support_https": False,
            "encrypt_type": "AES", "http_port": 80, "lv": 2}}}
    from kasa.discover import _AesDiscoveryQuery
    _AesDiscoveryQuery.generate_query()
    for _ in range(3):
        p.datagram_received(b"\0" * 16 + json.dumps(info).encode(), ("127.0.0.9", Discover.DISCOVERY_PORT_2))
    await asyncio.gather(*p.callback_tasks)
    assert len(seen) == 1, seen


asyncio.run(main())
