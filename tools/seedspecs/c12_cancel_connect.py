PROPERTY = "C12"
NEEDS = "the connect is cancelled (an outer timeout, a task cancelled) while it talks to the device"
BREAKS = "A cancelled connect leaves its HTTP session open."
EDITS = [("device_factory.py", """        return await _connect(config, protocol)
    except:
""", """        return await _connect(config, protocol)
    except Exception:
""")]
# --- demo
import asyncio

import aiohttp

from kasa import Credentials, Device, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily


sessions = []
orig = aiohttp.ClientSession.__init__


def init(self, *a, **k):
    orig(self, *a, **k)
    sessions.append(self)


aiohttp.ClientSession.__init__ = init


async def serve(reader, writer):
    try:
        while await reader.read(100):
            pass
    finally:
        writer.close()


async def main():
    server = await asyncio.start_server(serve, "127.0.0.1", 0)
    port = server.sockets[0].getsockname()[1]
    cfg = DeviceConfig("127.0.0.1", port_override=port, timeout=30, credentials=Credentials("a", "b"),
                       connection_type=DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap))
    try:
        await asyncio.wait_for(Device.connect(config=cfg), 1)
    except (TimeoutError, asyncio.TimeoutError):
        pass
    await asyncio.sleep(0.3)
    assert sessions and all(s.closed for s in sessions), sessions


asyncio.run(main())
