PROPERTY = "C01"
NEEDS = "a query cancelled or failing between the length prefix and the end of the reply, then another query"
BREAKS = ("When the task waiting for a reply is cancelled the TCP connection is kept, so the rest of the old reply is "
          "read as the reply to the next query.")
EDITS = [("transports/xortransport.py", """        except BaseException:
            # Likely something cancelled the task so we need to close the connection
            # as we are not in an indeterminate state
            self.close_without_wait()
            raise

    def __del__""", """        except BaseException:
            # Likely something cancelled the task so we need to close the connection
            # as we are not in an indeterminate state
            if self.reader is None or self.reader.at_eof():
                self.close_without_wait()
            raise

    def __del__""")]
# --- demo
import asyncio
import json
import struct

from kasa import DeviceConfig
from kasa.protocols import IotProtocol
from kasa.transports import XorTransport
from kasa.transports.xortransport import XorEncryption


async def main():
    n = 0
    conns = []

    async def client(reader, writer):
        nonlocal n
        conns.append(writer)
        try:
            while True:
                (size,) = struct.unpack(">I", await reader.readexactly(4))
                req = json.loads(XorEncryption.decrypt(await reader.readexactly(size)))
                n += 1
                if n == 1:
                    await asyncio.sleep(0.5)
                writer.write(XorEncryption.encrypt(json.dumps({"echo": req["id"]})))
                await writer.drain()
        except (asyncio.IncompleteReadError, ConnectionError):
            writer.close()

    server = await asyncio.start_server(client, "127.0.0.1", 0)
    port = server.sockets[0].getsockname()[1]
    proto = IotProtocol(transport=XorTransport(config=DeviceConfig("127.0.0.1", port_override=port, timeout=3)))
    t = asyncio.create_task(proto.query({"id": 1}))
    await asyncio.sleep(0.2)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    res = await proto.query({"id": 2})
    await proto.close()
    assert res == {"echo": 2}, f"query 2 was given {res}"


asyncio.run(main())
