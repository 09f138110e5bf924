PROPERTY = "C05"
NEEDS = "a SMART device answering with a retryable error on the last permitted attempt, and a device timing out"
BREAKS = "After a timeout the SMART protocol keeps the transport session for the retry instead of resetting it."
EDITS = [("protocols/smartprotocol.py", """                        retry_count,
                        ex,
                    )
                await self._transport.reset()
                if retry >= retry_count:
                    _LOGGER.debug("Giving up on %s after %s retries", self._host, retry)
                    raise ex
                await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_TIMEOUT)
                continue
            except KasaException as ex:""", """                        retry_count,
                        ex,
                    )
                if retry >= retry_count:
                    await self._transport.reset()
                    _LOGGER.debug("Giving up on %s after %s retries", self._host, retry)
                    raise ex
                await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_TIMEOUT)
                continue
            except KasaException as ex:""")]
# --- demo
import asyncio

import kasa
from kasa import DeviceConfig
from kasa.protocols import SmartProtocol
from kasa.transports.basetransport import BaseTransport


class T(BaseTransport):
    default_port = 80
    credentials_hash = None
    log = []

    async def send(self, request):
        self.log.append("send")
        if self.log.count("send") == 1:
            raise kasa.TimeoutError("no answer")
        return {"error_code": 0, "result": {}}

    async def close(self):
        pass

    async def reset(self):
        self.log.append("reset")


async def main():
    t = T(config=DeviceConfig("127.0.0.1"))
    await SmartProtocol(transport=t).query("get_device_info")
    assert t.log == ["send", "reset", "send"], t.log


asyncio.run(main())
