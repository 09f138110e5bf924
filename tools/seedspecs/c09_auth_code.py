PROPERTY = "C09"
NEEDS = "a device that answers its login with an authentication code that none of the tests use"
BREAKS = "Rejected credentials surface as a plain device error, so callers do not ask for new credentials."
EDITS = [("exceptions.py", """    SmartErrorCode.LOGIN_FAILED_ERROR,
    SmartErrorCode.AES_DECODE_FAIL_ERROR,
""", """    SmartErrorCode.LOGIN_FAILED_ERROR,
""")]
# --- demo
import asyncio

from kasa import AuthenticationError, Credentials, DeviceConfig, KasaException
from kasa.transports import AesTransport


async def main():
    for code in (1111, 1003, 1100, -1005, -1501, -40412):
        t = AesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")))

        async def post(*a, code=code, **k):
            return 200, {"error_code": code}

        t._http_client.post = post
        try:
            await t.send('{"method": "get_device_info"}')
        except KasaException as ex:
            assert isinstance(ex, AuthenticationError), (code, repr(ex))
        else:
            raise AssertionError(code)
        await t.close()


asyncio.run(main())
