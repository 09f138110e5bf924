PROPERTY = "C28"
NEEDS = "a camera hub with a child camera of another model"
BREAKS = "The fixture of the child holds its private values (MAC, address, ids) as listed by the hub, unmasked."
EDITS = [("../devtools/dump_devinfo.py", """    final = redact_data(final, _wrap_redactors(SMART_REDACTORS))

    # smart cam child""", """    redacted = redact_data(final, _wrap_redactors(SMART_REDACTORS))

    # smart cam child"""), ("../devtools/dump_devinfo.py", """            for info in smart_cam_child_list["child_device_list"]
        }

    for child_id""", """            for info in smart_cam_child_list["child_device_list"]
        }
    final = redacted

    for child_id""")]
# --- demo
import asyncio
import glob
import json

import devtools.dump_devinfo as dd
from kasa import Credentials, DeviceConfig
from kasa.protocols import SmartCamProtocol
from kasa.transports import SslAesTransport

MAC = "A1:B2:C3:D4:E5:F6"
INFO = {"device_model": "H200", "device_name": "hub", "mac": "F0:A7:31:00:00:00", "dev_id": "80HUB", "hw_version": "1.0",
        "sw_version": "1.3.2 Build 1", "region": "US", "device_alias": "hub", "device_type": "SMART.TAPOHUB", "oem_id": "x"}
CHILD = {"device_id": "80CAMCAMCAM", "device_model": "C210", "mac": MAC, "alias": "secret camera", "region": "EU",
         "hw_ver": "2.0", "sw_ver": "1.4.2 Build 2", "category": "ipcamera", "device_name": "0000", "device_type": "SMART.IPCAMERA", "hw_id": "1"}


async def hub_calls(protocol):
    C = dd.SmartCall
    return [
        C(module="a", request={"getDeviceInfo": {"device_info": {"name": ["basic_info"]}}}, should_succeed=True, child_device_id=""),
        C(module="b", request={"getChildDeviceList": {"childControl": {"start_index": 0}}}, should_succeed=True, child_device_id=""),
        C(module="c", request={"getDeviceInfo": {"device_info": {"name": ["basic_info"]}}}, should_succeed=True,
          child_device_id="80CAMCAMCAM")], []


class P(SmartCamProtocol):
    async def query(self, request, retry_count=3):
        if "controlChild" in request:
            inner = request["controlChild"]["childControl"]["request_data"]
            one = {"method": "getDeviceInfo", "error_code": 0, "result": {"device_info": {"basic_info": {
                **INFO, "device_model": "C210", "dev_id": "80CAMCAMCAM", "mac": MAC}}}}
            res = {"responses": [one]} if inner.get("method") == "multipleRequest" else one["result"]
            return {"controlChild": {"response_data": {"error_code": 0, "result": res, **({} if "responses" in res else res)}}}
        res = {}
        for m in request:
            res[m] = {"device_info": {"basic_info": dict(INFO)}} if m == "getDeviceInfo" else {
                "child_device_list": [dict(CHILD)], "sum": 1, "start_index": 0}
        return res


async def child_query(self, request, retry_count=3):
    return {"getDeviceInfo": {"device_info": {"basic_info": {**INFO, "device_model": "C210", "dev_id": "80CAMCAMCAM", "mac": MAC}}}}


async def main():
    dd.get_smart_camera_test_calls = hub_calls
    dd._ChildCameraProtocolWrapper.query = child_query
    prot = P(transport=SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"))))
    res = await dd.get_smart_fixtures(prot, discovery_info=None, batch_size=5)
    assert len(res) == 2, res
    for r in res:
        text = json.dumps(r.data)
        for private in (MAC, "80CAMCAMCAM", "secret camera"):
            assert private not in text, (r.filename, private)


asyncio.run(main())
