"""Independent table: which class, protocol, transport and port serve which kind of device."""
from __future__ import annotations

SMART = ("SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.TAPOHUB",
         "SMART.KASAHUB", "SMART.TAPOCHIME")
FAMILIES = ("IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", *SMART, "SMART.IPCAMERA", "SMART.TAPOROBOVAC",
            "SMART.TAPODOORBELL")
ENCRYPTIONS = ("KLAP", "AES", "XOR")
PORTS = {"XorTransport": 9999, "KlapTransport": 80, "KlapTransportV2": 80, "AesTransport": 80, "SslAesTransport": 443,
         "SslTransport": 4433, "LinkieTransportV2": 10443}


def wire(family, enc, https):
    """(protocol, transport, default port) or None when there is no way to talk to such a device."""
    if family in ("SMART.IPCAMERA", "SMART.TAPODOORBELL"):
        return "SmartCamProtocol", "SslAesTransport", 443
    if family == "IOT.IPCAMERA":
        return "IotProtocol", "LinkieTransportV2", 10443
    if family == "SMART.TAPOROBOVAC" and enc == "AES":
        return "SmartProtocol", "SslTransport", 4433
    if family.startswith("IOT."):
        if https:
            return None
        return {"XOR": ("IotProtocol", "XorTransport", 9999), "KLAP": ("IotProtocol", "KlapTransport", 80)}.get(enc)
    if enc == "KLAP":
        return "SmartProtocol", "KlapTransportV2", 4433 if https else 80
    if enc == "AES":
        return ("SmartCamProtocol", "SslAesTransport", 443) if https else ("SmartProtocol", "AesTransport", 80)
    return None


def cls(family, https):
    """The device class of a family, as announced by the device (None: not supported)."""
    if family == "IOT.SMARTPLUGSWITCH":
        return None if https else "IotPlug"
    if family == "IOT.SMARTBULB":
        return None if https else "IotBulb"
    if family.startswith("IOT."):
        return None
    if https and family in ("SMART.IPCAMERA", "SMART.TAPODOORBELL", "SMART.TAPOHUB"):
        return "SmartCamDevice"
    return "SmartDevice"


def sysinfo_class(sysinfo):
    """The class of a legacy device, from its system information; None when it cannot be used."""
    t = sysinfo.get("type", sysinfo.get("mic_type"))
    if not isinstance(t, str):
        return None
    name = sysinfo.get("dev_name") or ""
    if "Dimmer" in name:
        return "IotDimmer"
    if "SMARTPLUG" in t.upper():
        if "children" in sysinfo:
            return "IotStrip"
        return "IotWallSwitch" if "light" in name.lower() else "IotPlug"
    if "SMARTBULB" in t.upper():
        return "IotLightStrip" if "length" in sysinfo else "IotBulb"
    return None
