"""One device of any kind on the in-memory network: server, matching config and application."""
from __future__ import annotations

import base64
import json

from kasa import Credentials, DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType as E, DeviceFamily as F

from . import refs
from .servers import AesServer, CameraServer, KlapServer, LinkieServer, TokenServer, XorServer

# kind: (families, encryption, login version, https, default port, protocol style)
KINDS = {
    "xor": ((F.IotSmartPlugSwitch, F.IotSmartBulb), E.Xor, None, False, 9999, "iot"),
    "klap1": ((F.IotSmartPlugSwitch, F.IotSmartBulb), E.Klap, None, False, 80, "iot"),
    "klap2": ((F.SmartTapoPlug, F.SmartKasaHub, F.SmartTapoBulb), E.Klap, 2, False, 80, "smart"),
    "klap2s": ((F.SmartTapoRobovac,), E.Klap, 2, True, 4433, "smart"),
    "aes1": ((F.SmartTapoPlug, F.SmartKasaSwitch), E.Aes, None, False, 80, "smart"),
    "aes2": ((F.SmartTapoPlug, F.SmartTapoBulb), E.Aes, 2, False, 80, "smart"),
    "cam": ((F.SmartIpCamera, F.SmartTapoDoorbell), E.Aes, 2, True, 443, "cam"),
    "camplain": ((F.SmartIpCamera, F.SmartTapoDoorbell), E.Aes, None, True, 443, "cam"),
    "camhub": ((F.SmartTapoHub,), E.Aes, 2, True, 443, "cam"),
    "token": ((F.SmartTapoRobovac,), E.Aes, 2, True, 4433, "smart"),
    "linkie": ((F.IotIpCamera,), E.Xor, None, True, 10443, "iot"),
}


def _make_keys():
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import rsa
    k = rsa.generate_private_key(public_exponent=65537, key_size=1024)
    priv = k.private_bytes(ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption())
    pub = k.public_key().public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo)
    return {"private": base64.b64encode(priv).decode(), "public": base64.b64encode(pub).decode()}


_KEYS: list = []


def rsa_keys():
    if not _KEYS:
        _KEYS.append(_make_keys())
    return dict(_KEYS[0])


def cred_hash(kind, user, pw):
    """The credentials hash that stands for (user, pw) on this kind of device."""
    b = lambda o: base64.b64encode(json.dumps(o).encode()).decode()
    if kind == "klap1":
        return base64.b64encode(refs.klap_auth(1, user, pw)).decode()
    if kind in ("klap2", "klap2s"):
        return base64.b64encode(refs.klap_auth(2, user, pw)).decode()
    if kind in ("aes1", "aes2"):
        return b(refs.aes_login_params(int(kind[3]), user, pw))
    if kind in ("cam", "camplain", "camhub"):
        return b({"un": user, "pwd": pw})
    if kind == "token":
        return b({"password": refs.cam_pwd_hash("md5", pw), "username": user})
    return None


class Rig:
    """``handler(text) -> object | bytes`` is the device application behind the encryption."""

    def __init__(self, kind, net, rng, handler, *, host="10.1.2.3", bad=None, plan=None, user="user@x.org", pw="Passw0rd",
                 auth="plain", timeout=5, http_port=None, port_override=None, family=None, clock=None, keys=True, cfg_kw=None,
                 listen_port=None, connect_policy=None):
        fams, enc, lv, https, dport, self.style = KINDS[kind]
        self.kind, self.host, self.timeout = kind, host, timeout
        self.port = listen_port or port_override or (http_port if kind != "xor" else None) or dport
        kw = dict(cfg_kw or {})
        if auth == "plain":
            kw["credentials"] = Credentials(user, pw)
        elif auth == "hash":
            kw["credentials_hash"] = cred_hash(kind, user, pw)
        if kind.startswith("aes") and keys:
            kw["aes_keys"] = rsa_keys()
        self.params = DeviceConnectionParameters(family or rng.choice(fams), enc, lv, https, http_port)
        self.config = DeviceConfig(host, timeout=timeout, port_override=port_override, connection_type=self.params, **kw)
        self.loop = None
        clock = clock or (lambda: self.loop.time() if self.loop else 0.0)
        c = dict(bad=bad or (lambda *a, **k: None), plan=plan, clock=clock, rng=rng)
        p = self.port
        if kind == "xor":
            self.srv = XorServer(net, host, p, handler, connect_policy, **c)
        elif kind in ("klap1", "klap2", "klap2s"):
            v = 1 if kind == "klap1" else 2
            self.srv = KlapServer(net, host, p, handler, version=v, auth=refs.klap_auth(v, user, pw), tls=https, **c)
        elif kind in ("aes1", "aes2"):
            v = int(kind[3])
            self.srv = AesServer(net, host, p, handler, accept=[refs.aes_login_params(v, user, pw)], login_version=v, **c)
        elif kind in ("cam", "camplain", "camhub"):
            self.srv = CameraServer(net, host, p, handler, username=user, password=pw,
                                    mode="plain" if kind == "camplain" else "secure", **c)
        elif kind == "token":
            self.srv = TokenServer(net, host, p, handler, accept=[(user, refs.cam_pwd_hash("md5", pw))], **c)
        else:
            self.srv = LinkieServer(net, host, p, handler, **c)
        self.srv.strict_seq = False
        if connect_policy is not None and kind != "xor":
            net.listeners[(host, p)] = (net.listeners[(host, p)][0], connect_policy)
