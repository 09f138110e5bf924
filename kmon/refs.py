"""Wire crypto of the devices, written independently of the library under test."""
from __future__ import annotations

import base64
import hashlib
import json
import struct

from cryptography.hazmat.primitives import padding as _pad
from cryptography.hazmat.primitives import serialization as _ser
from cryptography.hazmat.primitives.asymmetric import padding as _apad
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

DEFAULTS = {
    "KASA": ("kasa@tp-link.net", "kasaSetup"),
    "KASACAMERA": ("admin", "21232f297a57a5a743894a0e4a801fc3"),
    "TAPO": ("test@tp-link.net", "test"),
    "TAPOCAMERA": ("admin", "admin"),
}


def sha256(b):
    return hashlib.sha256(b).digest()


def sha1(b):
    return hashlib.sha1(b).digest()


def md5(b):
    return hashlib.md5(b).digest()


def canon(obj):
    """Canonical text of a json value (for comparison only)."""
    return json.dumps(obj, sort_keys=True, ensure_ascii=True)


# -- XOR ---------------------------------------------------------------
def xor_plain_to_wire(data: bytes) -> bytes:
    k = 171
    out = bytearray()
    for b in data:
        k ^= b
        out.append(k)
    return bytes(out)


def xor_wire_to_plain(data: bytes) -> bytes:
    k = 171
    out = bytearray()
    for c in data:
        out.append(k ^ c)
        k = c
    return bytes(out)


def xor_frame(data: bytes) -> bytes:
    return struct.pack(">I", len(data)) + xor_plain_to_wire(data)


# -- AES-CBC-PKCS7 -----------------------------------------------------
def cbc_enc(key, iv, data):
    p = _pad.PKCS7(128).padder()
    e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    return e.update(p.update(data) + p.finalize()) + e.finalize()


def cbc_dec(key, iv, data):
    d = Cipher(algorithms.AES(key), modes.CBC(iv)).decryptor()
    u = _pad.PKCS7(128).unpadder()
    raw = d.update(data) + d.finalize()
    return u.update(raw) + u.finalize()


# -- KLAP --------------------------------------------------------------
def klap_auth(version, user, pw):
    if version == 1:
        return md5(md5(user.encode()) + md5(pw.encode()))
    return sha256(sha1(user.encode()) + sha1(pw.encode()))


class KlapKeys:
    def __init__(self, version, local, remote, auth):
        m = local + remote + auth
        self.key = sha256(b"lsk" + m)[:16]
        ivs = sha256(b"iv" + m)
        self.iv12 = ivs[:12]
        self.seq0 = struct.unpack(">i", ivs[28:32])[0]
        self.sig = sha256(b"ldk" + m)[:28]

    def iv(self, seq):
        return self.iv12 + struct.pack(">i", seq)

    def open(self, seq, body):
        """Verify and decrypt a request body; raises ValueError."""
        if len(body) < 48:
            raise ValueError("too short")
        want = sha256(self.sig + struct.pack(">i", seq) + body[32:])
        if want != body[:32]:
            raise ValueError("bad signature")
        return cbc_dec(self.key, self.iv(seq), body[32:])

    def seal(self, seq, data):
        c = cbc_enc(self.key, self.iv(seq), data)
        return sha256(self.sig + struct.pack(">i", seq) + c) + c


def klap_h1(version, local, remote, auth):
    return sha256(local + auth) if version == 1 else sha256(local + remote + auth)


def klap_h2(version, local, remote, auth):
    return sha256(remote + auth) if version == 1 else sha256(remote + local + auth)


# -- AES passthrough ---------------------------------------------------
def aes_login_params(version, user, pw):
    un = base64.b64encode(hashlib.sha1(user.encode()).hexdigest().encode()).decode()
    if version == 2:
        return {"username": un,
                "password2": base64.b64encode(hashlib.sha1(pw.encode()).hexdigest().encode()).decode()}
    return {"username": un, "password": base64.b64encode(pw.encode()).decode()}


def rsa_encrypt_for(pem: str, data: bytes) -> str:
    """Encrypt with the public key the client sent (its PEM has one long line)."""
    b64 = pem.replace("-----BEGIN PUBLIC KEY-----", "").replace("-----END PUBLIC KEY-----", "")
    key = _ser.load_der_public_key(base64.b64decode(b64.strip()))
    return base64.b64encode(key.encrypt(data, _apad.PKCS1v15())).decode()


# -- camera ------------------------------------------------------------
def HEX(b):
    return b.hex().upper()


def cam_pwd_hash(kind, pw):
    return HEX(sha256(pw.encode())) if kind == "sha256" else HEX(md5(pw.encode()))


def cam_confirm(cnonce, nonce, pwd_hash):
    return HEX(sha256((cnonce + pwd_hash + nonce).encode())) + nonce + cnonce


def cam_digest(cnonce, nonce, pwd_hash):
    return HEX(sha256((pwd_hash + cnonce + nonce).encode())) + cnonce + nonce


def cam_keys(cnonce, nonce, pwd_hash):
    hashed = HEX(sha256((cnonce + pwd_hash + nonce).encode()))
    base = (cnonce + nonce + hashed).encode()
    return sha256(b"lsk" + base)[:16], sha256(b"ivb" + base)[:16]


def cam_tag(body: str, cnonce, pwd_hash, seq):
    t = HEX(sha256((pwd_hash + cnonce).encode()))
    return HEX(sha256((t + body + str(seq)).encode()))


# -- SMART error classes (published: kasa/exceptions.py, SMART_*_ERRORS) ------
RETRY_CODES = (1002, 1112, -1001, 9999, -40401, -40413)
AUTH_CODES = (-1501, 1111, -1005, 1100, 1003, -40412)


def code_class(code):
    return "ok" if code == 0 else "retry" if code in RETRY_CODES else "auth" if code in AUTH_CODES else "fatal"
