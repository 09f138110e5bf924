PROPERTY = "C11"
NEEDS = "a device announcing its login version in the list of encryption types, in any order but ascending"
BREAKS = "The last announced encryption type is taken as the login version instead of the highest one."
EDITS = [("discover.py", """            login_version = max([int(i) for i in et])
""", """            login_version = int(et[-1])
""")]
# --- demo
from kasa.discover import Discover, DiscoveryResult

res = DiscoveryResult.from_dict({
    "device_type": "SMART.IPCAMERA", "device_model": "C210", "device_id": "1", "ip": "127.0.0.9",
    "mac": "00-11-22-33-44-55", "owner": "o", "encrypt_type": ["3", "2", "1"],
    "mgt_encrypt_schm": {"is_support_https": True, "encrypt_type": "AES", "http_port": 443}})
params = Discover._get_connection_parameters(res)
assert params.login_version == 3, params
