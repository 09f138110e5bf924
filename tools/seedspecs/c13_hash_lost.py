PROPERTY = "C13"
NEEDS = "a config holding both credentials and a credentials hash, saved without the credentials"
BREAKS = "Excluding the credentials from a saved config drops the credentials hash as well."
EDITS = [("deviceconfig.py", """                return replace(self, credentials=None).to_dict()
""", """                return replace(
                    self,
                    credentials=None,
                    credentials_hash=None if self.credentials else self.credentials_hash,
                ).to_dict()
""")]
# --- demo
from kasa import Credentials, DeviceConfig

cfg = DeviceConfig("127.0.0.1", credentials=Credentials("foo", "bar"), credentials_hash="abcd")
d = cfg.to_dict_control_credentials(exclude_credentials=True)
assert "credentials" not in d and d.get("credentials_hash") == "abcd", d
assert DeviceConfig("127.0.0.1", credentials_hash="x").to_dict_control_credentials(
    exclude_credentials=True)["credentials_hash"] == "x"
