PROPERTY = "C15"
NEEDS = "a module that fails several times, works, and fails again, ten failures in all"
BREAKS = "Failures before a success still count, so a module is disabled before ten failures in a row."
EDITS = [("smart/smartmodule.py", """            self._error_count = 0
            self._last_update_error = None
        else:""", """            self._error_count = max(0, self._error_count - 1)
            self._last_update_error = None
        else:""")]
# --- demo
from unittest.mock import Mock

from kasa.exceptions import DeviceError
from kasa.smart.modules import Firmware

dev = Mock()
dev._is_hub_child = False
m = Firmware(dev, "firmware")
for _ in range(2):
    for _ in range(9):
        m._set_error(DeviceError("x"))
        assert not m.disabled
    m._set_error(None)
m._set_error(DeviceError("x"))
assert not m.disabled and m.update_interval == 30, m.update_interval
