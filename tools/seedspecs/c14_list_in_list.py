PROPERTY = "C14"
NEEDS = "private values inside a list that is itself an element of a list"
BREAKS = "Elements of lists nested in lists are logged unredacted."
EDITS = [("protocols/protocol.py", """            redacted[key] = [redact_data(item, redactors) for item in value]
""", """            redacted[key] = [
                redact_data(item, redactors) if isinstance(item, dict) else item
                for item in value
            ]
""")]
# --- demo
from kasa.protocols.protocol import redact_data

data = {"rows": [[{"mac": "00:11:22:33:44:55", "x": 1}], {"mac": "00:11:22:33:44:55"}]}
res = redact_data(data, {"mac": None})
assert res == {"rows": [[{"mac": "**REDACTED**", "x": 1}], {"mac": "**REDACTED**"}]}, res
