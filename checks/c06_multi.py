"""C06: a multi-method query equals asking each method individually."""
from __future__ import annotations

import asyncio
import copy
import json

from kasa import DeviceConfig, DeviceError, KasaException
from kasa.exceptions import SmartErrorCode
from kasa.protocols import SmartCamProtocol, SmartProtocol
from kasa.transports import BaseTransport
from kmon import gen, refs
from kmon.core import Family
from kmon.history import finish, refs_code
from kmon.vloop import vrun

RULE = ("random method tables (results, absent results, error codes), batch sizes, devices that reorder, omit, stop after an error, "
        "leave out the method name or refuse batches; several queries per protocol object; non-trivial = a query of two or more "
        "methods, identified by table behaviour and query composition")
REQUIRED_COVER = ["smart", "cam", "reordered", "omitted", "stop-after-error", "no-method-key", "refuses-batch", "error-in-multi",
                  "error-single", "absent-result", "multi-batch", "force-single", "sticky-single", "unknown-code", "limited-batch"]
ASSUMPTIONS = ["the device is a method table behind the public transport interface"]

NAMES = ["get_device_info", "get_device_usage", "getLed", "set_led", "get_auto_update_info", "get_x", "getFirmwareVersion",
         "setThing", "doThing", "scanApList", "getConnectStatus", "get_energy_usage", "qs_component_nego", "component_nego",
         "get_wireless_scan_info", "get_light", "getClock", "m1", "m2", "m3"]
CODES = [-1002, -1008, -1001, -40101, -40106, -40401, -1501, 9999, -1003, -100000, 777123, -2003, 1112, -40210]


class Table(BaseTransport):
    default_port = 80
    credentials_hash = None

    def __init__(self, case, config, spec):
        super().__init__(config=config)
        self.case, self.spec = case, spec
        self.executed, self.batches, self.singles = [], [], []
        self.refused = 0

    def run_one(self, method, params):
        t = self.spec["table"].get(method)
        self.executed.append((method, refs.canon(params or None)))
        if t is None:
            return {"error_code": -1002}
        if t[0] == "err":
            return {"error_code": t[1]} if not t[2] else {"error_code": t[1], "result": {}}
        if t[0] == "absent":
            return {"error_code": 0}
        return {"error_code": 0, "result": {"v": t[1], "echo": params or None}}

    async def send(self, request):
        await asyncio.sleep(0)
        o = json.loads(request)
        spec, rng = self.spec, self.case.rng
        m = o["method"]
        if m != "multipleRequest":
            extra = set(o) - {"method", "params", "request_time_milis", "terminal_uuid"}
            if extra:
                self.case.violate("unknown-request-field", str(extra))
            self.singles.append(m)
            return json.loads(json.dumps(self.run_one(m, o.get("params"))))
        reqs = o["params"]["requests"]
        self.batches.append([r["method"] for r in reqs])
        if not reqs:
            self.case.violate("empty-batch", "a batch without any request was sent")
            return {"error_code": -1008}
        if spec["refuse"] is not None and len(reqs) >= spec["refuse"][1]:
            self.refused += 1
            return {"error_code": spec["refuse"][0]}
        out = []
        for r in reqs:
            extra = set(r) - {"method", "params"}
            if extra:
                self.case.violate("unknown-request-field", str(extra))
            if r["method"] in spec["omit"]:
                self.case.covered("omitted")
                continue
            a = {"method": r["method"], **self.run_one(r["method"], r.get("params"))}
            if r["method"] in spec["nokey"]:
                self.case.covered("no-method-key")
                del a["method"]
            out.append(a)
            if spec["stop"] and a["error_code"] != 0:
                self.case.covered("stop-after-error")
                break
        if spec["shuffle"]:
            rng.shuffle(out)
            if len(out) > 1:
                self.case.covered("reordered")
        return json.loads(json.dumps({"error_code": 0, "result": {"responses": out}}))

    async def close(self):
        pass

    async def reset(self):
        pass


def f_multi(case):
    rng = case.rng
    style = rng.choice(["smart", "smart", "cam"])
    case.covered(style)
    names = rng.sample(NAMES, rng.randrange(2, len(NAMES)))
    table = {}
    for n in names:
        k = rng.choice(["val"] * 5 + ["err", "absent"])
        table[n] = ("val", gen.rjson(rng, 2)) if k == "val" else ("err", rng.choice(CODES), rng.random() < 0.3) if k == "err" else ("absent",)
        if k == "err" and table[n][1] == 777123:
            case.covered("unknown-code")
    if rng.random() < 0.2:
        names.append("not_there")
    spec = {"table": table, "shuffle": rng.random() < 0.3, "stop": rng.random() < 0.2,
            "omit": set(rng.sample(names, min(len(names), rng.choice([0, 0, 0, 1, 2])))),
            "nokey": ({"scanApList", "getConnectStatus"} if rng.random() < 0.7 else set())
            | set(rng.sample(names, min(len(names), rng.choice([0, 0, 0, 1])))),
            "refuse": rng.choice([None, None, (-1003, 1), (-1003, 4), (-100000, 1), (777123, 1), (-100000, 3)])}
    batch = rng.choice([None, None, 1, 2, 3, 5, 10, 50])
    cfg = DeviceConfig("10.0.0.8", batch_size=batch)
    shapes = []

    async def main(loop):
        tr = Table(case, cfg, spec)
        proto = (SmartProtocol if style == "smart" else SmartCamProtocol)(transport=tr)
        for _ in range(rng.randrange(1, 5)):
            k = rng.choice([1, 2, 3, 4, 5, 6, 7, 11, len(names)])
            chosen = rng.sample(names, min(k, len(names)))
            q = {m: rng.choice([None, {}, {"a": 1}, {"start": 0, "b": [1], "on": False}, {"sec": {"name": [gen.rtext(rng, 5)]}}, {"p": gen.rjson(rng, 2)}]) for m in chosen}
            shapes.append((len(q), tuple(sorted((table.get(m) or ("none",))[0] for m in q))))
            before = copy.deepcopy(q)
            tr.executed, tr.batches, tr.singles, refused0 = [], [], [], tr.refused
            retry = rng.choice([1, 2, 3, 0, None])
            exc = res = None
            try:
                res = await proto.query(q, **({} if retry is None else {"retry_count": retry}))
            except KasaException as ex:
                exc = ex
            case.expect(q == before, "request-mutated", f"{before} -> {q}")
            if refused0 and tr.batches:
                case.violate("batch-after-refusal", f"batch sent although the device cannot handle batches: {tr.batches}")
            if refused0:
                case.covered("sticky-single")
            asked = {(m, refs.canon(p or None)) for m, p in before.items()}
            seen = set(tr.executed)
            case.expect(seen <= asked, "executed-unasked", f"device executed {sorted(seen - asked)}")
            if tr.refused > refused0:
                case.covered("refuses-batch" if spec["refuse"][1] == 1 else "limited-batch")
                case.expect(tr.refused == refused0 + 1, "refused-batch-repeated", f"{tr.refused - refused0} batches refused")
            want = {m: expected(table.get(m), p) for m, p in before.items()}
            if retry == 0 and tr.refused > refused0:
                case.expect(exc is not None, "made-up-result", "success although the batch was refused and no retry is left")
                continue
            if tr.refused > refused0 and retry == 0:
                continue
            if len(q) == 1:
                (m, w), = want.items()
                if isinstance(w, tuple):
                    case.covered("error-single")
                    case.expect(isinstance(exc, DeviceError) and exc.error_code is refs_code(w[1]), "wrong-error",
                                f"device error {w[1]} for {m} gave {exc!r} / {res!r:.200}")
                    continue
            if exc is not None:
                case.violate("query-failed", f"{list(q)} raised {exc!r}", spec={k: v for k, v in spec.items() if k != "table"},
                             batches=tr.batches, singles=tr.singles, batch=batch)
                continue
            case.expect(seen == asked, "method-not-asked", f"never reached the device: {sorted(asked - seen)}")
            for m in q:
                times = sum(1 for e in tr.executed if e[0] == m)
                case.expect(times <= 1 or m in spec["nokey"], "executed-twice", f"the device executed {m} {times} times for one query")
            if len(tr.batches) > 1:
                case.covered("multi-batch")
            for b in tr.batches:
                case.expect(len(b) <= (batch or 5), "batch-too-big", f"{len(b)} methods in one batch, batch size {batch or 5}")
            if {"scanApList", "getConnectStatus"} & set(q):
                case.covered("force-single")
            case.expect(set(res) == set(q), "missing-or-extra-methods", f"asked {sorted(q)}, got {sorted(res)}")
            for m, w in want.items():
                if m not in res:
                    continue
                if isinstance(w, tuple):
                    case.covered("error-in-multi")
                    case.expect(res[m] is refs_code(w[1]), "wrong-error-in-place", f"{m}: device error {w[1]} reported as {res[m]!r}")
                else:
                    if w is None:
                        case.covered("absent-result")
                    case.expect(not isinstance(res[m], SmartErrorCode) and refs.canon(res[m]) == refs.canon(w),
                                "wrong-result", f"{m}: {res[m]!r:.200} instead of {w!r:.200}")

    finish(case, vrun(main))
    if any(s[0] > 1 for s in shapes):
        case.nontrivial((style, batch, shapes, spec["shuffle"], spec["stop"], len(spec["omit"]), spec["refuse"]))
    case.sample = {"style": style, "batch": batch, "spec": {k: v for k, v in spec.items() if k != "table"}, "queries": shapes}


def expected(t, params):
    if t is None:
        return ("err", -1002)
    if t[0] == "err":
        return ("err", t[1])
    if t[0] == "absent":
        return None
    return {"v": t[1], "echo": params or None}


FAMILIES = [Family("multi", f_multi, 60000, 1500000)]
