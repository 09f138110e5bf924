"""C07: paged lists come back complete, ordered and without duplicates."""
from __future__ import annotations

import asyncio
import json

from kasa import DeviceConfig, KasaException
from kasa.exceptions import _ConnectionError
from kasa.exceptions import TimeoutError as KTimeout
from kasa.protocols import SmartCamProtocol, SmartProtocol
from kasa.transports import BaseTransport
from kmon import gen, refs
from kmon.core import Family
from kmon.history import finish
from kmon.vloop import vrun

RULE = ("random paged lists (length, page size, extra fields, variable page sizes) mixed with plain methods in single and batched "
        "queries over SMART and camera protocols, with failing pages, lost connections, refused batches and devices returning "
        "empty pages; non-trivial = at least one list needed a second page, identified by the list shapes and query composition")
REQUIRED_COVER = ["smart", "cam", "single", "multi", "two-lists", "many-pages", "empty-list", "exact-page", "failed-page",
                  "empty-page", "recovered", "batch-1", "refused", "requeried", "varying-pages"]
ASSUMPTIONS = ["the device is a method table behind the public transport interface; lists do not change while being read"]


class Pager(BaseTransport):
    default_port = 80
    credentials_hash = None

    def __init__(self, case, config, spec):
        super().__init__(config=config)
        self.case, self.spec = case, spec
        self.pages, self.n, self.refused = {}, 0, 0
        self.fail_next = None

    def one(self, m, params):
        spec, rng = self.spec, self.case.rng
        lst = spec["lists"].get(m)
        if lst is None:
            return {"error_code": 0, "result": {"plain": m, "p": params or None}}
        if spec["style"] == "cam":
            start = ((params or {}).get("sec") or {}).get("start_index", 0)
            if set(params or {}) - {"sec"}:
                self.case.violate("wrong-page-request", f"{m} asked with {params}")
        else:
            start = (params or {}).get("start_index", 0)
        self.pages.setdefault(m, []).append(start)
        if len(self.pages[m]) > 1000:
            raise RuntimeError("endless paging")
        size = lst["page"] if not lst["vary"] else rng.randrange(1, lst["page"] + 1)
        if start and lst["stuck"]:
            self.case.covered("empty-page")
            part = []
        else:
            part = lst["items"][start:start + size]
        if start and spec["code"] and rng.random() < spec["p_fail"]:
            self.case.covered("failed-page")
            self.fail_next = True
            return {"error_code": spec["code"]}
        res = {lst["key"]: part, "start_index": start, "sum": len(lst["items"]), **lst["extra"]}
        if lst["rev"]:
            res = dict(reversed(list(res.items())))
        return {"error_code": 0, "result": res}

    async def send(self, request):
        await asyncio.sleep(0)
        self.n += 1
        if self.n > 3000:
            raise RuntimeError("endless paging")
        rng, spec = self.case.rng, self.spec
        o = json.loads(request)
        if rng.random() < spec["p_net"]:
            self.case.covered("net-fault")
            raise rng.choice([_ConnectionError("x"), KTimeout("t")])
        if o["method"] != "multipleRequest":
            return json.loads(json.dumps(self.one(o["method"], o.get("params"))))
        if spec["refuse"] and len(o["params"]["requests"]) > 1:
            self.refused += 1
            self.case.covered("refused")
            return {"error_code": -1003}
        out = []
        for r in o["params"]["requests"]:
            if r["method"] in spec["omit"] and len(o["params"]["requests"]) > 1:
                self.case.covered("requeried")
                continue
            out.append({"method": r["method"], **self.one(r["method"], r.get("params"))})
        if spec["shuffle"]:
            rng.shuffle(out)
        return json.loads(json.dumps({"error_code": 0, "result": {"responses": out}}))

    async def close(self):
        pass

    async def reset(self):
        pass


def f_lists(case):
    rng = case.rng
    style = rng.choice(["smart", "cam"])
    case.covered(style)
    lists = {}
    for i in range(rng.randrange(1, 4)):
        page = rng.choice([1, 2, 3, 5, 10, 25])
        n = rng.choice([0, 1, page - 1, page, page + 1, 2 * page, 2 * page + 1, 3 * page - 1, rng.randrange(0, 60)])
        items = [rng.choice([{"id": k, "n": gen.rtext(rng, 3)}, k, f"s{k}", {"id": k}]) for k in range(n)]
        if rng.random() < 0.2 and n:
            items = [items[0]] * n          # equal elements are still separate elements
        lists[rng.choice(["get_child_device_list", "getList", "get_rules", "get_wireless_scan_info", "zlist"]) + (str(i) if i else "")] = {
            "page": page, "items": items, "key": rng.choice(["child_device_list", "rule_list", "ap_list", "x"]),
            "extra": rng.choice([{}, {"wep_supported": True}, {"z": {"q": 1}}]), "vary": rng.random() < 0.2,
            "rev": rng.random() < 0.3, "stuck": rng.random() < 0.07}
        case.covered(*(["empty-list"] if n == 0 else []), *(["exact-page"] if n == page else []),
                     *(["many-pages"] if n > 3 * page else []))
    plain = [f"get_p{i}" for i in range(rng.choice([0, 1, 3, 9]))]
    names = [*lists, *plain]
    spec = {"style": style, "lists": lists, "shuffle": rng.random() < 0.3, "refuse": rng.random() < 0.1,
            "code": rng.choice([0, 0, 0, -1001, -1008, -40101, 9999]), "p_fail": 0.15,
            "p_net": rng.choice([0, 0, 0, 0.05, 0.2]),
            "omit": set(rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2]))))}
    batch = rng.choice([None, None, 1, 2, 5, 10])
    if batch == 1:
        case.covered("batch-1")
    if any(v["vary"] for v in lists.values()):
        case.covered("varying-pages")

    async def main(loop):
        tr = Pager(case, DeviceConfig("10.0.0.7", batch_size=batch), spec)
        proto = (SmartProtocol if style == "smart" else SmartCamProtocol)(transport=tr)
        for _ in range(rng.randrange(1, 4)):
            chosen = rng.sample(names, rng.randrange(1, len(names) + 1))
            q = {}
            for m in chosen:
                if style == "cam":
                    q[m] = {"sec": rng.choice([{"start_index": 0}, {}])} if m in lists else {"sec": {"name": "n"}}
                else:
                    q[m] = rng.choice([None, {}, {"start_index": 0}]) if m in lists else rng.choice([None, {"a": 1}])
            case.covered("single" if len(q) == 1 else "multi")
            if sum(m in lists for m in q) > 1:
                case.covered("two-lists")
            before = json.dumps(q)
            tr.pages, tr.n, tr.fail_next = {}, 0, None
            n0 = tr.n
            try:
                res = await proto.query(q)
            except KasaException as ex:
                case.expect(spec["p_net"] or tr.fail_next, "query-failed", f"{ex!r} although every page was served", pages=tr.pages)
                continue
            case.expect(json.dumps(q) == before, "request-mutated", f"{before} -> {q}")
            if tr.fail_next:
                case.covered("recovered")
            for m in chosen:
                if m not in lists:
                    case.expect(res.get(m, {}).get("plain") == m, "wrong-result", f"{m}: {res.get(m)!r:.200}")
                    continue
                lst = lists[m]
                got = res.get(m)
                if lst["stuck"] and len(lst["items"]) > lst["page"] or (lst["stuck"] and lst["vary"]):
                    continue        # the device keeps no promise; only termination is judged
                if not case.expect(isinstance(got, dict) and isinstance(got.get(lst["key"]), list), "list-missing", f"{m}: {got!r:.200}"):
                    continue
                case.expect(refs.canon(got[lst["key"]]) == refs.canon(lst["items"]), "list-not-complete",
                            f"{m}: {len(got[lst['key']])} of {len(lst['items'])} elements (page {lst['page']}), or wrong order/duplicates",
                            got=got[lst["key"]], want=lst["items"], pages=tr.pages.get(m))
                case.expect({k: v for k, v in got.items() if k not in (lst["key"], "start_index", "sum")} == lst["extra"],
                            "list-extra-changed", f"{m}: {got!r:.300}")
                if not spec["p_net"] and not tr.fail_next and not tr.refused and not lst["vary"]:
                    want = list(range(0, max(len(lst["items"]), 1), lst["page"]))
                    case.expect(tr.pages[m] == want, "wrong-pages-asked", f"{m}: pages from {tr.pages[m]}, expected {want}")

    finish(case, vrun(main))
    if any(len(v["items"]) > v["page"] for v in lists.values()):
        case.nontrivial((style, batch, [(len(v["items"]), v["page"], v["vary"]) for v in lists.values()], len(plain), len(spec["omit"])))
    case.sample = {"style": style, "batch": batch, "lists": {k: (len(v["items"]), v["page"]) for k, v in lists.items()}}


FAMILIES = [Family("lists", f_lists, 40000, 800000)]
