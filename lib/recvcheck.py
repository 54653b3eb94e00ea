"""Runs receive scenarios on the code and validates the traces against Receiver."""
import vlib
from gen_recv import *

KEEP = ("id", "server", "maxf", "maxm", "items", "raw", "tot")


def to_trace(sc, ev):
    t = {k: sc[k] for k in KEEP}
    t["ev"] = ev
    t["mark"] = sc.get("mark", -1)
    return t


def run(chk, scens, module="TraceRecv", sample=2, why_filter=None, finding=None, timeout=20, heap="8g"):
    """finding(sc, why) -> known-finding id or None"""
    if not scens:
        return {}
    evs = vlib.run_harness(scens, chk.wd, timeout=timeout)
    byid = {s["id"]: s for s in scens}
    traces = [to_trace(s, evs[s["id"]]) for s in scens if s["id"] in evs]
    acc, rej, r = vlib.validate(module, traces, chk.wd, heap=heap)
    cls = {}
    for s in scens:
        c = "%s/%s" % (s.get("cls", ""), s["api"])
        cls[c] = cls.get(c, 0) + 1
    chk.add_traces(module, traces, rej, r, cls)
    for t in traces[:: max(1, len(traces) // sample)][:sample]:
        s = byid[t["id"]]
        chk.sample(dict(cls=s.get("cls"), api=s["api"], server=s["server"], feed=s["feed"][:12], items=s["items"][:3], raw=s["raw"][:40], ev=t["ev"][:4]))
    for i, (l, why) in sorted(rej.items()):
        s = byid[i]
        if why_filter and not why_filter(s, why):
            continue
        chk.violation(why, dict(kind="recv", scenario=s, events=evs[i], event=l, why=why), finding(s, why) if finding else None)
    return dict(acc=acc, rej=rej, traces=traces, evs=evs)
