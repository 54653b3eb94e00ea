"""Checks decided by the Sender specification (P03, P05, P10 send half, P27, P29)."""
import json, re
import vlib
from gen_send import *

Q = vlib.QUICK


def N(quick, thorough):
    return quick if Q else thorough


def run(chk, scens, why_filter=None, tag=""):
    if not scens:
        return {}
    evs = vlib.run_harness(scens, chk.wd, tag="s" + tag)
    byid = {s["id"]: s for s in scens}
    traces = []
    for s in scens:
        ev = evs.get(s["id"])
        if ev is None:
            continue
        wire = []
        for e in ev:
            if e["k"] == "wire":
                wire = e.pop("w")
        traces.append(dict(id=s["id"], mask=s["mask"], fresh=s["fresh"], wire=wire, ev=ev))
    acc, rej, r = vlib.validate("TraceSend", traces, chk.wd, tag=tag)
    cls = {}
    for s in scens:
        c = "%s/%s" % (s["cls"], s["api"])
        cls[c] = cls.get(c, 0) + 1
    chk.add_traces("TraceSend", traces, rej, r, cls)
    for t in traces[:: max(1, len(traces) // 2)][:2]:
        s = byid[t["id"]]
        chk.sample(dict(cls=s["cls"], api=s["api"], mask=s["mask"], ops=s["ops"][:3], sched=s["sched"][:10], ev=[dict(e, a=None) for e in t["ev"][:4]], wire=t["wire"][:2]))
    for i, (l, why) in sorted(rej.items()):
        s = byid[i]
        if why_filter and not why_filter(s, why):
            continue
        chk.violation(why, dict(kind="send", scenario=s, events=evs[i], event=l, why=why))
    return {t["id"]: t for t in traces}


def models(chk):
    chk.model("MCSender", "MCSender.cfg")
    chk.model("MCSender", "MCSink.cfg")


def model_behaviours(chk):
    r = vlib.run_tlc("MCSenderGen", "MCSenderGen.cfg", wd=chk.wd)
    if not r.ok:
        raise vlib.ToolError("behaviour generation failed")
    chk.add_model(r, "MCSenderGen.cfg")
    out = []
    for m in re.finditer(r'<<"BEH", "(.*)">>', r.out):
        out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return out


def key_of(fr):
    return fr["h"][-4:] if len(fr["h"]) >= 6 and fr["h"][1] & 0x80 else None


def p03(chk):
    models(chk)
    g = SGen(chk.rng)
    r = g.rng
    # every API, both roles, every kind of frame and size class: mask bit and exact masking
    for api in SYNC_APIS + ASYNC_APIS:
        for mask in ([False] if "acc" in api else [True] if "conn" in api else [True, False]):
            for _ in range(N(3, 20)):
                g.add(api, [g.any_op(api, big=r.random() < .05) for _ in range(r.randrange(3, 9))], mask, cls="roles")
            for t in (1, 2, 8, 9, 10):
                for n in (0, 1, 125) if t >= 8 else (0, 1, 125, 126, 65535, 65536):
                    o = {"mcodec": "own", "aacc": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(api)
                    if t == 8 and n == 125:
                        n = 123
                    g.add(api, [g.msg_op(o, t, n)], mask, cls="kind-size")
    # long histories: keys fresh over the connection, for mixed and for uniform traffic, within and between sizes
    long = []
    for api in SYNC_APIS + ASYNC_APIS:
        if "acc" in api:
            continue
        for kind in ("mixed", "uniform", "alternating"):
            k = N(64, 200)
            if kind == "mixed":
                ops = [g.any_op(api) for _ in range(k)]
            elif kind == "uniform":
                o = {"mcodec": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(api)
                one = r.choice([g.msg_op(o, 9, 4), g.msg_op(o, 1, 5), g.msg_op(o, 2, 0), g.msg_op(o, 8, 2)])
                ops = [dict(one) for _ in range(k)]
            else:
                ops = [g.msg_op({"mcodec": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(api), t, 3) for _ in range(k // 2) for t in (2, 10)]
            long.append(g.add(api, ops, True, cls="fresh-" + kind, fresh=True))
    # many short connections: first and second keys across connections and processes
    for api in ("sender", "client", "serialize", "writer", "conn", "mcodec", "dcodec", "aconn"):
        for _ in range(N(50, 120)):
            o = {"mcodec": "own", "aconn": "own", "paircodec": "own"}.get(api)
            g.add(api, [g.msg_op(o, r.choice([1, 2, 9]), 4) for _ in range(2)], True, cls="first/" + api)
    tr = run(chk, g.out)
    seqs = {}
    for s in g.out:
        if s["cls"].startswith("first/") and s["id"] in tr:
            ks = [key_of(f) for f in tr[s["id"]]["wire"]]
            for i in (0, 1):
                if len(ks) > i and ks[i]:
                    seqs.setdefault((s["api"], i), []).append(ks[i])
                    seqs.setdefault(("all", i), []).append(ks[i])
    # the generator itself, in separate processes
    for p in range(4):
        ev = vlib.run_harness([dict(id=1, fam="mask", mode="gen", count=300, key=[0, 0, 0, 0])], chk.wd, shards=1, tag="g%d" % p)
        for e in ev.get(1, []):
            if e["k"] == "gen":
                for j, k in enumerate(e["keys"]):
                    seqs.setdefault(("generator", 0), []).append(k)
                    seqs.setdefault(("process", p), []).append(k)
    seqs.setdefault(("generator", 0), [])
    # every form, kind and small size of frame through every client API: its own keys, over four connections
    cat, g3 = {}, SGen(chk.rng)
    for api in SYNC_APIS + ASYNC_APIS:
        if "acc" in api:
            continue
        forms = {"mcodec": ["own"], "aconn": ["own"], "paircodec": ["own"], "msgcodec": ["msg"]}.get(api, ["own", "msg", "owndf", "msgdf", "df"])
        for o in forms:
            for t in range(16) if o == "df" else (1, 2, 8, 9, 10):
                for n in (0, 3):
                    if o == "df":
                        op = dict(g3.df_op(t=t, n=n), rsv=0)
                    else:
                        op = g3.msg_op(o, t, n)
                        if t == 8 and n == 0:
                            op = dict(o=o, t=8, code=-1, p=[])
                    for _ in range(4):
                        s = g3.add(api, [dict(op) for _ in range(16)], True, cls="one-kind")
                        cat[s["id"]] = ("kind-%s-%s-%d-%d" % (api, o, t, n), 0)
    ev = vlib.run_harness(g3.out, chk.wd, tag="ok")
    for s in g3.out:
        for e in ev.get(s["id"], []):
            if e["k"] == "wire":
                seqs.setdefault(cat[s["id"]], []).extend(k for k in (key_of(f) for f in e["w"]) if k)
    # histories of tens of thousands of frames: keys must not come round again
    NS = N(20000, 150000)
    streams = [dict(id=i + 1, fam="mask", mode="stream", route=rt, count=NS, len=ln, key=[0, 0, 0, 0]) for i, (rt, ln) in enumerate((("sender", 0), ("codec", 3), ("serialize", 125)))]
    ev = vlib.run_harness(streams, chk.wd, tag="ks")
    for sc in streams:
        seqs[("stream-" + sc["route"], 0)] = [k for e in ev.get(sc["id"], []) if e["k"] == "gen" for k in e["keys"]]
    need = lambda k: 64 if k[0].startswith("kind") else 256 if k[0] == "generator" else NS if k[0].startswith("stream") else 48
    traces = [dict(id=i + 1, keys=v, min=need(k)) for i, (k, v) in enumerate(sorted(seqs.items()))]
    acc, rej, t = vlib.validate("TraceKeys", traces, chk.wd)
    chk.add_traces("TraceKeys", traces, rej, t)
    for i, (l, why) in rej.items():
        chk.violation(why + "-across-connections", dict(kind="keys", source=sorted(seqs)[i - 1], keys=traces[i - 1]["keys"][:80]))
    chk.assumptions.append("freshness is judged statistically: repetitions, constant differences, rotations, stuck bits and linear dependence over 64+ frames per connection and over connections and processes; a cryptographic weakness that passes these tests is not seen")


def p05(chk):
    models(chk)
    g = SGen(chk.rng)
    r = g.rng
    for api in SYNC_APIS + ASYNC_APIS:
        msgonly = {"mcodec": ["own"], "aacc": ["own"], "aconn": ["own"], "paircodec": ["own"], "msgcodec": ["msg"]}.get(api)
        for mask in ([False] if "acc" in api else [True] if "conn" in api else [True, False]):
            # every boundary of every length form, each kind and representation
            ops = []
            for t in (1, 2):
                for n in [0, 1, 125, 126, 127, 65535, 65536] + ([] if Q else BIG):
                    if n > 60000 and Q and r.random() < .6:
                        continue
                    for o in msgonly or ["own", "msg", "owndf", "msgdf"]:
                        ops.append(g.msg_op(o, t, n))
            for t in (9, 10, 8):
                for n in (0, 1, 2, 122, 123) + ((124, 125) if t != 8 else ()):
                    for o in msgonly or ["own", "msg", "owndf", "msgdf"]:
                        ops.append(g.msg_op(o, t, n))
            if not msgonly:
                for t in range(16):
                    for rsv in range(8):
                        d = g.df_op(t=t, n=r.choice([0, 1, 5]))
                        d["rsv"] = rsv
                        ops.append(d)
                for n in (125, 126, 65535, 65536):
                    for fin in (True, False):
                        d = g.df_op(t=r.randrange(8), n=n)
                        d["fin"] = fin
                        ops.append(d)
            r.shuffle(ops)
            for i in range(0, len(ops), 8):
                g.add(api, ops[i:i + 8], mask, cls="boundaries")
            for n in huge_sizes(r, 1):
                g.add(api, [g.msg_op((msgonly or [None])[0], r.choice([1, 2]), n), g.msg_op((msgonly or [None])[0], 9, 3)], mask, cls="huge")
            # oversized control frames among others
            for _ in range(N(6, 40)):
                ops = []
                for _ in range(r.randrange(1, 6)):
                    ops.append(g.refused_op(api) if r.random() < .5 else g.any_op(api))
                ops.insert(r.randrange(len(ops) + 1), g.refused_op(api))
                g.add(api, ops, mask, cls="oversized-control")
            for _ in range(N(4, 60)):
                g.add(api, [g.any_op(api, big=r.random() < .1) for _ in range(r.randrange(1, 8))], mask, cls="random")
    run(chk, g.out)


def p29(chk):
    models(chk)
    g = SGen(chk.rng)
    r = g.rng
    beh = model_behaviours(chk)
    r.shuffle(beh)
    for b in beh[:N(500, 2400)]:
        ops = []
        for f in b["asked"]:
            if f["op"] in (8, 9, 1) and r.random() < .6:
                o = r.choice(MSG_OPS)
                code = -1
                ln = f["len"]
                if f["op"] == 8 and ln >= 2:
                    code, ln = 1000, ln - 2
                ops.append(dict(o=o, t=f["op"], code=code, p=[[97, ln]] if ln else []))
            else:
                ops.append(dict(o="df", fin=f["fin"], rsv=0, t=f["op"], p=[[98, f["len"]]] if f["len"] else []))
        sched = ["rst" if x == 0 else x for x in b["sched"]]
        for api in [r.choice(["sender", "client", "writer", "serialize"])]:
            g.add(api, ops, False, sched=sched, cls="model")
    chk.detail["model_behaviours"] = {"available": len(beh), "run_on_code": min(len(beh), N(500, 2400))}
    # blocking: partial writes, interruptions, failure at every point
    for _ in range(N(260, 4000)):
        api = r.choice(SYNC_APIS)
        s = g.add(api, [g.any_op(api, big=r.random() < .08) for _ in range(r.randrange(1, 6))], cls="partial")
        if r.random() < .2:
            s["ops"].insert(r.randrange(len(s["ops"]) + 1), g.refused_op(api))
        s["sched"] = g.sched(g.total(s), ("in",) if r.random() < .6 else (), .3)
    for _ in range(N(6, 40)):
        api = r.choice(SYNC_APIS)
        ops = [g.msg_op("own", t=r.choice([1, 2, 9]), n=r.choice([0, 1, 3, 9, 20])) for _ in range(2)]
        mask = role_of(api, r)
        tot = g.total(dict(ops=ops, mask=mask))
        for k in range(tot + 1):
            kind = r.choice(["rst", "rst", "eof", "wb", "to"])
            g.add(api, ops, mask, sched=([k] if k and r.random() < .5 else [1] * k) + [kind], cls="fail-at-every-byte")
    # sinks under back-pressure
    for _ in range(N(260, 4000)):
        api = r.choice(ASYNC_APIS)
        k = r.randrange(1, 7)
        ops = []
        for _ in range(k):
            ops.append(g.any_op(api, big=r.random() < .25))
            if r.random() < .25:
                ops.append(dict(o="flush"))
            if r.random() < .1:
                ops.append(dict(o="swap"))
        if r.random() < .15:
            ops.insert(r.randrange(len(ops) + 1), g.refused_op(api))
        s = g.add(api, ops, cls="sink")
        end = "rst" if r.random() < .15 else None
        tot = g.total(s)
        s["sched"] = g.sched(tot if not end else max(1, tot // 2), ("wb",), r.choice([.2, .5]), end)
        # a transport that buffers: only flushing puts the bytes on the wire
        if r.random() < .4:
            s["hold"] = r.choice([0, 0, 1, 2, 5])
    # long queues over the write buffer's boundary
    for api in ASYNC_APIS:
        for _ in range(N(4, 30)):
            ops = [g.any_op(api, big=r.random() < .3) for _ in range(N(15, 40))]
            s = g.add(api, ops, cls="sink-long")
            s["sched"] = ["wb"] * r.randrange(1, 10) + g.sched(g.total(s), ("wb",), .4)
    run(chk, g.out)


def p10_send(chk):
    """close payloads and pongs as sent"""
    g = SGen(chk.rng)
    r = g.rng
    for api in SYNC_APIS + ASYNC_APIS:
        only = {"mcodec": ["own"], "aacc": ["own"], "aconn": ["own"], "paircodec": ["own"], "msgcodec": ["msg"], "dcodec": ["own", "msg"]}.get(api, ["own", "msg", "owndf", "msgdf"])
        for o in only:
            ops = [dict(o=o, t=8, code=-1, p=[])]
            for n in (0, 1, 2, 60, 122, 123):
                ops.append(g.msg_op(o, 8, n))
                ops[-1]["code"] = r.choice(CODES) if n else 1000
            for n in (0, 1, 124, 125):
                ops.append(g.msg_op(o, 9, n))
                ops.append(g.msg_op(o, 10, n))
            g.add(api, ops, cls="control")
        if api in SYNC_APIS:
            g.add(api, [dict(o="pong", t=10, code=-1, p=g.payload(2, n)) for n in (0, 1, 5, 125)], cls="into-pong")
    run(chk, g.out, tag="c")


def run_mask(chk, out):
    evs = vlib.run_harness(out, chk.wd)
    traces = []
    for s in out:
        if s["id"] in evs:
            d, big = unblob(s["p"]), s["mode"].startswith("big")
            traces.append(dict(id=s["id"], mode=s["mode"], key=s["key"], d=[] if big else list(d), cols=[blob(d[c::4]) for c in range(4)] if big else [], ev=evs[s["id"]]))
    acc, rej, t = vlib.validate("TraceMask", traces, chk.wd)
    chk.add_traces("TraceMask", traces, rej, t, {m: sum(1 for s in out if s["mode"] == m) for m in ("data", "masker", "twice", "bigdata", "big")})
    chk.sample(traces[len(traces) // 3])
    chk.sample(traces[-1])
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind="mask", scenario=out[i - 1], events=evs[i], event=l, why=why))


def p27(chk):
    chk.model("MCMasker", "MCMasker.cfg")
    r = chk.rng
    out = []

    def add(**kw):
        kw.update(id=len(out) + 1, fam="mask", flush=r.random() < .3)
        out.append(kw)

    def cuts(n):
        c = []
        while n > 0:
            k = r.randrange(0, min(n, 9) + 1)
            c.append(k)
            n -= k
        return c

    def key():
        return [r.choice([0, 1, 0xFF, r.randrange(256)]) for _ in range(4)]
    for n in list(range(0, N(20, 40))) + [100, 127, 128, 255]:
        d = bytes(r.randrange(256) for _ in range(n))
        add(mode="data", key=key(), p=blob(d), cuts=[], sched=[])
    # slices at every alignment, of every length that a word-wise loop could treat differently
    for off in range(0, 17):
        for n in (list(range(0, N(24, 70))) if Q else list(range(0, 140))):
            if Q and r.random() < .35:
                continue
            d = bytes(r.randrange(256) for _ in range(n))
            add(mode="data", key=[r.randrange(256) for _ in range(4)], p=blob(d), cuts=[], sched=[], off=off)
    for n in (1023, 1024, 4097):
        add(mode="data", key=[r.randrange(256) for _ in range(4)], p=blob(bytes(r.randrange(256) for _ in range(n))), cuts=[], sched=[], off=r.randrange(16))
    # large payloads
    for n in [4095, 4096, 8191, 16385, 65535, 65536, 65537, 131070, 131073, 262147, 1048577] + [r.randrange(5000, 400000) for _ in range(N(10, 60))] + ([] if Q else [16777219, 5000003]):
        for mode in ("bigdata", "big"):
            p, left = [], n
            while left > 0 and len(p) < 24:
                k = min(left, r.choice([1, 3, 1000, 4096, r.randrange(1, n)]))
                p.append([(p[-1][0] + r.randrange(1, 256)) % 256 if p else r.randrange(256), k])
                left -= k
            if left > 0:
                p.append([(p[-1][0] + 1) % 256, left])
            cs = [r.choice([1, 7, 4096, 4099, 65535, r.randrange(1, n)]) for _ in range(r.randrange(0, 6))]
            sched = [r.choice(["in", 1, 4095, 65535, 65537, r.randrange(1, n)]) for _ in range(r.randrange(0, 12))]
            add(mode=mode, key=[r.randrange(256) for _ in range(4)], p=p, cuts=cs, sched=sched, off=r.randrange(16))
    # every division of a short payload, writer taking everything
    L = N(7, 10)
    for mask in range(1 << (L - 1)):
        c, run_ = [], 1
        for i in range(L - 1):
            if mask >> i & 1:
                c.append(run_)
                run_ = 1
            else:
                run_ += 1
        c.append(run_)
        add(mode="masker", key=key(), p=blob(bytes(r.randrange(256) for _ in range(L))), cuts=c, sched=[], all=r.random() < .5)
        # the same as a pattern of partial acceptance of one write
        add(mode="masker", key=key(), p=blob(bytes(r.randrange(256) for _ in range(L))), cuts=[L], sched=c, all=r.random() < .5)
    for _ in range(N(250, 4000)):
        n = r.choice([r.randrange(1, 40), r.randrange(1, 200)])
        sched = []
        for _ in range(r.randrange(0, 40)):
            sched.append(r.choice(["in", r.randrange(1, 8), r.randrange(1, 4), 1]))
        if r.random() < .1:
            sched.append(r.choice(["rst", "wb", "eof"]))
        add(mode=r.choice(["masker", "masker", "twice"]), key=key(), p=blob(bytes(r.randrange(256) for _ in range(n))), cuts=cuts(n), sched=sched, all=r.random() < .4)
    run_mask(chk, out)
    # masked frames as the endpoints write them, over partial writes
    g = SGen(r)
    for _ in range(N(80, 800)):
        api = r.choice(["sender", "client", "serialize", "writer", "conn", "mcodec", "dcodec"])
        s = g.add(api, [g.any_op(api) for _ in range(r.randrange(1, 5))], True, cls="frames")
        s["sched"] = g.sched(g.total(s), ("in",) if api in SYNC_APIS else ("wb",), .2)
    for api in ["sender", "client", "serialize", "writer", "conn", "mcodec", "dcodec"]:
        for _ in range(N(2, 12)):
            s = g.add(api, [g.msg_op("own" if api == "mcodec" else None, 2, n=r.choice([65535, 65536, 70001, 131070, 200003, r.randrange(65536, 300000)]))], True, cls="large-frames")
            s["sched"] = g.sched(g.total(s), ("in",) if api in SYNC_APIS else ("wb",), .2) if r.random() < .7 else []
    run(chk, g.out)


def conv_scens(chk, n):
    g = SGen(chk.rng)
    r = g.rng
    out = []

    def add(m, ctor, ops):
        out.append(dict(id=len(out) + 1, fam="conv", ctor=ctor, t=m["t"], code=m["code"], p=m["p"], ops=ops))
    for t in (1, 2, 8, 9, 10):
        for ln in (0, 1, 2, 125, 126, 300) if t < 8 else (0, 1, 123, 124, 125, 126):
            for ctor in ("owned", "str", "vec", "cow", "from"):
                m = g.msg_op("own", t, ln)
                add(m, ctor, ["pong", "into", "cd", "into", "clone", "into", "into"] if r.random() < .5 else ["own", "msg", "cd", "pong", "own", "reframe", "msg", "split"])
    # every close code with a meaning, with and without a reason
    for code in CODES:
        for ln in (0, r.choice([1, 5, 123])):
            m = dict(g.msg_op("own", 8, ln), code=code)
            add(m, r.choice(["owned", "str", "vec", "cow", "from"]), ["own", "msg", "cd", "own", "reframe", "msg", "split"] if r.random() < .6 else ["into", "cd", "clone", "into", "pong", "into"])
    # text and reasons with every kind of character, whole scalar range sampled
    for _ in range(n):
        t = r.choice([1, 1, 2, 8, 8, 9, 10])
        m = g.msg_op("own", t, r.choice([0, 1, 2, 3, 5, 17, 60, 120]))
        if t in (1, 8) and m["p"] and r.random() < .5:
            m["p"] = blob("".join(r.choice(["\u0000", "\ufeff", "\ufffd", "\U0010ffff", "e\u0301", "\u00e9", "\r\n", "a", chr(r.randrange(0xe000, 0x10fffe))]) for _ in range(r.randrange(1, 12))).encode())
        add(m, r.choice(["owned", "str", "vec", "cow", "from"]), [r.choice(["into", "into", "into", "own", "msg", "clone", "reframe", "split", "pong", "cd"]) for _ in range(r.randrange(2, 9))])
    return out


def run_conv(chk, out):
    out = [dict(s, id=i + 1) for i, s in enumerate(out)]
    evs = vlib.run_harness(out, chk.wd, tag="cv")
    traces = [dict(id=s["id"], t=s["t"], code=s["code"], p=s["p"],
                   rep="owned" if s["ctor"] in ("owned", "from") else "message", ev=evs[s["id"]]) for s in out if s["id"] in evs]
    acc, rej, t = vlib.validate("TraceMessage", traces, chk.wd)
    chk.add_traces("TraceMessage", traces, rej, t)
    chk.sample(dict(traces[3], ev=traces[3]["ev"][:2]))
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind="conv", scenario=out[i - 1], events=evs[i], event=l, why=why))


def p26(chk):
    chk.model("MCMessage", "MCMessage.cfg")
    run_conv(chk, conv_scens(chk, N(500, 8000)))
    chk.assumptions.append("messages are made with the public constructors; values assembled by hand through public fields (a text message with invalid UTF-8, a code on a non-close message, a reason without a code) are not representable in both forms and are left out")


def p10_conv(chk):
    chk.model("MCMessage", "MCMessage.cfg")
    run_conv(chk, [s for s in conv_scens(chk, N(100, 2000)) if s["t"] >= 8 or "pong" in s["ops"]])
