import base64
import hashlib
"""Checks decided by the handshake specifications (P15-P22, P28 and parts of P11, P14)."""
import itertools
import json
import vlib
import recvcheck
from gen_hs import *
from wire import *

Q = vlib.QUICK


def N(quick, thorough):
    return quick if Q else thorough


# --------------------------------------------------------------------------- running
def split_ws(ev, headlen):
    """receive events out of a handshake trace, positions counted from the end of the head"""
    ws, rest, on = [], [], False
    for e in ev:
        if e["k"] == "ws":
            on = True
            continue
        if on and e.get("op") == "m":
            e = dict(e, a=max(0, e["a"] - headlen))
            ws.append(e)
        else:
            rest.append(e)
    return rest, ws


def customf(custom):
    return [dict(n=c[0], v=v) for c in custom for v in c[1]]


def net_servers(chk, g, per, tag="net", kinds=("accept", "reject", "invalid", "malformed", "truncated", "plain")):
    """whole servers on real sockets: what accept and incoming hand out, and what becomes of it"""
    r = g.rng
    ids = []
    for net in g.NETS:
        for i in range(per):
            for x in kinds:
                junk = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20, 300])))
                if x == "accept":
                    then = r.choice(["recv", "recv", "split", "into"])
                    kw = {}
                    if then == "into":
                        k = r.randrange(0, 3)
                        tail, sizes = g.simple_tail(True, k + r.randrange(0, 3))
                        tail, kw = tail + junk, dict(k=k, skip=sum(sizes[:k]))
                    else:
                        tail = to_raw(g.tail())
                    ids.append(g.netserver(net, g.request(), r.choice(["accept", "accept_with", "accept_lim", "accept_hl"]), cls=x, tail=tail, then=then,
                                           **(dict(lim=(INF - 1, INF - 1)) if then == "into" else {}), **kw))
                elif x == "reject":
                    ids.append(g.netserver(net, g.request(), r.choice(["reject", "reject_with", "drop", "dropfn", "none"]), cls=x, tail=r.choice([junk, to_raw(g.tail())])))
                elif x == "invalid":
                    ids.append(g.netserver(net, g.request(g.faults()), cls=x, tail=junk))
                elif x == "malformed":
                    ids.append(g.netserver(net, g.malformed(), cls=x, tail=junk))
                elif x == "truncated":
                    raw = g.request(g.faults() if r.random() < .5 else ())
                    ids.append(g.netserver(net, raw[:r.randrange(0, len(raw))], cls=x))
                else:
                    ids.append(g.netserver(net, g.request(), "accept", cls=x, then="recv", tail=to_raw(g.tail()), sel=False))
    return ids


PAUSE = 11000


def slow_servers(g):
    """clients that take their time: within the request, and before the first message"""
    for net in g.NETS:
        g.netserver(net, g.request(), g.rng.choice(["accept", "accept_with", "accept_lim", "accept_hl"]), cls="slow", tail=to_raw(g.tail(k=1)), then="recv", sel=False,
                    lim=(INF - 1, INF - 1), slow=True, pause=PAUSE)


def slow_clients(g):
    for fn in g.NETFN:
        p = g.response() + [dict(b=list(to_raw(g.tail(False, k=1))))]
        s = g.netclient([dict(ops=[], resp=p, feed=[], sched=[], then="recv", k=0, skip=0)], fn, cls="slow")
        s.update(slow=True, pause=PAUSE)


def server_traces(scens, evs):
    traces, recv = [], []
    for s in scens:
        ev = evs.get(s["id"])
        if ev is None:
            continue
        h = head_end(s["raw"])
        rest, ws = split_ws(ev, h)
        if s["entry"] in ("pair", "hyper") and any(e["k"] == "unparsed" for e in rest):
            if s.get("parsable", True):
                pass
            else:
                continue
        traces.append(dict(id=s["id"], raw=s["raw"], cuts=cum(s["feed"], len(s["raw"])), entry=s["entry"], act=s["act"], junk=s["junk"],
                           customf=customf(s["custom"]), protos=s["protos"], exts=s["exts"], wfail=s["wfail"], skip=s["skip"], httpver=s.get("httpver", ""), ev=rest))
        if ws:
            raw = s["raw"][h:]
            recv.append(dict(id=s["id"], server=True, maxf=min(s["maxf"], INF), maxm=min(s["maxm"], INF), items=[], raw=raw, tot=len(raw), mark=-1, ev=ws))
    return traces, recv


def report(chk, kind, module, scens, evs, traces, cls=True, tag=""):
    if not traces:
        return {}
    byid = {s["id"]: s for s in scens}
    acc, rej, t = vlib.validate(module, traces, chk.wd, tag=tag)
    c = {}
    for x in traces:
        s = byid[x["id"]]
        k = "%s/%s" % (s.get("cls", ""), s.get("entry") or s.get("api") or s.get("kind") or s.get("client", ""))
        c[k] = c.get(k, 0) + 1
    chk.add_traces(module, traces, rej, t, c)
    for x in traces[:: max(1, len(traces) // 2)][:2]:
        s = byid[x["id"]]
        chk.sample(dict(cls=s.get("cls"), scenario={k: s[k] for k in s if k not in ("raw", "id")}, ev=x["ev"][:3]), 6)
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind=kind, scenario=byid[i], events=evs[i][:60], event=l, why=why))
    return rej


def run_server(chk, scens, tag="", fill=None):
    if not scens:
        return {}
    evs = vlib.run_harness(scens, chk.wd, tag="sv" + tag)
    traces, recv = server_traces(scens, evs)
    report(chk, "srvhs", "TraceServerHs", scens, evs, traces, tag=tag)
    # a stream without one frame in it has nothing for the receiver specification to explain but its end
    report(chk, "srvhs", "TraceRecv", scens, evs, recv, tag="ws" + tag)
    return evs


def client_traces(scens, evs):
    traces, recv, owner = [], [], {}
    n = 0
    for s in scens:
        ev = evs.get(s["id"])
        if ev is None:
            continue
        parts, cur, u = [], None, s["u"]
        for e in ev:
            if e["k"] == "port":
                u = dict(u, port=e["p"])
            elif e["k"] == "step":
                cur = []
                parts.append(cur)
            elif cur is None:
                parts.append([e])
            else:
                cur.append(e)
        ops = []
        maxf, maxm = DEF_F, DEF_M
        for i, st in enumerate(s["steps"]):
            ops = ops + st["ops"]
            for o in st["ops"]:
                if o["o"] == "maxf":
                    maxf = o["v"]
                if o["o"] == "maxm":
                    maxm = o["v"]
            pe = parts[i] if i < len(parts) else []
            n += 1
            owner[n] = s["id"]
            raw = []
            pe2 = []
            for e in pe:
                if e["k"] == "resp":
                    raw = e["raw"]
                else:
                    pe2.append(e)
            h = head_end(raw)
            rest, ws = split_ws(pe2, h)
            reqlen = next((e["out"] for e in rest if e["k"] == "hs"), 0)
            traces.append(dict(id=n, u=u, ops=ops, raw=raw, cuts=cum(st["feed"], len(raw)) if "fn" not in s else [len(raw)], junk=st.get("junk", False), wfail=st.get("wfail", False),
                               skip=st.get("skip", 0), reqlen=reqlen, ev=rest))
            if ws:
                recv.append(dict(id=n, server=False, maxf=min(maxf, INF), maxm=min(maxm, INF), items=[], raw=raw[h:], tot=len(raw) - h, mark=-1, ev=ws))
    return traces, recv, owner


def run_client(chk, scens, tag=""):
    """returns the keys sent, per scenario and step, and the step outcomes"""
    if not scens:
        return [], {}
    evs = vlib.run_harness(scens, chk.wd, tag="cl" + tag)
    traces, recv, owner = client_traces(scens, evs)
    byid = {s["id"]: s for s in scens}
    view = [dict(byid[owner[i]], id=i) for i in owner]
    vev = {t["id"]: t["ev"] for t in traces}
    report(chk, "clihs", "TraceClientHs", view, vev, traces, tag=tag)
    report(chk, "clihs", "TraceRecv", view, {i: evs[owner[i]] for i in owner}, recv, tag="ws" + tag)
    return traces, owner


def run_simple(chk, scens, module, tag="", extra=None):
    if not scens:
        return {}
    evs = vlib.run_harness(scens, chk.wd, tag="x" + tag)
    traces = []
    for s in scens:
        if s["id"] not in evs:
            continue
        ev = evs[s["id"]]
        t = dict(id=s["id"], ev=ev)
        if module == "TraceHttp":
            t.update(fam=s["fam"], server=s["server"], raw=s.get("raw", []), junk=s.get("junk", False),
                     heads=[dict(h, fields=customf(h["headers"])) for h in s.get("heads", [])])
            for h in t["heads"]:
                h.pop("headers")
        elif module == "TraceHeader":
            t.update(kind=s["kind"], build=s["build"], v=s.get("v", []))
        elif module == "TraceNego":
            port = next((e["p"] for e in ev if e["k"] == "port"), 0)
            t.update(u=s["u"], port=port, ops=s["ops"], protos=s["protos"], exts=s["exts"], customf=customf(s["custom"]), ev=[e for e in ev if e["k"] != "port"])
        traces.append(t)
    kind = scens[0]["fam"]
    report(chk, kind, module, scens, evs, traces, tag=tag)
    return evs


# --------------------------------------------------------------------------- P15
def agree(chk, groups, evs, tag):
    """groups: lists of scenarios with the same bytes; all must offer or all must refuse"""
    traces, owner = [], {}
    for gi, g in enumerate(groups):
        runs = []
        for s in g:
            hs = [e for e in evs.get(s["id"], []) if e["k"] == "hs"]
            if hs:
                runs.append(dict(api=s["entry"], msgs=[hs[0]["r"]] + ([{k: hs[0][k] for k in ("method", "uri", "v11", "key", "protos", "exts", "origin")}] if hs[0]["r"] == "upgrade" else []), end=""))
        if len(runs) > 1:
            traces.append(dict(id=gi + 1, runs=runs))
            owner[gi + 1] = g
    acc, rej, t = vlib.validate("TraceSame", traces, chk.wd, tag=tag)
    chk.add_traces("TraceSame", traces, rej, t, {"entry points agree": len(traces)})
    for i, (l, why) in rej.items():
        chk.violation("entry-points-disagree", dict(kind="srvhs-group", scenarios=owner[i], event=l))


def p15(chk):
    chk.model("MCHandshake", "MCHandshake.cfg")
    g = HsGen(chk.rng)
    r = g.rng
    groups = []

    def all_entries(raw, cls, entries=ENTRIES):
        gr = [g.server(raw, e, cls=cls) for e in entries]
        groups.append(gr)
    for _ in range(N(80, 1500)):
        all_entries(g.request(), "valid")
    for f in g.FAULTS:
        for _ in range(N(7, 120)):
            all_entries(g.request([f]), "fault-" + f)
    for m in METHODS:
        all_entries(g.request(["method"], method=m), "fault-method")
    for _ in range(N(80, 1500)):
        all_entries(g.request(g.faults()), "faults")
    # every well-known header once
    for n, v in REQ_HDR:
        if Q and r.random() < .5:
            all_entries(g.request([r.choice(g.FAULTS)], known=False, more=[(n, v)]), "header-fault")
        all_entries(g.request(known=False, more=[(n, v)]), "header")
    # requests that someone else parsed or made, of every version there is, with headers set as values
    for v in ("0.9", "1.0", "1.1", "2.0"):
        for _ in range(N(8, 80)):
            g.server(g.request(g.faults() if r.random() < .4 else ()), "pair", httpver=v, typed=r.random() < .5, cls="made-version")
    for _ in range(N(40, 400)):
        raw = g.request(g.faults() if r.random() < .3 else (), known=False)
        g.server(raw, "pair", "accept" if r.random() < .5 else "none", typed=True, cls="made-typed")
    # lists with the token anywhere, and tokens that only look like it
    for name, good, bad in (("Upgrade", WS, NOTWS), ("Connection", UPG, NOTUPG)):
        for _ in range(N(12, 150)):
            raw = g.request(["noupgrade" if name == "Upgrade" else "noconnection"], more=listline(r, r.choice(good), bad[:3], name))
            all_entries(raw, "list")
            raw = g.request(["noupgrade" if name == "Upgrade" else "noconnection"], more=listline(r, r.choice(bad), bad, name))
            all_entries(raw, "list-without")
    # keys: exactly sixteen bytes, any value
    for _ in range(N(15, 200)):
        all_entries(g.request(key=b64([r.choice([0, 255, r.randrange(256)]) for _ in range(16)])), "key")
    for n in range(0, 40):
        all_entries(g.request(["nokey"], more=[("Sec-WebSocket-Key", b64([r.randrange(256)] * n))]), "key-length")
    # every value of the catalogues, with nothing else out of order
    key = b64(bytes(range(1, 17)))
    cats = {"Sec-WebSocket-Version": [[x] for x in CAT_VERSION] + [["13", "8"], ["8", "13"], ["", "13"], ["13", ""]],
            "Upgrade": [[x] for x in CAT_UPGRADE] + [["h2c", "websocket"], ["websocket", "h2c"], ["", "websocket"], ["foo", "bar"], ["web", "socket"]],
            "Connection": [[x] for x in CAT_CONNECTION] + [["close", "Upgrade"], ["Upgrade", "close"], ["keep-alive", "Upgrade"], ["", "upgrade"], ["up", "grade"]],
            "Sec-WebSocket-Key": [[x] for x in cat_key(key)] + [[key, key], [key, b64(b"0" * 16)], ["", key], [key, ""]]}
    for n in cats:
        for vs in cats[n]:
            all_entries(g.request(known=r.random() < .3, lines={n: vs}), "catalogue")
    # one thing wrong, and values elsewhere that might be taken to make up for it
    good = {"Connection": [x for x in CAT_CONNECTION if "upgrade" in [t.strip().lower() for t in x.split(",")]],
            "Upgrade": [x for x in CAT_UPGRADE if "websocket" in [t.strip().lower() for t in x.split(",")]]}
    for f in g.FAULTS:
        for n in good:
            if f in (("noconnection", "notupgrade", "emptyconnection") if n == "Connection" else ("noupgrade", "notws", "emptyupgrade")):
                continue
            for v in good[n] if f == "version" or not Q else r.sample(good[n], 4):
                all_entries(g.request([f], known=r.random() < .5, lines={n: [v]}), "makes-up")
    for n, v in REQ_HDR:
        all_entries(g.request(["version"], known=False, more=[(n, v)]), "makes-up")
    # values where recipients may differ, but not between entry points
    for _ in range(N(20, 300)):
        x = r.choice(["unpadded", "noncanon", "wsver2", "up13", "nontext", "absolute"])
        k = b64(bytes(r.randrange(256) for _ in range(16)))
        if x == "unpadded":
            raw = g.request(["nokey"], more=[("Sec-WebSocket-Key", k[:-2])])
        elif x == "noncanon":
            raw = g.request(["nokey"], more=[("Sec-WebSocket-Key", k[:21] + r.choice("BCDEFhijk") + "==")])
        elif x == "wsver2":
            raw = g.request(more=[("Sec-WebSocket-Version", "13")])
        elif x == "up13":
            raw = g.request(["noupgrade"], more=[("Upgrade", "websocket/13")])
        elif x == "nontext":
            raw = g.request(more=[(r.choice(["Upgrade", "Connection", "Sec-WebSocket-Protocol", "Origin", "X-Y"]), "f\xe9")])
        else:
            raw = g.request(target="http://example.com/x")
        all_entries(raw, "unclear")
    for e in ("sync", "async"):
        for _ in range(N(60, 800)):
            g.server(g.malformed(), e, cls="malformed")
    net_servers(chk, g, N(4, 60), kinds=("invalid", "malformed", "truncated", "plain"))
    evs = run_server(chk, g.out)
    agree(chk, groups, evs, "15")


CAT_VERSION = ["13", "", "0", "1", "3", "6", "7", "8", "9", "10", "11", "12", "14", "15", "20", "130", "131", "113", "213", "13.0", "13.1", "+13", "-13", "013", "0013", "13;", "13,", ",13", "13, 8", "8, 13", "13,13", "13, 13",
               "13 13", "1 3", "13 8", "0x0d", '"13"', "'13'", "v13", "13v", "x", "XIII", "13/1", "13=13", "13;q=1", "thirteen", "1", "3", "31", "13.", ".13", "99999999999999999999", "-1", "hixie-76", "*"]
CAT_UPGRADE = ["websocket", "WebSocket", "WEBSOCKET", "wEBSOCKET", "", ",", "websocket,", ",websocket", " , websocket", "h2c, websocket", "websocket, h2c", "websocket,h2c,TLS/1.0", "h2c,TLS/1.0,websocket", "websocket, websocket",
               "foo/1, WebSocket, bar/2", "web socket", "websocket foo", "foo websocket", "xwebsocket", "websocketx", "websocke", "websockets", "ws", '"websocket"', "websocket;q=1", "h2c", "TLS/1.0", "web-socket", "web_socket",
               "h2c,\twebsocket", ", ".join(["p%d" % i for i in range(40)] + ["websocket"]), ", ".join(["websocket"] + ["p%d" % i for i in range(40)]), "*", "foo/websocket", "HTTP/2.0", "websocket=1", "(websocket)"]
CAT_CONNECTION = ["Upgrade", "upgrade", "UPGRADE", "uPGRADE", "", ",", "Upgrade,", ",Upgrade", " , upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "close, Upgrade", "Upgrade, close", "close,keep-alive,upgrade", "close", "keep-alive",
                  "keep-alive, close", "Upgrade, Upgrade", "Upgrade, HTTP2-Settings", "HTTP2-Settings, Upgrade", "Sec-WebSocket-Key, Upgrade", "TE, upgrade, foo", "Upgrade foo", "foo Upgrade", "up grade", "up-grade", "xUpgrade", "Upgradex", "Upgrades",
                  "Upgrad", '"Upgrade"', "Upgrade;q=1", "Upgrade=1", "websocket", "keep-alive,\tUpgrade", ", ".join(["o%d" % i for i in range(40)] + ["Upgrade"]), "*", "Upgrade/1", "CLOSE, UPGRADE", "Keep-Alive, upgrade"]


def cat_key(k):
    """texts around a valid key"""
    return [k, k[:22], k[:23], k[:21] + "==", k + "=", k + "==", k + "A", "A" + k, k + k, k + "," + k, k + ", x", '"' + k + '"', k + ";", k.replace("=", ""), k.replace("=", "."), "=" + k[1:], k[:8] + "=" + k[9:], k[:10] + " " + k[10:],
            k[:10] + " " + k[11:], k[:5] + "-" + k[6:], k[:5] + "_" + k[6:], k[:5] + "!" + k[6:], k[:5] + "*" + k[6:], k.lower() if k.lower() != k else k, "", "=", "==", "====", "A" * 22 + "==", "A" * 24, "A" * 23 + "=", "/" * 22 + "==", "+" * 21 + "w==",
            b64(b"x" * 15), b64(b"x" * 17), b64(b"x" * 18), b64(b"x" * 16 + b"x" * 16), b64(b""), "AQ==", "00112233445566778899aabbccddeeff"]


# --------------------------------------------------------------------------- P16
def p16(chk):
    chk.model("MCHandshake", "MCHandshake.cfg")
    g = HsGen(chk.rng)
    r = g.rng
    for e in ENTRIES:
        for act in ("accept", "accept_with", "accept_lim", "accept_hl"):
            for _ in range(N(40, 700)):
                g.server(g.request(key=b64([r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(16)])), e, act, cls=act)
        # the headers that the library owns, alone and together, in any case
        for _ in range(N(25, 300)):
            cu = []
            for n, vs in r.sample([("Upgrade", ["foo", "h2c, websocket", "websocket"]), ("Connection", ["close", "keep-alive", "Upgrade", "keep-alive, Upgrade"]),
                                   ("Sec-WebSocket-Accept", ["AAAA", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "x"]), ("X-Keep", ["1"]), ("Set-Cookie", ["a=b"])], r.randrange(1, 6)):
                cu.append([B(mixcase(r, n)), [B(r.choice(vs)) for _ in range(r.choice([1, 1, 2]))]])
            g.server(g.request(), e, r.choice(["accept_with", "accept_hl"]), custom=cu, cls="reserved")
        # every well-known header once, on either side
        for n, v in REPLY_HDR:
            g.server(g.request(), e, r.choice(["accept_with", "accept_hl"]), custom=[[B(n), [B(v)]]], cls="header")
        for n, v in REQ_HDR:
            g.server(g.request(known=False, more=[(n, v)]), e, r.choice(["accept", "accept_with", "accept_lim", "accept_hl"]), cls="request-header")
        # transports that take the response in pieces, or not at all
        for _ in range(N(15, 200)):
            sched = [r.choice([1, 3, 10, 50] + (["in"] if e != "async" else ["wb"])) for _ in range(r.randrange(1, 40))]
            g.server(g.request(), e, r.choice(["accept", "accept_with"]), sched=sched, cls="pieces")
        for k in range(0, N(28, 100), N(3, 1)):
            g.server(g.request(), e, r.choice(["accept", "accept_with"]), sched=([k] if k else []) + [r.choice(["rst", "eof"])], wfail=True, cls="transport-fails")
    net_servers(chk, g, N(6, 80), kinds=("accept", "plain"))
    run_server(chk, g.out)


# --------------------------------------------------------------------------- P17
def p17(chk):
    chk.model("MCHandshake", "MCHandshake.cfg")
    g = HsGen(chk.rng)
    r = g.rng

    def conn(parts, cls, n=1, **kw):
        steps = []
        for _ in range(n):
            L = g.resp_len(parts)
            steps.append(dict(ops=kw["ops"] if "ops" in kw else [g.op() for _ in range(r.choice([0, 0, 0, 0, 1, 3, 6]))], resp=parts, feed=kw.get("feed") if kw.get("feed") is not None else g.feed(L, stops=["wb"] if kw.get("api") == "async" else []),
                              sched=kw.get("sched", []), then="none", k=0, junk=kw.get("junk", False), wfail=kw.get("wfail", False)))
        g.client(g.url(), steps, api=kw.get("api"), cls=cls)
    FA = ["noaccept", "twoaccept", "noupgrade", "notws", "noconnection", "notupgrade"]
    for api in ("sync", "async"):
        for _ in range(N(50, 800)):
            conn(g.response(), "good", api=api, n=r.choice([1, 1, 2]))
        for f in FA:
            for _ in range(N(10, 150)):
                conn(g.response([f]), "fault-" + f, api=api)
        for _ in range(N(30, 400)):
            conn(g.response(r.sample(FA, r.randrange(1, 4))), "faults", api=api)
        for i in range(27):
            p = g.response(acc="flip")
            for x in p:
                if "acc" in x:
                    x["i"] = i
            conn(p, "accept-flip", api=api)
        for acc in ("case", "trunc", "key", "other", "nomagic", "twice", "nopad"):
            for _ in range(N(4, 50)):
                conn(g.response(acc=acc), "accept-" + acc, api=api)
        # accept values that a lenient comparison could take for the right one
        almost = [dict(acc=a) for a in ("lowmagic", "rawkey", "keyspace", "hex", "urlsafe")]
        almost += [dict(acc="bytes", pre=[], keep=k, post=[]) for k in (0, 1, 4, 8, 10, 15, 16, 18, 19)]
        almost += [dict(acc="bytes", pre=[], skip=k, post=[]) for k in (1, 4, 10, 19)]
        almost += [dict(acc="bytes", pre=[], post=[c] * k) for c in (0, 1) for k in (1, 2, 3, 4, 12, 20, 44)]
        almost += [dict(acc="bytes", pre=[c] * k, post=[]) for c in (0, 1) for k in (1, 2, 3, 12, 20)]
        almost += [dict(acc="insert", i=i, t=B(t)) for i in (0, 1, 14, 27, 28) for t in ("=", "A", ",", '"', "x, ", ", x", ";q=1", "\x00", " =")]
        almost += [dict(acc="insert", i=i, t=B(t)) for i in (1, 14, 27) for t in (" ", "\t")]
        for a in almost:
            conn([dict(a) if "acc" in x else x for x in g.response()], "accept-almost", api=api)
        for code in (100, 102, 103, 199, 200, 201, 204, 206, 226, 300, 301, 302, 303, 304, 305, 307, 308, 310, 399, 400, 401, 403, 404, 407, 418, 426, 429, 500, 501, 503, 599, 600, 999):
            conn(g.response(["status"], code=code), "status", api=api)
            conn(g.response(["status", "location"], code=code), "status-location", api=api)
        for _ in range(N(20, 300)):
            conn(g.response(["status"] + r.sample(FA + ["location"], r.randrange(1, 4))), "status-faults", api=api)
            conn(g.response(["location"]), "good-location", api=api)
        for _ in range(N(10, 100)):
            conn(g.response(["status", "location"], code=r.choice([301, 302, 307]), loc=r.choice(["", "ws://h:1/p?q#f", "x" * 300, "ws://u:p@h/"])), "location", api=api)
        for raw in g.TINY_RESP:
            conn([dict(b=B(raw))], "tiny", api=api)
        # every status there is, and every value of the catalogues with nothing else out of order
        for code in range(0, 1000):
            if code != 101 and r.random() < N(.35, 1):
                p = g.response(["status"] + (["location"] if r.random() < .4 else []), status=code, known=False)
                conn([dict(b=B("HTTP/1.1 %03d X\r\n" % code))] + p[1:], "every-status", api=api)
        for n, cat in (("Upgrade", CAT_UPGRADE), ("Connection", CAT_CONNECTION)):
            for v in cat:
                conn(g.response(known=False, lines={n: [v]}), "catalogue", api=api)
        for pre, post in [(x, "") for x in ("x", '"', "=", ",", "A, ", " ", "\t", "0x", "'", "base64:")] + [("", x) for x in ("x", "=", "==", ",", ", x", ";", ";q=1", " x", " ", "\t", '"', "'", "A", "/")] + [('"', '"'), (" ", " "), ("<", ">")]:
            p = g.response(known=False)
            i = [k for k, x in enumerate(p) if "acc" in x][0]
            p[i:i + 1] = [dict(b=B(pre)), p[i], dict(b=B(post))]
            conn(p, "accept-around", api=api)
        # every well-known header once, in a good response and in one to refuse
        for n, v in RESP_HDR:
            conn(g.response(known=False, more=[(n, v)]), "header", api=api)
            for f in FA + ["status"] if not Q else r.sample(FA + ["status"], 2):
                conn(g.response([f] + (["location"] if r.random() < .2 else []), known=False, more=[(n, v)]), "header-fault", api=api)
        # one thing wrong, and values elsewhere that might be taken to make up for it
        for f in FA + ["status"]:
            for n, tok, cat, own in (("Connection", "upgrade", CAT_CONNECTION, ("noconnection", "notupgrade")), ("Upgrade", "websocket", CAT_UPGRADE, ("noupgrade", "notws"))):
                good = [x for x in cat if tok in [t.strip().lower() for t in x.split(",")]]
                for v in [] if f in own else good if not Q else r.sample(good, 4):
                    conn(g.response([f], known=False, lines={n: [v]}), "makes-up", api=api)
        # a response that never completes
        good = g.response()
        L = g.resp_len(good)
        for _ in range(N(25, 200)):
            k = r.randrange(0, L)
            conn(good, "incomplete", api=api, feed=g.feed(k, stops=["wb"] if api == "async" else []) + [r.choice(["eof", "rst"])])
        for _ in range(N(30, 400)):
            bad = r.choice([b"HTTP/1.1 1x1 X\r\n", b"HTTP/2.0 101 X\r\n", b"HTTP/1.1  101 X\r\n", b"HTP/1.1 101 X\r\n", b"\x01\x02\r\n", b"HTTP/1.1\r\n", b"101 HTTP/1.1\r\n", b"HTTP/1.1 10 X\r\n",
                            b"HTTP/1.1 1010 X\r\n", b"GET / HTTP/1.1\r\n", b"HTTP/1.1 -101 X\r\n"])
            p = [dict(b=B(bad))] + g.response()[1:]
            if r.random() < .4:
                p = g.response()
                p.insert(r.randrange(1, len(p) - 3), dict(b=B("")))
                p.insert(len(p) - 1, dict(b=B(r.choice([b"nocolon\r\n", b": empty\r\n", b"A B: c\r\n", b"X: a\x00b\r\n", b"\x7f\x01: a\r\n"]))))
            conn(p, "malformed", api=api)
        for _ in range(N(8, 60)):
            # the peer knows the key in advance, so that its answer is right though the request never arrived whole
            k = bytes(r.randrange(256) for _ in range(16))
            acc = base64.b64encode(hashlib.sha1(base64.b64encode(k) + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
            conn([dict(b=B(acc)) if "acc" in x else x for x in g.response()], "request-not-written", api=api, wfail=True,
                 ops=[dict(o="key", v=list(k))], sched=[r.choice([1, 10, 60, 130])] * r.choice([0, 1, 1]) + [r.choice(["rst", "eof"])])
    net_plain(g, r, N(4, 40), lambda: [], "net-good")
    net_plain(g, r, N(8, 80), lambda: [], "net-fault", respf=lambda: g.response(r.sample(FA + ["status", "location"], r.randrange(1, 3))))
    run_client(chk, g.out)
    chk.assumptions.append("a response with extra Upgrade tokens, a non-canonical base64 accept or an HTTP/1.0 status line may be taken or refused")


# --------------------------------------------------------------------------- P18
def slices(keys):
    """a 16-byte key as four 4-byte columns, and all its words in a row"""
    return [[k[4 * i:4 * i + 4] for k in keys] for i in range(4)] + [[k[4 * i:4 * i + 4] for k in keys for i in range(4)]]


def p18(chk):
    chk.model("MCBuilder", "MCBuilder.cfg")
    g = HsGen(chk.rng)
    r = g.rng

    def conn(u, opss=((),), cls="", api=None, **kw):
        steps = []
        for ops in opss:
            p = g.response()
            steps.append(dict(ops=list(ops), resp=p, feed=g.feed(g.resp_len(p)), sched=kw.get("sched", []), then="none", k=0))
        g.client(u, steps, api=api, cls=cls)
    for api in ("sync", "async"):
        for sch in ("ws", "wss", "http", "https"):
            for port in (-1, 80, 443, 8080, 1, 65535, 8443):
                for host in ("example.com", "127.0.0.1", "[::1]", "A.B") if not Q else (r.choice(["example.com", "A.B"]), r.choice(["127.0.0.1", "[::1]"])):
                    conn(g.url(scheme=sch, port=port, host=host), cls="authority", api=api)
        for path in ("", "/", "/a", "/a/b/", "/x%20y", "/p;v=1", "/%7Ea"):
            for q in (None, "", "a=b", "a?b", "x=%3F&y"):
                for f in (None, "", "frag?x"):
                    conn(g.url(path=path, hasq=q is not None, query=q or "", hasf=f is not None, frag=f or ""), cls="target", api=api)
        for user, hp, pw in (("u", False, ""), ("u", True, ""), ("u", True, "p"), ("Aladdin", True, "OpenSesame"), ("a.b", True, "x" * 50), ("user", True, "12"), ("user", True, "123"),
                             ("", True, "p"), ("", True, "only:this"), ("me%40home.org", True, "p%40ss"), ("a%2Fb", False, ""), ("u", True, "%3A%2f%3F%23"), ("100%25", True, "%2541"),
                             ("%C3%A9", True, "%e2%82%ac"), ("us\xc3\xa9r", True, "p\xe2\x82\xacss"), ("u", True, "a:b:c"), ("u@v", True, "w@x"), ("a b", True, 'c"d'), ("u", True, "%"), ("u", True, "%zz%4"),
                             ("%75%6C", True, "%70%77"), ("u+v", True, "a+b&c=d;!$'()*,~_-.")):
            for _ in range(N(2, 12)):
                conn(g.url(user=user, haspass=hp, **{"pass": pw}), cls="credentials", api=api)
        for _ in range(N(60, 1200)):
            conn(g.url(), [[g.op(auth=True) for _ in range(r.choice([0, 0, 1, 3]))] for _ in range(r.choice([1, 1, 2]))], cls="random", api=api)
        for _ in range(N(10, 100)):
            conn(g.url(), cls="pieces", api=api, sched=[r.choice([1, 5, 30] + (["in"] if api == "sync" else ["wb"])) for _ in range(r.randrange(1, 30))])
        # one builder, several connections, the same URL each time
        for _ in range(N(40, 400)):
            conn(g.url(hasq=r.random() < .8, query=r.choice(["a=b", "x", "", "q=%41&r"])), [()] * r.choice([2, 3, 4]), cls="again", api=api)
        # many connections from one builder, from clones, from fresh builders, after other keys
        u = g.url(user="", haspass=False)
        conn(u, [()] * N(60, 120), cls="keys-one", api=api)
        conn(u, [[dict(o="clone")]] * N(60, 120), cls="keys-clone", api=api)
        conn(u, [[dict(o="key", v=[7] * 16), dict(o=r.choice(["clrkey", "clrhdr"]), v=B("sec-websocket-key"))] for _ in range(N(60, 120))], cls="keys-cleared", api=api)
        for _ in range(N(60, 120)):
            conn(u, cls="keys-fresh", api=api)
    net_plain(g, r, N(10, 100), lambda: [g.op(auth=True) for _ in range(r.choice([0, 0, 2]))], "net", stepsn=(1, 2, 3))
    for fn in g.NETFN:
        for _ in range(N(2, 4)):
            g.netclient([dict(ops=[], resp=g.response(), feed=[], sched=[], then="none", k=0) for _ in range(24)], fn, cls="keys-net")
    traces, owner = run_client(chk, g.out)
    byid = {s["id"]: s for s in g.out}
    sets = {}
    for t in traces:
        s = byid[owner[t["id"]]]
        if s["cls"].startswith("keys-"):
            for e in t["ev"]:
                if e["k"] == "req":
                    for ln in e["lines"]:
                        ln = bytes(ln)
                        if ln.lower().startswith(b"sec-websocket-key:"):
                            try:
                                sets.setdefault((s["cls"], s["api"]), []).append(list(base64.b64decode(ln.split(b":", 1)[1].strip())))
                            except Exception:
                                pass
    kt, names = [], []
    for c, apis in [(x, ("sync", "async")) for x in ("keys-one", "keys-clone", "keys-cleared", "keys-fresh")] + [("keys-net", g.NETFN)]:
        for api in apis:
            for j, ks in enumerate(slices([k for k in sets.get((c, api), []) if len(k) == 16])):
                names.append((c, api, j))
                kt.append(dict(id=len(names), keys=ks, min=48))
    acc, rej, t = vlib.validate("TraceKeys", kt, chk.wd)
    chk.add_traces("TraceKeys", kt, rej, t)
    for i, (l, why) in rej.items():
        chk.violation(why, dict(kind="keys", source=names[i - 1], keys=kt[i - 1]["keys"][:80]))
    chk.assumptions.append("freshness of handshake keys is judged statistically, as for masking keys; URLs use characters the URL syntax does not rewrite; an empty user name with a password is left out")


# --------------------------------------------------------------------------- P19
def model_ops(chk):
    """operation sequences of the builder model"""
    import re
    res = vlib.run_tlc("MCBuilder", "MCBuilderGen.cfg", wd=chk.wd)
    if not res.ok:
        raise vlib.ToolError("behaviour generation failed")
    chk.add_model(res, "MCBuilderGen.cfg")
    return [json.loads(m.replace('\\"', '"')) for m in re.findall(r'<<"BEH", "(.*)">>', res.out)]


def p19(chk):
    chk.model("MCBuilder", "MCBuilder.cfg")
    g = HsGen(chk.rng)
    r = g.rng

    def conn(opss, cls, api=None, tail=b"", u=None, then="none"):
        steps = []
        for ops in opss:
            p = g.response()
            if tail:
                p.append(dict(b=list(tail)))
            steps.append(dict(ops=list(ops), resp=p, feed=g.feed(g.resp_len(p)), sched=[], then=then, k=0))
        g.client(u or g.url(user="", haspass=False), steps, api=api, cls=cls)
    beh = model_ops(chk)
    r.shuffle(beh)
    n = N(500, 6000)
    for b in beh[:n]:
        conn([b], "model")
    chk.detail["model_behaviours"] = {"available": len(beh), "run_on_code": min(len(beh), n)}
    for api in ("sync", "async"):
        for _ in range(N(120, 3000)):
            conn([[g.op() for _ in range(r.randrange(0, 12))] for _ in range(r.choice([1, 1, 2, 3]))], "random", api=api)
        for _ in range(N(30, 300)):
            u = g.url(user="u", haspass=True, **{"pass": "p"})
            conn([[g.op(auth=True) for _ in range(r.randrange(0, 8))]], "random-auth", api=api, u=u)
        # the limits in force are the last ones set
        for _ in range(N(60, 900)):
            limit_client(g, r, api, conn)
    net_limits(g, r, N(8, 100))
    net_plain(g, r, N(25, 300), lambda: [g.op() for _ in range(r.randrange(0, 9))], "net-random", user="", haspass=False)
    run_client(chk, g.out)


def net_limits(g, r, n):
    """the same through every function that opens the connection itself"""
    for fn in g.NETFN:
        for _ in range(n):
            def conn(opss, cls, api=None, tail=b"", u=None, then="none"):
                steps = []
                for ops in opss:
                    p = g.response() + [dict(b=list(tail))]
                    steps.append(dict(ops=list(ops), resp=p, feed=[], sched=[], then=then, k=0))
                g.netclient(steps, fn, cls="net-" + cls)
            limit_client(g, r, "sync", conn)
        for maxf, maxm, over in ((40, 1000, "frame"), (200, 100, "message"), (0, 64, "frame"), (1000, 300, "message")):
            for what in ("frame", "message", "none") if maxf == 40 else (over, over):
                ops = [dict(o="maxf", v=maxf), dict(o="maxm", v=maxm)]
                r.shuffle(ops)
                conn([ops], "limits", tail=over_tail(r, maxf, maxm, what), then="recv")


def over_tail(r, maxf, maxm, what):
    """frames above one of two limits and within the other, or within both"""
    if what == "frame":
        sizes = [maxf + 1]
    else:
        size = min(maxf, maxm // 4)
        sizes = [size] * (2 if what == "none" else 3 * maxm // max(1, size))
    its = [item(i == len(sizes) - 1, 2 if i == 0 else 0, [[97, n]] if n else [], False, r) for i, n in enumerate(sizes)]
    return to_raw(its + [item(True, 9, [], False, r)])


def net_plain(g, r, n, opsf, cls, then="none", tailf=None, stepsn=(1, 1, 2), respf=None, **kw):
    for fn in g.NETFN:
        for _ in range(n):
            steps = []
            for _ in range(r.choice(stepsn)):
                t = tailf() if tailf else b""
                p = (respf or g.response)()
                steps.append(dict(ops=list(opsf()), resp=p + ([dict(b=list(t))] if t else []), feed=[], sched=[], then=r.choice(then) if isinstance(then, list) else then, k=0, skip=0))
            g.netclient(steps, fn, cls=cls, **kw)


def limit_client(g, r, api, conn):
    maxf, maxm = r.choice([0, 10, 125, 126, 200]), r.choice([64, 100, 300, 1000])
    ops = [dict(o="maxf", v=maxf), dict(o="maxm", v=maxm)]
    if r.random() < .5:
        ops = [dict(o=r.choice(["maxf", "maxm"]), v=r.choice([0, 5, 10**6])) for _ in range(r.randrange(1, 3))] + ops
    if r.random() < .15:
        ops[r.randrange(len(ops))] = limit_op(r.choice(["maxf", "maxm"]), r.choice(HUGE))
    if r.random() < .3:
        ops = ops[:-1]
        maxm = DEF_M if not any(o["o"] == "maxm" for o in ops) else [o["v"] for o in ops if o["o"] == "maxm"][-1]
    r.shuffle(ops)
    maxf = ([DEF_F] + [o["v"] for o in ops if o["o"] == "maxf"])[-1]
    maxm = ([DEF_M] + [o["v"] for o in ops if o["o"] == "maxm"])[-1]
    if r.random() < .3:
        ops.insert(r.randrange(len(ops) + 1), dict(o="clone"))
    conn([ops], "limits", api=api, tail=limit_tail(r, maxf, maxm, False), then=r.choice(["recv", "split"]) if api == "sync" else "recv")


def limit_tail(r, maxf, maxm, masked):
    """frames around the limits"""
    its = []
    if maxf >= 10**6:
        maxf = r.choice([100, 300, 2000])
    if maxm >= 10**6:
        maxm = r.choice([100, 300, 2000])
    if r.random() < .5:
        for s in r.choice([[maxf], [max(0, maxf - 1), maxf], [maxf, maxf + 1], [maxf + 1]]):
            its.append(item(True, r.choice([2, 2, 1]), [[97, s]] if s else [], masked, r))
    else:
        goal, sizes, cost = r.choice([maxm - 64, maxm, maxm + 1, maxm - 1, maxm // 2, maxm + 63, maxm + 64, maxm + 65, 2 * maxm, 3 * maxm]), [], 0
        while cost < goal and len(sizes) < 40 or not sizes:
            s = min(maxf, r.choice([r.randrange(max(1, goal - cost)), max(0, goal - cost - 64), max(0, goal - cost)]))
            sizes.append(s)
            cost += s + 64
        its = [item(False, 2 if i == 0 else 0, [[98, s]] if s else [], masked, r) for i, s in enumerate(sizes)]
        its.append(item(True, 0, [[99, 1]] if maxf else [], masked, r))
        its.append(item(True, 9, [], masked, r))
    return to_raw(its)


def p11_paths(chk):
    """limits given to the builder and at accept time"""
    g = HsGen(chk.rng)
    r = g.rng

    def conn(opss, cls, api=None, tail=b"", u=None, then="none"):
        steps = []
        for ops in opss:
            p = g.response() + [dict(b=list(tail))]
            steps.append(dict(ops=list(ops), resp=p, feed=g.feed(g.resp_len(p)), sched=[], then=then, k=0))
        g.client(u or g.url(), steps, api=api, cls=cls)
    for api in ("sync", "async"):
        for _ in range(N(80, 900)):
            limit_client(g, r, api, conn)
    net_limits(g, r, N(20, 200))
    run_client(chk, g.out)
    g = HsGen(chk.rng)
    r = g.rng
    for e in ENTRIES:
        for act in ("accept_lim", "accept_hl"):
            for _ in range(N(40, 500)):
                lim = r.choice([(r.choice([0, 10, 125, 126, 200]), r.choice([64, 100, 300, 1000])), (1000, 100), (10, 10000), (r.choice(HUGE), 300), (200, r.choice(HUGE)), (r.choice(HUGE), r.choice(HUGE))])
                g.server(g.request(), e, act, lim=lim, tail=limit_tail(r, lim[0], lim[1], True), then=r.choice(["recv", "split"]) if e in ("sync", "pair") else "recv", sel=False, custom=[], cls="accept-limits")
        for _ in range(N(6, 60)):
            big = to_raw([item(True, 2, [[97, r.choice([70000, 300000])]], True, r)])
            g.server(g.request(), e, r.choice(["accept", "accept_with"]), tail=b"", feed=None, then="recv", sel=False, cls="accept-defaults") if Q and r.random() < .5 else \
                g.server(g.request(), e, "accept", tail=to_raw([item(True, 2, [[97, 300]], True, r)]) + header(True, 0, 2, DEF_F + r.choice([0, 1]), [1, 2, 3, 4]), then="recv", sel=False, cls="accept-defaults")
    run_server(chk, g.out, tag="lim")


def mask_tail(r, server):
    """traffic in which, as a rule, one frame is masked the wrong way for the role it arrives at"""
    from gen_recv import Gen
    g = Gen(r)
    its = g.traffic(server, k=r.choice([0, 0, 1, 2]), n=r.choice([0, 3, 126]))
    if r.random() < .3:
        its += g.open_prefix(server)
        op = r.choice([0, 0, 9, 10])
    else:
        op = r.choice([1, 2, 1, 2, 8, 9, 10])
    p = [[97, r.choice([0, 1, 4, 125])]] if op != 8 else r.choice([[], [[3, 1], [0xE8, 1]]])
    p = [x for x in p if x[1]]
    wrong = r.random() < .8
    key = r.choice([None, [0, 0, 0, 0], [0, 0, 0, 1]]) if server != wrong else None
    its.append(item(True if op > 7 else r.random() < .7, op, p, server != wrong, r, key=key))
    return to_raw(its + g.traffic(server, k=1, n=3))


def p04_paths(chk):
    """the role a connection has after a handshake, whichever function made it"""
    g = HsGen(chk.rng)
    r = g.rng
    for api in ("sync", "async"):
        for _ in range(N(60, 900)):
            p = g.response() + [dict(b=list(mask_tail(r, False)))]
            g.client(g.url(), [dict(ops=[], resp=p, feed=g.feed(g.resp_len(p)), sched=[], then=r.choice(["recv", "split"]) if api == "sync" else "recv", k=0)],
                     api=api, cls="mask")
    net_plain(g, r, N(20, 200), lambda: [], "net-mask", then="recv", tailf=lambda: mask_tail(r, False), stepsn=(1, 1, 2))
    run_client(chk, g.out)
    g = HsGen(chk.rng)
    r = g.rng
    for e in ENTRIES:
        for act in ("accept", "accept_with", "accept_lim", "accept_hl"):
            for _ in range(N(25, 300)):
                g.server(g.request(), e, act, lim=(1000, 2000) if act in ("accept_lim", "accept_hl") else (DEF_F, DEF_M), tail=mask_tail(r, True),
                         then=r.choice(["recv", "split"]) if e in ("sync", "pair") else "recv", sel=False, custom=[], cls="mask")
    run_server(chk, g.out, tag="mask")


# --------------------------------------------------------------------------- P20
def p20(chk):
    chk.model("MCBuilder", "MCBuilder.cfg")
    g = HsGen(chk.rng)
    r = g.rng
    for _ in range(N(220, 3000)):
        u = g.url(scheme="ws", host=r.choice(["127.0.0.1", "localhost"]), port=-1)
        text = g.url_text(dict(u, port=54321)).replace(b":54321", b":PORT", 1)
        auth = u["user"] != []
        ops = []
        for _ in range(r.randrange(0, 9)):
            o = g.op(auth=auth, lim=False)
            if o["o"] != "ver" and not (o["o"] in ("protos", "exts") and not o["vs"]):
                ops.append(o)
        if r.random() < .7:
            ops += [dict(o="ext", v=ext(r)) for _ in range(r.randrange(1, 3))]
        if r.random() < .5:
            ops += [dict(o="proto", v=B(token(r))) for _ in range(r.randrange(1, 3))]
        protos, exts = g.selection(.7)
        custom = [c for c in g.custom(clash=0) if bytes(c[0]).lower() not in (b"content-length",) and not any(10 in v or 13 in v for v in c[1])]
        g.add(fam="nego", client=r.choice(["sync", "async"]), server=r.choice(["sync", "async"]), url=list(text), u=u, ops=ops, protos=protos, exts=exts,
              exts1=r.randrange(3), custom=custom, cls="nego")
    run_simple(chk, g.out, "TraceNego", tag="n")
    run_simple(chk, hdr_scens(chk.rng), "TraceHeader", tag="h")
    # what the server reads is what was on the wire, and the other way round
    g = HsGen(chk.rng)
    for e in ENTRIES:
        for _ in range(N(50, 600)):
            g.server(g.request(), e, g.rng.choice(["accept", "accept_with"]), cls="read-back")
    run_server(chk, g.out, tag="rb")
    g = HsGen(chk.rng)
    for _ in range(N(80, 800)):
        p = g.response()
        g.client(g.url(), [dict(ops=[], resp=p, feed=g.feed(g.resp_len(p)), sched=[], then="none", k=0)], cls="read-back")
    run_client(chk, g.out, tag="rb")


def hdr_scens(r):
    out = []

    def add(**kw):
        kw.update(id=len(out) + 1, fam="hdr", cls=("build" if kw["build"] else "parse"))
        kw.setdefault("lines", [])
        kw.setdefault("v", [])
        out.append(kw)
    for _ in range(N(150, 3000)):
        add(kind="proto", build=True, v=[B(token(r)) for _ in range(r.randrange(1, 6))])
        add(kind="ext", build=True, v=[ext(r) for _ in range(r.randrange(1, 5))])
    for _ in range(N(80, 1500)):
        k = [r.choice([0, 255, 62, 63, r.randrange(256)]) for _ in range(16)]
        add(kind="key", build=True, v=k)
        add(kind="accept", build=True, v=k)
    for v in ("13", "12", "0", "8", "7", "99", "130", "draft"):
        add(kind="version", build=True, v=B(v))
    for v in ("null", "http://a.b", "https://a.b:443", "file://", "http://[::1]:80"):
        add(kind="origin", build=True, v=B(v))
    for _ in range(N(100, 2000)):
        items = [token(r) for _ in range(r.randrange(0, 6))]
        lines, cur = [], ""
        for x in items:
            cur += (r.choice([",", ", ", " , ", ",,", ", ,", ",\t"]) if cur else r.choice(["", " ", ","])) + x
            if r.random() < .3:
                lines.append(cur)
                cur = ""
        if cur or not lines:
            lines.append(cur + r.choice(["", ",", " "]))
        add(kind="proto", build=False, lines=[B(x) for x in lines])
        es = ", ".join(ext_text(ext(r), r) for _ in range(r.randrange(1, 4)))
        if r.random() < .3:
            es = es.replace("=", r.choice(["= ", " =", " = "]), 1)
        add(kind="ext", build=False, lines=[B(es)] if r.random() < .7 else [B(es), B(ext_text(ext(r), r))])
    for _ in range(N(100, 1500)):
        n = r.choice([16, 16, 20, 20, 0, 1, 15, 17, 19, 21, 32])
        t = b64(bytes(r.randrange(256) for _ in range(n)))
        x = r.random()
        if x < .2 and t:
            i = r.randrange(len(t))
            t = t[:i] + r.choice("!*-_=. ") + t[i + 1:]
        elif x < .3:
            t = t[:-1]
        lines = [B(t)] if r.random() < .9 else [B(t), B(t)]
        add(kind=r.choice(["key", "accept"]), build=False, lines=lines)
    for v in ("13", "12", "", "013", "13, 8", "1 3", "+13"):
        add(kind="version", build=False, lines=[B(v)])
        add(kind="version", build=False, lines=[B(v), B("13")])
    for v in ("http://a", "", "x", "null"):
        add(kind="origin", build=False, lines=[B(v)])
    return out


# --------------------------------------------------------------------------- P21
def p21(chk):
    chk.model("MCHandshake", "MCHandshake.cfg")
    g = HsGen(chk.rng)
    r = g.rng

    def thens(e):
        return ["recv", "recv", "into", "into"] + (["split"] if e in ("sync", "pair") else [])

    def one(e, raw, tailitems=None, feed=None, cls=""):
        then = r.choice(thens(e))
        act = r.choice(["accept", "accept", "accept_with", "accept_lim", "accept_hl"])
        kw = {}
        if then == "into":
            k = r.randrange(0, 4)
            tail, sizes = g.simple_tail(True, k + r.randrange(0, 3))
            tail += bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 5, 300])))
            kw = dict(k=k, skip=sum(sizes[:k]))
        else:
            tail = to_raw(tailitems if tailitems is not None else g.tail(k=r.choice([1, 2, 4])))
        n = len(raw) + len(tail)
        lim = (INF - 1, INF - 1) if act in ("accept_lim", "accept_hl") else None
        f = feed(n) if feed else g.feed(n, stops=["wb"] if e == "async" else [], head=len(raw))
        if then == "into" and e in ("sync", "pair") and r.random() < .4:
            then = r.choice(["raw", "rawinto"])
        g.server(raw, e, act, cls=cls or then, tail=tail, then=then, feed=f, lim=lim, **kw)
    for e in ENTRIES:
        for _ in range(N(60, 1200)):
            one(e, g.request())
        # every position of one cut around the end of the head
        raw = g.request()
        for d in range(-5, 40):
            one(e, raw, feed=lambda n, d=d: [x for x in (max(1, min(n - 1, len(raw) + d)), n) if x], cls="cut")
        # all in one read, bigger than the readers' buffers
        for sz in (3000, 4095, 4096, 4097, 5000, 8192, 20000):
            items = [item(True, 2, [[i % 251, sz // 3]], True, r) for i in range(4)]
            one(e, g.request(), items, feed=lambda n: [n], cls="big-read")
            big = g.request(more=[("X-Big", "y" * sz)])
            one(e, big, feed=lambda n: r.choice([[n], [4096, n], [4095, n], [4097, 1, n]]), cls="big-head")
    # every well-known header once
    for e in ENTRIES:
        for n, v in REQ_HDR:
            one(e, g.request(known=False, more=[(n, v)]), feed=lambda n: [n], cls="header")
    # what is left behind the head fills a buffer exactly, or nearly
    for e in ("sync", "async"):
        for cap in (4096, 8192, 16384):
            for d in range(-2, 3):
                for whole in (True, False):
                    raw = g.request(known=False)
                    n = cap + d - (len(raw) if whole else 0)
                    tail = to_raw([item(True, 2, [[7, n - 8]], True, r), item(True, 1, [[65, 1]], True, r)])
                    n = len(raw) + len(tail)
                    g.server(raw, e, "accept", cls="fill", tail=tail, then="recv", feed=r.choice([[n], [len(raw), n], [n - 3, 3], [100, n]]), sel=False)
    net_servers(chk, g, N(8, 100), kinds=("accept", "reject"))
    run_server(chk, g.out)
    g2 = HsGen(chk.rng)

    def cl(api, feedf=None, big=None, cls="", more=()):
        steps = []
        for _ in range(r.choice([1, 1, 2])):
            then = r.choice(["recv", "into", "into"] + (["split"] if api == "sync" else []))
            p = g2.response(more=list(more)) if not big else g2.response()[:-1] + [dict(b=B("X-Big: " + "y" * big + "\r\n")), dict(b=B("\r\n"))]
            hl = g2.resp_len(p)
            st = dict(ops=[], sched=[], then=then, k=0)
            if then == "into":
                k = r.randrange(0, 4)
                tail, sizes = g2.simple_tail(False, k + r.randrange(0, 3))
                tail += bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 5, 300])))
                st.update(k=k, skip=sum(sizes[:k]))
                if api == "sync" and r.random() < .4:
                    st["then"] = r.choice(["raw", "rawinto"])
            else:
                tail = to_raw(g2.tail(False, k=r.choice([1, 2, 4])))
            n = hl + len(tail)
            st["resp"] = p + [dict(b=list(tail))]
            st["feed"] = feedf(hl, n) if feedf else g2.feed(n, stops=["wb"] if api == "async" else [], head=hl)
            steps.append(st)
        g2.client(g2.url(), steps, api=api, cls=cls or "client")
    for api in ("sync", "async"):
        for _ in range(N(80, 1500)):
            cl(api)
        for h in RESP_HDR:
            cl(api, lambda hl, n: [n], more=[h], cls="client-header")
        for d in range(-5, 40):
            cl(api, lambda hl, n, d=d: [max(1, min(n - 1, hl + d)), n], cls="client-cut")
        for sz in (3000, 4000, 4096, 8192, 20000):
            cl(api, lambda hl, n: r.choice([[n], [4096, n], [4095, n], [4097, 1, n]]), big=sz, cls="client-big")
    # response and frames in one read: every fill of the buffers in the client
    for api in ("sync", "async"):
        fills = sorted(set([c + d for c in (1024, 4096, 8192, 16384) for d in range(-3, 4)] + [8192 - 10 * i for i in range(0, 60, N(3, 1))] + [8192 - i for i in range(0, 120, N(2, 1))]))
        for whole in (True, False):
            for n in fills:
                if Q and n < 8000 and r.random() < .5:
                    continue
                p = g2.response(known=False)
                hl = g2.resp_len(p)
                n -= hl if whole else 0
                if n < 200:
                    continue
                tail = to_raw([item(True, 2, [[7, n - 8]], False, r), item(True, 1, [[65, 2]], False, r)])
                n = hl + len(tail)
                g2.client(g2.url(user="", haspass=False), [dict(ops=[], sched=[], then="recv", k=0, resp=p + [dict(b=list(tail))], feed=r.choice([[n], [n], [hl, n], [1, n]]))], api=api, cls="client-fill")
    net_plain(g2, r, N(8, 80), lambda: [], "net", then=["recv", "recv", "into", "split"], tailf=lambda: to_raw(g2.tail(False, k=r.choice([0, 1, 3]))))
    run_client(chk, g2.out)


# --------------------------------------------------------------------------- P22
def p22(chk):
    chk.model("MCHandshake", "MCHandshake.cfg")
    g = HsGen(chk.rng)
    r = g.rng
    for e in ENTRIES:
        for act in ("reject", "reject_with", "drop", "dropfn"):
            for _ in range(N(30, 500)):
                tail = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 5, 100]))) if r.random() < .6 else to_raw(g.tail())
                g.server(g.request(), e, act, tail=tail, cls=act)
        for _ in range(N(15, 200)):
            sched = [r.choice([1, 3, 10, 50] + (["in"] if e != "async" else ["wb"])) for _ in range(r.randrange(1, 30))]
            g.server(g.request(), e, r.choice(["reject", "reject_with"]), sched=sched, cls="pieces")
        for k in range(0, 28, N(4, 1)):
            g.server(g.request(), e, r.choice(["reject", "reject_with"]), sched=([k] if k else []) + [r.choice(["rst", "eof"])], wfail=True, cls="transport-fails")
        for _ in range(N(60, 900)):
            tail = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20, 300])))
            g.server(g.request(g.faults()), e, cls="invalid", tail=tail)
    # every well-known header once, on either side
    for e in ENTRIES:
        for n, v in REPLY_HDR:
            if n not in NOT_REPLY:
                g.server(g.request(), e, "reject_with", custom=[[B(n), [B(v)]]], cls="header")
        for n, v in REQ_HDR:
            g.server(g.request(known=False, more=[(n, v)]), e, r.choice(["reject", "reject_with", "drop"]), tail=b"tail", cls="request-header")
            if r.random() < .5:
                g.server(g.request(g.faults(), known=False, more=[(n, v)]), e, tail=b"tail", cls="invalid-header")
    for e in ENTRIES:
        for raw in g.TINY_REQ:
            g.server(raw, e, cls="invalid-tiny", tail=r.choice([b"", b"tail"]))
    for e in ("sync", "async"):
        for _ in range(N(40, 500)):
            g.server(g.malformed(), e, cls="malformed", tail=b"tail")
        for _ in range(N(40, 500)):
            raw = g.request(g.faults() if r.random() < .5 else ())
            k = r.randrange(0, len(raw))
            g.server(raw[:k], e, feed=g.feed(k, stops=["wb"] if e == "async" else []) + [r.choice(["eof", "rst"])], cls="truncated")
    net_servers(chk, g, N(5, 80), kinds=("reject", "invalid", "malformed", "truncated"))
    run_server(chk, g.out)


# --------------------------------------------------------------------------- P28
def outcome(ev, server):
    """what a run made of the bytes, without how they came"""
    for e in ev:
        if e["k"] in ("hs", "panic", "hang", "crash"):
            if e["k"] != "hs":
                return [e["k"]], ""
            o = {k: v for k, v in e.items() if k not in ("a", "c", "eof", "out", "left", "peak", "why", "r", "k")}
            end = e.get("why", "") if server else ""
            left = None
            if e["r"] == "upgrade":
                left = next((x["left"] + x["rest"] for x in ev if x["k"] == "left"), None)
            if not server and e["r"] == "client":
                left = next((x["left"] + x["rest"] for x in ev if x["k"] == "left"), None)
            kind = e["r"]
            if not server and kind not in ("client", "redirect", "status"):
                end, kind = kind, "refused"
            if not server:
                o = {k: o[k] for k in ("code", "loc", "headers") if k in o} if kind != "refused" else {}
            return [kind, o, left], end
    return ["none"], ""


def same(chk, groups, evs, server, tag):
    traces, owner = [], {}
    for gi, gr in enumerate(groups):
        runs = []
        for s in gr:
            if s["id"] in evs:
                o, end = outcome(evs[s["id"]], server)
                runs.append(dict(api=s.get("entry") or s["api"], msgs=[json.dumps(x, sort_keys=True) for x in o], end=end))
        traces.append(dict(id=gi + 1, runs=runs))
        owner[gi + 1] = gr
    acc, rej, t = vlib.validate("TraceSame", traces, chk.wd, tag=tag)
    chk.add_traces("TraceSame", traces, rej, t, {"runs": sum(len(x["runs"]) for x in traces)})
    for i, (l, why) in rej.items():
        chk.violation("outcome-" + why, dict(kind="same", scenarios=[owner[i][0], owner[i][min(l, len(owner[i])) - 1]]))


def variants(g, n, head, k, stops):
    r = g.rng
    f = [g.feed(n, "all"), g.feed(n, "ones", stops)]
    while len(f) < k:
        f.append(g.feed(n, r.choice(["rand", "two", "around", "around"]), stops if r.random() < .6 else (), head))
    return f


def p28(chk):
    chk.model("MCHandshake", "MCHandshake.cfg")
    g = HsGen(chk.rng)
    r = g.rng
    groups = []
    raws = []
    for _ in range(N(14, 200)):
        raws.append((g.request(), "valid"))
        raws.append((g.request(g.faults()), "invalid"))
    for i in range(N(28, 200)):
        raws.append((g.malformed(g.MALFORMED[i % len(g.MALFORMED)]), "malformed"))
    for _ in range(N(5, 40)):
        raws.append((r.choice([b"\r\n", b"\r\n\r\n", b"\r\n" * 5]) + g.request(r.choice([(), g.faults()])), "blank-lines-first"))
        raws.append((g.request(more=[("X-Big", "z" * r.choice([3900, 4096, 9000]))]), "big"))
        raws.append((g.request(["nokey"], more=[("Sec-WebSocket-Key", "AAAAAAAAAAAAAAAAAAAAAA")]), "unclear"))
    for raw in g.TINY_REQ:
        raws.append((raw, "tiny"))
    for raw, cls in raws:
        ok = cls in ("valid", "big") or (cls == "blank-lines-first")
        tail = bytes(r.randrange(256) for _ in range(r.choice([0, 7, 200])))
        if not ok and r.random() < .4:
            tail = g.request()
        gr = []
        for e in ("sync", "async"):
            for f in variants(g, len(raw) + len(tail), len(raw), N(6, 16), ["wb"] if e == "async" else []):
                gr.append(g.server(raw, e, "accept" if ok else "none", sel=False, custom=[], tail=tail, feed=f, then="into" if ok else "none", k=0, cls=cls))
        groups.append(gr)
    # every prefix of a head: no outcome until the connection ends
    for e in ("sync", "async"):
        raw = g.request()
        for k in range(0, len(raw), N(4, 1)):
            g.server(raw[:k], e, feed=g.feed(k, stops=["wb"] if e == "async" else []) + [r.choice(["eof", "eof", "rst"])], cls="prefix")
        raw = b"\r\n\r\n" + g.request()
        for k in range(0, 12):
            g.server(raw[:k], e, feed=g.feed(k, stops=["wb"] if e == "async" else []) + ["eof"], cls="prefix")
    net_servers(chk, g, N(3, 40))
    slow_servers(g)
    evs = run_server(chk, g.out)
    same(chk, groups, evs, True, "s")
    # the client's side
    g = HsGen(chk.rng)
    r = g.rng
    groups = []
    for i in range(N(30, 400) + len(g.TINY_RESP)):
        x = "tiny" if i < len(g.TINY_RESP) else r.choice(["good", "good", "fault", "status", "redirect", "malformed", "blank"])
        key = [dict(o="key", v=[r.randrange(256) for _ in range(16)])]
        p = g.response() if x in ("good", "blank") else g.response([r.choice(["noaccept", "noupgrade", "notws", "noconnection", "notupgrade"])]) if x == "fault" else \
            g.response(["status"]) if x == "status" else g.response(["status", "location"], code=302) if x == "redirect" else g.response()[:-1] + [dict(b=B(r.choice([b"nocolon\r\n", b"A B: c\r\n", b"".join(b"X-%d: a\r\n" % j for j in range(300))]))), dict(b=B("\r\n"))]
        if x == "tiny":
            p = [dict(b=B(g.TINY_RESP[i]))]
        if x == "blank":
            p = [dict(b=B(b"\r\n" * r.choice([1, 2, 3])))] + p
        tail = [dict(b=[r.randrange(256) for _ in range(r.choice([0, 3, 50]))])]
        if x not in ("good", "blank") and r.random() < .4:
            tail = g.response()
        u = g.url()
        L, h = g.resp_len(p + tail), g.resp_len(p)
        gr = []
        for api in ("sync", "async"):
            for f in variants(g, L, h, N(5, 14), ["wb"] if api == "async" else []):
                gr.append(g.client(u, [dict(ops=key, resp=p + tail, feed=f, sched=[], then="into" if x in ("good", "blank") else "none", k=0)], api=api, cls=x))
        groups.append(gr)
    for api in ("sync", "async"):
        p = g.response()
        L = g.resp_len(p)
        for k in range(0, L, N(6, 1)):
            g.client(g.url(), [dict(ops=[], resp=p, feed=g.feed(k, stops=["wb"] if api == "async" else []) + [r.choice(["eof", "eof", "rst"])], sched=[], then="none", k=0)], api=api, cls="prefix")
    slow_clients(g)
    traces, owner = run_client(chk, g.out)
    evs = {}
    for t in traces:
        evs.setdefault(owner[t["id"]], t["ev"])
    same(chk, groups, evs, False, "c")
    # the codecs alone: one head at a time
    run_simple(chk, codec_scens(chk.rng), "TraceHttp", tag="c")


def codec_scens(rng):
    g = HsGen(rng)
    r = g.rng

    def head(server):
        if server:
            return g.request(g.faults() if r.random() < .5 else ())
        return b"".join(bytes(p["b"]) if "b" in p else b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=" for p in g.response(r.choice([(), ("status",), ("status", "location")])))
    for server, heads in ((True, g.TINY_REQ), (False, g.TINY_RESP)):
        for raw in heads:
            for raw in (raw, raw * 3):
                g.add(fam="httpc", server=server, raw=list(raw), feed=g.feed(len(raw)), cap=r.choice([0, 1, 64, 4096]), junk=False, cls="decode-tiny")
    for _ in range(N(200, 3000)):
        server = r.random() < .5
        raw = b""
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .25:
                raw += r.choice([b"\r\n", b"\r\n\r\n"])
            raw += head(server)
        x = r.random()
        junk = False
        if x < .2:
            raw += bytes(r.randrange(256) for _ in range(r.choice([1, 5, 60])))
            junk = True
        elif x < .4:
            h = head(server)
            raw += h[:r.randrange(len(h))]
        elif x < .5:
            raw = raw[:r.randrange(len(raw))]
        g.add(fam="httpc", server=server, raw=list(raw), feed=g.feed(len(raw)), cap=r.choice([0, 1, 64, 4096]), junk=junk, cls="decode")
    for _ in range(N(20, 300)):
        raw = g.malformed()
        g.add(fam="httpc", server=True, raw=list(raw), feed=g.feed(len(raw)), cap=16, junk=True, cls="decode-malformed")
    for _ in range(N(150, 2000)):
        server = r.random() < .5   # the server's codec writes responses
        heads = []
        for _ in range(r.choice([1, 1, 2])):
            h = dict(v11=r.random() < .8, headers=g.custom(clash=.5))
            if server:
                h["code"] = r.choice([101, 200, 400, 404, 500, 302, 204, 418])
            else:
                h.update(method=B(r.choice(["GET", "POST", "HEAD", "OPTIONS"])), uri=B(g.target()))
            heads.append(h)
        g.add(fam="httpe", server=server, pre=B(r.choice(["", "junk", "\r\n\r\n"])), heads=heads, cap=r.choice([0, 10, 1000]), cls="encode")
    return g.out


# --------------------------------------------------------------------------- P14 during the handshake
def mangle(r, b):
    b = bytearray(b)
    for _ in range(r.randrange(1, 6)):
        if not b:
            break
        i = r.randrange(len(b))
        x = r.random()
        if x < .4:
            b[i] = r.choice([0, 10, 13, 32, 58, 255, r.randrange(256)])
        elif x < .6:
            del b[i:i + r.choice([1, 2, 20])]
        elif x < .8:
            b[i:i] = bytes(r.choice([10, 13, 32, 44, 59, 61, 58, r.randrange(256)]) for _ in range(r.choice([1, 2, 30])))
        else:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.randrange(1, 60)]
    return bytes(b)


ONLY14 = ("panic", "hang", "crash", "memory", "empty-trace", "no-outcome", "order")


def p14_hs(chk):
    g = HsGen(chk.rng)
    r = g.rng
    for _ in range(N(500, 8000)):
        e = r.choice(["sync", "async", "sync", "async", "pair", "hyper"])
        x = r.random()
        if x < .6:
            raw = mangle(r, g.request(g.faults() if r.random() < .3 else ()))
        elif x < .75:
            raw = g.malformed()
        elif x < .9:
            raw = bytes(r.randrange(256) for _ in range(r.choice([1, 4, 30, 200])))
        else:
            # every header of the handshake with odd values
            n = r.choice(["Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "Upgrade", "Connection", "Host"])
            v = "".join(r.choice([",", ";", "=", " ", '"', "a", "\xe9", "\xff", "==", "1", "\t"]) for _ in range(r.randrange(0, 12)))
            raw = g.request(["nokey"] if "Key" in n else ["noupgrade"] if n == "Upgrade" else ["noconnection"] if n == "Connection" else (), more=[(n, v)])
        act = r.choice(["none", "accept", "reject", "drop"]) if r.random() < .5 else "none"
        tail = bytes(r.randrange(256) for _ in range(r.choice([0, 10, 60])))
        g.server(raw, e, act, sel=False, custom=[], tail=tail, then="recv" if act == "accept" else "none", junk=True, cls="bytes", parsable=False)
    # heads that do not end
    for e in ("sync", "async"):
        for unit in (b"X: y\r\n", b"a", b"\r\n", b"X", b" ", b"X: yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy\r\n"):
            for size in (5000, 60000, 500000):
                if size == 500000 and Q and unit not in (b"a", b"\r\n"):
                    continue
                start = b"" if unit == b"\r\n" else b"GET / HTTP/1.1\r\n" if unit != b"a" else b"GET /"
                raw = start + unit * (size // len(unit))
                g.server(raw, e, sel=False, feed=r.choice([[len(raw)], [1000] * (len(raw) // 1000 + 1)]), junk=True, cls="endless")
    # header values of few odd pieces, one after the other
    for n in ODDH:
        for _ in range(N(12, 120)):
            raw = g.request(["nokey"] if "Key" in n else ["noupgrade"] if n == "Upgrade" else ["noconnection"] if n == "Connection" else (), more=[(n, odd_value(r)) for _ in range(r.choice([1, 1, 2]))])
            e = r.choice(["sync", "async", "pair", "hyper"])
            g.server(raw, e, r.choice(["none", "accept", "reject"]), sel=False, custom=[], tail=b"", then="none", junk=True, cls="odd-values", parsable=False)
    for t in ODDT:
        for e in ("sync", "async"):
            g.server(with_target(g.request(), t), e, r.choice(["none", "accept"]), sel=False, custom=[], tail=b"", then="none", junk=True, cls="odd-targets", parsable=False)
    evs = vlib.run_harness(g.out, chk.wd, tag="p14s")
    filtered(chk, g.out, evs, "srvhs")
    g = HsGen(chk.rng)
    r = g.rng
    for _ in range(N(300, 5000)):
        p = g.response(r.choice([(), ("status", "location")]))
        raw = b"".join(bytes(x["b"]) if "b" in x else b"\0ACC\0" for x in p)
        raw = mangle(r, raw) if r.random() < .8 else bytes(r.randrange(256) for _ in range(r.choice([1, 4, 30, 200])))
        parts = []
        segs = raw.split(b"\0ACC\0")
        for i, sg in enumerate(segs):
            parts.append(dict(b=list(sg)))
            if i < len(segs) - 1:
                parts.append(dict(acc=r.choice(["good", "good", "twice", "trunc"])))
        parts.append(dict(b=[r.randrange(256) for _ in range(r.choice([0, 10, 60]))]))
        api = r.choice(["sync", "async"])
        g.client(g.url(), [dict(ops=[], resp=parts, feed=g.feed(g.resp_len(parts), stops=["wb"] if api == "async" else []), sched=[], then="recv", k=0, junk=True)], api=api, cls="bytes")
    # every status a response can state, and header values of odd pieces
    codes = list(range(0, 1000)) if not Q else sorted(set([0, 1, 9, 10, 99, 100, 101, 102, 103, 199, 200, 300, 399, 499, 500, 599, 600, 700, 999] + [r.randrange(1000) for _ in range(60)]))
    for c in codes:
        more = b"".join(b"%s: %s\r\n" % (n.encode(), odd_value(r).encode("latin-1")) for n in r.sample(ODDH + ["Location"], r.choice([0, 0, 1, 2])))
        raw = b"HTTP/1.%d %03d%s\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n%s\r\n" % (r.choice([1, 1, 0]), c, r.choice([b"", b" ", b" X"]), more)
        api = r.choice(["sync", "async"])
        parts = [dict(b=list(raw))]
        g.client(g.url(), [dict(ops=[], resp=parts, feed=g.feed(len(raw), stops=["wb"] if api == "async" else []), sched=[], then="recv", k=0, junk=True)], api=api, cls="every-status")
    for n in ODDH + ["Location"]:
        for _ in range(N(8, 80)):
            p = g.response(r.choice([(), ("status", "location")]))
            head = bytes(p[0]["b"])
            i = head.index(b"\r\n") + 2
            p[0] = dict(b=list(head[:i] + b"%s: %s\r\n" % (n.encode(), odd_value(r).encode("latin-1")) + head[i:]))
            api = r.choice(["sync", "async"])
            g.client(g.url(), [dict(ops=[], resp=p, feed=g.feed(g.resp_len(p), stops=["wb"] if api == "async" else []), sched=[], then="none", k=0, junk=True)], api=api, cls="odd-values")
    evs = vlib.run_harness(g.out, chk.wd, tag="p14c")
    filtered(chk, g.out, evs, "clihs")
    out = []
    for _ in range(N(300, 4000)):
        kind = r.choice(["proto", "ext", "ext", "key", "accept", "version", "origin"])
        v = [[r.choice([44, 59, 61, 32, 9, 34, 65, 97, 48, 255, 195, r.randrange(256)]) for _ in range(r.randrange(0, 20))] for _ in range(r.choice([1, 1, 2, 0]))]
        out.append(dict(id=len(out) + 1, fam="hdr", kind=kind, build=False, v=[], lines=v, cls="bytes"))
    # every short text over the letters that mean something in these headers
    for k in range(1, 5 if Q else 6):
        for t in itertools.product(b'"=;,a ' if k > 3 else b'"=;,a \t\xff0', repeat=k):
            if k < 4 or r.random() < N(.4, 1):
                out.append(dict(id=len(out) + 1, fam="hdr", kind=r.choice(["ext", "ext", "ext", "proto"]) if k > 2 else r.choice(["proto", "ext", "ext", "ext", "key", "accept", "version", "origin"]),
                                build=False, v=[], lines=[list((b"a" if k > 1 and r.random() < .5 else b"") + bytes(t))], cls="every-short-text"))
    for s in codec_scens(chk.rng)[:N(60, 600)]:
        s["raw"] = list(mangle(r, bytes(s.get("raw", b"x"))))
        if s["fam"] == "httpc":
            out.append(dict(s, id=len(out) + 1, feed=g.feed(len(s["raw"])), junk=True))
    evs = vlib.run_harness(out, chk.wd, tag="p14h")
    filtered(chk, out, evs, "hdr")


ODDH = ["Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Sec-WebSocket-Accept", "Origin", "Upgrade", "Connection", "Host", "Content-Length", "Transfer-Encoding"]
ODDT = [b"*", b"/", b"//", b"?", b"#", b"/?", b"/#", b"http://", b"http://[", b"ws://[::1", b"http://h:99999/", b"http://h:/", b"http://@/", b"/%", b"/%zz", b"/%00", b"\\", b"a", b":", b"::", b"h:1", b"http:", b"http:h", b"//h",
        b"http://h/../..", b"/\xff", b"/\xc3\xa9", b"http://\xff/", b"http://%/", b"http://a b/", b"/" + b"a" * 70000, b"ftp://x", b"data:,x", b"http://1.2.3.4.5/", b"http://256.1.1.1/", b"http://[::1]:x/", b"http://xn--/", b"http://xn--a/"]
PIECES = [",", ";", "=", '"', '""', '"a', 'a"', "a", "b=c", '="', '=""', ' ', "\t", "\xe9", "\xff", "=", "==", "1", "-1", "99999999999999999999", "\x01", ":", "/", "//", "%", "(", "\\", "'", "websocket", "upgrade", "13", "dGhlIHNhbXBsZSBub25jZQ==", "http://", "http://[", "*"]


def odd_value(r):
    return "".join(r.choice(PIECES) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5])))


def with_target(head, t):
    m = head.split(b" ", 2)
    return m[0] + b" " + t + b" " + m[2]


def filtered(chk, scens, evs, kind):
    """only that the calls return: TraceCalls looks at nothing but how they end and what they took"""
    traces = []
    for s in scens:
        ev = evs.get(s["id"])
        if ev is None:
            continue
        traces.append(dict(id=s["id"], ev=[dict(k=e["k"], op=str(e.get("op", "")), peak=e.get("peak", 0), c=e.get("c", 0), recv=e.get("op") == "m") for e in ev]))
    byid = {s["id"]: s for s in scens}
    acc, rej, t = vlib.validate("TraceCalls", traces, chk.wd, tag=kind)
    chk.add_traces("TraceCalls", traces, rej, t, {kind: len(traces)})
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind=kind, scenario=byid[i], events=evs[i][-8:], event=l, why=why))
