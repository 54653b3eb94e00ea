"""Checks decided by the Link and Duplex specifications (P01, P24)."""
import json
import vlib
from gen_send import *
from gen_recv import MSG_APIS, INF

Q = vlib.QUICK


def N(quick, thorough):
    return quick if Q else thorough


def frag_ops(g, n=None):
    """a message sent by hand as fragments, control frames in between"""
    r = g.rng
    t = r.choice([1, 2])
    p = g.payload(t, r.choice([0, 1, 2, 5, 17, 126, 300]) if n is None else n)
    k = r.choice([2, 2, 3, 5])
    n = blen(p)
    cuts = sorted(r.randrange(n + 1) for _ in range(k - 1))
    out, last = [], 0
    for i, c in enumerate(cuts + [n]):
        a, p = bsplit(p, c - last)
        last = c
        out.append(dict(o="df", fin=i == k - 1, rsv=0, t=t if i == 0 else 0, p=a))
        while i < k - 1 and r.random() < .3:
            out.append(g.msg_op("own", r.choice([8, 9, 10])) if r.random() < .5 else
                       dict(o="df", fin=True, rsv=0, t=r.choice([9, 10]), p=g.payload(2, r.choice([0, 1, 125]))))
    return out


def pipe_ops(g, sapi, k, big=False):
    r = g.rng
    ops = []
    only = {"mcodec": "own", "aacc": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(sapi)
    for _ in range(k):
        if only is None and r.random() < .3:
            ops += frag_ops(g)
        else:
            op = g.msg_op(only, big=big and r.random() < .4)
            if only is None and r.random() < .3:
                op["o"] += "df"
            ops.append(op)
        if sapi in ASYNC_APIS and r.random() < .15:
            ops.append(dict(o="flush"))
    return ops


def p01(chk):
    chk.model("MCLink", "MCLink.cfg" if Q else "MCLink3.cfg")
    g = SGen(chk.rng)
    r = g.rng
    scens = []

    def pipe(sapi, rapi, mask, ops, cls, sched=(), feed=None):
        s = dict(id=len(scens) + 1, fam="pipe", sapi=sapi, api=rapi, mask=mask, server=mask, ops=ops, sched=list(sched), lim=False,
                 maxf=INF, maxm=INF, cls=cls, pre=r.randrange(0, 40), split=r.randrange(0, 4))
        # message-level receive calls only: "ops" is the sender's list, the receiver's default is messages
        s["sendops"] = ops
        tot = g.total(dict(ops=ops, mask=mask))
        s["feed"] = feed_cuts(r, tot) if feed is None else feed
        scens.append(s)

    # every pairing of sending and receiving API, in both roles
    for sapi in SYNC_APIS + ASYNC_APIS:
        for rapi in MSG_APIS:
            for _ in range(N(1, 6)):
                mask = role_of(sapi, r)
                ops = pipe_ops(g, sapi, r.randrange(2, 7))
                tot = g.total(dict(ops=ops, mask=mask))
                sched = g.sched(tot, ("wb",) if sapi in ASYNC_APIS else ("in",), .2) if r.random() < .5 else ()
                pipe(sapi, rapi, mask, ops, "pairs", sched)
    # sizes: each boundary, each kind, sync and async on either side
    sizes = [0, 1, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537] + ([] if Q else [4096, 8192, 100000, 1 << 20])
    for n in sizes:
        for t in (1, 2):
            for sapi, rapi in (("sender", "codec"), ("mcodec", "receiver"), ("conn", "framed"), ("aacc", "client"), ("msgcodec", "reader")):
                o = {"mcodec": "own", "aacc": "own", "msgcodec": "msg"}.get(sapi)
                mask = role_of(sapi, r)
                pipe(sapi, rapi, mask, [g.msg_op(o, t, n), g.msg_op(o, 2, 1)], "sizes")
    for sapi in SYNC_APIS + ASYNC_APIS:
        o = {"mcodec": "own", "aacc": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(sapi)
        n = huge_sizes(r, 1)[0]
        pipe(sapi, r.choice(MSG_APIS), role_of(sapi, r), [g.msg_op(o, r.choice([1, 2]), n), g.msg_op(o, 2, 1)], "huge", feed=[1 << 26])
    for n in range(0, N(132, 400), N(2, 1)):
        sapi = r.choice(SYNC_APIS + ASYNC_APIS)
        o = {"mcodec": "own", "aacc": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(sapi)
        pipe(sapi, r.choice(MSG_APIS), role_of(sapi, r), [g.msg_op(o, r.choice([1, 2]), n + r.randrange(2)), g.msg_op(o)], "every-size")
    for _ in range(N(100, 4000)):
        sapi = r.choice(SYNC_APIS + ASYNC_APIS)
        pipe(sapi, r.choice(MSG_APIS), role_of(sapi, r), pipe_ops(g, sapi, r.randrange(1, 12), big=r.random() < .1), "random")
    # live connections over loopback, both directions at once and request/reply, every pairing
    def msgs(k, big):
        out = []
        for _ in range(k):
            m = g.msg_op("own", big=big and r.random() < .3)
            out.append(dict(t=m["t"], code=m["code"], p=m["p"]))
        return out
    for cli in ("sync", "async"):
        for srv in ("sync", "async"):
            for echo in (False, True):
                for _ in range(N(3, 20)):
                    k = r.choice([1 if echo else 0, 1, 5, 30, 80])
                    scens.append(dict(id=len(scens) + 1, fam="tcp", client=cli, server=srv, echo=echo, c2s=msgs(k, True),
                                      s2c=[] if echo else msgs(r.choice([0 if k else 1, 1, 10, 60]), True), cls="tcp", api=cli + "-" + srv, sapi="tcp", ops=[]))
            # more in flight than the socket buffers hold
            big = [dict(t=2, code=-1, p=[[i % 251, 200000 + i]]) for i in range(N(40, 120))]
            scens.append(dict(id=len(scens) + 1, fam="tcp", client=cli, server=srv, echo=False, c2s=big, s2c=list(reversed(big)), cls="tcp-volume", api=cli + "-" + srv, sapi="tcp", ops=[]))
    run_link(chk, scens)


def run_link(chk, scens):
    evs = vlib.run_harness(scens, chk.wd, timeout=40, tag="l")
    traces = [dict(id=s["id"], ev=evs[s["id"]]) for s in scens if s["id"] in evs]
    acc, rej, t = vlib.validate("TraceLink", traces, chk.wd)
    cls = {}
    for s in scens:
        cls[s["cls"]] = cls.get(s["cls"], 0) + 1
    chk.add_traces("TraceLink", traces, rej, t, cls)
    for i in (0, len(scens) // 2):
        chk.sample(dict(cls=scens[i]["cls"], sapi=scens[i]["sapi"], rapi=scens[i]["api"], ev=[{k: v for k, v in e.items() if k != "a"} for e in traces[i]["ev"][:5]]))
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind="link", scenario=scens[i - 1], events=evs[i][max(0, l - 5):l + 1], event=l, why=why))


# --------------------------------------------------------------------------- P24
class Duplex:
    """Writes a script and keeps a light account of what is in flight, to know which calls must return something."""

    def __init__(self, g, gr, role, lim):
        self.g, self.gr, self.r, self.role, self.lim = g, gr, g.rng, role, lim
        self.ops, self.preitems, self.pre, self.rest = [], [], [], None
        self.toB, self.fromB = 0, []      # frames; fromB holds True for a frame that completes a message
        self.aw = self.ar = self.bw = True
        self.dead = False
        self.split = False
        self.wdrop = self.rdrop = False
        self.todo = []      # frames of the message B is in the middle of

    def masked(self):
        return self.role == "server"

    def frame(self):
        """the next frame B sends"""
        if self.todo:
            return self.todo.pop(0)
        x = self.r.random()
        maxn = None if self.lim is None else 60
        if x < .45:
            self.todo = self.gr.message(self.masked(), frags=self.r.choice([2, 3, 4]), n=self.r.randrange(0, 60))
        elif x < .8:
            n = self.r.randrange(0, 60)
            t = self.r.choice([1, 2])
            self.todo = [item(True, t, self.gr.payload(t, n), self.masked(), self.r)]
        else:
            self.todo = [self.gr.control(self.masked())]
            while blen(self.todo[0]["p"]) > 60:
                self.todo = [self.gr.control(self.masked())]
        return self.todo.pop(0)

    def completes(self, it):
        return it["h"][0] & 0x0f >= 8 or bool(it["h"][0] & 0x80)

    def bsend(self, it=None, frm=0):
        it = it or self.frame()
        self.ops.append(dict(o="bsend", h=it["h"], p=it["p"], **({"from": frm} if frm else {})))
        self.fromB.append(self.completes(it))

    def bad(self):
        """a frame that must be refused: carried-over role and limits"""
        r = self.r
        if self.lim is not None and r.random() < .5:
            n = self.lim[0] + r.choice([1, 2, 100])
            it = item(True, 2, run_blob(r, n), self.masked(), r)
        else:
            it = item(True, r.choice([1, 2, 9]), self.gr.payload(1, r.randrange(1, 20)), not self.masked(), r)
        self.todo = []
        self.ops.append(dict(o="bsend", h=it["h"], p=it["p"]))
        self.fromB.append(True)
        self.arecv(all_=True)
        self.dead = True

    def arecv(self, all_=False):
        while True:
            if self.dead or self.rdrop:
                return
            must = any(self.fromB) or not self.bw or not self.ar
            self.ops.append(dict(o="arecv", wait=must))
            if any(self.fromB):
                while not self.fromB.pop(0):
                    pass
            elif not self.bw or not self.ar:
                self.dead = True
            else:
                self.fromB = []
            if not all_ or not self.fromB:
                return

    def asend(self):
        if self.wdrop:
            return
        a = self.g.any_op("client") if self.r.random() < .9 else self.g.df_op()
        self.ops.append(dict(o="asend", a=a))
        if self.aw:
            self.toB += 1

    def bread(self):
        self.ops.append(dict(o="bread", wait=self.toB > 0 or not self.aw))
        if self.toB:
            self.toB -= 1

    def step(self):
        r = self.r
        x = r.random()
        if x < .22:
            self.asend()
        elif x < .42:
            self.bread() if self.toB or r.random() < .25 else None
        elif x < .66:
            if self.bw and (self.aw or self.ar):
                self.bsend()
        elif x < .88:
            if any(self.fromB) or not self.bw or r.random() < .2:
                self.arecv()
        elif x < .93 and not self.split:
            self.ops.append(dict(o="split"))
            self.split = True
        elif x < .95:
            self.shut(r.choice(["ashutw", "ashutr", "bshutw", "ashutall"]))
        elif x < .96 and self.split:
            if r.random() < .5 and not self.wdrop:
                self.ops.append(dict(o="dropw"))
                self.wdrop = True
            elif not self.rdrop and not self.wdrop:
                self.ops.append(dict(o="dropr"))
                self.rdrop = True
        elif x < .975 and not self.dead and self.bw and (self.aw or self.ar) and self.ar and not self.rdrop:
            self.bad()

    def shut(self, what):
        if what == "ashutw":
            if self.wdrop:
                return
            self.aw = False
        elif what == "ashutr":
            if self.rdrop:
                return
            self.ar = False
        elif what == "ashutall":
            self.aw = self.ar = False
        elif what == "bshutw":
            if not self.bw:
                return
            self.bw = False
        op = dict(o=what)
        if what == "ashutall":
            op["via"] = "writer" if self.rdrop else "reader" if self.wdrop else self.r.choice(["reader", "writer"])
        self.ops.append(op)

    def drain(self):
        """read everything in both directions, to the end where there is one"""
        while self.toB:
            self.bread()
        self.bread()
        self.arecv(all_=True)
        if not self.dead:
            self.arecv()

    def scen(self, i, cls):
        s = dict(id=i, fam="duplex", role=self.role, lim=self.lim is not None, maxf=INF if self.lim is None else self.lim[0],
                 maxm=INF if self.lim is None else self.lim[1], pre=self.pre, preitems=self.preitems, ops=self.ops, cls=cls)
        if self.lim is None:
            s["maxf"], s["maxm"] = 100 << 20, 200 << 20
        return s

    def prefill(self):
        """frames in the same bytes as the end of the handshake, the last one possibly cut"""
        k = self.r.randrange(1, 5)
        raw = b""
        for _ in range(k):
            it = self.frame()
            self.preitems.append(it)
            raw += item_bytes(it)
            self.fromB.append(self.completes(it))
        if self.r.random() < .5:
            it = self.frame()
            b = item_bytes(it)
            n = self.r.randrange(1, len(b))
            self.pre = list(raw + b[:n])
            self.bsend(it, n)
        else:
            self.pre = list(raw)


def duplex_scens(chk):
    from gen_recv import Gen
    g, gr = SGen(chk.rng), Gen(chk.rng)
    r = chk.rng
    out = []

    def new(role=None):
        d = Duplex(g, gr, role or r.choice(["server", "client"]), r.choice([None, None, (130, 400)]))
        if r.random() < .5:
            d.prefill()
        return d

    def keep(d, cls):
        out.append(d.scen(len(out) + 1, cls))

    # each way of shutting down, with data in flight both ways, split or not, both roles
    for role in ("server", "client"):
        for what in ("ashutw", "ashutr", "ashutall", "bshutw"):
            for split in ("no", "before", "mid"):
                for _ in range(N(2, 12)):
                    d = new(role)
                    if split == "before":
                        d.ops.append(dict(o="split"))
                        d.split = True
                    for _ in range(r.randrange(0, 4)):
                        d.asend()
                    if r.random() < .6:
                        for _ in range(r.randrange(0, 4)):
                            d.bsend()
                    if split == "mid":
                        d.ops.append(dict(o="split"))
                        d.split = True
                    if r.random() < .5:
                        d.bread() if d.toB else None
                        d.arecv() if any(d.fromB) else None
                    d.shut(what)
                    d.asend()
                    d.bread()
                    d.bread()
                    if d.bw and (d.aw or d.ar):
                        d.bsend()
                    d.drain()
                    if what != "ashutall" and r.random() < .5:
                        d.shut(r.choice(["ashutw", "ashutr", "bshutw"]))
                        d.asend()
                        d.drain()
                    keep(d, "shut:" + what)
    # a message half assembled, frames buffered, at the moment of the split
    for _ in range(N(30, 400)):
        d = new()
        while d.todo:
            d.bsend()
        ms = gr.message(d.masked(), frags=r.choice([2, 3, 5]), n=r.randrange(0, 60)) + gr.message(d.masked(), frags=2, n=9)
        k = r.randrange(1, len(ms))
        for it in ms[:k]:
            d.todo = []
            d.bsend(it)
        d.arecv()
        if r.random() < .4:
            d.arecv()
        d.ops.append(dict(o="split"))
        d.split = True
        for it in ms[k:]:
            d.bsend(it)
        d.asend()
        if r.random() < .4:
            d.bad()
        d.drain()
        keep(d, "half-assembled")
    # refusals before and after the split
    for _ in range(N(20, 200)):
        d = new()
        d.asend()
        if r.random() < .7:
            d.ops.append(dict(o="split"))
            d.split = True
        d.arecv(all_=True)
        d.bad()
        d.asend()
        d.drain()
        keep(d, "carried-over")
    for _ in range(N(120, 3000)):
        d = new()
        for _ in range(r.randrange(5, 40)):
            d.step()
        d.drain()
        keep(d, "random")
    return out


def run_duplex(chk, scens):
    evs = vlib.run_harness(scens, chk.wd, timeout=60, shards=min(8, max(1, len(scens) // 8)), tag="d")
    traces = [dict(id=s["id"], role=s["role"], maxf=s["maxf"], maxm=s["maxm"], ev=evs[s["id"]]) for s in scens if s["id"] in evs]
    acc, rej, t = vlib.validate("TraceDuplex", traces, chk.wd)
    cls = {}
    for s in scens:
        cls[s["cls"]] = cls.get(s["cls"], 0) + 1
    chk.add_traces("TraceDuplex", traces, rej, t, cls)
    chk.sample(dict(cls=scens[0]["cls"], role=scens[0]["role"], ev=traces[0]["ev"][:8]))
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind="duplex", scenario=scens[i - 1], events=evs[i][max(0, l - 6):l + 1], event=l, why=why))


def p24(chk):
    chk.model("MCDuplex", "MCDuplex.cfg" if Q else "MCDuplex3.cfg", timeout=800)
    run_duplex(chk, duplex_scens(chk))
    g = SGen(chk.rng)
    r = g.rng
    scens = []
    # both halves at work at the same time, in their own threads
    def msgs(k):
        return [dict(t=m["t"], code=m["code"], p=m["p"]) for m in (g.msg_op("own", big=r.random() < .2) for _ in range(k))]
    for _ in range(N(12, 100)):
        scens.append(dict(id=len(scens) + 1, fam="tcp", client="sync", server="sync", echo=False, c2s=msgs(r.randrange(0, 120)), s2c=msgs(r.randrange(1, 120)),
                          cls="concurrent", api="sync-sync", sapi="tcp", ops=[]))
    big = [dict(t=2, code=-1, p=[[i % 251, 150000 + i]]) for i in range(N(40, 120))]
    scens.append(dict(id=len(scens) + 1, fam="tcp", client="sync", server="sync", echo=False, c2s=big, s2c=list(reversed(big)), cls="concurrent-volume", api="sync-sync", sapi="tcp", ops=[]))
    run_link(chk, scens)
