"""Scenarios for receiving endpoints."""
from wire import *

INF = 2147483647
# limits that the specification takes for none; a width of 32 bits does not hold all of them
HUGE = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 50, 2**33, 2**40 + 7, 2**63 - 1, 2**63, 2**64 - 1]
DEF_F, DEF_M = 100 * 1024 * 1024, 200 * 1024 * 1024
SYNC_MSG = ["receiver", "parts", "iter", "client", "citer", "clientpre", "reader", "riter", "split", "pair"]
ASYNC_MSG = ["codec", "framed", "framedpre"]
MSG_APIS = SYNC_MSG + ASYNC_MSG
DF_APIS = ["receiver", "parts", "rawhdr", "pair", "iter", "client", "citer", "reader", "riter", "rawdf", "rawdfl", "dfcodec", "dfframed"]
CTL_SIZES = [0, 1, 2, 3, 124, 125]
SIZES = [0, 1, 2, 3, 4, 5, 7, 30, 124, 125, 126, 127, 128, 200, 255, 256, 257]
BIG_SIZES = [4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.next_id = 1
        self.out = []
        self.recent = []      # payloads drawn before: some come again, in the same kind of message or another

    def add(self, api, server, items=None, raw=None, feed=None, lim=None, ops=None, cls="", tail=None, **kw):
        """lim: None (defaults) or (maxf, maxm)"""
        items = items or []
        for it in items:
            it.setdefault("rep", 1)
        tot = len(raw) if raw is not None else sum(item_len(i) for i in items)
        maxf, maxm = (DEF_F, DEF_M) if lim is None else lim
        if api in ("rawdf", "rawhdr"):
            maxf = INF
        sc = dict(id=self.next_id, fam="recv", api=api, server=server, lim=lim is not None, maxf=min(maxf, INF), maxm=min(maxm, INF),
                  items=items, raw=list(raw) if raw else [], tot=tot, feed=feed if feed is not None else feed_cuts(self.rng, tot),
                  rops=ops or (["d"] if api in ("rawdf", "rawhdr", "rawdfl", "dfcodec", "dfframed") else ["m"]), cls=cls)
        if lim is not None:
            for k, v in (("xmaxf", maxf), ("xmaxm", maxm)):
                if v > INF:
                    sc[k] = str(v)
        if api in ("clientpre", "framedpre", "reader", "riter"):
            sc["pre"] = kw.pop("pre", self.rng.randrange(0, max(1, min(tot, 60))))
            if api in ("reader", "riter") and self.rng.random() < .5:
                sc["pre"] = 0
        if api == "split":
            sc["split"] = kw.pop("split", self.rng.randrange(0, 6))
        if api.endswith("iter"):
            sc["keep"] = self.rng.random() < .6
        sc.update(kw)
        self.next_id += 1
        self.out.append(sc)
        return sc

    # ------------------------------------------------------------- legal traffic
    def payload(self, op, n, small=True):
        r = self.rng
        if op == 1:
            if n > 400:
                return ascii_blob(r, n)
            t = utf8_text(r, n)
            return blob(t)
        if n <= 300:
            if r.random() < .3:
                return run_blob(r, n)
            return blob(bytes(r.randrange(256) for _ in range(n)))
        return run_blob(r, n)

    def control(self, server, op=None, n=None):
        r = self.rng
        op = op or r.choice([8, 9, 9, 10, 10])
        if op == 8:
            p = r.choice([[], blob(struct.pack(">H", r.choice(CODES + [r.randrange(65536)]))),
                          blob(struct.pack(">H", r.choice(CODES + [r.randrange(65536)] * 8)) + utf8_text(r, r.choice([1, 5, 50, 119])))])
            if blen(p) > 125:
                p = blob(b"\x03\xe8")
        else:
            again = n is None and self.recent and r.random() < .2
            n = r.choice(CTL_SIZES + [r.randrange(126)]) if n is None else n
            p = bsplit(r.choice(self.recent)[1], r.choice([n, 125]))[0] if again else self.payload(9, n)
            self.remember(op, p)
        return item(True, op, p, server, r)

    def remember(self, op, p):
        self.recent.append((op, p))
        del self.recent[:-4]

    def message(self, server, op=None, n=None, frags=None, ctl=.3, big=False):
        """a legal data message as items, possibly fragmented with control frames in between"""
        r = self.rng
        op = op or r.choice([1, 2])
        free = n is None and not big
        if n is None:
            n = r.choice(BIG_SIZES) if big else r.choice(SIZES + [r.randrange(300)])
        same = [p for o, p in self.recent if o == 1 or op == 2] if free and r.random() < .2 else []
        p = r.choice(same) if same else self.payload(op, n)
        if frags is None:
            frags = r.choice([1, 1, 2, 2, 3, 4, 6]) if r.random() > .015 else r.choice([17, 33, 40, 65, 70, 130])
        alike = free and not same and frags in (2, 3, 4, 6) and r.random() < .12
        if alike:             # all fragments the same
            unit = self.payload(op, r.choice([1, 2, 3, 7, 20]))
            p = bcat(*[unit] * frags)
        n = blen(p)
        if free:
            self.remember(op, p)
        cuts = sorted(r.choice([0, n, r.randrange(n + 1), r.randrange(n + 1)]) for _ in range(frags - 1))
        if alike:
            cuts = [n // frags * i for i in range(1, frags)]
        parts, rest, last = [], p, 0
        for c in cuts:
            a, rest = bsplit(rest, c - last)
            parts.append(a)
            last = c
        parts.append(rest)
        out = []
        for i, q in enumerate(parts):
            out.append(item(i == len(parts) - 1, op if i == 0 else 0, q, server, r))
            if i < len(parts) - 1:
                while r.random() < ctl:
                    out.append(self.control(server))
        return out

    def traffic(self, server, k=None, big=False, **kw):
        r = self.rng
        out = []
        for _ in range(k or r.randrange(1, 6)):
            if r.random() < .3:
                out.append(self.control(server))
            else:
                out += self.message(server, big=big, **kw)
        return out

    # ------------------------------------------------------------- defects
    def open_prefix(self, server):
        """an unfinished legal message"""
        m = self.message(server, frags=self.rng.choice([2, 3, 4]))
        last_data = max(i for i, it in enumerate(m) if it["h"][0] & 0x0f < 8)
        return m[:last_data]


def boundaries(items):
    o, out = 0, [0]
    for it in items:
        for _ in range(it.get("rep", 1)):
            o += len(it["h"]) + blen(it["p"])
            out.append(o)
    return out
