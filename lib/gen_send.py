"""Scenarios for sending endpoints."""
from wire import *

SYNC_APIS = ["sender", "client", "wmut", "header", "writer", "serialize", "acc", "conn", "accsplit", "connsplit", "pairclient", "pairsender"]
ASYNC_APIS = ["mcodec", "msgcodec", "dcodec", "aacc", "aconn", "paircodec"]
MSG_OPS = ["own", "msg"]
SIZES = [0, 1, 2, 3, 4, 5, 8, 30, 124, 125, 126, 127, 128, 200, 255, 256, 257]
BIG = [4096, 8191, 8192, 65534, 65535, 65536, 65537, 70000]


def role_of(api, rng):
    """mask flag of an API whose role is fixed, else a choice"""
    if "acc" in api:
        return False
    if "conn" in api:
        return True
    return rng.random() < .6


class SGen:
    def __init__(self, rng):
        self.rng, self.out, self.next_id, self.last = rng, [], 1, {}

    def payload(self, t, n):
        r = self.rng
        if t in (1, 8):
            return blob(utf8_text(r, n)) if n <= 300 and r.random() < .5 else ascii_blob(r, n)
        if n <= 300 and r.random() < .6:
            return blob(bytes(r.randrange(256) for _ in range(n)))
        return run_blob(r, n)

    def msg_op(self, o=None, t=None, n=None, big=False):
        r = self.rng
        if self.last and t is None and n is None and not big and r.random() < .15:     # the same again
            return dict(self.last, o=o or r.choice(MSG_OPS))
        if t is None and n is None and not big:
            self.last = {}
            self.last = self.msg_op(o, r.choice([1, 2, 2, 8, 9, 10]))
            return dict(self.last)
        t = t or r.choice([1, 2, 2, 8, 9, 10])
        o = o or r.choice(MSG_OPS)
        code = -1
        if t >= 8:
            n = r.choice([0, 1, 2, 5, 100, 120]) if n is None else n
        elif n is None:
            n = r.choice(BIG if big else SIZES + [r.randrange(400)])
        if t == 8:
            if n == 0 and r.random() < .6:
                return dict(o=o, t=8, code=-1, p=[])
            code = r.choice(CODES + [r.randrange(65536)] * 4)
        return dict(o=o, t=t, code=code, p=self.payload(t, n))

    def df_op(self, n=None, big=False, t=None):
        r = self.rng
        t = r.randrange(16) if t is None else t
        fin = True if t >= 8 else r.random() < .5
        if n is None:
            n = r.choice([0, 1, 2, 77, 124, 125]) if t >= 8 else r.choice(BIG if big else SIZES)
        return dict(o="df", fin=fin, rsv=r.choice([0, 0, 0, 1, 2, 4, 3, 5, 6, 7]), t=t, p=self.payload(2, n))

    def any_op(self, api, big=False):
        r = self.rng
        if api in ("mcodec", "aacc", "aconn", "paircodec"):
            return self.msg_op("own", big=big)
        if api == "msgcodec":
            return self.msg_op("msg", big=big)
        x = r.random()
        if x < .3:
            return self.df_op(big=big)
        op = self.msg_op(big=big)
        if x < .5:
            op["o"] += "df"
        return op

    def refused_op(self, api):
        r = self.rng
        t = r.choice([8, 9, 10])
        n = r.choice([126, 127, 128, 200, 1000, 65535, 65536])
        if t == 8:
            n -= 2
        op = self.msg_op({"mcodec": "own", "aacc": "own", "aconn": "own", "paircodec": "own", "msgcodec": "msg"}.get(api), t=t, n=n)
        if api not in ("mcodec", "aacc", "aconn", "msgcodec", "paircodec") and r.random() < .3:
            op = self.df_op(t=r.randrange(8, 16), n=n)
        return op

    def sched(self, total, kinds=(), prob=.3, end=None):
        """write sizes with interruptions"""
        r = self.rng
        out, left = [], total
        mode = r.choice(["ones", "small", "mid"]) if total < 500 else "mid"
        while left > 0:
            k = 1 if mode == "ones" else r.randrange(1, 6) if mode == "small" else r.randrange(1, max(2, total // 3))
            while kinds and r.random() < prob:
                out.append(r.choice(kinds))
            out.append(k)
            left -= k
        while kinds and r.random() < prob:
            out.append(r.choice(kinds))
        if end:
            out.append(end)
        return out

    def add(self, api, ops, mask=None, sched=(), cls="", fresh=False):
        s = dict(id=self.next_id, fam="send", api=api, mask=role_of(api, self.rng) if mask is None else mask,
                 ops=ops, sched=list(sched), cls=cls, fresh=fresh)
        self.next_id += 1
        self.out.append(s)
        return s

    def total(self, s):
        t = 0
        for a in s["ops"]:
            if a["o"] in ("flush", "swap"):
                continue
            n = blen(a["p"]) + (2 if a.get("code", -1) >= 0 else 0)
            t += 2 + (0 if n < 126 else 2 if n < 65536 else 8) + (4 if s["mask"] else 0) + n
        return t
