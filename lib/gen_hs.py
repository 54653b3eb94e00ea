"""Scenarios for opening handshakes. Independent of the code under test."""
import base64
import re
from wire import *

INF = 2147483647
DEF_F, DEF_M = 100 * 1024 * 1024, 200 * 1024 * 1024
ENTRIES = ["sync", "async", "pair", "hyper"]
METHODS = ["POST", "HEAD", "PUT", "OPTIONS", "get", "Get", "GETX", "DELETE", "CONNECT", "PATCH", "TRACE"]
WS = ["websocket", "WebSocket", "WEBSOCKET", "webSocket"]
UPG = ["Upgrade", "upgrade", "UPGRADE", "uPgrAde"]
NOTWS = ["websockets", "xwebsocket", "web-socket", "h2c", "websocke", "foo, bar", "TLS/1.0", "web socket", "websocket; q=1", "\"websocket\""]
NOTUPG = ["keep-alive", "close", "upgraded", "up-grade", "keep-alive, close", "xupgrade", "upgrade;x", "websocket"]
TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~"


# headers that mean something elsewhere in HTTP and nothing here
REQ_HDR = [("Expect", "100-continue"), ("Content-Length", "0"), ("Content-Length", "5"), ("Transfer-Encoding", "chunked"), ("Accept", "*/*"), ("Accept-Encoding", "gzip, deflate"),
           ("Accept-Language", "en"), ("Cache-Control", "no-cache"), ("Pragma", "no-cache"), ("Cookie", "a=b; c=d"), ("Authorization", "Basic dTpw"), ("Range", "bytes=0-1"),
           ("If-None-Match", "*"), ("If-Modified-Since", "Sun, 06 Nov 1994 08:49:37 GMT"), ("TE", "trailers"), ("Trailer", "X"), ("Via", "1.1 x"), ("DNT", "1"), ("Keep-Alive", "timeout=5"),
           ("User-Agent", "x/1"), ("Referer", "http://a/"), ("Content-Type", "text/plain"), ("Date", "Sun, 06 Nov 1994 08:49:37 GMT"), ("From", "a@b"), ("Max-Forwards", "1"),
           ("X-Forwarded-For", "1.2.3.4"), ("X-Forwarded-Proto", "https"), ("Forwarded", "for=1.2.3.4"), ("HTTP2-Settings", "AAMAAABkAAQAAP__"), ("Sec-WebSocket-Accept", "x"),
           ("Sec-WebSocket-Key1", "x"), ("Proxy-Connection", "keep-alive"), ("X-HTTP-Method-Override", "POST"), ("Alt-Used", "a"), ("Location", "ws://x/"), ("Upgrade-Insecure-Requests", "1")]
RESP_HDR = [("Server", "x"), ("Date", "Sun, 06 Nov 1994 08:49:37 GMT"), ("Set-Cookie", "a=b"), ("Content-Length", "0"), ("Content-Length", "7"), ("Transfer-Encoding", "chunked"),
            ("Retry-After", "1"), ("Vary", "*"), ("ETag", "\"x\""), ("Strict-Transport-Security", "max-age=1"), ("WWW-Authenticate", "Basic realm=\"x\""), ("Allow", "GET"),
            ("Sec-WebSocket-Version", "13"), ("Sec-WebSocket-Version", "8"), ("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="), ("Access-Control-Allow-Origin", "*"), ("Content-Type", "text/html"),
            ("Content-Encoding", "gzip"), ("Keep-Alive", "timeout=5"), ("Alt-Svc", "h2=\":443\""), ("Trailer", "X"), ("Via", "1.1 x"), ("Age", "1"), ("Refresh", "0"), ("Proxy-Connection", "close")]
REPLY_HDR = [("Location", "ws://other/"), ("Content-Length", "0"), ("Content-Type", "text/plain"), ("Retry-After", "120"), ("WWW-Authenticate", "Basic realm=\"x\""), ("Set-Cookie", "a=b"),
             ("Allow", "GET"), ("Date", "Sun, 06 Nov 1994 08:49:37 GMT"), ("Server", "s"), ("Sec-WebSocket-Version", "13"), ("Cache-Control", "no-store"), ("Access-Control-Allow-Origin", "*"),
             ("Transfer-Encoding", "identity"), ("Content-Encoding", "identity"), ("Vary", "Origin"), ("ETag", "\"1\""), ("Alt-Svc", "clear"), ("X-Frame-Options", "DENY"), ("Strict-Transport-Security", "max-age=1"),
             ("Keep-Alive", "timeout=1"), ("Via", "1.1 p"), ("Warning", "199 - x"), ("Host", "h"), ("Expect", "100-continue"), ("Authorization", "Basic dTpw"), ("Sec-WebSocket-Key", "AAAAAAAAAAAAAAAAAAAAAA==")]


NOT_REPLY = ("Content-Length",)


def pick(r, pool, p=.35):
    """a few of them, one line per name"""
    out, seen = [], set()
    if r.random() < p:
        for n, v in r.sample(pool, r.choice([1, 1, 2, 4])):
            if n.lower() not in seen:
                seen.add(n.lower())
                out.append((n, v))
    return out


def B(s):
    return list(s.encode("latin-1") if isinstance(s, str) else s)


def token(r, n=None, rel=None):
    """a token; now and then one that is related to the tokens drawn before: the same, a part of it, more than it, in another case"""
    recent = r.__dict__.setdefault("recent", [])
    if recent and r.random() < (.35 if rel or rel is None and n is None else 0):
        t = r.choice(recent)
        return r.choice([t, t, t[:r.randrange(1, len(t) + 1)], t[r.randrange(len(t)):], t + r.choice(TOKEN), t.swapcase(), t[::-1], t + t])[:24]
    t = "".join(r.choice(TOKEN) for _ in range(n or r.randrange(1, 12)))
    recent.append(t)
    del recent[:-4]
    return t


def b64(b):
    return base64.b64encode(bytes(b)).decode()


def mixcase(r, s):
    return "".join(c.upper() if r.random() < .5 else c.lower() for c in s)


def head_end(raw):
    """length of the head at the start of raw (leading empty lines included), 0 when incomplete"""
    raw = bytes(raw)
    o = 0
    while raw[o:o + 2] == b"\r\n":
        o += 2
    p = raw.find(b"\r\n\r\n", o)
    return 0 if p < 0 else p + 4


def cum(feed, n):
    out, t = [], 0
    for x in feed:
        if isinstance(x, int):
            t = min(t + x, n)
            if not out or out[-1] != t:
                out.append(t)
    if not out or out[-1] != n:
        out.append(n)
    return out


def lay(r, lines):
    """header lines with legal variations of spacing and case"""
    out = []
    for n, v in lines:
        x = r.random()
        n = n if x < .5 else mixcase(r, n) if x < .8 else n.lower()
        x = r.random()
        v = v if isinstance(v, bytes) else v.encode("latin-1")
        out.append(n.encode() + (b": " if x < .7 else b":" if x < .8 else b":\t" if x < .85 else b":   ") + v + (b"" if r.random() < .8 else b"  "))
    return out


def lots(r, k, p=.04, top=65):
    """now and then far more than anyone would try"""
    return r.choice([x for x in (9, 11, 17, 33, 65) if x <= top]) if r.random() < p else k


def longtext(r, x, p=.04):
    return x + "z" * r.choice([120, 256, 300, 1024, 3000]) if r.random() < p else x


def listline(r, good, others, name):
    """lines of a list header that names good somewhere"""
    items = [r.choice(others) for _ in range(lots(r, r.randrange(0, 4)))]
    items.insert(r.randrange(len(items) + 1), good)
    sep = lambda: r.choice([", ", ",", " ,", ",  ", ", , "])
    if len(items) > 1 and r.random() < .3:
        c = r.randrange(1, len(items))
        return [(name, sep().join(items[:c])), (name, sep().join(items[c:]))]
    s = items[0]
    for x in items[1:]:
        s += sep() + x
    return [(name, s)]


EXTN = ["permessage-deflate", "x-webkit-deflate-frame", "bbf-usp-protocol", "foo", "mux"]


def ext(r, plain=False):
    ps = []
    for _ in range(lots(r, r.choice([0, 0, 1, 1, 2, 3]), .02, 17)):
        n = r.choice(["client_max_window_bits", "server_no_context_takeover", "level", token(r, 5, rel=True)])
        ps.append([B(n)] if r.random() < .4 else [B(n), B(r.choice(["15", "8", "a", token(r), token(r), "1.5", "x_y-z", "", '"15"', "a=b", n, n]))])
    return dict(n=B(r.choice(EXTN + [token(r, 6, rel=True), bytes(ps[0][0]).decode() if ps else "x"])), ps=ps)


def ext_text(e, r=None):
    s = bytes(e["n"]).decode()
    for p in e["ps"]:
        s += (r.choice(["; ", ";", " ; "]) if r else "; ") + "=".join(bytes(x).decode() for x in p)
    return s


from gen_recv import HUGE


def limit_op(o, v):
    return dict(o=o, v=min(v, INF), **({"xv": str(v)} if v > INF else {}))


class HsGen:
    def __init__(self, rng):
        self.rng, self.out, self.next_id = rng, [], 1

    def add(self, **sc):
        sc["id"] = self.next_id
        self.next_id += 1
        self.out.append(sc)
        return sc

    # ------------------------------------------------------------------- requests
    def request(self, faults=(), **kw):
        """bytes of a request head with the given faults; kw forces parts"""
        r = self.rng
        key = kw.get("key") or b64(bytes(r.randrange(256) for _ in range(16)))
        method, ver, target = "GET", "HTTP/1.1", kw.get("target") or self.target()
        up = listline(r, r.choice(WS), ["h2c", "foo/1", "TLS/1.0", "bar", "websockets"], "Upgrade") if r.random() < .4 else [("Upgrade", r.choice(WS))]
        co = listline(r, r.choice(UPG), ["keep-alive", "close", "foo", "upgraded"], "Connection") if r.random() < .5 else [("Connection", r.choice(UPG))]
        ve = [("Sec-WebSocket-Version", "13")] if r.random() < .85 else []
        ke = [("Sec-WebSocket-Key", key)]
        for f in faults:
            if f == "method":
                method = kw.get("method") or r.choice(METHODS)
            elif f == "version":
                ver = "HTTP/1.0"
            elif f == "wsversion":
                x = r.choice(["12", "14", "8", "7", "0", "1", "", "13, 8", "8, 13", "013", "13.0", "+13", "x", "113", "131", "-13", "13;", "two"])
                ve = [("Sec-WebSocket-Version", x)]
                if x == "two":
                    ve = [("Sec-WebSocket-Version", a) for a in r.choice([["13", "8"], ["8", "13"], ["", "13"]])]
            elif f == "nokey":
                ke = []
            elif f == "badkey":
                n = r.choice([0, 1, 8, 12, 14, 15, 17, 18, 19, 20, 24, 32])
                x = r.choice(["len", "len", "len", "chars", "two", "twoin", "url", "empty", "cut", "quoted"])
                k = {"len": b64(bytes(r.randrange(256) for _ in range(n))), "chars": key[:5] + r.choice("!@#$%^*()_~ ") + key[6:], "twoin": key + ", " + key,
                     "url": "-" + key[1:6] + "_" + key[7:], "empty": "", "cut": key[:r.choice([1, 12, 20, 21, 23])], "quoted": '"' + key + '"'}.get(x)
                ke = [("Sec-WebSocket-Key", k)] if x != "two" else [("Sec-WebSocket-Key", key), ("Sec-WebSocket-Key", r.choice([key, b64(b"0" * 16)]))]
            elif f == "noupgrade":
                up = []
            elif f == "notws":
                up = [("Upgrade", r.choice(NOTWS))] if r.random() < .8 else [("Upgrade", "h2c"), ("Upgrade", "foo")]
            elif f == "emptyupgrade":
                up = [("Upgrade", r.choice(["", ",", " , "]))]
            elif f == "noconnection":
                co = []
            elif f == "notupgrade":
                co = [("Connection", r.choice(NOTUPG))] if r.random() < .8 else [("Connection", "keep-alive"), ("Connection", "close")]
            elif f == "emptyconnection":
                co = [("Connection", r.choice(["", ","]))]
        # exactly these lines instead of drawn ones
        forced = kw.get("lines", {})
        up, co, ve, ke = [[(n, x) for x in forced[n]] if n in forced else old for n, old in
                          (("Upgrade", up), ("Connection", co), ("Sec-WebSocket-Version", ve), ("Sec-WebSocket-Key", ke))]
        lines = [("Host", "example.com")] + up + co + ve + ke + kw.get("more", [])
        if r.random() < .4:
            lines.append(("Origin", r.choice(["http://a.b", "null", "https://x.y:8443"])))
        if r.random() < .4:
            for _ in range(lots(r, r.randrange(1, 3), .02, 11)):
                lines.append(("Sec-WebSocket-Protocol", ", ".join(token(r) for _ in range(lots(r, r.randrange(1, 4))))))
        if r.random() < .4:
            for _ in range(lots(r, r.randrange(1, 3), .02, 11)):
                lines.append(("Sec-WebSocket-Extensions", ", ".join(ext_text(ext(r), r) for _ in range(lots(r, r.randrange(1, 3), .04, 17)))))
        if kw.get("known", True):
            lines += pick(r, REQ_HDR)
        for _ in range(lots(r, r.choice([0, 0, 1, 2, 5]), .03, 33)):
            lines.append(("X-" + token(r, 4).replace("!", "a"), longtext(r, r.choice(["a", "b c", "1; 2", "x" * 40, token(r)]))))
        if kw.get("shuffle", True):
            h = lines[1:]
            r.shuffle(h)
            # lines of one header keep their order
            for name in ("Upgrade", "Connection"):
                idx = [i for i, l in enumerate(h) if l[0] == name]
                src = up if name == "Upgrade" else co
                for i, l in zip(idx, src):
                    h[i] = l
            lines = lines[:1] + h
        start = ("%s %s %s" % (method, target, ver)).encode()
        return b"\r\n".join([start] + lay(r, lines)) + b"\r\n\r\n"

    def target(self):
        r = self.rng
        if r.random() < .08:
            return r.choice(["http://example.com/", "http://example.com/a/b?c=d", "http://example.com:8080/chat", "ws://example.com/x?y", "wss://a.b.example/?q=1", "https://u:p@h.example/z", "*", "example.com:80"])
        return r.choice(["/", "/chat", "/a/b/c", "/x?y=z", "/?q", "/a%20b?c=%41&d", "/~user/;v=1", "/" + token(r, 8), "/" + "p" * 200])

    FAULTS = ["method", "version", "wsversion", "nokey", "badkey", "noupgrade", "notws", "emptyupgrade", "noconnection", "notupgrade", "emptyconnection"]

    def faults(self):
        r = self.rng
        k = r.choice([1, 1, 1, 2, 3, 4])
        return r.sample(self.FAULTS, k)

    # the shortest heads there are
    TINY_REQ = [b"GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.0\r\n\r\n", b"X / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\na:\r\n\r\n", b"GET * HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nHost:h\r\n\r\n"]
    TINY_RESP = [b"HTTP/1.1 404 \r\n\r\n", b"HTTP/1.1 101 \r\n\r\n", b"HTTP/1.1 200 O\r\n\r\n", b"HTTP/1.0 500 \r\n\r\n", b"HTTP/1.1 404 \r\na:\r\n\r\n", b"HTTP/1.1 302 \r\nLocation:/\r\n\r\n"]

    MALFORMED = ["nocolon", "emptyname", "spacename", "ctl", "start2", "startver", "startbad", "many", "badmethod", "http2", "nul", "response", "garbage", "fold"]

    def malformed(self, x=None):
        """heads no recipient may take"""
        r = self.rng
        good = self.request()
        ls = good[:-4].split(b"\r\n")
        x = x or r.choice(self.MALFORMED)
        i = r.randrange(1, len(ls))
        if x == "nocolon":
            ls.insert(i, b"no colon here")
        elif x == "emptyname":
            ls.insert(i, b": value")
        elif x == "spacename":
            ls.insert(i, b"Bad Name: value")
        elif x == "ctl":
            ls.insert(i, b"X-Ctl: a" + bytes([r.choice([0, 1, 8, 11, 12, 27, 31])]) + b"b")
        elif x == "start2":
            ls[0] = b"GET /"
        elif x == "startver":
            ls[0] = b"GET / HTTP/" + r.choice([b"1.2", b"3.0", b"11", b"1", b"0.9", b"x"])
        elif x == "startbad":
            ls[0] = r.choice([b"GET", b"(GET) / HTTP/1.1", b"G@T / HTTP/1.1", b" / HTTP/1.1", b"GET /\x01 HTTP/1.1"])
        elif x == "many":
            ls += [b"X-%d: %d" % (j, j) for j in range(r.choice([101, 101, 150, 400]))]
        elif x == "badmethod":
            ls[0] = b"G\x00T / HTTP/1.1"
        elif x == "http2":
            ls[0] = b"PRI * HTTP/2.0"
        elif x == "nul":
            ls.insert(i, b"X-\x00: a")
        elif x == "response":
            ls[0] = b"HTTP/1.1 101 Switching Protocols"
        elif x == "garbage":
            ls = [bytes(r.randrange(1, 128) for _ in range(r.randrange(5, 60))).replace(b"\r", b"x").replace(b"\n", b"y") for _ in range(3)]
            ls[0] = b"\x01" + ls[0]
        elif x == "fold":
            ls.insert(i, b" folded: x")
        return b"\r\n".join(ls) + b"\r\n\r\n"

    # ------------------------------------------------------------------- feeds
    def feed(self, n, mode=None, stops=(), head=0):
        r = self.rng
        mode = mode or r.choice(["all", "ones", "rand", "rand", "two", "around"])
        if mode == "all":
            f = [n]
        elif mode == "ones":
            f = [1] * min(n, 3000)
        elif mode == "two":
            c = r.randrange(1, max(2, n))
            f = [c, n - c]
        elif mode == "around" and head:
            c = max(1, min(n, head + r.choice([-4, -3, -2, -1, 0, 1, 2, 3])))
            f = [c] + ([n - c] if n > c else [])
        else:
            f, t = [], 0
            while t < n:
                k = r.choice([1, 2, 5, 20, r.randrange(1, 200)])
                f.append(min(k, n - t))
                t += k
        f = [x for x in f if x > 0]
        if stops:
            g = []
            for x in f:
                while r.random() < .25:
                    g.append(r.choice(stops))
                g.append(x)
            f = g
        return f

    def tail(self, server_side=True, k=None):
        """websocket frames that follow the head; masked when they come from a client"""
        from gen_recv import Gen
        r = self.rng
        g = Gen(r)
        items = []
        for _ in range(r.choice([0, 1, 1, 2, 4]) if k is None else k):
            items += g.message(server_side, n=r.choice([0, 1, 3, 20, 125, 126, 200]))
        return items

    def simple_tail(self, server_side, k):
        """k single-frame messages and their sizes"""
        from gen_recv import Gen
        g = Gen(self.rng)
        items = [g.message(server_side, n=self.rng.choice([0, 1, 7, 126]), frags=1)[0] for _ in range(k)]
        return to_raw(items), [item_len(i) for i in items]

    # ------------------------------------------------------------------- server scenarios
    def selection(self, some=.6):
        r = self.rng
        protos = [B(token(r)) for _ in range(lots(r, r.choice([0, 1, 1, 2, 2, 3])))] if r.random() < some else []
        exts = [ext(r) for _ in range(lots(r, r.choice([1, 1, 2, 3]), .04, 17))] if r.random() < some else []
        return protos, exts

    def custom(self, clash=.4):
        r = self.rng
        out, seen = [], set()
        for _ in range(lots(r, r.choice([0, 1, 2, 3]), .03, 33)):
            n = r.choice(["Set-Cookie", "X-" + token(r, 3).replace("!", "a"), "Server", "Cache-Control", "Date-X", "Content-Length"])
            if n.lower() in seen:
                continue
            seen.add(n.lower())
            v = [longtext(r, r.choice(["a=b", "x", "v1; v2", token(r), "a b c", "0"])) for _ in range(lots(r, r.choice([1, 1, 2]), .03, 17) if n in ("Set-Cookie",) or n[0] == "X" else 1)]
            if n == "Content-Length":
                v = ["0"]
            if n[0] == "X" and r.random() < .25:
                v = [r.choice(["a\r\nEvil: 1", "a\nb", "x\r\n\r\ny", "q\rz"])]
            out.append([B(n), [B(x) for x in v]])
        for n, v in pick(r, REPLY_HDR, .4):
            if n.lower() not in seen and (clash or n not in NOT_REPLY):
                seen.add(n.lower())
                out.append([B(n), [B(v)]])
        if r.random() < clash:
            for n, v in r.sample([("Upgrade", "foo"), ("Connection", "close"), ("Sec-WebSocket-Accept", "AAAA"), ("connection", "keep-alive"), ("UPGRADE", "h2c"),
                                  ("Upgrade", "websocket"), ("Sec-WebSocket-Accept", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=")], r.choice([1, 2])):
                if n.lower() not in seen:
                    seen.add(n.lower())
                    out.append([B(n), [B(v)]])
        return out

    def server(self, raw, entry, act="none", cls="", feed=None, tail=b"", sel=True, then="none", **kw):
        r = self.rng
        full = bytes(raw) + bytes(tail)
        stops = ["wb"] if entry == "async" else []
        if feed is None:
            feed = self.feed(len(full), stops=stops, head=head_end(full))
        protos, exts = self.selection() if sel and act not in ("drop", "dropfn", "none") else ([], [])
        custom = kw.pop("custom", None)
        if custom is None:
            custom = self.custom() if act in ("accept_with", "accept_hl", "reject_with") else []
            if act == "reject_with":
                custom = [c for c in custom if bytes(c[0]).lower() not in (b"sec-websocket-accept",)]
        lim = (DEF_F, DEF_M)
        if act not in ("accept_lim", "accept_hl"):
            kw.pop("lim", None)
        if act in ("accept_lim", "accept_hl"):
            lim = kw.pop("lim", None) or (r.choice([10, 130, 1000, INF - 1]), r.choice([100, 1000, INF - 1]))
        if entry == "hyper" and re.search(rb"(?i)content-length", bytes(full)) and not re.search(rb"(?i)\ncontent-length:[ \t]*\d{1,9}[ \t]*\r\n", bytes(full)):
            entry = "pair"     # hyper's own constructor of a request panics over an odd length, before this library sees it
        sc = dict(fam="srvhs", entry=entry, raw=list(full), feed=feed, sched=kw.pop("sched", []), act=act, protos=protos, exts=exts,
                  exts1=r.randrange(0, 3), custom=custom, maxf=min(lim[0], INF), maxm=min(lim[1], INF), then=then, k=kw.pop("k", 0), cls=cls,
                  junk=kw.pop("junk", False), rwp=r.random() < .15, wfail=kw.pop("wfail", False), skip=kw.pop("skip", 0))
        for k, v in (("xmaxf", lim[0]), ("xmaxm", lim[1])):
            if v > INF:
                sc[k] = str(v)
        if custom and act in ("accept_with", "accept_hl", "reject_with") and r.random() < .25:
            sc["direct"] = True
            if r.random() < .5:
                sc["act"] = {"accept_with": "accept", "accept_hl": "accept_lim", "reject_with": "reject"}[act]
        sc.update(kw)
        return self.add(**sc)

    NETS = ("sync", "sync-iter", "sync-clone", "sync-tls", "sync-tls-iter", "async", "into-async", "async-tls")

    def netserver(self, net, raw, act="none", cls="", tail=b"", then="none", **kw):
        """the same with a whole server and a socket; the client says everything in its pieces and then ends"""
        n = len(raw) + len(tail)
        chunks = [x for x in self.feed(n, head=len(raw)) if isinstance(x, int)]
        if len(chunks) > 12:
            chunks = chunks[:6] + chunks[-6:]
        if then == "split" and ("tls" in net or not net.startswith("sync")):
            then = "recv"
        return self.server(raw, "async" if "async" in net else "sync", act, cls="net-" + cls, feed=[n] if n else [], tail=tail, then=then,
                           net=net, chunks=chunks, **kw)

    # ------------------------------------------------------------------- URLs and builders
    def url(self, **kw):
        r = self.rng
        u = dict(scheme=r.choice(["ws", "ws", "ws", "wss", "http", "https"]), user="", haspass=False,
                 host=r.choice(["example.com", "localhost", "127.0.0.1", "EXAMPLE.org", "a-b.c", "[::1]", "xn--bcher-kva.example", "10.0.0.1"]), port=-1,
                 path=r.choice(["", "/", "/chat", "/a/b", "/x%20y", "/p;v=1", "/" + "q" * r.choice([100, 100, 255, 1025, 5000]), "/a//b", "/~x/", "/a" * r.choice([5, 40])]), hasq=False, query="", hasf=False, frag="")
        u["pass"] = ""
        if r.random() < .5:
            u["port"] = r.choice([80, 443, 8080, 1, 9001, 65535, 81, 4430])
        if r.random() < .5:
            u["hasq"], u["query"] = True, r.choice(["", "a=b", "a=b&c=d", "x?y", "q=%41", "/path", "a=b%20c", "&".join("k%d=v" % i for i in range(r.choice([20, 70])))])
        if r.random() < .4:
            u["hasf"], u["frag"] = True, r.choice(["", "frag", "a?b", "x/y"])
        if r.random() < .3:
            u["user"] = r.choice(["user", "u", "a.b", "Aladdin", "me%40home", "%C3%A9"])
            if r.random() < .7:
                u["haspass"], u["pass"] = True, r.choice(["pass", "OpenSesame", "p", "1234567890abcdef", "p%2Fq", "100%25", "x" * r.choice([57, 58, 200, 900])])
        u.update(kw)
        return {k: (B(v) if isinstance(v, str) else v) for k, v in u.items()}

    def url_text(self, u):
        t = bytes(u["scheme"]) + b"://"
        if u["user"] or u["haspass"]:
            t += bytes(u["user"]) + ((b":" + bytes(u["pass"])) if u["haspass"] else b"") + b"@"
        t += bytes(u["host"]) + (b":%d" % u["port"] if u["port"] >= 0 else b"") + bytes(u["path"])
        return t + (b"?" + bytes(u["query"]) if u["hasq"] else b"") + (b"#" + bytes(u["frag"]) if u["hasf"] else b"")

    def op(self, auth=False, lim=True):
        r = self.rng
        o = r.choice(["proto", "proto", "protos", "clrproto", "ext", "ext", "exts", "clrext", "key", "clrkey", "ver", "clrver", "origin", "clrorigin",
                      "hdrs", "hdrs", "clrhdr", "clone"] + (["maxf", "maxm"] if lim else []))
        d = dict(o=o)

        def proto():     # the same ones come again, also in another case
            return B(token(r) if r.random() < .5 else r.choice(["chat", "chat", "Chat", "soap", "v2"]))

        def anext():
            return ext(r) if r.random() < .6 else dict(n=B("foo"), ps=r.choice([[], [], [[B("a")], [B("a")]], [[B("a"), B("1")]]]))
        if o == "proto":
            d["v"] = proto()
        elif o == "protos":
            d["vs"] = [proto() for _ in range(lots(r, r.choice([0, 1, 2, 3])))]
        elif o == "ext":
            d["v"] = anext()
        elif o == "exts":
            d["vs"] = [anext() for _ in range(lots(r, r.choice([0, 1, 2]), .04, 17))]
        elif o == "key":
            d["v"] = [r.choice([0, 255, r.randrange(256)]) for _ in range(16)]
        elif o == "ver":
            d["v"] = B(r.choice(["13", "12", "8", "0", "99", "draft-76"]))
        elif o == "origin":
            d["v"] = B(r.choice(["http://a.b", "null", "https://x.y:1", "file://"]))
        elif o == "hdrs":
            names = ["Cookie", "User-Agent", "Referer", "X-A", "X-B", "x-a", "Accept-Language", "Pragma"] + ([] if auth else ["Authorization"])
            seen, vs = set(), []
            for n in r.sample(names, r.choice([1, 1, 2, 3])):
                if n.lower() in seen:
                    continue
                seen.add(n.lower())
                one = n.lower() in ("user-agent", "referer", "authorization", "cookie")
                vs.append([B(n), [B(longtext(r, r.choice(["a=1", "b", "x y", token(r), "q; w"]))) for _ in range(1 if one else lots(r, r.choice([1, 1, 2]), .03, 17))]])
            d["vs"] = vs
        elif o == "clrhdr":
            d["v"] = B(r.choice(["cookie", "user-agent", "referer"] + ([] if auth else ["authorization"]) +
                                ["origin", "sec-websocket-protocol", "sec-websocket-extensions", "sec-websocket-key", "sec-websocket-version"]))
        elif o in ("maxf", "maxm"):
            d = limit_op(o, r.choice([0, 10, 130, 300, 1000, 5000, INF - 1, r.choice(HUGE)]))
        return d

    def client(self, u, steps, api=None, cls="", fromurl=None):
        r = self.rng
        return self.add(fam="clihs", url=list(self.url_text(u)), u=u, fromurl=r.random() < .4 if fromurl is None else fromurl,
                        api=api or r.choice(["sync", "async"]), rwp=r.random() < .15, steps=steps, cls=cls)

    NETFN = ["connect", "insecure", "secure", "aconnect", "ainsecure", "asecure"]

    def netclient(self, steps, fn=None, cls="", **kw):
        """a connection opened by the library itself to a scripted peer behind a socket"""
        r = self.rng
        fn = fn or r.choice(self.NETFN)
        u = self.url(scheme=r.choice(["ws", "wss"] if fn in ("connect", "aconnect") else ["ws", "wss", "http"]), host=kw.pop("host", "127.0.0.1"), port=-1, **kw)
        text = self.url_text(dict(u, port=54321)).replace(b":54321", b":PORT", 1)
        for st in steps:
            if st["then"] == "split" and fn != "insecure":
                st["then"] = "recv"
            if st["then"] == "into" and fn[0] == "a":
                st["k"] = st["skip"] = 0
        return self.add(fam="clihs", fn=fn, url=list(text), u=u, fromurl=r.random() < .4, api=fn, steps=steps, cls=cls, chunk=r.choice([1000000, 1000000, 100, 7]))

    def response(self, faults=(), acc="good", **kw):
        """parts of a response head: {"b": bytes} and {"acc": how}"""
        r = self.rng
        status, ver = kw.get("status", 101), "HTTP/1.1"
        reason = kw.get("reason") or r.choice(["Switching Protocols", "X", "Web Socket Protocol Handshake", ""])
        up = [("Upgrade", r.choice(WS))]
        co = listline(r, r.choice(UPG), ["keep-alive", "foo", "upgraded"], "Connection") if r.random() < .5 else [("Connection", r.choice(UPG))]
        ac = [("Sec-WebSocket-Accept", None)]
        for f in faults:
            if f == "noaccept":
                ac = []
            elif f == "twoaccept":
                ac = ac * 2
            elif f == "noupgrade":
                up = []
            elif f == "notws":
                up = [("Upgrade", r.choice(NOTWS + [""]))]
            elif f == "noconnection":
                co = []
            elif f == "notupgrade":
                co = [("Connection", r.choice(NOTUPG + [""]))]
            elif f == "status":
                status = kw.get("code") or r.choice([100, 102, 200, 201, 204, 301, 302, 307, 400, 401, 403, 404, 426, 500, 503, 199, 299, 399, 599, 111])
            elif f == "location":
                pass
        forced = kw.get("lines", {})
        up, co = [[(n, x) for x in forced[n]] if n in forced else old for n, old in (("Upgrade", up), ("Connection", co))]
        lines = up + co + ac
        if "location" in faults:
            lines.append(("Location", kw.get("loc") or r.choice(["ws://other/", "http://x.y/z?q#f", "/rel", "ws://a:1/", "wss://a b"])))
        if r.random() < .3:
            lines.append(("Sec-WebSocket-Protocol", ", ".join(token(r) for _ in range(lots(r, r.randrange(1, 3))))))
        if r.random() < .3:
            lines.append(("Sec-WebSocket-Extensions", ", ".join(ext_text(ext(r), r) for _ in range(lots(r, r.randrange(1, 3), .04, 17)))))
        lines += kw.get("more", [])
        if kw.get("known", True):
            lines += pick(r, RESP_HDR)
        for _ in range(lots(r, r.choice([0, 0, 1, 3]), .03, 33)):
            lines.append(("X-" + token(r, 4).replace("!", "a"), longtext(r, r.choice(["a", "b c", token(r)]))))
        r.shuffle(lines)
        for name, src in (("Connection", co),):
            idx = [i for i, l in enumerate(lines) if l[0] == name]
            for i, l in zip(idx, src):
                lines[i] = l
        parts = [dict(b=B("%s %d %s\r\n" % (ver, status, reason)))]
        for n, v in lines:
            if v is None:
                n = mixcase(r, n) if r.random() < .3 else n
                parts += [dict(b=B(n + ": ")), dict(acc=acc), dict(b=B("\r\n"))]
            else:
                parts.append(dict(b=B(lay(r, [(n, v)])[0] + b"\r\n")))
        parts.append(dict(b=B("\r\n")))
        return parts

    ACC_LEN = dict(good=28, case=28, trunc=26, nopad=27, key=24, other=28, nomagic=28, twice=56, hex=40)

    def resp_len(self, parts):
        def size(p):
            """length of an accept value made of bytes"""
            d = min(20 - p.get("skip", 0), p.get("keep", 20)) + len(p["pre"]) + len(p["post"])
            return (d + 2) // 3 * 4
        return sum(size(p) if p.get("acc") == "bytes" else 28 + len(p["t"]) if p.get("acc") == "insert" else len(p["b"]) if "b" in p else self.ACC_LEN.get(p["acc"], 28) if isinstance(p["acc"], str) else 28 for p in parts)
