"""Checks decided by the Server and Connect specifications (P23, P25)."""
import json, os, re
import vlib
from gen_hs import *

Q = vlib.QUICK


def N(quick, thorough):
    return quick if Q else thorough


# --------------------------------------------------------------------------- P23
def walks(chk, blocking, num, seed):
    """client behaviours of the server model"""
    cfg = "MCServerGenBlocking.cfg" if blocking else "MCServerGen.cfg"
    res = vlib.run_tlc("MCServerGen", cfg, wd=chk.wd, workers=1, extra=["-simulate", "num=%d" % num, "-depth", "20", "-seed", str(seed)])
    out = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'<<"BEH", "(.*)">>', res.out)]
    if res.rc != 0 or len(out) < num // 2:
        raise vlib.ToolError("behaviour generation failed")
    chk.detail.setdefault("walks", []).append({"cfg": cfg, "behaviours": len(out)})
    return out


def server_scenario(g, walk, mode, cls):
    r = g.rng
    secure = "tls" in mode
    fin = {}
    for x in walk:
        if x["o"] in ("good", "bad"):
            fin[x["c"]] = x["o"]
    req, sent, tls = {}, {}, {}
    ops = []
    for x in walk:
        o, c = x["o"], x["c"]
        if o == "conn":
            ops.append(dict(o="conn", c=c))
            f = fin.get(c, "good")
            target = "/c%d" % c
            if f == "good":
                req[c] = g.request(target=target)
            elif r.random() < .35 and not any(y["o"] == "part" and y["c"] == c for y in walk):
                req[c] = g.malformed()
            else:
                req[c] = g.request(g.faults(), target=target)
            sent[c] = 0
        elif o == "part":
            k = r.choice([1, 5, len(req[c]) // 2, len(req[c]) - 1, len(req[c]) - 2, r.randrange(1, len(req[c]))])
            if secure and r.random() < .3:
                ops.append(dict(o="hello", c=c))
                continue
            ops.append(dict(o="part", c=c, raw=list(req[c][:k])))
            sent[c] = k
            tls[c] = True
        elif o in ("good", "bad"):
            if o == "bad" and secure and sent[c] == 0 and not any(p.get("c") == c and p["o"] == "hello" for p in ops) and r.random() < .5:
                ops.append(dict(o="garbage", c=c, raw=list(r.choice([req[c], b"\x00" * 64, b"GET / HTTP/1.1\r\n\r\n", b"\x16\x09\x09\x00\x05hello" + b"x" * 30]))))
                continue
            ops.append(dict(o=o, c=c, raw=list(req[c][sent[c]:])))
        elif o in ("fin", "reset"):
            ops.append(dict(o=o if o == "reset" else r.choice(["fin", "fin", "close"] + (["notify"] if secure else [])), c=c))
        else:
            ops.append(dict(o="settle", linger=r.random() < .2))
    ops += [dict(o="settle"), dict(o="closeall"), dict(o="settle", linger=True)]
    return g.add(fam="server", mode=mode, blocking=mode.startswith("sync"), ops=ops, cls=cls)


def crowd(g, mode, n, cls):
    """many stalled clients, then some that behave"""
    r = g.rng
    good, bad = g.request(), g.request(["nokey"])
    ops = [dict(o="conn", n=n)]
    for i in range(1, n + 1, max(1, n // 40)):
        ops.append(dict(o="part", c=i, raw=list(good[:r.randrange(1, len(good) - 1)])))
    for k in range(1, 7):
        c = n + k
        ops += [dict(o="conn", c=c)] + [dict(o="good", c=c, raw=list(g.request(target="/c%d" % c))) if k % 3 else dict(o="bad", c=c, raw=list(bad)), dict(o="settle")]
    ops += [dict(o="closeall"), dict(o="settle", linger=True)]
    return g.add(fam="server", mode=mode, blocking=False, ops=ops, cls=cls)


def run_servers(chk, scens):
    evs = vlib.run_harness(scens, chk.wd, timeout=60, shards=min(8, max(1, len(scens) // 4)), tag="sv")
    traces = [dict(id=s["id"], mode=s["mode"], blocking=s["blocking"], ev=evs[s["id"]]) for s in scens if s["id"] in evs]
    byid = {s["id"]: s for s in scens}
    acc, rej, t = vlib.validate("TraceServer", traces, chk.wd)
    cls = {}
    for s in scens:
        k = "%s/%s" % (s["cls"], s["mode"])
        cls[k] = cls.get(k, 0) + 1
    chk.add_traces("TraceServer", traces, rej, t, cls)
    for x in traces[:: max(1, len(traces) // 3)][:3]:
        chk.sample(dict(mode=x["mode"], ev=[dict(e, raw=len(e["raw"])) if "raw" in e else e for e in x["ev"]][:12]))
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind="server", scenario=byid[i], events=evs[i][max(0, l - 8):l + 2], event=l, why=why))


ASYNC_MODES = [("async", 50, 1200), ("into-async", 12, 200), ("async-tls", 40, 500)]
SYNC_MODES = [("sync", 30, 600), ("sync-iter", 20, 300), ("sync-nb", 20, 300), ("sync-clone", 10, 200), ("sync-tls", 25, 300), ("sync-tls-iter", 12, 200)]


def p23(chk):
    chk.model("MCServer", "MCServer.cfg")
    chk.model("MCServer", "MCServerBlocking.cfg")
    if not Q:
        chk.model("MCServer", "MCServer4.cfg", timeout=800)
    g = HsGen(chk.rng)
    for blocking, modes in ((False, ASYNC_MODES), (True, SYNC_MODES)):
        n = sum(N(a, b) for _, a, b in modes)
        ws = walks(chk, blocking, n + n // 4, chk.rng.randrange(1, 10**6))
        k = 0
        for m, a, b in modes:
            for _ in range(N(a, b)):
                server_scenario(g, ws[k % len(ws)], m, "walk")
                k += 1
    crowd(g, "async", N(1200, 1800), "crowd")
    crowd(g, "async", 40, "crowd")
    crowd(g, "async-tls", N(60, 200), "crowd")
    # every request stalls at each of its bytes, with one that behaves behind it
    for mode in ("async", "async-tls"):
        for k in range(1, 200, N(40, 3)):
            stall, ok = g.request(), g.request(target="/c2")
            g.add(fam="server", mode=mode, blocking=False, cls="stall-at",
                  ops=[dict(o="conn"), dict(o="part", c=1, raw=list(stall[:min(k, len(stall) - 1)])), dict(o="conn"), dict(o="good", c=2, raw=list(ok)), dict(o="settle"),
                       dict(o="closeall"), dict(o="settle", linger=True)])
    # clients that come very late with the rest of their request, before and behind one that is quick
    for m, _, _ in ASYNC_MODES + SYNC_MODES:
        q = [g.request(target="/c%d" % c) for c in (1, 2, 3)]
        k = g.rng.randrange(1, len(q[0]) - 1)
        if m.startswith("sync"):
            ops = [dict(o="conn"), dict(o="part", c=1, raw=list(q[0][:k])), dict(o="sleep", ms=11000), dict(o="good", c=1, raw=list(q[0][k:])), dict(o="settle"),
                   dict(o="conn"), dict(o="good", c=2, raw=list(q[1])), dict(o="settle")]
        else:
            ops = [dict(o="conn"), dict(o="part", c=1, raw=list(q[0][:k])), dict(o="conn"), dict(o="good", c=2, raw=list(q[1])), dict(o="settle"), dict(o="sleep", ms=11000),
                   dict(o="good", c=1, raw=list(q[0][k:])), dict(o="settle"), dict(o="conn"), dict(o="good", c=3, raw=list(q[2])), dict(o="settle")]
        g.add(fam="server", mode=m, blocking=m.startswith("sync"), slow=True, cls="late", ops=ops + [dict(o="closeall"), dict(o="settle", linger=True)])
    run_servers(chk, g.out)


# --------------------------------------------------------------------------- P25
APIS = ["connect", "secure", "insecure", "aconnect", "asecure", "ainsecure"]
CERTS = ["good", "wrong", "untrusted", "expired"]
CONS = ["none", "root", "anyhost", "any"]
SHARDS = 8


class CGen(HsGen):
    def attempt(self, scheme, api, con, peer, port="default", hostform="ip", cls="", **kw):
        r = self.rng
        k = (len(self.out) % SHARDS) + 1
        ip = "127.77.0.%d" % k
        host, addrs, listen = ip, [ip], [80, 443]
        if hostform == "short":
            host = "127.77.%d" % k
        elif hostform == "hex":
            host = "0x7f4d%04x" % k
        elif hostform == "dec":
            host = str((127 << 24) + (77 << 16) + k)
        elif hostform in ("localhost", "LocalHost"):
            host, addrs, listen = hostform, ["127.0.0.1", "::1"], []
            port = "free"
        elif hostform == "v6":
            host, addrs, listen = "[::1]", ["::1"], []
            port = "free"
        if port == "free" or peer == "absent":
            listen = listen + [0]
            port = "free"
        u = self.url(scheme=scheme, host=host, port={"default": -1, "free": -2}.get(port, port), **kw)
        t = self.url_text(dict(u, port=-1, path=B(""), hasq=False, hasf=False))
        rest = self.url_text(dict(u, scheme=B("x"), user=B(""), haspass=False, host=B(""), port=-1))[4:]
        if r.random() < .2 and scheme in ("ws", "wss", "http", "https"):
            s = t.split(b":", 1)
            t = r.choice([s[0].upper(), s[0].capitalize()]) + b":" + s[1]
        text = t + {"default": b"", "free": b":PORT"}.get(port, b":%s" % str(port).encode()) + rest
        # the other listeners answer like the one that is meant
        return self.add(fam="connect", url=text.decode(), u=u, api=api, con=con, peer=peer, hosted=True, addrs=addrs, listen=listen, port=port, vacate=peer == "absent",
                        times=2 if api in APIS[:3] and r.random() < .15 else 1, cls=cls)


def run_connect(chk, scens, shards=SHARDS, tag=""):
    # "system": no connector, in a process whose system roots hold the root of the certificates
    env = dict(SSL_CERT_FILE=os.path.join(vlib.VERIF, "harness", "certs", "root.pem"), SSL_CERT_DIR=chk.wd) if any(s["con"] == "system" for s in scens) else {}
    evs = vlib.run_harness(scens, chk.wd, timeout=60, shards=shards, tag="cn" + tag, env=env)
    byid = {s["id"]: s for s in scens}
    traces, unbound = [], 0
    for s in scens:
        ev = evs.get(s["id"])
        if ev is None:
            continue
        if any(e["k"] == "nobind" for e in ev):
            unbound += 1
            continue
        free = next((e["p"] for e in ev if e["k"] == "port"), 0)
        traces.append(dict(id=s["id"], api=s["api"], con=s["con"], peer=s["peer"], hosted=s["hosted"], u=s["u"], addrs=s["addrs"], times=s["times"],
                           port={"default": -1, "free": free}.get(s["port"], s["port"]), ev=[e for e in ev if e["k"] != "port"]))
    if unbound:
        chk.assumptions.append("%d scenarios could not bind their ports here and were left out" % unbound)
        vlib.log("%d scenarios could not bind" % unbound)
    acc, rej, t = vlib.validate("TraceConnect", traces, chk.wd, tag=tag)
    if len(traces) * 2 < len(scens) and not rej:
        raise vlib.ToolError("too few connection scenarios could run")
    cls = {}
    for s in scens:
        k = "%s/%s" % (s["cls"], s["api"])
        cls[k] = cls.get(k, 0) + 1
    chk.add_traces("TraceConnect", traces, rej, t, cls)
    for x in traces[:: max(1, len(traces) // 3)][:3]:
        chk.sample(dict(url=byid[x["id"]]["url"], api=x["api"], con=x["con"], peer=x["peer"], ev=x["ev"]))
    for i, (l, why) in sorted(rej.items()):
        chk.violation(why, dict(kind="connect", scenario=byid[i], events=evs[i], event=l, why=why))


SCHEMES = ["ws", "wss", "http", "https"]
FORMS = ["ip", "ip", "short", "hex", "dec", "localhost", "LocalHost", "v6"]


def p25(chk):
    chk.model("MCConnect", "MCConnect.cfg")
    g = CGen(chk.rng)
    r = g.rng

    def fit(api, scheme):
        """a peer that fits how the connection is to be made"""
        tls = api in ("secure", "asecure") or (api in ("connect", "aconnect") and scheme in ("wss", "https"))
        return "good" if tls else "plain"
    for api in APIS:
        for scheme in SCHEMES:
            # everything as it should be, all ports
            for port in ("default", 80, 443, "free"):
                g.attempt(scheme, api, "root", fit(api, scheme), port, cls="right")
            # every certificate and connector
            if fit(api, scheme) == "good":
                for cert in CERTS:
                    for con in CONS:
                        g.attempt(scheme, api, con, cert, r.choice(["default", "free", 443, 80]), cls="trust")
            # the other kind of peer, one that hangs up, nobody
            for peer in ("plain" if fit(api, scheme) == "good" else "good", "closes", "absent"):
                g.attempt(scheme, api, r.choice(["root", "any"]), peer, r.choice(["default", "free"]), cls="peer")
            for form in FORMS[2:]:
                g.attempt(scheme, api, "root", fit(api, scheme), r.choice(["default", "free", 443]), form, cls="host")
                if fit(api, scheme) == "good":
                    for cert in CERTS[1:]:
                        g.attempt(scheme, api, r.choice(CONS), cert, r.choice(["default", "free", 443]), form, cls="host-trust")
        # a scheme without a port of its own
        for port in ("default", 80, 443, "free"):
            g.attempt("foo", api, "root", "good" if api in ("secure", "asecure") else "plain", port, cls="scheme", path="/", user="")
    for _ in range(N(60, 2500)):
        api, scheme = r.choice(APIS), r.choice(SCHEMES)
        peer = fit(api, scheme) if r.random() < .6 else r.choice(CERTS + ["plain", "closes", "absent"])
        g.attempt(scheme, api, r.choice(CONS + ["root"] * 3), peer, r.choice(["default", "default", "free", 80, 443]), r.choice(FORMS), cls="any")
    run_connect(chk, g.out)
    # no connector given, and the system trusts the root of the certificates
    y = CGen(chk.rng)
    for api in APIS:
        for scheme in SCHEMES:
            if fit(api, scheme) == "good":
                for cert in CERTS:
                    for form in dict.fromkeys(FORMS):
                        y.attempt(scheme, api, "system", cert, r.choice(["default", "free", 443]), form, cls="system-trust")
    run_connect(chk, y.out, tag="s")
    # no host: nothing may be connected to
    h = CGen(chk.rng)
    for url in ("unix:/run/x.sock", "unix:/", "foo:bar", "data:text/plain,x", "mailto:a@b.c", "wss.x:y", "foo:///bar", "foo:/a/b?c#d"):
        for api in APIS:
            h.add(fam="connect", url=url, u=h.url(port=-1), api=api, con="any", peer=r.choice(["plain", "good"]), hosted=False, addrs=["127.0.0.1"], listen=[80, 443],
                  port="default", vacate=False, times=1, cls="hostless")
    run_connect(chk, h.out, shards=1, tag="h")
