"""Checks decided by the Receiver specification (P02, P04, P06-P14)."""
import json, re
import vlib, recvcheck
from gen_recv import *

Q = vlib.QUICK


def N(quick, thorough):
    return quick if Q else thorough


def behaviours(chk, role, depth=None, module="MCReceiver"):
    """Every behaviour of the model up to the bound, as enumerated by TLC. Only maximal ones are kept."""
    cfg = "MCReceiverGen.cfg" if role == "server" else "MCReceiverGenClient.cfg"
    r = vlib.run_tlc(module, cfg, wd=chk.wd, timeout=900)
    if not r.ok:
        raise vlib.ToolError("behaviour generation failed")
    chk.add_model(r, cfg)
    out = {}
    for m in re.finditer(r'<<"BEH", "(.*)">>', r.out):
        b = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        out[tuple(b["names"])] = b
    pre = set(k[:-1] for k in out)
    return [b for k, b in sorted(out.items()) if k not in pre]


def models(chk, which=("server", "client")):
    if "server" in which:
        chk.model("MCReceiver", "MCReceiver.cfg")
    if "client" in which:
        chk.model("MCReceiver", "MCReceiverClient.cfg")


def small_model(chk):
    chk.model("MCReceiver", "MCReceiverGen.cfg")


def copy_items(items):
    return [dict(h=list(i["h"]), p=[list(x) for x in i["p"]], rep=i.get("rep", 1)) for i in items]


def beh_scens(chk, g, n, keep=None, apis=MSG_APIS, raw=.3):
    """a sample of the model's behaviours (filtered by keep on the symbol names), put on the wire"""
    pool = []
    for role in ("server", "client"):
        for b in behaviours(chk, role):
            if keep is None or keep(b["names"]):
                pool.append((role, b))
    g.rng.shuffle(pool)
    for role, b in pool[:n]:
        it = copy_items(b["items"])
        api = g.rng.choice(apis)
        kw = {}
        if g.rng.random() < .15:
            kw["lim"] = g.rng.choice([(10, 5), (10, 200), (2, 1000)])
        if g.rng.random() < raw:
            g.add(api, role == "server", raw=to_raw(it), cls="model", **kw)
        else:
            g.add(api, role == "server", it, cls="model", **kw)
    chk.detail["model_behaviours"] = {"available": len(pool), "run_on_code": min(n, len(pool))}


def mutate(r, raw):
    raw = bytearray(raw)
    for _ in range(r.choice([1, 1, 2, 3])):
        if not raw:
            break
        i = r.randrange(len(raw)) if r.random() < .5 else min(len(raw) - 1, r.randrange(12))
        x = r.random()
        if x < .4:
            raw[i] ^= 1 << r.randrange(8)
        elif x < .6:
            raw[i] = r.choice([0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x88, 0x89, 0xfe, 0xff, 126, 127])
        elif x < .75:
            del raw[i]
        elif x < .9:
            raw.insert(i, r.randrange(256))
        else:
            del raw[i:]
    return bytes(raw)


def same_outcomes(chk, groups, evs):
    """Streams delivered through several schedules: all must agree (TraceSame)."""
    traces = []
    for gid, ids in enumerate(groups):
        runs = []
        for api, i in ids:
            msgs, end = [], ""
            for e in evs.get(i, []):
                if e["k"] == "msg":
                    msgs.append(dict(t=e["t"], code=e["code"], p=e["p"]))
                elif e["k"] in ("none", "wb"):
                    pass
                else:
                    end = e["k"] + ":" + e.get("e", "")
                    break
            runs.append(dict(api=api, msgs=msgs, end=end))
        traces.append(dict(id=gid + 1, runs=runs))
    acc, rej, r = vlib.validate("TraceSame", traces, chk.wd)
    chk.add_traces("TraceSame", traces, rej, r)
    for gid, (l, why) in rej.items():
        chk.violation(why, dict(group=traces[gid - 1], scenarios=groups[gid - 1]))


def p02(chk):
    models(chk)
    g = Gen(chk.rng)
    r = g.rng
    groups = []
    # one stream, many schedules and APIs
    for n in range(N(60, 400)):
        server = r.random() < .6
        it = g.traffic(server, k=r.choice([1, 2, 3]), n=r.choice([0, 1, 5, 30, 125, 126, 127, 200]))
        raw = to_raw(it)[:380]
        if r.random() < .4:
            raw = mutate(r, raw)
        ids = []
        for api in r.sample(MSG_APIS, N(4, 7)):
            for mode in ("all", "ones", "rand")[: 2 if r.random() < .6 else 3]:
                s = g.add(api, server, raw=raw, feed=feed_cuts(r, len(raw), mode), cls="same-stream")
                ids.append((api, s["id"]))
        groups.append(ids)
    # every single cut of short streams
    for n in range(N(6, 60)):
        server = r.random() < .6
        it = g.traffic(server, k=2, n=r.choice([0, 3, 7]), ctl=.2)
        raw = to_raw(it)[:48]
        ids = []
        api = r.choice(["receiver", "codec", "framed", "client", "dfcodec", "rawdfl", "dfframed"])
        for c in range(len(raw) + 1):
            s = g.add(api, server, raw=raw, feed=[x for x in (c, len(raw) - c) if x], cls="every-cut")
            ids.append((api, s["id"]))
        if api in MSG_APIS:
            groups.append(ids)
    # delivered as soon as complete: would-block after each frame
    for n in range(N(200, 2500)):
        server = r.random() < .6
        it = g.traffic(server, big=r.random() < .05)
        b = boundaries(it)
        feed = []
        for x, y in zip(b, b[1:]):
            feed += [y - x, "wb"]
        g.add(r.choice(MSG_APIS), server, it, feed=feed, cls="prompt", pre=0)
    # sizes around each length encoding
    for n in BIG_SIZES + [0, 125, 126, 127]:
        for server in (True, False):
            it = [item(True, r.choice([1, 2]), ascii_blob(r, n), server, r), g.control(server)]
            g.add(r.choice(MSG_APIS), server, it, feed=feed_cuts(r, item_len(it[0]) + item_len(it[1]), r.choice(["rand", "few"])), cls="sizes")
            hl = len(it[0]["h"])
            for c in range(1, hl + 2):
                g.add(r.choice(["framed", "codec", "receiver", "dfframed", "dfcodec", "client"]), server, copy_items(it), feed=[c, 100000], cls="header-cut")
    for api in MSG_APIS + DF_APIS:
        for n in huge_sizes(r, N(2, 6)):
            server = r.random() < .5
            it = [item(True, 2, run_blob(r, n), server, r), g.control(server)]
            if r.random() < .5:
                it.insert(0, item(True, 1, r.choice([[], [[97, 3]]]), server, r))
            g.add(api, server, it, feed=[1 << 26] if r.random() < .6 else [r.randrange(1, n), 1 << 26], cls="huge", **(dict(ops=["d"]) if api not in MSG_APIS else {}))
    # frame level
    for api in DF_APIS:
        for n in BIG_SIZES + [8193, 70001, 131073] if not Q or api in ("rawdf", "receiver") else r.sample(BIG_SIZES, 3) + [r.choice([70001, 131073, 66000])]:
            server = r.random() < .6
            it = [item(r.random() < .5, r.randrange(8), run_blob(r, n), server, r)] + g.traffic(server, k=2, n=r.choice([0, 1, 30, 200]))
            g.add(api, server, it, feed=[1 << 24] if r.random() < .6 else None, ops=["d"], cls="frames-big")
    for n in range(N(120, 1500)):
        server = r.random() < .6
        g.add(r.choice(DF_APIS), server, g.traffic(server), ops=["d"], cls="frames")
        g.add(r.choice(["receiver", "client", "reader"]), server, g.traffic(server, frags=1), ops=r.choice([["m", "d"], ["d", "m", "m"]]), cls="mixed")
    beh_scens(chk, g, N(250, 6000))
    res = recvcheck.run(chk, g.out)
    same_outcomes(chk, groups, res["evs"])


def p04(chk):
    small_model(chk)
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(900, 9000)):
        server = r.random() < .5
        pre = g.traffic(server, k=r.randrange(0, 3)) if r.random() < .6 else []
        if r.random() < .3:
            pre += g.open_prefix(server)
            op = r.choice([0, 0, 8, 9, 10])
        else:
            op = r.choice([1, 2, 1, 2, 8, 9, 10])
        size = r.choice([0, 0, 1, 2, 5, 125]) if op >= 8 else r.choice(SIZES + ([65535, 65536] if r.random() < .05 else []))
        if op == 8:
            size = r.choice([0, 2])
        p = blob(b"\x03\xe8") if op == 8 and size else (ascii_blob(r, size) if op in (0, 1) else run_blob(r, size))
        fin = True if op >= 8 else r.random() < .7
        bad = item(fin, op, p, not server, r, key=r.choice([None, [0, 0, 0, 0]]) if not server else None)
        api = r.choice(MSG_APIS + DF_APIS)
        ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
        g.add(api, server, pre + [bad] + g.traffic(server, k=1), ops=ops, cls="wrong")
    for n in range(N(200, 2500)):
        server = r.random() < .5
        op = r.choice([0, 1, 2, 1, 2, 9, 10])
        its = [item(False, r.choice([1, 2]), run_of(r, r.choice([0, 3, 9])), server, r)] if op == 0 or op > 8 and r.random() < .4 else []
        if op == 0 and r.random() < .4:
            its.append(item(False, 0, run_of(r, 3), server, r))
        its.append(item(True if op > 8 else r.random() < .6, op, [[0x5A, r.choice([1, 4, 50, 125])]], not server, r))
        for _ in range(r.choice([1, 2, 3])):
            its.append(item(True, 0, run_of(r, r.choice([0, 2, 5])), server, r) if r.random() < .6 else item(True, r.choice([1, 2, 9]), run_of(r, 4), server, r))
        api = r.choice(MSG_APIS + DF_APIS)
        ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
        g.add(api, server, its, ops=ops, cls="wrong-on", on=6, mark=0x5A)
    zero = [0, 0, 0, 0]
    for n in range(N(300, 3000)):
        api = r.choice(MSG_APIS + DF_APIS)
        ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
        op = r.choice([1, 2, 9, 10])
        size = r.choice([0, 1, 4, 5, 100, 125]) if op > 8 else r.choice(SIZES)
        its = [item(True, op, ascii_blob(r, size), True, r, key=r.choice([zero, [0, 0, 0, 1], [255] * 4, [1, 0, 0, 0], None])) for _ in range(3)]
        g.add(api, True, its, ops=ops, cls="right-keys")
    # the mask bit with a header cut short, and a masked frame at every size boundary
    for n in BIG_SIZES:
        for server in (True, False):
            g.add(r.choice(MSG_APIS), server, [item(True, 2, run_blob(r, n), not server, r)], cls="wrong-big")
    beh_scens(chk, g, N(250, 4000), keep=lambda ns: any("mask" in x for x in ns))
    recvcheck.run(chk, g.out)


def p06(chk):
    small_model(chk)
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(700, 8000)):
        server = r.random() < .5
        pre = g.traffic(server, k=r.randrange(0, 3)) if r.random() < .5 else []
        x = r.random()
        if x < .4:
            form, size = r.choice([(16, 0), (16, 1), (16, 125), (64, 0), (64, 125), (64, 126), (64, 65535), (16, r.randrange(126)), (64, r.randrange(65536))])
            op = r.choice([1, 2, 2, 9]) if size <= 125 else 2
            bad = item(True, op, ascii_blob(r, size), server, r, form=form)
        elif x < .7:
            size = r.choice([126, 127, 200, 255, 256, 65535, 65536, 70000])
            bad = item(r.random() < .8, r.choice([8, 9, 10, 11, 15]), ascii_blob(r, size), server, r)
        else:
            bad = item(False, r.choice([8, 9, 10, 11, 12, 13, 14, 15]), ascii_blob(r, r.choice([0, 2, 50, 125])), server, r)
        if r.random() < .2:
            bad = dict(bad, p=[])
        api = r.choice(MSG_APIS + DF_APIS)
        ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .6) else ["m"]
        items = pre + [bad] + ([] if bad["p"] == [] else g.traffic(server, k=1))
        g.add(api, server, items if bad["p"] != [] else None, raw=None if bad["p"] != [] else to_raw(items), ops=ops, cls="malformed")
    for n in range(N(700, 8000)):
        server = r.random() < .5
        items = []
        for _ in range(r.randrange(1, 6)):
            op = r.randrange(16)
            fin = True if op >= 8 else r.random() < .6
            size = r.choice(CTL_SIZES + [r.randrange(126)]) if op >= 8 else r.choice(SIZES + [r.randrange(400)])
            items.append(item(fin, op, g.payload(2, size), server, r, rsv=r.choice([0, 0, 1, 2, 4, 3, 7])))
        g.add(r.choice(DF_APIS), server, items, ops=["d"], cls="verbatim")
    for op in range(16):
        for rsv in range(8):
            for fin in (True, False):
                server = r.random() < .5
                g.add(r.choice(DF_APIS), server, [item(fin, op, g.payload(2, r.choice([0, 3, 60])), server, r, rsv=rsv)], ops=["d"], cls="all-headers")
    for n in BIG_SIZES + [124, 125, 126, 127]:
        for api in DF_APIS:
            server = r.random() < .5
            g.add(api, server, [item(r.random() < .5, r.choice([0, 1, 2, 5]), run_blob(r, n), server, r), g.control(server)], ops=["d"], cls="sizes")
    recvcheck.run(chk, g.out)


def crowd(g, r, k, cls, api=None):
    """a message of very many fragments: k of them, then the last"""
    api = api or r.choice(MSG_APIS)
    server = r.random() < .5
    op = r.choice([1, 2])
    room = max(1, min(20, 3000000 // k))

    def some():
        n = r.choice([0, 0, 1, 2, room])
        return [[r.randrange(32, 127), n]] if n else []
    its, left = [item(False, op, some(), server, r)], k - 1
    while left:
        n = left if r.random() < .6 else r.randrange(1, left + 1)
        its.append(item(False, 0, some() if k < 200000 or n < 5000 else [], server, r, rep=n))
        left -= n
        if r.random() < .3:
            its.append(item(True, 9, [[7, 3]], server, r))
    its += [item(True, 0, some(), server, r), item(True, 2, [[9, 4]], server, r)]
    g.add(api, server, its, feed=[sum(item_len(i) for i in its)] if r.random() < .7 else [r.choice([300000, 1000000]) for _ in range(40)], cls=cls, pre=0)


def p07(chk):
    models(chk, ("server",))
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(900, 9000)):
        server = r.random() < .5
        items = []
        for _ in range(r.choice([1, 2, 3])):
            items += g.message(server, frags=r.choice([1, 2, 2, 3, 4, 5, 8, 12]), ctl=r.choice([0, .3, .5]), n=r.choice([None, 0, 1, 2, 5, 40, 126]))
        api = r.choice(MSG_APIS)
        feed = None
        if r.random() < .3 and api not in ("clientpre", "framedpre"):
            b = boundaries(items)
            feed = []
            for x, y in zip(b, b[1:]):
                feed.append(y - x)
                if r.random() < .4:
                    feed.append("wb")
        g.add(api, server, items, feed=feed, cls="fragments", **({"pre": 0} if feed else {}))
    for n in range(N(12, 60)):
        server = r.random() < .5
        k = r.choice([50, 100, 200, 300])
        g.add(r.choice(MSG_APIS), server, g.message(server, frags=k, n=r.choice([0, 10, 500, 3000]), ctl=.05), cls="many")
    for n in range(N(30, 200)):
        server = r.random() < .5
        g.add(r.choice(MSG_APIS), server, g.message(server, frags=r.choice([2, 3, 4]), big=True, ctl=.5), cls="big")
    for api in MSG_APIS:
        for n in huge_sizes(r, N(1, 5)):
            server = r.random() < .5
            op = r.choice([1, 2])
            p = ascii_blob(r, n) if op == 1 else run_blob(r, n)
            x, p = bsplit(p, r.choice([0, 1, n // 2, n - 1, r.randrange(n)]))
            y, p = bsplit(p, r.randrange(sum(c for _, c in p) + 1))
            its = [item(False, op, x, server, r), item(False, 0, y, server, r), g.control(server), item(True, 0, p, server, r)]
            g.add(api, server, its, feed=[1 << 26] if r.random() < .5 else [r.randrange(1, n), r.choice([1, 100000]), 1 << 26], cls="huge")
    chk.model("MCRun", "MCRun.cfg" if Q else "MCRun7.cfg")
    for n in range(N(40, 200)):
        crowd(g, r, r.choice([300, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 20000, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 262144]), "crowd")
    for k in (1048573, 1048574, 1048575, 1048576):        # the number of fragments the library sets itself
        for api in r.sample(MSG_APIS, 2 if Q else 6):
            crowd(g, r, k, "crowd-limit", api)
    beh_scens(chk, g, N(350, 5000), keep=lambda ns: any("cont" in x for x in ns))
    recvcheck.run(chk, g.out)


def run_of(r, n):
    return [[r.randrange(97, 123), n]] if n else []


def p08(chk):
    models(chk, ("server",))
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(1100, 12000)):
        server = r.random() < .5
        pre = g.traffic(server, k=r.randrange(0, 3)) if r.random() < .5 else []
        kind = r.choice(["cont", "data", "reserved-data", "reserved-ctl", "rsv", "rsv-frag", "reserved-frag"])
        rsv = r.choice([1, 2, 4, 3, 5, 6, 7])
        size = r.choice([0, 1, 3, 50, 126])
        fin = r.random() < .6
        bad = []
        if kind == "cont":
            bad = [item(fin, 0, ascii_blob(r, size), server, r)]
        elif kind == "data":
            bad = g.open_prefix(server) + [item(fin, r.choice([1, 2, 1, 2, 3, 7]), ascii_blob(r, size), server, r)]
        elif kind == "reserved-data":
            bad = [item(True, r.choice([3, 4, 5, 6, 7]), ascii_blob(r, size), server, r)]
        elif kind == "reserved-ctl":
            bad = (g.open_prefix(server) if r.random() < .4 else []) + [item(True, r.choice([11, 12, 13, 14, 15]), ascii_blob(r, min(size, 125)), server, r)]
        elif kind == "rsv":
            op = r.choice([1, 2, 9, 10, 8])
            bad = [item(True, op, [] if op == 8 else ascii_blob(r, min(size, 125)), server, r, rsv=rsv)]
        elif kind == "rsv-frag":
            m = g.message(server, frags=r.choice([2, 3, 4]) if r.random() < .85 else r.choice([18, 34, 45, 66, 140]), ctl=.3 if r.random() < .9 else .02)
            i = r.randrange(len(m))
            m[i]["h"][0] |= rsv << 4
            bad = m
        else:
            m = g.message(server, op=r.choice([1, 2]), frags=r.choice([2, 3]), ctl=.2)
            m[0]["h"][0] = (m[0]["h"][0] & 0xf0) | r.choice([3, 4, 5, 6, 7])
            bad = m
        api = r.choice(MSG_APIS)
        g.add(api, server, pre + bad + g.traffic(server, k=r.choice([1, 2])), cls=kind)
    # a caller that goes on after the refusal is not given the frame later
    for n in range(N(300, 4000)):
        server = r.random() < .5
        kind = r.choice(["cont", "data", "data", "data", "reserved-data", "reserved-ctl", "rsv", "rsv-frag"])
        size = r.choice([1, 2, 3, 50, 126])
        Z = lambda n: [[0x5A, n]]
        fin = r.random() < .6
        rest = []
        if kind == "cont":
            bad = [item(fin, 0, Z(size), server, r)]
        elif kind == "data":
            pre = [item(i == -1, 2 if i == 0 else 0, run_of(r, r.choice([0, 1, 9])), server, r) for i in range(r.choice([1, 1, 2, 3]))]
            bad = pre + [item(fin, r.choice([1, 2, 1, 2, 3, 7]), Z(size), server, r)]
        elif kind == "reserved-data":
            bad = [item(fin, r.choice([3, 4, 5, 6, 7]), Z(size), server, r)]
        elif kind == "reserved-ctl":
            bad = [item(True, r.choice([11, 12, 13, 14, 15]), Z(min(size, 125)), server, r)]
        elif kind == "rsv":
            bad = [item(True, r.choice([1, 2, 9, 10]), Z(min(size, 125)), server, r, rsv=r.choice([1, 2, 4, 7]))]
        else:
            k = r.choice([2, 3, 4])
            j = r.randrange(k)
            bad = [item(i == k - 1, r.choice([1, 2]) if i == 0 else 0, Z(size) if i == j else run_of(r, 3), server, r, rsv=r.choice([1, 2, 4]) if i == j else 0) for i in range(k)]
        for _ in range(r.choice([1, 2, 3])):
            rest.append(item(r.random() < .7, 0, run_of(r, r.choice([0, 2, 5])), server, r) if r.random() < .6 else item(True, r.choice([1, 2, 9]), run_of(r, 4), server, r))
        g.add(r.choice(MSG_APIS), server, bad + rest, cls="on-" + kind, on=6, mark=0x5A)
    for n in range(N(200, 2000)):
        server = r.random() < .5
        g.add(r.choice(MSG_APIS), server, g.traffic(server, ctl=.5), cls="legal")
    beh_scens(chk, g, N(350, 8000))
    recvcheck.run(chk, g.out)


def p09(chk):
    small_model(chk)
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(1200, 14000)):
        server = r.random() < .5
        t = utf8_text(r, r.choice([0, 1, 2, 4, 10, 40, 130]))
        good = r.random() < .45
        if not good:
            x = r.random()
            bad = r.choice(BAD_UTF8)
            k = r.randrange(len(t) + 1)
            if x < .3:
                t = t + bad
            elif x < .6:
                while k < len(t) and t[k] & 0xc0 == 0x80:
                    k += 1
                t = t[:k] + bad + t[k:]
            elif x < .8:
                t = t[:k] + bad + t[k:]
            else:
                t = t[:max(0, len(t) - 1)] + r.choice([b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xf0"])
        kind = r.choice(["text", "text", "text", "text", "binary", "close", "pingpong"])
        p = blob(t)
        if kind == "text" or kind == "binary":
            op = 1 if kind == "text" else 2
            parts, rest, last = [], p, 0
            for c in sorted(r.randrange(len(t) + 1) for _ in range(r.choice([0, 0, 1, 1, 2, 4, min(len(t), 9)]))):
                a, rest = bsplit(rest, c - last)
                parts.append(a)
                last = c
            parts.append(rest)
            its = []
            for i, q in enumerate(parts):
                its.append(item(i == len(parts) - 1, op if i == 0 else 0, q, server, r))
                if i < len(parts) - 1 and r.random() < .25:
                    its.append(g.control(server))
        elif kind == "close":
            t = t[:123]
            its = [item(True, 8, blob(b"\x03\xe8" + t), server, r)]
        else:
            its = [item(True, r.choice([9, 10]), blob(t[:125]), server, r)]
        if r.random() < .3:
            its = g.traffic(server, k=1) + its
        g.add(r.choice(MSG_APIS), server, its + ([g.control(server)] if r.random() < .5 else []), cls=kind)
    # a caller that goes on after the refusal is not given the text later
    for n in range(N(60, 800)):
        server = r.random() < .5
        bad = [[0x5A, r.choice([1, 3, 40])]] + blob(r.choice(BAD_UTF8))
        k = r.choice([1, 1, 2, 3])
        j = r.randrange(k)
        its = [item(i == k - 1, 1 if i == 0 else 0, bad if i == j else [[0x5A, 3]], server, r) for i in range(k)]
        for _ in range(r.choice([1, 2, 3])):
            its.append(item(True, r.choice([0, 1, 1, 2, 9]), run_of(r, r.choice([0, 2, 5])), server, r))
        g.add(r.choice(MSG_APIS), server, its, cls="on", on=6, mark=0x5A)
    # every split of one text holding all sequence lengths
    t = "aé€😀z߿ࠀ￿\U00010000\U0010ffff".encode()
    for c in range(len(t) + 1):
        for api in (r.choice(SYNC_MSG), r.choice(ASYNC_MSG)):
            server = r.random() < .5
            a, b = bsplit(blob(t), c)
            g.add(api, server, [item(False, 1, a, server, r), item(True, 0, b, server, r)], cls="every-split")
    for bad in BAD_UTF8:
        for api in (r.choice(SYNC_MSG), r.choice(ASYNC_MSG)):
            server = r.random() < .5
            g.add(api, server, [item(True, 1, blob(b"ok" + bad), server, r)], cls="bad-catalogue")
            g.add(api, server, [item(True, 8, blob(b"\x03\xe8" + bad), server, r)], cls="bad-catalogue-close")
            g.add(api, server, [item(True, 2, blob(bad), server, r), item(True, 9, blob(bad), server, r)], cls="bad-catalogue-binary")
    # every two-byte payload class, lead x continuation boundaries
    edge = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff]
    combos = [(a, b, c, d) for a in edge for b in edge for c in (0x80, 0xbf, 0x41, None) for d in (0x80, 0xbf, None)]
    r.shuffle(combos)
    for a, b, c, d in combos[: N(350, len(combos))]:
        server = r.random() < .5
        t = bytes(x for x in (a, b, c, d) if x is not None)
        g.add(r.choice(MSG_APIS), server, [item(True, 1, blob(t), server, r)], cls="edges")
    for n in range(N(24, 100)):
        server = r.random() < .5
        k = r.choice([4096, 65535, 65536, 70000, r.choice(huge_sizes(r, 1))])
        tail = r.choice([b"\xff", b"\xc3", b"\xc3\xa9", b""])
        p = bcat(ascii_blob(r, k), blob(tail))
        a, b = bsplit(p, r.randrange(k))
        g.add(r.choice(MSG_APIS), server, [item(False, 1, a, server, r), item(True, 0, b, server, r)], cls="long")
    recvcheck.run(chk, g.out)


def p10_recv(chk):
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(600, 8000)):
        server = r.random() < .5
        its = []
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if x < .45:
                its.append(item(True, r.choice([9, 10]), g.payload(2, r.choice(CTL_SIZES + [r.randrange(126)])), server, r))
            elif x < .55:
                its.append(item(True, 8, [], server, r))
            else:
                code = r.choice(CODES + [r.randrange(65536)] * 3)
                reason = utf8_text(r, r.choice([0, 0, 1, 2, 10, 60, 119]))[:123]
                try:
                    reason.decode()
                except UnicodeDecodeError:
                    reason = b"x" * 123
                its.append(item(True, 8, blob(struct.pack(">H", code) + reason), server, r))
        if r.random() < .25:
            its.append(item(True, 8, blob(bytes([r.randrange(256)])), server, r))
        if r.random() < .3:
            its = g.open_prefix(server) + its
        g.add(r.choice(MSG_APIS), server, its, cls="control")
    for k in range(126):
        server = r.random() < .5
        g.add(r.choice(MSG_APIS), server, [item(True, o, g.payload(2, k), server, r) for o in (9, 10)] +
              ([item(True, 8, blob(struct.pack(">H", 1000 + k) + b"r" * (k - 2)), server, r)] if k >= 2 else []), cls="every-size")
    beh_scens(chk, g, N(200, 3000), keep=lambda ns: any(x[:4] in ("ping", "pong", "clos") for x in ns))
    recvcheck.run(chk, g.out)


LIM_APIS = ["receiver", "parts", "pair", "iter", "client", "citer", "clientpre", "reader", "riter", "split", "codec", "framed", "framedpre"]


def p11_recv(chk):
    models(chk, ("server",))
    g = Gen(chk.rng)
    r = g.rng

    def declared(server, n, fin=True, op=2):
        return dict(h=list(header(fin, 0, op, n, [1, 2, 3, 4] if server else None)), p=[])

    for n in range(N(900, 9000)):
        server = r.random() < .5
        maxf = r.choice([0, 1, 10, 125, 126, 127, 200, 1000, 65535, 65536])
        api = r.choice(LIM_APIS + ["rawdfl", "dfcodec", "dfframed"])
        maxm = r.choice([maxf, 2 * maxf + 100, 1000000])
        x = r.random()
        pre = [item(True, 2, run_blob(r, min(maxf, 20)), server, r)] if r.random() < .4 else []
        if x < .4:
            size = r.choice([maxf, maxf, max(0, maxf - 1), min(maxf, 126), r.randrange(maxf + 1)])
            g.add(api, server, pre + [item(True, 2, run_blob(r, size), server, r), item(True, 9, run_blob(r, min(maxf, 5)), server, r)], lim=(maxf, maxm), cls="within-frame-limit")
        else:
            size = r.choice([maxf + 1, maxf + 1, maxf + 2, maxf + 100, 2 * maxf + 1, 70000, 10**6, 2**31 - 1, 2**32, 2**40, 2**63 - 1])
            if size <= maxf:
                size = maxf + 1
            if x < .6 and size < 70001:
                g.add(api, server, pre + [item(True, 2, run_blob(r, size), server, r)], lim=(maxf, maxm), cls="over-frame-limit")
            else:
                raw = to_raw(pre + [declared(server, size, r.random() < .7)])
                feed = feed_cuts(r, len(raw), "rand") + (["wb"] if api not in ("codec", "dfcodec") and r.random() < .7 else [])
                g.add(api, server, raw=raw, feed=feed, lim=(maxf, maxm), cls="over-frame-limit-header-only")
    # control frames are frames
    for n in range(N(150, 1500)):
        server = r.random() < .5
        maxf = r.choice([0, 1, 2, 5, 10, 100, 123, 124, 125])
        size = r.choice([maxf, maxf + 1, max(0, maxf - 1), 125, 0, r.randrange(126)])
        op = r.choice([8, 9, 10])
        p = [] if op == 8 and size < 2 else bcat(blob(b"\x03\xe8"), ascii_blob(r, size - 2)) if op == 8 else run_blob(r, size)
        api = r.choice(LIM_APIS + ["rawdfl", "dfcodec", "dfframed"])
        its = [item(True, 2, run_blob(r, min(maxf, 3)), server, r)] if r.random() < .3 else []
        if api in LIM_APIS and r.random() < .4:
            its += [item(False, 2, [], server, r)]
        its += [item(True, op, p, server, r)] + ([item(True, 9, [], server, r)] if op != 8 else [])
        g.add(api, server, its, lim=(maxf, r.choice([1000, 10**6])), cls="control-limit")
    for n in range(N(1000, 10000)):
        server = r.random() < .5
        maxm = r.choice([0, 1, 64, 65, 100, 128, 200, 500, 1000, 5000])
        maxf = r.choice([10**6, max(maxm, 200)])
        api = r.choice(LIM_APIS)
        k = r.randrange(2, 7)
        # fragment sizes that place the accumulated payload around the limit
        target = r.choice([maxm - 64 * k, maxm, maxm + 1, maxm - 1, maxm + 5, maxm // 2, 2 * maxm + 1, maxm - 64 * k - 1])
        target = max(0, target)
        sizes = []
        left = target
        for i in range(k - 1):
            s = left if i == k - 2 else r.choice([0, left // 2, left // 3, r.randrange(left + 1)])
            sizes.append(s)
            left -= s
        its = [item(False, 2 if i == 0 else 0, run_blob(r, s), server, r) for i, s in enumerate(sizes)]
        for i in range(len(its), 0, -1):
            if r.random() < .2:
                its.insert(i, g.control(server, op=9, n=r.choice([0, 3, 125])))
        its.append(item(True, 0, run_blob(r, r.choice([0, 1, 50, 2 * maxm])), server, r))
        its += [item(True, 2, run_blob(r, 30), server, r)]
        feed = None
        if r.random() < .3:
            b = boundaries(its)
            feed = []
            for x, y in zip(b, b[1:]):
                feed += [y - x] + (["wb"] if r.random() < .5 else [])
        g.add(api, server, its, lim=(maxf, maxm), cls="message-limit", feed=feed, **({"pre": 0} if feed else {}))
    # one message after another: the account starts afresh
    for n in range(N(120, 800)):
        server = r.random() < .5
        its = []
        for _ in range(6):
            its += [item(False, 2, run_blob(r, 100), server, r), item(False, 0, run_blob(r, 100), server, r), item(True, 0, run_blob(r, 10), server, r)]
        g.add(r.choice(LIM_APIS), server, its, lim=(1000, 400), cls="afresh")
    # limits of any width: beyond 32 bits they are still limits that ordinary traffic never meets
    for n in range(N(250, 1500)):
        server = r.random() < .5
        api = r.choice(LIM_APIS + ["rawdfl", "dfcodec", "dfframed"])
        its = [item(True, 2, run_blob(r, r.choice([0, 1, 125, 126, 300, 65536])), server, r)]
        if api in LIM_APIS:
            its += [item(False, 2, run_blob(r, r.choice([0, 100, 700, 66000])), server, r)] + [item(False, 0, run_blob(r, r.choice([0, 60, 500])), server, r) for _ in range(r.randrange(5))]
            its += [item(True, 0, run_blob(r, r.choice([0, 9, 66000])), server, r)]
        big = r.choice(HUGE)
        g.add(api, server, its, lim=r.choice([(big, r.choice(HUGE)), (1000000, big), (big, 1000000)]), cls="wide-limits")
    # defaults, announced only: 100 MiB is within, one byte more is not
    for api in LIM_APIS + ["dfcodec", "dfframed"]:
        for server in (True, False):
            for size in (DEF_F, DEF_F + 1, DEF_F + 65536, 2 * DEF_F, 2**32 - 1, 2**32 + 5):
                raw = to_raw([declared(server, size)])
                g.add(api, server, raw=raw, feed=[len(raw)] + ([] if api in ("codec", "dfcodec") else ["wb"]), cls="defaults", pre=0)
    if not Q:
        for api in ("receiver", "client", "codec", "framed"):
            server = api in ("receiver", "codec")
            g.add(api, server, [item(True, 2, [[7, DEF_F]], server, r)], feed=[DEF_F + 14], cls="default-frame")
            g.add(api, server, [item(False, 2, [[1, DEF_F]], server, r), item(False, 0, [[2, DEF_F - 200]], server, r), item(True, 0, [[3, 10]], server, r)],
                  feed=[DEF_F + 7, DEF_F, 10**6], cls="default-message")
            g.add(api, server, [item(False, 2, [[1, DEF_F]], server, r), item(False, 0, [[2, DEF_F]], server, r), item(False, 0, [[3, 1]], server, r), item(True, 0, [[3, 10]], server, r)],
                  feed=[DEF_F + 7, DEF_F, 10**6], cls="default-message-over")
    recvcheck.run(chk, g.out, timeout=60 if Q else 240)


def p12(chk):
    models(chk, ("server",))
    chk.model("MCResume", "MCResume.cfg")
    g = Gen(chk.rng)
    r = g.rng
    SAPI = ["receiver", "parts", "pair", "iter", "client", "citer", "reader", "riter", "split", "clientpre"]
    for n in range(N(800, 8000)):
        server = r.random() < .6
        its = g.traffic(server, ctl=.4, frags=r.choice([None, 2, 3, 5]), n=r.choice([None, 3, 20]))
        b = boundaries(its)
        api = r.choice(SAPI + ["framed", "framed", "framed"])
        tot = b[-1]
        feed = []
        if api == "framed":
            feed = with_stops(r, feed_cuts(r, tot), ["wb"], r.choice([.2, .5, .8]))
            cls = "async-anywhere"
        else:
            x = r.random()
            for lo, hi in zip(b, b[1:]):
                while r.random() < .35:
                    feed.append(r.choice(["wb", "to", "wb", "in"]))
                part = feed_cuts(r, hi - lo)
                if x < .5:
                    part = with_stops(r, part, ["in"], .4)
                feed += part
            feed += r.choice([[], ["wb"], ["to", "wb"]])
            cls = "sync-boundary"
        g.add(api, server, its, feed=feed, cls=cls, pre=0)
    for n in range(N(150, 2000)):
        server = r.random() < .6
        its = g.traffic(server, k=2, n=r.choice([3, 20]))
        b = boundaries(its)
        feed = []
        for lo, hi in zip(b, b[1:]):
            feed += r.choice([[], ["wb"], ["to"], ["in", "wb"]]) + with_stops(r, feed_cuts(r, hi - lo), ["in"], .3)
        g.add(r.choice(["receiver", "iter", "client", "reader", "rawdfl"]), server, its, feed=feed, ops=["d"], cls="frames-boundary", pre=0)
        g.add("dfframed", server, copy_items(its), feed=with_stops(r, feed_cuts(r, b[-1]), ["wb"], .4), ops=["d"], cls="frames-async")
    # blocking reads interrupted inside a frame
    for n in range(N(60, 600)):
        server = r.random() < .6
        its = g.traffic(server, k=3, n=r.choice([3, 20]))
        b = boundaries(its)
        bad = [x for x in range(1, b[-1]) if x not in b]
        if not bad:
            continue
        c = r.choice(bad)
        g.add(r.choice(["receiver", "client", "reader"]), server, its, feed=[c, r.choice(["wb", "to"]), b[-1] - c], cls="sync-midframe", pre=0)

    def finding(s, why):
        return "midframe-loss" if s["cls"] == "sync-midframe" and why not in ("panic", "hang", "crash") else None

    recvcheck.run(chk, g.out, finding=finding)


def p13(chk):
    small_model(chk)
    g = Gen(chk.rng)
    r = g.rng
    for n in range(N(14, 150)):
        server = r.random() < .5
        its = g.traffic(server, k=r.choice([1, 2]), n=r.choice([0, 3, 7]), ctl=.3)
        raw = to_raw(its)[:90]
        for c in range(len(raw)):
            api = r.choice(MSG_APIS)
            g.add(api, server, raw=raw[:c], feed=feed_cuts(r, c), cls="every-byte")
    for n in range(N(350, 5000)):
        server = r.random() < .5
        its = g.traffic(server, ctl=.3)
        raw = to_raw(its)[:380]
        c = r.randrange(len(raw))
        api = r.choice(MSG_APIS + DF_APIS)
        ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
        feed = feed_cuts(r, c)
        if r.random() < .2:
            feed = feed + ["rst"]
        g.add(api, server, raw=raw[:c], feed=feed, ops=ops, cls="random")
    for n in range(N(60, 600)):
        server = r.random() < .5
        n1 = r.choice(BIG_SIZES)
        its = [item(r.random() < .7, r.choice([1, 2]), ascii_blob(r, n1), server, r)]
        its[0]["p"] = bsplit(its[0]["p"], r.choice([0, 1, n1 // 2, n1 - 1]))[0]
        if item_len(its[0]) < 380:
            g.add(r.choice(MSG_APIS), server, raw=to_raw(its), cls="big")
        else:
            g.add(r.choice(MSG_APIS), server, its, cls="big-truncated", cutlast=True)
    recvcheck.run(chk, g.out)


def p14_recv(chk):
    g = Gen(chk.rng)
    r = g.rng
    APIS = MSG_APIS + DF_APIS
    for n in range(N(1200, 20000)):
        server = r.random() < .5
        x = r.random()
        if x < .35:
            raw = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 14, 40, 200])))
        elif x < .75:
            raw = mutate(r, to_raw(g.traffic(server, k=r.choice([1, 2, 3])))[:300])
        else:
            op = r.randrange(16)
            ln = r.choice([2**16, 2**24, 2**31 - 1, 2**31, 2**32, 2**40, 2**48, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 14, r.randrange(2**64)])
            raw = header(r.random() < .7, r.choice([0, 0, 0, 7]), op, ln, [9, 8, 7, 6] if r.random() < .8 == server else None, form=64) + bytes(r.randrange(50))
            if r.random() < .5:
                raw = to_raw(g.traffic(server, k=1))[:200] + raw
        api = r.choice(APIS)
        ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
        lim = None if r.random() < .7 or api == "rawdfl" else (r.choice([0, 1, 1000, 2**31 - 2, r.choice(HUGE)]), r.choice([0, 100, 2**31 - 2, r.choice(HUGE)]))
        g.add(api, server, raw=raw, ops=ops, lim=lim, feed=feed_cuts(r, len(raw)), cls="bytes", max=2000)
    for k in (1048570, 1048577, 1100000):        # fragments without end
        for api in r.sample(MSG_APIS, 1 if Q else 4):
            crowd(g, r, k, "fragments-without-end", api)
    for b0 in range(256):
        server = r.random() < .5
        for b1 in ((0x80 if server else 0) | k for k in (0, 1, 125, 126, 127)):
            raw = bytes([b0, b1]) + bytes(r.randrange(256) for _ in range(r.choice([0, 4, 12, 20])))
            api = r.choice(APIS)
            ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
            if r.random() < N(.4, 1):
                g.add(api, server, raw=raw, ops=ops, feed=feed_cuts(r, len(raw)), cls="every-first-byte")

    # every first byte of a frame that is otherwise in order, at the small sizes where codes treat payloads specially
    for b0 in [x for x in range(256) if (x >> 4) & 7 == 0]:
        for server in (True, False):
            for n in (0, 1, 2, 3, 124, 125):
                for _ in range(N(1, 4)):
                    p = blob(bytes(r.randrange(256) for _ in range(n)))
                    its = [item(b0 >= 128, b0 & 15, p, server, r)]
                    if r.random() < .3:
                        its = [item(False, 2, [[1, 2]], server, r)] + its
                    raw = to_raw(its) + (to_raw([item(True, 2, [[5, 3]], server, r)]) if r.random() < .5 else b"")
                    g.add(r.choice(["receiver", "client", "citer", "codec", "framed", "framedpre", "codec", "framed"]), server, raw=raw, ops=["m"], feed=feed_cuts(r, len(raw)), cls="small-frames", max=2000)
    # claims of payloads that never come, around and far above the limits, for every receiver
    claims = [1001, 5000, 10**6, 3 * 10**7, 10**8, DEF_F + 1, 3 * 10**8, 10**9, 15 * 10**8, 2 * 10**9, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**63 - 1, 2**63]
    for api in APIS:
        for server in (True, False):
            for ln in claims:
                if Q and r.random() < .4:
                    continue
                dflt = api in ("rawdf", "rawhdr") or (ln > DEF_F and r.random() < .5)
                raw = header(r.random() < .7, 0, r.choice([1, 2, 2, 0, 3]), ln, [9, 8, 7, 6] if server else None) + bytes(r.choice([0, 1, 50]))
                ops = ["d"] if api in DF_APIS and (api not in MSG_APIS or r.random() < .5) else ["m"]
                g.add(api, server, raw=raw, ops=ops, lim=None if dflt else (1000, r.choice([1000, 10**6])), feed=feed_cuts(r, len(raw)), cls="claims", max=50)

    def only(s, why):
        # what an endpoint makes of the bytes is the business of the other checks
        return why in ("panic", "hang", "crash", "memory", "buffered-before-refusing", "empty-trace", "spurious-block")

    recvcheck.run(chk, g.out, why_filter=only)
