"""Scenario building blocks: frames, streams, cuts. Independent of the code under test."""
import random, struct


# close codes: every one with a meaning, and the edges of their ranges
CODES = [0, 1, 255, 256, 999] + list(range(1000, 1017)) + [1999, 2000, 2999, 3000, 3999, 4000, 4999, 5000, 32767, 32768, 65534, 65535]


def blob(b):
    """bytes -> canonical run-length list"""
    out = []
    i, n = 0, len(b)
    while i < n:
        j = i
        while j < n and b[j] == b[i]:
            j += 1
        out.append([b[i], j - i])
        i = j
    return out


def blen(p):
    return sum(c for _, c in p)


def unblob(p):
    return b"".join(bytes([b]) * c for b, c in p)


def bcat(*ps):
    out = []
    for p in ps:
        for b, c in p:
            if c == 0:
                continue
            if out and out[-1][0] == b:
                out[-1] = [b, out[-1][1] + c]
            else:
                out.append([b, c])
    return out


def bsplit(p, n):
    a, r = [], n
    i = 0
    while i < len(p) and r >= p[i][1]:
        a.append(list(p[i]))
        r -= p[i][1]
        i += 1
    b = [list(x) for x in p[i:]]
    if r and b:
        a.append([b[0][0], r])
        b[0] = [b[0][0], b[0][1] - r]
    return a, b


def header(fin, rsv, op, length, key=None, form=None, maskbit=None):
    """raw header; form forces a length encoding (7, 16 or 64)"""
    b0 = (0x80 if fin else 0) | (rsv << 4) | op
    if form is None:
        form = 7 if length <= 125 else 16 if length <= 65535 else 64
    mb = 0x80 if (key is not None if maskbit is None else maskbit) else 0
    if form == 7:
        h = bytes([b0, mb | length])
    elif form == 16:
        h = bytes([b0, mb | 126]) + struct.pack(">H", length)
    else:
        h = bytes([b0, mb | 127]) + struct.pack(">Q", length)
    return h + (bytes(key) if key is not None else b"")


def item(fin, op, p, masked, rng, rsv=0, form=None, key=None, declared=None, rep=1):
    """p: payload blob"""
    if masked and key is None:
        key = [rng.choice([0, 0, 1, 0x80, 0xFF, rng.randrange(256)]) if rng.random() < .2 else rng.randrange(256) for _ in range(4)]
    h = header(fin, rsv, op, blen(p) if declared is None else declared, key if masked else None, form)
    return dict(h=list(h), p=p, rep=rep)


def item_len(it):
    return (len(it["h"]) + blen(it["p"])) * it.get("rep", 1)


def item_bytes(it):
    h = bytes(it["h"])
    p = unblob(it["p"])
    if len(h) >= 6 and h[1] & 0x80:
        k = h[-4:]
        p = bytes(x ^ k[i & 3] for i, x in enumerate(p))
    return (h + p) * it.get("rep", 1)


def to_raw(items):
    return b"".join(item_bytes(i) for i in items)


# text that something on the way might think it has to improve
SPECIAL = [x.encode() for x in ["\ufeff", "\ufffe", "\uffff", "\x00", "\n", "\r\n", "\r", " ", "\t", "\x0b", "\u200b", "\u2028", "\x85", "\xa0", "\x7f", "\x1b[0m", "e\u0301", "\xe9", "\u0130",
           "\xdf", "\ufb01", '"', "'", "\\", "\\u0041", "%00", "%41", "+", "&amp;", "<a>", "{}", "[", "\ud7ff", "\ue000", "\ufffd", "\U0010ffff", "\U0001f468\u200d\U0001f469", "\u202e", "null", "0", "-1", "ping",
           "GET / HTTP/1.1\r\n\r\n", "\x81\x02", "\x03", "=", ";", ","]]


def special(rng, out):
    """out with special text at its edges, no longer than it was (unless it was shorter than one)"""
    a = rng.choice(SPECIAL) if rng.random() < .7 else b""
    b = rng.choice(SPECIAL) if rng.random() < .5 or not a else b""
    while len(a) + len(b) > max(3, len(out)):
        a, b = rng.choice(SPECIAL), b""
    room = max(0, len(out) - len(a) - len(b))
    mid = out.decode()
    while len(mid.encode()) > room:
        mid = mid[:-1]
    return a + mid.encode() + b


def utf8_text(rng, n):
    """about n bytes of valid UTF-8 with all sequence lengths"""
    if n and rng.random() < .4:
        return special(rng, utf8_plain(rng, n))
    return utf8_plain(rng, n)


def utf8_plain(rng, n):
    out = b""
    while len(out) < n:
        r = rng.random()
        if r < .4:
            c = rng.randrange(0x20, 0x7f)
        elif r < .6:
            c = rng.choice([0x80, 0x7ff, rng.randrange(0x80, 0x800)])
        elif r < .8:
            c = rng.choice([0x800, 0xd7ff, 0xe000, 0xffff, 0xfffd, rng.randrange(0x800, 0xd800)])
        else:
            c = rng.choice([0x10000, 0x10ffff, 0x1f600, rng.randrange(0x10000, 0x110000)])
        out += chr(c).encode()
    return out


BAD_UTF8 = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc2\x41", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe1\x80", b"\xed\xa0\x80",
            b"\xed\xbf\xbf", b"\xef\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80",
            b"\xff", b"\xfe", b"\xf8\x88\x80\x80\x80", b"a\xe2\x28\xa1", b"\xc3\x28", b"ok\xf0\x28\x8c\xbc", b"\xe2\x82\x28"]


def run_blob(rng, n):
    """n bytes of payload in few runs"""
    if n == 0:
        return []
    if n >= 8 and rng.random() < .15:
        a = rng.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\x1f\x8b\x08\x00", b"\x89PNG", b"\x81\x02hi", b"\x88\x00", b"PK\x03\x04", b"\0\0\0\1", b"\r\n\r\n", b"\x78\x9c"])
        return bcat(blob(a), run_blob(rng, n - len(a))) if rng.random() < .6 else bcat(run_blob(rng, n - len(a)), blob(a))
    k = rng.choice([1, 1, 2, 3, 5])
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(k - 1))
    p, last = [], 0
    for c in cuts + [n]:
        p.append([rng.randrange(256), c - last])
        last = c
    return bcat(p)


def ascii_blob(rng, n):
    if n >= 30 and rng.random() < .3:
        a, b = rng.choice(SPECIAL), rng.choice(SPECIAL + [b""] * 20)
        if n >= len(a) + len(b):
            return bcat(blob(a), ascii_blob(rng, n - len(a) - len(b)), blob(b))
    return bcat([[rng.choice(b"abcXYZ019 ~\n"), c] for _, c in run_blob(rng, n)])


def huge_sizes(rng, k):
    """sizes beyond what one would try by hand"""
    return rng.sample([2**20 - 1, 2**20, 2**20 + 1, 2**21 + 5, 2**22, 2**23 + 1, 2**24 - 1, 2**24, 2**24 + 1, rng.randrange(2**20, 2**22), rng.randrange(2**22, 2**24)], k)


def feed_cuts(rng, total, mode=None):
    """a read schedule (chunk sizes) covering total bytes"""
    mode = mode or rng.choice(["all", "ones", "rand", "rand", "two", "few"])
    if total == 0:
        return []
    if mode == "all":
        return [total]
    if mode == "ones" and total <= 600:
        return [1] * total
    if mode == "two":
        c = rng.randrange(0, total + 1)
        return [x for x in (c, total - c) if x]
    out, left = [], total
    while left:
        mx = {"rand": 9, "few": max(2, total // 3), "ones": 300}.get(mode, 16)
        if total > 2000:
            mx = max(mx, total // 8)
        k = min(left, rng.randrange(1, mx + 1))
        out.append(k)
        left -= k
    return out


def with_stops(rng, feed, kinds, prob, positions=None):
    out = []
    for c in feed:
        while rng.random() < prob:
            out.append(rng.choice(kinds))
        out.append(c)
    while rng.random() < prob:
        out.append(rng.choice(kinds))
    return out
