"""Property id -> check."""
import checks_recv as R
import checks_send as S
import checks_link as L
import checks_hs as H
import checks_server as V


def p04(chk):
    R.p04(chk)
    H.p04_paths(chk)


def p10(chk):
    R.p10_recv(chk)
    S.p10_send(chk)
    S.p10_conv(chk)


def p11(chk):
    R.p11_recv(chk)
    H.p11_paths(chk)


def p14(chk):
    R.p14_recv(chk)
    H.p14_hs(chk)


CHECKS = {
    "P02": R.p02, "P04": p04, "P06": R.p06, "P07": R.p07, "P08": R.p08, "P09": R.p09,
    "P10": p10, "P11": p11, "P12": R.p12, "P13": R.p13, "P14": p14,
    "P01": L.p01, "P24": L.p24, "P03": S.p03, "P05": S.p05, "P26": S.p26, "P27": S.p27, "P29": S.p29,
    "P15": H.p15, "P16": H.p16, "P17": H.p17, "P18": H.p18, "P19": H.p19, "P20": H.p20, "P21": H.p21, "P22": H.p22, "P28": H.p28,
    "P23": V.p23, "P25": V.p25,
}

_RECV = "TLA+ Receiver spec: TLC model checking + TLC trace validation of the code's receive calls"
NOTES = {p: (_RECV, "Exhaustive TLC exploration of the receiver model over all frame sequences to the bound; model behaviours, generated and "
             "random byte streams are run on all receiving APIs of the code and every trace is checked against the spec. Bounded and sampled on the code side.")
         for p in ("P02", "P04", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14")}


def _n(tech, model, code):
    return ("TLA+ (TLC): %s" % tech, "%s %s Exhaustive to the bound on the model side; bounded and sampled on the code side." % (model, code))


_HS = "Exhaustive TLC exploration of the two-party handshake model (cuts, ends, invalid and malformed heads, scripted peers), safety and liveness."
_BL = "Exhaustive TLC exploration of builder operation sequences against a history-based statement of the result."
NOTES.update({
    "P01": _n("Link spec model checked; traces of connected endpoints validated against it", "Exhaustive TLC exploration of the two-endpoint link model.",
              "Every pairing of blocking and asynchronous endpoints runs over in-memory links and TCP; sent and received messages are checked against the spec."),
    "P03": _n("Sender spec model checked; frames written by every sending API validated, key freshness judged by FreshKeys", "Exhaustive TLC exploration of the sender and sink models.",
              "Wire bytes of all APIs are parsed by the spec; key freshness is statistical."),
    "P05": _n("Sender spec model checked; written frames validated", "Exhaustive TLC exploration of the sender model.", "All boundaries of all length forms, all opcodes and reserved bits, through every sending API."),
    "P29": _n("Sender and sink specs model checked; model behaviours replayed into the code under partial writes and failures", "Exhaustive TLC exploration of writer and sink models.",
              "Model-generated schedules, failures at every byte and back-pressure run on the real senders and sinks."),
    "P26": _n("Message spec model checked; conversion traces validated", "Exhaustive TLC exploration of conversion sequences.", "Conversion sequences on messages of every kind are run and checked."),
    "P27": _n("Masker spec model checked; masking writer traces validated", "Exhaustive TLC exploration of write divisions.", "Every division of a short payload and random ones with partial and interrupted writes."),
    "P24": _n("Duplex spec model checked (with liveness); TCP traces of split halves validated", "Exhaustive TLC exploration of the duplex model.",
              "Real TCP connections are split, half-closed and driven in lockstep and concurrently."),
    "P15": _n("handshake model checked; every entry point's verdict validated against the Handshake spec", _HS, "Valid, faulty and malformed requests through all four entry points and whole servers on sockets."),
    "P16": _n("handshake model checked; written responses validated against the Handshake spec (SHA-1 and base64 in TLA+)", _HS, "Accepts with custom headers, selections and partial writes through all entry points and whole servers on sockets."),
    "P17": _n("handshake model checked; client outcomes validated against the Handshake spec", _HS, "A scripted peer answers with correct, faulty, redirecting, truncated and malformed responses."),
    "P18": _n("builder model checked; written requests validated against the Url and Builder specs, key freshness by FreshKeys", _BL, "URLs over schemes, ports, paths, queries, fragments and credentials; key freshness is statistical."),
    "P19": _n("builder model checked; model operation sequences replayed into the real builder and the requests validated", _BL, "Model sequences and longer random ones with reuse of the builder; limits checked on the connection's traffic."),
    "P20": _n("builder model checked; negotiations between real endpoints and header round trips validated", _BL, "Whole negotiations over TCP for every pairing; header values formatted and parsed."),
    "P21": _n("handshake model checked (byte conservation); leftovers validated for cuts around the head", _HS, "Streams cut around and behind the head, through accept, connect, split and into_stream, both APIs, and through whole servers on sockets."),
    "P22": _n("handshake model checked; rejections, drops and invalid requests validated", _HS, "Rejections, drops, invalid, malformed and truncated requests through all entry points and whole servers on sockets."),
    "P28": _n("handshake model checked; the same bytes under many cuts validated and compared (TraceSame)", _HS, "Requests, responses and codec streams cut in many ways, blocking and asynchronous, plus every prefix; slow peers on real sockets."),
    "P23": _n("Server spec model checked with liveness; what real servers report validated against it", "Exhaustive TLC exploration of client mixes and timings against both kinds of server, liveness under server fairness only.",
              "Walks of the model are replayed with real clients over TCP and TLS against every kind of server."),
    "P25": _n("Connect spec model checked; real connection attempts validated against it", "Exhaustive TLC exploration of URLs, ways of connecting, connectors and peers.",
              "Every way of connecting dials loopback addresses with certificates good and bad; what reached the sockets is checked."),
    "P11": _n("Receiver spec model checked; limits on all paths validated", "Exhaustive TLC exploration of the receiver model.", "Receivers, codecs, client builder and accept-time limits with sizes around the limits."),
    "P14": _n("Receiver and Handshake trace specs: every call on arbitrary bytes must return", "Receiver model and call specification.", "Random, mutated and adversarial bytes into every receiving, parsing and handshake call, with memory accounting."),
})


def replay(prop, path):
    """Runs the recorded scenarios again and prints what the specification says about them."""
    import json
    import vlib, recvcheck
    import checks_send as S_
    import checks_link as L_
    import checks_hs as H_
    import checks_server as V_
    vlib.build()
    c = vlib.Check(prop)
    by = {}
    for v in json.load(open(path)):
        pl = v["payload"]
        k = pl.get("kind")
        for s in ([pl["scenario"]] if "scenario" in pl else pl.get("scenarios", [])):
            f = s.get("fam") or k
            by.setdefault(f, []).append(dict(s, id=len(by.get(f, [])) + 1))
        if k == "keys":
            print("keys from", pl.get("source"), pl.get("keys")[:12])
    run = {"recv": lambda x: recvcheck.run(c, x), "send": lambda x: S_.run(c, x), "conv": lambda x: S_.run_conv(c, x), "mask": lambda x: S_.run_mask(c, x),
           "link": lambda x: L_.run_link(c, x), "tcp": lambda x: L_.run_link(c, x), "duplex": lambda x: L_.run_duplex(c, x),
           "srvhs": lambda x: H_.run_server(c, x), "clihs": lambda x: H_.run_client(c, x), "nego": lambda x: H_.run_simple(c, x, "TraceNego"),
           "server": lambda x: V_.run_servers(c, x), "connect": lambda x: V_.run_connect(c, x),
           "hdr": lambda x: H_.run_simple(c, x, "TraceHeader"), "httpc": lambda x: H_.run_simple(c, x, "TraceHttp"), "httpe": lambda x: H_.run_simple(c, x, "TraceHttp")}
    for f, scens in by.items():
        if f in run:
            run[f](scens)
        else:
            print("no replay for", f)
    for v in c.violations:
        print(v["why"], json.dumps(v["payload"])[:3000])
    return 1 if c.violations else 0
