#!/usr/bin/env python3
"""Writes spec/Ascii.tla: byte sequences of the names the HTTP specification needs (TLC cannot look into strings)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = dict(
    GET="GET", Http11="HTTP/1.1", Http10="HTTP/1.0", Host="host", Upgrade="upgrade", Connection="connection", Websocket="websocket",
    SKey="sec-websocket-key", SVersion="sec-websocket-version", SAccept="sec-websocket-accept", SProtocol="sec-websocket-protocol",
    SExtensions="sec-websocket-extensions", Origin="origin", Authorization="authorization", Location="location", Basic="Basic ", V13="13",
    CommaSp=", ", Colon=":", Slash="/", Question="?", At="@", Hash="#", CSS="://", ws="ws", wss="wss", http="http", https="https", Get="GET ", SpHttp11=" HTTP/1.1")
with open(os.path.join(V, "spec", "Ascii.tla"), "w") as f:
    f.write("------------------------------- MODULE Ascii --------------------------------\n(* generated by tools/mkascii.py *)\n")
    for k, v in names.items():
        f.write("s%s == <<%s>>   \\* %s\n" % (k, ", ".join(str(b) for b in v.encode()), v))
    f.write("=" * 77 + "\n")
