----------------------------- MODULE Handshake ------------------------------
(* The opening handshake (RFC 6455 section 4): what makes a request a valid upgrade,  *)
(* what the answer must be, when a client may take a response as a connection.        *)
EXTENDS Http

(* memory a handshake may take for c bytes received *)
MemoryBound(c) == 500000 + (24 * c)

(* --------------------------------- the request ---------------------------------- *)
KeyText(r) == ValuesOf(r.fs, sSKey)[1]
KeyClass(r) ==
  IF CountField(r.fs, sSKey) # 1 THEN "bad"
  ELSE LET t == KeyText(r) d == B64Dec(t)
       IN IF ~IsAscii(t) \/ ~d.ok THEN "bad"
          ELSE IF Len(d.bytes) # 16 THEN "bad"
          ELSE IF d.canon THEN "ok" ELSE "either"
(* complaints that are true of a request; each is the name of a reason the library can give *)
C(cond, why) == IF cond THEN {why} ELSE {}
UpgradeNames(r) == ListHas(r.fs, sUpgrade, sWebsocket)
UpgradeVersioned(r) == \E i \in 1..Len(ListOf(r.fs, sUpgrade)) :
                          LET x == ListOf(r.fs, sUpgrade)[i] IN IndexOf(x, 47) > 0 /\ EqCI(Sub(x, 1, IndexOf(x, 47) - 1), sWebsocket)
(* a list line with bytes that are not text makes the library see no list at all *)
Readable(r, name) == \A i \in 1..CountField(r.fs, name) : IsAscii(ValuesOf(r.fs, name)[i])
RequestComplaints(r) ==
       C(r.method # sGET, "method")
  \cup C(~r.v11, "version")
  \cup C(HasField(r.fs, sSVersion) /\ ValuesOf(r.fs, sSVersion) # <<sV13>>, "wsversion")
  \cup C(KeyClass(r) = "bad", "key")
  \cup C(~HasField(r.fs, sUpgrade), "no-upgrade")
  \cup C(HasField(r.fs, sUpgrade) /\ ~UpgradeNames(r), "not-websocket")
  \cup C(~HasField(r.fs, sConnection), "no-connection")
  \cup C(HasField(r.fs, sConnection) /\ ~ListHas(r.fs, sConnection, sUpgrade), "not-upgrade")
(* reasons one may give: a header that cannot be read may be reported as missing *)
ReasonHolds(r, why) ==
  \/ why \in RequestComplaints(r)
  \/ why = "no-upgrade" /\ "not-websocket" \in RequestComplaints(r) /\ ~Readable(r, sUpgrade)
  \/ why = "no-connection" /\ "not-upgrade" \in RequestComplaints(r) /\ ~Readable(r, sConnection)
(* where recipients may differ *)
RequestUnclear(r) ==
  \/ r.cls = "either"
  \/ /\ r.cls = "ok"
     /\ \/ KeyClass(r) = "either"
        \/ UpgradeVersioned(r) /\ ~UpgradeNames(r)
        \/ ~Readable(r, sUpgrade) /\ UpgradeNames(r)
        \/ ~Readable(r, sConnection) /\ ListHas(r.fs, sConnection, sUpgrade)
        \/ CountField(r.fs, sSVersion) > 1 /\ \A i \in 1..CountField(r.fs, sSVersion) : ValuesOf(r.fs, sSVersion)[i] = sV13
RequestVerdict(r) == IF r.cls = "malformed" THEN "refuse"
                     ELSE IF r.cls = "either" THEN "either"
                     ELSE IF RequestUnclear(r) THEN (IF KeyClass(r) = "either" \/ RequestComplaints(r) = {} THEN "either"
                                                     ELSE IF RequestComplaints(r) \subseteq {"not-websocket", "wsversion"} THEN "either" ELSE "refuse")
                     ELSE IF RequestComplaints(r) = {} THEN "offer" ELSE "refuse"

(* --------------------------------- the response --------------------------------- *)
Reserved == {sSAccept, sUpgrade, sConnection}
(* custom: sequence of [n, v] as the caller gave them; CR and LF in a value must not survive *)
Clean(v) == [i \in 1..Len(v) |-> IF v[i] \in {10, 13} THEN 32 ELSE v[i]]
CustomFields(custom) == [i \in 1..Len(custom) |-> [n |-> Lower(custom[i].n), v |-> Trim(Clean(custom[i].v))]]
KeepsCustom(fs, custom) ==
  LET cf == CustomFields(custom)
  IN \A n \in NamesOf(cf) \ Reserved : ValuesOf(fs, n) = ValuesOf(cf, n)
KeepsProtocols(fs, protos) == ListOf(fs, sSProtocol) = Flatten2([i \in 1..Len(protos) |-> CommaItems(Clean(protos[i]))])
                              /\ CountField(fs, sSProtocol) <= 1
(* an extension as put in: [n, ps] *)
KeepsExtensions(fs, exts) == ExtsOf(fs) = exts /\ CountField(fs, sSExtensions) <= 1
(* what accepting must have written; "" when it is right *)
AcceptDiff(r, resp, custom, protos, exts) ==
  IF resp.cls # "ok" THEN "response-malformed"
  ELSE IF resp.code # 101 THEN "response-status"
  ELSE IF ~resp.v11 THEN "response-version"
  ELSE IF ValuesOf(resp.fs, sSAccept) # <<AcceptOf(KeyText(r))>> THEN "accept-header"
  ELSE IF CountField(resp.fs, sUpgrade) # 1 \/ Len(ListOf(resp.fs, sUpgrade)) # 1 \/ ~ListHas(resp.fs, sUpgrade, sWebsocket) THEN "upgrade-header"
  ELSE IF CountField(resp.fs, sConnection) # 1 \/ ~ListHas(resp.fs, sConnection, sUpgrade) THEN "connection-header"
  ELSE IF ~KeepsCustom(resp.fs, custom) THEN "custom-headers"
  ELSE IF ~KeepsProtocols(resp.fs, protos) THEN "protocols"
  ELSE IF ~KeepsExtensions(resp.fs, exts) THEN "extensions"
  ELSE ""
RejectDiff(resp, custom, protos, exts) ==
  IF resp.cls # "ok" THEN "response-malformed"
  ELSE IF resp.code # 400 THEN "response-status"
  ELSE IF HasField(resp.fs, sSAccept) THEN "accept-in-rejection"
  ELSE IF \E n \in NamesOf(CustomFields(custom)) : ValuesOf(resp.fs, n) # ValuesOf(CustomFields(custom), n) THEN "custom-headers"
  ELSE IF ~KeepsProtocols(resp.fs, protos) THEN "protocols"
  ELSE IF ~KeepsExtensions(resp.fs, exts) THEN "extensions"
  ELSE ""
(* headers exposed by an endpoint: [n, v] with one entry per name *)
ExposedDiff(fs, exposed) ==
  LET ef == [i \in 1..Len(exposed) |-> [n |-> Lower(exposed[i].n), v |-> Trim(exposed[i].v)]]
  IN IF NamesOf(ef) # NamesOf(fs) THEN "exposed-names"
     ELSE IF \E n \in NamesOf(fs) : Shown(ef, n) # Shown(fs, n) THEN "exposed-values"
     ELSE ""

(* ------------------------ what the client makes of a response -------------------- *)
(* keytext: the key the client sent *)
AcceptClass(keytext, resp) ==
  LET vs == ValuesOf(resp.fs, sSAccept)
  IN IF Len(vs) # 1 THEN "bad"
     ELSE \* one evaluation of the digest
       CHOOSE c \in {"ok", "either", "bad"} :
         \E a \in {AcceptOf(keytext)} :
           c = IF vs[1] = a THEN "ok"
               ELSE IF IsAscii(vs[1]) /\ B64Dec(vs[1]).ok /\ B64Dec(vs[1]).bytes = B64Dec(a).bytes THEN "either" ELSE "bad"
(* base64 that is not canonical, but decodes to the right bytes, may be taken or refused *)
ResponseComplaints(keytext, resp) ==
       C(AcceptClass(keytext, resp) = "bad", "accept")
  \cup C(~ListHas(resp.fs, sUpgrade, sWebsocket), "upgrade")
  \cup C(~ListHas(resp.fs, sConnection, sUpgrade), "connection")
ResponseUnclear(keytext, resp) ==
  \/ AcceptClass(keytext, resp) = "either"
  \/ Len(ListOf(resp.fs, sUpgrade)) > 1
  \/ ~Readable(resp, sConnection) \/ ~Readable(resp, sUpgrade)
  \/ ~resp.v11
(* [k |-> "connect" | "redirect" | "status" | "refuse" | "either"] *)
ResponseVerdict(keytext, resp) ==
  IF resp.cls = "malformed" THEN [k |-> "refuse"]
  ELSE IF resp.cls = "either" THEN [k |-> "either"]
  ELSE IF resp.code = 101
       THEN IF ResponseComplaints(keytext, resp) # {} THEN [k |-> "refuse"]
            ELSE IF ResponseUnclear(keytext, resp) THEN [k |-> "either"] ELSE [k |-> "connect"]
  ELSE IF resp.code \in 300..399 /\ HasField(resp.fs, sLocation)
       THEN IF CountField(resp.fs, sLocation) = 1 /\ ValuesOf(resp.fs, sLocation)[1] # <<>> /\ IsAscii(ValuesOf(resp.fs, sLocation)[1])
            THEN [k |-> "redirect", code |-> resp.code, loc |-> ValuesOf(resp.fs, sLocation)[1]]
            ELSE [k |-> "failed", code |-> resp.code]
  ELSE [k |-> "status", code |-> resp.code]
=============================================================================
