--------------------------- MODULE TraceGfContainer ---------------------------
EXTENDS GfContainer, Json, IOUtils
Part0(b, i) == b \o "_" \o ToString(i)
MGfs == {"A1", "A2", "A3"}
MViews == {"V1", "V2"}
MS == {"S1", "S2"}
MT == {"T1", "T2"}
MB == {"B1", "B2"}
MW == {"W1", "W2"}
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, K
ev == Trace[i]
Questions == {"isherm", "isrtau", "isreal", "parts", "biter"}
Say(x) == Print(<<"EXPECTED", x>>, FALSE)
AliveB(T, b) == T.bn[b] # <<>> /\ \A j \in 1..BLen(T, b) : Alive(T, Part(b, j))
Matches(T, ok) ==
  /\ IF ev.ok = ok THEN TRUE ELSE Say(<<"ok", ok>>)
  /\ IF DOMAIN ev.post = {x \in Ids : Alive(T, x)} THEN TRUE ELSE Say({x \in Ids : Alive(T, x)})
  /\ \A x \in Ids : Alive(T, x) =>
       LET w == Val(T, x) p == ev.post[x] IN IF p.m = w.m /\ p.sh = w.sh /\ p.v = w.v THEN TRUE ELSE Say(<<x, w>>)
  /\ \A b \in Blocks \cup BViews : AliveB(T, b) => IF ev.names[b] = T.bn[b] THEN TRUE ELSE Say(<<b, T.bn[b]>>)
Next1 ==
  IF ev.e = "Reset" THEN S' = Empty /\ K' = ev.K
  ELSE \E r \in {TLCEval(Step(S, K, ev.op))} :
         /\ Matches(r.S, r.ok)
         /\ IF ev.op.o \in Questions THEN (IF ev.ans = Answer(S, K, ev.op) THEN TRUE ELSE Say(Answer(S, K, ev.op))) ELSE TRUE
         /\ S' = r.S /\ K' = K
TInit == i = 1 /\ S = Empty /\ K = ""
TNext == i <= Len(Trace) /\ Next1 /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<i, S, K>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
