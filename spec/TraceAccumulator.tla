--------------------------- MODULE TraceAccumulator ---------------------------
EXTENDS Accumulator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w
tv == <<acc, i, w>>
ev == Trace[i]
\* components [p, q, p', q'] of a number
IsNum(v, re, im) == LET n == w IN Len(v) = n /\ \A c \in 1..n : v[c] = re[c] \o im[c]
ObsOk(o, e) ==
  /\ e.n = Count(o) /\ e.lmax = o.lmax /\ e.nmax = o.nmax /\ e.nlin = Len(o.blk) /\ e.cap = o.cap
  /\ e.nlog = Levels(Count(o), o.lmax)
  /\ Len(e.bins) = Len(o.blk)
  /\ \A k \in 1..Len(o.blk) : IsNum(e.bins[k], [c \in 1..w |-> Bin(o, k, c, 1)], [c \in 1..w |-> Bin(o, k, c, 2)])
  /\ Len(e.err) = e.nlog /\ Len(e.cnt) = e.nlog
  /\ \A l \in 0..(e.nlog - 1) : e.cnt[l + 1] = NBlocks(Count(o), l) /\ IsNum(e.err[l + 1], [c \in 1..w |-> LogErr(o, l, c)], [c \in 1..w |-> RZero])
Step ==
  CASE ev.e = "Reset" -> acc' = <<>> /\ w' = ev.w
    [] ev.e = "New" -> New(ev.id, ev.lmax, ev.nmax, ev.cap) /\ UNCHANGED w
    [] ev.e = "Add" -> Add(ev.id, ev.x) /\ UNCHANGED w
    [] ev.e = "Compress" -> Compress(ev.id, ev.f) /\ UNCHANGED w
    [] ev.e = "Copy" -> Copy(ev.id, ev.j) /\ UNCHANGED w
    [] ev.e = "Move" -> Move(ev.id, ev.j) /\ UNCHANGED w
    [] ev.e = "Obs" -> ObsOk(acc[ev.id], ev) /\ UNCHANGED <<acc, w>>
    [] OTHER -> FALSE
TInit == acc = <<>> /\ i = 1 /\ w = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
