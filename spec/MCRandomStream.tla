--------------------------- MODULE MCRandomStream ---------------------------
(* a buffered function, as implemented, refines a position in the stream; also generates operation sequences *)
EXTENDS RandomStream, Json
CONSTANTS H, Size, MaxPos
VARIABLES b,   \* handle -> [base, idx, fpos]: stream position of the first buffered element, index in the buffer, position of the function
          last, opj
Init == ref = <<>> /\ h = [i \in 1..H |-> IF i = 1 THEN 0 ELSE -1] /\ b = [i \in 1..H |-> [base |-> 0, idx |-> 0, fpos |-> Size]] /\ last = -1 /\ opj = "{}"
Refilled(x) == IF x.idx > Size - 1 THEN [base |-> x.fpos, idx |-> 0, fpos |-> x.fpos + Size] ELSE x
Ev(o) == opj' = ToJson(o)
DoDraw(i) == LET x == Refilled(b[i]) IN h[i] < MaxPos /\ Draw(i, x.base + x.idx) /\ b' = [b EXCEPT ![i] = [x EXCEPT !.idx = @ + 1]] /\ last' = x.base + x.idx /\ Ev([op |-> "draw", i |-> i])
DoPreview(i) == LET x == Refilled(b[i]) IN h[i] < MaxPos /\ Preview(i, x.base + x.idx) /\ b' = [b EXCEPT ![i] = x] /\ last' = x.base + x.idx /\ Ev([op |-> "preview", i |-> i])
DoCopy(i, j) == Copy(i, j) /\ b' = [b EXCEPT ![j] = b[i]] /\ UNCHANGED last /\ Ev([op |-> "copy", i |-> i, j |-> j])
DoMove(i, j) == Move(i, j) /\ b' = [b EXCEPT ![j] = b[i]] /\ UNCHANGED last /\ Ev([op |-> "move", i |-> i, j |-> j])
Next == \E i \in 1..H : DoDraw(i) \/ DoPreview(i) \/ \E j \in 1..H : DoCopy(i, j) \/ DoMove(i, j)
Spec == Init /\ [][Next]_<<vars, b, last, opj>>
View == <<h, b>>
(* Draw and Preview would be disabled if the buffered value were not the one of the stream *)
Refines == \A i \in 1..H : h[i] >= 0 => LET x == Refilled(b[i]) IN x.base + x.idx = h[i]
Live == \A i \in 1..H : h[i] >= 0 /\ h[i] < MaxPos => ENABLED DoDraw(i)
==============================================================================
