--------------------------------- MODULE KBlock ---------------------------------
(* Blocks of samples (knaster_primitives/src/block.rs, knaster_graph/src/block.rs): channels of     *)
(* frames, and windows into them.  A window is a block: everything done to it is done to the frames *)
(* of the block it is a window of, and to no others.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* kind: how the block is stored; views: windows, the innermost last, each <<offset, length, writable>>
Init0(kind, chans, size, rows) == [kind |-> kind, ch |-> chans, bs |-> size, data |-> rows, views |-> <<>>]
Zero(chans, size) == [c \in 1 .. chans |-> [f \in 1 .. size |-> 0]]

RECURSIVE Off(_)
Off(vs) == IF vs = <<>> THEN 0 ELSE vs[Len(vs)][1] + Off(SubSeq(vs, 1, Len(vs) - 1))
Size(S) == IF S.views = <<>> THEN S.bs ELSE S.views[Len(S.views)][2]
Writable(S) == S.kind # "aggread" /\ \A i \in 1 .. Len(S.views) : S.views[i][3]
\* the frame of the stored block behind frame f of the present window
At(S, f) == f + Off(S.views) + 1

Window(S, off, len, w) == [S EXCEPT !.views = Append(@, <<off, len, w>>)]
Back(S) == [S EXCEPT !.views = SubSeq(@, 1, Len(@) - 1)]
Write(S, c, f, v) == [S EXCEPT !.data[c + 1][At(S, f)] = v]
Read(S, c, f) == S.data[c + 1][At(S, f)]
Slice(S, c) == [i \in 1 .. Size(S) |-> S.data[c + 1][i + Off(S.views)]]
\* writing vs to the slice of a channel
Fill(S, c, vs) == [S EXCEPT !.data[c + 1] = [g \in 1 .. S.bs |-> IF g > Off(S.views) /\ g <= Off(S.views) + Len(vs) THEN vs[g - Off(S.views)] ELSE @[g]]]
FillAll(S, rows) == [S EXCEPT !.data = [c \in 1 .. S.ch |-> Fill(S, c - 1, rows[c]).data[c]]]
All(S) == [c \in 1 .. S.ch |-> Slice(S, c - 1)]

\* inside of the block
InBlock(S, c, f) == c < S.ch /\ f < Size(S)
=============================================================================
