-------------------------------- MODULE PtSeg --------------------------------
(***************************************************************************)
(* The segment finder: the synchronization points that enclose an offset.  *)
(***************************************************************************)
EXTENDS Sync, Text

\* The segment begins at the last sync point that is not after the offset, or
\* at the start of the trace.  It ends at the next one, or at the trace's end.
Segment(b, off) ==
  LET before == {x \in SyncPoints(b) : x <= off}
      after == {x \in SyncPoints(b) : x > off}
  IN [begin |-> IF before = {} THEN 0 ELSE MaxOf(before),
      end |-> IF after = {} THEN Len(b) ELSE MinOf(after)]

SegText(b, off) ==
  LET s == Segment(b, off)
  IN "0x" \o HexI(s.begin) \o "-0x" \o HexI(s.end)
     \o " (offset: 0x" \o HexI(off - s.begin)
     \o ", size: 0x" \o HexI(s.end - s.begin) \o ")"
=============================================================================
