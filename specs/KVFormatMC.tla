----------------------------- MODULE KVFormatMC -----------------------------
(* Design check of the format: encoding any short history of records gives  *)
(* a file that decodes to the replayed map, and no proper prefix of it that *)
(* cuts a record is accepted.                                               *)
EXTENDS KVFormat
CONSTANTS Strs, MaxRecs
MCStrs == {<<>>, <<65>>, <<2, 0>>}
VARIABLES log
Enc16(n) == <<n % 256, n \div 256>>
Enc(r) == IF r.type = "put" THEN <<0, 0>> \o Enc16(Len(r.k)) \o Enc16(Len(r.v)) \o <<0, 0>> \o r.k \o r.v
          ELSE IF r.type = "remove" THEN <<1, 0>> \o Enc16(Len(r.k)) \o <<0, 0, 0, 0>> \o r.k
          ELSE <<2, 0, 0, 0, 0, 0, 0, 0>>
RECURSIVE EncAll(_)
EncAll(l) == IF l = <<>> THEN <<>> ELSE Enc(Head(l)) \o EncAll(Tail(l))
File(l) == Magic \o <<3, 0>> \o EncAll(l)
Recs == [type : {"put"}, k : Strs, v : Strs] \cup [type : {"remove"}, k : Strs, v : {<<>>}] \cup [type : {"clear"}, k : {<<>>}, v : {<<>>}]
Init == log = <<>>
Next == Len(log) < MaxRecs /\ \E r \in Recs : log' = Append(log, r)
RoundTrip == Decode(File(log)).ok /\ Decode(File(log)).m = Replay(log)
Cuts == {8} \cup {Len(File(SubSeq(log, 1, i))) : i \in 0..Len(log)}
NoTornPrefix == \A n \in 0..Len(File(log)) : Decode(SubSeq(File(log), 1, n)).ok <=> (n \in Cuts)
=============================================================================
