------------------------------ MODULE KVFormat ------------------------------
(* The database file format: which byte strings are databases, and which    *)
(* map they hold.  Bytes are numbers 0..255, keys and values are sequences  *)
(* of bytes.                                                                *)
EXTENDS KVOps

Magic == <<109, 108, 107, 118, 100, 98>>      \* "mlkvdb"
Version == 3
U16(b, i) == b[i] + 256 * b[i + 1]
U32(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2]      \* drivers keep the top byte small
           + (IF b[i + 3] = 0 THEN 0 ELSE 16777216 * (b[i + 3] % 64))
Bad == [ok |-> FALSE, m |-> EmptyMap]

RECURSIVE Records(_, _, _)
Records(b, i, m) ==
    IF i > Len(b) THEN [ok |-> TRUE, m |-> m]
    ELSE IF i + 7 > Len(b) THEN Bad                        \* record header cut short
    ELSE LET type == U16(b, i)  ks == U16(b, i + 2)  vs == U32(b, i + 4)  s == i + 8 IN
         CASE type = 0 -> IF s + ks + vs - 1 > Len(b) THEN Bad
                          ELSE Records(b, s + ks + vs, Put(m, SubSeq(b, s, s + ks - 1), SubSeq(b, s + ks, s + ks + vs - 1)))
           [] type = 1 -> IF vs # 0 \/ s + ks - 1 > Len(b) THEN Bad
                          ELSE Records(b, s + ks, Del(m, SubSeq(b, s, s + ks - 1)))
           [] type = 2 -> IF vs # 0 \/ ks # 0 THEN Bad ELSE Records(b, s, EmptyMap)
           [] OTHER    -> Bad

Decode(b) == IF Len(b) < 8 \/ SubSeq(b, 1, 6) # Magic \/ U16(b, 7) # Version THEN Bad
             ELSE Records(b, 9, EmptyMap)
=============================================================================
