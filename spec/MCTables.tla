------------------------------ MODULE MCTables ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES e, ix
Data == JsonDeserialize(IOEnv.TABLES)
T == INSTANCE Tables WITH Format <- Data
Init == e \in T!Elements /\ ix = <<>>
Next == /\ Len(ix) < Len(T!Shape[e][1])
        /\ \E k \in 0..(T!Shape[e][1][Len(ix) + 1] - 1) : ix' = Append(ix, k)
        /\ e' = e
Spec == Init /\ [][Next]_<<e, ix>>
Full == Len(ix) = Len(T!Shape[e][1])
Fine == Full => T!Fine(e, ix)
Alike == Full => T!Alike(e, ix)
Whole == Full => Cardinality(T!Names) = T!Total
=============================================================================
