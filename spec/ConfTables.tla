----------------------------- MODULE ConfTables -----------------------------
(* Tables the real code starts from.  One record per table and place.  The   *)
(* record "names" lists the tables of one place.                              *)
EXTENDS TraceRun
Data == JsonDeserialize(IOEnv.TABLES)
T == INSTANCE Tables WITH Format <- Data
Set(s) == {s[k] : k \in 1..Len(s)}
Verdict(r) ==
  IF r.k = "names"
  THEN IF Set(r.names) # T!Names THEN "the set of tables differs from the format's" ELSE ""
  ELSE IF r.name \notin T!Names THEN r.name \o ": no table of the format"
  ELSE IF Len(r.tab) # Len(Data[r.name]) THEN r.name \o ": another alphabet than the format's (" \o r.at \o ")"
  ELSE IF r.tab # Data[r.name] THEN r.name \o ": other values than the format's (" \o r.at \o ")"
  ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
