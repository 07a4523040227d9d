----------------------------- MODULE MCCliValid -----------------------------
(* Configurations around every limit and with every subset of options missing *)
EXTENDS Cli, TLC, Json
VARIABLES inp, outp, size, rate, frames
vars == <<inp, outp, size, rate, frames>>
Absent == <<>>
Sizes == {Absent, <<"0","x","0">>, <<"1","x","1">>, <<"0","x","1">>, <<"1","x","0">>, <<"8","1","9","1","x","8","1","9","1">>, <<"8","1","9","2","x","8","1","9","1">>, <<"8","1","9","1","x","8","1","9","2">>, <<"8","1","9","0","x","2">>, <<"8","1","9","3","x","8","1","9","3">>, <<"6","5","5","3","6","x","6","5","5","3","6">>, <<"4","2","9","4","9","6","7","2","9","7","x","1","6">>, <<"1","6","x","1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>, <<"1","6","x","1","6">>, <<"9","9","9","9","9","x","1">>}
Rates == {Absent, <<"0">>, <<"0","/","1">>, <<"1">>, <<"1","/","0">>, <<"1","/","9">>, <<"2","5">>, <<"3","0","0","0","0","/","1","0","0","1">>, <<"0","/","0">>, <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>, <<"1","/","4","2","9","4","9","6","7","2","9","6">>, <<"1","/","1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>, <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5","/","2">>, <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5","/","1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>, <<"4","2","9","4","9","6","7","2","9","6","/","4","2","9","4","9","6","7","2","9","6">>, <<"1","/","2","1","4","7","4","8","3","6","4","8">>, <<"0","/","1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>}
Frames == {Absent, <<"0">>, <<"1">>, <<"4","2","9","4","9","6","7","2","9","5">>, <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>}
Opt(o, v) == IF v = Absent THEN <<>> ELSE << <<"-">> \o OptShort[o], v >>
Args == Opt("input", inp) \o Opt("size", size) \o Opt("framerate", rate) \o Opt("output", outp) \o Opt("frames", frames)
Init == inp \in {Absent, <<"a">>} /\ outp \in {Absent, <<"b">>} /\ size = Absent /\ rate = Absent /\ frames = Absent
Next == /\ size = Absent /\ rate = Absent /\ frames = Absent
        /\ size' \in Sizes /\ rate' \in Rates /\ frames' \in Frames /\ UNCHANGED <<inp, outp>>
Spec == Init /\ [][Next]_vars
Emit == PrintT("CASE|" \o ToJson(Args))
Agree == LET p == Parse(Args, Defaults) IN
         p.out = "ok" => (Valid(p.cfg) => inp # Absent /\ outp # Absent /\ size # Absent)
=============================================================================
