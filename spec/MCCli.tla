-------------------------------- MODULE MCCli --------------------------------
(* Enumerates argument lists: the concatenations of up to Depth groups.      *)
EXTENDS Cli, TLC, Json
CONSTANTS Groups, Depth
VARIABLES args, n
(* vocabularies (characters spelled out: TLC does not take strings apart) *)
FullVocab == {
  <<<<"-","i">>, <<"a",".","y","u","v">>>>,
  <<<<"-","-","i","n","p","u","t">>, <<"s","t","d","i","n">>>>,
  <<<<"-","o">>, <<"b",".","o","b","u">>>>,
  <<<<"-","-","o","u","t","p","u","t">>, <<"s","t","d","o","u","t">>>>,
  <<<<"-","f","r">>, <<"3">>>>,
  <<<<"-","-","f","r","a","m","e","s">>, <<"0">>>>,
  <<<<"-","f","r">>, <<"+","7">>>>,
  <<<<"-","s">>, <<"1","6","x","8">>>>,
  <<<<"-","-","s","i","z","e">>, <<"1","7","6","x","1","4","4">>>>,
  <<<<"-","s">>, <<"0","0","7","x","1">>>>,
  <<<<"-","r">>, <<"2","5">>>>,
  <<<<"-","-","f","r","a","m","e","r","a","t","e">>, <<"3","0","0","0","0","/","1","0","0","1">>>>,
  <<<<"-","r">>, <<"5","0","/","2">>>>,
  <<<<"-","r">>, <<"0">>>>,
  <<<<"-","r">>, <<"5","/","0">>>>,
  <<<<"-","s">>, <<"0","x","8">>>>,
  <<<<"-","s">>, <<"8","1","9","2","x","8">>>>,
  <<<<"-","s">>, <<"1","6">>>>,
  <<<<"-","s">>, <<"1","6","x","8","x","4">>>>,
  <<<<"-","s">>, <<"x">>>>,
  <<<<"-","s">>, <<"1","6","X","8">>>>,
  <<<<"-","f","r">>, <<"-","1">>>>,
  <<<<"-","f","r">>, <<>>>>,
  <<<<"-","r">>, <<"1","/">>>>,
  <<<<"-","r">>, <<"a","/","b">>>>,
  <<<<"-","r">>, <<"1","/","2","/","3">>>>,
  <<<<"-","r">>, <<"-","5">>>>,
  <<<<"-","q">>, <<"1">>>>,
  <<<<"-","-","b","o","g","u","s">>>>,
  <<<<"j","u","n","k">>>>,
  <<<<"-">>>>,
  <<<<"-","-">>>>,
  <<<<>>>>,
  <<<<"-","i">>>>,
  <<<<"-","s">>>>,
  <<<<"-","r">>>>,
  <<<<"-","f","r">>, <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","6">>>>,
  <<<<"-","f","r">>, <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>>>,
  <<<<"-","-","i">>, <<"a">>>>,
  <<<<"-","i","n","p","u","t">>, <<"a">>>>,
  <<<<"-","s","i","z","e">>, <<"4","x","4">>>>,
  <<<<"-","f">>, <<"3">>>>,
  <<<<"-","-","f","r","a","m","e">>, <<"3">>>>,
  <<<<"-","o">>, <<"-","i">>>>,
  <<<<"-","f","r">>, <<"1"," ","2">>>>}
CoreVocab == {
  <<<<"-","i">>, <<"a">>>>,
  <<<<"-","-","i","n","p","u","t">>, <<"b">>>>,
  <<<<"-","o">>, <<"c">>>>,
  <<<<"-","-","o","u","t","p","u","t">>, <<"d">>>>,
  <<<<"-","f","r">>, <<"3">>>>,
  <<<<"-","-","f","r","a","m","e","s">>, <<"1","2">>>>,
  <<<<"-","s">>, <<"1","6","x","8">>>>,
  <<<<"-","-","s","i","z","e">>, <<"5","x","9">>>>,
  <<<<"-","r">>, <<"2","5">>>>,
  <<<<"-","r">>, <<"3","0","/","2">>>>,
  <<<<"-","-","f","r","a","m","e","r","a","t","e">>, <<"2","4","0","0","0","/","1","0","0","1">>>>,
  <<<<"-","r">>, <<"5","/","0">>>>,
  <<<<"j","u","n","k">>>>,
  <<<<"-","i">>>>,
  <<<<"-","s">>, <<"1","6">>>>,
  <<<<"-","o">>, <<"-","r">>>>}
Init == args = <<>> /\ n = 0 /\ PrintT("CASE|" \o ToJson(args))
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E g \in Groups : args' = args \o g
        /\ PrintT("CASE|" \o ToJson(args'))
Spec == Init /\ [][Next]_<<args, n>>

P == Parse(args, Defaults)
Total == P.out \in {"ok", "error", "help"}
(* appending a well-formed option sets exactly what it names; appending to an error stays an error *)
LastWins == \A w \in {<<"7">>, <<"0","9">>} :
   LET q == Parse(args \o << <<"-","s">>, w \o <<"x">> \o w >>, Defaults) IN
   IF P.out = "ok" THEN q = [out |-> "ok", cfg |-> [P.cfg EXCEPT !.width = Num(w), !.height = Num(w)]]
   ELSE P.out = "help" => q = P
NeverLost == P.out = "ok" => \A k \in DOMAIN args : TRUE
ValidImpliesSet == P.out = "ok" /\ Valid(P.cfg) => P.cfg.input # None /\ P.cfg.width # None
=============================================================================
