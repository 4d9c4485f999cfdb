------------------------------- MODULE ExportGen -------------------------------
(* Random command lines of bliss_find_hits with the stages and outputs they mean. *)
EXTENDS Export, Json, Randomization
CONSTANTS Depth
VARIABLES o, names, hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
Order == <<"fine", "c", "number", "taps", "desmear", "lo", "hi", "step", "rolloff", "iters", "siglo", "sighi", "sklo", "skhi", "skd", "method", "snr", "dist", "out", "form">>
Values(n) == CASE n = "fine" -> {16, 16, 16, 32, 0} [] n = "c" -> IF Full(o).fine = 16 THEN {0, 1, 2} ELSE {0}
               [] n = "number" -> IF Full(o).fine = 16 THEN IF Full(o).c = 0 THEN {1, 2, 3} ELSE {1} ELSE {1}
               [] n = "taps" -> IF Full(o).fine = 0 THEN {FALSE} ELSE {TRUE, FALSE, FALSE} [] n = "desmear" -> {TRUE, FALSE} [] n = "lo" -> {-12, -5, -1} [] n = "hi" -> {1, 4, 12} [] n = "step" -> IF Full(o).hi - Full(o).lo < 3 THEN {1, 2} ELSE {1, 2, 3}  \* an empty range of rates is not specified
               [] n = "rolloff" -> {0, 10, 20, 40} [] n = "iters" -> {0, 1, 3} [] n = "siglo" -> {100, 200, 600} [] n = "sighi" -> {200, 300, 600}
               [] n = "sklo" -> {0, 10, 50} [] n = "skhi" -> {150, 300, 9000} [] n = "skd" -> {100, 200, 400} [] n = "method" -> {"cc", "lm"}
               [] n = "snr" -> {100, 200, 300, 500} [] n = "dist" -> {1, 2, 10} [] n = "out" -> {"", "-", "stdout", "o.dat", "o.capnp", "o.cp", "o", "o.dat.txt"}
               [] n = "form" -> IF Full(o).out \in {"", "-", "stdout"} THEN {""} ELSE {"dat", "capnp", "turbo"}
\* these are always given, so that few hits are found in small data
Must == {"fine", "lo", "hi", "snr", "out"}
One == <<[stem |-> "a", ext |-> ".h5"]>>
Two == <<[stem |-> "a", ext |-> ".h5"], [stem |-> "b.c", ext |-> ".fil"]>>
GenInit == o = <<>> /\ names = <<>> /\ hist = <<>>
Take == /\ Len(hist) < Len(Order)
        /\ LET n == Order[Len(hist) + 1] IN
           /\ \E v \in {Pick(Values(n))} :
              IF n \in Must \/ Pick(1..2) = 1 THEN o' = (n :> v) @@ o /\ hist' = Append(hist, [n |-> n, given |-> TRUE, v |-> ToString(v)])
              ELSE o' = o /\ hist' = Append(hist, [n |-> n, given |-> FALSE, v |-> ""])
           /\ names' = names
Finish == /\ Len(hist) = Len(Order)
          /\ names' = (IF Full(o).out \in {"", "-", "stdout"} THEN Pick({One, Two}) ELSE One) /\ o' = o
          /\ hist' = Append(hist, [names |-> names', o |-> o, stages |-> Stages(o), outputs |-> Outputs(o, names')])
GenSpec == GenInit /\ [][Take \/ Finish]_<<o, names, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
