---------------------------- MODULE JudgeStation ----------------------------
EXTENDS Station, Judge
Holds ==
  LET b == C.q.b  r == C.r
  IN IF r.k = "nottext" THEN TRUE
     ELSE IF IsStation(b) THEN r.k = "ok" /\ r.id = Canonical(b) /\ r.again = TRUE
     ELSE r.k = "no"
Kind == IF C.r.k = "nottext" THEN "not text" ELSE IF ~IsStation(C.q.b) THEN "not a station"
        ELSE IF IsCall(C.q.b) THEN "call sign" ELSE "with SSID"
Ok == Say(Holds, Kind)
=============================================================================
