---------------------------- MODULE VectorsTrace ----------------------------
(* Conformance of the real Vector and VectorRange classes (harness/vectors.cpp) with Vectors.tla. *)
EXTENDS Vectors, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES sc, i, g, t, nx
R == Runs[sc]
Say(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
Init == sc \in 1..Len(Runs) /\ i = 1 /\ g = [k \in 1..4 |-> Zero] /\ t = [v \in {} |-> "0"] /\ nx = {}
Stop(kind, x) == Say(kind, [id |-> R.id, at |-> i, info |-> x]) /\ i' = -1 /\ g' = << >> /\ t' = << >> /\ nx' = {} /\ UNCHANGED sc
Next ==
  \/ i > 0 /\ i <= Len(R.ev)
     /\ LET e == R.ev[i] x == Op(g, t, e)
            bad == (IF x[1] = e.g THEN {} ELSE {"vectors"}) \cup (IF x[3] = e.r THEN {} ELSE {"result"})
        IN  IF bad = {} THEN g' = x[1] /\ t' = x[2] /\ i' = i + 1 /\ nx' = nx \cup {e.op} /\ UNCHANGED sc
            ELSE Stop("BAD", [what |-> e.op, differs |-> bad, expected |-> [g |-> x[1], r |-> x[3]], observed |-> [g |-> e.g, r |-> e.r], cov |-> nx])
  \/ i = Len(R.ev) + 1 /\ (IF R.sig # 0 THEN Stop("BAD", [what |-> "crash", differs |-> {"signal"}, cov |-> nx])
                           ELSE Stop("OK", [cov |-> nx, turns |-> Len(R.ev)]))
View == <<sc, i>>
=============================================================================
