----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded behaviours.  TRACE names an ndjson file: one record
   per operation performed on the real code, with what it was seen to do; a
   "begin" record opens each behaviour.  `Starts(r)' is the set of model states
   a behaviour may begin in, `Step(s, r)' the set of model states the
   specification allows after operation `r' with that observed outcome.  The
   variable `sts' is the set of all model states compatible with what was seen
   so far: when it becomes empty the behaviour is none of the specification's. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Starts(_), Step(_, _)
VARIABLES i, sts

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == i = 1 /\ sts = {}

Crashed(r) == "crash" \in DOMAIN r.out

TraceNext ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET r == Trace[i] IN
       IF r.op = "begin" THEN sts' = Starts(r)
       ELSE IF sts = {} THEN sts' = {}
       ELSE /\ sts' = (IF Crashed(r) THEN {} ELSE UNION {Step(s, r) : s \in sts})
            /\ (sts' = {}) => PrintT("@R " \o ToString(r.case) \o " " \o ToString(r.k))

Finished == (i = Len(Trace) + 1) => PrintT("@D " \o ToString(Len(Trace)))
=============================================================================
