----------------------------- MODULE SerialTrace ------------------------------
(* Conformance of saved models with Serial.tla.  Events: model (m), saved (generation i: rc, doc: the document, same: digest
   of it up to the order of definitions, res: digest of the analysis results of the model it was saved from and of its own). *)
EXTENDS Serial, TraceBase

VARIABLES l, cur, prev
vars == << l, cur, prev >>
Init == l = 0 /\ cur = << >> /\ prev = ""

Model_ == Trace[l + 1].e = "model" /\ \E c \in {Meaning(Trace[l + 1].m)} : cur' = c /\ prev' = ""
SavedAs ==
  LET e == Trace[l + 1] IN
  /\ e.e = "saved"
  /\ UNCHANGED cur
  /\ prev' = e.same
  /\ \E d \in {IF e.rc = 0 THEN Read(e.doc) ELSE cur} :
     Report(l + 1, IF e.rc # 0 THEN << "the model is not saved" >>
                   ELSE Violated(<< << d.nm = cur.nm /\ d.lab = cur.lab /\ d.att = cur.att, "name, label and attributes of the model" >>,
                                    << d.ft = cur.ft, "fault trees" >>, << d.gate = cur.gate, "gates" >>,
                                    << d.basic = cur.basic, "basic events" >>, << d.house = cur.house, "house events" >>,
                                    << d.count = cur.count /\ d.rest = {}, "number of elements" >>,
                                    << prev = "" \/ e.same = prev, "saving the reloaded model gives another file" >>,
                                    << e.res[1] = e.res[2], "results of the reloaded model" >> >>))
Next == l < TraceLen /\ (Model_ \/ SavedAs) /\ l' = l + 1 /\ Done(l')
Spec == Init /\ [][Next]_vars
=============================================================================
