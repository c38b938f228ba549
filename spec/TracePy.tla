------------------------------ MODULE TracePy ------------------------------
(***************************************************************************)
(* Runs of the Python package against the meaning of patches.  A session    *)
(* is one call and what came of it:                                         *)
(*   op "apply"    base (from-image or memory file) and patch -> ok, ret, out*)
(*   op "info"     patch -> ok and the reported contents                     *)
(*   op "create"   images and options -> the sequential patch                *)
(*   op "createinp" images and geometry -> the in-place patch                *)
(***************************************************************************)
EXTENDS PyMeaning, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_DATA).sessions
N == Len(T)

VARIABLES s, i, d
vars == <<s, i, d>>
Position == <<s, i>>

-----------------------------------------------------------------------------
Judge(e) ==
    CASE e.op = "apply" -> Apply(MeaningPy(e, FALSE), e)
      [] e.op = "info" -> Info(MeaningPy(e, TRUE), e)
      [] e.op = "create" -> Create(MeaningPy(e, FALSE), e)
      [] e.op = "createinp" -> CreateInp(MeaningPy(e, FALSE), e)
      [] e.op = "interop" -> Interop(MeaningPy(e, FALSE), e)

Init == s \in 1..N /\ i = 0 /\ d = 0
Check == i = 0 /\ Judge(T[s]) /\ i' = 1 /\ UNCHANGED <<s, d>>
Done == i = 1 /\ UNCHANGED vars
Next == Check \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
