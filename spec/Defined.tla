------------------------------ MODULE Defined ------------------------------
(* Which calls of generated functions have a meaning, whatever the application passes: for     *)
(* these the generated code must not rely on anything C leaves undefined, and must stay inside *)
(* its struct and its frame.  All raw contents and all payloads are legal; only the arithmetic *)
(* of integer scalings has a domain (64-bit), and a physical field must hold a value the       *)
(* signal can take.                                                                            *)
EXTENDS Runtime

UnpackDefined(M, C, d) ==
  C.sf => \A i \in 1..Len(M.sigs) : Kind(M.sigs[i]) = "int" => IntDefined(M.sigs[i], Decode(M.sigs[i], d))
PackDefined(M, C, phys, wit) ==
  C.sf => \A i \in 1..Len(M.sigs) : Scaled(M.sigs[i]) => phys # <<>> /\ Witness(M.sigs[i], phys[i], wit[i])
=============================================================================
