--------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Which combinations of types make sense: a text has an encoding and owns *)
(* its native units or not.  Only what makes sense may compile.            *)
(***************************************************************************)
EXTENDS Integers
(* a native unit holds an octet of UTF-8 *)
Octets(size, align, integral) == size = 1 /\ align = 1 /\ integral
(* text of encoding e may be added to a text of encoding d as it is *)
Appends(d, owning, e) == owning /\ d = e
(* conversion starts from UTF-32 *)
Converts(owning, e) == owning /\ e = "utf32ne"
Writable(const, owning) == ~const /\ owning
===============================================================================
