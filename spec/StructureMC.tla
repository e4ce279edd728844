---------------------------- MODULE StructureMC ----------------------------
(***************************************************************************)
(* The structure lattice, checked over all values and structures up to a   *)
(* bound: inclusion is a partial order on canonical structures and agrees  *)
(* with containment of values, Ground(v) is the least structure holding v, *)
(* unions are idempotent, commutative, associative least upper bounds, and *)
(* every algebra's members are those of its ground set.                    *)
(***************************************************************************)
EXTENDS Predicates

CONSTANTS Scope

A0 == {Atom("p"), Atom("q"), Empty, MEmpty}
V1 == A0 \cup {Cpl(x, y) : x, y \in A0} \cup {SetV(X) : X \in SUBSET A0}
      \cup {MSet({<<x, 2>>}) : x \in A0}
R1 == {SetV(X) : X \in SUBSET {Cpl(x, y) : x, y \in {Atom("p"), Atom("q")}}}
V2 == V1 \cup R1 \cup {SetV({x, y}) : x, y \in R1} \cup {MSet({<<x, 2>>, <<y, 1>>}) : x \in R1, y \in {Atom("p"), Empty}}
      \cup {Cpl(x, y) : x \in R1, y \in {Atom("p")}} \cup {SetV({SetV({x}), y}) : x \in R1, y \in A0}
Vals == IF Scope = "small" THEN V1 ELSE V2

S0 == {SE, SA, SM}
Products == {CP(x, y) : x \in S0, y \in {SA, SM, SN}}
S1 == S0 \cup {SN} \cup Products \cup {PS(x) : x \in S0 \cup Products}
S2 == S1 \cup {Join({x, y}) : x, y \in S0 \cup {CP(SA, SA), CP(SM, SA), PS(SA), PS(SM), PS(CP(SA, SN))}}
      \cup {PS(PS(x)) : x \in S0 \cup {CP(SA, SA), CP(SM, SM)}} \cup {PS(Join({SA, x})) : x \in S1 \ {SN}}
Structs == IF Scope = "small" THEN S1 \cup {Join({SA, PS(SA)}), Join({CP(SA, SA), PS(SM), SE})} ELSE S2

VARIABLES v, S, T, R_
Init == /\ v \in Vals
        /\ S = SE /\ T = SE /\ R_ = SE
\* the structures are chosen one after the other
Next == \/ S = SE /\ S' \in Structs /\ UNCHANGED <<v, T, R_>>
        \/ T = SE /\ v = Empty /\ T' \in Structs /\ UNCHANGED <<v, S, R_>>
        \/ R_ = SE /\ v = Empty /\ T # SE /\ R_' \in Structs /\ UNCHANGED <<v, S, T>>
Spec == Init /\ [][Next]_<<v, S, T, R_>>

Containment == In(v, S) <=> Le(Ground(v), S)
Monotone == Le(Ground(v), S) => \A U \in Structs : Le(S, U) => In(v, U)
PartialOrder == /\ Le(S, S)
                /\ (Le(S, T) /\ Le(T, S)) => S = T
                /\ (Le(S, T) /\ Le(T, R_)) => Le(S, R_)
Unions == LET ST == Join({S, T}) IN
          /\ Join({S}) = S
          /\ Le(S, ST) /\ Le(T, ST)
          /\ (Le(S, R_) /\ Le(T, R_)) <=> Le(ST, R_)
          /\ Join({ST, R_}) = Join({S, Join({T, R_})})
          /\ (Le(S, T) <=> Join({S, T}) = T)
\* empty collections belong to every structure, so ground sets decide membership only without them
Memberships == /\ IsCpl(v) => Le(Ground(v), CoupletsGS)
               /\ IsRel(v) => Le(Ground(v), RelationsGS)
               /\ IsClan(v) => Le(Ground(v), ClansGS)
               /\ IsMClan(v) => Le(Ground(v), MulticlansGS)
               /\ IsSet(v) => Le(Ground(v), SetsGS)
               /\ IsMSet(v) => Le(Ground(v), MultisetsGS)
               /\ (~HasEmpty(v) /\ IsSet(v)) =>
                    /\ IsRel(v) <=> Le(Ground(v), RelationsGS)
                    /\ IsClan(v) <=> Le(Ground(v), ClansGS)
Levels == \A U \in {SA, SM, CP(SA, SA), CP(SM, SM)} :
            /\ (Level(PS(S), U) = 1 <=> Le(S, U))
            /\ (Level(S, U) > 0 => Level(PS(S), U) > 0)
            /\ (Level(PS(S), U) > 1 => Level(PS(S), U) = Level(S, U) + 1)
=============================================================================
