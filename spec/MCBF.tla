-------------------------------- MODULE MCBF --------------------------------
(* The Java override of Add, Mul and Cmp agrees with their definitions, and  *)
(* the definitions satisfy the ring and order laws, on a small exhaustive    *)
(* domain (limbs at both ends of their range, exponents around 0) and on a   *)
(* file of random doubles.                                                   *)
EXTENDS BF, TLC, Json, IOUtils

Limbs == {0, 1, B - 1}
Small == {Norm(s, e, m) : s \in {-1, 1}, e \in -1 .. 1,
                          m \in [1 .. 1 -> Limbs] \cup [1 .. 2 -> Limbs]} \cup {NaN}
Rand == LET t == ndJsonDeserialize(IOEnv.VERIF_TRACE) IN {t[i].x : i \in 1 .. Len(t)}

VARIABLES x, y
Init == \/ x \in Small /\ y \in Small
        \/ x \in Rand /\ y \in Rand
Next == UNCHANGED <<x, y>>

Normal(v) == v[1] \in {-1, 0, 1, 2} /\ (v[1] \in {0, 2} <=> v[3] = <<>>)
             /\ (v[3] # <<>> => v[3][1] # 0 /\ v[3][Len(v[3])] # 0)

OverrideAgrees == Add(x, y) = PAdd(x, y) /\ Mul(x, y) = PMul(x, y) /\ Cmp(x, y) = PCmp(x, y)
InNormalForm == Normal(PAdd(x, y)) /\ Normal(PMul(x, y))
Commutes == PAdd(x, y) = PAdd(y, x) /\ PMul(x, y) = PMul(y, x)
Inverse == IsNum(x) /\ IsNum(y) => PAdd(PAdd(x, y), Neg(y)) = x /\ Sub(x, x) = Zero
Square == IsNum(x) /\ IsNum(y) =>
            PAdd(PMul(x, x), Neg(PMul(y, y))) = PMul(PAdd(x, y), PAdd(x, Neg(y)))
Order == IsNum(x) /\ IsNum(y) => Cmp(x, y) = Sgn(Sub(x, y)) /\ Cmp(x, y) = -Cmp(y, x)
NaNLost == ~IsNum(x) \/ ~IsNum(y) => ~Le(x, y) /\ ~Lt(x, y) /\ ~Eq(x, y) /\ ~IsNum(Add(x, y))
=============================================================================
