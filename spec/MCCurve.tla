------------------------------ MODULE MCCurve ------------------------------
(***************************************************************************)
(* Every short Weierstrass curve with non-zero constant term over the      *)
(* small primes in Primes (Every-th of them), each one state: the          *)
(* operators of the specification are checked to be a commutative group,   *)
(* to agree with counting the points, to order the points totally and,     *)
(* where the group order is prime, to sign, verify and recover.  For each  *)
(* curve the complete operation tables are printed as programs.            *)
(***************************************************************************)
EXTENDS NeoCurve, TLC, Json
CONSTANTS Primes, Every, Mode
VARIABLES cv, pts, done        \* pts: the points of curve cv
D(i) == NFromInt(i)
NonSingular(p, a, b) == (4 * a * a * a + 27 * b * b) % p # 0
Curves == {<<p, a, b>> \in UNION {{<<q, x, y>> : x \in 0..(q - 1), y \in 1..(q - 1)} : q \in Primes} : NonSingular(p, a, b) /\ (p + 7 * a + 13 * b) % Every = 0}
p0 == cv[1]
C == [p |-> D(cv[1]), a |-> D(cv[2]), b |-> D(cv[3])]
Affine == {<<x, y>> \in (0..(p0 - 1)) \X (0..(p0 - 1)) : (y * y) % p0 = (x * x * x + cv[2] * x + cv[3]) % p0}
\* in a fixed order, infinity first
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN << >> ELSE LET q == CHOOSE q \in S : \A r \in S : q[1] < r[1] \/ (q[1] = r[1] /\ q[2] <= r[2]) IN <<q>> \o AsSeq(S \ {q})
RawPts == AsSeq(Affine)
PtsOf == <<Inf>> \o [i \in 1..Len(RawPts) |-> <<D(RawPts[i][1]), D(RawPts[i][2])>>]
Init == cv \in Curves /\ done = FALSE /\ pts = << >>
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED cv /\ pts' = PtsOf
Pts == pts
N == Len(Pts)
Points == {Pts[i] : i \in 1..N}
IsPrime(k) == k > 1 /\ \A d \in 2..(k - 1) : k % d # 0

Group == done =>
    /\ \A P \in Points : OnCurve(C, P) /\ ECAdd(C, P, Inf) = P /\ ECAdd(C, P, ECNeg(C, P)) = Inf /\ ECMul(C, D(N), P) = Inf
                         /\ ECSub(C, P, P) = Inf /\ ECNeg(C, ECNeg(C, P)) = P
    /\ \A P, Q \in Points : ECAdd(C, P, Q) \in Points /\ ECAdd(C, P, Q) = ECAdd(C, Q, P) /\ ECAdd(C, ECSub(C, P, Q), Q) = P
Field == (done /\ cv[2] = 1) => \A x, y \in 0..(p0 - 1) :
    LET X == D(x) Y == D(y) p == C.p
    IN /\ FAdd(X, FNeg(X, p), p) = NZero /\ FSub(FAdd(X, Y, p), Y, p) = X
       /\ Y # NZero => FMul(FDiv(X, Y, p), Y, p) = X
       /\ FMul(X, Y, p) = D((x * y) % p0)
       /\ IsSquare(X, p) <=> \E z \in 0..(p0 - 1) : (z * z) % p0 = x
Assoc == (done /\ p0 <= 7) => \A P, Q, R \in Points : ECAdd(C, ECAdd(C, P, Q), R) = ECAdd(C, P, ECAdd(C, Q, R))
RECURSIVE Fold(_, _)
Fold(k, P) == IF k = 0 THEN Inf ELSE ECAdd(C, Fold(k - 1, P), P)
Repeated == done => \A P \in Points, k \in 0..(N + 1) : ECMul(C, D(k), P) = Fold(k, P)
Order == done =>
    /\ \A P, Q \in Points : (ECCmp(P, Q) = 0) <=> P = Q
    /\ \A P, Q \in Points : ECCmp(P, Q) = -ECCmp(Q, P)
    /\ p0 <= 7 => \A P, Q, R \in Points : ECCmp(P, Q) = -1 /\ ECCmp(Q, R) = -1 => ECCmp(P, R) = -1
Lift == (done /\ p0 % 4 = 3) => \A x \in 0..(p0 - 1), odd \in BOOLEAN :
    LET P == LiftX(C, D(x), odd) IN IF P = NoPoint THEN ~\E Q \in Points \ {Inf} : Q[1] = D(x) /\ (NOdd(Q[2]) = odd)
                                    ELSE P \in Points /\ P[1] = D(x) /\ (NOdd(P[2]) = odd \/ P[2] = << >>)

\* signatures: prime order above p, so that x coordinates are their own residues
Signs == IsPrime(N) /\ N > p0
E == [c |-> C, G |-> Pts[2], n |-> D(N)]
St0 == CState(<<E>>, << >>)
L(i) == VInt(ZFromInt(i))
SignOf(m, d, k) == CSpec(St0, "Sign", 1, <<L(m), L(d), L(k)>>).os
Ecdsa == (done /\ Mode = "ecdsa" /\ Signs) =>
    \A d \in 1..(N - 1), k \in 1..(N - 1), m \in 0..(N - 1) :
      LET s == SignOf(m, d, k)
          Y == ECMul(C, D(d), E.G)
          R == ECMul(C, D(k), E.G)
          zs(i) == VInt(ZNat(s[i].v))
          odd == IF NOdd(R[2]) THEN 1 ELSE 0
      IN (s[1].v # << >> /\ s[2].v # << >>) =>
           /\ VerifyEq(C, E.G, E.n, Y, D(m), s[1].v, s[2].v)
           /\ EcVerify(E, D(m), Y, s[1].v, s[2].v) = Res(VBool(TRUE))
           /\ CSpec(St0, "Crack1", 1, <<zs(1), zs(2), L(m), L(k)>>).os[1].v = D(d)
           /\ p0 % 4 = 3 => CSpec(St0, "FindPk", 1, <<L(m), zs(1), zs(2), L(odd)>>).os[1].P = Y

\* programs
S(op, a) == [op |-> op, e |-> 1, a |-> a]
O(i) == Val("obj", <<i>>, << >>)
LZ(i) == VInt(ZFromInt(i))
Env == [op |-> "Env", e |-> 0, a |-> <<Val("env", << >>, <<LZ(cv[1]), LZ(cv[2]), LZ(cv[3]), VInt(ZNat(Pts[IF N > 1 THEN 2 ELSE 1][1])), VInt(ZNat(Pts[2][2])), LZ(N)>>)>>]
MakeAll == [i \in 1..N |-> IF i = 1 THEN S("Infinity", << >>) ELSE S("Make", <<VInt(ZNat(Pts[i][1])), VInt(ZNat(Pts[i][2]))>>)]
Pairs(op) == [k \in 1..(N * N) |-> S(op, <<O(1 + (k - 1) \div N), O(1 + ((k - 1) % N))>>)]
Muls == [k \in 1..(N * (N + 3)) |-> S("PMul", <<O(1 + (k - 1) \div (N + 3)), LZ(((k - 1) % (N + 3)) - 1)>>)]
Ones(op) == [i \in 1..N |-> S(op, <<O(i)>>)]
Lifts(op) == [k \in 1..(2 * p0) |-> S(op, <<LZ((k - 1) \div 2), LZ((k - 1) % 2)>>)]
Table == IF Mode = "group" THEN MakeAll \o Pairs("PAdd") \o Ones("PNeg") \o Muls \o Pairs("PSub") \o Ones("OnCurve") \o Ones("IsInfinity") \o Lifts("DecompressFrom") \o Lifts("Decompress")
         ELSE IF Mode = "order" THEN MakeAll \o Pairs("PLt") \o Pairs("PLe") \o Pairs("PGt") \o Pairs("PGe") \o Pairs("PEq") \o Pairs("PNe")
                                     \o <<S("PSort", [i \in 1..N |-> O(i)]), S("PSort", [i \in 1..N |-> O(N + 1 - i)])>>
         ELSE << >>
\* one signature program per key: sign, verify with it and with other messages, recover
SignProg(d, k, m) ==
    LET R == ECMul(C, D(k), E.G) odd == IF R = Inf THEN 0 ELSE IF NOdd(R[2]) THEN 1 ELSE 0
    IN <<S("CalcPub", <<LZ(d)>>), S("Sign", <<LZ(m), LZ(d), LZ(k)>>),
         S("Verify", <<LZ(m), O(1), O(2), O(3)>>), S("Verify", <<LZ((m + 1) % N), O(1), O(2), O(3)>>),
         S("CalcPub", <<LZ(1 + (d % (N - 1)))>>), S("Verify", <<LZ(m), O(4), O(2), O(3)>>),
         S("Sign", <<LZ((m + 2) % N), LZ(d), LZ(k)>>), S("Crack1", <<O(2), O(3), LZ(m), LZ(k)>>),
         S("Crack2", <<O(2), O(3), O(6), LZ(m), LZ((m + 2) % N)>>), S("FindPk", <<LZ(m), O(2), O(3), LZ(odd)>>)>>
Good(d, k, m) == LET s == SignOf(m, d, k) u == SignOf((m + 2) % N, d, k) IN s[1].v # << >> /\ s[2].v # << >> /\ u[2].v # << >> /\ u[2].v # s[2].v
Emit == done =>
    IF Mode = "ecdsa"
    THEN Signs => \A d \in 1..(N - 1), k \in 1..(N - 1) : LET m == (3 * d + 5 * k) % N IN Good(d, k, m) => PrintT("PROG " \o ToJson(<<Env>> \o SignProg(d, k, m)))
    ELSE (N > 1 /\ Mode # "none") => PrintT("PROG " \o ToJson(<<Env>> \o Table))
=============================================================================
