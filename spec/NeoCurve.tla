------------------------------ MODULE NeoCurve ------------------------------
(***************************************************************************)
(* Field values, curve points and the textbook ECDSA object as a machine.  *)
(*                                                                         *)
(* State: env, the curves of the history, each [c |-> [p, a, b], G, n],    *)
(* and objs, the values alive: field values [t |-> "fv", f, v] (field      *)
(* 2i-1 is the field of curve i, 2i the field of its group order), points  *)
(* [t |-> "pt", e, P] and byte strings [t |-> "by", b].  Operations only   *)
(* ever add values; none changes an existing one.                          *)
(***************************************************************************)
EXTENDS EC, FiniteSets

FV(f, v) == [t |-> "fv", f |-> f, v |-> v]
PT(e, P) == [t |-> "pt", e |-> e, P |-> P]
BS(b) == [t |-> "by", b |-> b]
CState(env, objs) == [env |-> env, objs |-> objs]
PrimeOf(env, f) == IF f % 2 = 1 THEN env[(f + 1) \div 2].c.p ELSE env[f \div 2].n

\* outcomes: k = "val" a new value, "vals" several, "res" a plain result,
\* "err" refusal, "any" not specified, and relations the result has to satisfy
New(o) == [k |-> "vals", os |-> <<o>>, r |-> VNone]
News(os) == [k |-> "vals", os |-> os, r |-> VNone]
Res(r) == [k |-> "res", os |-> << >>, r |-> r]
Refuse == [k |-> "err", os |-> << >>, r |-> VErr]
Any == [k |-> "any", os |-> << >>, r |-> VNone]
Rel(name, r) == [k |-> name, os |-> << >>, r |-> r]

\* an argument: a reference to a value alive, or a literal
Arg(st, x) == IF x.k = "obj" THEN st.objs[x.v[1]] ELSE [t |-> "lit", x |-> x]
IsFV(a) == a.t = "fv"
ZOf(a) == IF IsFV(a) THEN ZNat(a.v) ELSE a.x.v          \* as an integer
InField(a, p) == IF IsFV(a) THEN NMod(a.v, p) ELSE ZResidue(a.x.v, p)
FieldOf(a, b) == IF IsFV(a) THEN a.f ELSE b.f
IntArg(x) == ZToInt(x.v)

FBin(env, op, a, b) ==
    LET f == FieldOf(a, b)
        p == PrimeOf(env, f)
        x == InField(a, p)
        y == InField(b, p)
    IN CASE op = "FAdd" -> New(FV(f, FAdd(x, y, p)))
         [] op = "FSub" -> New(FV(f, FSub(x, y, p)))
         [] op = "FMul" -> New(FV(f, FMul(x, y, p)))
         [] op = "FDiv" -> IF y = << >> THEN Any ELSE New(FV(f, FDiv(x, y, p)))
         [] op = "FEq" -> Res(VBool(x = y))
         [] op = "FNe" -> Res(VBool(x # y))

CmpRes(op, d) ==
    CASE op = "PLt" -> d = -1 [] op = "PLe" -> d # 1 [] op = "PGt" -> d = 1 [] op = "PGe" -> d # -1
      [] op = "PEq" -> d = 0 [] op = "PNe" -> d # 0

RECURSIVE Insert(_, _)
Insert(s, P) == IF s = << >> THEN <<P>> ELSE IF ECCmp(s[1], P) = 1 THEN <<P>> \o s ELSE <<s[1]>> \o Insert(Tail(s), P)
RECURSIVE SortPts(_)
SortPts(s) == IF s = << >> THEN << >> ELSE Insert(SortPts(Tail(s)), s[1])

\* the root of v with the given parity, or none; primes = 1 mod 8 may be refused
SqrtOut(f, v, p, odd, r) ==
    IF ~IsSquare(v, p) THEN Refuse
    ELSE Rel(IF NMod(p, <<8>>) = NOne /\ v # << >> THEN "sqrt?" ELSE "sqrt", VInt(ZNat(v)))

\* the signed number a field or curve argument stands for, modulo n
Scalar(a) == ZOf(a)
EcVerify(E, m, Y, r, s) ==       \* r, s: integers as given
    LET n == E.n
        rn == NMod(r, n)
        sn == NMod(s, n)
    IN IF rn = << >> \/ sn = << >> THEN Res(VBool(FALSE))
       ELSE LET w == NInvMod(sn, n)
                R == ECAdd(E.c, ECMul(E.c, FMul(m, w, n), E.G), ECMul(E.c, FMul(rn, w, n), Y))
            IN IF R # Inf /\ R[1] = r THEN Res(VBool(TRUE))
               ELSE IF R = Inf \/ NMod(R[1], n) # rn THEN Res(VBool(FALSE))
               ELSE Rel("bool", VNone)

W == 32
VPt(e, P) == Val("pt", <<e>>, <<VInt(ZNat(CX(P))), VInt(ZNat(CY(P)))>>)
Hexed(b) == IF b = <<0>> THEN b ELSE HexEncode(b)
\* a decoder that leaves the curve test of uncompressed points to its caller
Unchecked(c, b) == Len(b) = 65 /\ b[1] = 4 /\ ~OnCurve(c, <<FromBE(SubSeq(b, 2, 33)), FromBE(SubSeq(b, 34, 65))>>)
                   /\ NLt(FromBE(SubSeq(b, 2, 33)), c.p) /\ NLt(FromBE(SubSeq(b, 34, 65)), c.p)
PointOr(e, P) == IF P = NoPoint THEN Refuse ELSE New(PT(e, P))
StreamLen(b) == IF b = << >> THEN 0 ELSE IF b[1] = 0 THEN 1 ELSE IF b[1] \in {2, 3} THEN 33 ELSE 65
FromStream(e, c, b) ==          \* the point, and how many bytes were consumed
    LET n == StreamLen(b)
    IN IF n = 0 \/ Len(b) < n THEN Refuse
       ELSE LET P == DecodePoint(c, W, Take(b, n))
            IN IF P = NoPoint THEN Refuse ELSE [k |-> "vals", os |-> <<PT(e, P)>>, r |-> VInt(ZFromInt(n))]
RawBytes(x) == IF x.t = "by" THEN x.b ELSE x.x.v
KeyBytes(b) ==
    CASE Len(b) \in {33, 65} -> b
      [] Len(b) \in {64, 72} -> <<4>> \o Drop(b, Len(b) - 64)
      [] Len(b) \in {96, 104} -> <<4>> \o SubSeq(b, Len(b) - 95, Len(b) - 32)
      [] OTHER -> << >>

\* e: the curve (or field) concerned, a: arguments
CSpec(st, op, e, xs) ==
    LET env == st.env
        E == env[e]
        c == E.c
        a == [i \in 1..Len(xs) |-> Arg(st, xs[i])]
    IN CASE op = "FMake" -> New(FV(e, InField(a[1], PrimeOf(env, e))))
         [] op = "FHex" -> New(FV(e, NMod(FromBE(HexDecode(a[1].x.v)), PrimeOf(env, e))))
         [] op = "FZero" -> New(FV(e, NZero))
         [] op = "FOne" -> New(FV(e, NOne))
         [] op \in {"FAdd", "FSub", "FMul", "FDiv", "FEq", "FNe"} -> FBin(env, op, a[1], a[2])
         [] op = "FPow" ->      \* the exponent is an integer, also when given as a field value
              LET f == FieldOf(a[1], a[2]) p == PrimeOf(env, f)
              IN IF ZNeg1(ZOf(a[2])) THEN Any ELSE New(FV(f, NPowMod(InField(a[1], p), ZMag(ZOf(a[2])), p)))
         [] op = "FNeg" -> New(FV(a[1].f, FNeg(a[1].v, PrimeOf(env, a[1].f))))
         [] op = "FInv" -> IF a[1].v = << >> THEN Any ELSE Rel("congruent", VInt(ZNat(NInvMod(a[1].v, PrimeOf(env, a[1].f)))))
         [] op = "FIsZero" -> Res(VBool(a[1].v = << >>))
         [] op = "FSqrt" -> SqrtOut(a[1].f, a[1].v, PrimeOf(env, a[1].f), IntArg(xs[2]) = 1, VNone)
         [] op = "SqrtCQ" -> LET v == ZMag(a[1].x.v) IN IF IsSquare(v, PrimeOf(env, e)) THEN Rel("root", VInt(ZNat(v))) ELSE Rel("noroot", VNone)
         \* points
         [] op = "Make" -> New(PT(e, IF ZIsZero(xs[1].v) /\ ZIsZero(xs[2].v) THEN Inf ELSE <<ZMag(xs[1].v), ZMag(xs[2].v)>>))
         [] op = "Infinity" -> New(PT(e, Inf))
         [] op = "PAdd" -> New(PT(e, ECAdd(c, a[1].P, a[2].P)))
         [] op = "PSub" -> New(PT(e, ECSub(c, a[1].P, a[2].P)))
         [] op = "PNeg" -> New(PT(e, ECNeg(c, a[1].P)))
         [] op = "PMul" -> New(PT(e, ECMulZ(c, Scalar(a[2]), a[1].P)))
         [] op = "PDiv" -> IF a[2].v = << >> THEN Any ELSE New(PT(e, ECMul(c, NInvMod(a[2].v, PrimeOf(env, a[2].f)), a[1].P)))
         [] op \in {"PLt", "PLe", "PGt", "PGe", "PEq", "PNe"} -> Res(VBool(CmpRes(op, ECCmp(a[1].P, a[2].P))))
         [] op = "PSort" -> LET s == SortPts([i \in 1..Len(a) |-> a[i].P] \o << >>) IN Res(VList([i \in 1..Len(s) |-> VPt(e, s[i])]))
         [] op \in {"IsZero", "IsInfinity"} -> Res(VBool(a[1].P = Inf))
         [] op = "OnCurve" -> Res(VBool(OnCurve(c, a[1].P)))
         [] op = "Size" -> Res(VInt(ZFromInt(IF a[1].P = Inf THEN 1 ELSE 33)))
         [] op = "Decompress" ->
              LET x == ZMag(xs[1].v) IN
              IF ~IsSquare(RHS(c, x), c.p) THEN Refuse
              ELSE Rel(IF NMod(c.p, <<8>>) = NOne THEN "lift?" ELSE "lift", xs[1])
         [] op = "DecompressFrom" ->
              LET x == ZMag(xs[1].v) IN IF ~NLt(x, c.p) \/ ~IsSquare(RHS(c, x), c.p) THEN Refuse ELSE Rel("lift", xs[1])
         \* encodings (named 256 bit curves)
         [] op = "Encode" -> LET b == Hexed(IF IntArg(xs[2]) = 1 THEN Compressed(a[1].P, W) ELSE Uncompressed(a[1].P, W))
                             IN [k |-> "vals", os |-> <<BS(b)>>, r |-> VNone]
         [] op = "Serialize" -> LET b == IF IntArg(xs[2]) = 1 THEN Compressed(a[1].P, W) ELSE Uncompressed(a[1].P, W)
                                IN [k |-> "vals", os |-> <<BS(b)>>, r |-> VNone]
         [] op = "DecodeHex" ->       \* of hexadecimal text
              LET t == RawBytes(a[1])
              IN IF ~IsHex(t) THEN Refuse
                 ELSE IF Unchecked(c, HexDecode(t)) THEN Any ELSE PointOr(e, DecodePoint(c, W, HexDecode(t)))
         [] op = "DecodeRaw" -> LET b == RawBytes(a[1]) IN IF Unchecked(c, b) THEN Any ELSE PointOr(e, DecodePoint(c, W, b))
         [] op = "SecHex" -> LET t == RawBytes(a[1]) IN IF IsHex(t) THEN PointOr(e, DecodePoint(c, W, HexDecode(t))) ELSE Refuse
         [] op = "SecRaw" -> PointOr(e, DecodePoint(c, W, RawBytes(a[1])))
         [] op \in {"DecodeReader", "DeserSec"} -> FromStream(e, c, RawBytes(a[1]))
         [] op = "FromBytes" -> PointOr(e, DecodePoint(c, W, KeyBytes(RawBytes(a[1]))))
         \* textbook ECDSA
         [] op = "Builtin" -> Res(VList(<<VInt(ZNat(c.p)), VInt(ZNat(c.a)), VInt(ZNat(c.b)), VInt(ZNat(E.G[1])), VInt(ZNat(E.G[2])), VInt(ZNat(E.n))>>))
         [] op = "CalcPub" -> New(PT(e, ECMul(c, InField(a[1], E.n), E.G)))
         [] op = "Sign" ->
              LET m == InField(a[1], E.n) d == InField(a[2], E.n) k == InField(a[3], E.n)
                  R == ECMul(c, k, E.G)
              IN IF R = Inf THEN Any
                 ELSE [k |-> "sign", os |-> <<FV(2 * e, R[1]), FV(2 * e, FDiv(FAdd(m, FMul(R[1], d, E.n), E.n), k, E.n))>>, r |-> VNone]
         [] op = "Verify" -> EcVerify(E, InField(a[1], E.n), a[2].P, ZMag(ZOf(a[3])), ZMag(ZOf(a[4])))
         [] op = "FindPk" ->
              LET m == InField(a[1], E.n) r == ZMag(ZOf(a[2])) s == InField(a[3], E.n)
              IN IF NMod(r, E.n) = << >> \/ ~NLt(r, c.p) \/ ~IsSquare(RHS(c, r), c.p) THEN Any
                 ELSE IF NMod(c.p, <<4>>) # <<3>> THEN Any
                 ELSE LET R == LiftX(c, r, IntArg(xs[4]) = 1)
                      IN IF R = NoPoint THEN Any
                         ELSE New(PT(e, ECSub(c, ECMul(c, FDiv(s, NMod(r, E.n), E.n), R), ECMul(c, FDiv(m, NMod(r, E.n), E.n), E.G))))
         [] op = "FindPk2" ->
              LET r1 == ZMag(ZOf(a[1])) s1 == ZMag(ZOf(a[2])) r2 == ZMag(ZOf(a[3])) s2 == ZMag(ZOf(a[4]))
                  R1 == LiftX(c, r1, IntArg(xs[5]) = 1)
                  R2 == LiftX(c, r2, IntArg(xs[6]) = 1)
                  d == FSub(NMod(r1, E.n), NMod(r2, E.n), E.n)
              IN IF NMod(c.p, <<4>>) # <<3>> \/ R1 = NoPoint \/ R2 = NoPoint \/ d = << >> THEN Any
                 ELSE New(PT(e, ECMul(c, NInvMod(d, E.n), ECSub(c, ECMul(c, s1, R1), ECMul(c, s2, R2)))))
         [] op = "Crack1" ->     \* r, s, m, k
              LET r == InField(a[1], E.n) s == InField(a[2], E.n) m == InField(a[3], E.n) k == InField(a[4], E.n)
              IN IF r = << >> THEN Any ELSE New(FV(2 * e, FDiv(FSub(FMul(s, k, E.n), m, E.n), r, E.n)))
         [] op = "Crack2" ->     \* r, s1, s2, m1, m2
              LET r == InField(a[1], E.n) s1 == InField(a[2], E.n) s2 == InField(a[3], E.n)
                  m1 == InField(a[4], E.n) m2 == InField(a[5], E.n)
                  ds == FSub(s1, s2, E.n)
              IN IF r = << >> \/ ds = << >> THEN Any
                 ELSE LET k == FDiv(FSub(m1, m2, E.n), ds, E.n)
                      IN News(<<FV(2 * e, k), FV(2 * e, FDiv(FSub(FMul(s1, k, E.n), m1, E.n), r, E.n))>>)
         [] OTHER -> Any

-----------------------------------------------------------------------------
\* Verdict on a recorded operation: ev.r the plain result, ev.os the values it
\* produced, ev.after the arguments as they are afterwards.
Written(o) == CASE o.t = "fv" -> Val("fv", <<o.f>>, <<VInt(ZNat(o.v))>>)
                [] o.t = "pt" -> VPt(o.e, o.P)
                [] OTHER -> VBytes(o.b)
SameOs(obs, os) == Len(obs) = Len(os) /\ \A i \in 1..Len(os) : obs[i] = Written(os[i])
IsNatural(x) == x.k = "int" /\ ~ZNeg1(x.v)
NatOf(x) == ZMag(x.v)
ReadBack(o) == CASE o.k = "fv" -> FV(o.v[1], NatOf(o.c[1]))
                 [] o.k = "pt" -> PT(o.v[1], IF o.c[1] = VInt(ZZero) /\ o.c[2] = VInt(ZZero) THEN Inf ELSE <<NatOf(o.c[1]), NatOf(o.c[2])>>)
                 [] OTHER -> BS(o.v)
ReadableO(o) == \/ o.k = "bytes"
               \/ (o.k = "fv" /\ o.v[1] > 0 /\ IsNatural(o.c[1]))
               \/ (o.k = "pt" /\ o.v[1] > 0 /\ IsNatural(o.c[1]) /\ IsNatural(o.c[2]))

Holds(st, ev, out) ==
    LET env == st.env
    IN CASE out.k = "sqrt" -> /\ Len(ev.os) = 1 /\ ev.os[1].k = "fv" /\ IsNatural(ev.os[1].c[1])
                              /\ LET a == Arg(st, ev.a[1])
                                     p == PrimeOf(env, a.f)
                                     y == NatOf(ev.os[1].c[1])
                                 IN /\ ev.os[1].v = <<a.f>> /\ NLt(y, p) /\ FSq(y, p) = a.v
                                    /\ (y # << >> => NOdd(y) = (IntArg(ev.a[2]) = 1))
         [] out.k = "lift" -> /\ Len(ev.os) = 1 /\ ev.os[1].k = "pt" /\ ev.os[1].v = <<ev.e>>
                              /\ IsNatural(ev.os[1].c[1]) /\ IsNatural(ev.os[1].c[2])
                              /\ LET c == env[ev.e].c
                                     x == NatOf(ev.os[1].c[1])
                                     y == NatOf(ev.os[1].c[2])
                                 IN /\ x = NMod(ZMag(ev.a[1].v), c.p) /\ NLt(y, c.p) /\ FSq(y, c.p) = RHS(c, x)
                                    /\ (y # << >> => NOdd(y) = (IntArg(ev.a[2]) = 1))
         [] out.k = "root" -> /\ IsNatural(ev.r) /\ NLt(NatOf(ev.r), PrimeOf(env, ev.e))
                              /\ FSq(NatOf(ev.r), PrimeOf(env, ev.e)) = ZMag(out.r.v)
         [] out.k = "noroot" -> ev.r.k \in {"none", "err"}
         [] out.k = "congruent" -> ev.r.k = "int" /\ ZResidue(ev.r.v, PrimeOf(env, Arg(st, ev.a[1]).f)) = ZMag(out.r.v)
         [] out.k = "bool" -> ev.r.k = "bool"
         [] out.k = "sign" ->        \* r may be reduced modulo the group order
              SameOs(ev.os, out.os) \/ SameOs(ev.os, <<FV(out.os[1].f, NMod(out.os[1].v, PrimeOf(env, out.os[1].f))), out.os[2]>>)

Judge(st, ev) ==
    IF ev.op = "Env"
    THEN <<"", CState([i \in 1..Len(ev.a) |->
            LET v == ev.a[i].c IN [c |-> [p |-> NatOf(v[1]), a |-> NatOf(v[2]), b |-> NatOf(v[3])], G |-> <<NatOf(v[4]), NatOf(v[5])>>, n |-> NatOf(v[6])]]
            \o << >>, << >>)>>
    ELSE IF st.env = << >> THEN <<"", st>>
    ELSE LET out == CSpec(st, ev.op, ev.e, ev.a)
             soft == out.k \in {"sqrt?", "lift?"}
             o2 == IF soft THEN [out EXCEPT !.k = IF out.k = "sqrt?" THEN "sqrt" ELSE "lift"] ELSE out
             failed == IsErr(ev.r)
             why == IF ev.r.k = "timeout" THEN "operation does not end"
                    ELSE IF out.k = "any" \/ (soft /\ failed) THEN ""
                    ELSE IF out.k = "err" THEN (IF failed THEN "" ELSE "not refused: " \o ev.op)
                    ELSE IF out.k = "noroot" THEN (IF Holds(st, ev, out) THEN "" ELSE "root of a non-square")
                    ELSE IF failed THEN "refused: " \o ev.op
                    ELSE IF o2.k \in {"sqrt", "lift", "root", "congruent", "bool", "sign"}
                         THEN (IF Holds(st, ev, o2) THEN "" ELSE "wrong result of " \o ev.op)
                    ELSE IF SameOs(ev.os, out.os) /\ ev.r = out.r THEN "" ELSE "wrong result of " \o ev.op
             \* arguments are values: nothing changes them
             kept == \A i \in 1..Len(ev.a) : ev.a[i].k = "obj" => ev.after[i] = Written(st.objs[ev.a[i].v[1]])
         IN IF why # "" \/ ~kept \/ ~\A i \in 1..Len(ev.os) : ReadableO(ev.os[i])
            \* nothing is concluded from the rest of a history that went wrong
            THEN <<IF why # "" THEN why ELSE IF ~kept THEN "an argument was changed by " \o ev.op ELSE "", CState(<< >>, << >>)>>
            ELSE <<"", CState(st.env, st.objs \o [i \in 1..Len(ev.os) |-> ReadBack(ev.os[i])])>>
=============================================================================
