-------------------------------- MODULE TrObs --------------------------------
(***************************************************************************)
(* What an entity shows of its state: attributes (C18), units and the      *)
(* validation of configurations (C19), and equality (C20).                 *)
(***************************************************************************)
EXTENDS TraceBase

Flat == {"cwh", "int1", "int2", "int3"}
Aircraft == {"dub2", "dub3"}
Zero3 == VZero(3)

\* positions of the parts of the state
PosIx(c) == CASE c \in {"cwh", "int3", "sixdof", "dub3"} -> <<1, 2, 3>> [] c \in {"rot2d", "dub2", "int2"} -> <<1, 2>> [] OTHER -> <<1>>
VelIx(c) == CASE c = "cwh" -> <<4, 5, 6>> [] c = "rot2d" -> <<4, 5>> [] c = "sixdof" -> <<8, 9, 10>>
              [] c = "int1" -> <<2>> [] c = "int2" -> <<3, 4>> [] c = "int3" -> <<4, 5, 6>> [] OTHER -> <<>>
HeadIx(c) == IF c = "dub2" THEN 3 ELSE 4
SpeedIx(c) == IF c = "dub2" THEN 4 ELSE 7
At(x, ix, i) == IF i <= Len(ix) THEN x[ix[i]] ELSE FZero
Pick(x, ix) == [i \in 1 .. Len(ix) |-> x[ix[i]]]
Pad3(x, ix) == <<At(x, ix, 1), At(x, ix, 2), At(x, ix, 3)>>

Gamma(c, x) == IF c = "dub3" THEN x[5] ELSE FZero
Roll(c, x) == IF c = "dub3" THEN x[6] ELSE FZero
Nose(c, x) == LET h == x[HeadIx(c)] g == Gamma(c, x)
              IN  <<FMul(FCos(h), FCos(g)), FMul(FSin(h), FCos(g)), FNeg(FSin(g))>>

QNorm(q) == FSqrt(FSum([i \in 1 .. 4 |-> FSqr(q[i])]))
QUnit(q) == LET n == QNorm(q) IN [i \in 1 .. 4 |-> FDiv(q[i], n)]
QOf(x) == <<x[4], x[5], x[6], x[7]>>
\* columns are the body axes; intrinsic rotations about z, y, x
RotZYX(a, b, r) ==
  LET ca == FCos(a) sa == FSin(a) cb == FCos(b) sb == FSin(b) cr == FCos(r) sr == FSin(r)
  IN << <<FMul(ca, cb), FSub(FMul(FMul(ca, sb), sr), FMul(sa, cr)), FAdd(FMul(FMul(ca, sb), cr), FMul(sa, sr))>>,
        <<FMul(sa, cb), FAdd(FMul(FMul(sa, sb), sr), FMul(ca, cr)), FSub(FMul(FMul(sa, sb), cr), FMul(ca, sr))>>,
        <<FNeg(sb), FMul(cb, sr), FMul(cb, cr)>> >>
RotOf(c, x) ==
  CASE c = "rot2d" -> RotZYX(x[3], FZero, FZero)
    [] c = "sixdof" -> QRot(QUnit(QOf(x)))
    [] c \in Aircraft -> RotZYX(x[HeadIx(c)], Gamma(c, x), Roll(c, x))
    [] OTHER -> RotZYX(FZero, FZero, FZero)
Half2(a) == FDivI(a, 2)
QuatOf(c, x) ==
  CASE c = "rot2d" -> <<FZero, FZero, FSin(Half2(x[3])), FCos(Half2(x[3]))>>
    [] c = "sixdof" -> QUnit(QOf(x))
    [] OTHER -> <<FZero, FZero, FZero, One>>
OmegaOf(c, x) == IF c = "rot2d" THEN <<FZero, FZero, x[6]>> ELSE <<x[11], x[12], x[13]>>

\* scalar attributes that are components of the state (or constantly zero)
Plain(c, x) ==
  LET pos == <<"x", "y", "z">> vel == <<"x_dot", "y_dot", "z_dot">>
      P == [i \in 1 .. 3 |-> <<pos[i], At(x, PosIx(c), i)>>]
      V == IF c \in Aircraft THEN <<>> ELSE [i \in 1 .. 3 |-> <<vel[i], At(x, VelIx(c), i)>>]
  IN CASE c = "sun" -> << <<"theta", x[1]>> >>
       [] c = "rot2d" -> P \o V \o << <<"theta", x[3]>>, <<"wx", FZero>>, <<"wy", FZero>>, <<"wz", x[6]>> >>
       [] c = "sixdof" -> P \o V \o << <<"wx", x[11]>>, <<"wy", x[12]>>, <<"wz", x[13]>>,
                                       <<"q1", x[4]>>, <<"q2", x[5]>>, <<"q3", x[6]>>, <<"q4", x[7]>> >>
       [] c \in Aircraft -> P \o << <<"heading", x[HeadIx(c)]>>, <<"yaw", x[HeadIx(c)]>>, <<"v", x[SpeedIx(c)]>>,
                                    <<"gamma", Gamma(c, x)>>, <<"pitch", Gamma(c, x)>>, <<"roll", Roll(c, x)>> >>
       [] OTHER -> P \o V
PosVec(c, x) == CASE c = "int1" -> <<x[1]>> [] c = "int2" -> <<x[1], x[2]>> [] OTHER -> Pad3(x, PosIx(c))
VelVec(c, x) == CASE c = "int1" -> <<x[2]>> [] c = "int2" -> <<x[3], x[4]>>
                  [] c \in Aircraft -> VScale(x[SpeedIx(c)], Nose(c, x)) [] OTHER -> Pad3(x, VelIx(c))

Has(r, f) == f \in DOMAIN r
Det(R) == FSum(<<FMul(R[1][1], FSub(FMul(R[2][2], R[3][3]), FMul(R[2][3], R[3][2]))),
                 FNeg(FMul(R[1][2], FSub(FMul(R[2][1], R[3][3]), FMul(R[2][3], R[3][1])))),
                 FMul(R[1][3], FSub(FMul(R[2][1], R[3][2]), FMul(R[2][2], R[3][1])))>>)
MatClose(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1 .. Len(A) : VClose(A[i], B[i], tol, FZero)
SameQuat(a, b, tol) == VClose(a, b, tol, FZero) \/ VClose(a, NegV(b), tol, FZero)

\* every attribute of an entity in state x; vd is the rate of its speed in the last step
Obs(e) ==
  LET c == CfgOf(e.k).cls x == e.x
      P == Plain(c, x)
      size == IF c \in Aircraft THEN FMul(D(2, -6), FAbs(x[SpeedIx(c)])) ELSE FZero
      scal == \A i \in 1 .. Len(P) : Has(e.s, P[i][1]) /\ e.s[P[i][1]] = P[i][2]
      rot == RotOf(c, x)
  IN  IF c = "sun" THEN << <<"C18.scalars", scal>> >>
      ELSE IF e.err # "" THEN << <<"C18.attributes", FALSE>> >>
      ELSE << <<"C18.scalars", scal>>,
              <<"C18.position", VClose(e.pos, PosVec(c, x), Eps(9), D(1, -9))>>,
              <<"C18.velocity", VClose(e.vel, VelVec(c, x), FAdd(Eps(9), size), D(1, -9))>>,
              <<"C18.orientation", MatClose(e.R, rot, D(2, -6))>>,
              <<"C18.proper", /\ MatClose([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> VDot(e.R[i], e.R[j])]],
                                          [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> IF i = j THEN One ELSE FZero]], Eps(9))
                              /\ Close(Det(e.R), One, Eps(9), FZero)>> >>
           \o (IF c \notin {"rot2d", "sixdof"} THEN <<>>
               ELSE << <<"C18.quaternion", Len(e.q) = 4 /\ SameQuat(e.q, QuatOf(c, x), D(1, -6))>>,
                       <<"C18.elements", c = "sixdof" \/ e.qs = e.q>>,
                       <<"C18.rates", VClose(e.om, OmegaOf(c, x), Eps(12), D(1, -9))>> >>)
           \o (IF c \notin Aircraft \/ FLe(x[SpeedIx(c)], Eps(3)) THEN <<>>
               ELSE << <<"C18.acceleration", VClose(e.acc, VScale(e.vd, Nose(c, x)), FMul(D(1, -5), FAdd(FAbs(e.vd), Eps(6))), FZero)>> >>)

\* initial state of an entity built from the values e.g (all of them, in state order)
Built(e) ==
  IF e.err # "" THEN << <<"C18.construct", FALSE>> >>
  ELSE << <<"C18.initial", VClose(e.x, e.g, Eps(20), D(2, -7))>>,
          <<"C18.name", e.name>> >>

\* assignment of one attribute
Assign(e) ==
  LET c == CfgOf(e.k).cls
      ix == CASE e.attr = "heading" -> HeadIx(c) [] e.attr = "v" -> SpeedIx(c) [] e.attr = "x" -> 1 [] e.attr = "y" -> 2
              [] e.attr = "z" -> 3 [] e.attr = "gamma" -> 5 [] OTHER -> 6
  IN  IF e.err # "" THEN << <<"C18.assign", FALSE>> >>
      ELSE << <<"C18.assign", /\ Len(e.y) = Len(e.x)
                              /\ \A i \in 1 .. Len(e.x) : IF i = ix THEN Close(e.y[i], e.value, Eps(20), D(2, -7)) ELSE e.y[i] = e.x[i]>> >>

\* relative position and velocity of another entity
Relative(e) ==
  LET c == CfgOf(e.k).cls d == CfgOf(e.k2).cls
      tol == FMul(D(3, -6), FAdd(FAdd(VMax(e.x), VMax(e.x2)), Eps(6)))
  IN  IF e.err # "" THEN << <<"C18.relative", FALSE>> >>
      ELSE << <<"C18.relative", /\ VClose(e.rp, VSub(PosVec(d, e.x2), PosVec(c, e.x)), tol, FZero)
                                /\ VClose(e.rv, VSub(VelVec(d, e.x2), VelVec(c, e.x)), tol, FZero)>> >>

-----------------------------------------------------------------------------
\* units: dimension and size in metres, seconds and radians
U(d, f) == [dim |-> d, size |-> f]
Foot == D(3048, -4)
Deg == FDivI(FPi, 180)
Units ==
  [metre |-> U("L", One), kilometre |-> U("L", FInt(1000)), foot |-> U("L", Foot), mile |-> U("L", FMulI(Foot, 5280)),
   centimetre |-> U("L", D(1, -2)), inch |-> U("L", D(254, -4)), yard |-> U("L", FMulI(Foot, 3)), nautical_mile |-> U("L", FInt(1852)),
   metre_per_second |-> U("LT", One), kilometre_per_hour |-> U("LT", FDiv(FInt(10), FInt(36))), foot_per_second |-> U("LT", Foot),
   mile_per_hour |-> U("LT", FDivI(FMulI(Foot, 5280), 3600)), knot |-> U("LT", FDiv(FInt(1852), FInt(3600))),
   foot_per_minute |-> U("LT", FDivI(Foot, 60)),
   radian |-> U("A", One), degree |-> U("A", Deg), milliradian |-> U("A", D(1, -3)), turn |-> U("A", FTwoPi), arcminute |-> U("A", FDivI(Deg, 60)),
   radian_per_second |-> U("AT", One), degree_per_second |-> U("AT", Deg), degree_per_minute |-> U("AT", FDivI(Deg, 60)),
   rpm |-> U("AT", FDivI(FTwoPi, 60)),
   second |-> U("T", One), hour |-> U("T", FInt(3600)), kilogram |-> U("M", One), metre_per_second_squared |-> U("LTT", One),
   square_metre |-> U("LL", One), newton |-> U("F", One), kelvin |-> U("K", One)]

Length(c) == IF c \in Aircraft THEN Foot ELSE One
\* dimension of each parameter
ParDim(a) == CASE a \in {"x", "y", "z"} -> "L" [] a \in {"x_dot", "y_dot", "z_dot", "v"} -> "LT"
               [] a \in {"theta", "heading", "gamma", "roll", "yaw", "pitch"} -> "A" [] a \in {"wx", "wy", "wz"} -> "AT"
               [] a = "position" -> "L" [] a = "velocity" -> "LT" [] a = "angular_velocity" -> "AT" [] a = "acceleration" -> "LTT"
               [] OTHER -> "1"
BaseOf(c, dim) == IF dim \in {"L", "LT", "LTT"} THEN Length(c) ELSE One

\* construction with parameter e.par given as e.mag of unit e.unit; e.got is the state component it ends up in
Given(e) ==
  LET c == CfgOf(e.k).cls dim == ParDim(e.par) u == Units[e.unit]
  IN  IF u.dim # dim THEN << <<"C19.incompatible", e.err # "">> >>
      ELSE << <<"C19.converted", /\ e.err = ""
                                 /\ Close(e.got, FDiv(FMul(e.mag, u.size), BaseOf(c, dim)), Eps(18), D(3, -7))
                                 /\ e.rest>> >>

\* bad configurations: unknown parameter or no name
Bad(e) == << <<"C19." \o e.what, e.err # "">> >>
Good(e) == << <<"C19.accepted", e.err = "">> >>

\* an attribute offered with units: its magnitude (mag), its value in metres, seconds and radians (si), its dimension,
\* and the plain attribute
With(e) ==
  LET c == CfgOf(e.k).cls dim == ParDim(e.attr)
  IN  IF e.err # "" THEN << <<"C19.with_units", FALSE>> >>
      ELSE << <<"C19.with_units", /\ e.dim = dim
                                  /\ VClose(e.mag, e.plain, FZero, D(1, -9))
                                  /\ VClose(e.si, VScale(BaseOf(c, dim), e.plain), Eps(20), D(1, -6))>> >>

-----------------------------------------------------------------------------
\* comparison of two entities in states x1, x2; vd: rate of an aircraft's speed in its last step
\* states are held in single precision at least: values more than a few of its units apart are different
Differ(a, b) == FLt(FMul(Eps(6), FMax(FAbs(a), FAbs(b))), FAbs(FSub(a, b)))
DifferA(a, b) == FLt(Eps(6), FAbs(FSub(a, b)))
DifferC(a, b) == FLt(FMul(Eps(5), FAdd(One, FMax(FAbs(a), FAbs(b)))), FAbs(FSub(a, b)))
Phys(c, x) == IF c # "sixdof" THEN x ELSE LET q == QUnit(QOf(x)) IN [i \in 1 .. 13 |-> IF i \in 4 .. 7 THEN q[i - 3] ELSE x[i]]
Compare(e) ==
  LET c == CfgOf(e.k).cls d == CfgOf(e.k2).cls
      air == c \in Aircraft
      same == c = d /\ e.x1 = e.x2 /\ (~air \/ e.vd1 = e.vd2)
      diff == c # d \/ (LET p == Phys(c, e.x1) q == Phys(d, e.x2)
                        IN  \E i \in 1 .. Len(p) : IF c = "sixdof" /\ i \in 4 .. 7 THEN DifferA(p[i], q[i]) ELSE Differ(p[i], q[i]))
              \/ (air /\ DifferC(e.vd1, e.vd2))
  IN  << <<"C20.answers", e.err = "">>,
         <<"C20.symmetric", e.ab = e.ba>>,
         <<"C20.negation", e.ne = ~e.ab>>,
         <<"C20.reflexive", e.aa>>,
         <<"C20.equal", ~same \/ e.ab>>,
         <<"C20.unequal", ~diff \/ ~e.ab>> >>
\* against something that is no entity
Other(e) == << <<"C20.other", e.err = "" /\ ~e.eq>> >>
\* two entities with the same state and configuration after the same steps
Twin(e) == << <<"C20.twins", e.err = "" /\ e.eq>> >>

Clauses(e) ==
  CASE e.ev = "obs" -> Obs(e)
    [] e.ev = "built" -> Built(e)
    [] e.ev = "assign" -> Assign(e)
    [] e.ev = "relative" -> Relative(e)
    [] e.ev = "given" -> Given(e)
    [] e.ev = "bad" -> Bad(e)
    [] e.ev = "good" -> Good(e)
    [] e.ev = "with" -> With(e)
    [] e.ev = "eq" -> Compare(e)
    [] e.ev = "other" -> Other(e)
    [] e.ev = "twin" -> Twin(e)
    [] OTHER -> <<>>

VARIABLES l, bad, cnt
vars == <<l, bad, cnt>>
Init == l = 1 /\ bad = <<>> /\ cnt = 0
Consume == /\ l <= NLines
           /\ LET cs == Clauses(Trace[l])
              IN  bad' = bad \o Verdicts(l, cs) /\ cnt' = cnt + Len(cs)
           /\ l' = l + 1
Done == l = NLines + 1 /\ Report(bad, cnt) /\ l' = l + 1 /\ UNCHANGED <<bad, cnt>>
Next == Consume \/ Done
=============================================================================
