-------------------------------- MODULE Aero --------------------------------
(***************************************************************************)
(* The F-16 model: engine, atmosphere, aerodynamic tables and polynomials, *)
(* equations of motion, low-level controller, trim constraints and cost.    *)
(* Angles of the tables are degrees; tables are in thousandths; rows of the *)
(* two-dimensional tables run over the second variable, columns over the    *)
(* angle of attack from -10 to 45 degrees.                                  *)
(***************************************************************************)
EXTENDS Std

ClData ==
  << <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     <<-1, -4, -8, -12, -16, -22, -22, -21, -15, -8, -13, -15>>,
     <<-3, -9, -17, -24, -30, -41, -45, -40, -16, -2, -10, -19>>,
     <<-1, -10, -20, -30, -39, -54, -57, -54, -23, -6, -14, -27>>,
     <<0, -10, -22, -34, -47, -60, -69, -67, -33, -36, -35, -35>>,
     <<7, -10, -23, -34, -49, -63, -81, -79, -60, -58, -62, -59>>,
     <<9, -11, -23, -37, -50, -68, -89, -88, -91, -76, -77, -76>> >>
CmData ==
  << <<205, 168, 186, 196, 213, 251, 245, 238, 252, 231, 198, 192>>,
     <<81, 77, 107, 110, 110, 141, 127, 119, 133, 108, 81, 93>>,
     <<-46, -20, -9, -5, -6, 10, 6, -1, 14, 0, -13, 32>>,
     <<-174, -145, -121, -127, -129, -102, -97, -113, -87, -84, -69, -6>>,
     <<-259, -202, -184, -193, -199, -150, -160, -167, -104, -76, -41, -5>> >>
CnData ==
  << <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     <<18, 19, 18, 19, 19, 18, 13, 7, 4, -14, -17, -33>>,
     <<38, 42, 42, 42, 43, 39, 30, 17, 4, -35, -47, -57>>,
     <<56, 57, 59, 58, 58, 53, 32, 12, 2, -46, -71, -73>>,
     <<64, 77, 76, 74, 73, 57, 29, 7, 12, -34, -65, -41>>,
     <<74, 86, 93, 89, 80, 62, 49, 22, 28, -12, -2, -13>>,
     <<79, 90, 106, 106, 96, 80, 68, 30, 64, 15, 11, -1>> >>
CxData ==
  << <<-99, -81, -81, -63, -25, 44, 97, 113, 145, 167, 174, 166>>,
     <<-48, -38, -40, -21, 16, 83, 127, 137, 162, 177, 179, 167>>,
     <<-22, -20, -21, -4, 32, 94, 128, 130, 154, 161, 155, 138>>,
     <<-40, -38, -39, -25, 6, 62, 87, 85, 100, 110, 104, 91>>,
     <<-83, -73, -76, -72, -46, 12, 24, 25, 43, 53, 47, 40>> >>
CzData == <<770, 241, -100, -415, -731, -1053, -1355, -1646, -1917, -2120, -2248, -2229>>
DamppData ==
  << <<-267, -110, 308, 1340, 2080, 2910, 2760, 2050, 1500, 1490, 1830, 1210>>,
     <<882, 852, 876, 958, 962, 974, 819, 483, 590, 1210, -493, -1040>>,
     <<-108, -108, -188, 110, 258, 226, 344, 362, 611, 529, 298, -2270>>,
     <<-8800, -25800, -28900, -31400, -31200, -30700, -27700, -28200, -29000, -29800, -38300, -35300>>,
     <<-126, -26, 63, 113, 208, 230, 319, 437, 680, 100, 447, -330>>,
     <<-360, -359, -443, -420, -383, -375, -329, -294, -230, -210, -120, -100>>,
     <<-7210, -540, -5230, -5260, -6110, -6640, -5690, -6000, -6200, -6400, -6600, -6000>>,
     <<-380, -363, -378, -386, -370, -453, -550, -582, -595, -637, -1020, -840>>,
     <<61, 52, 52, -12, -13, -24, 50, 150, 130, 158, 240, 150>> >>
DldaData ==
  << <<-41, -52, -53, -56, -50, -56, -82, -59, -42, -38, -27, -17>>,
     <<-41, -53, -53, -53, -50, -51, -66, -43, -38, -27, -23, -16>>,
     <<-42, -53, -52, -51, -49, -49, -43, -35, -26, -16, -18, -14>>,
     <<-40, -52, -51, -52, -48, -48, -42, -37, -31, -26, -17, -12>>,
     <<-43, -49, -48, -49, -43, -42, -42, -36, -25, -21, -16, -11>>,
     <<-44, -48, -48, -47, -42, -41, -20, -28, -13, -14, -11, -10>>,
     <<-43, -49, -47, -45, -42, -37, -3, -13, -10, -3, -7, -8>> >>
DldrData ==
  << <<5, 17, 14, 10, -5, 9, 19, 5, 0, -5, -11, 8>>,
     <<7, 16, 14, 14, 13, 9, 12, 5, 0, 4, 9, 7>>,
     <<13, 13, 11, 12, 11, 9, 8, 5, -2, 5, 3, 5>>,
     <<18, 15, 15, 14, 14, 14, 14, 15, 13, 11, 6, 1>>,
     <<15, 14, 13, 13, 12, 11, 11, 10, 8, 8, 7, 3>>,
     <<21, 11, 10, 11, 10, 9, 8, 10, 6, 5, 0, 1>>,
     <<23, 10, 11, 11, 11, 10, 8, 10, 6, 14, 20, 0>> >>
DndaData ==
  << <<1, -27, -17, -13, -12, -16, 1, 17, 11, 17, 8, 16>>,
     <<2, -14, -16, -16, -14, -19, -21, 2, 12, 16, 15, 11>>,
     <<-6, -8, -6, -6, -5, -8, -5, 7, 4, 7, 6, 6>>,
     <<-11, -11, -10, -9, -8, -6, 0, 4, 7, 10, 4, 10>>,
     <<-15, -15, -14, -12, -11, -8, -2, 2, 6, 12, 11, 11>>,
     <<-24, -10, -4, -2, -1, 3, 14, 6, -1, 4, 4, 6>>,
     <<-22, 2, -3, -5, -3, -1, -9, -9, -1, 3, -2, 1>> >>
DndrData ==
  << <<-18, -52, -52, -52, -54, -49, -59, -51, -30, -37, -26, -13>>,
     <<-28, -51, -43, -46, -45, -49, -57, -52, -30, -33, -30, -8>>,
     <<-37, -41, -38, -40, -40, -38, -37, -30, -27, -24, -19, -13>>,
     <<-48, -45, -45, -45, -44, -45, -47, -48, -49, -45, -33, -16>>,
     <<-43, -44, -41, -41, -40, -38, -34, -35, -35, -29, -22, -9>>,
     <<-52, -34, -36, -36, -35, -28, -24, -23, -20, -16, -10, -14>>,
     <<-62, -34, -27, -28, -27, -27, -23, -23, -19, -9, -25, -10>> >>
IdleData ==
  << <<1060, 670, 880, 1140, 1500, 1860>>,
     <<635, 425, 690, 1010, 1330, 1700>>,
     <<60, 25, 345, 755, 1130, 1525>>,
     <<-1020, -170, -300, 350, 910, 1360>>,
     <<-2700, -1900, -1300, -247, 600, 1100>>,
     <<-3600, -1400, -595, -342, -200, 700>> >>
MilData ==
  << <<12680, 9150, 6200, 3950, 2450, 1400>>,
     <<12680, 9150, 6313, 4040, 2470, 1400>>,
     <<12610, 9312, 6610, 4290, 2600, 1560>>,
     <<12640, 9839, 7090, 4660, 2840, 1660>>,
     <<12390, 10176, 7750, 5320, 3250, 1930>>,
     <<11680, 9848, 8050, 6100, 3800, 2310>> >>
MaxiData ==
  << <<20000, 15000, 10800, 7000, 4000, 2500>>,
     <<21420, 15700, 11225, 7323, 4435, 2600>>,
     <<22700, 16860, 12250, 8154, 5000, 2835>>,
     <<24240, 18910, 13760, 9285, 5700, 3215>>,
     <<26070, 21075, 15975, 11115, 6860, 3950>>,
     <<28886, 23319, 18300, 13484, 8642, 5057>> >>

Milli(v) == D(v, -3)
Table(T) == TLCEval([i \in 1 .. Len(T) |-> TLCEval([j \in 1 .. Len(T[i]) |-> Milli(T[i][j])])])
ClT == Table(ClData)      CmT == Table(CmData)      CnT == Table(CnData)      CxT == Table(CxData)
CzT == TLCEval([i \in 1 .. Len(CzData) |-> Milli(CzData[i])])
DamppT == Table(DamppData)
DldaT == Table(DldaData)  DldrT == Table(DldrData)  DndaT == Table(DndaData)  DndrT == Table(DndrData)
Whole(T) == TLCEval([i \in 1 .. Len(T) |-> TLCEval([j \in 1 .. Len(T[i]) |-> FInt(T[i][j])])])
IdleT == Whole(IdleData)  MilT == Whole(MilData)    MaxiT == Whole(MaxiData)

\* integer part of a number, limited to lo .. hi (small integers)
Cell(s, lo, hi) ==
  CHOOSE k \in lo .. hi : /\ k = lo \/ FLe(FInt(k), s)
                          /\ k = hi \/ FLt(s, FInt(k + 1))
Lerp(a, b, d) == FAdd(a, FMul(d, FSub(b, a)))
\* row of values at the integers lo, lo+1, ..., as a function of s: linear in every cell, the outermost cells extended
Interp(row, lo, s) ==
  LET k == Cell(s, lo, lo + Len(row) - 2)
      i == k - lo + 1
  IN  Lerp(row[i], row[i + 1], FSub(s, FInt(k)))
Interp2(T, lor, loc, r, s) ==
  LET k == Cell(r, lor, lor + Len(T) - 2)
      i == k - lor + 1
  IN  Lerp(Interp(T[i], loc, s), Interp(T[i + 1], loc, s), FSub(r, FInt(k)))

Fifth(alpha) == FDivI(alpha, 5)
OddBeta(T, alpha, beta) ==
  LET v == Interp2(T, 0, -2, FDivI(FAbs(beta), 5), Fifth(alpha)) IN IF FSgn(beta) < 0 THEN FNeg(v) ELSE v
Cl(alpha, beta) == OddBeta(ClT, alpha, beta)
Cn(alpha, beta) == OddBeta(CnT, alpha, beta)
Cm(alpha, el) == Interp2(CmT, -2, -2, FDivI(el, 12), Fifth(alpha))
Cx(alpha, el) == Interp2(CxT, -2, -2, FDivI(el, 12), Fifth(alpha))
Cz(alpha, beta, el) ==
  FSub(FMul(Interp(CzT, -2, Fifth(alpha)), FSub(FOne, FSqr(FDiv(beta, D(573, -1))))), FMul(D(19, -2), FDivI(el, 25)))
Cy(beta, ail, rdr) == FSum(<<FMul(D(-2, -2), beta), FMul(D(21, -3), FDivI(ail, 20)), FMul(D(86, -3), FDivI(rdr, 30))>>)
Control(T, alpha, beta) == Interp2(T, -3, -2, FDivI(beta, 10), Fifth(alpha))
Dlda(alpha, beta) == Control(DldaT, alpha, beta)
Dldr(alpha, beta) == Control(DldrT, alpha, beta)
Dnda(alpha, beta) == Control(DndaT, alpha, beta)
Dndr(alpha, beta) == Control(DndrT, alpha, beta)
Damp(alpha) == TLCEval([i \in 1 .. 9 |-> Interp(DamppT[i], -2, Fifth(alpha))])

-----------------------------------------------------------------------------
\* engine
P77 == <<1, 0, 20992, 15728, 11796, 25231>>   \* the double nearest to 0.77
Gear(th) == IF FLe(th, P77) THEN FMul(D(6494, -2), th) ELSE FSub(FMul(D(21738, -2), th), D(11738, -2))
Fifty == FInt(50)
Rtau(dp) == IF FLe(dp, FInt(25)) THEN FOne
            ELSE IF FLe(Fifty, dp) THEN D(1, -1)
            ELSE FSub(D(19, -1), FMul(D(36, -3), dp))
\* level towards which the engine moves from power p under command cmd, and the rate constant
Target(p, cmd) == IF FLe(Fifty, cmd) THEN (IF FLe(Fifty, p) THEN cmd ELSE FInt(60))
                  ELSE (IF FLe(Fifty, p) THEN FInt(40) ELSE cmd)
Speed(p, cmd) == IF FLe(Fifty, p) THEN FInt(5) ELSE Rtau(FSub(Target(p, cmd), p))
Pdot(p, cmd) == FMul(Speed(p, cmd), FSub(Target(p, cmd), p))

\* thrust: rows over Mach number (fifths), columns over altitude (10000 ft)
Level(T, h, rm) ==
  LET m == Cell(rm, 0, 4) i == Cell(h, 0, 4)
      c(k) == Lerp(T[k][i + 1], T[k][i + 2], FSub(h, FInt(i)))
  IN  Lerp(c(m + 1), c(m + 2), FSub(rm, FInt(m)))
Thrust(power, alt, mach) ==
  LET h == FDivI(FMax(alt, FZero), 10000)
      rm == BMul(<<1, 5>>, mach)
      mil == Level(MilT, h, rm)
  IN  IF FLt(power, Fifty) THEN Lerp(Level(IdleT, h, rm), mil, FDivI(power, 50))
      ELSE Lerp(mil, Level(MaxiT, h, rm), FDivI(FSub(power, Fifty), 50))

\* air data: Mach number and dynamic pressure
Tfac(alt) == FSub(FOne, FMul(D(703, -8), alt))
Temp(alt) == IF FLe(FInt(35000), alt) THEN FInt(390) ELSE BMul(<<1, 519>>, Tfac(alt))
Adc(vt, alt) ==
  <<FDiv(vt, FSqrt(FMul(D(240282, -2), Temp(alt)))),
    FMul(FMul(D(11885, -7), FPow(Tfac(alt), D(414, -2))), FSqr(vt))>>

-----------------------------------------------------------------------------
\* polynomial model: coefficients
Ka == << D(-1943367, -8), D(2136104, -7), D(-2903457, -7), D(-3348641, -9), D(-2060504, -7), D(6988016, -7), D(-9035381, -7) >>
Kb == << D(4833383, -7), D(8644627, -6), D(1131098, -5), D(-7422961, -5), D(6075776, -5) >>
Kc == << D(-1145916, -6), D(6016057, -8), D(1642479, -7) >>
Kd == << D(-1006733, -7), D(8679799, -7), D(4260586, -6), D(-6923267, -6) >>
Ke == << D(8071648, -7), D(1189633, -7), D(4177702, -6), D(-9162236, -6) >>
Kf == << D(-1378278, -7), D(-4211369, -6), D(4775187, -6), D(-1026225, -5), D(8399763, -6), D(-4354, -4) >>
Kg == << D(-3054956, -5), D(-4132305, -5), D(3292788, -4), D(-6848038, -4), D(4080244, -4) >>
Kh == << D(-105853, -6), D(-5776677, -7), D(-1672435, -8), D(1357256, -7), D(2172952, -7), D(3464156, -6), D(-2835451, -6), D(-1098104, -6) >>
Ki == << D(-4126806, -7), D(-1189974, -7), D(1247721, -6), D(-7391132, -7) >>
Kj == << D(6250437, -8), D(6067723, -7), D(-1101964, -6), D(9100087, -6), D(-1192672, -5) >>
Kk == << D(-1463144, -7), D(-407391, -7), D(3253159, -8), D(4851209, -7), D(297885, -6), D(-3746393, -7), D(-3213068, -7) >>
Kl == << D(2635729, -8), D(-219291, -7), D(-3152901, -9), D(-5817803, -8), D(4516159, -7), D(-4928702, -7), D(-1579864, -8) >>
Km == << D(-202937, -7), D(4660702, -8), D(-6012308, -7), D(-8062977, -8), D(8320429, -8), D(5018538, -7), D(6378864, -7), D(4226356, -7) >>
Kn == << D(-519153, -5), D(-3554716, -6), D(-3598636, -5), D(2247355, -4), D(-4120991, -4), D(241175, -3) >>
Ko == << D(2993363, -7), D(6594004, -8), D(-2003125, -7), D(-6233977, -8), D(-2107885, -6), D(214142, -5), D(8476901, -7) >>
Kp == << D(2677652, -8), D(-3298246, -7), D(1926178, -7), D(4013325, -6), D(-4404302, -6) >>
Kq == << D(-3698756, -7), D(-1167551, -7), D(-7641297, -7) >>
Kr == << D(-3348717, -8), D(4276655, -8), D(6573646, -9), D(3535831, -7), D(-1373308, -6), D(1237582, -6), D(2302543, -7), D(-2512876, -7), D(1588105, -7), D(-5199526, -7) >>
Ks == << D(-8115894, -8), D(-115658, -7), D(2514167, -8), D(2038748, -7), D(-3337476, -7), D(1004297, -7) >>

\* sum of coefficients times monomials a^i b^j (c^k)
Pw(a, n) == CASE n = 0 -> FOne [] n = 1 -> a [] n = 2 -> FSqr(a) [] n = 3 -> FMul(a, FSqr(a)) [] n = 4 -> FSqr(FSqr(a))
              [] OTHER -> FMul(a, FSqr(FSqr(a)))
Poly(K, a) == FoldLeft(LAMBDA acc, i : FAdd(K[Len(K) + 1 - i], FMul(a, acc)), FZero, [i \in 1 .. Len(K) |-> i])
Mono(K, a, b, E) == FSum([i \in 1 .. Len(K) |-> FMul(K[i], FMul(Pw(a, E[i][1]), Pw(b, E[i][2])))])
Rad(d) == FDivI(FMulI(FPi, d), 180)
RadQ(d, q) == FDivI(FMulI(FPi, d), 180 * q)
Morelli(al0, be0, el0, ai0, ru0, p, q, r, cbar, b, V, xcg, ref) ==
  LET al == FClamp(al0, Rad(-10), Rad(45))   be == FClamp(be0, Rad(-30), Rad(30))
      de == FClamp(el0, Rad(-25), Rad(25))   da == FClamp(ai0, RadQ(-43, 2), RadQ(43, 2))
      dr == FClamp(ru0, Rad(-30), Rad(30))
      V2 == FAdd(V, V)
      ph == FDiv(FMul(p, b), V2)  qh == FDiv(FMul(q, cbar), V2)  rh == FDiv(FMul(r, b), V2)
      dx == FSub(ref, xcg)
      CX == FAdd(FSum(<<Ka[1], FMul(Ka[2], al), FMul(Ka[3], FSqr(de)), FMul(Ka[4], de), FMul(Ka[5], FMul(al, de)),
                        FMul(Ka[6], FSqr(al)), FMul(Ka[7], Pw(al, 3))>>), FMul(Poly(Kb, al), qh))
      CY == FSum(<<FMul(Kc[1], be), FMul(Kc[2], da), FMul(Kc[3], dr), FMul(Poly(Kd, al), ph), FMul(Poly(Ke, al), rh)>>)
      CZ == FSum(<<FMul(Poly(SubSeq(Kf, 1, 5), al), FSub(FOne, FSqr(be))), FMul(Kf[6], de), FMul(Poly(Kg, al), qh)>>)
      Cl0 == Mono(Kh, al, be, <<<<0, 1>>, <<1, 1>>, <<2, 1>>, <<0, 2>>, <<1, 2>>, <<3, 1>>, <<4, 1>>, <<2, 2>>>>)
      Clda == Mono(Kk, al, be, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<2, 1>>, <<3, 0>>>>)
      Cldr == Mono(Kl, al, be, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<0, 2>>>>)
      CL == FSum(<<Cl0, FMul(Poly(Ki, al), ph), FMul(Poly(Kj, al), rh), FMul(Clda, da), FMul(Cldr, dr)>>)
      Cm0 == Mono(Km, al, de, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<2, 1>>, <<0, 3>>, <<1, 2>>>>)
      CM == FSum(<<Cm0, FMul(Poly(Kn, al), qh), FMul(CZ, dx)>>)
      Cn0 == Mono(Ko, al, be, <<<<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>>>)
      Cnda == Mono(Kr, al, be, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<2, 0>>, <<3, 0>>, <<0, 3>>, <<1, 3>>>>)
      Cndr == Mono(Ks, al, be, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<2, 0>>>>)
      CN == FSum(<<Cn0, FMul(Poly(Kp, al), ph), FMul(Poly(Kq, al), rh), FMul(Cnda, da), FMul(Cndr, dr),
                   FNeg(FDiv(FMul(FMul(CY, dx), cbar), b))>>)
  IN  <<CX, CY, CZ, CL, CM, CN>>

-----------------------------------------------------------------------------
\* rigid-body equations of motion; x: VT alpha beta phi theta psi P Q R pn pe h pow; u: throttle, elevator, aileron, rudder (degrees)
Xcg == D(35, -2)  Area == FInt(300)  Span == FInt(30)  Chord == D(1132, -2)  InvMass == D(157, -5)  He == FInt(160)
C1 == D(-770, -3)  C2 == D(2755, -5)  C3 == D(1055, -7)  C4 == D(1642, -9)  C5 == D(9604, -4)  C6 == D(1759, -5)
C7 == D(1792, -8)  C8 == D(-7336, -4)  C9 == D(1587, -8)
Deg57 == D(5729578, -5)
Grav == D(3217, -2)
Eom(x, u, model, shift) ==
  LET vt == x[1]  al == FMul(x[2], Deg57)  be == FMul(x[3], Deg57)
      ph == x[4]  th == x[5]  ps == x[6]  p == x[7]  q == x[8]  r == x[9]
      air == Adc(vt, x[12])
      T == Thrust(x[13], x[12], air[1])
      S == IF model = "stevens"
           THEN LET dail == FDivI(u[3], 20) drdr == FDivI(u[4], 30)
                IN  <<Cx(al, u[2]), Cy(be, u[3], u[4]), Cz(al, be, u[2]),
                      FSum(<<Cl(al, be), FMul(Dlda(al, be), dail), FMul(Dldr(al, be), drdr)>>),
                      Cm(al, u[2]),
                      FSum(<<Cn(al, be), FMul(Dnda(al, be), dail), FMul(Dndr(al, be), drdr)>>)>>
           ELSE LET rad(d) == FDivI(FMul(d, FPi), 180)
                IN  Morelli(rad(al), rad(be), rad(u[2]), rad(u[3]), rad(u[4]), p, q, r, Chord, Span, vt, Xcg, Xcg)
      d == Damp(al)
      half == FDiv(FHalf, vt)
      b2v == FMul(Span, half)
      cq == FMul(FMul(Chord, q), half)
      cxt == FAdd(S[1], FMul(cq, d[1]))
      cyt == FAdd(S[2], FMul(b2v, FAdd(FMul(d[2], r), FMul(d[3], p))))
      czt == FAdd(S[3], FMul(cq, d[4]))
      clt == FAdd(S[4], FMul(b2v, FAdd(FMul(d[5], r), FMul(d[6], p))))
      cmt == FAdd(S[5], FMul(cq, d[7]))
      cnt == FAdd(S[6], FMul(b2v, FAdd(FMul(d[8], r), FMul(d[9], p))))
      ca == FCos(x[2]) sa == FSin(x[2]) cb == FCos(x[3]) sb == FSin(x[3])
      U == FMul(FMul(vt, ca), cb)  V == FMul(vt, sb)  W == FMul(FMul(vt, sa), cb)
      sth == FSin(th) cth == FCos(th) sph == FSin(ph) cph == FCos(ph) sps == FSin(ps) cps == FCos(ps)
      qs == FMul(air[2], Area)
      qsb == FMul(qs, Span)
      ay == FMul(FMul(InvMass, qs), cyt)
      az == FMul(FMul(InvMass, qs), czt)
      udot == FSum(<<FMul(r, V), FNeg(FMul(q, W)), FNeg(FMul(Grav, sth)), FMul(InvMass, FAdd(FMul(qs, cxt), T))>>)
      vdot == FSum(<<FMul(p, W), FNeg(FMul(r, U)), FMul(FMul(Grav, cth), sph), ay>>)
      wdot == FSum(<<FMul(q, U), FNeg(FMul(p, V)), FMul(FMul(Grav, cth), cph), az>>)
      dum == FAdd(FSqr(U), FSqr(W))
      vtd == FDiv(FSum(<<FMul(U, udot), FMul(V, vdot), FMul(W, wdot)>>), vt)
      aldot == FDiv(FSub(FMul(U, wdot), FMul(W, udot)), dum)
      bedot == FDiv(FMul(FSub(FMul(vt, vdot), FMul(V, vtd)), cb), dum)
      turn == FAdd(FMul(q, sph), FMul(r, cph))
      psdot == FDiv(turn, cth)
      phdot == FAdd(p, FMul(psdot, sth))
      thdot == FSub(FMul(q, cph), FMul(r, sph))
      pd == FAdd(FMul(FSum(<<FMul(C2, p), FMul(C1, r), FMul(C4, He)>>), q), FMul(qsb, FAdd(FMul(C3, clt), FMul(C4, cnt))))
      qd == FSum(<<FMul(FSub(FMul(C5, p), FMul(C7, He)), r), FMul(C6, FSub(FSqr(r), FSqr(p))), FMul(FMul(FMul(qs, Chord), C7), cmt)>>)
      rd == FAdd(FMul(FSum(<<FMul(C8, p), FNeg(FMul(C2, r)), FMul(C9, He)>>), q), FMul(qsb, FAdd(FMul(C4, clt), FMul(C9, cnt))))
      \* body axes in the north-east-down frame
      north == FSum(<<FMul(U, FMul(cth, cps)), FMul(V, FSub(FMul(FMul(sph, sth), cps), FMul(cph, sps))),
                      FMul(W, FAdd(FMul(FMul(cph, sth), cps), FMul(sph, sps)))>>)
      east == FSum(<<FMul(U, FMul(cth, sps)), FMul(V, FAdd(FMul(FMul(sph, sth), sps), FMul(cph, cps))),
                     FMul(W, FSub(FMul(FMul(cph, sth), sps), FMul(sph, cps)))>>)
      up == FSum(<<FMul(U, sth), FNeg(FMul(V, FMul(sph, cth))), FNeg(FMul(W, FMul(cph, cth)))>>)
      az2 == FSub(az, FMul(FInt(15), qd))
      ay2 == IF shift THEN FAdd(ay, FMul(FInt(15), rd)) ELSE ay
  IN  [xd |-> <<vtd, aldot, bedot, phdot, thdot, psdot, pd, qd, rd, north, east, up, Pdot(x[13], Gear(u[1]))>>,
       Nz |-> FSub(FDiv(FNeg(az2), Grav), FOne), Ny |-> FDiv(ay2, Grav), az |-> az2, ay |-> ay2]

-----------------------------------------------------------------------------
\* low-level controller
KLong == <<FAdd(D(-156880150, -6), D(-6723475, -13)), FAdd(D(-31037008, -6), D(-68526642, -15)), FAdd(D(-38729833, -6), D(-46216317, -14))>>
KAil == <<D(3784483, -5), D(-2540956, -5), D(-682876, -5), D(-33288343, -5), D(-1715997, -5)>>
KRud == <<D(-2391233, -5), D(569968, -5), D(-2163431, -5), D(6449490, -5), D(-8836203, -5)>>
XEq == <<FInt(502), D(389, -4), FZero, FZero, D(389, -4), FZero, FZero, FZero, FZero, FZero, FZero, FInt(1000), D(90567, -4)>>
UEq == <<D(1395, -4), D(-7496, -4), FZero, FZero>>
\* deviations in the order of the controller: alpha, q, int Nz, beta, p, r, int ps, int Ny+r
Deviation(x) == [k \in 1 .. 8 |-> LET i == <<2, 8, 14, 3, 7, 9, 15, 16>>[k] IN IF i <= 13 THEN FSub(x[i], XEq[i]) ELSE x[i]]
SurfaceLo == <<FZero, FInt(-25), D(-215, -1), FInt(-30)>>
SurfaceHi == <<FOne, FInt(25), D(215, -1), FInt(30)>>
Surfaces(uref, x, lo, hi) ==
  LET d == Deviation(x)
      w == <<FAdd(UEq[1], uref[4]),
             FSub(UEq[2], VDot(KLong, SubSeq(d, 1, 3))),
             FSub(UEq[3], VDot(KAil, SubSeq(d, 4, 8))),
             FSub(UEq[4], VDot(KRud, SubSeq(d, 4, 8)))>>
  IN  [i \in 1 .. 4 |-> FClamp(w[i], lo[i], hi[i])]
TrackErrors(uref, nz, ps, nyr) == <<FSub(nz, uref[1]), FSub(ps, uref[2]), FSub(nyr, uref[3])>>

\* closed loop: derivative of the 16 states, surfaces in radians followed by the references, and the tracked outputs
Closed(x, uref, model, v2) ==
  LET u == Surfaces(uref, x, SurfaceLo, SurfaceHi)
      m == TLCEval(Eom(SubSeq(x, 1, 13), u, model, TRUE))
      d == Deviation(x)
      ps == IF v2 THEN FAdd(FMul(m.xd[7], FCos(m.xd[2])), FMul(m.xd[9], FSin(m.xd[2])))
            ELSE FAdd(FMul(d[5], FCos(d[1])), FMul(d[6], FSin(d[1])))
      nyr == FAdd(m.Ny, IF v2 THEN m.xd[9] ELSE d[6])
  IN  [xd |-> m.xd \o TrackErrors(uref, m.Nz, ps, nyr),
       u |-> <<u[1]>> \o [i \in 1 .. 3 |-> FDivI(FMul(u[i + 1], FPi), 180)] \o SubSeq(uref, 1, 3),
       nz |-> m.Nz, ps |-> ps, nyr |-> nyr]

-----------------------------------------------------------------------------
\* trim: const = radgam, singam, rr, pr, tr, phi, cphi, sphi, thetadot, coord, stab; orient separately
Constrained(x, u, k, orient) ==
  LET y == [x EXCEPT ![13] = Gear(u[1])]
      lvl(th, q) == [y EXCEPT ![4] = k[6], ![5] = th, ![7] = k[3], ![8] = q, ![9] = FZero]
  IN CASE orient = 1 -> lvl(x[2], k[4])
       [] orient = 2 -> lvl(FAdd(x[2], k[1]), k[4])
       [] orient = 3 -> [y EXCEPT ![7] = FNeg(FMul(k[5], FSin(x[5]))),
                                  ![8] = FMul(k[5], FMul(FCos(x[5]), FSin(x[4]))),
                                  ![9] = FMul(k[5], FMul(FCos(x[5]), FCos(x[4])))]
       [] orient = 4 -> lvl(x[2], k[9])
       [] OTHER -> y
\* placement of the optimisation vector
PlaceU(s, u) == IF Len(s) = 3 THEN [u EXCEPT ![1] = s[1], ![2] = s[2]] ELSE SubSeq(s, 1, 4)
PlaceX(s, x) == IF Len(s) = 3 THEN [x EXCEPT ![2] = s[3]] ELSE [x EXCEPT ![2] = s[5], ![4] = s[6], ![5] = s[7]]
SqSum(xd, ix) == FSum([i \in 1 .. Len(ix) |-> FSqr(xd[ix[i]])])
\* weighted sum of squared residuals at the constrained state
Residual(x, xd, k, orient) ==
  LET W(w, v) == FMul(FInt(w), v)
      rates == SqSum(xd, <<7, 8, 9>>)
      wind == SqSum(xd, <<2, 3>>)
  IN CASE orient = 1 -> W(100, FSum(<<FSqr(xd[1]), wind, rates>>))
       [] orient = 2 -> FSum(<<W(500, FSqr(FSub(xd[12], FMul(x[1], k[2])))), FSqr(xd[1]), W(100, wind), W(10, rates)>>)
       [] orient = 3 -> FSum(<<FSqr(xd[1]), W(100, FAdd(wind, FSqr(xd[12]))), W(10, rates), W(500, FSqr(FSub(xd[6], k[5])))>>)
       [] OTHER -> FSum(<<W(500, FSqr(FSub(xd[5], k[9]))), FSqr(xd[1]), W(100, wind), W(10, rates)>>)
=============================================================================
