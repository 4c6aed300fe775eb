------------------------------ MODULE SelfTest ------------------------------
(* The Java overrides of BigInt agree with its TLA+ definitions on a pseudo- *)
(* random and an edge-case sample; the elementary functions satisfy their    *)
(* defining identities.                                                      *)
EXTENDS Fx, TLC
ASSUME LET mag(i, n) == [j \in 1 .. n |-> (i * 7919 + j * j * 104729 + i * j * 1299) % 32768]
           num(i) == LET n == (i % 9)
                         m == [j \in 1 .. n |-> IF j = n THEN 1 + ((i * 31) % 32767) ELSE mag(i, n)[j]]
                     IN IF n = 0 THEN BZero ELSE <<IF (i \div 3) % 2 = 0 THEN 1 ELSE -1>> \o m
           edge == {BZero, BOne, BNeg(BOne), <<1, 32767>>, <<-1, 32767>>, <<1, 0, 1>>, <<-1, 0, 1>>,
                    <<1, 32767, 32767, 32767>>, <<-1, 0, 0, 0, 1>>, <<1, 1, 0, 0, 1>>}
           S == edge \cup {num(i) : i \in 1 .. 24}
       IN  \A a, b \in S :
             /\ BAdd(a, b) = PAdd(a, b)
             /\ BSub(a, b) = PSub(a, b)
             /\ BMul(a, b) = PMul(a, b)
             /\ BCmp(a, b) = PCmp(a, b)
             /\ BNeg(a) = PNeg(a)
             /\ b # BZero => BDiv(a, b) = PDiv(a, b)
             /\ \A k \in {0, 1, 3} : BShl(a, k) = PShl(a, k) /\ BShr(a, k) = PShr(a, k)
T == D(1, -20)
ASSUME \A n \in -30 .. 30 :
         LET x == FQ(n, 7)
         IN  /\ Close(FAdd(FSqr(FSin(x)), FSqr(FCos(x))), FOne, T, T)
             /\ Close(FSin(FAdd(x, x)), FMulI(FMul(FSin(x), FCos(x)), 2), T, T)
             /\ Close(FSin(FAdd(x, FPi)), FNeg(FSin(x)), T, T)
             /\ n > 0 => Close(FSqr(FSqrt(x)), x, T, T)
             /\ n > 0 => Close(FExp(FLn(x)), x, D(1, -19), D(1, -19))
             /\ Close(FMul(FExp(x), FExp(FNeg(x))), FOne, D(1, -18), D(1, -18))
ASSUME Close(FSin(FQ(1, 2)), D(479425538, -9), D(1, -9), FZero)
ASSUME Close(FPow(FQ(7, 10), D(414, -2)), D(2284051, -7), D(1, -6), FZero)
ASSUME Close(FLn(FInt(2)), FLn2, T, T)
ASSUME FPow2(3) = FInt(8) /\ FRound(FQ(-5, 3)) = BInt(-2) /\ FFloor(FQ(-5, 3)) = BInt(-2)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
