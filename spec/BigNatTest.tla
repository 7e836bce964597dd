---- MODULE BigNatTest ----
EXTENDS BigNat
N(x) == OfNat(x)
R == {0, 1, 9999, 10000, 12345, 99999999, 100000000, 7}
ASSUME \A a, b \in R : NAdd(N(a), N(b)) = N(a + b) /\ (a >= b => NSub(N(a), N(b)) = N(a - b))
ASSUME \A a \in R, b \in {0, 1, 3, 20} : NMul(N(a), N(b)) = N(a * b) /\ NMul(N(b), N(a)) = N(a*b)
ASSUME \A a, b \in R : NCmp(N(a), N(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
ASSUME \A a \in R : NHalf(N(a)) = N(a \div 2) /\ NDivSmall(N(a), 7) = N(a \div 7)
ASSUME NMul(N(99999999), N(99999999)) = <<1, 0, 9998, 9999>>
ASSUME NPow(N(10), 12) = <<0, 0, 0, 1>>
ASSUME \A a, b \in {-5, 0, 3, 10001, -20000} : ZAdd(Z(a), Z(b)).m = Z(a+b).m /\ ZSub(Z(a), Z(b)).m = Z(a-b).m /\ ZLe(Z(a), Z(b)) = (a <= b) /\ (ZMul(Z(a), Z(b)).m = Z(a*b).m)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
====
