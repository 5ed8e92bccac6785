---- MODULE ArithTest ----
EXTENDS Arith, TLC
ASSUME Abs(Hypot(30000, 40000) - 50000) <= 1
ASSUME Abs(Hypot(-100000000, 1) - 100000000) <= 100
ASSUME Abs(Hypot(-3, 4) - 5) <= 1
ASSUME MulDiv(2000000000, 999999999, 1000000000) = 1999999998
ASSUME MulDiv(123456789, 987654321, 1000000007) = 121932630
ASSUME CmpSq(30000000, 40000000, 50000000) = 0
ASSUME CmpSq(30000000, 40000000, 50000001) = -1
ASSUME CmpSq(-30000000, 40000001, 50000000) = 1
ASSUME Abs(Atan2(1, 0) - HALFPI27) < 20
ASSUME Abs(Atan2(100, -100) - 316243071) < 20
ASSUME Abs(Atan2(-100, -100) + 316243071) < 20
ASSUME PrintT(<<Hypot(123456,654321), Atan2(12345,-54321), Vec(0,GainS(3,4,10),0,0,0)>>)
VARIABLE x
Init == x = 0
Next == x' = x
====
