------------------------------- MODULE Arith -------------------------------
(* Integer arithmetic used by every module of the specification.            *)
(* TLC's integers are 32 bits wide, so lengths are integers in units of     *)
(* 10^-5 mm, angles are integers in units of 2^-27 rad, and everything that *)
(* needs a product of two lengths is done with CORDIC rotations or with     *)
(* limbs.  CORDIC multiplies every vector by the constant gain              *)
(* K = 1.6467602...; distances are compared gain against gain.              *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

POW2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
           32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
           8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
           536870912, 1073741824 >>
P2(k) == POW2[k + 1]
POW10 == << 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000 >>
P10(k) == POW10[k + 1]

(* atan(2^-k) in units of 2^-27 rad, k = 0 .. 27 *)
ATAN == << 105414357, 62229729, 32880480, 16690645, 8377711, 4192939, 2096981, 1048555, 524285, 262144, 131072, 65536, 32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1 >>
PI27 == 421657428
TWOPI27 == 843314857
HALFPI27 == 210828714

(* the largest s with max(|x|,|y|) * 2^s < 2^27 *)
RECURSIVE NormFrom(_, _)
NormFrom(m, s) == IF m >= 67108864 THEN s ELSE NormFrom(m * 2, s + 1)
NormShift(m) == IF m = 0 THEN 0 ELSE NormFrom(m, 0)

(* vectoring: rotate (x, y), x >= 0, onto the x axis, and (u, v) with it *)
RECURSIVE Vec(_, _, _, _, _)
Vec(k, x, y, u, v) ==
  IF k = 28 THEN << x, y, u, v >>
  ELSE LET p == P2(k)
       IN IF y > 0 THEN Vec(k + 1, x + (y \div p), y - (x \div p), u + (v \div p), v - (u \div p))
                   ELSE Vec(k + 1, x - (y \div p), y + (x \div p), u - (v \div p), v + (u \div p))

(* vectoring with the angle turned through *)
RECURSIVE VecA(_, _, _, _)
VecA(k, x, y, a) ==
  IF k = 28 THEN << x, a >>
  ELSE LET p == P2(k)
       IN IF y > 0 THEN VecA(k + 1, x + (y \div p), y - (x \div p), a + ATAN[k + 1])
                   ELSE VecA(k + 1, x - (y \div p), y + (x \div p), a - ATAN[k + 1])

(* K * |(x, y)| * 2^s.  The caller keeps |(x,y)| * 2^s below 2^30 *)
RECURSIVE VecG(_, _, _)
VecG(k, x, y) ==
  IF k = 28 THEN x
  ELSE LET p == P2(k)
       IN IF y > 0 THEN VecG(k + 1, x + (y \div p), y - (x \div p))
                   ELSE VecG(k + 1, x - (y \div p), y + (x \div p))
Gain(x, y) == VecG(0, Abs(x), Abs(y))
GainS(x, y, s) == Gain(x * P2(s), y * P2(s))

(* the angle of (x, y) in (-pi, pi], units of 2^-27 rad *)
Atan2(y, x) ==
  IF x = 0 /\ y = 0 THEN 0
  ELSE LET s  == NormShift(Max2(Abs(x), Abs(y)))
           xx == x * P2(s)
           yy == y * P2(s)
       IN IF x >= 0 THEN VecA(0, xx, yy, 0)[2]
          ELSE IF y >= 0 THEN VecA(0, -xx, -yy, 0)[2] + PI27
                         ELSE VecA(0, -xx, -yy, 0)[2] - PI27
WrapPi(a) == IF a > PI27 THEN a - TWOPI27 ELSE IF a <= -PI27 THEN a + TWOPI27 ELSE a

(* a * b / 2^30 for 0 <= a, b < 2^30 *)
Mul30(a, b) ==
  LET a1 == a \div 32768  a0 == a % 32768
      b1 == b \div 32768  b0 == b % 32768
  IN a1 * b1 + (a1 * b0 + a0 * b1) \div 32768

(* |(x, y)| in the unit of x and y (error about 2^-20 relative, plus a few units) *)
Hypot(x, y) ==
  LET m == Max2(Abs(x), Abs(y))
      s == NormShift(m)
      g == GainS(x, y, s)
  IN IF m = 0 THEN 0 ELSE Mul30(g, 652032874) \div P2(s)
(* floor(a * b / c) for 0 <= a, b < 2^31, 0 < c < 2^30 and a result below 2^31:        *)
(* binary multiplication with a running remainder                                      *)
RECURSIVE MD(_, _, _, _, _, _)
MD(k, a, ar, b, c, acc) ==
  (* acc = <<q, r>> with (b's upper bits) * a = q * c + r; a = aq * c + ar *)
  IF k < 0 THEN acc[1]
  ELSE LET bit == (b \div P2(k)) % 2
           q2 == 2 * acc[1]
           r2 == 2 * acc[2]
           q3 == IF r2 >= c THEN q2 + 1 ELSE q2
           r3 == IF r2 >= c THEN r2 - c ELSE r2
           r4 == IF bit = 1 THEN r3 + ar ELSE r3
           q4 == IF bit = 1 THEN q3 + (a \div c) ELSE q3
       IN MD(k - 1, a, ar, b, c, << IF r4 >= c THEN q4 + 1 ELSE q4, IF r4 >= c THEN r4 - c ELSE r4 >>)
RECURSIVE TopBit(_, _)
TopBit(b, k) == IF k < 0 THEN -1 ELSE IF b >= P2(k) THEN k ELSE TopBit(b, k - 1)
\* the same by limbs for c = 2^27 and a, b < 2^30
Mul27(a, b) ==
  LET a1 == a \div 32768  a0 == a % 32768
      b1 == b \div 32768  b0 == b % 32768
  IN a1 * b1 * 8 + (a1 * b0 + a0 * b1 + (a0 * b0) \div 32768) \div 4096
MulDiv(a, b, c) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF b <= 2147483647 \div a THEN (a * b) \div c
  ELSE IF c = 134217728 /\ a < 1073741824 /\ b < 1073741824 THEN Mul27(a, b)
  ELSE MD(TopBit(b, 30), a, a % c, b, c, << 0, 0 >>)

(* exact comparison of x^2 + y^2 with r^2 (limbs of 2^15): -1, 0, 1 *)
SqHi(a) == LET h == a \div 32768 IN h * h
SqMid(a) == LET h == a \div 32768  l == a % 32768 IN 2 * h * l
SqLo(a) == LET l == a % 32768 IN l * l
(* normal form <<hi, mid, lo>> of a^2 with mid, lo < 2^15 *)
NormSq(h, m, l) ==
  LET l1 == l % 32768
      m1 == m + (l \div 32768)
  IN << h + (m1 \div 32768), m1 % 32768, l1 >>
CmpSq(x, y, r) ==
  LET ax == Abs(x)  ay == Abs(y)
      px == NormSq(SqHi(ax), SqMid(ax), SqLo(ax))
      py == NormSq(SqHi(ay), SqMid(ay), SqLo(ay))
      a  == NormSq(px[1] + py[1], px[2] + py[2], px[3] + py[3])
      b  == NormSq(SqHi(r), SqMid(r), SqLo(r))
  IN IF a[1] # b[1] THEN Sgn(a[1] - b[1])
     ELSE IF a[2] # b[2] THEN Sgn(a[2] - b[2])
     ELSE Sgn(a[3] - b[3])
=============================================================================
