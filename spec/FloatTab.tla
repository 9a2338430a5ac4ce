------------------------------ MODULE FloatTab ------------------------------
EXTENDS Integers, Sequences
(* Generated by tools/mkfloat.py, checked by MC_FloatTab: limits of the formats *)
(* and repeated squares, as 32-digit decimal floats (see StrNum).               *)
Squares2 == <<
  [l |-> <<2, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<4, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<16, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<256, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<6, 5536, 0, 0, 0, 0, 0, 0>>, x |-> 2],
  [l |-> <<42, 9496, 7296, 0, 0, 0, 0, 0>>, x |-> 3],
  [l |-> <<1844, 6744, 737, 955, 1616, 0, 0, 0>>, x |-> 5],
  [l |-> <<340, 2823, 6692, 938, 4634, 6337, 4607, 4317>>, x |-> 10],
  [l |-> <<11, 5792, 892, 3731, 6195, 4235, 7098, 5008>>, x |-> 20],
  [l |-> <<134, 780, 7929, 9425, 9709, 9574, 249, 9820>>, x |-> 39],
  [l |-> <<1, 7976, 9313, 4862, 3159, 772, 9305, 1907>>, x |-> 78],
  [l |-> <<3, 2317, 60, 7131, 1007, 3007, 1487, 6688>>, x |-> 155],
  [l |-> <<10, 4438, 8881, 4131, 5250, 6691, 7527, 1071>>, x |-> 309],
  [l |-> <<109, 748, 1356, 1941, 5929, 4629, 8424, 4733>>, x |-> 617],
  [l |-> <<1, 1897, 3149, 5357, 2317, 6508, 5759, 3266>>, x |-> 1234]
>>
Squares5 == <<
  [l |-> <<5, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<25, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<625, 0, 0, 0, 0, 0, 0, 0>>, x |-> 1],
  [l |-> <<39, 625, 0, 0, 0, 0, 0, 0>>, x |-> 2],
  [l |-> <<1525, 8789, 625, 0, 0, 0, 0, 0>>, x |-> 3],
  [l |-> <<232, 8306, 4365, 3869, 6289, 625, 0, 0>>, x |-> 6],
  [l |-> <<5, 4210, 1086, 2427, 5221, 7003, 7264, 43>>, x |-> 12],
  [l |-> <<29, 3873, 5877, 557, 1876, 9921, 8413, 4305>>, x |-> 23],
  [l |-> <<863, 6168, 5550, 9444, 4625, 3863, 5186, 2800>>, x |-> 45],
  [l |-> <<74, 5834, 731, 2002, 674, 3290, 9653, 1546>>, x |-> 90],
  [l |-> <<5562, 6846, 4626, 8003, 4577, 2558, 1793, 3310>>, x |-> 179],
  [l |-> <<3094, 3460, 4738, 2578, 2754, 8018, 3369, 9711>>, x |-> 358],
  [l |-> <<957, 4977, 4609, 5218, 5357, 9467, 3101, 2280>>, x |-> 716],
  [l |-> <<91, 6801, 9337, 7742, 3582, 8107, 619, 6024>>, x |-> 1432],
  [l |-> <<8405, 2578, 5778, 233, 7656, 5669, 4543, 3043>>, x |-> 2863]
>>
\* w bytes; relative tolerance tk * 10^tp; least normal and largest finite magnitude; min * 1.001; max * 10^-5
Fmt_float == [w |-> 4, tk |-> 2, tp |-> -6,
  min |-> [l |-> <<117, 5494, 3508, 2228, 7507, 9687, 3653, 7222>>, x |-> -9],
  max |-> [l |-> <<340, 2823, 4663, 8528, 8598, 1170, 4183, 4845>>, x |-> 10],
  minhi |-> [l |-> <<117, 6669, 8451, 7310, 9795, 4767, 527, 3759>>, x |-> -9],
  maxnear |-> [l |-> <<34, 282, 3466, 3852, 8859, 8117, 418, 3484>>, x |-> 9]]
Fmt_double == [w |-> 8, tk |-> 1, tp |-> -14,
  min |-> [l |-> <<2, 2250, 7385, 8507, 2013, 8309, 232, 7173>>, x |-> -76],
  max |-> [l |-> <<1, 7976, 9313, 4862, 3157, 814, 5274, 2373>>, x |-> 78],
  minhi |-> [l |-> <<2, 2272, 9893, 2365, 7085, 8447, 3322, 9500>>, x |-> -76],
  maxnear |-> [l |-> <<1797, 6931, 3486, 2315, 7081, 4527, 4237, 3170>>, x |-> 76]]
Fmt_ldouble == [w |-> 10, tk |-> 5, tp |-> -18,
  min |-> [l |-> <<3, 3621, 314, 3112, 935, 626, 2677, 8173>>, x |-> -1232],
  max |-> [l |-> <<1, 1897, 3149, 5357, 2317, 6502, 1263, 8530>>, x |-> 1234],
  minhi |-> [l |-> <<3, 3654, 6524, 6255, 2055, 9976, 8940, 4951>>, x |-> -1232],
  maxnear |-> [l |-> <<1189, 7314, 9535, 7231, 7650, 2126, 3853, 309>>, x |-> 1232]]
\* limbs of a product: 16 limbs; the first two are not both 0 unless a factor is 0
LimbProduct(a, b) ==
  LET
    t16 == a[8]*b[8]
    t15 == a[7]*b[8] + a[8]*b[7] + t16 \div 10000
    t14 == a[6]*b[8] + a[7]*b[7] + a[8]*b[6] + t15 \div 10000
    t13 == a[5]*b[8] + a[6]*b[7] + a[7]*b[6] + a[8]*b[5] + t14 \div 10000
    t12 == a[4]*b[8] + a[5]*b[7] + a[6]*b[6] + a[7]*b[5] + a[8]*b[4] + t13 \div 10000
    t11 == a[3]*b[8] + a[4]*b[7] + a[5]*b[6] + a[6]*b[5] + a[7]*b[4] + a[8]*b[3] + t12 \div 10000
    t10 == a[2]*b[8] + a[3]*b[7] + a[4]*b[6] + a[5]*b[5] + a[6]*b[4] + a[7]*b[3] + a[8]*b[2] + t11 \div 10000
    t9 == a[1]*b[8] + a[2]*b[7] + a[3]*b[6] + a[4]*b[5] + a[5]*b[4] + a[6]*b[3] + a[7]*b[2] + a[8]*b[1] + t10 \div 10000
    t8 == a[1]*b[7] + a[2]*b[6] + a[3]*b[5] + a[4]*b[4] + a[5]*b[3] + a[6]*b[2] + a[7]*b[1] + t9 \div 10000
    t7 == a[1]*b[6] + a[2]*b[5] + a[3]*b[4] + a[4]*b[3] + a[5]*b[2] + a[6]*b[1] + t8 \div 10000
    t6 == a[1]*b[5] + a[2]*b[4] + a[3]*b[3] + a[4]*b[2] + a[5]*b[1] + t7 \div 10000
    t5 == a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1] + t6 \div 10000
    t4 == a[1]*b[3] + a[2]*b[2] + a[3]*b[1] + t5 \div 10000
    t3 == a[1]*b[2] + a[2]*b[1] + t4 \div 10000
    t2 == a[1]*b[1] + t3 \div 10000
  IN <<t2 \div 10000, t2 % 10000, t3 % 10000, t4 % 10000, t5 % 10000, t6 % 10000, t7 % 10000, t8 % 10000, t9 % 10000, t10 % 10000, t11 % 10000, t12 % 10000, t13 % 10000, t14 % 10000, t15 % 10000, t16 % 10000>>
=============================================================================
