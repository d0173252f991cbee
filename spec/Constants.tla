----------------------------- MODULE Constants -----------------------------
(* Digits of the constants the real functions need: limbs (base 10000, least *)
(* significant first) of the value times 10000^n. MCRealMath checks them     *)
(* against series with exact arithmetic, so none of them is taken on trust.  *)
EXTENDS BigInt

\* pi and 2/pi with 400 digits after the point
PiDigits == [s |-> 1, m |-> <<
  6094, 1511, 5194, 1469, 1384, 6652, 8204, 548, 3053, 113, 360, 9259, 3678, 5364, 9171, 2540, 2829, 2096, 5209, 4881, 8817, 3155, 6606, 8700,
  7245, 1273, 4914, 2602, 3607, 1339, 6482, 4326, 1045, 3486, 3460, 6692, 6485, 9145, 190, 2712, 3165, 8678, 2337, 5648, 2847, 4461, 5933, 7566,
  8109, 4428, 8196, 9303, 8954, 2294, 6446, 5559, 2110, 9385, 2701, 8410, 4502, 1117, 2848, 4081, 5359, 3172, 5822, 9550, 4460, 938, 6647, 8230,
  5132, 8086, 8214, 679, 2117, 2534, 348, 8628, 899, 2862, 6406, 781, 5923, 4944, 2097, 1058, 9375, 6939, 1971, 2884, 7950, 3832, 2643, 3846,
  7932, 3589, 9265, 1415, 3>>]
TwoOverPiDigits == [s |-> 1, m |-> <<
  9834, 4155, 5696, 2678, 9146, 2629, 7515, 4608, 9779, 2187, 5851, 6794, 6246, 2299, 8713, 2923, 3593, 3844, 9578, 9390, 9468, 6009, 5773, 9978,
  8923, 2114, 7634, 7513, 3747, 5764, 4819, 5824, 1069, 3476, 7560, 6184, 8637, 9022, 9079, 4568, 9520, 4732, 5160, 6894, 6096, 4495, 6773, 9064,
  8695, 1584, 6957, 7548, 1230, 8770, 9855, 2310, 1029, 6363, 7749, 5986, 9169, 9356, 2679, 6429, 1869, 1151, 3146, 4458, 4738, 5716, 2147, 3183,
  9070, 1370, 2429, 3438, 5012, 1106, 4552, 360, 614, 5369, 7190, 3558, 3762, 669, 9499, 8257, 2961, 3858, 1378, 7448, 9005, 534, 5535, 4307,
  5813, 2367, 1977, 6366>>]
\* ln 2, 1 / ln 2, ln 10 with 80 digits after the point
Ln2Digits == [s |-> 1, m |-> <<
  9471, 9696, 3621, 9339, 94, 680, 5412, 2552, 4360, 13, 755, 6568, 5817, 1214, 7232, 941, 9453, 559, 4718, 6931>>]
InvLn2Digits == [s |-> 1, m |-> <<
  8507, 1811, 9219, 3110, 4069, 5449, 3413, 9859, 4152, 4595, 4266, 2137, 189, 6810, 9924, 735, 9634, 888, 9504, 4426, 1>>]
Ln10Digits == [s |-> 1, m |-> <<
  5248, 6773, 2609, 6757, 9009, 3327, 7603, 7729, 8628, 148, 6011, 4207, 8436, 4546, 7991, 8401, 456, 2994, 8509, 3025, 2>>]
=============================================================================
