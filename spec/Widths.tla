------------------------------- MODULE Widths -------------------------------
(* Display width of characters; written by tools/mkwidths.py                *)
EXTENDS Integers, Sequences

(* <<first character, width>> of each run of characters of one width        *)
Runs == <<
    <<0, 0>>, <<32, 1>>, <<127, 0>>, <<160, 1>>, <<173, 0>>, <<174, 1>>,
    <<768, 0>>, <<880, 1>>, <<1155, 0>>, <<1162, 1>>, <<1425, 0>>, <<1470, 1>>,
    <<1471, 0>>, <<1472, 1>>, <<1473, 0>>, <<1475, 1>>, <<1476, 0>>, <<1478, 1>>,
    <<1479, 0>>, <<1488, 1>>, <<1536, 0>>, <<1542, 1>>, <<1552, 0>>, <<1563, 1>>,
    <<1564, 0>>, <<1565, 1>>, <<1611, 0>>, <<1632, 1>>, <<1648, 0>>, <<1649, 1>>,
    <<1750, 0>>, <<1758, 1>>, <<1759, 0>>, <<1765, 1>>, <<1767, 0>>, <<1769, 1>>,
    <<1770, 0>>, <<1774, 1>>, <<1807, 0>>, <<1808, 1>>, <<1809, 0>>, <<1810, 1>>,
    <<1840, 0>>, <<1869, 1>>, <<1958, 0>>, <<1969, 1>>, <<2027, 0>>, <<2036, 1>>,
    <<2045, 0>>, <<2046, 1>>, <<2070, 0>>, <<2074, 1>>, <<2075, 0>>, <<2084, 1>>,
    <<2085, 0>>, <<2088, 1>>, <<2089, 0>>, <<2096, 1>>, <<2137, 0>>, <<2142, 1>>,
    <<2192, 0>>, <<2208, 1>>, <<2250, 0>>, <<2307, 1>>, <<2362, 0>>, <<2363, 1>>,
    <<2364, 0>>, <<2365, 1>>, <<2369, 0>>, <<2377, 1>>, <<2381, 0>>, <<2382, 1>>,
    <<2385, 0>>, <<2392, 1>>, <<2402, 0>>, <<2404, 1>>, <<2433, 0>>, <<2434, 1>>,
    <<2492, 0>>, <<2493, 1>>, <<2497, 0>>, <<2503, 1>>, <<2509, 0>>, <<2510, 1>>,
    <<2530, 0>>, <<2534, 1>>, <<2558, 0>>, <<2563, 1>>, <<2620, 0>>, <<2622, 1>>,
    <<2625, 0>>, <<2649, 1>>, <<2672, 0>>, <<2674, 1>>, <<2677, 0>>, <<2678, 1>>,
    <<2689, 0>>, <<2691, 1>>, <<2748, 0>>, <<2749, 1>>, <<2753, 0>>, <<2761, 1>>,
    <<2765, 0>>, <<2768, 1>>, <<2786, 0>>, <<2790, 1>>, <<2810, 0>>, <<2818, 1>>,
    <<2876, 0>>, <<2877, 1>>, <<2879, 0>>, <<2880, 1>>, <<2881, 0>>, <<2887, 1>>,
    <<2893, 0>>, <<2903, 1>>, <<2914, 0>>, <<2918, 1>>, <<2946, 0>>, <<2947, 1>>,
    <<3008, 0>>, <<3009, 1>>, <<3021, 0>>, <<3024, 1>>, <<3072, 0>>, <<3073, 1>>,
    <<3076, 0>>, <<3077, 1>>, <<3132, 0>>, <<3133, 1>>, <<3134, 0>>, <<3137, 1>>,
    <<3142, 0>>, <<3160, 1>>, <<3170, 0>>, <<3174, 1>>, <<3201, 0>>, <<3202, 1>>,
    <<3260, 0>>, <<3261, 1>>, <<3263, 0>>, <<3264, 1>>, <<3270, 0>>, <<3271, 1>>,
    <<3276, 0>>, <<3285, 1>>, <<3298, 0>>, <<3302, 1>>, <<3328, 0>>, <<3330, 1>>,
    <<3387, 0>>, <<3389, 1>>, <<3393, 0>>, <<3398, 1>>, <<3405, 0>>, <<3406, 1>>,
    <<3426, 0>>, <<3430, 1>>, <<3457, 0>>, <<3458, 1>>, <<3530, 0>>, <<3535, 1>>,
    <<3538, 0>>, <<3544, 1>>, <<3633, 0>>, <<3634, 1>>, <<3636, 0>>, <<3647, 1>>,
    <<3655, 0>>, <<3663, 1>>, <<3761, 0>>, <<3762, 1>>, <<3764, 0>>, <<3773, 1>>,
    <<3784, 0>>, <<3792, 1>>, <<3864, 0>>, <<3866, 1>>, <<3893, 0>>, <<3894, 1>>,
    <<3895, 0>>, <<3896, 1>>, <<3897, 0>>, <<3898, 1>>, <<3953, 0>>, <<3967, 1>>,
    <<3968, 0>>, <<3973, 1>>, <<3974, 0>>, <<3976, 1>>, <<3981, 0>>, <<4030, 1>>,
    <<4038, 0>>, <<4039, 1>>, <<4141, 0>>, <<4145, 1>>, <<4146, 0>>, <<4152, 1>>,
    <<4153, 0>>, <<4155, 1>>, <<4157, 0>>, <<4159, 1>>, <<4184, 0>>, <<4186, 1>>,
    <<4190, 0>>, <<4193, 1>>, <<4209, 0>>, <<4213, 1>>, <<4226, 0>>, <<4227, 1>>,
    <<4229, 0>>, <<4231, 1>>, <<4237, 0>>, <<4238, 1>>, <<4253, 0>>, <<4254, 1>>,
    <<4352, 2>>, <<4448, 1>>, <<4957, 0>>, <<4960, 1>>, <<5906, 0>>, <<5909, 1>>,
    <<5938, 0>>, <<5940, 1>>, <<5970, 0>>, <<5984, 1>>, <<6002, 0>>, <<6016, 1>>,
    <<6068, 0>>, <<6070, 1>>, <<6071, 0>>, <<6078, 1>>, <<6086, 0>>, <<6087, 1>>,
    <<6089, 0>>, <<6100, 1>>, <<6109, 0>>, <<6112, 1>>, <<6155, 0>>, <<6160, 1>>,
    <<6277, 0>>, <<6279, 1>>, <<6313, 0>>, <<6314, 1>>, <<6432, 0>>, <<6435, 1>>,
    <<6439, 0>>, <<6441, 1>>, <<6450, 0>>, <<6451, 1>>, <<6457, 0>>, <<6464, 1>>,
    <<6679, 0>>, <<6681, 1>>, <<6683, 0>>, <<6686, 1>>, <<6742, 0>>, <<6743, 1>>,
    <<6744, 0>>, <<6753, 1>>, <<6754, 0>>, <<6755, 1>>, <<6757, 0>>, <<6765, 1>>,
    <<6771, 0>>, <<6784, 1>>, <<6832, 0>>, <<6916, 1>>, <<6964, 0>>, <<6965, 1>>,
    <<6966, 0>>, <<6971, 1>>, <<6972, 0>>, <<6973, 1>>, <<6978, 0>>, <<6979, 1>>,
    <<7019, 0>>, <<7028, 1>>, <<7040, 0>>, <<7042, 1>>, <<7074, 0>>, <<7078, 1>>,
    <<7080, 0>>, <<7082, 1>>, <<7083, 0>>, <<7086, 1>>, <<7142, 0>>, <<7143, 1>>,
    <<7144, 0>>, <<7146, 1>>, <<7149, 0>>, <<7150, 1>>, <<7151, 0>>, <<7154, 1>>,
    <<7212, 0>>, <<7220, 1>>, <<7222, 0>>, <<7227, 1>>, <<7376, 0>>, <<7379, 1>>,
    <<7380, 0>>, <<7393, 1>>, <<7394, 0>>, <<7401, 1>>, <<7405, 0>>, <<7406, 1>>,
    <<7412, 0>>, <<7413, 1>>, <<7416, 0>>, <<7418, 1>>, <<7616, 0>>, <<7680, 1>>,
    <<8203, 0>>, <<8208, 1>>, <<8234, 0>>, <<8239, 1>>, <<8288, 0>>, <<8304, 1>>,
    <<8400, 0>>, <<8448, 1>>, <<8986, 2>>, <<8988, 1>>, <<9001, 2>>, <<9003, 1>>,
    <<9193, 2>>, <<9197, 1>>, <<9200, 2>>, <<9201, 1>>, <<9203, 2>>, <<9204, 1>>,
    <<9725, 2>>, <<9727, 1>>, <<9748, 2>>, <<9750, 1>>, <<9800, 2>>, <<9812, 1>>,
    <<9855, 2>>, <<9856, 1>>, <<9875, 2>>, <<9876, 1>>, <<9889, 2>>, <<9890, 1>>,
    <<9898, 2>>, <<9900, 1>>, <<9917, 2>>, <<9919, 1>>, <<9924, 2>>, <<9926, 1>>,
    <<9934, 2>>, <<9935, 1>>, <<9940, 2>>, <<9941, 1>>, <<9962, 2>>, <<9963, 1>>,
    <<9970, 2>>, <<9972, 1>>, <<9973, 2>>, <<9974, 1>>, <<9978, 2>>, <<9979, 1>>,
    <<9981, 2>>, <<9982, 1>>, <<9989, 2>>, <<9990, 1>>, <<9994, 2>>, <<9996, 1>>,
    <<10024, 2>>, <<10025, 1>>, <<10060, 2>>, <<10061, 1>>, <<10062, 2>>, <<10063, 1>>,
    <<10067, 2>>, <<10070, 1>>, <<10071, 2>>, <<10072, 1>>, <<10133, 2>>, <<10136, 1>>,
    <<10160, 2>>, <<10161, 1>>, <<10175, 2>>, <<10176, 1>>, <<11035, 2>>, <<11037, 1>>,
    <<11088, 2>>, <<11089, 1>>, <<11093, 2>>, <<11094, 1>>, <<11503, 0>>, <<11506, 1>>,
    <<11647, 0>>, <<11648, 1>>, <<11744, 0>>, <<11776, 1>>, <<11904, 2>>, <<12330, 0>>,
    <<12334, 2>>, <<12351, 1>>, <<12353, 2>>, <<12441, 0>>, <<12443, 2>>, <<12872, 1>>,
    <<12880, 2>>, <<19904, 1>>, <<19968, 2>>, <<42192, 1>>, <<42607, 0>>, <<42611, 1>>,
    <<42612, 0>>, <<42622, 1>>, <<42654, 0>>, <<42656, 1>>, <<42736, 0>>, <<42738, 1>>,
    <<43010, 0>>, <<43011, 1>>, <<43014, 0>>, <<43015, 1>>, <<43019, 0>>, <<43020, 1>>,
    <<43045, 0>>, <<43047, 1>>, <<43052, 0>>, <<43056, 1>>, <<43204, 0>>, <<43214, 1>>,
    <<43232, 0>>, <<43250, 1>>, <<43263, 0>>, <<43264, 1>>, <<43302, 0>>, <<43310, 1>>,
    <<43335, 0>>, <<43346, 1>>, <<43360, 2>>, <<43392, 0>>, <<43395, 1>>, <<43443, 0>>,
    <<43444, 1>>, <<43446, 0>>, <<43450, 1>>, <<43452, 0>>, <<43454, 1>>, <<43493, 0>>,
    <<43494, 1>>, <<43561, 0>>, <<43567, 1>>, <<43569, 0>>, <<43571, 1>>, <<43573, 0>>,
    <<43584, 1>>, <<43587, 0>>, <<43588, 1>>, <<43596, 0>>, <<43597, 1>>, <<43644, 0>>,
    <<43645, 1>>, <<43696, 0>>, <<43697, 1>>, <<43698, 0>>, <<43701, 1>>, <<43703, 0>>,
    <<43705, 1>>, <<43710, 0>>, <<43712, 1>>, <<43713, 0>>, <<43714, 1>>, <<43756, 0>>,
    <<43758, 1>>, <<43766, 0>>, <<43777, 1>>, <<44005, 0>>, <<44006, 1>>, <<44008, 0>>,
    <<44009, 1>>, <<44013, 0>>, <<44016, 1>>, <<44032, 2>>, <<55216, 1>>, <<63744, 2>>,
    <<64256, 1>>, <<64286, 0>>, <<64287, 1>>, <<65024, 0>>, <<65040, 2>>, <<65056, 0>>,
    <<65072, 2>>, <<65136, 1>>, <<65279, 0>>, <<65281, 2>>, <<65377, 1>>, <<65504, 2>>,
    <<65512, 1>>, <<65529, 0>>, <<65532, 1>>, <<66045, 0>>, <<66176, 1>>, <<66272, 0>>,
    <<66273, 1>>, <<66422, 0>>, <<66432, 1>>, <<68097, 0>>, <<68112, 1>>, <<68152, 0>>,
    <<68160, 1>>, <<68325, 0>>, <<68331, 1>>, <<68900, 0>>, <<68912, 1>>, <<69291, 0>>,
    <<69293, 1>>, <<69373, 0>>, <<69376, 1>>, <<69446, 0>>, <<69457, 1>>, <<69506, 0>>,
    <<69510, 1>>, <<69633, 0>>, <<69634, 1>>, <<69688, 0>>, <<69703, 1>>, <<69744, 0>>,
    <<69745, 1>>, <<69747, 0>>, <<69749, 1>>, <<69759, 0>>, <<69762, 1>>, <<69811, 0>>,
    <<69815, 1>>, <<69817, 0>>, <<69819, 1>>, <<69821, 0>>, <<69822, 1>>, <<69826, 0>>,
    <<69840, 1>>, <<69888, 0>>, <<69891, 1>>, <<69927, 0>>, <<69932, 1>>, <<69933, 0>>,
    <<69942, 1>>, <<70003, 0>>, <<70004, 1>>, <<70016, 0>>, <<70018, 1>>, <<70070, 0>>,
    <<70079, 1>>, <<70089, 0>>, <<70093, 1>>, <<70095, 0>>, <<70096, 1>>, <<70191, 0>>,
    <<70194, 1>>, <<70196, 0>>, <<70197, 1>>, <<70198, 0>>, <<70200, 1>>, <<70206, 0>>,
    <<70207, 1>>, <<70209, 0>>, <<70272, 1>>, <<70367, 0>>, <<70368, 1>>, <<70371, 0>>,
    <<70384, 1>>, <<70400, 0>>, <<70402, 1>>, <<70459, 0>>, <<70461, 1>>, <<70464, 0>>,
    <<70465, 1>>, <<70502, 0>>, <<70656, 1>>, <<70712, 0>>, <<70720, 1>>, <<70722, 0>>,
    <<70725, 1>>, <<70726, 0>>, <<70727, 1>>, <<70750, 0>>, <<70751, 1>>, <<70835, 0>>,
    <<70841, 1>>, <<70842, 0>>, <<70843, 1>>, <<70847, 0>>, <<70849, 1>>, <<70850, 0>>,
    <<70852, 1>>, <<71090, 0>>, <<71096, 1>>, <<71100, 0>>, <<71102, 1>>, <<71103, 0>>,
    <<71105, 1>>, <<71132, 0>>, <<71168, 1>>, <<71219, 0>>, <<71227, 1>>, <<71229, 0>>,
    <<71230, 1>>, <<71231, 0>>, <<71233, 1>>, <<71339, 0>>, <<71340, 1>>, <<71341, 0>>,
    <<71342, 1>>, <<71344, 0>>, <<71350, 1>>, <<71351, 0>>, <<71352, 1>>, <<71453, 0>>,
    <<71456, 1>>, <<71458, 0>>, <<71462, 1>>, <<71463, 0>>, <<71472, 1>>, <<71727, 0>>,
    <<71736, 1>>, <<71737, 0>>, <<71739, 1>>, <<71995, 0>>, <<71997, 1>>, <<71998, 0>>,
    <<71999, 1>>, <<72003, 0>>, <<72004, 1>>, <<72148, 0>>, <<72156, 1>>, <<72160, 0>>,
    <<72161, 1>>, <<72193, 0>>, <<72203, 1>>, <<72243, 0>>, <<72249, 1>>, <<72251, 0>>,
    <<72255, 1>>, <<72263, 0>>, <<72272, 1>>, <<72273, 0>>, <<72279, 1>>, <<72281, 0>>,
    <<72284, 1>>, <<72330, 0>>, <<72343, 1>>, <<72344, 0>>, <<72346, 1>>, <<72752, 0>>,
    <<72766, 1>>, <<72767, 0>>, <<72768, 1>>, <<72850, 0>>, <<72873, 1>>, <<72874, 0>>,
    <<72881, 1>>, <<72882, 0>>, <<72884, 1>>, <<72885, 0>>, <<72960, 1>>, <<73009, 0>>,
    <<73030, 1>>, <<73031, 0>>, <<73040, 1>>, <<73104, 0>>, <<73107, 1>>, <<73109, 0>>,
    <<73110, 1>>, <<73111, 0>>, <<73112, 1>>, <<73459, 0>>, <<73461, 1>>, <<73472, 0>>,
    <<73474, 1>>, <<73526, 0>>, <<73534, 1>>, <<73536, 0>>, <<73537, 1>>, <<73538, 0>>,
    <<73539, 1>>, <<78896, 0>>, <<78913, 1>>, <<78919, 0>>, <<82944, 1>>, <<92912, 0>>,
    <<92917, 1>>, <<92976, 0>>, <<92983, 1>>, <<94031, 0>>, <<94032, 1>>, <<94095, 0>>,
    <<94099, 1>>, <<94176, 2>>, <<94180, 0>>, <<94192, 2>>, <<113664, 1>>, <<113821, 0>>,
    <<113823, 1>>, <<113824, 0>>, <<118608, 1>>, <<119143, 0>>, <<119146, 1>>, <<119155, 0>>,
    <<119171, 1>>, <<119173, 0>>, <<119180, 1>>, <<119210, 0>>, <<119214, 1>>, <<119362, 0>>,
    <<119365, 1>>, <<121344, 0>>, <<121399, 1>>, <<121403, 0>>, <<121453, 1>>, <<121461, 0>>,
    <<121462, 1>>, <<121476, 0>>, <<121477, 1>>, <<121499, 0>>, <<122624, 1>>, <<122880, 0>>,
    <<122928, 1>>, <<123023, 0>>, <<123136, 1>>, <<123184, 0>>, <<123191, 1>>, <<123566, 0>>,
    <<123584, 1>>, <<123628, 0>>, <<123632, 1>>, <<124140, 0>>, <<124144, 1>>, <<125136, 0>>,
    <<125184, 1>>, <<125252, 0>>, <<125259, 1>>, <<126980, 2>>, <<126981, 1>>, <<127183, 2>>,
    <<127185, 1>>, <<127374, 2>>, <<127375, 1>>, <<127377, 2>>, <<127387, 1>>, <<127488, 2>>,
    <<127777, 1>>, <<127789, 2>>, <<127798, 1>>, <<127799, 2>>, <<127869, 1>>, <<127870, 2>>,
    <<127892, 1>>, <<127904, 2>>, <<127947, 1>>, <<127951, 2>>, <<127956, 1>>, <<127968, 2>>,
    <<127985, 1>>, <<127988, 2>>, <<127989, 1>>, <<127992, 2>>, <<128063, 1>>, <<128064, 2>>,
    <<128065, 1>>, <<128066, 2>>, <<128253, 1>>, <<128255, 2>>, <<128318, 1>>, <<128331, 2>>,
    <<128335, 1>>, <<128336, 2>>, <<128360, 1>>, <<128378, 2>>, <<128379, 1>>, <<128405, 2>>,
    <<128407, 1>>, <<128420, 2>>, <<128421, 1>>, <<128507, 2>>, <<128592, 1>>, <<128640, 2>>,
    <<128710, 1>>, <<128716, 2>>, <<128717, 1>>, <<128720, 2>>, <<128723, 1>>, <<128725, 2>>,
    <<128736, 1>>, <<128747, 2>>, <<128752, 1>>, <<128756, 2>>, <<128768, 1>>, <<128992, 2>>,
    <<129024, 1>>, <<129292, 2>>, <<129339, 1>>, <<129340, 2>>, <<129350, 1>>, <<129351, 2>>,
    <<129536, 1>>, <<129648, 2>>, <<129792, 1>>, <<131072, 2>>, <<917505, 0>>, <<983040, 1>>
    >>

RECURSIVE RunOf(_, _, _)
(* The last of the runs lo..hi that starts at or before c                   *)
RunOf(c, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF Runs[mid][1] <= c THEN RunOf(c, mid, hi) ELSE RunOf(c, lo, mid - 1)

Width(c) == IF c < 32 THEN 0
            ELSE IF c < 127 THEN 1
            ELSE Runs[RunOf(c, 1, Len(Runs))][2]
=============================================================================
