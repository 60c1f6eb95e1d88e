-------------------------------- MODULE Trig --------------------------------
(* Generated by tools/gen_trig.py: rounded values of elementary functions.   *)
EXTENDS Integers
(* cosine of (i - 1)/16 radian, in 1e-6 *)
Cos16 == <<1000000, 998048, 992198, 982473, 968912, 951568, 930508, 905814, 877583, 845924, 810963, 772835, 731689,
    687686, 640997, 591805, 540302, 486690, 431177, 373980, 315322, 255434, 194548, 132902, 70737, 8296, -54177,
    -116439, -178246, -239357, -299534, -358540, -416147, -472128, -526266, -578349, -628174, -675545, -720278,
    -762199, -801144, -836960, -869507, -898659, -924302, -946336, -964674, -979245, -989992, -996874, -999862,
    -998946, -994130, -985431, -972884, -956538, -936457, -912719, -885416, -854657, -820559, -783258, -742898,
    -699637, -653644, -605098, -554190, -501117, -446087, -389316, -331024, -271440, -210796, -149328, -87278,
    -24886, 37602, 99944, 161895, 223215, 283662, 343002, 401003, 457437, 512085, 564734, 615177, 663219, 708670,
    751354, 791104, 827764, 861192, 891258, 917843, 940843, 960170, 975748, 987515, 995426, 999449, 999570, 995788,
    988117, 976588, 961245, 942148, 919372, 893006, 863153>>
(* arc tangent of h / (2 r), in 2^-18 radian: AtanH[h][r] *)
AtanH == <<
  <<121542, 64220, 43293, 32599, 26128, 21795, 18693, 16363, 14549, 13096, 11907, 10916, 10077, 9358, 8735, 8189,
     7708, 7280, 6897, 6552, 6240, 5957, 5698, 5461, 5242, 5041, 4854, 4681, 4519, 4369, 4228, 4096>>,
  <<205887, 121542, 84345, 64220, 51746, 43293, 37197, 32599, 29008, 26128, 23766, 21795, 20125, 18693, 17450,
     16363, 15402, 14549, 13784, 13096, 12474, 11907, 11390, 10916, 10480, 10077, 9705, 9358, 9036, 8735, 8453,
     8189>>,
  <<257633, 168690, 121542, 94050, 76404, 64220, 55337, 48588, 43293, 39031, 35528, 32599, 30114, 27980, 26128,
     24504, 23071, 21795, 20653, 19624, 18693, 17846, 17072, 16363, 15710, 15107, 14549, 14030, 13547, 13096,
     12675, 12279>>,
  <<290232, 205887, 154141, 121542, 99747, 84345, 72955, 64220, 57323, 51746, 47148, 43293, 40016, 37197, 34748,
     32599, 30699, 29008, 27493, 26128, 24891, 23766, 22738, 21795, 20927, 20125, 19383, 18693, 18050, 17450,
     16889, 16363>>,
  <<312027, 234896, 182121, 146433, 121542, 103492, 89922, 79399, 71027, 64220, 58583, 53843, 49804, 46323, 43293,
     40631, 38276, 36177, 34296, 32599, 31061, 29662, 28382, 27209, 26128, 25129, 24204, 23344, 22543, 21795,
     21095, 20438>>,
  <<327430, 257633, 205887, 168690, 141668, 121542, 106140, 94050, 84345, 76404, 69796, 64220, 59454, 55337, 51746,
     48588, 45789, 43293, 41052, 39031, 37197, 35528, 34001, 32599, 31308, 30114, 29008, 27980, 27022, 26128,
     25290, 24504>>,
  <<338820, 275684, 226013, 188437, 160098, 138432, 121542, 108111, 97227, 88257, 80754, 74395, 68942, 64220,
     60092, 56455, 53227, 50344, 47754, 45415, 43293, 41358, 39588, 37962, 36463, 35078, 33793, 32599, 31486,
     30446, 29472, 28558>>,
  <<347555, 290232, 243085, 205887, 176879, 154141, 136091, 121542, 109635, 99747, 91428, 84345, 78250, 72955,
     68315, 64220, 60579, 57323, 54394, 51746, 49341, 47148, 45139, 43293, 41591, 40016, 38556, 37197, 35931,
     34748, 33639, 32599>>,
  <<354452, 302140, 257633, 221290, 192103, 168690, 149773, 134320, 121542, 110849, 101795, 94050, 87358, 81526,
     76404, 71871, 67835, 64220, 60963, 58016, 55337, 52891, 50649, 48588, 46686, 44926, 43293, 41773, 40356,
     39031, 37789, 36624>>,
  <<360029, 312027, 270107, 234896, 205887, 182121, 162595, 146433, 132933, 121542, 111838, 103492, 96252, 89922,
     84345, 79399, 74987, 71027, 67456, 64220, 61274, 58583, 56115, 53843, 51746, 49804, 48001, 46323, 44757,
     43293, 41920, 40631>>,
  <<364627, 320347, 280874, 246940, 218361, 194497, 174580, 157886, 143799, 131817, 121542, 112660, 104921, 98129,
     92129, 86795, 82025, 77738, 73865, 70351, 67149, 64220, 61531, 59055, 56767, 54648, 52679, 50845, 49133,
     47532, 46030, 44620>>,
  <<368482, 327430, 290232, 257633, 229653, 205887, 185762, 168690, 154141, 141668, 130901, 121542, 113353, 106140,
     99747, 94050, 88944, 84345, 80184, 76404, 72955, 69796, 66895, 64220, 61747, 59454, 57323, 55337, 53482,
     51746, 50118, 48588>>,
  <<371759, 333525, 298422, 267162, 239888, 216368, 196183, 178865, 163967, 151093, 139908, 130134, 121542, 113946,
     107193, 101157, 95735, 90843, 86409, 82374, 78688, 75309, 72201, 69334, 66681, 64220, 61930, 59796, 57801,
     55933, 54181, 52533>>,
  <<374577, 338820, 305635, 275684, 249180, 226013, 205887, 188437, 173289, 160098, 148565, 138432, 129484, 121542,
     114459, 108111, 102395, 97227, 92534, 88257, 84345, 80754, 77448, 74395, 71568, 68942, 66499, 64220, 62088,
     60092, 58217, 56455>>,
  <<377027, 343459, 312027, 283335, 257633, 234896, 214923, 197434, 182121, 168690, 156872, 146433, 137174, 128925,
     121542, 114907, 108919, 103492, 98556, 94050, 89922, 86128, 82632, 79399, 76404, 73620, 71027, 68607, 66342,
     64220, 62226, 60351>>,
  <<379176, 347555, 317725, 290232, 265341, 243085, 223338, 205887, 190485, 176879, 164835, 154141, 144613, 136091,
     128439, 121542, 115302, 109635, 104470, 99747, 95415, 91428, 87749, 84345, 81187, 78250, 75512, 72955, 70561,
     68315, 66206, 64220>>
>>
(* sine of (i - 1)/50 radian, in 1e-4 *)
Sin50 == <<0, 200, 400, 600, 799, 998, 1197, 1395, 1593, 1790, 1987, 2182, 2377, 2571, 2764, 2955, 3146, 3335,
    3523, 3709, 3894, 4078, 4259, 4439, 4618, 4794, 4969, 5141, 5312, 5480, 5646, 5810, 5972, 6131, 6288, 6442,
    6594, 6743, 6889, 7033, 7174, 7311, 7446, 7578, 7707, 7833, 7956, 8076, 8192, 8305, 8415, 8521, 8624, 8724,
    8820, 8912, 9001, 9086, 9168, 9246, 9320, 9391, 9458, 9521, 9580, 9636, 9687, 9735, 9779, 9819, 9854, 9887,
    9915, 9939, 9959, 9975, 9987, 9995, 9999, 10000, 9996>>
=============================================================================
