/* rendering matrices x 20000, [loudspeaker][coefficient], measured once; the structure p20.c demands of them is independent of this */
#ifndef HOAMAT_H
#define HOAMAT_H
static const short hm_0_1[] = {
20000};
static const short hm_0_2[] = {
14142,14142};
static const short hm_0_3[] = {
11980,11980,10628};
static const short hm_0_4[] = {
9747,9747,8326,11860};
static const short hm_0_5[] = {
8196,8196,7136,10362,10361};
static const short hm_0_6[] = {
8196,8196,7136,0,10362,10361};
static const short hm_0_7[] = {
6397,6394,6324,0,9435,9436,7076,7077};
static const short hm_0_9[] = {
11173,11173,12261};
static const short hm_0_10[] = {
9403,9404,10563,10562};
static const short hm_0_11[] = {
7732,7732,6580,0,8955,8956,8760};
static const short hm_0_12[] = {
7651,7651,6434,0,7675,7678,7865,7862};
static const short hm_0_14[] = {
5403,5403,3968,0,11450,11451,5641,5642};
static const short hm_0_15[] = {
4972,4972,4245,0,7726,7725,0,6847,6847,5716,5715,7353};
static const short hm_0_16[] = {
5581,5581,3960,0,9415,9416,4429,4432,7261,7262};
static const short hm_0_17[] = {
5871,5872,3852,0,9966,9967,2850,2850,1339,6084,6086,5046};
static const short hm_0_18[] = {
6485,6487,4212,0,7057,7061,7382,7375,3045,3046,1342,4702,4703,5000};
static const short hm_0_19[] = {
5199,5199,4031,0,7370,7365,7020,7018,4882,4885,6114,6124};
static const short hm_0_20[] = {
3936,3929,4379,0,7866,7860,5453,5451,5317,5315,6229,6241,4028,4037};
static const short hm_1_1[] = {
19973,0,0,1041};
static const short hm_1_2[] = {
13462,4333,0,21,13462,-4332,0,20};
static const short hm_1_3[] = {
11394,4343,0,151,11394,-4343,0,149,10123,1,1,-359};
static const short hm_1_4[] = {
9086,4256,0,2282,9086,-4256,0,2281,7747,1,0,1830,10141,1,0,-4696};
static const short hm_1_5[] = {
7724,1883,0,2701,7725,-1884,-1,2701,6712,0,0,2236,9018,3899,0,-2818,9018,-3898,1,-2819};
static const short hm_1_6[] = {
7724,1883,0,2701,7725,-1884,-1,2701,6712,0,0,2236,0,0,0,0,9018,3899,0,-2818,
9018,-3898,1,-2819};
static const short hm_1_7[] = {
6153,1002,-1,2093,6149,-1000,-1,2089,6149,0,0,2429,0,0,0,0,7969,3513,0,-2940,
7969,-3513,1,-2941,6613,2256,0,1266,6615,-2255,-1,1270};
static const short hm_1_9[] = {
10202,4254,0,2592,10203,-4254,0,2592,10953,1,0,-4713};
static const short hm_1_10[] = {
8588,1980,-1,3080,8589,-1981,0,3081,9470,3842,0,-2897,9469,-3841,1,-2898};
static const short hm_1_11[] = {
7231,2015,0,2743,7231,-2016,-1,2742,6151,0,0,2306,0,0,0,0,7942,3841,0,-1078,
7942,-3841,1,-1080,7478,2,0,-3899};
static const short hm_1_12[] = {
7012,2197,0,2678,7012,-2198,-1,2677,5897,1,0,2245,0,0,0,0,6908,3187,-1,-565,
6909,-3188,1,-568,6987,1864,0,-2908,6984,-1861,0,-2905};
static const short hm_1_14[] = {
4577,1915,-2504,3312,4576,-1918,-2505,3310,3455,0,-2187,2897,0,0,0,0,7602,5112,-731,-3695,
7602,-5112,-728,-3696,4336,1535,4793,1827,4338,-1533,4792,1831};
static const short hm_1_15[] = {
4070,1750,-1670,2710,4069,-1752,-1670,2708,3525,0,-1290,2755,0,0,0,0,5241,2891,-1739,-3401,
5241,-2891,-1741,-3398,0,0,0,0,5082,4079,-1419,299,5081,-4079,-1415,298,4120,2026,3898,1953,
4120,-2024,3895,1955,4578,-2,4080,-3335};
static const short hm_1_16[] = {
4553,2167,-1707,3254,4553,-2170,-1708,3252,3314,1,-1424,2836,0,0,0,0,6439,4385,-2685,-2855,
6439,-4386,-2682,-2854,3481,1313,2870,2378,3484,-1312,2870,2383,4869,2551,3577,-1932,4869,-2549,3577,-1936};
static const short hm_1_17[] = {
4752,2264,-1467,3513,4752,-2266,-1468,3512,3185,1,-1334,2842,0,0,0,0,6526,4470,-2603,-2936,
6526,-4471,-2600,-2935,2510,1239,1887,1863,2510,-1238,1886,1865,1269,-1,1135,1296,4289,2348,2631,-1683,
4289,-2347,2630,-1687,3941,0,4739,-170};
static const short hm_1_18[] = {
4964,2552,-1604,3161,4965,-2555,-1604,3161,3253,1,-1451,2514,0,0,0,0,4895,3942,-1806,-582,
4897,-3944,-1801,-584,4754,1700,-1178,-3933,4749,-1698,-1179,-3926,2519,1387,1905,1511,2520,-1385,1904,1513,
1171,-1,1137,989,3503,2299,2757,-658,3503,-2298,2755,-662,3929,0,4904,-169};
static const short hm_1_19[] = {
4101,1897,-1566,2784,4101,-1900,-1567,2781,3233,0,-1374,2594,0,0,0,0,4983,2419,-2054,-3507,
4980,-2418,-2058,-3501,5154,4137,-1396,484,5152,-4136,-1394,483,3661,1499,3215,2095,3663,-1497,3215,2099,
4083,1830,3499,-2033,4089,-1831,3503,-2040};
static const short hm_1_20[] = {
3374,1184,-1258,2346,3368,-1182,-1258,2340,3791,0,-1083,2983,0,0,0,0,5259,2713,-1979,-3455,
5256,-2711,-1982,-3449,4076,3396,-1275,93,4074,-3395,-1272,90,3897,1856,3390,1980,3896,-1853,3387,1982,
3841,1926,3360,-2099,3847,-1929,3364,-2105,3276,2172,-1290,1395,3283,-2177,-1291,1401};
static const short hm_2_1[] = {
19890,0,1,2016,1,-1,500,1,290};
static const short hm_2_2[] = {
13453,4139,0,608,1122,-1,480,0,26,13455,-4139,1,606,-1122,0,480,1,25};
static const short hm_2_3[] = {
11457,4190,-1,310,1099,0,212,-1,-712,11458,-4189,0,308,-1099,0,212,0,-714,9662,-1,
2,747,0,-2,940,2,1957};
static const short hm_2_4[] = {
8961,3942,-1,2316,1050,0,352,0,-865,8962,-3941,0,2316,-1049,0,352,0,-866,6918,-1,
2,3441,0,-2,1276,2,1559,9779,0,0,-5828,0,0,314,0,441};
static const short hm_2_5[] = {
6993,2795,-1,4000,1260,1,744,-1,-311,6994,-2796,0,3997,-1260,2,744,0,-312,6683,-2,
1,183,-1,-3,502,3,2013,8315,4470,0,-3253,-788,-1,338,0,-342,8314,-4469,1,-3253,
788,-1,338,0,-342};
static const short hm_2_6[] = {
6993,2795,-1,4000,1260,1,744,-1,-311,6994,-2796,0,3997,-1260,2,744,0,-312,6683,-2,
1,183,-1,-3,502,3,2013,0,0,0,0,0,0,0,0,0,8315,4470,0,-3253,
-788,-1,338,0,-342,8314,-4469,1,-3253,788,-1,338,0,-342};
static const short hm_2_7[] = {
5433,1551,0,2151,1331,-1,1046,1,1123,5429,-1549,0,2146,-1328,0,1049,1,1119,5580,-1,
1,2044,0,-1,870,1,2344,0,0,0,0,0,0,0,0,0,7115,4009,0,-3771,
-1801,-1,331,0,-57,7114,-4010,1,-3769,1803,-2,332,-1,-60,5510,3188,0,2419,1618,1,
1295,1,-1904,5514,-3188,0,2421,-1622,1,1293,1,-1898};
static const short hm_2_9[] = {
9965,3878,0,3250,1072,0,631,0,-247,9966,-3878,1,3250,-1071,0,631,1,-248,10594,0,
0,-5862,0,0,475,0,379};
static const short hm_2_10[] = {
8173,2851,-1,3477,1275,0,688,0,554,8174,-2852,1,3475,-1275,0,688,1,553,8891,4524,
0,-3161,-803,0,490,0,-438,8890,-4523,1,-3161,804,-1,490,0,-439};
static const short hm_2_11[] = {
6709,2679,-1,3287,1288,0,537,0,182,6710,-2681,0,3286,-1288,0,537,1,180,5736,0,
1,2759,0,0,737,1,706,0,0,0,0,0,0,0,0,0,7203,4570,0,-1461,
-754,0,461,0,-1040,7203,-4569,1,-1463,756,-1,461,0,-1039,7106,1,0,-4744,-1,0,
490,1,1312};
static const short hm_2_12[] = {
6157,2739,0,3316,2108,0,826,1,295,6157,-2740,0,3316,-2109,0,827,1,291,5119,0,
1,2758,0,1,1233,1,1515,0,0,0,0,0,0,0,0,0,5978,3965,0,-696,
-450,-2,918,-1,-2191,5980,-3964,1,-700,453,-2,916,-1,-2189,6160,2313,1,-3643,-1724,1,
826,1,1261,6157,-2312,0,-3640,1723,0,829,0,1261};
static const short hm_2_14[] = {
3659,2978,-1933,4797,1398,-855,-428,-524,-496,3661,-2979,-1934,4792,-1399,854,-428,-525,-498,4044,-1,
-1972,214,0,2,175,-457,2354,0,0,0,0,0,0,0,0,0,6495,5423,-603,-3941,
-1014,-160,-383,-36,-458,6494,-5422,-600,-3941,1015,158,-383,-36,-458,4069,2101,4109,1935,637,1624,
634,804,74,4067,-2099,4110,1939,-637,-1623,633,807,77};
static const short hm_2_15[] = {
2599,1858,91,3052,1787,-1094,-2134,-797,753,2649,-1859,-114,3032,-1787,1097,-1921,-801,738,3332,-1,
-4173,2743,-1,0,2543,-399,1639,0,0,0,0,0,0,0,0,0,3763,2818,-1512,-3462,
-2238,-90,-871,1220,781,3795,-2818,-1657,-3472,2238,93,-723,1222,773,0,0,0,0,0,0,
0,0,0,3649,4154,-1442,132,322,-829,214,-520,-2458,3602,-4154,-1239,149,-321,823,5,-520,
-2448,3070,2165,3594,1823,762,2647,688,1602,-78,3074,-2164,3569,1824,-764,-2644,713,1607,-75,3536,
-1,3864,-3147,2,-3,872,-2770,851};
static const short hm_2_16[] = {
3128,2678,-1137,4231,2346,-706,-689,-1253,-894,3128,-2679,-1137,4229,-2346,706,-690,-1254,-899,3215,-1,
-2493,731,0,2,225,-387,3926,0,0,0,0,0,0,0,0,0,4716,4360,-2440,-2837,
-1428,-1434,-889,943,-747,4718,-4360,-2440,-2837,1430,1430,-889,945,-746,2809,1624,2645,2327,1190,1174,
619,2132,135,2812,-1624,2645,2326,-1190,-1175,621,2137,144,3765,2632,3467,-2028,-755,2368,725,-1558,
0,3761,-2630,3472,-2028,755,-2366,725,-1563,-1};
static const short hm_2_17[] = {
3165,2594,-1275,4028,2306,-678,-312,-1154,-753,3167,-2595,-1275,4026,-2306,678,-312,-1155,-757,2933,0,
-2053,991,0,1,-113,-456,3490,0,0,0,0,0,0,0,0,0,4762,4242,-2579,-2734,
-1393,-1357,-389,879,-752,4763,-4242,-2579,-2734,1395,1354,-389,881,-751,1845,1529,2556,2344,1077,1154,
-370,1789,-398,1845,-1528,2559,2343,-1076,-1155,-372,1791,-392,1351,-2,1295,551,-2,-1,-328,1754,
1722,2772,2506,3705,-1850,-685,2295,-1080,-1372,159,2769,-2503,3709,-1849,685,-2292,-1081,-1377,159,3621,
-1,1914,-415,0,0,3814,-303,-12};
static const short hm_2_18[] = {
3472,2552,-1246,3157,2095,-714,-621,-936,350,3474,-2554,-1252,3157,-2097,715,-616,-936,345,2445,1,
-1802,2628,1,0,341,-900,1415,0,0,0,0,0,0,0,0,0,3620,3953,-2287,-812,
-672,-1264,43,589,-2145,3621,-3954,-2277,-815,674,1258,35,588,-2143,3507,1721,-809,-3731,-1690,-342,
-544,395,1585,3506,-1720,-824,-3725,1690,344,-530,399,1581,1961,1471,2425,1872,972,1223,-459,1935,
92,1961,-1470,2426,1875,-972,-1223,-458,1937,94,1031,-1,1309,1336,-1,-1,-77,1549,581,2143,
2464,3871,-954,-490,2276,-990,-1441,-691,2140,-2461,3878,-958,493,-2274,-995,-1445,-687,3504,-1,2247,
-271,-1,-1,3731,-386,155};
static const short hm_2_19[] = {
2652,1936,31,2981,1744,-616,-2025,-937,752,2669,-1937,-38,2975,-1744,620,-1952,-937,741,3186,0,
-4161,2604,-1,-1,2637,-764,1477,0,0,0,0,0,0,0,0,0,3619,2427,-1697,-3496,
-1959,-912,-796,1076,997,3637,-2427,-1778,-3496,1959,914,-714,1082,988,3606,4201,-1538,334,391,-751,
22,-13,-2493,3585,-4200,-1451,338,-391,745,-69,-15,-2485,2756,1566,3071,2112,978,1623,596,1887,
210,2767,-1565,3023,2114,-979,-1623,647,1892,210,3113,1896,3172,-2065,-947,2118,714,-1725,136,3110,
-1896,3194,-2070,948,-2115,695,-1729,140};
static const short hm_2_20[] = {
2587,1386,-1627,2425,1234,-486,173,-700,877,2600,-1384,-1692,2412,-1231,488,247,-699,873,2262,0,
820,3323,1,0,-2423,-631,1817,0,0,0,0,0,0,0,0,0,3739,2537,-1907,-3522,
-1947,-840,-486,1114,940,3750,-2537,-1963,-3523,1947,842,-428,1119,937,2691,3486,27,158,-9,-684,
-1578,-62,-2211,2677,-3483,80,160,13,678,-1635,-64,-2211,2841,1964,3097,1880,968,1829,813,1849,
-37,2847,-1963,3063,1880,-969,-1829,850,1853,-33,3001,1778,3103,-2081,-983,1896,611,-1819,169,2998,
-1779,3127,-2084,984,-1894,589,-1823,172,2822,2409,-2720,1283,1290,-737,1457,-455,-820,2820,-2415,-2684,
1292,-1297,737,1416,-457,-821};
static const short hm_3_1[] = {
19961,0,1,1217,1,-2,-136,1,225,0,0,0,0,-27,0,9};
static const short hm_3_2[] = {
13101,5033,0,53,1727,-2,169,0,2,133,0,-89,0,-6,0,0,13101,-5032,1,50,
-1726,-1,168,1,1,-133,0,90,0,-6,0,-1};
static const short hm_3_3[] = {
11121,5184,0,367,1601,-1,-221,0,-678,105,0,-80,0,-24,0,-184,11121,-5182,0,366,
-1600,0,-221,0,-678,-105,1,81,0,-25,0,-184,9156,-3,-1,564,1,-2,1034,3,
2593,0,-1,0,0,67,1,682};
static const short hm_3_4[] = {
8326,4991,0,3114,1397,0,822,0,-1145,83,0,-63,0,-56,0,-154,8326,-4989,1,3114,
-1396,0,822,0,-1145,-83,0,64,0,-56,0,-154,6385,-2,-1,2876,1,-2,1829,2,
2043,0,-1,0,0,26,1,641,9520,-1,0,-6016,1,-1,417,0,479,0,0,0,
0,49,0,50};
static const short hm_3_5[] = {
6725,2803,1,3575,2340,0,1159,0,-98,199,0,-33,0,-66,0,-313,6726,-2804,1,3574,
-2338,1,1158,1,-98,-199,0,33,0,-66,0,-314,5620,1,-2,2986,-2,-2,1548,3,
2184,-1,-1,0,0,35,1,608,8110,4858,0,-3382,-1430,0,519,1,-148,-72,0,-34,
0,18,0,55,8109,-4858,0,-3381,1431,-2,519,0,-148,72,1,34,0,17,0,56};
static const short hm_3_6[] = {
6725,2803,1,3575,2340,0,1159,0,-98,199,0,-33,0,-66,0,-313,6726,-2804,1,3574,
-2338,1,1158,1,-98,-199,0,33,0,-66,0,-314,5620,1,-2,2986,-2,-2,1548,3,
2184,-1,-1,0,0,35,1,608,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8110,4858,0,-3382,-1430,0,519,1,-148,-72,0,-34,0,18,0,55,
8109,-4858,0,-3381,1431,-2,519,0,-148,72,1,34,0,17,0,56};
static const short hm_3_7[] = {
5215,1506,0,2269,1342,4,692,-7,2143,496,2,27,1,37,-1,-240,5213,-1506,-1,2262,
-1335,7,690,-6,2148,-496,3,-30,1,39,0,-241,5189,1,0,3816,-4,-8,1454,11,
53,-1,-4,2,-2,-88,1,651,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7125,4180,0,-3514,-1817,0,183,0,181,67,0,-32,0,22,0,87,
7124,-4180,0,-3514,1818,-2,183,-1,178,-67,1,32,0,21,0,87,5527,3235,1,1892,
1732,-2,1064,3,-1825,-316,0,-15,0,-65,0,-271,5529,-3235,1,1894,-1734,-2,1064,3,
-1823,315,-1,16,-1,-66,0,-271};
static const short hm_3_9[] = {
9342,4885,0,3581,1504,-1,1192,0,-574,106,0,-66,0,-49,0,22,9342,-4884,1,3581,
-1503,0,1192,1,-575,-107,0,67,0,-49,0,21,10231,-1,0,-6220,1,-1,763,0,
257,0,0,0,0,64,0,23};
static const short hm_3_10[] = {
7493,2809,0,4101,2324,-1,1362,0,697,213,0,-29,0,-49,0,-68,7494,-2810,0,4099,
-2324,1,1361,2,696,-213,0,29,0,-49,1,-69,8525,4870,0,-3485,-1435,0,815,1,
-278,-73,0,-43,0,22,0,22,8525,-4870,1,-3485,1436,-2,815,0,-278,73,1,43,
0,22,0,23};
static const short hm_3_11[] = {
6295,2751,1,3514,2231,0,907,0,55,225,0,-32,0,-42,0,-316,6295,-2752,1,3514,
-2229,1,907,1,54,-225,0,32,0,-42,0,-316,5145,1,-2,2915,-1,-2,1304,3,
2159,-1,-1,0,0,44,1,602,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,6832,4784,0,-1498,-1294,-1,800,0,-1716,-127,0,-24,0,-1,0,211,
6832,-4783,0,-1498,1296,-2,799,-1,-1715,126,1,24,-1,-1,0,211,6564,0,0,-4838,
-1,0,839,1,2415,0,0,-1,0,32,0,-230};
static const short hm_3_12[] = {
6107,2778,1,3402,2121,1,719,0,258,253,0,-35,0,-18,0,-311,6108,-2780,1,3402,
-2120,2,718,1,257,-253,0,35,0,-18,0,-312,4844,1,-2,3017,-2,-2,1153,2,
1658,0,-1,0,0,37,1,657,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,5885,4092,-1,-692,-387,-2,820,0,-2193,-385,0,-27,0,-49,1,181,
5886,-4092,1,-693,388,-3,819,-1,-2192,384,1,29,-1,-49,0,181,6093,2364,1,-3669,
-1842,1,728,1,1310,370,0,26,0,48,0,-54,6091,-2364,-1,-3668,1842,0,728,1,
1312,-370,0,-26,0,46,0,-54};
static const short hm_3_14[] = {
3307,2672,-2233,4006,2455,-1008,-508,-706,-429,208,-206,-130,75,-74,12,-329,3307,-2674,-2235,4003,
-2453,1006,-508,-706,-430,-207,206,130,75,-74,12,-330,2319,2,-2162,3401,-2,2,238,-404,
2301,-1,0,0,-81,-7,-90,704,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,6280,5533,-803,-3762,-1711,-326,-260,-29,-254,-51,-15,-26,-4,2,6,59,
6280,-5532,-802,-3762,1711,323,-260,-31,-254,51,15,26,-5,2,5,60,3075,2064,4934,2139,
1207,2217,852,965,32,14,328,238,-38,80,9,-19,3076,-2063,4936,2141,-1207,-2216,851,967,
36,-15,-328,-238,-37,80,11,-19};
static const short hm_3_15[] = {
3056,2069,-1586,3108,1983,-778,-342,-742,906,385,-182,-75,139,-45,-82,-354,3057,-2072,-1589,3106,
-1981,779,-341,-741,906,-384,182,75,139,-45,-82,-355,2650,2,-1276,3346,-3,1,144,-462,
1565,-1,0,0,-185,-54,99,706,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,4064,3012,-1767,-3675,-2213,-370,-288,1084,856,316,96,-11,40,97,-110,30,
4064,-3012,-1769,-3675,2212,372,-287,1086,855,-316,-97,11,41,96,-110,30,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,3648,4364,-1195,326,206,-603,-162,-322,
-2543,-426,-86,-71,-52,-43,133,50,3648,-4362,-1193,326,-206,598,-164,-324,-2544,426,87,72,
-53,-43,133,51,2698,2207,4189,1837,792,2354,494,1514,-124,49,242,220,-24,126,-70,-29,
2698,-2207,4190,1838,-792,-2352,494,1517,-122,-49,-242,-220,-24,126,-69,-29,3238,-1,4320,-3171,
2,-2,547,-2753,790,0,1,0,-42,-227,163,-40};
static const short hm_3_16[] = {
3370,2676,-1534,3862,2342,-700,-398,-950,-442,189,-245,-100,45,-85,-40,-304,3370,-2678,-1537,3860,
-2341,700,-398,-950,-443,-189,244,100,45,-85,-40,-305,2335,2,-1665,3062,-2,0,470,-590,
2243,0,0,0,-75,-25,-105,672,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,5138,4695,-2501,-2861,-1393,-1278,-428,930,-395,-72,156,-85,48,81,88,67,
5138,-4695,-2501,-2861,1394,1277,-428,932,-397,72,-157,85,47,81,87,67,2077,1539,3361,2489,
1237,1407,341,1945,-117,21,506,108,-29,163,116,10,2080,-1540,3366,2490,-1236,-1407,341,1945,
-113,-22,-506,-107,-29,163,116,10,3506,2627,3784,-1991,-713,2171,534,-1434,274,-11,-320,197,
-60,-126,-121,-22,3505,-2627,3785,-1991,713,-2171,533,-1437,275,11,320,-197,-60,-126,-119,-22};
static const short hm_3_17[] = {
3391,2686,-1352,3818,2292,-720,-451,-1057,-294,173,-246,-84,48,-95,84,-267,3392,-2688,-1355,3817,
-2290,721,-450,-1056,-293,-173,246,84,48,-95,84,-267,2402,2,-1728,2911,-2,-1,821,-365,
2044,0,0,0,-36,49,-310,607,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,5118,4642,-2306,-2867,-1419,-1219,-266,934,-395,-63,147,-62,73,61,89,66,
5118,-4642,-2306,-2866,1419,1218,-266,935,-396,63,-148,62,73,61,88,67,1648,1572,2353,2244,
1238,1416,75,2066,-614,6,491,93,-147,162,-180,-73,1650,-1570,2357,2244,-1238,-1420,74,2065,
-612,-5,-490,-93,-147,162,-181,-73,357,-1,2229,1523,0,4,-1163,709,981,-1,-1,0,
-153,-42,738,292,2853,2424,3000,-1840,-696,2230,-491,-1359,276,-20,-321,152,-325,-81,-132,-14,
2851,-2422,3000,-1839,696,-2229,-493,-1361,276,20,322,-151,-325,-81,-131,-13,2644,-2,4447,-309,
0,1,2250,-380,269,0,0,0,577,-53,113,-3};
static const short hm_3_18[] = {
3592,2735,-1374,3281,2052,-710,-558,-964,313,246,-235,-65,30,-71,64,-308,3593,-2737,-1377,3281,
-2051,711,-556,-963,312,-246,234,65,30,-71,64,-308,2430,2,-1704,2790,-1,-2,879,-289,
1736,0,0,0,-17,42,-290,630,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,3662,4191,-1775,-792,-710,-1142,-105,591,-2072,-331,120,-68,81,6,122,197,
3663,-4191,-1774,-792,710,1140,-106,592,-2072,331,-120,69,80,7,121,198,3474,1637,-886,-3943,
-1836,-258,-243,368,1541,476,63,-15,-39,47,-21,-106,3473,-1636,-889,-3941,1837,259,-239,370,
1542,-476,-63,14,-39,45,-22,-106,1789,1541,2196,1794,1050,1371,114,2164,-101,83,489,88,
-128,170,-168,-121,1790,-1539,2199,1794,-1048,-1374,115,2164,-102,-84,-489,-88,-128,170,-168,-121,
408,-1,2169,1153,-1,4,-1354,704,1182,0,0,0,-159,-55,697,272,2062,2299,3199,-797,
-544,2208,-545,-1422,-666,-85,-313,144,-302,-88,-156,89,2061,-2297,3199,-797,544,-2208,-548,-1424,
-665,84,313,-143,-303,-88,-155,89,2652,-2,4381,-293,0,1,2229,-532,254,0,0,0,
534,-63,150,-15};
static const short hm_3_19[] = {
3092,2133,-1383,3074,1915,-669,-343,-858,894,377,-219,-62,100,-66,-53,-359,3093,-2136,-1386,3072,
-1913,670,-342,-859,894,-376,219,62,100,-66,-52,-360,2526,2,-1506,3123,-2,-1,253,-620,
1403,-1,0,0,-106,-32,-49,735,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,3935,2651,-1900,-3717,-2009,-872,-299,995,1001,309,197,-39,54,87,-21,0,
3934,-2651,-1903,-3716,2009,873,-297,998,999,-308,-197,38,55,87,-21,1,3614,4348,-1242,530,
313,-616,-163,-14,-2573,-422,-13,-78,-54,-15,83,58,3614,-4347,-1240,531,-312,612,-165,-14,
-2574,422,13,79,-56,-15,82,59,2312,1622,3597,2050,1034,1702,347,1879,203,78,439,155,
-17,148,33,-25,2313,-1622,3600,2052,-1034,-1702,348,1879,204,-78,-438,-155,-17,148,35,-25,
2746,1864,3661,-1991,-963,1959,455,-1746,124,47,-381,176,-45,-139,-27,16,2747,-1865,3660,-1994,
964,-1957,453,-1746,127,-47,381,-175,-45,-140,-26,16};
static const short hm_3_20[] = {
2498,1532,-981,2664,1415,154,-65,-893,646,380,-143,-376,264,41,-386,-9,2495,-1531,-1003,2654,
-1412,-148,-22,-928,649,-379,144,370,261,61,-389,-8,2843,1,-1056,3396,-2,-4,-345,-130,
2020,-1,0,4,-311,-158,365,435,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,4039,2735,-1850,-3687,-1942,-945,-304,994,918,300,198,24,50,80,-23,-23,
4037,-2735,-1849,-3685,1942,947,-308,1002,917,-299,-198,-24,52,76,-23,-22,2963,3726,-1018,247,
-119,-118,-175,-50,-2467,-424,4,-277,-35,8,0,266,2960,-3723,-1028,243,120,116,-154,-70,
-2466,424,-3,277,-39,20,-2,266,2297,1759,3802,1763,936,1855,389,1810,-49,45,410,159,
2,147,-24,-49,2297,-1759,3806,1764,-936,-1855,389,1811,-49,-46,-410,-159,3,147,-24,-48,
2595,1742,3498,-1998,-956,1794,378,-1839,155,53,-415,171,-49,-145,10,7,2596,-1744,3499,-2000,
956,-1793,373,-1836,158,-53,415,-171,-49,-147,12,6,2449,2493,-1271,1564,1447,-1445,-24,-345,
-484,2,-134,386,-70,-78,236,-490,2456,-2498,-1248,1574,-1448,1438,-75,-303,-489,-2,133,-381,
-65,-103,238,-491};
static const short hm_4_1[] = {
19956,0,1,1285,1,-3,-176,1,292,0,1,1,-1,-71,0,22,0,0,0,0,
1,0,-1,1,-1};
static const short hm_4_2[] = {
12938,5242,0,55,2213,-2,217,0,3,341,0,-230,0,-16,0,-1,13,0,-9,0,
-1,0,0,0,0,12939,-5242,1,52,-2211,-1,216,1,2,-341,1,231,-1,-16,0,
-2,-13,0,9,0,-1,0,0,1,0};
static const short hm_4_3[] = {
10903,5374,0,388,2042,-1,-244,0,-765,268,0,-205,0,-57,0,-418,0,0,-10,0,
3,0,8,0,-49,10903,-5371,0,387,-2041,-1,-245,0,-765,-268,1,207,-1,-58,0,
-419,0,0,10,0,4,0,8,0,-49,9055,-5,-1,532,0,-3,1150,3,2845,0,
-1,0,-1,145,1,1498,0,-1,0,0,-15,0,-27,0,180};
static const short hm_4_4[] = {
8078,5124,0,3204,1764,-1,1069,0,-1366,209,0,-159,0,-137,0,-348,-2,0,-7,0,
1,0,5,0,-42,8078,-5121,1,3204,-1763,0,1070,0,-1365,-211,1,161,-1,-138,0,
-348,2,0,7,0,2,0,5,0,-42,6273,-5,-1,2912,0,-2,2159,3,2174,-1,
-1,0,0,46,1,1414,0,-1,0,0,-12,0,-25,0,162,9260,-1,0,-6182,1,
-1,516,0,578,1,1,0,-1,124,-1,113,0,0,0,0,0,0,-4,0,10};
static const short hm_4_5[] = {
6457,2850,1,3579,2920,0,1462,0,36,498,0,-83,0,-150,0,-651,13,0,-10,0,
3,0,8,0,-77,6457,-2849,0,3578,-2917,2,1461,1,36,-498,1,84,0,-150,1,
-653,-12,0,10,0,3,0,8,0,-77,5452,-2,-1,3179,-2,-2,1908,3,2314,-1,
-2,0,0,47,1,1173,0,-1,0,0,-10,0,-14,0,178,7811,4942,0,-3430,-1786,
-1,647,1,-212,-180,0,-85,0,41,0,115,-4,0,5,0,-1,0,-1,0,13,
7810,-4942,1,-3430,1787,-2,647,0,-212,180,1,85,-1,40,-1,117,4,0,-4,0,
0,0,0,0,13};
static const short hm_4_6[] = {
6457,2850,1,3579,2920,0,1462,0,36,498,0,-83,0,-150,0,-651,13,0,-10,0,
3,0,8,0,-77,6457,-2849,0,3578,-2917,2,1461,1,36,-498,1,84,0,-150,1,
-653,-12,0,10,0,3,0,8,0,-77,5452,-2,-1,3179,-2,-2,1908,3,2314,-1,
-2,0,0,47,1,1173,0,-1,0,0,-10,0,-14,0,178,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
7811,4942,0,-3430,-1786,-1,647,1,-212,-180,0,-85,0,41,0,115,-4,0,5,0,
-1,0,-1,0,13,7810,-4942,1,-3430,1787,-2,647,0,-212,180,1,85,-1,40,-1,
117,4,0,-4,0,0,0,0,0,13};
static const short hm_4_7[] = {
5012,1588,0,2714,1833,0,1249,-2,1496,902,1,57,0,-19,-1,-25,128,0,-2,0,
-5,0,-11,0,-156,5008,-1583,-1,2714,-1828,3,1251,-1,1498,-903,3,-58,1,-17,1,
-25,-127,0,1,0,-5,0,-11,1,-157,5038,-3,0,3365,-4,-3,1326,4,1601,-1,
-3,1,-1,-74,1,880,0,-1,0,0,1,0,4,0,227,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
6876,4271,0,-3569,-2249,0,244,1,181,106,0,-82,0,51,0,239,29,0,6,0,
0,0,-3,0,-4,6876,-4271,0,-3568,2249,-2,245,-1,177,-105,2,82,-1,49,-1,
241,-30,0,-5,0,0,0,-2,0,-4,5343,3261,1,1788,2054,0,1198,1,-1858,-533,
0,-27,0,-123,0,-885,-107,0,-6,0,0,0,15,0,47,5346,-3262,2,1786,-2055,
0,1196,1,-1855,530,0,29,-1,-125,0,-886,107,0,6,0,1,0,15,0,47};
static const short hm_4_9[] = {
9127,5038,0,3696,1908,-1,1512,0,-728,269,0,-168,0,-124,1,56,8,0,-5,0,
-1,0,-2,0,4,9126,-5038,1,3696,-1907,0,1512,1,-729,-271,1,170,-1,-124,1,
54,-8,0,5,0,-1,0,-1,0,3,9995,-1,0,-6419,1,-1,967,0,327,0,
1,0,-1,163,-1,58,0,0,0,0,0,0,-4,0,1};
static const short hm_4_10[] = {
7236,2860,0,4181,2902,-1,1709,1,875,533,0,-72,0,-124,0,-171,22,0,-6,0,
0,0,2,0,-5,7236,-2860,0,4180,-2902,1,1708,3,873,-534,0,72,0,-123,1,
-174,-21,0,6,0,0,0,2,0,-6,8232,4970,0,-3553,-1796,0,1023,1,-348,-183,
0,-109,0,56,1,55,-7,0,4,0,0,0,0,0,6,8232,-4970,1,-3553,1797,
-2,1023,-1,-348,183,1,109,-1,55,-1,57,6,0,-3,0,1,0,1,0,6};
static const short hm_4_11[] = {
5983,2770,1,3481,2762,0,1133,0,221,558,0,-80,0,-92,0,-654,6,0,-9,0,
3,0,6,0,-75,5983,-2769,0,3480,-2760,1,1133,1,219,-558,1,81,0,-92,1,
-655,-5,0,9,0,3,0,6,0,-75,4956,-2,-1,3088,-2,-2,1595,3,2269,-1,
-2,0,0,74,1,1145,0,-1,0,0,-7,0,-16,0,174,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
6519,4818,0,-1499,-1603,-1,990,0,-2155,-315,0,-59,0,-5,1,499,5,0,4,0,
-2,0,0,0,11,6519,-4818,0,-1500,1606,-2,990,-1,-2153,313,1,61,-1,-6,-1,
501,-6,0,-4,0,-1,0,1,0,10,6263,0,0,-4869,-1,0,1039,1,2983,1,
0,-1,0,78,0,-580,0,0,0,0,1,0,-3,0,9};
static const short hm_4_12[] = {
5769,2790,1,3442,2620,0,908,0,137,626,0,-87,0,-50,0,-551,1,0,-6,0,
2,0,1,0,-88,5769,-2789,0,3442,-2620,2,908,1,135,-624,1,87,0,-50,1,
-552,-1,0,7,0,2,0,2,0,-88,4668,-2,-1,2984,-2,-2,1387,3,2386,-2,
-2,0,0,100,1,1172,0,-1,0,0,-7,0,-19,0,159,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
5625,4090,0,-725,-539,-2,994,0,-2534,-910,0,-64,1,-116,1,268,45,0,-5,0,
-2,0,21,0,81,5626,-4091,1,-724,541,-3,993,-1,-2533,908,2,67,-2,-115,-1,
269,-45,0,5,0,-1,0,21,0,80,5776,2403,1,-3669,-2174,1,907,1,1548,845,
0,58,-1,115,-1,-72,-69,0,12,0,0,0,-15,0,-38,5775,-2402,0,-3671,2174,
0,907,1,1549,-846,0,-60,0,112,0,-70,69,0,-11,0,0,0,-15,0,-38};
static const short hm_4_14[] = {
3086,2644,-2173,3895,2965,-1127,-554,-826,-312,498,-470,-294,158,-168,14,-638,15,-37,-38,13,
16,14,14,23,-89,3086,-2643,-2175,3895,-2963,1124,-555,-826,-313,-497,470,294,157,-168,13,
-641,-14,37,37,-13,16,14,14,23,-89,2201,-2,-2205,3521,-3,3,142,-565,2300,-1,
0,1,-138,-45,-183,1330,0,0,0,0,-12,-24,-32,-35,191,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
5886,5478,-798,-3718,-2079,-388,-322,-39,-328,-124,-34,-62,-8,5,16,129,-6,2,-7,-6,
-2,-1,-2,0,10,5886,-5478,-796,-3718,2080,385,-322,-40,-329,124,35,62,-10,3,15,
131,5,-2,7,6,-1,-1,-1,0,9,2882,2045,4875,2125,1483,2542,1031,1170,24,48,
751,546,-90,194,24,-59,-3,42,68,8,-10,-3,0,-11,4,2885,-2045,4876,2125,-1483,
-2540,1030,1173,28,-49,-751,-545,-89,195,27,-58,3,-43,-68,-8,-10,-3,0,-10,4};
static const short hm_4_15[] = {
2790,2005,-1470,3058,2301,-850,-324,-997,732,873,-412,-165,207,-142,-78,-504,38,-43,-32,15,
12,20,4,12,-123,2790,-2003,-1472,3058,-2300,850,-323,-998,731,-871,411,164,207,-142,-77,
-507,-37,43,32,-15,12,20,4,12,-123,2441,-1,-1332,3163,-2,2,40,-383,2391,-2,
0,1,-243,-75,51,1137,0,0,0,0,-12,-42,-15,-19,181,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3720,2913,-1693,-3539,-2616,-439,-326,1249,926,738,227,-26,70,222,-233,139,-12,-29,11,0,
3,-5,-17,-1,-39,3720,-2912,-1694,-3539,2616,440,-324,1250,925,-737,-229,26,71,219,-234,
141,12,29,-11,0,3,-5,-17,-1,-40,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3346,4223,-1189,278,254,
-729,-237,-295,-2803,-988,-209,-171,-54,-78,248,-63,-11,32,-12,-7,-1,3,19,8,84,
3346,-4223,-1187,278,-253,724,-239,-296,-2805,988,210,173,-58,-78,246,-62,11,-32,12,8,
0,3,19,8,84,2470,2134,4054,1787,961,2741,598,1775,-205,125,561,513,-74,293,-150,
-25,1,15,42,4,-8,0,-11,-9,-16,2471,-2134,4055,1787,-961,-2739,598,1777,-203,-126,
-562,-512,-73,293,-146,-25,-1,-16,-43,-4,-8,0,-11,-9,-16,2967,-1,4166,-3077,2,
-2,640,-3245,996,-1,2,-1,-86,-535,373,-132,0,0,0,0,-5,1,24,-4,19};
static const short hm_4_16[] = {
3098,2605,-1521,3701,2802,-809,-422,-1082,-351,444,-500,-234,92,-191,-100,-592,9,-42,-37,7,
7,14,5,24,-79,3097,-2604,-1522,3700,-2800,807,-421,-1082,-351,-444,499,235,92,-191,-100,
-594,-9,42,36,-7,7,14,5,24,-80,2183,-2,-1580,3135,-2,1,416,-797,2222,-1,
1,1,-139,-87,-233,1266,0,0,0,0,-11,-23,-40,-27,178,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
4741,4577,-2420,-2781,-1670,-1536,-516,1086,-490,-168,342,-206,115,189,208,143,0,10,22,7,
8,-5,11,-19,10,4741,-4577,-2421,-2781,1671,1535,-516,1088,-491,169,-343,206,114,188,205,
145,-1,-10,-22,-6,8,-5,12,-19,9,1916,1510,3292,2432,1483,1632,410,2292,-145,75,
1001,247,-70,386,273,12,3,72,88,-10,-4,-3,21,-19,4,1920,-1510,3294,2431,-1483,
-1632,409,2292,-142,-76,-1000,-247,-70,386,274,12,-4,-72,-88,10,-4,-3,21,-18,4,
3238,2561,3665,-1942,-848,2609,633,-1681,318,-37,-668,475,-142,-295,-284,-52,-11,-17,-56,-6,
-12,3,-21,24,1,3236,-2561,3666,-1941,848,-2608,632,-1684,319,37,670,-475,-142,-297,-280,
-52,11,17,56,6,-12,3,-20,23,1};
static const short hm_4_17[] = {
3131,2613,-1402,3660,2741,-827,-350,-1045,-267,406,-513,-195,119,-169,36,-530,9,-39,-33,12,
12,14,14,55,-70,3131,-2612,-1403,3660,-2739,827,-350,-1044,-267,-406,513,195,119,-169,36,
-531,-8,39,33,-12,12,14,14,55,-70,2217,-2,-1532,2972,-2,0,644,-805,2153,0,
0,0,-61,11,-448,1167,0,0,0,0,-11,-5,-45,-81,160,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
4711,4518,-2224,-2785,-1699,-1456,-360,1071,-479,-149,325,-150,159,139,223,145,1,12,17,14,
12,-11,11,-19,9,4711,-4518,-2225,-2785,1700,1455,-359,1074,-480,149,-326,150,158,138,220,
147,-1,-12,-17,-13,12,-11,11,-19,9,1475,1534,2406,2181,1484,1635,-158,2131,-621,35,
994,210,-367,301,-154,-183,-6,67,80,-16,-34,-15,-17,-102,-12,1478,-1535,2407,2179,-1483,
-1637,-158,2131,-620,-35,-994,-209,-368,302,-154,-183,6,-67,-80,16,-34,-15,-17,-102,-13,
465,2,1837,1542,0,2,-632,1653,778,-2,0,0,-223,109,1054,633,0,0,0,0,
-5,-5,70,224,62,2668,2366,2831,-1778,-827,2656,-391,-1472,266,-56,-679,364,-674,-166,-368,
-42,-8,-23,-49,-27,-60,20,-27,50,6,2665,-2365,2832,-1777,827,-2656,-394,-1475,267,56,
680,-364,-675,-167,-365,-41,7,23,50,27,-60,20,-27,49,6,2393,-1,4432,-324,0,
1,2461,-555,373,0,0,0,1218,-139,259,9,0,0,0,0,112,-13,29,-29,-6};
static const short hm_4_18[] = {
3273,2632,-1440,3150,2434,-821,-389,-895,292,566,-485,-150,107,-114,12,-565,-6,-39,-29,8,
9,13,9,54,-78,3274,-2630,-1441,3150,-2433,821,-387,-895,292,-565,484,150,107,-114,12,
-566,6,39,29,-8,9,13,9,54,-78,2218,-2,-1438,2702,-1,0,572,-736,2165,-1,
0,0,-82,9,-442,1129,0,0,0,0,-9,-6,-43,-79,154,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3338,4017,-1663,-753,-882,-1327,-207,624,-2428,-731,264,-159,170,4,295,379,42,20,8,18,
9,-12,19,-22,45,3339,-4018,-1663,-753,883,1325,-209,625,-2429,731,-265,162,169,5,292,
380,-42,-20,-8,-18,10,-12,19,-22,45,3160,1601,-869,-3796,-2080,-347,-254,457,1817,1019,
122,-41,-84,114,-50,-217,-85,-8,18,-8,-3,2,-5,4,-20,3159,-1600,-871,-3797,2081,
348,-250,460,1819,-1020,-123,39,-83,110,-51,-215,85,8,-17,8,-4,2,-5,4,-20,
1576,1493,2242,1694,1268,1563,-191,2204,13,183,973,198,-349,315,-137,-271,-15,67,77,-17,
-30,-12,-16,-99,-20,1579,-1493,2243,1692,-1267,-1565,-191,2204,13,-183,-973,-198,-349,315,-137,
-271,15,-67,-76,17,-30,-12,-16,-99,-20,522,2,1718,1197,0,2,-660,1694,1083,-1,
0,0,-202,91,975,560,0,0,0,0,-1,-4,63,221,56,1926,2211,2974,-751,-655,
2611,-408,-1505,-853,-192,-642,341,-610,-175,-423,186,8,-29,-47,-22,-54,17,-32,54,7,
1923,-2211,2976,-750,655,-2612,-411,-1508,-850,191,644,-340,-611,-175,-420,186,-8,28,47,22,
-54,17,-32,54,7,2366,-1,4324,-292,0,1,2385,-752,336,0,0,0,1125,-166,344,
-41,0,0,0,0,98,-12,35,-34,5};
static const short hm_4_19[] = {
2809,2058,-1355,3004,2242,-724,-313,-1013,697,853,-442,-135,149,-156,-96,-494,36,-46,-34,14,
9,13,0,21,-123,2809,-2057,-1356,3004,-2241,723,-312,-1014,697,-852,442,135,150,-157,-95,
-497,-35,46,34,-14,9,13,0,21,-123,2312,-2,-1405,2939,-1,2,151,-739,2211,-1,
0,1,-112,-77,-160,1169,0,0,0,0,-9,-22,-24,-27,183,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3582,2550,-1824,-3562,-2359,-984,-340,1160,1115,717,442,-85,116,204,-44,49,-19,-29,25,13,
7,-6,-7,-15,-30,3582,-2550,-1825,-3562,2359,985,-337,1163,1113,-716,-444,84,117,202,-46,
52,19,29,-25,-13,6,-6,-6,-15,-30,3298,4184,-1191,477,377,-764,-240,-1,-2835,-982,
-45,-192,-84,-33,180,-40,-10,20,0,-14,-3,2,16,5,77,3297,-4184,-1190,477,-377,
761,-243,0,-2836,982,45,194,-87,-32,178,-38,10,-20,-1,14,-3,2,16,5,77,
2105,1558,3465,1982,1215,1951,418,2202,206,212,912,355,-47,347,81,-39,-3,44,75,1,
-3,-4,3,-19,-11,2107,-1558,3466,1982,-1215,-1950,418,2202,208,-212,-911,-355,-46,347,84,
-38,3,-44,-75,-1,-3,-5,3,-19,-11,2503,1796,3515,-1922,-1145,2305,536,-2044,162,110,
-806,417,-105,-327,-65,35,11,12,-65,1,-8,5,-4,21,4,2503,-1797,3514,-1923,1146,
-2302,534,-2045,164,-111,807,-416,-106,-328,-61,35,-11,-13,65,-1,-9,5,-3,20,4};
static const short hm_4_20[] = {
2289,1437,-1002,2607,1627,-529,-163,-983,526,841,-276,-97,195,-43,-392,427,146,-35,-21,3,
11,46,-6,-40,-139,2285,-1431,-1004,2608,-1623,524,-158,-989,525,-837,282,93,196,-41,-393,
428,-145,37,20,-4,11,46,-6,-40,-140,2558,-3,-967,3175,-2,3,-270,-278,2736,-2,
-3,2,-223,-187,252,419,0,-1,1,0,-12,-57,-9,35,210,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3671,2631,-1768,-3526,-2280,-952,-365,1163,1045,702,441,-73,110,183,-47,-24,-36,-27,20,14,
5,-6,-8,-13,-25,3670,-2630,-1769,-3526,2280,953,-363,1166,1043,-701,-442,72,112,180,-49,
-23,36,28,-19,-14,5,-7,-8,-13,-25,2687,3555,-1010,190,-172,-609,-187,-73,-2775,-1008,
6,-196,-85,21,30,513,87,15,16,-20,-1,11,16,-17,78,2684,-3553,-1009,191,173,
605,-189,-76,-2775,1008,-3,198,-88,23,27,514,-87,-14,-16,20,0,11,17,-16,78,
2088,1684,3650,1704,1104,2191,451,2123,-92,126,878,353,-26,334,-20,-76,-5,20,66,3,
-2,-1,-2,-23,-15,2089,-1684,3652,1704,-1103,-2191,452,2123,-92,-126,-877,-353,-25,334,-18,
-73,5,-20,-66,-3,-2,-1,-1,-23,-16,2362,1684,3358,-1924,-1127,2153,446,-2146,196,126,
-882,342,-105,-337,10,10,0,21,-70,-1,-7,4,1,24,5,2361,-1685,3357,-1925,1128,
-2151,444,-2145,198,-126,882,-342,-106,-338,14,10,0,-21,70,1,-7,4,2,24,5,
2229,2442,-1161,1527,1767,-773,-21,-382,-614,43,-318,-58,15,-127,310,-1201,-169,1,-29,13,
-2,-21,4,60,-21,2235,-2447,-1160,1526,-1768,774,-26,-377,-616,-45,312,61,14,-131,311,
-1201,169,-2,31,-13,-2,-21,4,59,-21};
static const short hm_5_1[] = {
19926,0,0,1631,1,-3,-409,2,348,0,1,2,-1,-82,1,30,0,0,1,1,
5,1,1,2,-3,0,0,0,0,0,0,0,0,0,0,-1};
static const short hm_5_2[] = {
12736,5725,0,399,2163,-2,2,1,9,362,0,-228,0,-16,0,-9,18,0,-8,0,
-1,0,0,1,1,1,0,1,0,-1,0,0,0,0,0,0,12736,-5725,0,397,
-2161,-1,1,1,8,-362,2,231,-2,-16,1,-11,-19,0,10,1,-1,0,2,2,
-1,-1,0,-2,0,1,0,0,0,0,0,0};
static const short hm_5_3[] = {
10696,5810,0,807,1886,-2,-445,0,-791,241,0,-196,0,-61,0,-510,-14,0,-12,0,
9,0,17,0,-118,-2,0,1,0,0,0,0,0,2,0,-8,10695,-5807,0,806,
-1885,-1,-446,0,-789,-241,2,198,-1,-62,0,-510,14,0,14,1,10,0,18,1,
-119,2,0,-1,0,0,0,0,0,2,0,-9,8585,-6,0,807,1,-3,1426,4,
3427,0,-2,-1,-1,211,2,2117,-1,-2,0,0,-39,1,-68,2,506,0,0,0,
0,0,0,0,0,-7,0,36};
static const short hm_5_4[] = {
7892,5485,0,3340,1537,-1,1198,0,-1419,164,0,-147,0,-151,1,-430,-13,0,-7,0,
-3,0,10,0,-102,-1,0,1,0,0,0,-1,0,2,0,-9,7891,-5483,0,3340,
-1536,0,1199,0,-1418,-167,2,150,-1,-152,1,-430,14,0,7,1,-2,0,11,1,
-103,2,0,-1,0,0,0,-1,0,2,0,-9,5816,-5,-1,2886,1,-2,2554,3,
2767,0,-2,-1,-1,87,2,1955,0,-2,0,0,-30,1,-69,1,447,0,0,0,
0,0,0,1,0,-6,0,30,9043,-1,0,-6159,1,-2,564,0,609,1,1,0,
-1,110,-1,221,-1,0,1,0,-4,0,-10,1,41,0,0,0,0,0,0,1,
0,-1,0,3};
static const short hm_5_5[] = {
6259,2891,0,3704,3304,0,1640,0,-72,619,0,-85,0,-168,0,-833,27,0,-17,0,
1,0,24,0,-215,-4,0,1,0,0,0,-1,0,1,0,-17,6258,-2889,0,3703,
-3302,2,1639,1,-71,-620,1,86,0,-168,1,-836,-25,0,17,0,1,0,25,1,
-216,4,0,-1,0,0,0,-1,0,2,0,-17,5202,-3,-1,3229,-2,-2,2141,3,
2410,-2,-2,0,0,84,2,1629,-1,-2,0,0,-26,1,-39,1,510,0,0,0,
0,0,0,1,0,-7,0,40,7615,4945,0,-3410,-1995,-1,672,1,-62,-263,0,-62,
0,31,1,136,-13,0,8,0,-4,0,-4,1,37,3,0,-1,0,-1,0,0,
0,0,0,2,7615,-4945,0,-3410,1996,-2,672,0,-62,262,2,62,-2,29,-1,140,
12,0,-7,0,-4,0,-2,1,37,-2,0,0,0,1,0,0,0,-1,0,2};
static const short hm_5_6[] = {
6259,2891,0,3704,3304,0,1640,0,-72,619,0,-85,0,-168,0,-833,27,0,-17,0,
1,0,24,0,-215,-4,0,1,0,0,0,-1,0,1,0,-17,6258,-2889,0,3703,
-3302,2,1639,1,-71,-620,1,86,0,-168,1,-836,-25,0,17,0,1,0,25,1,
-216,4,0,-1,0,0,0,-1,0,2,0,-17,5202,-3,-1,3229,-2,-2,2141,3,
2410,-2,-2,0,0,84,2,1629,-1,-2,0,0,-26,1,-39,1,510,0,0,0,
0,0,0,1,0,-7,0,40,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7615,4945,0,-3410,-1995,-1,672,1,-62,-263,0,-62,0,31,1,136,
-13,0,8,0,-4,0,-4,1,37,3,0,-1,0,-1,0,0,0,0,0,2,
7615,-4945,0,-3410,1996,-2,672,0,-62,262,2,62,-2,29,-1,140,12,0,-7,0,
-4,0,-2,1,37,-2,0,0,0,1,0,0,0,-1,0,2};
static const short hm_5_7[] = {
4822,1542,0,2805,2021,0,1403,-1,1273,1245,0,91,0,-25,0,-20,390,0,-3,0,
-13,0,-20,0,-311,18,0,-4,0,0,0,0,0,0,0,-52,4821,-1535,-1,2805,
-2018,2,1404,0,1274,-1247,3,-92,0,-22,1,-20,-389,1,2,-1,-14,1,-20,1,
-312,-18,0,4,0,0,0,0,0,0,0,-52,4887,-4,-1,3241,-2,-3,1386,4,
2235,0,-3,0,-1,-50,2,1259,0,-2,0,1,-2,0,0,1,484,0,0,0,
0,0,0,0,0,-2,0,59,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,6675,4279,0,-3539,-2476,0,230,1,248,171,-1,-81,0,43,0,254,
80,0,10,0,-2,0,-6,1,-5,2,0,-1,0,-1,0,0,0,0,0,-3,
6675,-4279,0,-3538,2476,-2,231,-1,244,-170,2,81,-1,41,-1,257,-82,0,-8,0,
-2,0,-4,1,-6,-2,0,1,0,1,0,0,0,0,0,-3,5119,3234,0,1901,
2315,0,1334,1,-2046,-783,1,-20,0,-141,0,-1180,-304,0,-9,0,-3,0,36,0,
75,-12,0,3,0,0,0,-1,0,0,0,25,5120,-3237,1,1900,-2316,0,1332,1,
-2041,779,0,23,-1,-142,0,-1182,305,-1,10,1,-1,0,36,0,74,12,0,-3,
0,-1,0,-1,0,0,0,25};
static const short hm_5_9[] = {
8874,5478,0,3835,1723,-1,1763,1,-725,246,-1,-159,0,-126,1,73,9,-1,-2,0,
-8,0,-8,1,11,0,0,1,0,-1,0,0,0,1,0,-1,8874,-5478,1,3835,
-1721,0,1762,1,-726,-249,1,162,-1,-127,1,71,-8,0,2,1,-7,0,-6,2,
10,0,0,-1,0,1,0,0,0,1,0,-1,9843,-1,0,-6445,1,-2,1079,0,
210,0,1,0,-1,138,-1,77,-1,0,1,0,-3,0,-7,1,-2,0,0,0,
0,0,0,1,0,0,0,-1};
static const short hm_5_10[] = {
6975,2887,0,4369,3315,-1,1949,1,773,672,-1,-63,0,-124,0,-176,57,-1,-2,0,
-7,0,7,0,-12,1,0,2,0,0,0,0,0,-1,0,-1,6975,-2887,0,4369,
-3314,1,1949,3,772,-674,0,64,-1,-124,2,-180,-55,0,2,0,-6,0,7,1,
-13,0,0,-2,0,0,0,0,0,-1,0,-1,8074,5009,0,-3530,-1993,0,1095,1,
-192,-267,0,-93,0,37,1,37,-25,0,2,0,-3,0,0,1,10,1,0,-1,
0,-1,0,0,0,0,0,0,8074,-5008,0,-3530,1995,-2,1095,-1,-193,267,2,94,
-2,34,-2,40,23,0,0,0,-3,0,2,1,9,-1,0,1,0,0,0,0,
0,0,0,0};
static const short hm_5_11[] = {
5803,2796,0,3477,3102,0,1215,0,307,718,0,-87,0,-95,0,-884,7,-1,-17,0,
3,0,19,0,-207,-4,0,1,0,0,0,-1,0,2,0,-16,5803,-2795,0,3477,
-3100,1,1215,1,306,-718,1,88,0,-95,1,-886,-5,0,18,0,4,0,20,1,
-208,4,0,-1,0,0,0,-1,0,2,0,-16,4733,-2,-1,3030,-2,-2,1746,3,
2469,-1,-2,-1,0,111,2,1551,-1,-2,0,0,-19,1,-46,1,500,0,0,0,
0,0,0,1,0,-7,0,38,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,6306,4778,0,-1468,-1823,-1,1070,0,-2395,-416,0,-33,0,-13,1,684,
10,0,7,1,-9,0,-6,1,40,2,0,-1,0,-1,0,0,0,1,0,4,
6306,-4778,0,-1468,1825,-2,1070,-1,-2393,413,2,36,-2,-15,-1,687,-11,0,-8,1,
-8,0,-4,1,39,-2,0,1,0,1,0,0,0,1,0,4,6030,0,0,-4876,
-1,0,1128,2,3345,2,1,-2,-1,71,-1,-759,-1,-1,2,-1,1,0,1,1,
11,0,0,0,0,0,0,0,0,-2,0,-2};
static const short hm_5_12[] = {
5603,2849,0,3410,2876,0,971,0,280,860,0,-87,-1,-27,0,-750,-16,-1,-8,0,
0,0,2,0,-263,-6,0,-1,0,0,0,-1,0,2,0,-10,5603,-2848,0,3410,
-2875,2,971,1,278,-858,1,88,0,-28,2,-752,18,0,9,0,0,0,2,1,
-264,7,0,1,0,0,0,-1,0,3,0,-10,4428,-2,-1,2941,-2,-2,1518,2,
2384,-1,-2,-1,0,120,2,1620,-1,-1,0,0,-14,1,-52,1,477,0,0,0,
0,0,0,2,0,-7,0,38,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,5393,4050,0,-630,-630,-2,1083,0,-2793,-1283,0,-67,1,-164,2,431,
137,1,-16,1,-7,0,55,1,247,6,0,3,0,0,0,1,0,-1,0,-10,
5394,-4051,0,-630,632,-3,1082,-1,-2790,1281,2,71,-2,-162,-1,433,-139,0,16,1,
-5,0,56,1,247,-6,0,-3,0,-1,0,1,0,-2,0,-11,5593,2327,0,-3685,
-2445,1,976,1,1639,1200,0,99,-1,130,-1,-113,-206,-1,31,0,-2,0,-37,1,
-103,-2,0,-4,0,-1,0,-1,0,0,0,9,5593,-2327,0,-3687,2446,-1,976,1,
1640,-1201,1,-102,0,125,0,-111,205,0,-29,0,-4,0,-35,0,-104,2,0,4,
0,1,0,0,0,0,0,9};
static const short hm_5_14[] = {
2885,2595,-2165,3944,3284,-1307,-536,-733,-452,593,-628,-396,200,-160,52,-804,33,-93,-93,37,
36,41,45,59,-238,-5,-3,-4,1,3,-2,1,1,7,5,-19,2885,-2593,-2165,3942,
-3282,1304,-536,-733,-452,-592,628,396,199,-160,51,-807,-30,94,93,-37,36,41,45,59,
-239,5,3,4,-2,-3,-2,1,1,7,5,-19,1990,-3,-2283,3539,-3,3,229,-341,
2269,-1,0,1,-259,20,-209,1741,-1,-1,0,0,-48,-82,-89,-98,527,0,0,0,
0,0,5,-2,-3,-14,-11,43,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,5668,5342,-775,-3543,-2235,-446,-213,-21,-192,-173,-43,-65,-12,6,12,127,
-16,5,-20,-19,-4,-2,-5,-2,25,3,0,-1,-1,-1,0,0,0,0,-1,2,
5667,-5342,-774,-3543,2236,443,-214,-22,-193,174,44,65,-14,3,9,131,14,-5,21,20,
-4,-3,-3,-1,24,-2,0,0,1,1,0,0,0,0,0,2,2551,1971,5098,2047,
1590,2947,874,996,-14,11,980,725,-91,166,0,-31,-5,106,177,21,-14,-8,-8,-23,
12,0,3,7,3,-1,0,0,0,-2,-1,1,2552,-1972,5100,2048,-1590,-2945,873,998,
-10,-12,-979,-723,-90,167,5,-30,5,-108,-177,-21,-13,-8,-7,-22,13,0,-3,-7,
-3,1,0,0,0,-2,-1,1};
static const short hm_5_15[] = {
2654,1969,-1403,2967,2490,-998,-299,-992,869,1190,-519,-202,289,-145,-115,-621,96,-119,-77,43,
29,62,11,22,-328,-6,-4,-5,2,2,-5,1,4,6,5,-24,2655,-1966,-1404,2966,
-2489,997,-297,-992,869,-1188,519,202,290,-146,-114,-625,-93,120,77,-43,28,62,11,22,
-329,6,4,5,-2,-2,-5,1,4,6,5,-24,2301,-2,-1214,3054,-2,3,136,-352,
2512,-2,-1,1,-392,-70,135,1384,-1,-1,0,0,-38,-132,-35,-39,484,0,0,0,
0,0,8,-3,-7,-10,-6,43,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,3550,2817,-1601,-3464,-2817,-454,-253,1365,992,993,314,-6,85,255,-291,126,
-32,-82,25,2,5,-11,-41,-7,-96,-5,1,-3,0,0,0,0,0,0,2,0,
3549,-2816,-1601,-3465,2817,455,-251,1366,991,-992,-316,5,86,252,-292,129,31,83,-25,-2,
4,-11,-40,-6,-96,5,-1,3,0,1,0,0,0,0,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,3147,4076,-1028,356,277,-726,-144,-392,
-3072,-1348,-295,-203,-106,-104,327,-55,-27,97,-28,-23,-6,6,45,19,223,8,1,4,
-1,-1,1,0,-1,-1,-5,5,3147,-4076,-1029,357,-276,721,-147,-393,-3073,1347,297,206,
-110,-103,324,-53,26,-96,27,25,-4,6,46,20,223,-8,-1,-4,1,1,2,0,
0,-1,-4,5,2152,1971,4049,1637,997,3093,458,1955,-207,181,731,628,-54,337,-223,-22,
3,33,103,8,-10,-1,-32,-20,-50,-2,1,1,1,0,0,0,0,-1,1,-1,
2152,-1971,4051,1637,-997,-3092,457,1958,-205,-181,-732,-626,-53,338,-218,-21,-3,-34,-104,-8,
-9,-1,-31,-19,-50,2,-1,-1,-1,0,0,0,0,0,1,-1,2631,0,4112,-2838,
2,-2,527,-3642,1060,-1,3,-1,-100,-633,475,-114,0,-1,1,0,-7,5,60,0,
48,0,0,0,0,0,0,0,0,1,-1,-2};
static const short hm_5_16[] = {
2938,2583,-1420,3687,3065,-847,-369,-1165,-427,524,-694,-289,107,-221,-131,-741,16,-117,-96,21,
14,38,18,64,-209,-5,-4,-5,1,2,-2,1,1,7,6,-16,2938,-2581,-1421,3686,
-3063,845,-369,-1164,-427,-524,694,290,106,-221,-131,-743,-14,117,96,-21,14,39,18,65,
-210,5,4,5,-1,-2,-2,1,1,7,6,-16,2017,-3,-1418,3003,-2,2,573,-822,
2382,-1,1,1,-235,-100,-269,1658,0,-1,0,0,-35,-72,-110,-67,486,0,0,0,
0,0,4,0,-4,-12,-9,38,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,4557,4473,-2304,-2690,-1830,-1616,-412,1233,-437,-214,462,-213,116,233,247,148,
-1,27,56,11,14,-11,24,-47,25,2,0,0,0,0,0,-1,0,-2,-2,2,
4557,-4473,-2305,-2690,1830,1615,-413,1236,-438,214,-463,213,114,233,242,151,-1,-26,-56,-10,
14,-11,25,-46,24,-2,0,-1,0,0,0,-1,0,-3,-1,1,1616,1429,3306,2317,
1584,1788,244,2530,-281,23,1394,283,-40,460,359,43,5,203,245,-31,1,-9,48,-58,
16,3,6,14,4,-3,0,-1,1,-4,-3,1,1618,-1429,3307,2317,-1583,-1788,243,2529,
-277,-25,-1393,-282,-40,461,361,43,-6,-203,-245,31,2,-10,49,-57,16,-3,-6,-14,
-4,3,1,-1,1,-3,-3,1,2943,2346,3693,-1809,-907,2924,570,-1883,392,-47,-943,573,
-159,-362,-348,-61,-20,-48,-153,-14,-24,8,-46,62,-2,-1,1,-4,-3,-1,0,1,
-1,3,2,0,2941,-2346,3694,-1809,908,-2922,568,-1886,392,48,946,-572,-160,-364,-343,-60,
20,45,154,13,-24,8,-44,62,-1,1,0,3,3,1,0,1,0,3,1,0};
static const short hm_5_17[] = {
2942,2571,-1330,3609,2964,-878,-303,-1105,-356,460,-722,-233,131,-186,23,-659,15,-109,-91,33,
24,35,35,132,-179,-3,-2,-5,2,3,-1,1,0,10,12,-13,2943,-2568,-1331,3609,
-2962,876,-302,-1104,-354,-460,722,234,130,-186,23,-661,-13,109,91,-33,25,35,35,132,
-180,3,2,5,-2,-3,-1,1,0,10,12,-13,2030,-3,-1401,2758,-2,1,698,-869,
2414,0,1,0,-160,14,-497,1547,0,-1,0,0,-37,-19,-113,-179,434,0,0,0,
0,0,2,1,1,-17,-20,32,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,4466,4378,-2123,-2702,-1862,-1503,-308,1199,-435,-177,431,-144,157,156,263,155,
2,33,43,33,23,-28,22,-43,23,2,-1,1,-1,2,0,-2,0,-2,-1,1,
4466,-4377,-2123,-2702,1863,1502,-308,1201,-436,178,-432,145,156,155,259,158,-3,-31,-42,-32,
23,-28,24,-42,23,-2,1,-1,1,-2,0,-2,0,-2,-1,1,1281,1475,2410,2114,
1585,1768,-317,2267,-730,-29,1377,246,-452,346,-159,-217,-22,184,221,-45,-86,-31,-42,-239,
-30,0,2,12,0,-5,-3,-3,0,-17,-22,-1,1282,-1477,2410,2113,-1585,-1769,-318,2267,
-729,29,-1376,-244,-453,347,-159,-217,22,-184,-221,45,-85,-31,-41,-238,-30,0,-2,-12,
0,5,-3,-3,0,-17,-22,-1,290,2,1765,1346,1,0,-742,2005,841,-2,1,0,
-226,95,1225,883,-1,0,0,0,-3,-27,149,519,179,0,0,0,0,0,-1,1,
-3,39,50,9,2359,2130,2906,-1641,-889,2936,-551,-1618,297,-57,-949,407,-911,-186,-496,-56,
-10,-67,-134,-71,-160,55,-70,124,15,0,2,-5,0,-5,-4,4,0,7,4,1,
2357,-2130,2908,-1640,889,-2936,-554,-1622,297,58,952,-407,-912,-188,-491,-55,9,65,135,71,
-160,56,-68,124,15,0,-2,4,0,5,-4,4,0,7,4,1,2284,0,4144,-308,
0,1,2632,-635,407,0,0,0,1706,-160,414,30,0,0,0,0,312,-41,88,-80,
-25,0,0,0,0,0,10,-3,2,-5,0,-1};
static const short hm_5_18[] = {
3088,2571,-1370,3008,2575,-849,-360,-932,428,755,-671,-166,90,-101,-26,-742,-32,-108,-73,18,
14,36,24,128,-213,-3,-1,-5,2,2,0,1,0,9,11,-11,3089,-2569,-1371,3007,
-2573,848,-358,-932,427,-753,671,166,90,-102,-26,-743,34,108,74,-19,14,37,24,128,
-214,3,1,5,-2,-2,0,1,0,9,11,-11,1961,-3,-1270,2510,-2,1,571,-784,
2248,0,1,0,-183,-15,-476,1525,0,-1,0,0,-26,-24,-109,-175,430,0,0,0,
0,0,2,2,1,-16,-19,30,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,3157,3890,-1652,-691,-1001,-1382,-179,729,-2583,-977,359,-155,183,-2,343,509,
116,48,15,47,17,-33,35,-47,132,1,-2,2,-3,2,-1,-1,-1,-1,-1,0,
3157,-3891,-1653,-690,1001,1380,-181,732,-2583,976,-359,157,182,0,339,511,-117,-47,-16,-45,
18,-33,35,-47,131,-1,1,-2,3,-2,0,-1,-1,-1,-1,-1,2875,1448,-724,-3681,
-2223,-308,-276,463,1924,1422,134,-47,-144,125,-80,-276,-232,-14,52,-27,-13,8,-13,13,
-60,5,1,-1,3,0,0,0,0,0,0,2,2875,-1447,-725,-3683,2224,308,-272,464,
1925,-1423,-134,45,-144,119,-80,-275,232,14,-51,26,-16,7,-11,13,-61,-5,-1,1,
-2,0,0,0,0,0,0,2,1389,1420,2230,1573,1307,1691,-334,2353,54,236,1342,231,
-425,355,-156,-361,-56,185,211,-46,-72,-23,-40,-228,-64,0,2,12,1,-4,-2,-2,
0,-16,-22,-2,1390,-1421,2230,1573,-1308,-1691,-333,2353,53,-236,-1342,-230,-426,355,-156,-361,
56,-185,-211,46,-72,-23,-39,-228,-64,0,-2,-12,-1,4,-2,-2,0,-16,-22,-2,
346,2,1645,1067,1,0,-731,2033,1092,-2,1,0,-189,65,1117,758,-1,0,0,0,
9,-20,138,506,166,0,0,0,0,0,0,1,-3,37,49,7,1645,1970,3033,-655,
-696,2859,-599,-1690,-898,-261,-892,368,-807,-188,-518,244,32,-78,-127,-56,-137,45,-78,128,
25,-2,2,-5,0,-3,-3,3,-1,8,4,3,1643,-1970,3035,-655,696,-2860,-603,-1694,
-896,260,895,-366,-809,-189,-514,245,-32,76,127,56,-137,46,-76,128,25,2,-2,5,
0,3,-3,3,-1,7,4,3,2317,-1,3893,-244,0,1,2660,-774,300,0,0,0,
1561,-190,506,-32,0,0,0,0,263,-40,100,-93,20,0,0,0,0,0,7,-2,
3,-5,2,-3};
static const short hm_5_19[] = {
2656,2017,-1282,2884,2391,-779,-278,-1008,831,1167,-605,-149,203,-162,-112,-620,90,-127,-94,44,
21,40,4,50,-326,-5,-4,-6,1,3,-3,1,1,7,7,-24,2656,-2014,-1283,2883,
-2390,777,-276,-1009,831,-1166,605,149,203,-162,-111,-624,-88,127,94,-45,21,40,4,50,
-327,5,4,6,-2,-3,-3,1,1,7,7,-24,2179,-2,-1287,2835,-1,2,211,-823,
2350,-1,0,1,-199,-86,-162,1432,-1,-1,0,0,-28,-70,-57,-62,488,0,0,0,
0,0,5,-2,-3,-10,-9,43,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,3421,2457,-1744,-3491,-2562,-1062,-278,1212,1141,966,593,-84,129,221,-38,32,
-52,-73,60,36,13,-12,-13,-38,-70,-3,-1,-3,0,1,-1,0,-1,-1,1,1,
3421,-2456,-1745,-3490,2563,1064,-275,1215,1139,-965,-595,82,131,218,-40,35,51,74,-59,-36,
11,-13,-12,-37,-71,3,0,3,0,-1,-1,0,-1,-1,1,1,3065,4038,-1022,587,
395,-765,-143,-22,-3110,-1339,-73,-223,-138,-42,202,-10,-22,57,4,-42,-11,1,32,14,
200,6,2,2,-1,-2,2,0,1,-1,-4,5,3065,-4039,-1022,587,-395,762,-146,-21,
-3111,1339,73,226,-142,-41,199,-7,21,-56,-4,45,-10,2,33,14,199,-6,-2,-2,
1,2,2,0,1,-1,-4,5,1844,1462,3410,1788,1253,2125,290,2440,254,300,1286,432,
-18,397,90,-53,-20,117,207,2,0,-12,3,-53,-34,-1,2,7,3,-1,0,0,
0,-2,-1,1,1846,-1462,3411,1788,-1253,-2124,291,2440,255,-300,-1285,-432,-17,397,94,-53,
20,-117,-207,-2,0,-12,4,-52,-34,1,-2,-7,-3,1,0,0,0,-2,-1,1,
2219,1616,3474,-1758,-1205,2572,450,-2265,177,155,-1126,481,-116,-373,-86,52,38,22,-174,1,
-15,13,-7,54,15,-2,0,1,-3,0,0,0,0,3,0,-2,2218,-1617,3473,-1759,
1206,-2569,448,-2266,179,-156,1127,-481,-116,-375,-81,52,-38,-24,174,-1,-15,13,-5,53,
15,2,0,-1,3,0,0,1,0,2,0,-2};
static const short hm_5_20[] = {
2187,1390,-993,2483,1791,-559,-132,-805,1086,1187,-394,-85,174,-81,-248,63,365,-95,-58,13,
16,63,-15,-32,-233,25,-6,-7,0,1,-3,2,6,-2,1,-57,2189,-1383,-997,2482,
-1788,557,-127,-808,1088,-1186,396,83,176,-78,-249,62,-364,97,57,-14,15,64,-14,-32,
-234,-25,7,7,-1,-1,-3,2,6,-2,1,-57,2453,-4,-826,3097,-2,2,-213,-482,
2449,-1,-1,1,-266,-142,107,1037,0,-2,1,1,-25,-95,-8,19,449,0,0,0,
0,0,5,-3,-7,-3,-2,60,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,3516,2566,-1705,-3442,-2480,-1021,-295,1214,1034,941,594,-62,124,197,-51,-47,
-95,-69,45,38,9,-11,-17,-33,-62,-5,0,-4,0,1,0,0,-1,0,1,3,
3515,-2565,-1705,-3442,2480,1022,-293,1217,1033,-940,-596,60,125,193,-53,-44,94,70,-44,-38,
8,-12,-16,-33,-63,5,0,3,0,-1,-1,0,-1,0,1,3,2462,3435,-879,278,
-128,-578,-131,-43,-2891,-1355,-15,-226,-180,13,69,626,217,40,46,-58,-8,6,37,-21,
259,23,-2,3,0,-2,2,-1,3,-6,-3,-18,2462,-3432,-880,278,129,576,-134,-44,
-2891,1354,17,230,-183,16,66,627,-218,-39,-47,60,-6,6,38,-20,259,-23,2,-3,
0,1,2,-1,3,-6,-3,-18,1820,1518,3587,1519,1119,2423,344,2371,-71,182,1250,400,
1,375,-21,-116,-21,46,176,5,1,-5,-6,-57,-44,0,0,2,2,1,0,0,
0,-2,0,-1,1821,-1518,3589,1519,-1119,-2423,345,2372,-70,-183,-1249,-399,3,376,-18,-114,
20,-47,-176,-5,1,-5,-5,-56,-44,0,0,-2,-2,-1,0,0,0,-2,0,-1,
2112,1529,3310,-1765,-1162,2392,376,-2384,194,180,-1243,385,-113,-379,13,15,7,49,-186,-4,
-12,11,5,60,12,-4,1,2,-2,0,0,0,0,3,-1,0,2111,-1530,3310,-1766,
1163,-2390,373,-2383,196,-181,1243,-385,-113,-381,17,14,-7,-51,187,4,-12,11,6,59,
12,4,-1,-2,2,0,0,0,0,2,-1,0,2059,2390,-1000,1534,1840,-816,-3,-541,
-1066,18,-386,-62,117,-121,210,-1269,-416,9,-74,37,3,-6,4,94,-196,-39,6,0,
0,1,-2,1,-5,10,2,41,2059,-2397,-997,1534,-1840,814,-6,-537,-1068,-17,383,64,
115,-124,211,-1267,416,-11,76,-36,4,-6,4,93,-196,39,-6,0,0,-1,-2,2,
-5,10,2,41};
static const short hm_6_1[] = {
19922,0,0,1663,1,-3,-445,2,379,0,1,2,-2,-101,1,38,-1,-1,2,1,
8,1,2,3,-6,1,-1,-2,0,-1,0,-2,0,2,0,-3,0,0,0,0,
0,0,0,0,0,0,0,0,0};
static const short hm_6_2[] = {
12663,5806,0,405,2342,-3,3,1,10,448,0,-283,0,-19,0,-11,30,-1,-13,1,
-2,1,0,1,2,5,-1,6,0,-3,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,12664,-5806,0,403,-2340,-1,1,2,8,-448,2,
285,-2,-20,1,-13,-31,0,16,1,-1,1,3,3,-1,-3,0,-8,0,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const short hm_6_3[] = {
10563,5854,0,813,2029,-2,-476,0,-845,296,0,-240,0,-74,0,-623,-23,0,-20,0,
14,0,27,1,-190,-8,0,3,0,-1,0,-1,0,7,0,-33,0,0,0,0,
0,0,0,0,0,0,0,0,-2,10563,-5852,0,812,-2028,-1,-477,0,-843,-297,2,
244,-2,-75,0,-623,23,0,22,1,15,0,29,2,-192,10,0,-4,0,0,0,
0,1,7,0,-34,0,0,0,0,0,0,0,0,0,0,0,0,-2,8487,-5,
-1,808,1,-3,1520,4,3650,0,-2,-1,-1,257,2,2578,-2,-3,0,1,-63,1,
-109,3,814,0,-1,-1,0,0,-1,2,0,-29,0,143,0,0,0,0,0,0,
0,0,0,0,-1,0,8};
static const short hm_6_4[] = {
7769,5509,0,3354,1648,-1,1287,0,-1517,202,0,-180,0,-185,1,-524,-21,0,-11,0,
-5,0,15,1,-164,-6,0,3,0,-2,0,-3,0,9,0,-34,0,0,0,0,
0,0,0,0,0,0,0,0,-2,7769,-5507,0,3354,-1647,0,1287,0,-1516,-205,2,
184,-1,-186,1,-524,23,0,12,1,-4,0,18,2,-166,7,0,-3,0,1,0,
-3,0,9,0,-34,0,0,0,0,0,0,0,0,0,0,0,0,-2,5732,-4,
-1,2897,2,-2,2727,3,2935,-1,-2,-1,-1,104,2,2376,-1,-3,-1,1,-48,1,
-111,2,718,-1,-1,0,0,0,-1,4,0,-22,0,119,0,0,0,0,0,0,
-1,0,0,0,-1,0,7,8904,-1,0,-6186,1,-2,604,0,650,1,1,-1,-1,
135,-1,269,-2,0,2,1,-6,0,-16,2,66,0,0,-1,0,0,0,2,0,
-4,0,12,0,0,0,0,0,0,0,0,0,0,0,0,1};
static const short hm_6_5[] = {
6130,2888,0,3702,3523,0,1752,0,-65,755,1,-103,-1,-204,0,-1003,44,-1,-27,0,
1,0,39,0,-341,-15,0,4,0,1,0,-2,0,5,0,-67,-1,0,0,0,
0,0,0,0,0,0,0,0,-3,6129,-2887,0,3700,-3520,2,1752,1,-65,-756,1,
105,0,-204,2,-1006,-40,0,28,0,2,0,39,1,-342,17,0,-4,0,-1,0,
-3,0,6,0,-67,1,0,0,0,0,0,0,0,0,0,1,0,-3,5102,-2,
-1,3228,-1,-2,2277,3,2535,-2,-3,-1,-1,98,2,1947,-1,-3,0,1,-41,1,
-62,2,805,-1,-1,0,0,0,0,4,0,-27,0,156,0,0,0,0,0,0,
-1,0,0,0,-1,0,9,7461,4942,0,-3408,-2127,-1,717,1,-68,-320,-1,-76,0,
38,1,164,-22,0,13,0,-7,0,-6,1,59,10,0,-4,0,-3,0,1,-1,
-1,0,10,1,0,0,0,0,0,0,0,0,0,0,0,0,7461,-4942,0,-3408,
2128,-3,716,-1,-69,320,2,76,-2,36,-2,168,19,0,-11,1,-6,0,-3,2,
58,-10,0,2,0,3,0,1,0,-2,0,9,-1,0,0,0,0,0,0,0,
0,0,0,0,0};
static const short hm_6_6[] = {
6130,2888,0,3702,3523,0,1752,0,-65,755,1,-103,-1,-204,0,-1003,44,-1,-27,0,
1,0,39,0,-341,-15,0,4,0,1,0,-2,0,5,0,-67,-1,0,0,0,
0,0,0,0,0,0,0,0,-3,6129,-2887,0,3700,-3520,2,1752,1,-65,-756,1,
105,0,-204,2,-1006,-40,0,28,0,2,0,39,1,-342,17,0,-4,0,-1,0,
-3,0,6,0,-67,1,0,0,0,0,0,0,0,0,0,1,0,-3,5102,-2,
-1,3228,-1,-2,2277,3,2535,-2,-3,-1,-1,98,2,1947,-1,-3,0,1,-41,1,
-62,2,805,-1,-1,0,0,0,0,4,0,-27,0,156,0,0,0,0,0,0,
-1,0,0,0,-1,0,9,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7461,4942,0,-3408,
-2127,-1,717,1,-68,-320,-1,-76,0,38,1,164,-22,0,13,0,-7,0,-6,1,
59,10,0,-4,0,-3,0,1,-1,-1,0,10,1,0,0,0,0,0,0,0,
0,0,0,0,0,7461,-4942,0,-3408,2128,-3,716,-1,-69,320,2,76,-2,36,-2,
168,19,0,-11,1,-6,0,-3,2,58,-10,0,2,0,3,0,1,0,-2,0,
9,-1,0,0,0,0,0,0,0,0,0,0,0,0};
static const short hm_6_7[] = {
4697,1530,1,2800,2145,0,1502,-1,1277,1506,0,110,0,-37,0,-11,622,-1,-4,0,
-20,0,-28,0,-426,72,0,-15,0,-1,0,1,0,0,0,-176,-1,0,-1,0,
0,0,0,0,0,0,1,0,-13,4695,-1527,0,2800,-2143,2,1503,1,1278,-1508,3,
-111,0,-33,2,-12,-621,1,3,-1,-20,1,-27,2,-428,-71,0,15,-1,1,0,
0,0,0,1,-177,2,0,1,0,0,0,0,0,0,0,1,0,-13,4759,-1,
-1,3205,-1,-3,1453,4,2460,0,-3,0,-1,-52,2,1511,0,-3,0,1,-5,1,
-5,1,687,-1,-1,0,0,0,0,1,0,-7,0,196,0,0,0,0,0,0,
0,0,0,0,-1,0,16,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,6501,4251,0,-3516,
-2625,0,245,1,260,207,-1,-99,0,52,0,309,128,0,15,0,-3,1,-10,1,
-6,10,0,-5,0,-2,0,1,-1,0,0,-11,-1,0,0,0,0,0,0,0,
0,0,0,0,-1,6501,-4251,0,-3515,2626,-3,245,-1,256,-205,3,98,-2,49,-2,
312,-130,0,-13,1,-3,0,-7,2,-6,-9,0,3,0,2,0,1,0,0,0,
-12,1,0,0,0,0,0,0,0,0,0,0,0,-1,4986,3215,0,1884,2454,0,
1409,1,-2141,-947,1,-24,0,-168,0,-1435,-486,0,-14,0,-5,-1,56,0,93,-46,
0,12,0,2,0,-2,0,-1,0,87,2,0,0,0,0,0,0,0,0,0,
-1,0,6,4987,-3215,1,1883,-2454,0,1407,1,-2136,942,0,28,-1,-169,1,-1438,487,
-1,16,1,-2,0,56,0,91,46,0,-12,0,-3,0,-2,0,-1,0,87,-2,
0,0,0,0,0,0,0,0,0,-1,0,6};
static const short hm_6_9[] = {
8786,5532,0,3873,1857,-1,1900,1,-781,303,-1,-196,0,-156,1,89,14,-1,-4,0,
-13,0,-13,1,18,2,0,5,0,-3,0,-2,0,4,0,-4,0,0,0,0,
0,0,0,0,0,0,0,0,0,8786,-5532,1,3873,-1856,0,1899,1,-783,-307,1,
200,-2,-157,1,88,-13,-1,4,1,-12,0,-10,3,16,-1,0,-6,0,2,0,
-1,0,4,0,-5,0,0,0,0,0,0,0,0,0,0,0,0,0,9744,-1,
0,-6508,1,-2,1162,0,226,1,2,0,-1,171,-1,95,-2,0,2,1,-5,0,
-11,2,-3,1,0,-1,0,0,0,3,0,-1,0,-2,0,0,0,0,0,0,
0,0,0,0,0,0,0};
static const short hm_6_10[] = {
6860,2896,0,4384,3550,-1,2087,1,828,823,-1,-78,0,-152,0,-216,92,-2,-3,0,
-11,0,11,1,-19,3,-1,9,0,-2,0,-1,0,-6,0,-5,0,0,0,0,
-1,0,0,0,0,0,0,0,0,6860,-2896,0,4383,-3549,1,2087,3,827,-825,0,
79,-1,-151,3,-221,-89,-1,4,0,-10,0,12,2,-21,-2,0,-9,0,1,0,
-1,0,-5,0,-5,0,0,0,0,1,0,0,0,0,0,0,0,0,7940,5025,
0,-3541,-2135,0,1172,1,-206,-327,0,-114,0,45,1,45,-40,0,3,0,-5,0,
0,1,16,3,0,-6,0,-2,0,1,-1,0,0,-1,0,0,0,0,0,0,
0,0,0,0,0,0,0,7940,-5025,0,-3541,2136,-2,1172,-1,-206,327,3,115,-2,
42,-2,49,38,0,-1,1,-4,0,3,2,15,-2,0,4,0,2,0,2,0,
-1,0,-2,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const short hm_6_11[] = {
5654,2780,0,3457,3290,0,1292,0,335,870,0,-106,-1,-114,0,-1060,11,-1,-27,0,
5,0,30,0,-328,-15,0,5,0,1,0,-3,0,7,0,-63,-1,0,0,0,
0,0,0,0,0,0,0,0,-3,5654,-2779,0,3457,-3288,2,1292,1,333,-870,1,
107,0,-114,2,-1063,-8,0,29,0,6,0,31,1,-329,16,0,-5,0,-2,0,
-3,0,7,0,-63,1,0,0,0,0,0,0,0,0,0,1,0,-3,4619,-2,
-1,3014,-1,-2,1847,3,2595,-2,-3,-1,0,132,2,1846,-1,-2,0,1,-30,1,
-72,2,788,-1,-1,0,0,0,0,5,0,-26,0,147,0,0,0,0,0,0,
-1,0,1,0,-1,0,8,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,6147,4751,0,-1459,
-1933,-1,1136,0,-2544,-505,-1,-40,0,-17,1,827,16,1,12,1,-14,0,-10,1,
63,8,0,-4,0,-3,0,0,-1,4,-1,15,1,0,0,0,0,0,0,0,
0,0,0,0,1,6147,-4751,0,-1460,1936,-3,1135,-1,-2542,501,2,44,-2,-18,-1,
830,-18,0,-12,1,-13,0,-7,2,62,-8,-1,3,0,2,0,1,0,3,0,
14,-1,0,0,0,0,0,0,0,0,0,0,0,1,5878,0,0,-4849,-1,0,
1198,2,3551,2,1,-3,-1,87,-1,-921,-1,-1,2,-1,2,0,2,1,18,1,
0,-1,0,1,0,1,0,-9,0,-6,0,0,0,0,0,0,0,0,0,0,
0,0,0};
static const short hm_6_12[] = {
5439,2822,0,3378,3040,0,1027,0,301,1040,0,-105,-1,-33,0,-896,-26,-1,-14,0,
0,0,2,0,-415,-25,0,-2,0,-2,0,-4,0,9,0,-40,0,0,0,0,
0,0,0,0,0,0,1,0,-3,5439,-2821,0,3377,-3040,2,1027,1,299,-1038,1,
107,0,-34,2,-898,29,0,15,0,0,0,3,1,-416,26,0,2,0,1,0,
-4,0,10,0,-40,0,0,0,0,0,0,0,0,0,0,1,0,-3,4304,-2,
-1,2914,-1,-2,1604,3,2508,-1,-3,-1,0,143,2,1929,-1,-2,0,1,-21,1,
-83,2,749,-1,-1,0,0,0,0,6,0,-26,0,146,0,0,0,0,0,0,
-1,0,1,0,-1,0,7,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,5238,4011,0,-624,
-669,-2,1145,0,-2956,-1549,0,-80,1,-199,2,517,219,1,-26,1,-11,0,87,1,
393,25,0,12,0,1,0,4,-1,-5,-1,-41,-1,0,0,0,0,0,0,0,
0,0,0,0,1,5238,-4011,0,-624,671,-3,1144,-1,-2953,1545,3,85,-3,-196,-2,
519,-221,0,25,2,-9,1,89,2,392,-25,-1,-13,0,-2,1,4,0,-6,0,
-42,1,0,0,0,0,0,0,0,0,0,0,0,1,5431,2307,0,-3651,-2581,1,
1032,1,1734,1447,0,119,-1,157,-1,-136,-328,-1,50,0,-3,1,-59,1,-165,-8,
0,-17,0,-2,0,-2,0,1,0,34,2,0,0,0,0,0,0,0,0,0,
0,0,0,5430,-2307,0,-3652,2581,-1,1032,1,1734,-1447,1,-122,0,151,0,-134,327,
0,-46,-1,-6,0,-57,1,-166,8,0,16,0,3,0,-1,0,1,0,35,-2,
0,0,0,0,0,0,0,0,0,0,0,0};
static const short hm_6_14[] = {
2789,2560,-2138,3890,3457,-1375,-560,-770,-458,714,-755,-476,238,-192,60,-949,52,-148,-148,58,
56,64,70,92,-371,-18,-13,-16,6,12,-9,4,5,25,20,-72,-2,0,0,0,
0,0,0,-1,0,0,2,1,-4,2789,-2559,-2138,3889,-3455,1372,-560,-769,-458,-713,755,
476,236,-191,59,-953,-48,150,148,-58,56,64,70,92,-373,20,13,16,-6,-12,-10,
4,6,26,21,-72,2,0,0,0,0,0,0,-1,0,0,2,1,-4,1931,-2,
-2249,3497,-3,4,229,-366,2344,-2,-1,2,-304,20,-246,2047,-1,-1,0,1,-74,-127,
-138,-152,818,-1,-1,0,0,0,20,-8,-12,-54,-40,163,0,0,0,0,0,0,
0,1,1,0,-4,-2,9,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,5483,5273,-765,-3496,
-2355,-470,-225,-22,-203,-209,-52,-78,-14,7,14,152,-25,8,-31,-30,-7,-4,-8,-3,
40,10,2,-2,-5,-4,1,0,0,0,-2,7,0,0,0,0,0,0,0,0,
0,0,0,0,0,5483,-5273,-764,-3496,2356,467,-225,-24,-204,209,54,79,-17,4,12,
156,22,-8,33,32,-7,-4,-5,-2,38,-9,-2,1,5,4,1,1,1,-1,-2,
7,0,0,0,0,0,0,0,0,0,0,0,0,0,2468,1946,5032,2021,1677,3103,
921,1049,-16,14,1180,872,-109,200,0,-38,-9,168,281,33,-22,-12,-12,-36,19,1,
12,27,12,-5,1,-1,-2,-7,-3,3,1,1,1,0,0,0,0,0,0,0,
0,0,0,2469,-1946,5033,2021,-1676,-3101,920,1052,-12,-15,-1179,-871,-108,201,6,-37,8,
-171,-281,-33,-21,-12,-11,-35,19,-1,-12,-28,-12,5,1,-1,-2,-6,-3,3,-1,
-1,-1,0,0,0,0,0,0,0,0,0,0};
static const short hm_6_15[] = {
2535,1918,-1369,2891,2587,-1036,-307,-1027,918,1412,-616,-240,337,-172,-133,-716,151,-187,-121,67,
44,95,16,33,-503,-22,-17,-21,8,9,-17,5,13,21,19,-89,-2,0,0,0,
0,0,0,-1,0,1,2,1,-5,2535,-1916,-1369,2890,-2586,1035,-305,-1026,918,-1411,616,
239,337,-172,-132,-721,-146,188,121,-68,43,95,16,34,-504,24,17,21,-8,-8,-17,
5,13,21,20,-88,2,0,0,0,0,0,0,-1,0,1,2,1,-4,2201,-1,
-1182,2980,-2,3,133,-379,2586,-2,-1,1,-450,-85,154,1600,-1,-2,1,1,-58,-201,
-53,-59,735,-1,-1,0,0,0,30,-12,-26,-37,-23,161,0,0,0,0,0,0,
1,2,0,-1,-3,-2,9,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3392,2746,-1561,-3377,
-2932,-473,-263,1421,1033,1181,374,-7,101,303,-346,150,-50,-128,40,3,8,-17,-65,-10,
-150,-19,3,-12,-1,-2,-1,-1,0,-1,7,1,0,0,0,0,0,0,0,0,
0,0,0,0,0,3391,-2745,-1560,-3377,2932,474,-261,1422,1032,-1179,-376,6,102,299,-347,
154,48,130,-39,-3,6,-18,-63,-10,-151,19,-3,11,1,2,-2,0,0,-1,8,
1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,3007,3973,-1002,347,290,-756,-151,-409,-3199,-1602,-351,-242,-124,-124,388,-70,-43,
152,-43,-36,-9,10,71,30,348,30,5,15,-4,-3,5,1,-2,-3,-18,19,1,
-1,0,0,0,0,0,0,0,0,0,0,0,3008,-3974,-1002,348,-288,751,-154,-410,
-3201,1601,354,245,-130,-123,385,-67,42,-151,43,39,-6,11,72,31,348,-30,-5,-15,
4,2,6,1,-1,-4,-17,18,-1,0,0,0,0,0,0,0,0,0,-1,0,
0,2056,1921,3947,1596,1038,3218,477,2035,-214,215,869,746,-66,401,-265,-24,4,53,162,
13,-16,-1,-50,-31,-77,-7,4,5,3,0,-1,1,0,-2,3,-2,0,1,0,
0,0,0,0,0,0,0,0,0,0,2056,-1921,3948,1596,-1038,-3216,476,2038,-212,-216,
-870,-745,-64,402,-259,-23,-5,-54,-163,-13,-15,-1,-48,-30,-77,7,-4,-5,-3,0,
-1,1,0,-2,3,-2,0,-1,0,0,0,0,0,0,0,0,0,0,0,2514,
0,4009,-2766,2,-2,548,-3790,1103,-1,4,-1,-118,-753,564,-137,0,-2,2,0,-12,
7,94,0,75,0,1,-1,0,0,1,-2,1,4,-4,-8,0,0,0,0,0,
0,0,0,0,0,-1,0,0};
static const short hm_6_16[] = {
2816,2527,-1389,3605,3200,-883,-381,-1215,-432,626,-827,-345,125,-263,-158,-871,25,-184,-152,33,
22,60,28,100,-324,-18,-15,-21,5,6,-8,3,4,26,21,-59,-1,0,0,0,
0,0,0,0,0,0,2,1,-3,2816,-2525,-1390,3604,-3198,881,-380,-1214,-432,-625,826,
346,125,-263,-157,-873,-21,184,152,-33,22,60,27,101,-325,19,15,21,-6,-7,-8,
3,4,26,22,-59,1,0,0,0,0,0,0,0,0,0,2,1,-3,1940,-2,
-1388,2945,-2,1,585,-862,2447,-1,2,1,-275,-121,-319,1940,-1,-1,1,1,-54,-111,
-170,-104,751,-1,-1,0,0,0,16,1,-15,-47,-35,143,0,0,0,0,0,0,
0,1,1,0,-3,-2,8,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4370,4377,-2254,-2632,
-1911,-1688,-431,1288,-457,-255,551,-254,138,279,294,176,-1,43,88,17,22,-17,37,-74,
40,10,-1,2,-1,2,1,-3,0,-10,-6,6,0,0,0,0,0,0,0,0,
0,0,0,0,0,4371,-4376,-2255,-2632,1911,1687,-432,1291,-459,255,-553,254,136,277,289,
180,-1,-40,-87,-16,23,-18,39,-73,38,-9,0,-3,1,-2,2,-3,1,-10,-5,
5,0,0,0,0,0,0,0,0,0,0,0,0,0,1550,1398,3234,2268,1654,1865,
254,2641,-294,28,1661,337,-48,549,429,50,8,320,385,-49,2,-15,76,-92,25,10,
24,55,15,-12,2,-4,3,-14,-11,2,1,1,1,1,0,0,0,0,0,0,
-1,0,0,1552,-1399,3235,2267,-1654,-1865,254,2641,-290,-30,-1660,-336,-48,550,431,51,-9,
-319,-386,50,3,-15,77,-90,25,-10,-24,-55,-15,12,2,-5,3,-13,-11,2,-1,
-1,-1,-1,0,0,0,0,0,0,-1,0,0,2822,2295,3613,-1770,-947,3054,595,-1966,
409,-56,-1126,684,-190,-432,-416,-74,-32,-75,-242,-21,-38,12,-72,98,-3,-2,2,-14,
-11,-2,-1,4,-2,12,6,1,0,0,0,0,0,0,0,0,0,0,0,0,
0,2821,-2296,3614,-1770,948,-3052,593,-1970,409,57,1128,-683,-191,-434,-409,-72,31,72,243,
21,-38,12,-69,97,-2,2,-2,12,11,2,-1,5,-2,12,6,0,0,0,0,
0,0,0,0,0,0,0,0,0,0};
static const short hm_6_17[] = {
2808,2501,-1294,3512,3078,-911,-301,-1142,-366,546,-856,-276,152,-216,6,-777,23,-170,-142,52,
36,54,51,191,-277,-12,-7,-19,8,11,-2,5,-1,36,42,-49,-1,1,0,0,
1,0,0,0,-1,0,3,2,-2,2808,-2499,-1295,3512,-3075,910,-301,-1142,-364,-546,855,
277,151,-216,6,-779,-20,170,142,-52,37,54,51,191,-278,13,7,19,-8,-11,-2,
5,-1,37,43,-49,1,-1,0,0,-1,0,0,0,-1,0,3,2,-2,1935,-2,
-1364,2685,-2,1,700,-910,2490,0,1,0,-181,8,-551,1818,0,-1,0,0,-54,-28,
-169,-252,671,0,-1,0,0,0,8,5,5,-59,-70,121,0,0,0,0,0,0,
0,0,1,1,-5,-4,6,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4259,4259,-2065,-2629,
-1934,-1561,-320,1245,-452,-211,511,-171,187,185,313,184,3,52,67,51,35,-43,35,-67,
37,8,-3,4,-5,8,1,-7,-2,-8,-5,6,0,0,0,0,0,0,0,0,
0,0,0,0,0,4260,-4259,-2066,-2629,1934,1561,-320,1248,-453,211,-512,172,186,184,308,
188,-5,-49,-66,-50,36,-44,37,-66,35,-7,2,-5,5,-9,1,-7,-1,-8,-4,
5,0,0,0,0,0,0,0,0,0,0,0,0,0,1216,1436,2343,2052,1646,1836,
-349,2343,-750,-35,1631,292,-532,403,-154,-254,-34,288,346,-71,-132,-47,-58,-347,-48,-2,
6,47,1,-18,-10,-12,1,-61,-77,-5,0,-1,0,1,-1,0,0,0,1,-1,
-5,-4,0,1217,-1436,2344,2052,-1648,-1837,-349,2343,-748,34,-1630,-290,-533,404,-154,-255,34,
-287,-346,71,-131,-47,-58,-346,-49,2,-7,-48,-1,18,-10,-12,1,-60,-77,-5,0,
1,0,-1,1,0,0,0,1,-1,-5,-4,0,290,1,1720,1321,2,1,-716,2112,
847,-2,1,0,-281,136,1353,1037,-2,0,-1,0,-12,-45,213,736,284,-1,-1,0,
0,0,-4,3,-12,136,174,35,0,0,0,0,0,0,0,0,-2,3,13,10,
1,2251,2073,2828,-1595,-924,3050,-569,-1679,305,-68,-1125,484,-1082,-220,-595,-69,-15,-105,-209,
-112,-251,86,-111,189,24,1,9,-18,1,-19,-16,16,-2,27,14,3,0,1,0,
0,1,0,0,0,0,1,1,1,0,2249,-2073,2829,-1595,924,-3050,-572,-1682,305,69,
1128,-483,-1084,-222,-589,-67,14,101,211,111,-251,87,-108,189,24,-1,-8,17,-1,19,
-16,16,-2,27,13,3,0,-1,0,0,-1,0,0,0,0,0,1,1,0,2178,
0,4032,-300,0,1,2733,-660,425,0,0,-1,2025,-190,493,37,1,0,0,0,490,
-64,138,-124,-38,0,0,0,0,0,39,-11,8,-20,1,-5,0,0,0,0,0,
0,0,0,0,-1,0,0,0};
static const short hm_6_18[] = {
2926,2483,-1324,2907,2656,-875,-359,-956,443,889,-791,-196,103,-115,-49,-870,-50,-168,-114,29,
20,56,34,185,-329,-11,-4,-19,8,8,-1,3,0,33,40,-41,-1,0,0,0,
1,0,0,0,-1,0,2,2,-2,2927,-2482,-1325,2906,-2654,874,-357,-956,442,-887,790,
196,103,-116,-48,-871,53,168,114,-29,20,56,34,185,-330,12,4,19,-8,-8,-1,
3,0,33,40,-41,1,0,0,0,-1,0,0,0,-1,0,2,2,-2,1855,-2,
-1226,2424,-2,1,566,-818,2314,0,1,0,-210,-25,-528,1782,0,-1,0,0,-38,-36,
-161,-245,661,0,-1,0,0,0,7,7,3,-56,-68,114,0,0,0,0,0,0,
0,0,1,0,-4,-4,5,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2990,3759,-1596,-667,
-1032,-1426,-185,753,-2665,-1152,422,-182,216,-2,404,598,180,75,23,73,26,-51,54,-74,
204,3,-6,7,-10,7,-2,-4,-3,-5,-3,-2,0,0,0,0,0,0,0,0,
0,0,0,0,1,2990,-3759,-1597,-666,1033,1424,-187,755,-2666,1150,-423,186,215,0,400,
600,-182,-72,-24,-70,28,-51,55,-74,203,-3,6,-7,10,-8,-2,-4,-2,-6,-2,
-2,0,0,0,0,0,0,0,0,0,0,0,0,1,2723,1398,-700,-3557,-2293,-317,
-285,477,1985,1676,158,-55,-170,147,-94,-325,-362,-22,81,-42,-21,13,-20,20,-92,20,
5,-3,10,0,1,-1,0,0,-1,7,-1,0,0,0,0,0,0,0,0,0,
0,0,0,2723,-1397,-701,-3558,2294,317,-281,479,1986,-1677,-158,53,-170,141,-94,-324,361,
22,-79,41,-24,11,-17,20,-94,-19,-5,2,-9,1,0,0,1,-1,-1,7,1,
0,0,0,0,0,0,0,0,0,0,0,0,1310,1372,2153,1517,1348,1743,-363,2415,
58,279,1580,272,-497,410,-153,-421,-86,288,328,-72,-111,-35,-55,-328,-100,2,6,44,
2,-16,-7,-9,1,-58,-76,-7,0,-1,0,1,-1,0,0,0,1,-1,-5,-4,
-1,1311,-1372,2154,1517,-1349,-1744,-362,2415,58,-280,-1580,-271,-497,410,-153,-421,87,-288,-328,
71,-110,-35,-54,-328,-101,-1,-7,-44,-2,16,-7,-9,1,-57,-76,-7,0,1,0,
-1,1,0,0,0,1,-1,-5,-4,0,341,1,1590,1038,2,1,-701,2130,1119,-1,
1,0,-234,99,1229,881,-2,0,-1,0,8,-34,196,713,262,-1,-1,0,0,0,
-1,3,-12,129,168,29,0,0,0,0,0,0,0,0,-2,2,12,10,1,1559,
1904,2931,-632,-717,2949,-613,-1740,-928,-307,-1050,434,-952,-220,-619,284,49,-121,-197,-87,-214,
71,-122,193,39,-6,7,-20,0,-13,-13,13,-4,28,13,12,0,0,0,0,0,
0,0,0,0,1,1,1,0,1558,-1904,2932,-632,718,-2950,-618,-1744,-926,306,1054,-431,
-954,-221,-614,285,-50,118,197,87,-213,71,-120,193,39,6,-7,19,0,12,-13,13,
-4,27,12,12,0,0,0,0,0,0,0,0,0,1,1,1,0,2194,-1,3761,
-236,0,1,2743,-798,309,0,0,-1,1840,-224,598,-37,0,0,0,0,409,-63,157,
-144,31,0,0,0,0,0,28,-8,10,-20,6,-13,0,0,0,0,0,0,0,
0,0,-1,0,0,0};
static const short hm_6_19[] = {
2526,1958,-1245,2798,2477,-805,-283,-1042,869,1379,-714,-176,235,-191,-132,-711,141,-197,-147,69,
33,61,5,77,-497,-19,-17,-24,6,10,-12,5,4,25,26,-89,-2,0,0,0,
0,0,0,-1,0,0,2,1,-5,2527,-1956,-1246,2798,-2475,804,-281,-1042,869,-1378,714,
176,236,-191,-131,-715,-137,198,147,-70,32,62,6,77,-498,21,17,24,-6,-10,-12,
4,3,25,26,-89,2,0,0,0,0,0,0,-1,0,0,2,1,-5,2078,-1,
-1249,2756,-1,2,209,-860,2420,-1,1,1,-226,-104,-192,1649,-1,-1,1,1,-42,-106,
-88,-93,737,0,-1,0,0,0,17,-7,-12,-37,-33,159,0,0,0,0,0,0,
0,1,0,0,-3,-2,9,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3257,2386,-1694,-3390,
-2657,-1101,-288,1256,1183,1144,703,-99,153,262,-45,39,-82,-114,95,56,20,-19,-20,-59,
-109,-10,-2,-11,-1,5,-2,-2,-2,-4,5,3,0,0,0,0,0,0,0,0,
0,0,0,0,0,3256,-2385,-1694,-3389,2657,1102,-285,1260,1181,-1143,-705,98,155,258,-48,
43,80,116,-93,-56,18,-20,-18,-59,-111,10,2,10,2,-5,-2,-1,-2,-5,5,
3,0,0,0,0,0,0,0,0,0,0,0,0,0,2917,3921,-992,570,411,-794,
-150,-24,-3225,-1585,-88,-264,-162,-50,239,-17,-34,89,5,-66,-18,3,51,22,309,22,
7,7,-2,-8,6,0,4,-5,-15,20,1,0,0,0,0,0,0,0,1,0,
0,0,1,2918,-3922,-992,571,-410,791,-153,-23,-3227,1585,88,268,-167,-49,236,-15,33,
-88,-7,70,-15,3,52,23,309,-22,-8,-7,2,7,7,0,5,-5,-15,19,-1,
0,0,0,0,0,0,0,0,0,0,-1,1,1756,1420,3311,1736,1300,2202,301,2530,
263,356,1523,512,-21,470,107,-63,-32,182,324,3,-1,-19,5,-83,-53,-5,8,27,
12,-5,0,-1,-1,-10,-2,6,1,0,0,0,0,0,0,0,0,0,0,0,
0,1757,-1420,3312,1737,-1300,-2201,301,2530,264,-357,-1522,-512,-20,470,111,-62,31,-183,-324,
-4,0,-19,6,-81,-53,5,-9,-27,-12,5,0,-1,-1,-9,-2,6,-1,0,0,
0,0,0,0,0,0,0,0,0,0,2112,1569,3373,-1707,-1249,2666,466,-2348,184,183,
-1334,571,-137,-442,-102,61,60,35,-271,2,-23,20,-11,84,24,-6,-1,4,-10,1,
0,2,0,10,1,-7,0,0,0,0,0,0,0,0,0,0,0,0,0,2111,
-1570,3372,-1708,1251,-2663,464,-2348,186,-184,1334,-570,-138,-444,-96,61,-60,-38,273,-2,-23,
21,-8,83,24,6,2,-5,10,-1,0,2,0,9,0,-7,0,0,0,0,0,
0,0,0,0,0,0,0,0};
static const short hm_6_20[] = {
2075,1343,-963,2405,1852,-577,-130,-830,1160,1403,-466,-100,190,-110,-236,-41,564,-149,-91,21,
22,79,-24,-29,-335,95,-24,-26,2,3,-11,6,17,-1,4,-165,0,-1,-3,0,
0,0,0,-1,0,1,1,1,-15,2075,-1341,-967,2406,-1850,576,-124,-833,1161,-1403,466,
98,192,-107,-237,-42,-563,151,89,-23,21,80,-23,-27,-336,-95,25,25,-3,-3,-11,
5,17,-1,5,-165,0,1,2,0,0,0,0,-1,0,1,1,1,-15,2331,-1,
-798,2997,-1,1,-227,-500,2497,-1,0,1,-298,-154,72,1336,0,-2,1,1,-35,-130,
-13,8,673,0,-1,0,0,0,19,-12,-20,-15,-9,181,0,0,0,0,0,0,
1,1,-1,-1,-2,-1,14,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3338,2485,-1651,-3334,
-2564,-1056,-305,1255,1068,1111,702,-73,147,233,-62,-52,-147,-108,71,59,14,-17,-27,-52,
-98,-18,1,-14,0,3,-2,-1,-3,-1,5,11,1,0,0,0,0,0,0,0,
0,0,0,0,0,3338,-2484,-1651,-3334,2564,1057,-303,1258,1067,-1110,-704,72,148,229,-64,
-49,146,109,-69,-60,12,-18,-25,-52,-99,18,-1,13,0,-3,-2,0,-3,-1,5,
11,-1,0,0,0,0,0,0,0,0,0,0,0,1,2337,3325,-851,269,-132,-597,
-133,-45,-2977,-1599,-17,-266,-217,10,100,702,335,63,72,-90,-13,3,57,-26,412,86,
-8,12,0,-7,9,-4,9,-23,-13,-52,-2,-1,-2,1,-1,0,0,0,0,0,
-1,0,-5,2336,-3324,-853,270,132,595,-136,-45,-2977,1597,19,271,-221,14,95,703,-335,
-61,-74,93,-10,4,59,-24,412,-86,7,-13,0,5,10,-5,10,-23,-12,-52,2,
1,2,-1,1,0,0,0,0,0,-1,0,-5,1728,1471,3474,1471,1157,2504,356,2452,
-72,215,1477,472,1,443,-23,-141,-31,73,275,8,1,-9,-10,-87,-67,1,-1,8,
10,2,-1,0,0,-7,2,-1,1,0,0,0,0,0,0,0,0,0,0,0,
-1,1729,-1470,3475,1471,-1157,-2504,356,2452,-71,-215,-1476,-472,3,443,-19,-139,30,-73,-275,
-8,2,-9,-8,-86,-67,-2,1,-8,-9,-2,-1,0,0,-6,1,-2,-1,0,0,
0,0,0,0,0,0,0,0,0,-1,2005,1481,3206,-1709,-1201,2473,389,-2465,200,213,
-1469,455,-133,-448,13,21,12,77,-290,-6,-18,18,7,93,17,-17,4,8,-9,-1,
0,2,0,10,-2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,2004,
-1482,3205,-1711,1203,-2471,386,-2463,202,-214,1469,-454,-133,-449,19,20,-12,-80,291,6,-19,
18,10,91,17,17,-3,-9,9,1,0,2,0,9,-3,-2,0,0,0,0,0,
0,0,0,0,0,0,0,0,1956,2319,-967,1485,1902,-844,-9,-560,-1133,18,-457,-75,
151,-130,201,-1400,-643,15,-116,56,8,7,7,129,-327,-148,24,1,-1,3,-7,6,
-13,36,9,115,1,1,3,-1,0,-1,0,0,0,0,1,-1,13,1957,-2320,-965,
1484,-1900,842,-13,-557,-1135,-17,455,77,148,-135,202,-1399,642,-16,118,-55,9,6,6,
127,-327,148,-23,0,2,-3,-7,6,-13,36,9,115,-1,-1,-3,1,0,1,0,
0,0,0,1,-1,13};
static const short *const hm[7][21] = {
    {0, hm_0_1, hm_0_2, hm_0_3, hm_0_4, hm_0_5, hm_0_6, hm_0_7, 0, hm_0_9, hm_0_10, hm_0_11, hm_0_12, 0, hm_0_14, hm_0_15, hm_0_16, hm_0_17, hm_0_18, hm_0_19, hm_0_20},
    {0, hm_1_1, hm_1_2, hm_1_3, hm_1_4, hm_1_5, hm_1_6, hm_1_7, 0, hm_1_9, hm_1_10, hm_1_11, hm_1_12, 0, hm_1_14, hm_1_15, hm_1_16, hm_1_17, hm_1_18, hm_1_19, hm_1_20},
    {0, hm_2_1, hm_2_2, hm_2_3, hm_2_4, hm_2_5, hm_2_6, hm_2_7, 0, hm_2_9, hm_2_10, hm_2_11, hm_2_12, 0, hm_2_14, hm_2_15, hm_2_16, hm_2_17, hm_2_18, hm_2_19, hm_2_20},
    {0, hm_3_1, hm_3_2, hm_3_3, hm_3_4, hm_3_5, hm_3_6, hm_3_7, 0, hm_3_9, hm_3_10, hm_3_11, hm_3_12, 0, hm_3_14, hm_3_15, hm_3_16, hm_3_17, hm_3_18, hm_3_19, hm_3_20},
    {0, hm_4_1, hm_4_2, hm_4_3, hm_4_4, hm_4_5, hm_4_6, hm_4_7, 0, hm_4_9, hm_4_10, hm_4_11, hm_4_12, 0, hm_4_14, hm_4_15, hm_4_16, hm_4_17, hm_4_18, hm_4_19, hm_4_20},
    {0, hm_5_1, hm_5_2, hm_5_3, hm_5_4, hm_5_5, hm_5_6, hm_5_7, 0, hm_5_9, hm_5_10, hm_5_11, hm_5_12, 0, hm_5_14, hm_5_15, hm_5_16, hm_5_17, hm_5_18, hm_5_19, hm_5_20},
    {0, hm_6_1, hm_6_2, hm_6_3, hm_6_4, hm_6_5, hm_6_6, hm_6_7, 0, hm_6_9, hm_6_10, hm_6_11, hm_6_12, 0, hm_6_14, hm_6_15, hm_6_16, hm_6_17, hm_6_18, hm_6_19, hm_6_20},
};
#endif
