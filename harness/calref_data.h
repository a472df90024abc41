/* frozen tables: years of the astronomical Persian calendar with 366 days; packed Chinese years */
static const long PERSIAN_START_JD = 1547650;
static const short persian_leaps[] = {-1093,-1089,-1085,-1081,-1077,-1073,-1069,-1064,-1060,-1056,-1052,-1048,-1044,-1040,-1036,-1031,-1027,-1023,-1019,-1015,-1011,-1007,-1003,-998,-994,-990,-986,-982,-978,-974,-970,-965,-961,-957,-953,-949,-945,-941,-936,-932,-928,-924,-920,-916,-912,-908,-903,-899,-895,-891,-887,-883,-879,-875,-870,-866,-862,-858,-854,-850,-846,-842,-837,-833,-829,-825,-821,-817,-813,-809,-804,-800,-796,-792,-788,-784,-780,-776,-771,-767,-763,-759,-755,-751,-747,-743,-738,-734,-730,-726,-722,-718,-714,-710,-705,-701,-697,-693,-689,-685,-681,-676,-672,-668,-664,-660,-656,-652,-648,-643,-639,-635,-631,-627,-623,-619,-615,-610,-606,-602,-598,-594,-590,-586,-582,-577,-573,-569,-565,-561,-557,-553,-549,-544,-540,-536,-532,-528,-524,-520,-516,-511,-507,-503,-499,-495,-491,-487,-483,-478,-474,-470,-466,-462,-458,-454,-449,-445,-441,-437,-433,-429,-425,-421,-416,-412,-408,-404,-400,-396,-392,-388,-383,-379,-375,-371,-367,-363,-359,-355,-350,-346,-342,-338,-334,-330,-326,-322,-317,-313,-309,-305,-301,-297,-293,-289,-284,-280,-276,-272,-268,-264,-260,-256,-251,-247,-243,-239,-235,-231,-227,-223,-218,-214,-210,-206,-202,-198,-194,-189,-185,-181,-177,-173,-169,-165,-161,-156,-152,-148,-144,-140,-136,-132,-128,-123,-119,-115,-111,-107,-103,-99,-95,-90,-86,-82,-78,-74,-70,-66,-62,-57,-53,-49,-45,-41,-37,-33,-28,-24,-20,-16,-12,-8,-4,0,4,9,13,17,21,25,29,33,38,42,46,50,54,58,62,66,71,75,79,83,87,91,95,99,104,108,112,116,120,124,128,132,137,141,145,149,153,157,161,165,170,174,178,182,186,190,194,199,203,207,211,215,219,223,227,232,236,240,244,248,252,256,260,265,269,273,277,281,285,289,293,298,302,306,310,314,318,322,326,331,335,339,343,347,351,355,359,364,368,372,376,380,384,388,392,397,401,405,409,413,417,421,426,430,434,438,442,446,450,454,459,463,467,471,475,479,483,487,492,496,500,504,508,512,516,520,525,529,533,537,541,545,549,553,558,562,566,570,574,578,582,586,591,595,599,603,607,611,615,619,624,628,632,636,640,644,648,652,657,661,665,669,673,677,681,686,690,694,698,702,706,710,714,719,723,727,731,735,739,743,747,751,756,760,764,768,772,776,780,784,789,793,797,801,805,809,813,818,822,826,830,834,838,842,846,851,855,859,863,867,871,875,879,884,888,892,896,900,904,908,912,917,921,925,929,933,937,941,945,950,954,958,962,966,970,974,978,983,987,991,995,999,1003,1007,1011,1016,1020,1024,1028,1032,1036,1040,1044,1049,1053,1057,1061,1065,1069,1073,1077,1082,1086,1090,1094,1098,1102,1106,1111,1115,1119,1123,1127,1131,1135,1139,1144,1148,1152,1156,1160,1164,1168,1172,1176,1181,1185,1189,1193,1197,1201,1205,1210,1214,1218,1222,1226,1230,1234,1238,1243,1247,1251,1255,1259,1263,1267,1271,1276,1280,1284,1288,1292,1296,1300,1304,1309,1313,1317,1321,1325,1329,1333,1337,1342,1346,1350,1354,1358,1362,1366,1370,1375,1379,1383,1387,1391,1395,1399,1403,1408,1412,1416,1420,1424,1428,1432,1436,1441,1445,1449,1453,1457,1461,1465,1469,1474,1478,1482,1486,1490,1494,1498,1502,1507,1511,1515,1519,1523,1527,1531,1535,1540,1544,1548,1552,1556,1560,1564,1568,1573,1577,1581,1585,1589,1593,1597,1601,1606,1610,1614,1618,1622,1626,1630,1635,1639,1643,1647,1651,1655,1659,1663,1668,1672,1676,1680,1684,1688,1692,1696,1700,1705,1709,1713,1717,1721,1725,1729,1733,1738,1742,1746,1750,1754,1758,1762,1767,1771,1775,1779,1783,1787,1791,1795,1800,1804,1808,1812,1816,1820,1824,1828,1833,1837,1841,1845,1849,1853,1857,1861,1865,1870,1874,1878,1882,1886,1890,1894,1899,1903,1907,1911,1915,1919,1923,1927,1932,1936,1940,1944,1948,1952,1956,1960,1965,1969,1973,1977,1981,1985,1989,1993,1998,2002,2006,2010,2014,2018,2022,2026,2031,2035,2039,2043,2047,2051,2055,2059,2064,2068,2072,2076,2080,2084,2088,2092,2097,2101,2105,2109,2113,2117,2121,2125,2130,2134,2138,2142,2146,2150,2154,2158,2163,2167,2171,2175,2179,2183,2187,2191,2196,2200,2204,2208,2212,2216,2220,2224,2229,2233,2237,2241,2245,2249,2253,2257,2262,2266,2270,2274,2278,2282,2286,2290,2295,2299,2303,2307,2311,2315,2319,2323,};
static const int CHI_FIRST = -363, CHI_N = 10000;
static const unsigned chi_packed[] = {
11700068,10438473,9205395,11355733,9978541,8725869,10896757,9849706,11815858,10668964,9444169,11586378,10209877,8966837,11125430,9962933,11929049,10783698,9673636,11816356,
10440010,9202326,11242075,10093274,8725973,10897129,9850322,11929426,10555045,9440586,11470157,10209963,8967018,11125620,9963369,12045225,10782546,9557669,11700901,10437973,
9087661,11242165,10093492,8842153,10898345,9845650,11930962,10668710,9327957,11470170,10210010,9082324,11126228,9965001,12046025,10898834,9562794,11586219,10437978,9194202,
11242218,10094308,8842953,11011913,9729683,11814485,10551981,9323885,11355509,10210162,9082724,11242404,9866057,8615573,10783381,9565365,11584214,10323381,9202610,11357138,
10095524,8854345,11013450,9833110,11700843,10552026,9315801,11470569,10211026,9080484,11128485,10079562,11928909,10668717,9556842,11699060,10323817,9205586,11355986,10094245,
8738123,10896725,9726637,11815605,10552756,9325481,11471785,10324882,8968869,11127466,9864534,8612533,10668762,9565652,11699668,10440137,9207186,11357586,10095274,8840534,
10782059,9734874,11815658,10667748,9326281,11470665,10208917,8965419,11010733,9848173,11928949,10783602,9615204,11701156,10439497,9205397,11242133,9979061,8725941,10896821,
9735090,11816402,10669476,9444169,11472202,10209942,8967510,11125466,9848281,11929321,10784210,9678500,11587237,10440010,9202346,11242157,9978730,8726249,10897257,9848659,
11814738,10552997,9327947,11470165,10095277,8967532,11126196,9866153,8615762,10783634,9566885,11700906,10323286,9087669,11242202,10094036,8735657,10898889,9850259,11931026,
10554538,9323862,11355499,10210010,8967636,11126500,9866953,8728210,10667669,9456939,11584685,10323309,9087850,11242354,10094436,8853321,10898249,9729685,11815573,10552501,
9209269,11355573,10210226,9083812,11128228,9866058,8616597,10783382,9450838,11584218,10323417,9203154,11242962,10096292,8850762,10896715,9620139,11700909,10552682,9324265,
11356009,10209106,8973989,11126437,9749843,8497835,10668717,9581932,11584948,10324905,9205586,11357074,9980709,8738133,10896726,9734837,11700954,10552788,9325481,11472337,
10210706,8969002,11127978,9963866,11814251,10668778,9614804,11699944,10325713,9203346,11241109,9979179,8620379,10782061,9735018,11815794,10553192,9328465,11471690,10208917,
8860973,11011253,9750965,8612722,10668978,9567144,11701668,10439498,9091733,11242154,9979222,8735157,10782169,9735634,11814610,10555045,9325898,11355475,10095275,8967514,
11011434,9751273,8615634,10782546,9498277,11585189,10323285,9095851,11127477,9979244,8735593,10898345,9635682,8386373,10554153,9336149,11355478,10095286,8967604,11126228,
9751505,8616866,10784162,9575210,11586858,10324314,9089754,11242218,9979348,8736209,10899153,9850530,11699861,10437931,9218395,11356525,10095466,8976100,11126632,9865041,
8500901,10668693,9458989,11584726,10209717,9087858,11242420,10095528,8739665,10898770,9738917,11815594,10437974,9210293,11355609,10210772,8965544,11013801,9866578,8612518,
10554027,9499994,11584876,10324714,9090772,11241314,9981641,8850770,10782037,9620139,11700917,10552692,9210730,11357097,10209186,8976197,11012905,9750101,8497837,10666678,
9381301,11470293,10324945,9206690,11357602,10095914,8854101,10897754,9732827,11815658,10667480,9326033,11472593,10325668,9088330,11011371,9750891,8614618,10783594,9615080,
11700136,10438481,9213605,11242149,9979213,8735405,10897845,9735026,11815892,10668968,9452370,11472210,10209957,8975701,11126102,9751221,8615348,10782164,9620905,11587241,
10440018,9210534,11242155,9979226,8735449,10898154,9750228,8384201,10553033,9336147,11470165,10095275,8971626,11011445,9866090,8615780,10782628,9615177,11701065,10323541,
9097901,11240118,9979317,8735658,10898386,9751460,8502089,10554698,9337430,11471194,10207962,8857045,11011561,9866706,8732068,10784420,9612618,11584843,10324331,9097946,
11240298,9979625,8851281,10897234,9635493,8385867,10552653,9218733,11356597,10208116,8972201,11013033,9866066,8616613,10783397,9499989,11584858,10324661,9205172,11240916,
9981353,8854930,11013458,9734822,11700907,10552666,9333466,11356906,10208980,8974025,11126473,9750163,8506027,10666669,9495915,11470197,10324842,9213796,11356068,9979721,
8738453,10896981,9736877,11698870,10438069,9333682,11471826,10210212,8977225,11128138,9865814,8499894,10666714,9504213,11585001,10325458,9211300,11243173,10095946,8743574,
10783339,9634522,8382169,10438377,9334610,11470674,10208933,8861003,11011413,9751213,8622954,10666932,9504681,11586473,10439506,9099941,11242149,9979221,8735413,10783414,
9635252,8383401,10554825,9338258,11472210,10209962,8975702,11011418,9751258,8615380,10782436,9506505,11585225,10323603,9096363,11125421,9864557,8735466,10898282,9635684,
8384329,10553161,9336469,11356757,10093237,8856941,11011509,9751474,8615844,10783652,9624393,11586890,10324566,9098422,11240154,9864661,8735698,10898898,9751972,8387914,
10554698,9333402,11356779,10093418,8857305,11011817,9865042,8507045,10667685,9499979,11584853,10209965,9098090,11240372,9979817,8738642,10898258,9636517,8385869,10437973,
9226933,11356858,10208692,8858537,11013577,9866642,8624933,10668714,9504087,11584858,10324698,9098708,11241188,9981641,8859026,10782355,9522347,8381786,10437997,9218794,
11357034,10209124,8974153,11011913,9750165,8508587,10666677,9389429,11470261,10324914,9213860,11242404,9980745,8747669,10898070,9520342,8267189,10438105,9334226,11357650,
10210724,8985930,11128138,9751194,8508758,10666858,9504489,11470569,10323794,9096869,11241125,9864523,8628907,10783405,9635178,8267625,10439593,9385810,11471698,10095269,
8861013,11011414,9751221,8500660,10667476,9505705,11587017,10325394,9100069,11242154,9979222,8628918,10783450,9635284,8383945,10440393,9334418,11355797,10095787,8865114,
10896749,9751274,8623844,10667876,9508681,11585353,10323605,8983851,11125941,9864629,8735594,10783666,9635748,8386377,10554186,9230997,11356822,10093782,8857013,10896857,
9752018,8625060,10784420,9407818,8157845,10324650,9106778,11125610,9864937,8744402,10897234,9522853,8392010,10437963,9226923,11242157,10093932,8858473,11013033,9750354,
8509093,10668709,9508181,11470166,10209973,9098676,11240916,9866153,8747922,10898834,9636645,8271189,10437974,9226934,11356890,10094036,8867273,11013833,9866898,8506666,
10554667,9505114,11470189,10210026,9098980,11241316,9979721,8631955,10782357,9520427,8268139,10323381,9276266,11357106,10210212,8869705,11012938,9751189,8508717,10552662,
9389493,11470297,10325458,9100196,11242916,9981258,8743574,10668715,9520474,8268501,10438377,9277138,11355986,10096293,8981834,10896723,9636523,8508762,10667372,9390953,
11471785,10323794,9099045,11127461,9864533,8628909,10783413,9520564,8268713,10439593,9345954,11357586,10095401,8870229,11012442,9636566,8508852,10667476,9407953,8158626,
10325650,9104682,11126059,9750875,8628954,10783466,9635556,8277713,10438481,9270933,11355797,9979181,8751467,10896821,9751410,8509284,10668968,9406281,8156821,10209941,
8992085,11126102,9865653,8629170,10784210,9636776,8396106,10440010,9226918,11242155,10093914,8751829,10897129,9750226,8515237,10555045,9506122,11470165,10209963,8992106,
11126124,9866089,8746834,10782562,9520965,8279635,10437973,9153197,11242166,10094004,8866729,10898353,9751458,8518469,10668842,9292373,8041141,10207962,8992213,11126228,
9866705,8748450,10899108,9522474,8276566,10324315,9269978,11242218,10094312,8867537,11011921,9635493,8391979,10552621,9390509,11356597,10210162,9099112,11242408,9866065,
8631973,10783397,9520469,8153773,10324405,9276338,11357652,10096040,8871250,11013458,9751206,8402262,10552666,9292505,8156628,10208980,8990409,11128521,9981266,8628906,
10668715,9520490,8276714,10324842,9275235,11356002,10094409,8754771,10896725,9636525,8504684,10438069,9292714,8157090,10324898,8993609,11128106,9865813,8630965,10666714,
9405909,8276914,10440145,9276835,11357860,10095946,8866390,10783083,9634522,8398549,10553065,9293521,8154786,10208933,8992075,11011373,9751213,8631146,10781556,9406313,
8279889,10439506,9247397,11242149,9979221,8751789,10898101,9634740,8391593,10554281,9407826,8043173,10209958,8992086,11126106,9751257,8631764,10782420,9522889,8277394,
10325331,9276074,11242155,9979242,8751850,10898282,9750372,8392521,10553161,9291411,8039595,10093229,8881517,11011509,9866154,8632228,10783652,9521993,8280725,10324566,
9155253,11240154,9979349,8752082,10898898,9751972,8518986,10554698,9292374,8041174,10207962,8922837,11011817,9866962,8744612,10667685,9405771,8161947,10324653,9159531,
11240308,9979753,8869714,10898258,9636517,8402251,10552661,9177781,8041834,10208692,8989609,11013545,9866642,8641189,10783398,9405782,8161973,10324698,9274837,11241172,
9981641,8867218,10896787,9521835,8398170,10437995,9292522,8042196,10209124,8990537,11126601,9750165,8524971,10666669,9405805,8162154,10324914,9176996,7927625,9980745,
8764053,10898006,9634486,8283573,10438101,9292754,8158116,10210724,8994122,11128138,9865878,8516310,10666714,9406169,8277458,10325714,9277092,11241125,9979211,8637099,
10783405,9634666,8390377,10438505,9291602,8042149,10209957,8877389,11011413,9751221,8639852,10667444,9407401,8280914,10440082,9063077,7812437,9979222,8759989,10783450,
9635284,8400329,10555081,9293202,8039718,10095275,9004378,10896749,9751274,8632020,10782564,9408329,8277650,10323605,9163947,11125421,9864557,8751978,10898354,9635748,
8402761,10554185,9292437,7927085,10093238,8922549,11011541,9751506,8641444,10784164,9522506,8166037,10324634,9160023,11240154,9864921,8752594,10897106,9637541,8400202,
10437963,9177771,8041818,10093418,8922857,11013033,9865042,8525477,10668709,9405773,8161963,10209973,9061748,7809897,9980841,8764306,10898834,9636645,8402261,10437974,
9177781,8041908,10208724,8932809,11013833,9866642,8637734,10554539,9405786,8162010,10324714,9062100,7810761,9979721,8760979,10782357,9520299,8284523,10438005,9177962,
8042340,10209188,9041737,11012937,9751189,8525101,10667222,9291189,8162226,10324946,9178020,7813961,9981258,8764053,10898090,9520474,8283861,10438377,9293266,8040100,
10096293,9006410,11011403,9636523,8525146,10667372,9406185,8165202,10323794,9062053,7812427,9864533,8645293,10783413,9635188,8285097,10439593,9292690,8051493,10095397,
8926549,11011414,9751222,8525236,10667476,9407945,8281490,10325650,9162026,11127979,9979226,8645338,10783466,9635556,8400585,10438473,9178771,8047914,10093867,8800619,
10896757,9751402,8640356,10667940,9406281,8173205,10324629,8946989,7694765,9864629,8760242,10784210,9636772,8403785,10554698,9177750,7935317,10093914,8931029,10897129,
9752018,8638116,10669733,9407818,8170134,10209963,9061722,7695065,9865961,8763218,10897234,9520805,8295755,10437973,9177773,7935338,10094004,8932265,11013033,9751458,
8526629,10668841,9405781,8055469,10210006,9061812,7809961,9866697,8764834,10899090,9637162,8288854,10439002,9177818,8041940,10094308,8933065,11011913,9750163,8408363,
10552621,9292139,8162154,10210154,9062244,7812937,9979721,8648341,10783381,9520429,8293037,10323381,9178034,8051620,10210212,8932171,11013450,9751190,8525142,10552666,
9292501,8162770,10325458,9064100,7814474,9981258,8768166,10668715,9520474,8284889,10439529,9176914,7933637,10094373,8926539,10896725,9636525,8525162,10667444,9292713,
8173394,10324898,9063237,7706195,9865557,8655541,10783446,9520564,8285097,10440145,9293218,7937349,10095914,8899158,10897755,9636570,8525268,10667748,9408209,8171170,
10208933,8949035,7809626,9750891,8645482,10783602,9635688,8288081,10438481,9176741,7935307,9979221,8817325,10897845,9751474,8526760,10668968,9407314,8174245,10209958,
8947030,7695029,9865945,8646098,10782164,9522857,8412490,10440018,9177770,7935318,10093930,8817369,10898281,9750354,8523461,10553157,9291347,8055467,10209965,8947052,
7695209,9866153,8812386,10783650,9521993,8296021,10439253,9061045,7816629,9979349,8932273,10898897,9751970,8527177,10669354,9292374,8057558,10207962,8947157,7695825,
9866961,8760994,10782373,9405771,8178267,10324397,9175914,7821029,10094440,8832849,7581349,9635493,8418635,10552661,9292461,8057706,10208180,8948649,7821137,9866578,
8657573,10783398,9520470,8170165,10324697,9176532,7933353,9981641,8834450,7584421,9751210,8418646,10552682,9292522,8173268,10209124,8949449,7818898,9864787,8538795,
10666669,9405805,8293226,10324906,9176996,7935817,10095433,8820373,10898006,9634485,8414645,10438101,9292754,8174500,10325412,8949065,7699093,9865814,8655574,10666714,
9405909,8285650,10440402,9178788,7933258,9979211,8817307,10783405,9634666,8406761,10553193,9291602,8058533,10209957,8947019,7588523,9751213,8663914,10781620,9407401,
8296274,10440018,9177765,7820621,9979222,8817333,10898138,9635284,8407977,10555081,9407890,8059557,10209962,8947034,7695061,9751274,8697556,10782564,9523017,8294034,
10323603,9063595,7931226,9864557,8817514,10898354,9750436,8419145,10554185,9292437,8058029,10093237,8832437,7703466,9866194,8657828,10784164,9522506,8297109,10324566,
9061590,7816629,9979609,8719826,7585188,9752228,8531274,10437963,9177771,8058202,10208106,8832745,7704274,9865042,8697509,10668709,9405771,8178347,10324661,9061738,
7818089,9980841,8832850,7469861,9636517,8418645,10552662,9177781,8058292,10208724,8949161,7708050,9866642,8653606,10668715,9405786,8178390,10324714,9176788,7818953,
9981769,8834706,7580970,9520299,8299867,10437997,9292650,8058724,10209188,8947529,7706259,9751189,8557741,10666678,9405877,8178602,10324946,9178020,7936841,9981258,
8718997,7468333,9635030,8299957,10438361,9293266,8175012,10210980,8949066,7703190,9751211,8582490,10666858,9406185,8294098,10323794,9062053,7828811,9979213,8702635,
10783413,9635188,8416105,10439593,9292626,8059685,10210085,8832341,7588525,9751221,8697268,10667476,9407945,8297874,10440082,9063718,7828822,9979226,8719066,7468500,
9635540,8416969,10555209,9293458,8064298,10093739,8832363,7588570,9751402,8701797,10782628,9406281,8181395,10324629,9061677,7711085,9864629,8719274,7583652,9636772,
8420169,10554698,9292437,7943477,10093914,8832469,7703986,9752018,8703396,10669733,9522506,8186518,10209963,9061722,7816921,9864937,8718162,7466661,9635493,8303947,
10437973,9177773,8066410,10093940,8833897,7706450,9866130,8551205,10668837,9405781,8178349,10209973,9061812,7818153,9981385,8719762,7469861,9637162,8419670,10437978,
9177818,8058324,10208980,8834761,7704210,9752211,8703274,10552491,9292139,8178410,10324842,9062244,7827273,9979721,8717973,7353643,9520429,8309165,10438069,9178034,
8058788,10210212,8948553,7592597,9751189,8582485,10667354,9291477,8179154,10325458,9178788,7830858,9981258,8718998,7468374,9520474,8301273,10438377,9291602,7949989,
10094245,8832331,7588523,9636525,8586603,10667380,9407337,8181586,10324882,9063205,7829067,9864533,8604333,7468396,9635252,8301481,10440137,9293202,8067877,10095914,
8833366,7590581,9751258,8488404,7237065,9408201,8302226,10210963,9063722,7826006,9865579,8604394,7468756,9635684,8417097,10438473,9176725,7951659,10093869,8718765,
7588714,9751474,8604580,7239497,9407305,8190613,10324630,8947030,7711413,9865941,8719826,7469988,9637540,8420682,10554698,9177766,7951702,10093914,8833753,7591378,
9750354,8588965,10667813,9291339,8071851,10209965,9061738,7711593,9866153,8718162,7468869,9521957,8312403,10437973,9177773,7951788,10094004,8833961,7707554,9751970,
8490277,7240277,9407062,8073910,10210010,9061844,7826889,9866961,8720034,7474506,9522475,8317530,10324331,9177962,8066772,10094436,8832849,7597731,9750181,8467755,
10552629,9292461,8180586,10210226,9063332,7829329,9980754,8604325,7353677,9520470,8309429,10324697,9176530,7949221,10096293,8834378,7600805,9751210,8586583,10552666,
9292505,8189650,10323794,8949445,7835274,9864787,8604331,7361882,9520492,8309609,10439593,9176930,7952197,10095429,8832597,7476395,9634485,8471989,10552757,9292713,
8182690,10325410,9063753,7715413,9865814,8602294,7349685,9405909,8302033,10440401,9293474,7949642,9981259,8833626,7590618,9634666,8373989,7237329,9406289,8072869,
10208933,8947019,7711403,9751213,8602474,7354217,9636776,8353617,10439506,9177765,7951693,9979222,8719029,7591346,9749972,8375209,7241042,9407890,8190629,10209962,
8947030,7711445,9865961,8603348,7360169,9522889,8425106,10323539,9063083,7947610,9979245,8719210,7599956,9750372,8488777,7124627,9291413,8074411,10207925,8832437,
7711594,9866162,8719268,7363401,9522505,8313493,10439254,9061078,7833013,9979349,8834514,7601570,9752228,8588618,10552651,9177755,8074074,10208106,8947433,7712466,
9865041,8605349,7474506,9405771,8194731,10324653,9175914,7833449,9980841,8832850,7600805,9636517,8373581,7121581,9292469,8074676,10208724,8948649,7830930,9866642,
8604325,7361877,9520470,8211157,10324714,9176788,7950025,9981641,8834706,7597350,9637035,8471898,10437997,9292650,8189780,10209188,8947529,7714451,9864853,8488109,
7243115,9405877,8358826,10324946,9178020,7953225,10095945,8718997,7484589,9634518,8373685,7121834,9293266,8191396,10325668,8949066,7719574,9751195,8602970,7243477,
9406185,8359634,10438482,9062053,7837003,9979211,8719019,7484778,9635178,8375145,7239506,9291602,8075941,10209957,8947029,7604909,9751221,8603060,7359401,9407401,
8314258,10440082,9177894,7845205,9979226,8719062,7599572,9635540,8376009,7249554,9408146,8080682,10095787,8947034,7719642,9751402,8603492,7360329,9520969,8238739,
10324629,9061549,7832939,9864629,8719274,7600036,9751460,8375113,7125653,9292437,8082733,10093782,8832437,7712178,9866706,8605092,7363913,9522506,8325782,10209963,
9061722,7841493,9979625,8720082,7597732,9635493,8373579,7006871,9177771,8082794,10208628,8833897,7714642,9865106,8604453,7247179,9405781,8243885,10324661,9061812,
7834537,9981353,8834450,7486245,9636646,8373590,7121589,9177818,8074708,10208980,8949449,7724690,9866898,8604970,7366998,9291115,8243930,10324842,9176932,7835465,
9979721,8717971,7484715,9520429,8259949,7121770,9292714,8075172,10210212,8948553,7723669,9751189,8488245,7244205,9405877,8244658,10325458,9178532,7961930,9981258,
8718998,7484758,9635162,8260309,7130578,9291474,8081061,10094245,8832331,7604891,9751213,8488298,7244521,9407337,8259410,6895397,9063205,7845451,9979221,8604333,
7484780,9635252,8375209,7134098,9293202,8084261,10210602,8833366,7604917,9751258,8603092,7245257,9408201,8261266,7011621,9063722,7842390,9865579,8719066,7485140,
9635684,8376137,7245458,9176723,7968043,10093869,8833453,7605098,9751474,8603556,7362377,9407305,8215189,10324629,9061685,7727797,9864661,8719826,7601060,9637284,
8375626,7133845,9292438,7968086,10093914,8833753,7720402,9750226,8490661,7368010,9405771,8129195,10209965,9061738,7834345,9866089,8718162,7485221,9636645,8259147,
7015083,9177773,8090988,10094004,8833961,7723922,9866642,8489765,7256661,9407062,8245941,10210010,9061844,7843273,9981641,8720018,7494950,9637162,8374870,7017174,
9177834,8124116,10209124,8834889,7720594,9750165,8488235,7129691,9292205,8145770,7010148,9062308,7845705,9980745,8718997,7378219,9520469,8260277,7132586,9178578,
8084388,10210724,8949066,7617173,9751206,8488278,7252661,9292505,8144338,6893221,9064101,7843402,9864523,8604331,7484762,9520490,8260329,7132882,9291602,7968581,
10095429,8832595,7606955,9634477,8373613,7244649,9407401,8145826,6896453,9063237,7846485,9865814,8602294,7370165,9635284,8261065,7134626,9293474,8080682,9981227,
8833622,7606998,9749354,8373973,7253713,9408337,8261282,6892842,8946987,7727771,9865645,8602474,7370597,9636776,8374097,7018149,9177749,7976269,10093910,8719029,
7607722,9752018,8604584,7257426,9407818,8145573,6894933,8947030,7735989,9865945,8717778,7376549,9522885,8375946,7130278,9063083,7976282,10093930,8833898,7608146,
9750370,8488773,7255699,9291349,8029355,6776171,8947117,7727978,9866153,8719266,7494469,9522505,8260181,7017645,9175734,7890357,9979349,8834513,7724450,9752226,
8490314,7256662,9407066,8028890,6776533,8947429,7843537,9865041,8605347,7490890,9520459,8145579,7017818,9175914,8013673,9980841,8832849,7607973,9751205,8373581,
7137965,9292469,8144306,6777769,8948649,7847314,9981330,8604325,7378261,9520470,8260277,7017908,9176532,8015561,10096329,8834706,7605414,9636523,8488282,7138010,
9292650,8144724,6893385,8947529,7730835,9864853,8602795,7259499,9405877,8260458,7133028,9178020,7977801,10095945,8833685,7500973,9634486,8373685,7252906,9293266,
8146340,6896969,9063754,7735958,9751195,8602970,7374549,9406185,8261330,7130788,9178789,7974218,9979211,8719019,7615834,9635178,8374121,7255890,9406290,8029861,
6788427,8947021,7735981,9751221,8603060,7375785,9522089,8261010,7027493,9177765,8009045,9979222,8719061,7615956,9750228,8376009,7257490,9408146,8146214,6781270,
8947034,7727834,9866090,8603476,7376713,9520969,8259219,6903083,9061549,7890283,9979317,8719210,7608164,9751460,8489801,7142037,9292437,8029357,6777261,8832437,
7736754,9866706,8719780,7380297,9522506,8260246,7025974,9061722,7898837,9979625,8834770,7605924,9635493,8373579,7137943,9177771,8029530,6777557,8948585,7731026,
9865042,8604453,7378251,9405781,8145581,7017834,9176500,7900073,9981353,8834450,7617317,9636646,8373589,7137973,9292502,8029652,6778281,8949449,7855762,9866898,
8604970,7375190,9405787,8145626,7018196,9176932,8015689,9979721,8717971,7501099,9635117,8258925,7138154,9292714,8144804,6788937,8948553,7740053,9865877,8488237,
7260589,9405877,8261042,7027620,9178532,7916873,6666901,8718998,7501142,9635162,8373973,7138770,9293522,8146596,6901066,8832331,7621275,9751211,8602986,7260889,
9407337,8259410,7026341,9063205,7894347,9979221,8719021,7501162,9635252,8375209,7256978,9293202,8031013,6789709,8948054,7621301,9751258,8603092,7376297,9408201,
8261266,7028005,9178410,7883094,9864539,8719066,7616212,9635684,8376137,7253650,9291411,7914795,6670939,8833389,7736170,9751466,8603556,7378761,9521993,8145557,
6911275,9061685,7899821,9864629,8719794,7617444,9751972,8375626,7150229,9292438,8029526,6662837,8833749,7736786,9864914,8490661,7376202,9405771,8145579,6911318,
9061738,7899881,9980777,8718162,7501605,9636645,8373835,7031467,9177773,8029546,6785897,8833961,7740306,9866642,8604453,7273037,9406806,8145589,7026100,9061844,
7802281,6667666,8834706,7503141,9637162,8374870,7140054,9177818,8029908,6786761,8949577,7736978,9750165,8488235,7268955,9292141,8145770,7026532,9176996,7800649,
6559379,8718997,7509291,9520469,8260269,7148970,9293234,8031140,6789961,8949066,7740053,9751190,8488278,7260853,9407193,8144338,6909349,9064101,7916874,6548118,
8604331,7501146,9635178,8260329,7141074,9291602,8029989,6673995,8832587,7621291,9751213,8488300,7261033,9407401,8260498,6912805,9063205,7801429,6550701,8602293,
7394741,9635284,8375753,7151010,9293458,8031526,6789717,8833622,7639766,9751274,8603348,7261897,9408329,8261266,7023914,8946987,7785051,9865645,8717162,7386981,
9636772,8374089,7149203,9177749,7914795,6671019,8833717,7624106,9752018,8604580,7387977,9407818,8145557,6911309,9061718,7686837,6550962,8717778,7499173,9522885,
8375626,7146662,9177771,7914842,6671061,8833769,7780050,9750354,8488773,7272075,9406035,8031403,6907226,8947053,7801705,6559570,8719266,7502661,9637189,8260181,
7034029,9175733,7914933,6671274,8834505,7740834,9866914,8490314,7273045,9407066,8143574,6792917,8947413,7802577,6672034,8605347,7499082,9520427,8260203,7034202,
9175914,7915365,6788945,8832849,7665317,9751205,8488269,7154347,9292469,8144298,6908841,8948649,7801682,6552229,8719013,7394645,9520470,8260277,7148978,9176532,
7917225,6790538,8949386,7638182,9636523,8488282,7269077,9292650,8144724,6909641,9062213,7685771,6442155,8602795,7390571,9405805,8260458,7149396,9292706,7916357,
6683283,8833685,7640237,9634486,8373685,7269290,9407953,8146338,6913349,9063754,7801494,6436021,8602838,7382741,9520869,8261329,7147170,9178789,8031562,6679190,
8719019,7664986,9749354,8374121,7272274,9406290,8144549,6804811,8947021,7686829,6559082,8603058,7392169,9522089,8375698,7035685,9177765,7914837,6671021,8719061,
7669173,9750228,8490697,7273874,9408146,8146214,6911318,8947034,7686874,6551252,8718164,7384777,9520969,8259219,7032107,9061547,7800171,6671210,8833898,7571300,
6321993,8489801,7273107,9292437,8029357,6800813,8947125,7687082,6552484,8719780,7511369,9522506,8260246,7034166,9176410,7800533,6671826,8834770,7786148,9637541,
8490314,7269014,9292459,8029530,6793941,8948585,7800658,6442661,8603301,7394635,9520461,8145581,7034218,9176500,7916457,6682450,8834450,7633701,9751333,8373589,
7154349,9292501,8144340,6794665,8949449,7802258,6561061,8604966,7403862,9520474,8260314,7034580,9176916,7917385,6794898,8717971,7550251,9634989,8373611,7154538,
9292714,8144740,6920009,8948553,7686803,6444331,8602925,7276973,9405877,8260530,7150500,9178532,7916873,6683285,8833686,7550262,9635162,8373973,7269842,9293522,
8146596,6917450,8947019,7572119,6444374,8602970,7391961,9407337,8259410,7032485,9177893,7800139,6564523,8719021,7570794,6204265,8375209,7272274,9407890,8031013,
6805069,8948053,7686837,6436268,8603092,7392681,9522889,8261266,7036197,9178410,7915862,6564534,8719066,7571156,6319817,8376137,7270034,9291411,8029483,6687323,
8833387,7687018,6559572,8603556,7395145,9521993,8260245,6927659,9061677,7801261,6679402,8719794,7572388,6323017,8490313,7158421,9292438,8029526,6793909,8833749,
7687634,6561188,8720036,7400778,9405771,8145559,7042390,9061738,7801577,6682322,8832850,7458597,6321738,8373835,7162539,9177773,8029546,6802281,8948649,7687058,
6445861,8604453,7404109,9406806,8145589,7034292,9176532,7802281,6684050,8834706,7572773,6208085,8374870,7164598,9292506,8029908,6803145,8949577,7802514,6450470,
8488235,7285339,9406829,8145770,7042900,9176996,7915337,6567571,8718997,7456043,6204011,8260269,7162730,9293234,8145828,6806345,8949066,7686805,6444333,8488278,
7285429,9407189,8259026,6917541,9064101,7916874,6679190,8604331,7456090,6204117,8375017,7157458,9291602,8029989,6805067,8832587,7572139,6444378,8602988,7285609,
9407401,8260498,7043877,9063205,7801429,6567085,8716981,7341493,6204329,8375753,7273874,9293458,8031525,6806101,8948310,7570134,6329781,8603348,7392969,9408329,
8261266,7040298,9061675,7686747,6567258,8719210,7571300,6205257,8374089,7165587,9292437,7914795,6687403,8833717,7685546,6331237,8604580,7404361,9522506,8145557,
6927693,9061718,7801525,6567346,8717778,7458213,6331722,8375626,7162518,9177771,8029530,6687445,8833769,7685842,6450853,8488773,7280267,9406035,8144043,6813019,
9061740,7801705,6682450,8719250,7457605,6215307,8374869,7050413,9175733,7914933,6802345,8834505,7687586,6454597,8604998,7289429,9407062,8143574,6923989,8947413,
7802577,6684322,8834722,7458122,6212182,8260187,7165274,9175914,7915365,6805329,8947537,7571093,6337835,8488269,7293611,9292469,8144298,6929317,9178024,7801682,
6568597,8718997,7456077,6089389,8260277,7165362,9291218,7917221,6806922,8949386,7687334,6337878,8488282,7293653,9407209,8144594,6926021,9062213,7800459,6458535,
8602795,7341403,6204122,8260458,7165778,9292706,8031045,6691475,8833685,7570605,6325613,8373685,7326634,9407953,8261026,6929733,9063754,7801494,6575277,8602326,
7341781,6213034,8376017,7163554,9178789,8031562,6810262,8719003,7570778,6334165,8488805,7227218,5975715,8144549,6927691,8947021,7686829,6575466,8717738,7343017,
6215506,8375634,7166757,9177765,7914837,6687405,8833717,7570868,6327209,8490697,7404946,9408146,8146086,6928726,9061722,7686874,6567636,8718164,7458505,6213266,
8259219,7048491,9176235,7800171,6695770,8833898,7685988,6338377,8489801,7297683,9407125,8029357,6808941,8947125,7801770,6568868,8719780,7458121,6216341,8260246,
7050549,9176410,7915221,6688210,8834770,7687844,6454602,8490314,7293590,9292459,8144218,6810325,8947561,7800658,6573733,8603301,7341387,6097563,8260269,7058794,
9176500,7916457,6805330,8834450,7572261,6337867,8488277,7211693,9292469,8144308,6925737,8949449,7802258,6577445,8719654,7342422,6097589,8260314,7165652,9176916,
7917385,6811282,8832659,7456043,6220119,8374635,7228266,5977812,8144740,6928201,9063241,7686803,6460715,8602925,7342509,6097770,8261034,7166884,9293220,7916873,
6699669,8833686,7570742,6220469,8373973,7228882,6094244,8146596,6929738,9061706,7686807,6460758,8602970,7342805,6215378,8259410,7048869,9176869,7914827,6580891,
8719021,7570794,6335337,8375209,7227218,5978917,8145701,6813259,8947029,7686829,6575532,8603092,7343529,6217106,8375954,7052581,9178406,7915862,6695606,8719066,
7571156,6336201,8490825,7229074,5975334,8029483,6818395,8833387,7687018,6575956,8718180,7341897,6100627,8260245,7058731,9061677,7801261,6687594,8834482,7572388,
6339401,8490313,7228053,5862701,8029526,6818485,8948437,7687634,6577572,8720036,7458122,6105750,8145559,7058774,9176410,7801561,6698706,8832850,7573157,6346314,
8373835,7113387,5977434,8029546,6810473,8948649,7801746,6462245,8604453,7342669,6099629,8145589,7058860,9176532,7916969,6700434,8834706,7572773,6339157,8374870,
7111350,5862837,8144596,6811337,8949577,7802514,6573350,8488235,7227995,6099674,8260458,7092052,9176996,7915337,6698643,8718997,7456043,6220395,8374957,7114090,
5978980,8145828,6929225,8949066,7686805,6460717,8602966,7228085,6100394,8261074,7163300,9064101,7916874,6695574,8719019,7456086,6220501,8375001,7227090,5861029,
8029989,6821451,8947275,7572139,6460762,8602986,7342953,6100818,8260498,7060261,9177893,7801421,6583469,8716981,7456181,6220713,8375721,7228818,5987621,8031525,
6822485,8948310,7684822,6346165,8603348,7343817,6225554,8261266,7056678,9061675,7801435,6583514,8719210,7571300,6344521,8374089,7112339,5870891,8029483,6703787,
8833709,7685482,6462309,8604580,7342921,6109845,8260245,6944045,9061718,7801525,6698418,8717778,7458213,6348106,8490570,7113366,5862742,8029526,6818517,8833769,
7685842,6459045,8603429,7226955,5991575,8145579,7087450,8947053,7801705,6698834,8833938,7457605,6231627,8374869,7111853,5752171,7914933,6818729,8949193,7687586,
6462789,8604966,7342677,5993645,8143574,6972853,9062101,7802569,6700706,8834722,7572778,6228566,8260187,7112026,5859029,7915365,6821705,8947537,7685781,6346027,
8488235,7228075,6100330,8144298,6941605,9063333,7916361,6584981,8718997,7456077,6228653,8260277,7112114,5868453,8031653,6823306,8949386,7687334,6468950,8488282,
7228117,6108628,8259282,6983365,9062213,7800459,6581415,8602795,7341403,6228698,8375146,7112530,5871429,8031045,6822539,8833621,7570605,6341997,8488373,7228330,
6110098,8261026,7060805,9063754,7801429,6591661,8717526,7341781,6229418,8376018,7229090,5881158,8031562,6818454,8833691,7570778,6350549,8488805,7341906,5992099,
8144549,6944075,9061709,7686827,6583658,8717738,7457705,6223698,8375122,7113509,5870923,7914837,6703789,8833717,7685556,6343593,8490665,7343506,6110501,8146086,
6961494,9061722,7801558,6584020,8718164,7458505,6344330,8259219,6999335,5867862,7914843,6712154,8833898,7685972,6461257,8489797,7228051,5993771,8144045,6850925,
8947125,7801770,6699940,8719780,7458121,6232725,8374934,6997301,5753517,7915221,6819242,8834770,7687844,6470986,8605002,7228054,5993814,8144218,6982357,8947561,
7800658,6581925,8717989,7341387,6113947,8260269,7112042,5753701,7916457,6829906,8948626,7572261,6354507,8488277,7228077,5993834,8144308,6884777,5750162,7802258,
6593829,8719654,7457110,6113973,8260314,7112404,5869225,7917257,6819474,8832659,7572779,6351190,8374635,7228266,6108884,8144740,6883145,5641875,7801491,6477099,
8602925,7342509,6228842,8261034,7113636,5872457,8031561,6707861,8833686,7570742,6351541,8373973,7228882,6110628,8261284,6884682,5634709,7801494,6591830,8602970,
7342805,6231762,8374098,6999717,5869130,7915083,6711963,8719021,7570794,6343529,8489897,7227218,5995301,8145701,6882891,5524139,7686829,6591916,8717748,7343529,
6233490,8375698,7114021,5765709,7915862,6720181,8833754,7571156,6352585,8490825,7343762,5999910,8029483,6867543,8948075,7687018,6592212,8718180,7456585,6117011,
8260243,6997291,5753435,7801517,6712170,8834474,7687076,6355785,8490313,7228053,6001965,8029494,6769333,5633450,7802322,6593956,8720036,7458122,6236821,8145559,
6997334,5761717,7916249,6715090,8832850,7573157,6469194,8373835,7113387,5993818,8144234,6769513,5642066,7800658,6593317,8604453,7342667,6116011,8260269,6997420,
5753769,7916969,6823314,8834706,7572773,6355541,8489558,7111350,5879221,8144596,6885065,5643922,7802514,6589734,8602923,7227995,6116054,8260458,7112532,5754697,
7915337,6715027,8833685,7456043,6236763,8374957,7228778,5995364,8145828,6884169,5642901,7686805,6477101,8602966,7342773,6116778,8261074,7114148,5881162,7916874,
6720150,8718999,7570774,6236885,8375001,7227090,6000293,8032037,6882890,5524631,7686827,6477146,8602986,7342953,6231890,8259474,6998821,5764683,7916109,6608045,
8716981,7456173,6351785,8375721,7228818,6004005,8146213,6769237,5518509,7684790,6477237,8603348,7343817,6241938,8375954,6999334,5761622,7801435,6722266,8717162,
7456597,6352713,8488777,7112339,5887275,8029483,6769323,5526874,7685482,6478693,8719268,7342921,6126229,8260245,6997293,5647021,7801525,6747562,8832466,7458213,
6356298,8490570,7228566,5887318,8029526,6769365,5641682,7685842,6475429,8603429,7341643,6007959,8146091,6997338,5753562,7801705,6747986,8833938,7572293,6240843,
8374869,7111853,5883243,7914933,6769578,5643154,7802274,6479173,8604965,7342677,6124717,8143574,6882741,5762474,7917257,6725282,8834722,7572778,6351446,8260187,
7112026,5883605,8030053,6768457,5525139,7685779,6477099,8488235,7228075,6124890,8258922,6884197,5764938,7916362,6724245,8718997,7456077,6245037,8374965,7112114,
5884837,8031653,6884746,5537045,7687334,6485334,8602970,7228117,6125010,8259282,6999717,5762698,7800459,6605991,8717483,7341403,6236890,8375146,7227218,5887813,
8031045,6769291,5526699,7570605,6366571,8488373,7343018,6126482,8261026,6999365,5765781,7801429,6632621,8717526,7456437,6245802,8376018,7229090,6004038,8031562,
6769302,5526838,7685466,6367957,8488805,7341906,6114981,8144549,6882635,5646999,7801515,6632810,8717738,7457705,6354770,8375122,7113509,5887307,8029517,6654637,
5526890,7685554,6474665,8490665,7343506,6126885,8260902,6883670,5647029,7801558,6653652,5287337,7458505,6360722,8373907,6999335,5884246,7914843,6769370,5527252,
7685972,6477641,8604489,7228051,6010155,8144045,6883693,5647210,7801770,6654884,5405513,7458121,6249109,8374934,7111981,5769901,7915221,6770090,5651876,7687844,
6487370,8605002,7342742,6010198,8144218,6884053,5764818,7800658,6540965,5410122,7456075,6130331,8260269,7112042,5884757,7916457,6768466,5536549,7686949,6370891,
8488277,7228077,6124906,8144308,6884265,5766546,7916946,6618405,8719654,7457110,6245045,8260314,7112404,5885353,8031945,6770322,5532966,7572779,6482518,8374619,
7228250,6125268,8259428,6883145,5650067,7801491,6632747,8602925,7342509,6245226,8375210,7113636,5888841,8031561,6769301,5420333,7570742,6367917,8488661,7228882,
6127012,8261284,6999370,5659285,7801494,6538582,5286581,7342805,6248146,8374098,7114405,5887562,7915083,6654619,5526874,7570794,6368105,8489897,7341906,6011685,
8145701,6883915,5657259,7686829,6538604,5286761,7458217,6249874,8375698,7114021,5896781,7916118,6652597,5420469,7685844,6368937,8490825,7343762,6122790,8029483,
6769239,5649110,7801706,6538964,5295817,7456585,6248083,8260243,6997291,5778011,7916205,6655338,5536596,7687076,6486857,8490313,7228053,6018349,8144182,6769333,
5658026,7802322,6655396,5299529,7458122,6245014,8260247,6997334,5769909,7916249,6768338,5418661,7573157,6485578,8488523,7113387,6010202,8144234,6884201,5650258,
7800658,6540069,5297739,7342667,6132395,8258221,6997421,5770089,7916969,6770066,5537061,7572773,6371917,8489558,7226038,5903797,8144596,6885065,5774994,7802514,
6540582,5294678,7342679,6132438,8260458,7112404,5885641,7915337,6653587,5420331,7570731,6261339,8374957,7226730,6011749,8145828,6884169,5659285,7801493,6423853,
5171885,7342773,6247850,8259026,6999461,5897546,8031562,6654614,5420334,7570774,6376117,8375001,7227090,6008485,8146725,6882890,5541015,7686827,6538586,5180117,
7342953,6248274,8375186,6998821,5781067,7916109,6653101,5301595,7456173,6376361,8490409,7228818,6020389,8146213,6883925,5543085,7684790,6423989,5295530,7343817,
6250130,8375954,7114022,5778006,7801435,6653274,5416661,7456597,6403913,8488777,7227027,5903659,8029483,6769243,5657946,7685482,6425445,5297994,7457609,6134421,
8260245,6997293,5778093,7801525,6653354,5417893,7572901,6372682,8490570,7228566,6018390,8029526,6769365,5658034,7800530,6426277,5295754,7341643,6130839,8144043,
6882651,5778138,7916394,6653778,5420837,7572293,6380171,8374869,7111853,5899627,8029621,6769578,5659474,7802258,6540613,5192331,7342677,6141101,8258774,6882997,
5778858,7917257,6770322,5422405,7572778,6376022,8374875,7112026,5891797,8030053,6883146,5541523,7685781,6423851,5188247,7228075,6141274,8258922,6998885,5781322,
7916362,6654613,5428523,7456077,6261421,8374965,7226802,5901221,8031653,6884746,5659925,7687334,6424918,5180077,7342805,6141396,8259284,6999717,5893770,7800459,
6540583,5417302,7456091,6294234,8375146,7227220,6010693,8031045,6769291,5543211,7685293,6310251,5180266,7343018,6249364,8261026,6999365,5782165,7916181,6538413,
5310893,7456437,6311338,5062052,7229090,6020426,8146250,6769302,5543222,7685466,6425301,5183178,7341906,6131365,8259237,6882635,5663383,7801515,6653290,5303125,
7457641,6309714,5061285,7113509,5903947,8029517,6769325,5543274,7685556,6425513,5307730,7343506,6143269,8260902,6998358,5663413,7801558,6653652,5418409,7458505,
6311570,5057830,7114023,5900630,7915867,6769498,5658324,7685972,6424393,5191315,7342739,6026539,8144173,6883693,5778282,7801770,6654884,5430089,7572809,6265493,
8374933,7111981,5900973,7915221,6770090,5660068,7802532,6425930,5192341,7342742,6141238,8144218,6884053,5781202,7915346,6540965,5426506,7456075,6277787,8260269,
7112042,5901145,8031145,6768466,5544741,7686949,6425163,5075627,7228077,6141290,8258996,6884777,5782930,7916946,6655269,5315149,7457366,6195893,5060020,7112404,
5901993,8031945,6885010,5541158,7570731,6310487,5190326,7228250,6149844,8259428,6997833,5666451,7801491,6538539,5311067,7342701,6196074,5061460,7228324,5905225,
8031561,6769301,5551405,7570742,6310573,5191082,7343538,6143396,8261284,6999370,5778069,7686807,6538582,5311157,7457493,6194898,4943525,7114405,6018634,7915083,
6654619,5551450,7685482,6310761,5191506,7341906,6142757,8145701,6883915,5673643,7801517,6538604,5311337,7458217,6311314,4955429,7114021,5913165,8030806,6652598,
5436853,7685844,6426281,5193362,7343762,6139174,8144171,6769239,5665494,7801706,6653652,5312201,7456585,6194835,4953387,6997291,5794395,7916205,6767978,5430117,
7687076,6425417,5192339,7228053,6026541,8144214,6884021,5674410,7800274,6540709,5430602,7458122,6195862,4953390,7112022,5786293,7916245,6768338,5541541,7573285,
6424138,5074071,7228059,6034778,8144234,6884201,5781330,7801682,6540069,5314123,7457357,6079659,4834651,6997421,5909353,7916969,6770066,5553445,7687461,6310485,
5076141,7226038,6055349,8029909,6885065,5783186,7917202,6540582,5311062,7342679,6194390,4826837,6997717,5904073,8030025,6653587,5436715,7570731,6310491,5076314,
7226730,6036325,8260516,6884169,5675669,7801493,6538541,5196461,7342773,6194602,4950949,6999461,5913930,8031818,6769814,5436718,7570774,6310581,5191090,7227090,
6033061,8144677,6882891,5557399,7687339,6538586,5311190,7342953,6195026,4962085,7113509,5798475,7916109,6653099,5432667,7456173,6310826,5192530,7343506,6028581,
8146213,6883925,5674157,7685302,6424245,5311914,7458505,6196882,4963621,7114022,5909078,7801435,6653274,5433045,7571285,6309705,5074579,7227027,6034731,8029483,
6769307,5674330,7800170,6425445,5314378,7457610,6195861,4838699,6997293,5794477,7916213,6653354,5434277,7572901,6425930,5086485,7228566,6043990,8144214,6769365,
5674418,7800530,6540965,5312138,7341707,6081687,4958550,6882651,5794522,7916394,6768466,5437221,7572293,6310539,5084331,7111853,5925227,8029621,6884266,5675858,
7802274,6540613,5323405,7342677,6079661,4835757,6997685,5795242,7917258,6770338,5553478,7572810,6310550,5076278,7226714,5933781,8031077,6883154,5672611,7685781,
6423883,5204631,7342763,6079834,4844245,6998885,5912402,7916370,6654741,5444907,7570765,6195885,5084522,7226802,5966761,4726098,6884746,5676309,7802150,6424918,
5196461,7342806,6194644,4836777,6999721,5901962,7915147,6540583,5433686,7457115,6310618,5076692,7227220,5965637,4724363,6769299,5559595,7685293,6424941,5196650,
7343018,6196132,4963141,6999365,5798549,7916181,6653229,5319341,7457461,6311338,5201316,7229090,6045002,8146250,6883990,5559606,7685466,6425301,5314250,7341906,
6082213,4959562,6997323,5679767,7801515,6653274,5434197,7457705,6309714,5085861,7228197,5921355,8030541,6769325,5682538,7685556,6425513,5324114,7458194,6081829,
4848205,6998358,5802677,7801558,6653652,5434793,7573193,6311570,5082406,7111975,5933655,7915867,6769498,5674708,7800660,6424393,5207699,7342739,6079787,4729435,
6883949,5794666,7916970,6654884,5438281,7572809,6310549,4969771,7111981,5851821,4724074,6770090,5676452,7802532,6540618,5208725,7342742,6079830,4844213,6884053,
5805778,7915346,6655653,5437002,7456331,6195867,5084502,7112042,5851993,4724562,6883154,5561125,7686949,6425163,5206699,7228077,6079850,4836201,6999465,5799314,
7916946,6655269,5438029,7457366,6193846,4969909,7227092,5852841,4726418,6885010,5672230,7570731,6310487,5206710,7342938,6080212,4845257,6997833,5797523,7801491,
6538539,5327451,7457453,6194538,4971349,7228324,5966665,4610707,6769301,5567789,7685430,6310573,5207466,7341490,6081957,4848970,6999370,5802645,7801495,6538582,
5327541,7457493,6309586,4968101,7114405,5965386,4615319,6654619,5567834,7685482,6425449,5207890,7342930,6081317,4855371,6883915,5690539,7799469,6538605,5327721,
7458217,6311314,5086501,7114021,5937741,8030806,6767286,5440949,7571157,6426281,5324434,7343762,6081830,4844118,6883927,5690582,7799642,6538965,5437129,7456585,
6194835,4969771,7111979,5737051,4609370,6767978,5569365,7687076,6425417,5208723,7342741,5965101,4737709,6884021,5813674,7800274,6540709,5446986,7572810,6196373,
4969774,7112022,5851829,4609458,6768338,5557925,7685925,6309451,5090455,7228587,6079834,4729558,6884201,5830482,7916370,6540069,5331531,7457355,6194347,4859227,
6997421,5852010,4725586,6770066,5569829,7687461,6425173,5092525,7226550,5965237,4844970,6885065,5807762,7917202,6655270,5327446,7342679,6194390,4966101,6997845,
5850953,4615827,6768275,5453099,7570731,6310491,5207386,7226730,5966693,4855626,6998858,5692053,7801493,6538541,5327533,7342773,6194602,4967333,7114149,5852490,
4619413,6769814,5568846,7570774,6310581,5207474,7341778,5967525,4853322,6882955,5688471,7685291,6423899,5327574,7457642,6195026,4970277,7113509,5851787,4494491,
6653099,5450075,7570861,6310826,5208914,7343506,6081829,4741707,6883925,5698733,7799990,6424245,5328298,7458505,6311570,4971814,7114026,5851734,4617398,6653270,
5450453,7572309,6424394,5090963,7227029,5965099,4737623,6769307,5715290,7800170,6540133,5330762,7457610,6195861,4977963,6997325,5737133,4609386,6768042,5450661,
7572901,6425930,5209365,7228694,5966158,4737709,6884054,5715380,7800530,6540965,5443210,7341707,6081815,4974934,6998363,5737178,4617940,6768468,5568325,7572293,
6310539,5100843,7226541,5851499,4737882,6884778,5823316,7802274,6540613,5331605,7457429,6079789,4860333,6998709,5852586,4619684,6770338,5569862,7687498,6310550,
5100854,7226714,5966549,4740810,6883154,5623461,4492618,6423883,5212823,7342763,6194522,4860629,6998885,5850962,4618917,6654757,5454411,7571789,6310573,5100906,
7226804,5966761,4856658,6884754,5700901,7802150,6539606,5214893,7342806,6194900,4967849,6999753,5852818,4615462,6653223,5335639,7457115,6310618,5207764,7227220,
5965641,4740747,6883987,5584171,7685421,6424941,5335914,7343530,6196132,4979529,7114057,5737109,4502827,6653229,5458605,7457461,6311338,5209508,7343780,5967178,
4741781,6883990,5715254,7685466,6425301,5330642,7456594,6082213,4978250,6997579,5737111,4502870,6653274,5450581,7572393,6309714,5102373,7228197,5966411,4633755,
6769325,5621098,4369257,6426025,5340498,7458194,6196517,4864589,6998614,5735093,4502957,6653652,5459369,7573193,6426258,5098790,7111975,5851735,4739766,6769498,
5621460,4378281,6539081,5215891,7342739,6079787,4860507,6883949,5735786,4504405,6769572,5454665,7572809,6310549,5100845,7111982,5851821,4740458,6882738,5508517,
4382026,6540618,5327509,7228055,6079830,4860597,6998741,5736146,4501157,6655653,5568074,7456331,6195867,5100886,7226730,5851993,4740946,6884178,5708581,7686949,
6425163,5223595,7340717,5965165,4860777,6999465,5852562,4504869,6655269,5462605,7572054,6193846,4982189,7112405,5967529,4742546,6885010,5623078,4385366,6310487,
5223606,7340890,6080213,4863689,6997833,5736083,4511015,6538539,5343835,7457453,6309226,4987733,7228324,5966665,4749971,6769301,5506349,4254301,6425261,5223850,
7341522,6081957,4980042,6999370,5737621,4511022,6653270,5343925,7457493,6309586,5099173,7114405,5965386,4631703,6769819,5506394,4262614,6425449,5338962,7342930,
6081317,4864587,6998603,5620907,4392283,6538605,5475178,7458217,6311314,5102885,7228709,5851725,4625581,6767798,5506485,4263338,6426281,5332626,7458450,6081830,
4860502,6883927,5735638,4384437,6538965,5461705,7571273,6194835,4986155,7111979,5851739,4633946,6767978,5507925,4380490,6425417,5225109,7342741,6079789,4745901,
6884021,5735850,4500389,6540709,5463370,7573066,6311062,4987182,7112022,5851829,4740530,6768338,5508773,4386378,6424139,5106839,7226539,5965147,4860630,6884202,
5736274,4511525,6654757,5347915,7457355,6194347,4991323,6997421,5852010,4750162,6884754,5508389,4274763,6425173,5231789,7226550,5965493,4861354,6999753,5738130,
4513062,6655270,5458518,7342679,6194518,4983509,7113557,5850954,4632211,6768275,5506347,4155991,6310555,5223770,7341418,5966693,4863818,6998858,5737109,4396331,
6538541,5360301,7457461,6194602,4983717,7114149,5967178,4635925,6769814,5507406,4270765,6310581,5223860,7341778,6082213,4861514,6882955,5623063,4507990,6424923,
5360342,7457642,6309716,4986661,7113541,5851787,4633883,6653101,5392731,4262746,6426026,5225300,7343522,6081861,4864653,6883989,5620909,4393325,6539957,5279146,
4144532,6311586,5102918,7114026,5851798,4633910,6767958,5393109,4273834,6424394,5222053,7227045,5965099,4754071,6883995,5621082,4393685,6540133,5392210,4029093,
6195989,4995627,7113037,5737133,4633962,6768042,5508009,4275026,6426002,5225749,7343382,5966166,4756141,6884022,5735860,4394409,6540969,5459594,7456395,6079783,
4876887,6998363,5851866,4634324,6768468,5506889,4281995,6310547,5109035,7226669,5966189,4756314,6884778,5737300,4512585,6540613,5356181,7457429,6194477,4868781,
6998709,5852586,4742564,6770340,5508426,4274837,6425238,5109046,7226714,5966549,4863690,6883154,5623461,4511050,6538827,5245591,7342763,6194522,4991701,6998889,
5850962,4635429,6769445,5392971,4158619,6308525,5117291,7226804,5967273,4873042,6999442,5623077,4397645,6539862,5370541,7342806,6194868,4984233,7114441,5852818,
4631846,6653223,5392983,4158134,6310618,5232340,7341908,5965641,4757139,6883987,5621035,4287067,6425197,5277034,4029269,6196132,4995913,7114057,5851797,4519211,
6653229,5393069,4273514,6309290,5115301,7229093,6081866,4754069,6769303,5621046,4393653,6425301,5277394,4034213,6196901,4994634,6997579,5737623,4633942,6653274,
5393241,4273874,6425426,5110565,7228197,5966411,4756635,6767277,5506411,4393833,6540713,5279058,4046117,6196517,4995661,6998614,5735086,4515245,6653653,5393833,
4275602,6426258,5221670,7111979,5851735,4756662,6882138,5506773,4396745,6539081,5277331,3929383,6079787,4876891,6998637,5735786,4520789,6769572,5507913,4160147,
6310549,5117229,7226670,5851821,4756842,6882738,5623205,4398410,6540618,5278869,4044078,6079830,4876981,6998741,5850834,4517541,6655653,5506634,4164759,6194331,
5006683,7112043,5966681,4757330,6884178,5622565,4405835,6425163,5256363,7340717,6079853,4877162,6999465,5852562,4635941,6655269,5392973,4166829,6309046,5006765,
7112405,5967529,4873618,6885010,5623078,4401750,6425175,5162166,3918517,6080213,4994762,6997833,5736083,4527403,6653227,5278299,4167002,6309226,5114709,7113637,
5966666,4758165,6883989,5506349,4287085,6425261,5277098,3926885,6081957,4996426,7114314,5737622,4528430,6653270,5393077,4167082,6309586,5115557,7227173,5850699,
4639895,6767771,5507419,4287190,6425450,5277522,4044453,6081317,4880971,6998603,5735595,4409691,6538605,5393258,4275026,6311314,5119269,7228709,5966421,4641965,
6767798,5506741,4394410,6426282,5279378,4046118,6196518,4876886,6883927,5735638,4524725,6539989,5392074,4165267,6309523,5010731,7111979,5851739,4765018,6767978,
5507941,4405066,6540106,5163669,3929387,6080813,4885165,6884021,5735850,4516773,6655397,5393738,4168981,6311062,5126446,7113046,5851829,4756916,6883026,5508773,
4402762,6424203,5162135,3811671,5966171,4885206,6998890,5736276,4527909,6654757,5393035,4060315,6194347,5007707,7112109,5852522,4758356,6884754,5623077,4291149,
6425173,5162157,3926381,5966517,4877738,6999754,5852818,4529446,6655274,5392982,4166958,6194518,5016277,7113429,5965514,4640405,6768277,5506347,4287063,6310555,
5162330,3926741,6081381,4880202,6999370,5737237,4528683,6539597,5278381,4167018,6309290,5016485,7114149,5967178,4758805,6769942,5507406,4289197,6425270,5162420,
3927465,6082213,4992650,6882955,5621015,4409943,6539611,5278426,4167380,6309716,5142341,7113541,5851787,4650283,6767917,5392731,4289370,6426026,5278548,3930953,
6081861,4889237,6998677,5621037,4409965,6539957,5391786,4050325,6196901,5127498,7228746,5851798,4650294,6767962,5507797,4290218,6424402,5164709,4052298,5965387,
4770455,6883995,5735770,4410069,6540137,5392210,4168357,6196005,5003851,7113293,5849773,4535659,6768044,5508521,4406098,6426002,5164325,3938893,6081110,4772525,
6884022,5736116,4525481,6541001,5394066,4164902,6194471,4901463,6998363,5849818,4650709,6768468,5506889,4290195,6425235,5047595,3811931,5966445,4887898,6884778,
5737300,4528969,6655305,5278357,4052267,6194477,5016237,6998709,5850538,4640165,6770341,5508426,4287125,6310551,5162294,3812021,5966549,4888274,6997842,5623461,
4527690,6538827,5276823,3941719,6079835,4934357,3806930,5851986,4651813,6769445,5507659,4175003,6308525,5047659,3926889,5967273,4889938,6999698,5737765,4414029,
6539862,5276846,4048301,6080213,4935081,3808658,5967506,4648230,6653223,5392983,4297910,6308698,5048021,3937961,6080329,4773523,6883987,5621035,4418139,6425197,
5277034,4057941,6196133,4934473,3701395,5851797,4650285,6653230,5393069,4289898,6423978,5049765,3939658,6081866,4885653,6769815,5621046,4410037,6539989,5277394,
4050597,6196901,5142090,6997579,5735575,4531543,6653275,5393241,4290258,6425426,5163813,3824203,5966411,4773019,6882477,5506413,4410218,6540713,5393810,4054309,
6196517,5020237,7113302,5735598,4531629,6653653,5508521,4291986,6426258,5164326,3934806,5851735,4781238,6882650,5622485,4413130,6539081,5277331,4060459,6079787,
4819547,3691866,5850474,4533077,6654885,5507914,4299413,6310549,5047597,3820125,5966509,4781418,6882738,5623205,4529482,6540874,5278870,4061486,6194518,4819637,
3691946,5850834,4648613,6653605,5391947,4181143,6309019,4933979,3820214,5966682,4888402,6884178,5622565,4422219,6539851,5162155,3942747,6079853,4934506,3701588,
5852562,4652325,6769957,5392973,4183213,6309046,5049013,3820970,5967530,4886162,6885011,5623078,4418134,6425175,5276854,3943093,6081237,4933322,3698325,5736083,
4535595,6653227,5392987,4183386,6309226,5049173,3938122,5966666,4774549,6884501,5622061,4295341,6425261,5277098,4049765,6081957,4934986,3701909,5852310,4536622,
6654294,5393078,4298164,6309586,5050021,3935818,5965451,4666519,6767787,5507419,4418262,6425450,5277524,4060837,6196005,4819595,3585179,5735595,4540763,6539629,
5393770,4299604,6426002,5049637,3824205,5966421,4781229,6767798,5507765,4410794,6541002,5279380,4062502,6196522,4934230,3593390,5735766,4541109,6654677,5392074,
4181653,6309525,5047595,3713623,5851803,4781402,6882666,5507941,4421450,6540618,5278485,3947051,6080813,4817581,3585371,5735850,4541353,6655401,5508426,4185365,
6311190,5048654,3822253,5851830,4797876,6883028,5623465,4411018,6424203,5162263,3942999,5966171,4817626,3585749,5850964,4536105,6654789,5393035,4183339,6194477,
4933979,3822426,5967210,4791124,6884772,5623109,4414101,6425237,5162285,3943021,6081205,4818346,3583381,5738149,4652362,6655306,5393046,4183342,6309206,4934357,
3823274,5965650,4705957,3462474,5506635,4304023,6425243,5162330,3943125,6081385,4934482,3586725,5737253,4545099,6654541,5276333,4068715,6309292,5049769,3824466,
5967250,4783397,6884646,5507670,4305582,6423222,5162677,3943849,6082217,4935314,3706150,5621031,4426327,6539867,5391066,4069077,6310740,5048137,3831443,5851795,
4666667,6767917,5507677,4306266,6423978,5163861,4062025,6081865,4819605,3593515,5735725,4426349,6539957,5391786,4181413,6196901,5049674,3828373,5851799,4683062,
6767962,5507797,4421298,6424402,5162661,3946059,6080075,4703383,3466583,5621083,4541141,6540137,5393234,4184869,6310693,4934219,3716251,5850285,4687211,6653365,
5508521,4422994,6540690,5164325,3947085,6081110,4818094,3474797,5621429,4550057,6655689,5394066,4181286,6194471,4934231,3716278,5850330,4590293,3462825,5506889,
4306579,6425235,5162283,3836507,5966445,4818282,3582805,5622629,4545353,6655306,5393045,4068653,6194478,4934317,3822954,5850538,4591013,3464522,5623114,4304021,
6311063,5162294,3951285,5966549,4818642,3591845,5736101,4429387,6538827,5276823,4073815,6079835,4934362,3831506,5966674,4676389,6769957,5507659,4314267,6309037,
5047661,3943274,6081961,4820306,3595557,5737765,4545101,6539862,5276846,4064685,6194901,4935082,3833234,5967506,4705574,3353174,5392983,4314294,6423898,5049045,
3946186,6080329,4818579,3478827,5621035,4426331,6539949,5277034,4074325,6196133,5049162,3717781,5851797,4675885,6767918,5393069,4306282,6423986,5164453,3947850,
6082122,4820118,3594542,5622102,4434614,6539990,5392082,4066981,6194853,4933195,3716247,5735579,4573531,6653275,5507930,4306772,6425426,5163813,3955275,5966411,
4703403,3475803,5621101,4442986,6540714,5393810,4185381,6196517,4934221,3716269,5850294,4475309,3345834,5508778,4419218,6311571,5164326,3951190,5966423,4703414,
3476149,5622485,4544202,6539082,5277331,4076843,6194475,4819547,3716442,5850474,4590421,3356490,5507914,4315797,6425749,5048621,3838557,5966509,4818282,3476325,
5623205,4554058,6655562,5278870,4077870,6195542,4934326,3716532,5850836,4591269,3468874,5391947,4199575,6309035,5048667,3838678,5966682,4818772,3593893,5622565,
4430411,6539853,5276843,3959131,6080877,4935018,3832660,5852564,4590885,3365453,5507669,4199597,6309046,5049013,3954090,5967530,4820628,3595558,5737770,4434518,
6425175,5277014,4074165,6081237,4933322,3714709,5850773,4474155,3238487,5393051,4314458,6309226,5049189,3954506,6081866,4705045,3480107,5622061,4444845,6425261,
5277100,4074345,6196649,4934986,3718421,5852438,4589902,3248814,5391030,4199861,6424276,5050025,3952202,5965451,4703511,3369559,5507419,4444886,6540138,5278548,
4077225,6196037,4934283,3609899,5735725,4475227,3355482,5391722,4201301,6426020,5164361,3840661,5966485,4703533,3476077,5507765,4453802,6538954,5279397,4078922,
6196554,4934294,3724590,5735766,4475573,3356074,5506770,4198053,6310565,5047883,3839127,5849755,4588891,3484373,5622633,4447058,6540626,5278501,4078155,6081101,
4817581,3597675,5735853,4476329,3357522,5508498,4308261,6311206,5048910,3838638,5964470,4588981,3476905,5623465,4550290,6424211,5162279,3959383,6081115,4817626,
3602133,5851988,4589385,3241619,5393043,4199723,6309165,4934237,3839322,5965162,4705109,3480393,5623113,4446869,6539925,5162285,3959405,6081205,4933034,3599781,
5738149,4590922,3361941,5278871,4199734,6309210,5049045,3839666,5965650,4703909,3487307,5506635,4322455,6423707,5162331,3967705,6081385,4934482,3726117,5737253,
4475467,3249307,5391533,4089197,6194613,5049769,3956050,5967250,4705573,3488333,5622358,4338862,6423222,5162677,4074921,6082249,4935314,3722534,5735719,4360791,
3249334,5391578,4197077,6196053,5048137,3839635,5966483,4588843,3369563,5507693,4453722,6423978,5163877,4078410,6196554,4819605,3609901,5735726,4475565,3249514,
5391786,4205989,6311589,5049674,3837078,5852311,4704566,3369654,5507797,4359890,3124901,5162661,3962443,6080075,4818071,3492183,5621083,4475610,3356370,5393234,
4201253,6311205,5048907,3724443,5850285,4588909,3476330,5508521,4361554,3128613,5279013,3963469,6081110,4818094,3606957,5621429,4476330,3362194,5394067,4197670,
6194475,4934231,3847350,5850458,4590293,3487402,5621577,4245139,3011883,5162283,3967579,5966445,4818282,3607381,5737381,4475722,3250837,5393557,4208941,6194478,
4934317,3847530,5965234,4591013,3489098,5623370,4459670,6311063,5163318,3967670,6081238,4818642,3608229,5736101,4474443,3142807,5276827,4090199,6194523,4934490,
3847892,5966674,4705061,3373643,5507659,4338859,6423725,5048685,3967850,6081962,4935058,3611941,5737765,4475469,3249325,5276846,4090285,6195925,5047722,3722645,
5852819,4705574,3484246,5392983,4244662,3009205,5163733,3970762,6080330,4818581,3609899,5621035,4360795,3249498,5391722,4098901,6196133,5049162,3848853,5852309,
4589869,3371613,5507757,4244842,3001193,5164453,4078922,6082122,4820118,3610926,5736790,4360886,3249588,5392084,4206245,6194981,4933195,3732631,5850283,4475227,
3379894,5507930,4360020,3012265,5163813,3971723,6081101,4703403,3492187,5622125,4476266,3251028,5393812,4209957,6311206,4934229,3732653,5850294,4590261,3372458,
5506730,4247189,3128618,5162282,3852887,5966423,4818230,3492533,5622485,4474570,3255957,5278357,4093227,6195499,4932251,3618139,5850474,4590421,3488594,5507914,
4246293,3021355,5163309,3855021,5964461,4703597,3607401,5623209,4476234,3259669,5393686,4090446,6080855,4932278,3732917,5850836,4591273,3485258,5506699,4130071,
2894423,5048667,3969750,5966698,4819796,3610281,5737289,4360843,3142939,5276971,4098395,6081197,4932970,3734357,5967268,4590921,3373717,5507733,4244782,2902637,
5049013,3970474,6080202,4705957,3611978,5735754,4360855,3142958,5277014,4098741,6195925,4933330,3733157,5851813,4589131,3265687,5391003,4130139,3009238,5049193,
3971922,6081874,4819749,3496523,5622349,4358829,3138909,5162413,4091305,6196649,5049746,3734821,5852454,4590158,3380398,5391030,4130229,3018154,5162665,3853971,
5965459,4703527,3500631,5507675,4358874,3139285,5278549,4110153,6196041,4934291,3732779,5735725,4475485,3380570,5506410,4131669,3021642,5164362,3971733,5966485,
4703534,3500653,5622453,4359594,3132837,5279397,4205898,6080075,4820119,3733814,5850458,4475573,3380914,5506898,4245157,2905675,5048907,3855511,5964955,4588891,
3500762,5622633,4475730,3144357,5279013,4102731,6195789,4818093,3614061,5735853,4591018,3373906,5508498,4246821,3021389,5048918,3863726,5964982,4703925,3493290,
5621449,4361875,3255590,5162279,3983959,6081115,4932826,3623637,5737301,4589386,3380883,5393043,4130091,2902619,5048925,3863898,5965162,4705125,3611466,5623114,
4360853,3143981,5277998,3984045,6081205,4933034,3730853,5738149,4590922,3378326,5393559,4131126,2902710,5049046,3970738,5965650,4703909,3503691,5622347,4244631,
3025239,5163355,4016858,2766548,4934482,3734309,5852453,4475467,3265691,5391533,4131181,2902890,5049770,3980626,6082194,4705573,3504717,5622358,4359342,3025261,
5163701,4015530,2780563,4820627,3730726,5735723,4475479,3265718,5391706,4131541,3020458,5048138,3856021,5966485,4703531,3385947,5507693,4359514,3140437,5163877,
4016970,2783893,4934805,3619117,5736750,4475565,3380586,5391794,4132261,3022154,5164618,3861654,5852311,4704566,3502774,5507798,4359892,3141285,5277349,3995211,
6081099,4818075,3623255,5622107,4475738,3380948,5507922,4131621,2906699,5048907,3863723,5850285,4589933,3500906,5623210,4361620,3144997,5279014,4102733,6081110,
4818094,3623597,5737141,4474282,3263893,5394067,4244774,2796119,4934231,3863734,5965146,4590293,3503818,5621578,4360853,3036459,5163307,3994203,6081197,4818282,
3623765,5737381,4590410,3267221,5393557,4131117,2912861,4932269,3749229,5965236,4705701,3505482,5623370,4361366,3148078,5048663,3900086,2651573,4933332,3624617,
5736229,4474507,3265687,5276827,4016475,2912950,5049178,3873492,5966676,4705061,3504779,5507661,4244651,3025243,5163373,3900778,2669397,4935060,3743013,5737798,
4475477,3265710,5391542,4016821,2905514,5047978,3862165,5852821,4703530,3385943,5507671,4244790,3033781,5163733,4015818,2666133,4819605,3626539,5736747,4358811,
3155291,5277035,4131673,2906962,5049170,3865365,5967125,4590125,3388077,5505709,4244845,3026281,5164457,4017490,2792725,4820246,3623502,5622103,4473526,3151285,
5392084,4132521,3026514,4933259,3749143,5850411,4589915,3396314,5505882,4246357,3151529,5163849,3902091,2676011,4818221,3508829,5622381,4474218,3263317,5279141,
4132170,2914965,5048981,3749166,5850422,4590261,3503530,5506730,4247205,3145034,5277258,3787927,2676014,4818262,3623605,5622485,4474578,3266213,5393061,4015691,
2798743,4932763,3761499,5735787,4590441,3504978,5623122,4246309,3029579,5163597,3900589,2557277,4703661,3632490,5737897,4476306,3267877,5393702,4131406,2798766,
4932278,3761589,5850837,4589225,3387027,5506707,4244775,2918999,5048923,3900634,2665173,4705109,3626826,5737289,4475539,3159339,5276973,4016733,2913626,4932970,
3754837,5852581,4705610,3390101,5508246,4244782,3033709,5049013,3900842,2674085,4820645,3624266,5621323,4361367,3270966,5162331,4016822,2913970,5048018,3765925,
5851941,4590155,3396759,5391515,4130139,3033818,5163882,3902290,2677413,4820261,3627595,5622349,4359341,3156333,5277101,4017578,2915154,5049746,3865893,5852454,
4590166,3396782,5506230,4130485,3034538,5162666,3903123,2673958,4703527,3508823,5622363,4359386,3156693,5278549,4130634,2799253,4934293,3765547,5850413,4475485,
3396954,5506410,4246373,3038026,5164362,3902101,2677037,4704558,3517101,5622453,4474282,3149221,5279397,4132170,2911382,4818071,3639607,5736795,4590262,3397300,
5506898,4245157,3036747,5048907,3785879,2558295,4704603,3517146,5622634,4475730,3275557,5279013,4016715,2798747,4932781,3639661,5735861,4591018,3505492,5508754,
4246822,3037773,5163606,3785902,2558317,4704949,3634602,5621450,4361875,3271974,5276971,3902039,2806966,4932954,3672789,2430634,4589386,3397269,5507733,4130091,
2921051,5048941,3900762,2558677,4705125,3636042,5737802,4361365,3160365,5277998,4014765,2684269,4933044,3673509,2555210,4591178,3394710,5391511,4131127,2921142,
5049046,3901140,2674341,4703909,3511883,5622347,4359323,3041623,5163355,4014810,2800341,4934484,3672869,2447947,4590157,3282091,5391533,4131181,3036522,5049770,
3902804,2678053,4820262,3521109,5622358,4359342,3156653,5163701,4015530,2796949,4935317,3765546,5735723,4475479,3396790,5391706,4131541,3036874,5163850,3787413,
2561323,4704555,3519067,5505709,4244827,3156821,5278629,4016970,2800277,4934805,3758381,5736750,4473517,3282285,5506484,4132265,3038538,5164618,3902742,2566446,
4589911,3527350,5620442,4245205,3157673,5277477,4015755,2692375,4818091,3557723,2429626,4473690,3283669,5507924,4246313,2923147,5048973,3785899,2566491,4590189,
3519850,5621162,4361621,3161418,5279046,4016725,2806958,4818230,3558069,2438506,4589226,3280533,5392037,4130123,2927191,4932183,3671351,2566837,4704981,3536594,
5622610,4360869,3159595,5163563,3900571,2688347,4818283,3558233,2440018,4590418,3398421,5393685,4131405,2921645,5046958,3671405,2559338,4705705,3636562,5623434,
4361494,3156558,5163607,3900086,2688437,4818645,3671721,2322067,4474507,3282199,5391659,4016731,2929850,5047642,3787605,2569897,4705097,3521171,5622421,4244781,
3041885,5163629,4015466,2681685,4820389,3673418,2448021,4475542,3282222,5391670,4131509,2921898,5047986,3788453,2682186,4589131,3402903,5506199,4244823,3050166,
5163733,4015826,2807461,4819621,3557963,2331799,4474011,3171675,5277037,4131690,3046226,5049682,3788069,2570827,4704845,3404973,5506222,4244909,3157354,5164457,
4017554,2809125,4934950,3557966,2331822,4474038,3287477,5278421,4130473,2920083,5047955,3671335,2452055,4590171,3536090,5506410,4246357,3167946,5278537,3902101,
2692395,4818221,3557981,2331994,4474218,3287893,5393829,4132170,2923157,5049494,3787054,2452077,4590261,3536298,5621458,4247205,3157322,5162571,3902615,2689334,
4703579,3558070,2438580,4474578,3282597,5393189,4131403,2815127,4932763,3672411,2566874,4590442,3529554,5623122,4361509,3054155,5163597,3900589,2689373,4703661,
3558826,2448212,4590994,3292454,5393702,4131414,2929838,4932790,3672757,2569642,4703946,3427987,5507731,4244779,3050071,5048923,3900634,2689749,4819797,3557194,
2332309,4475541,3291435,5277997,4016733,2930010,5047658,3672933,2571082,4705610,3521685,5508246,4245806,3052141,5163702,3900844,2690469,4820645,3673418,2337942,
4359319,3172663,5278043,4016822,2930356,5048148,3786405,2455115,4590155,3421335,5506219,4131163,3050202,5163882,4016980,2693925,4820261,3557965,2339995,4359341,
3172717,5278133,4132266,2932052,5050002,3788070,2566733,4475479,3421358,5506230,4246197,3052970,5162698,3903125,2807082,4703531,3443287,2340022,4474202,3173077,
5278549,4130634,2930325,4934293,3672363,2462299,4588141,3212635,2075349,4246373,3169098,5164362,3902613,2693421,4819246,3441326,2217325,4474292,3288489,5279397,
4132426,2927766,4932759,3557719,2462390,4588246,3327701,2084521,4245157,3053131,5163595,3785883,2582875,4704603,3556058,2218709,4475732,3291945,5393701,4016717,
2815147,4932782,3672429,2454890,4588970,3329365,2202922,4246826,3050069,5048919,3900590,2575021,4704949,3556778,2338197,4359829,3175723,5276971,4016727,2811190,
4818267,3672789,2569930,4590410,3328661,2102571,4246059,2937435,5046957,3786075,2698073,4705705,3558226,2341525,4476181,3177005,5278254,4014766,2811245,4818357,
3673513,2571602,4705866,3329302,2099758,4131415,3052214,5047002,3786453,2692777,4818729,3442315,2225431,4359467,3181147,5163357,4014938,2820821,4934485,3672905,
2464403,4590229,3327277,1960541,4131437,3061098,5162410,3788181,2694474,4820298,3558038,2225454,4359478,3181237,5278389,4015786,2813349,4933285,3671371,2346135,
4474007,3310903,5391707,4131541,3053266,5163858,3902117,2586187,4704843,3441819,2221403,4244845,3181402,5279145,4131666,2816805,4934949,3672653,2462893,4474030,
3212653,2084202,4246953,3050834,5050003,3902758,2697806,4590167,3441846,2222517,4359893,3184298,5277513,4015763,2815271,4818219,3557979,2462906,4588890,3214037,
2102954,4246346,3054229,5048981,3786029,2583133,4704877,3442026,2222933,4361637,3292490,5279050,4017302,2816302,4932918,3558069,2463146,4589234,3329701,2100554,
4130379,2938007,5047447,3672407,2583222,4704986,3557074,2225829,4360997,3185227,5278283,3900571,2705755,4818285,3672938,2464594,4590930,3329317,2103883,4131405,
2946221,5047470,3787117,2583914,4705706,3558802,2342182,4361510,3181142,5163607,4015286,2705845,4819669,3671722,2461331,4474515,3212587,1985111,4131419,2946266,
5047642,3787605,2701002,4705098,3443349,2225451,4360493,3066461,5163693,4015466,2820949,4820389,3673418,2464917,4590742,3213614,1987181,4131510,3061164,5048018,
3788453,2698570,4703819,3327127,2115895,4245851,3197622,5163738,4015828,2823845,4934437,3557963,2348187,4474011,3213659,1987290,4131690,3062612,5164370,3788069,
2587213,4704845,3441837,2107741,4245933,3192234,5277098,3902867,2817318,4932902,3557975,2348206,4474038,3214005,2102698,4130506,2936469,5048981,3786027,2468439,
4590171,3442010,2222805,4246357,3192650,5278538,4016789,2709803,4819245,3555933,2348379,4474220,3214181,2104138,4246858,2948245,5049494,3787054,2585262,4590262,
3442092,2223529,4361893,3198282,5162571,3900567,2705719,4704603,3556022,2348725,4589396,3212965,1988171,4131403,2946203,4932779,3672411,2593498,4705642,3443540,
2235177,4361509,3185229,5163605,3900590,2705773,4819637,3556778,2346325,4476565,3329318,1993294,4016727,2946222,5047478,3672757,2586026,4703946,3442325,2118955,
4244779,3076695,5161563,3786075,2706133,4819797,3672906,2349717,4475541,3213611,1995355,4014765,2827611,4932973,3787625,2587474,4705610,3443861,2234925,4245806,
3076782,5161654,3900853,2706857,4820649,3673674,2460950,4359447,3098967,1995446,4129498,2840245,5049172,3786409,2586187,4590219,3327259,2115931,4245853,3076826,
5162346,3902293,2825001,4820265,3557965,2356397,4474030,3098989,1987946,4130218,2944341,4935317,3788074,2583126,4590167,3327150,2116269,4246197,3098026,1748389,
3901093,2708779,4818475,3441751,2237751,4359515,3214038,1988306,4131666,2947749,5049109,3672619,2479195,4588205,3327325,2116442,4246889,3099474,1866405,3902741,
2710061,4819534,3556014,2237805,4359605,3214762,2108754,4017811,2944278,4932887,3672663,2479286,4588250,3328725,2234026,4245289,2983571,1758503,3900715,2591323,
4704861,3556698,2353877,4361045,3214154,1997461,4131477,2831661,4932910,3672685,2585962,4588970,3329445,2227530,4361546,3083414,5049495,3900726,2706102,4704950,
3557034,2346405,4474533,3097931,1881239,4015255,2836791,4818267,3672794,2594514,4705106,3328677,2120267,4246091,3077275,5047469,3786093,2714458,4820394,3558738,
2358053,4476197,3213901,1881261,4015278,2844013,4933301,3673514,2583890,4591251,3441958,2001487,4131415,2983094,1747381,3787477,2709162,4818762,3557011,2241835,
4359467,3099227,2004154,4015450,2837205,4934485,3787594,2480789,4590229,3328301,2118237,4131437,2983274,1747797,3902885,2719050,4820298,3558550,2353454,4245815,
3099318,1996204,4130482,2838181,4933285,3671627,2479255,4474007,3213655,2116278,4246234,2983636,1758885,3902245,2710091,4704843,3441819,2238811,4360557,3099498,
1997652,4132178,2948389,4934950,3672653,2479278,4588718,3213677,2119018,4244906,2985365,1760550,3900710,2591319,4704855,3441846,2239157,4360917,3212970,1879701,
4016789,2839851,4932907,3557979,2479322,4588890,3328853,2119370,4246346,2984597,1759531,3787053,2601565,4704941,3556714,2239333,4361637,3214666,1997973,4017302,
2836782,4819255,3670710,2364845,4589268,3329701,2231626,4130379,2868375,1648951,3787099,2601654,4704986,3557076,2356901,4360997,3099211,1889435,4015261,2722141,
4819309,3670890,2480981,4590932,3329317,2120269,4246093,2868398,1648989,3787181,2717034,4703658,3444117,2354470,4359467,2984535,1889454,4015286,2853557,4819669,
3671754,2479765,4590229,3212587,2011735,4129371,2868571,1641173,3787605,2718538,4819786,3443349,2242859,4360493,3097181,1762653,3900781,2853737,4935077,3673418,
2481301,4590742,3328302,2003630,4129462,2868661,1756585,3786409,2600267,4703819,3441815,2124087,4245851,3097274,1885877,3902165,2848425,4934437,3672651,2364571,
4474029,3213661,2126554,4130154,2870101,1760042,3902758,2603597,4704854,3441838,2238829,4246197,3098026,1879381,4017813,2854186,4818219,3557975,2479278,4474166,
3214005,2119082,4245194,2868885,1652011,3786027,2601559,4588123,3327323,2247382,4361049,3099474,1890965,4016789,2841131,4819501,3556013,2368861,4474221,3214697,
2128722,4246866,2985237,1653293,3787310,2609838,4702902,3327413,2239914,4359849,3100243,1887510,3900695,2738775,4819291,3556058,2362037,4475733,3327657,2004627,
4131467,2868523,1649243,3672413,2602202,4703594,3443541,2243370,4361546,3099285,1889581,3900718,2738797,4819637,3671466,2370901,4476581,3329354,2116246,4017303,
2868526,1649326,3787446,2610602,4703954,3442341,2241867,4246091,2983063,1771831,3900763,2640602,1521362,3672914,2480805,4476197,3213899,2012315,4129965,2753885,
1649498,3788138,2726738,4705618,3444006,2251341,4360782,2983086,1770861,3900853,2753962,1404243,3559059,2477350,4474151,3099223,2012342,4130010,2869973,1652394,
3786570,2610835,4704917,3327275,2132571,4246109,3097946,1772245,3902293,2755402,1522325,3558037,2373933,4475182,3213933,2012522,4130218,2870693,1768778,3788106,
2600086,4588695,3328311,2132662,4246198,3098292,1887653,3901093,2639435,1414295,3556507,2255159,4359515,3214042,2127572,4131666,2869925,1653323,3787339,2487451,
4588717,3328365,2247514,4246954,3099986,1891109,4017446,2738765,4704855,3556526,2369901,4360885,3212714,2002325,4130451,2753831,1534551,3672663,2610358,4588762,
3328725,2250410,4360010,2983573,1774891,3900715,2732635,4704861,3556698,2370261,4475749,3214154,2013845,4131989,2869549,1536605,3672685,2618732,4703660,3329445,
2252106,4361546,3099798,1771822,3787063,2638518,1414509,3557044,2363045,4474533,3212875,1897623,4015259,2754907,1659574,3672794,2619092,4705108,3443493,2136651,
4246093,2983067,1780061,3787117,2638698,1407829,3673428,2374950,4476198,3213902,2012334,4015278,2754925,1652074,3786154,2510229,4589205,3327275,2132567,4131415,
2983094,1772213,3902165,2639530,1414805,3558037,2372907,4360491,3097179,1901787,4015451,2755413,1652426,3787594,2611861,4590741,3328301,2134621,4244142,2868589,
1772393,3902889,2755914,1424533,3558550,2369838,4360535,3097270,1893813,4015829,2868905,1535307,3671627,2495639,4588699,3213659,2134714,4244186,2984661,1775273,
3902245,2640459,1422491,3441837,2255197,4360557,3212650,1895253,4017493,2870570,1653325,3672662,2503854,4588718,3328685,2135402,4244906,2985365,1887530,3786027,
2525783,1418414,3441847,2263734,4360917,3213002,2012821,4016789,2753835,1545303,3670619,2385243,4474221,3328857,2251602,4246866,2984597,1784363,3901997,2523741,
1303901,3442029,2378602,4361641,3214674,2014357,4132118,2755118,1544878,3670710,2508213,4474581,3327657,2133587,4245131,2868503,1665623,3787099,2638522,1296053,
3443413,2373290,4475721,3099283,1905835,4015277,2755165,1545434,3671402,2509653,4590997,3329354,2136725,4246102,2983086,1665645,3787445,2639274,1420629,3444389,
2370890,4359499,3099735,1902766,3900727,2755254,1660338,3671762,2504357,4590245,3328587,2020439,4129947,2868571,1780442,3787610,2640722,1415845,3558181,2259531,
4360781,3097773,1901917,3900781,2755946,1661778,3788114,2411814,1157709,3213903,2143406,4129974,2868661,1772970,3901098,2526867,1420582,3441959,2263639,4246107,
3097818,1903285,4016981,2754218,1545877,3672725,2503979,4474157,3213917,2143450,4244842,2870101,1784650,3902794,2640533,1308973,3442990,2263661,4360885,3098026,
1903973,4017829,2870602,1543318,3556503,2394423,4475227,3214006,2143668,4245202,2983589,1668683,3787339,2524311,1313079,3328347,2263770,4361066,3214162,1907365,
4017445,2755149,1545373,3556526,2394461,4474285,3329386,2145108,4246930,2985254,1780301,3672663,2524334,1304941,3443381,2266538,4359850,3100307,2012454,3900715,
2640471,1545398,3671258,2296533,1169066,3327818,2135701,4131477,2868523,1667675,3787357,2524506,1305301,3443557,2382666,4361546,3099797,1906989,4016430,2638446,
1430893,3671468,2411941,1187146,3329354,2141334,4129943,2754871,1667766,3787446,2639540,1306021,3442341,2266699,4360779,2983067,1788219,3901789,2753242,1431253,
3672916,2411173,1186379,3213901,2028701,4129966,2869613,1667946,3786154,2526549,1424166,3444006,2263630,4246103,3097774,1788269,3902133,2753962,1543573,3557013,
2295083,1067607,3213911,2028726,4130138,2869973,1783466,3787594,2525845,1316139,3442987,2151003,4244061,2983259,1903321,3902309,2755402,1546901,3673237,2296109,
1077853,3211950,2028909,4130228,2870697,1785162,3903050,2526358,1313070,3328311,2265782,4244154,2983605,1906345,4015781,2639435,1430679,3556507,2296155,1053370,
3211994,2030293,4246356,2870057,1669707,3787341,2524333,1198429,3328365,2274666,4359594,2985301,1908010,4017446,2755158,1438894,3556526,2296173,1185130,3212714,
2026901,4130453,2868523,1550935,3670615,2409655,1313462,3328725,2274986,4361034,3099285,1791275,3901739,2638427,1434971,3442013,2296666,1178322,3328850,2030229,
4131989,2869549,1675869,3670702,2409837,1305450,3444137,2280786,4247115,3099926,1902894,3787095,2638518,1426869,3557077,2295465,1068371,3212875,2028823,4015259,
2754907,1675962,3785434,2411221,1316522,3443497,2267733,4246093,2983085,1796445,3901805,2639210,1436501,3558805,2411818,1079893,3213910,2028718,4129974,2755253,
1676650,3786154,2526629,1305930,3327275,2149463,4244055,2868535,1788598,3902166,2754258,1431205,3558053,2296363,1078359,3097755,1910107,4015469,2870106,1669970,
3788114,2525861,1317419,3328557,2159773,4244142,2983277,1796970,3902890,2755922,1555750,3558678,2296366,1078446,3211958,1918389,4016853,2868906,1666643,3671699,
2409771,1198679,3328603,2159802,4244826,2984661,1906346,3902282,2640533,1439019,3556653,2181725,1078490,3212650,2034517,4017573,2870602,1677973,3787926,2410798,
1198701,3328694,2180524,814437,2985637,1912138,3901003,2524311,1321271,3443003,2296502,1078708,3213010,2037413,4131493,2755147,1561751,3671195,2410843,1198810,
3328874,2181972,948901,2985253,1792589,3902029,2639022,1321309,3442029,2297194,1190740,3100051,2026790,4015399,2755159,1561774,3671222,2410933,1316266,3327658,
2160277,4246163,2983211,1673815,3787355,2639066,1436341,3443541,2295498,1078933,3213973,1914155,4016429,2753117,1561947,3671402,2411349,1317706,3444042,2067093,
817453,2984238,1798766,3787446,2639276,1437033,3559077,2297162,1076374,3097751,1919287,3901787,2755254,1676724,3786452,2410149,1201739,3328587,2159771,4129949,
2869597,1798874,3902314,2640724,1440421,3558693,2296397,963741,3097774,1919341,4016565,2753898,1559893,3673493,2526502,1198670,3213911,2065582,813421,2869941,
1799594,3901098,2639509,1324331,3441963,2179671,967863,2983131,1919701,4016981,2870090,1563285,3672725,2410795,1208923,3211869,2049373,4130157,2984809,1801034,
3902794,2641045,1440045,3442990,2179758,959853,3098037,1920425,4017829,2870602,1674390,3556503,2296119,1200822,3326650,1951413,824745,2983593,1791563,3787339,
2524315,1321307,3443037,2179802,961237,3099477,2038569,4017446,2755149,1561773,3671214,2296173,1209194,3327402,2067797,843050,2985258,1796694,3787351,2524334,
1321325,3443381,2295210,961941,3098261,1922347,4015403,2638423,1442999,3556699,2411222,1201834,3328842,2067093,841003,2869547,1684059,3785309,2524509,1329882,
3443561,2296658,1088149,3099797,1923373,4016430,2753198,1451373,3556789,2411945,1322322,3214923,2067606,846126,2869559,1692342,3785402,2524853,1439402,3442345,
2180683,971927,3097755,1804635,3901789,2753242,1559253,3558229,2411306,1210965,3328597,1950893,731485,2869613,1799530,3786154,2526549,1441066,3558698,2181718,
971950,3097782,1927798,3902133,2753962,1568165,3671701,2295083,1094231,3212375,1950903,723638,2869978,1808082,3902290,2525861,1324331,3443243,2180187,853339,
2983277,1936218,4017514,2755410,1563301,3673366,2411054,1094814,3211950,1951085,838506,2870698,1797458,3788435,2639126,1215055,3328599,2180278,969141,2984661,
1930922,4015914,2754195,1447211,3556651,2296411,1209530,3212634,1952469,841386,2984778,1686165,3787413,2524461,1329757,3328621,2180458,969557,3100069,1838410,
588437,2755734,1567022,3442999,2296502,1209708,3327666,1953189,847178,2868811,1684631,3671195,2410811,1329846,3443418,2180820,972453,3099301,1923659,3902029,
2639005,1452381,3556717,2296682,1211220,3329362,2067749,735821,2869838,1684654,3785902,2410861,1332586,3442090,2182483,970022,2983207,1813079,3902039,2639030,
1452469,3558101,2410154,1087125,3213973,1951019,731735,2755163,1692858,3786074,2525909,1332938,3443530,2181781,973099,2984237,1815133,3902061,2753900,1452885,
3558821,2411850,1211029,3214486,1952046,733806,2869942,1693100,3786420,2526885,1445194,3327563,2065559,854327,2984283,1815226,3902170,2754260,1562277,3558053,
2296395,1094811,3212445,1837405,733914,2870122,1809236,3788116,2526502,1333837,3443278,2065582,862557,2984301,1836394,469845,2641301,1568038,3556647,2181719,
1094830,3212470,1952437,734634,2868906,1693333,3787413,2409771,1217111,3326555,2065627,854709,2984789,1836746,603797,2640533,1456427,3557677,2294365,976221,
3097965,1952617,850762,2870602,1686677,3787926,2525486,1217134,3326646,2065845,970153,2983593,1723723,609430,2638999,1337655,3443035,2294458,1090997,3099349,
1951401,734795,2869835,1578139,3671213,2410845,1331930,3327338,2067285,973482,3099946,1722957,472237,2639022,1452397,3443125,2295146,1092949,3214741,1953066,
731734,2755159,1688750,3556535,2411189,1332650,3442378,2066069,857387,2983211,1815127,3785307,2524507,1452758,3558233,2296658,1096341,3213973,1952043,627291,
2753117,1582429,3671405,2411369,1334098,3444042,2182294,866605,2984238,1721006,468333,2524597,1453482,3557033,2297427,1100950,3097751,1837367,742070,2753210,
1582773,3672789,2524841,1218131,3328589,2065563,862555,2869597,1721050,486101,2640725,1456938,3558698,2296405,1103021,3097774,1837421,734570,2868650,1584469,
3673749,2526506,1329750,3213911,2065590,862838,2984630,1721770,495013,2639525,1455403,3443243,2180187,984251,3097947,1837786,734932,2870098,1694373,3673237,
2411053,1217629,3326637,1951069,862938,2985322,1837906,498341,2641190,1452590,3443255,2180270,984429,3098037,1951146,617813,2754131,1578279,3671339,2296407,
1225910,3326682,2067125,857770,2983594,1722005,496939,2524459,1346139,3443293,2295002,985813,3099477,1952586,744085,2755221,1579309,3672366,2411117,1226092,
3327402,2067877,982346,2985290,1723542,502062,2525495,1346230,3443382,2295220,1101221,3098277,1836363,627863,2753691,1460539,3556699,2411226,1332948,3328850,
2067109,866891,2984525,1606813,387421,2525549,1461082,3444074,2296660,1096485,3214630,1837646,627886,2753710,1583469,3558069,2409898,1224021,3327635,1951015,
748119,2869847,1721526,379317,2525909,1463978,3557194,2180757,980267,3097899,1835611,513211,2753882,1592021,3672917,2411338,1219221,3328661,2066733,750173,
2867822,1607021,502617,2526629,1457482,3558730,2296982,985390,2984247,1835702,628077,2754228,1592745,3671717,2410059,1111191,3212443,1952091,864954,2869978,
1722068,497321,2640549,1350219,3443277,2180253,985437,2984301,1835882,625493,2755925,1494310,244301,2411086,1225902,3212462,1952109,865642,2983338,1609045,
503082,2524459,1346135,3328599,2180278,985525,3099349,1836714,628373,2755221,1586475,3557675,2294363,1107163,3212635,1952469,865994,2984778,1723029,399659,
2525485,1348189,3441326,2065773,985961,3100073,1953098,629910,2755734,1583406,3557687,2294454,1107381,3213013,2066089,748875,2868811,1606807,395575,2410843,
1348282,3441370,2181845,988841,3099429,1837643,627867,2639021,1476957,3557741,2409322,1108821,3214677,2067754,866901,2869846,1606830,387437,2525557,1357162,
3442090,2182549,1101098,2983211,1722967,631982,2639035,1477302,3558101,2410186,1226389,3213973,1951019,750167,2867805,1492187,387802,2526042,1465170,3443530,
2181781,989485,3098926,1720925,517469,2639213,1493866,252754,2411858,1223830,3212439,1837359,758446,2867894,1607093,388522,2524841,1346899,3442251,2065559,
878903,2984283,1835706,509621,2640597,1492650,243285,2296397,1111211,3212461,1952093,758490,2868586,1608533,514858,2526506,1350229,3443286,2180270,878957,
2984629,1836394,634197,2641557,1494314,264790,2294359,992439,3097787,1952438,873908,2868946,1607333,398635,2525483,1234011,3326557,2065755,985818,2984794,
1837906,629413,2755221,1378861,128093,2294446,1107293,3097965,1953130,867154,2985298,1608998,395822,2411087,1356462,3326646,2065845,996778,3098282,1723987,};
