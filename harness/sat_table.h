/* Lieske E5 terms as given by Meeus: satellite, L/B/R, coefficient (1e-5 deg or 1e-7), multiples of
   l1-l4, pi1-pi4, omega1-4, psi, Pi, G, G', libration phase, 52.225 deg, own true longitude, del2 */
struct JT { int sat; char what; double c; double m[20]; };
static const JT JTERM[] = {
   {1,'L',47259,{2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',-3478,{0,0,0,0,0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',1081,{0,1,-2,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',738,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0}},
   {1,'L',713,{0,1,-2,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',-674,{0,0,0,0,1,0,1,0,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {1,'L',666,{0,1,-2,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',445,{1,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',-354,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',-317,{0,0,0,0,0,0,0,0,0,0,0,0,2,-2,0,0,0,0,0,0}},
   {1,'L',265,{1,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',-186,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0}},
   {1,'L',162,{0,0,0,0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',158,{4,-4,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'L',-155,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',106476,{0,2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',4256,{1,-2,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',3581,{0,1,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',2395,{1,-2,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',1984,{0,1,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',-1778,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0}},
   {2,'L',1654,{0,1,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',1334,{0,1,-2,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',1294,{0,0,0,0,0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',-1142,{0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',-1057,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0}},
   {2,'L',-775,{0,0,0,0,0,0,0,0,0,0,0,0,2,-2,0,0,0,0,0,0}},
   {2,'L',524,{2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',-460,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',316,{0,0,0,0,0,0,0,0,0,0,1,0,1,-2,-2,0,0,0,0,0}},
   {2,'L',-203,{0,0,0,0,1,0,1,0,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {2,'L',146,{0,0,0,0,0,0,0,0,0,0,-1,0,1,0,0,0,0,0,0,0}},
   {2,'L',-145,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,0}},
   {2,'L',125,{0,0,0,0,0,0,0,0,0,0,0,-1,1,0,0,0,0,0,0,0}},
   {2,'L',-115,{1,0,-2,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'L',-94,{0,2,0,0,0,0,0,0,0,-2,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',16490,{0,0,1,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',9081,{0,0,1,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-6907,{0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',3784,{0,0,0,0,0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',1846,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-1340,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0}},
   {3,'L',-1014,{0,0,0,0,0,0,0,0,0,0,0,0,2,-2,0,0,0,0,0,0}},
   {3,'L',704,{0,1,-2,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-620,{0,1,-2,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-541,{0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',381,{0,1,-2,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',235,{0,0,0,0,0,0,0,0,0,0,-1,0,1,0,0,0,0,0,0,0}},
   {3,'L',198,{0,0,0,0,0,0,0,0,0,0,0,-1,1,0,0,0,0,0,0,0}},
   {3,'L',176,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0}},
   {3,'L',130,{0,0,3,-3,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',125,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-119,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,-2,5,0,1,0,0}},
   {3,'L',109,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-100,{0,0,3,-7,0,0,0,4,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',91,{0,0,0,0,0,0,0,0,0,0,1,-1,0,0,0,0,0,0,0,0}},
   {3,'L',80,{0,0,3,-7,0,0,1,3,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-75,{0,2,-3,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',72,{0,0,0,0,1,0,1,0,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {3,'L',69,{0,0,0,0,0,0,0,1,0,0,0,0,0,-1,0,0,0,0,0,0}},
   {3,'L',-58,{0,0,2,-3,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-57,{0,0,1,-2,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',56,{0,0,1,0,0,0,1,0,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {3,'L',-52,{0,1,-2,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'L',-50,{0,0,0,0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'L',84287,{0,0,0,1,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'L',3431,{0,0,0,0,0,0,-1,1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'L',-3305,{0,0,0,0,0,0,0,0,0,0,0,0,2,-2,0,0,0,0,0,0}},
   {4,'L',-3211,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0}},
   {4,'L',-1862,{0,0,0,1,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'L',1186,{0,0,0,0,0,0,0,0,0,0,0,-1,1,0,0,0,0,0,0,0}},
   {4,'L',623,{0,0,0,1,0,0,0,1,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {4,'L',387,{0,0,0,2,0,0,0,-2,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'L',-284,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,-2,5,0,1,0,0}},
   {4,'L',-234,{0,0,0,0,0,0,0,-2,0,0,0,0,2,0,0,0,0,0,0,0}},
   {4,'L',-223,{0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'L',-208,{0,0,0,1,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0}},
   {4,'L',178,{0,0,0,0,0,0,0,-2,0,0,0,1,1,0,0,0,0,0,0,0}},
   {4,'L',134,{0,0,0,0,0,0,0,1,0,0,0,0,0,-1,0,0,0,0,0,0}},
   {4,'L',125,{0,0,0,2,0,0,0,0,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {4,'L',-117,{0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,0}},
   {4,'L',-112,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'B',6393,{0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,1,0}},
   {1,'B',1825,{0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,1,0}},
   {1,'B',329,{0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,1,0}},
   {1,'B',-311,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,1,0}},
   {1,'B',93,{0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,1,0}},
   {2,'B',81004,{0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,1,0}},
   {2,'B',4512,{0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,1,0}},
   {2,'B',-3284,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,1,0}},
   {2,'B',1160,{0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,1,0}},
   {2,'B',272,{1,0,-2,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,1.0146}},
   {2,'B',-144,{0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,1,0}},
   {2,'B',143,{0,0,0,0,0,0,0,0,0,0,0,0,1,-2,-2,0,0,0,1,0}},
   {3,'B',32402,{0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,1,0}},
   {3,'B',-16911,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,1,0}},
   {3,'B',6847,{0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,1,0}},
   {3,'B',-2797,{0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,1,0}},
   {3,'B',321,{0,0,0,0,0,0,0,0,0,0,0,0,1,-2,-2,0,0,0,1,0}},
   {3,'B',51,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,1,0,0,0,1,0}},
   {3,'B',-45,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,-1,0,0,0,1,0}},
   {3,'B',-45,{0,0,0,0,0,0,0,0,0,0,0,0,1,-2,0,0,0,0,1,0}},
   {4,'B',-76579,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,1,0}},
   {4,'B',44134,{0,0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,1,0}},
   {4,'B',-5112,{0,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,1,0}},
   {4,'B',773,{0,0,0,0,0,0,0,0,0,0,0,0,1,-2,-2,0,0,0,1,0}},
   {4,'B',104,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,1,0,0,0,1,0}},
   {4,'B',-102,{0,0,0,0,0,0,0,0,0,0,0,0,-1,0,-1,0,0,0,1,0}},
   {4,'B',88,{0,0,0,0,0,0,0,0,0,0,0,0,1,-2,-3,0,0,0,1,0}},
   {4,'B',-38,{0,0,0,0,0,0,0,0,0,0,0,0,1,-2,-1,0,0,0,1,0}},
   {1,'R',-41339,{2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'R',-387,{1,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'R',-214,{1,0,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'R',170,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'R',-131,{4,-4,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {1,'R',106,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',93848,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',-3116,{0,1,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',-1744,{0,1,0,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',-1442,{0,1,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',553,{0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',523,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',-290,{2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',164,{0,2,0,0,0,0,0,0,0,-2,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',107,{1,0,-2,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',-102,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {2,'R',-91,{2,0,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',-14388,{0,0,1,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',-7919,{0,0,1,0,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',6342,{0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',-1761,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',294,{0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',-156,{0,0,3,-3,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',156,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',-153,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {3,'R',-70,{0,2,-3,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',-73546,{0,0,0,1,0,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',1621,{0,0,0,1,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',974,{0,0,1,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',-543,{0,0,0,1,0,0,0,1,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {4,'R',-271,{0,0,0,2,0,0,0,-2,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',182,{0,0,0,1,0,0,0,0,0,0,0,0,0,-1,0,0,0,0,0,0}},
   {4,'R',177,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',-167,{0,0,0,2,0,0,0,0,0,0,0,-1,-1,0,0,0,0,0,0,0}},
   {4,'R',167,{0,0,0,0,0,0,0,0,0,0,0,-1,1,0,0,0,0,0,0,0}},
   {4,'R',-155,{0,0,0,2,0,0,0,0,0,0,0,0,0,-2,-2,0,0,0,0,0}},
   {4,'R',142,{0,0,0,2,0,0,0,0,0,0,0,0,-2,0,0,0,0,0,0,0}},
   {4,'R',105,{1,0,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',92,{0,1,0,-1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
   {4,'R',-89,{0,0,0,1,0,0,0,0,0,0,0,0,0,-1,-1,0,0,0,0,0}},
   {4,'R',-62,{0,0,0,1,0,0,0,1,0,0,0,0,0,-2,-3,0,0,0,0,0}},
   {4,'R',48,{0,0,0,2,0,0,0,0,0,0,0,-2,0,0,0,0,0,0,0,0}},
};
/* GUST86 (Laskar & Jacobson 1987): coefficient, then multiples of N1..N5 and of E1..E5 (N in rad, amplitudes 1e-6) */
struct GT { double c; int m[10]; };
static const std::vector<GT> RN_Miranda = {{-34.92,{1,-3,2,0,0,0,0,0,0,0}},{8.47,{2,-6,4,0,0,0,0,0,0,0}},{1.31,{3,-9,6,0,0,0,0,0,0,0}},{-52.28,{1,-1,0,0,0,0,0,0,0,0}},{-136.65,{2,-2,0,0,0,0,0,0,0,0}}};
static const std::vector<GT> RL_Miranda = {{25472.17,{1,-3,2,0,0,0,0,0,0,0}},{-3088.31,{2,-6,4,0,0,0,0,0,0,0}},{-318.1,{3,-9,6,0,0,0,0,0,0,0}},{-37.49,{4,-12,8,0,0,0,0,0,0,0}},{-57.85,{1,-1,0,0,0,0,0,0,0,0}},{-62.32,{2,-2,0,0,0,0,0,0,0,0}},{-27.95,{3,-3,0,0,0,0,0,0,0,0}}};
static const std::vector<GT> Z_Miranda = {{-123.31,{-1,2,0,0,0,0,0,0,0,0}},{39.52,{-2,3,0,0,0,0,0,0,0,0}},{194.1,{1,0,0,0,0,0,0,0,0,0}}};
static const double C_Miranda[13] = {4443522.67,-238051.58,4445190.55,1312.38,71.81,69.77,6.75,6.27,37871.71,27.01,30.76,12.18,5.37};
static const std::vector<GT> RN_Ariel = {{2.55,{1,-3,2,0,0,0,0,0,0,0}},{-42.16,{0,1,-1,0,0,0,0,0,0,0}},{-102.56,{0,2,-2,0,0,0,0,0,0,0}}};
static const std::vector<GT> RL_Ariel = {{-1860.5,{1,-3,2,0,0,0,0,0,0,0}},{219.99,{2,-6,4,0,0,0,0,0,0,0}},{23.1,{3,-9,6,0,0,0,0,0,0,0}},{4.3,{4,-12,8,0,0,0,0,0,0,0}},{-90.11,{0,1,-1,0,0,0,0,0,0,0}},{-91.07,{0,2,-2,0,0,0,0,0,0,0}},{-42.75,{0,3,-3,0,0,0,0,0,0,0}},{-16.49,{0,2,0,-2,0,0,0,0,0,0}}};
static const std::vector<GT> Z_Ariel = {{-84.6,{0,-1,2,0,0,0,0,0,0,0}},{91.81,{0,-2,3,0,0,0,0,0,0,0}},{20.03,{0,-1,0,2,0,0,0,0,0,0}},{89.77,{0,1,0,0,0,0,0,0,0,0}}};
static const double C_Ariel[13] = {2492542.57,3098046.41,2492952.52,-3.35,1187.63,861.59,71.5,55.59,-121.75,358.25,290.08,97.78,33.97};
static const std::vector<GT> RN_Umbriel = {{9.74,{0,0,1,-2,0,0,0,1,0,0}},{-106,{0,1,-1,0,0,0,0,0,0,0}},{54.16,{0,2,-2,0,0,0,0,0,0,0}},{-23.59,{0,0,1,-1,0,0,0,0,0,0}},{-70.7,{0,0,2,-2,0,0,0,0,0,0}},{-36.28,{0,0,3,-3,0,0,0,0,0,0}}};
static const std::vector<GT> RL_Umbriel = {{660.57,{1,-3,2,0,0,0,0,0,0,0}},{-76.51,{2,-6,4,0,0,0,0,0,0,0}},{-8.96,{3,-9,6,0,0,0,0,0,0,0}},{-2.53,{4,-12,8,0,0,0,0,0,0,0}},{-52.91,{0,0,1,-4,3,0,0,0,0,0}},{-7.34,{0,0,1,-2,0,0,0,0,0,1}},{-1.83,{0,0,1,-2,0,0,0,0,1,0}},{147.91,{0,0,1,-2,0,0,0,1,0,0}},{-7.77,{0,0,1,-2,0,0,1,0,0,0}},{97.76,{0,1,-1,0,0,0,0,0,0,0}},{73.13,{0,2,-2,0,0,0,0,0,0,0}},{34.71,{0,3,-3,0,0,0,0,0,0,0}},{18.89,{0,4,-4,0,0,0,0,0,0,0}},{-67.89,{0,0,1,-1,0,0,0,0,0,0}},{-82.86,{0,0,2,-2,0,0,0,0,0,0}},{-33.81,{0,0,3,-3,0,0,0,0,0,0}},{-15.79,{0,0,4,-4,0,0,0,0,0,0}},{-10.21,{0,0,1,0,-1,0,0,0,0,0}},{-17.08,{0,0,2,0,-2,0,0,0,0,0}}};
static const std::vector<GT> Z_Umbriel = {{29.34,{0,1,0,0,0,0,0,0,0,0}},{26.2,{0,0,1,0,0,0,0,0,0,0}},{51.19,{0,-1,2,0,0,0,0,0,0,0}},{-103.86,{0,-2,3,0,0,0,0,0,0,0}},{-27.16,{0,-3,4,0,0,0,0,0,0,0}},{-16.22,{0,0,0,1,0,0,0,0,0,0}},{549.23,{0,0,-1,2,0,0,0,0,0,0}},{34.7,{0,0,-2,3,0,0,0,0,0,0}},{12.81,{0,0,-3,4,0,0,0,0,0,0}},{21.81,{0,0,-1,0,2,0,0,0,0,0}},{46.25,{0,0,1,0,0,0,0,0,0,0}}};
static const double C_Umbriel[13] = {1515954.9,2285401.69,1516148.11,-0.21,-227.95,3904.69,309.17,221.92,-10.86,-81.51,1113.36,350.14,106.5};
static const std::vector<GT> RN_Titania = {{-2.64,{0,0,1,-2,0,0,0,1,0,0}},{-2.16,{0,0,0,2,-3,0,0,0,0,1}},{6.45,{0,0,0,2,-3,0,0,0,1,0}},{-1.11,{0,0,0,2,-3,0,0,1,0,0}},{-62.23,{0,1,0,-1,0,0,0,0,0,0}},{-56.13,{0,0,1,-1,0,0,0,0,0,0}},{-39.94,{0,0,0,1,-1,0,0,0,0,0}},{-91.85,{0,0,0,2,-2,0,0,0,0,0}},{-58.31,{0,0,0,3,-3,0,0,0,0,0}},{-38.6,{0,0,0,4,-4,0,0,0,0,0}},{-26.18,{0,0,0,5,-5,0,0,0,0,0}},{-18.06,{0,0,0,6,-6,0,0,0,0,0}}};
static const std::vector<GT> RL_Titania = {{20.61,{0,0,1,-4,3,0,0,0,0,0}},{-2.07,{0,0,1,-2,0,0,0,0,0,1}},{-2.88,{0,0,1,-2,0,0,0,0,1,0}},{-40.79,{0,0,1,-2,0,0,0,1,0,0}},{2.11,{0,0,1,-2,0,0,1,0,0,0}},{-51.83,{0,0,0,2,-3,0,0,0,0,1}},{159.87,{0,0,0,2,-3,0,0,0,1,0}},{-35.05,{0,0,0,2,-3,0,0,1,0,0}},{-1.56,{0,0,0,3,-4,0,0,0,0,1}},{40.54,{0,1,0,-1,0,0,0,0,0,0}},{46.17,{0,0,1,-1,0,0,0,0,0,0}},{-317.76,{0,0,0,1,-1,0,0,0,0,0}},{-305.59,{0,0,0,2,-2,0,0,0,0,0}},{-148.36,{0,0,0,3,-3,0,0,0,0,0}},{-82.92,{0,0,0,4,-4,0,0,0,0,0}},{-49.98,{0,0,0,5,-5,0,0,0,0,0}},{-31.56,{0,0,0,6,-6,0,0,0,0,0}},{-20.56,{0,0,0,7,-7,0,0,0,0,0}},{-13.69,{0,0,0,8,-8,0,0,0,0,0}}};
static const std::vector<GT> Z_Titania = {{33.86,{0,1,0,0,0,0,0,0,0,0}},{17.46,{0,0,0,1,0,0,0,0,0,0}},{16.58,{0,-1,0,2,0,0,0,0,0,0}},{28.89,{0,0,1,0,0,0,0,0,0,0}},{-35.86,{0,0,-1,2,0,0,0,0,0,0}},{-17.86,{0,0,0,1,0,0,0,0,0,0}},{-32.1,{0,0,0,0,1,0,0,0,0,0}},{-177.83,{0,0,0,-1,2,0,0,0,0,0}},{793.43,{0,0,0,-2,3,0,0,0,0,0}},{99.48,{0,0,0,-3,4,0,0,0,0,0}},{44.83,{0,0,0,-4,5,0,0,0,0,0}},{25.13,{0,0,0,-5,6,0,0,0,0,0}},{15.43,{0,0,0,-6,7,0,0,0,0,0}}};
static const double C_Titania[13] = {721663.16,856358.79,721718.51,-0.02,-1.29,-324.51,932.81,1120.89,-1.43,-1.06,-140.13,685.72,378.32};
static const std::vector<GT> RN_Oberon = {{2.08,{0,0,0,2,-3,0,0,0,0,1}},{-6.22,{0,0,0,2,-3,0,0,0,1,0}},{1.07,{0,0,0,2,-3,0,0,1,0,0}},{-43.1,{0,1,0,0,-1,0,0,0,0,0}},{-38.94,{0,0,1,0,-1,0,0,0,0,0}},{-80.11,{0,0,0,1,-1,0,0,0,0,0}},{59.06,{0,0,0,2,-2,0,0,0,0,0}},{37.49,{0,0,0,3,-3,0,0,0,0,0}},{24.82,{0,0,0,4,-4,0,0,0,0,0}},{16.84,{0,0,0,5,-5,0,0,0,0,0}}};
static const std::vector<GT> RL_Oberon = {{-7.82,{0,0,1,-4,3,0,0,0,0,0}},{51.29,{0,0,0,2,-3,0,0,0,0,1}},{-158.24,{0,0,0,2,-3,0,0,0,1,0}},{34.51,{0,0,0,2,-3,0,0,1,0,0}},{47.51,{0,1,0,0,-1,0,0,0,0,0}},{38.96,{0,0,1,0,-1,0,0,0,0,0}},{359.73,{0,0,0,1,-1,0,0,0,0,0}},{282.78,{0,0,0,2,-2,0,0,0,0,0}},{138.6,{0,0,0,3,-3,0,0,0,0,0}},{78.03,{0,0,0,4,-4,0,0,0,0,0}},{47.29,{0,0,0,5,-5,0,0,0,0,0}},{30,{0,0,0,6,-6,0,0,0,0,0}},{19.62,{0,0,0,7,-7,0,0,0,0,0}},{13.11,{0,0,0,8,-8,0,0,0,0,0}}};
static const std::vector<GT> Z_Oberon = {{39,{0,1,0,0,0,0,0,0,0,0}},{17.66,{0,-1,0,0,2,0,0,0,0,0}},{32.42,{0,0,1,0,0,0,0,0,0,0}},{79.75,{0,0,0,1,0,0,0,0,0,0}},{75.66,{0,0,0,0,1,0,0,0,0,0}},{134.04,{0,0,0,-1,2,0,0,0,0,0}},{-987.26,{0,0,0,-2,3,0,0,0,0,0}},{-126.09,{0,0,0,-3,4,0,0,0,0,0}},{-57.42,{0,0,0,-4,5,0,0,0,0,0}},{-32.41,{0,0,0,-5,6,0,0,0,0,0}},{-19.99,{0,0,0,-6,7,0,0,0,0,0}},{-12.94,{0,0,0,-7,8,0,0,0,0,0}}};
static const double C_Oberon[13] = {466580.54,-915591.8,466692.12,0,-0.35,74.53,-758.68,1397.34,-0.44,-0.31,36.89,-596.33,451.69};
/* JPL precessing-ellipse elements: id, epoch, a km, h, k, mean longitude, p, q, apsis rate, mean motion, node rate (deg, deg/s), Laplace pole ra, dec (deg) */
static const double ROCKS[][13] = {
   {401, 2433282.50, 9.376164153345777E+03, -5.689907327111091E-04, 1.508976478046249E-02, 8.889912565234037E+01, -4.374861644190954E-03, -8.303312581096576E-03, 5.037011787882128E-06, 1.306533283449532E-02, -5.043841563630776E-06, 3.176707407767539E+02, 5.289299367003886E+01},
   {402, 2433282.50, 2.345766038183417E+04, -2.390285567613731E-04, 6.518182753851608E-05, 2.505824379527014E+02, 6.477849519349295E-03, 1.419810985499536E-02, 2.076162603566793E-07, 3.300484710930912E-03, -2.091750616728367E-07, 3.166569791010836E+02, 5.352937471037383E+01},
   {505, 2450000.500000000, 1.813655512465877E+05, 3.524243705442326E-04, -3.060388597797567E-03, 3.088979995508090E+02, -8.524633361449484E-04, -3.277584681172060E-03, 2.908651473226303E-05, 8.363792987058621E-03, -2.898772964219916E-05, 2.680573067077756E+02, 6.449433514883954E+01},
   {514, 2450000.500000000, 2.218882574500956E+05, -1.707742712451856E-02, -4.631931271882844E-03, 2.889925861272768E+02, 9.336528660574965E-03, 7.503268096368817E-05, 1.433399183927280E-05, 6.177086242379696E-03, -1.430832006152276E-05, 2.680573566856980E+02, 6.449436369487705E+01},
   {515, 2450000.500000000, 1.289847619277409E+05, 7.733436951055491E-05, -7.119915620542968E-04, 8.469076821476101E+01, 7.291459020134167E-04, 2.676849686756846E-04, 9.721724518582802E-05, 1.396989430143032E-02, -9.865593193437598E-05, 2.680565964128937E+02, 6.449530295172036E+01},
   {516, 2450000.500000000, 1.279996083074168E+05, 4.232619343306958E-04, -6.389823783865655E-04, 3.380483431923231E+02, 2.332741944310790E-04, 5.651570478951611E-04, 9.905391637419158E-05, 1.413489189624821E-02, -9.817915317723091E-05, 2.680565964128937E+02, 6.449530295172036E+01},
   {610, 2444786.5, 1.514471646942220E+05, -3.356112346396347E-03, 5.663424289609894E-03, 1.993639755564592E+02, -1.210639146126198E-03, 8.350119519512047E-04, 2.378317712273239E-05, 5.998806000756397E-03, -2.367392401124433E-05, 4.057999864473820E+01, 8.353999955183330E+01},
   {611, 2444786.5, 1.513991905498270E+05, 1.244955044467311E-02, 1.689723618147796E-03, 1.438890791888553E+02, -1.212371038828309E-03, 2.571443713031926E-03, 2.379040740977320E-05, 6.001665785000491E-03, -2.367577385695356E-05, 4.057999864473820E+01, 8.353999955183330E+01},
   {612, 2444786.5, 3.774166381879790E+05, -9.353516152747377E-05, 1.583034918343283E-03, 1.006212707258068E+02, 3.230333151378729E-04, 1.710869900001995E-03, -6.777890900303528E-07, 1.522394989535369E-03, -9.680289928992843E-07, 4.057615013244320E+01, 8.354534172579820E+01},
   {613, 2444786.5, 2.946735826892260E+05, -5.228888695475952E-04, -6.853986134369704E-04, 2.150026475454563E+02, 8.124186851739944E-03, -5.785202572889351E-03, 2.297061650453675E-06, 2.207149546064677E-03, -2.290176906415847E-06, 4.057999864473820E+01, 8.353999955183330E+01},
   {614, 2444786.5, 2.946734418892560E+05, 2.900726601141678E-05, -1.805642558770706E-04, 9.486345898172432E+01, -6.373255324934580E-03, -1.114711641632123E-02, 2.297022164277979E-06, 2.207149553889344E-03, -2.289705897532556E-06, 4.057999864473820E+01, 8.353999955183330E+01},
   {615, 2444786.50, 1.376664620000000E+05, 0.000000000000000E+00, 0.000000000000000E+00, 1.865410967364615E+02, 0.000000000000000E+00, 0.000000000000000E+00, 3.334584985561025E-05, 6.924845572071244E-03, -3.318681015315788E-05, 4.058861887893110E+01, 8.352533375484340E+01},
   {616, 2444940., 1.393776240E+5, -1.870790E-3, -4.319060E-4, 339.155, 0.0, 0.0, 3.191398148E-05, 6.797308681E-03, -3.191398148E-05, 40.5955, 83.53812},
   {617, 2444940.0, 1.417131075E+05, -7.853582898E-05, 4.499314628E-03, 96.023, 0.000000000E+00, 0.000000000E+00, 3.008501157E-05, 6.629462963E-03, -3.008501157E-05, 40.5955, 83.53812},
   {618, 2451545.000000000, 1.335844767617734E+05, 6.573230396213189E-07, -3.834742374741285E-06, 1.465930214018767E+02, 2.874273755616854E-06, 1.786179828249530E-06, 3.711667877073790E-05, 7.245737665179854E-03, -3.692848989739440E-05, 4.058266021370071E+01, 8.353762557532015E+01},
   {635, 2451545.0, 1.365074939615504E+05, -1.315672990237585E-05, 9.642045594783008E-06, 1.715596048001493E+02, 7.531461278368427E-06, 1.795515998708297E-07, 3.436668768688540E-05, 7.013639183255008E-03, -3.419991514627601E-05, 4.058266021370071E+01, 8.353762557532015E+01},
   {706, 2446450.0, 4.975278376008903E+04, 3.397026389377096E-05, -2.515254211787496E-04, 7.000215607027029E+01, 3.704615503525648E-04, 5.853261080355042E-04, 1.738799696981362E-05, 1.243656183299048E-02, -1.736377492435019E-05, 7.731359116506646E+01, 1.517445781731228E+01},
   {707, 2446450.0, 5.377236269476546E+04, -2.150301507347647E-04, -9.999740581692736E-03, 2.980775969867487E+02, -2.020628913672490E-05, -3.602825478615738E-04, 1.324712040631912E-05, 1.106966008118268E-02, -1.323133607399601E-05, 7.731359116506646E+01, 1.517445781731228E+01},
   {708, 2446450.0, 5.916601845295852E+04, 8.477231065799786E-04, -1.956287335001066E-04, 2.399994222705358E+02, 1.589300498661261E-03, 6.379647873951716E-05, 9.467105548594393E-06, 9.587823207439880E-03, -9.457950543934906E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {709, 2446450.0, 6.176701274125071E+04, 1.280325717493410E-04, -3.492016953899938E-04, 1.744231642592986E+01, -8.721221306573636E-05, -5.691312570236423E-05, 8.142357893631056E-06, 8.988222143978887E-03, -8.135007925901379E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {710, 2446450.0, 6.265802480732047E+04, 6.122707189532604E-05, -7.493551564088767E-05, 3.140089739140928E+02, -8.205209935503686E-04, 2.858562925749050E-04, 7.743633229159851E-06, 8.796938545302438E-03, -7.736867825787147E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {711, 2446450.0, 6.435798256249492E+04, 5.727123336968831E-04, 2.769692434848892E-04, 3.086610831200759E+02, 1.979873455981514E-06, -3.519679830363237E-04, 7.050789555402506E-06, 8.450533525589351E-03, -7.044928085318312E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {712, 2446450.0, 6.609699016546280E+04, -1.561120967532852E-05, -1.037014963876101E-05, 3.408196917514196E+02, -6.171045740059509E-04, -3.299300587868204E-05, 6.422466432321616E-06, 8.119056168010097E-03, -6.417420983992342E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {713, 2446450.0, 6.992700696485957E+04, -1.403276497951949E-06, -2.648962937429079E-04, 2.895216219202660E+02, 1.425386769737830E-04, 1.380714624815777E-03, 5.273919837749587E-06, 7.460999947254308E-03, -5.270264644406115E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {714, 2446450.0, 7.525599298568144E+04, -1.133077752423965E-04, 9.095450345916166E-05, 3.189638319876507E+02, -2.319689561589446E-04, 1.836879475556537E-04, 4.080592112111099E-06, 6.682410769071078E-03, -4.078118716334471E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {715, 2446450.0, 8.600500570186481E+04, 2.408105269975341E-05, 4.402601703153761E-05, 3.316332080099892E+02, -2.920341971029460E-03, -1.546045006884095E-04, 2.563927692592904E-06, 5.469265726829639E-03, -2.562898939602568E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {725, 2453243.0, 7.724773127464541E+04, 1.390656943538988E-02, 3.764212415028709E-03, 3.595150462692501E+01, -3.980139862871680E-03, 2.570818282326076E-03, 7.254635422562736E-06, 6.530622640638519E-03, -1.264570087799819E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {726, 2453243.0, 9.775566743468499E+04, -4.588659276539662E-03, 1.692530123450800E-04, 1.541172205352909E+02, -6.759365158371933E-04, 1.062018029025279E-03, 2.045092348282713E-06, 4.514456799305884E-03, -1.920887916143170E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {727, 2453243.0, 7.450315104822017E+04, 1.837706282342717E-03, 1.041837588715111E-03, 2.341997642137053E+02, -2.742799982489807E-04, -1.085742482179855E-03, 4.009533113969465E-06, 6.799110491893427E-03, -3.448340803322791E-06, 7.731359116506646E+01, 1.517445781731228E+01},
   {801, 2447763.5, 3.547591460000000E+05, 2.183485420000000E-06, -1.543648510000000E-05, -7.672436890000000E+01, -2.818138250000000E-02, 2.030103396000000E-01, 1.211953824000000E-08, -7.089961076000000E-04, 1.657793254000000E-08, 2.989472940000000E+02, 4.331890600000000E+01},
   {803, 2447757.0, 4.822701435905355E+04, 3.620224770838396E-04, 1.156185304588290E-05, 6.810339767839658E+01, 3.452822063733985E-02, 2.290770169216655E-02, 1.964161049323076E-05, 1.415326558087714E-02, -1.985180471594082E-05, 2.993634890000000E+02, 4.344909600000000E+01},
   {804, 2447757.0, 5.007495130640859E+04, 1.881434320556790E-04, 1.033517936279606E-04, 2.475810361721285E+02, 1.808988491806543E-03, -2.572520444193769E-04, 1.745544005794959E-05, 1.337678870805562E-02, -1.746377282651943E-05, 2.993634890000000E+02, 4.344909600000000E+01},
   {805, 2447757.0, 5.252607405757254E+04, 2.232930551031250E-04, -1.115774312255063E-05, 9.311343295481528E+01, 1.944862825322830E-04, -5.200679669272585E-04, 1.475565828888696E-05, 1.245059755574818E-02, -1.476785707594837E-05, 2.993634890000000E+02, 4.344909600000000E+01},
   {806, 2447757.0, 6.195297903638693E+04, 1.674342888688514E-05, -3.311081056771463E-05, 5.448813192644227E+01, 4.358773699437865E-04, -3.132950150251619E-04, 8.264989830842901E-06, 9.718285365249440E-03, -8.284262531923991E-06, 2.993634890000000E+02, 4.344909600000000E+01},
   {807, 2447757.0, 7.354791709303492E+04, 5.742600597431634E-04, -1.269545891017604E-03, 1.926654222778896E+02, 5.395612235869184E-04, 1.702120710409934E-03, 4.526939181068548E-06, 7.512183377052987E-03, -4.555573945715664E-06, 2.993634890000000E+02, 4.344909600000000E+01},
   {808, 2447757.0, 1.176468148802116E+05, 5.138756385126203E-04, -1.319038194876358E-04, 2.214459710358717E+02, 6.691721009767980E-05, -2.147144625701844E-04, 8.764111065373391E-07, 3.712548540365151E-03, -9.086814828264133E-07, 2.993634890000000E+02, 4.344909600000000E+01},
};
/* HTC2.0 (Oberti & Vienne): satellite, multiples of the four arguments, cosine x y z vx vy vz, sine x y z vx vy vz (1e-6 AU, AU/day) */
static const int HTC[][17] = {
   {0, 0, 0, 0, 1, -2396, -399, 442, 1278, -4939, 2466, 557, -2152, 1074, 5500, 916, -1015},
   {0, 0, 0, 1, 0, 0, 0, 0, 0, 5, 10, 0, 5, 10, 0, 0, 0},
   {0, 0, 1, 0, -1, -67, 264, -132, -677, -110, 123, 294, 48, -53, -154, 608, -304},
   {0, 0, 1, 0, 1, -66, 265, -133, -676, -107, 122, -295, -47, 53, 151, -607, 303},
   {0, 0, 2, 0, -1, 15, 16, -10, -44, 33, -13, 19, -14, 6, 35, 38, -23},
   {0, 0, 2, 0, 1, 15, 17, -10, -44, 33, -13, -19, 14, -6, -35, -38, 23},
   {0, 0, 3, 0, -1, 2, 0, 0, -2, 4, -2, 0, -2, 0, 4, 2, 0},
   {0, 0, 3, 0, 1, 2, 0, 0, -2, 4, -2, 0, 2, 0, -4, -2, 0},
   {0, 1, -1, 0, 1, 0, 0, 0, 0, 3, 0, 0, 0, 0, -3, 0, 0},
   {0, 1, 0, 0, -1, -2, 8, -4, 0, 0, 0, 9, 0, -2, 0, 0, 0},
   {0, 1, 0, 0, 1, 0, 2, 0, -13, -2, 2, -3, 0, 0, 3, -11, 6},
   {0, 1, 1, 0, 1, 0, 0, 0, 0, 3, 0, 0, 0, 0, -3, 0, 0},
   {1, 0, 0, 0, 1, -1933, -253, 320, 1237, -5767, 2904, 372, -1733, 873, 6432, 842, -1066},
   {1, 0, 0, 1, 0, 0, 0, 0, 2, 10, 19, 2, 10, 19, 0, 0, 0},
   {1, 0, 1, 0, -1, -6, 29, -15, -108, -14, 18, 32, 4, -5, -21, 97, -49},
   {1, 0, 1, 0, 1, -6, 29, -15, -108, -14, 18, -33, -4, 5, 20, -97, 49},
   {1, 1, 0, 0, -1, 0, 7, -3, 0, 0, 0, 7, 0, 0, 0, 0, 0},
   {1, 1, 0, 0, 1, 0, 2, 0, -16, -2, 3, -2, 0, 0, 3, -14, 7},
   {2, 0, 0, 0, 1, 651, 1615, -910, -6145, 2170, -542, -1846, 652, -163, -2166, -5375, 3030},
   {2, 0, 0, 1, 0, 0, 0, 0, 5, 27, 52, 5, 27, 52, 0, 0, 0},
   {2, 0, 1, -1, 0, 0, 0, -2, 0, 0, 0, 0, 0, 0, 0, 0, -2},
   {2, 0, 1, 0, -1, -78, 27, -7, -89, -225, 127, 27, 68, -38, -257, 89, -22},
   {2, 0, 1, 0, 1, -77, 28, -7, -92, -225, 127, -28, -67, 38, 257, -92, 23},
   {2, 0, 1, 1, 0, 0, 0, -2, 0, 0, 0, 0, 0, 0, 0, 0, 2},
   {2, 0, 2, 0, -1, -2, 0, 0, 4, -6, 3, 0, 2, 0, -7, -3, 2},
   {2, 0, 2, 0, 1, -2, 0, 0, 4, -6, 3, 0, -2, 0, 7, 3, -2},
   {2, 1, -1, 0, -1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, -2, 0},
   {2, 1, 0, 0, -1, -4, 0, 0, -9, -22, 12, 0, 3, -2, -25, 9, -2},
   {2, 1, 0, 0, 1, -11, 4, 0, 0, 0, 0, -4, -10, 6, 0, 0, 0},
   {2, 1, 1, 0, -1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, -2, 0},
};
