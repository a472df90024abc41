/* IAU 1980 nutation terms: D, M, M', F, Om; sine and its rate, cosine and its rate (0.0001 arcsec) as truncated in the source, then the full cosine coefficient */
static const int NUT_REF[][10] = {
   {-2,0,0,2,2, -13187,-16,5736,-31, 5736},
   {0,0,0,2,2, -2274,-2,977,-5, 977},
   {0,0,0,0,2, 2062,2,-895,5, -895},
   {0,1,0,0,0, 1426,-34,54,-1, 54},
   {0,0,1,0,0, 712,1,-7,0, -7},
   {-2,1,0,2,2, -517,12,224,-6, 224},
   {0,0,0,2,1, -386,-4,200,0, 200},
   {0,0,1,2,2, -301,0,129,-1, 129},
   {-2,-1,0,2,2, 217,-5,-95,3, -95},
   {-2,0,1,0,0, -158,0,0,0, -1},
   {-2,0,0,2,1, 129,1,-70,0, -70},
   {0,0,-1,2,2, 123,0,-53,0, -53},
   {2,0,0,0,0, 63,0,0,0, -2},
   {0,0,1,0,1, 63,1,-33,0, -33},
   {2,0,-1,2,2, -59,0,26,0, 26},
   {0,0,-1,0,1, -58,-1,32,0, 32},
   {0,0,1,2,1, -51,0,27,0, 27},
   {-2,0,2,0,0, 48,0,0,0, 1},
   {0,0,-2,2,1, 46,0,-24,0, -24},
   {2,0,0,2,2, -38,0,16,0, 16},
   {0,0,2,2,2, -31,0,13,0, 13},
   {0,0,2,0,0, 29,0,0,0, -1},
   {-2,0,1,2,2, 29,0,-12,0, -12},
   {0,0,0,2,0, 26,0,0,0, -1},
   {-2,0,0,2,0, -22,0,0,0, 0},
   {0,0,-1,2,1, 21,0,-10,0, -10},
   {0,2,0,0,0, 17,1,0,0, 0},
   {2,0,-1,0,1, 16,0,-8,0, -8},
   {-2,2,0,2,2, -16,-1,7,0, 7},
   {0,1,0,0,1, -15,0,9,0, 9},
   {-2,0,1,0,1, -13,0,7,0, 7},
   {0,-1,0,0,1, -12,0,6,0, 6},
   {0,0,2,-2,0, 11,0,0,0, 0},
   {2,0,-1,2,1, -10,0,5,0, 5},
   {2,0,1,2,2, -8,0,3,0, 3},
   {0,1,0,2,2, 7,0,-3,0, -3},
   {-2,1,1,0,0, -7,0,0,0, 0},
   {0,-1,0,2,2, -7,0,3,0, 3},
   {2,0,0,2,1, -7,0,3,0, 3},
   {2,0,1,0,0, 6,0,0,0, 0},
   {-2,0,2,2,2, 6,0,-3,0, -3},
   {-2,0,1,2,1, 6,0,-3,0, -3},
   {2,0,-2,0,1, -6,0,3,0, 3},
   {2,0,0,0,1, -6,0,3,0, 3},
   {0,-1,1,0,0, 5,0,0,0, 0},
   {-2,-1,0,2,1, -5,0,3,0, 3},
   {-2,0,0,0,1, -5,0,3,0, 3},
   {0,0,2,2,1, -5,0,3,0, 3},
   {0,0,-2,2,2, -3,0,0,0, 1},
   {-2,0,2,0,1, 4,0,0,0, -2},
   {-2,1,0,2,1, 4,0,0,0, -2},
   {0,0,3,2,2, -3,0,0,0, 1},
   {2,-1,-1,2,2, -3,0,0,0, 1},
   {0,-1,1,2,2, -3,0,0,0, 1},
   {2,-1,0,2,2, -3,0,0,0, 1},
   {-1,-1,1,0,0, -3,0,0,0, 0},
   {-1,0,1,0,0, -4,0,0,0, 0},
   {-2,1,0,0,0, -4,0,0,0, 0},
   {0,0,1,-2,0, 4,0,0,0, 0},
   {1,0,0,0,0, -4,0,0,0, 0},
   {0,1,1,0,0, -3,0,0,0, 0},
   {0,0,1,2,0, 3,0,0,0, 0},
   {1,0,0,2,2, 2,0,-1,0, -1},
   {0,0,2,0,1, 2,0,-1,0, -1},
   {0,1,1,2,2, 2,0,-1,0, -1},
   {-2,0,-1,2,1, -2,0,1,0, 1},
   {-2,-2,0,2,1, -2,0,1,0, 1},
   {4,0,-1,2,2, -2,0,1,0, 1},
   {0,0,-2,0,1, -2,0,1,0, 1},
   {0,0,1,0,2, -2,0,1,0, 1},
   {0,0,3,0,0, 2,0,0,0, 0},
   {-2,0,2,2,1, 1,0,-1,0, -1},
   {-2,1,1,2,2, 1,0,-1,0, -1},
   {0,0,-1,0,2, 1,0,-1,0, -1},
   {2,0,-2,2,2, 1,0,-1,0, -1},
   {4,0,-2,2,2, -1,0,1,0, 1},
   {2,0,1,2,1, -1,0,1,0, 1},
   {-4,0,1,0,0, -1,0,0,0, 0},
   {2,0,1,-2,0, -1,0,0,0, 0},
   {0,0,0,-2,1, -1,0,0,0, 0},
   {-2,0,1,-2,0, -1,0,0,0, 0},
   {-4,0,2,0,0, -1,0,0,0, 0},
   {-1,0,0,2,2, -1,0,0,0, 0},
   {2,1,0,-2,0, -1,0,0,0, 0},
   {2,0,1,0,1, -1,0,0,0, 0},
   {2,1,0,0,0, -1,0,0,0, 0},
   {2,0,2,2,2, -1,0,0,0, 0},
   {-2,1,0,2,0, -1,0,0,0, 0},
   {-2,0,1,2,0, -1,0,0,0, 0},
   {0,-1,0,2,1, -1,0,0,0, 0},
   {4,0,0,2,2, -1,0,0,0, 0},
   {-2,1,1,0,1, -1,0,0,0, 0},
   {2,0,0,-2,1, 1,0,0,0, 0},
   {0,1,0,2,1, 1,0,0,0, 0},
   {2,-1,-1,0,1, 1,0,0,0, 0},
   {0,0,2,-2,1, 1,0,0,0, 0},
   {-2,-1,1,0,0, 1,0,0,0, 0},
   {-2,0,3,2,2, 1,0,0,0, 0},
   {0,0,-1,4,2, 1,0,0,0, 0},
   {-2,0,0,4,2, 1,0,0,0, 0},
   {0,1,0,0,2, 1,0,0,0, 0},
   {2,0,2,0,0, 1,0,0,0, 0},
   {1,0,-1,0,1, 1,0,0,0, 0},
   {-2,1,2,0,0, 1,0,0,0, 0},
   {1,1,0,0,0, 1,0,0,0, 0},
};
