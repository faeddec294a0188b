/* generated by tools/gen_ref_tables.py from the Unicode 15.0.0 data files; do not edit */
enum gcb_class {G_Other,G_CR,G_LF,G_Control,G_Extend,G_ZWJ,G_Regional_Indicator,G_Prepend,G_SpacingMark,G_L,G_V,G_T,G_LV,G_LVT,G_ExtPict, G_NUM};
static const char *const gcb_names[] = {"Other","CR","LF","Control","Extend","ZWJ","Regional_Indicator","Prepend","SpacingMark","L","V","T","LV","LVT","ExtPict"};
static const struct ref_range gcb_ranges[] = {
{0x0,0x9,3},{0xa,0xa,2},{0xb,0xc,3},{0xd,0xd,1},{0xe,0x1f,3},{0x7f,0x9f,3},
{0xa9,0xa9,14},{0xad,0xad,3},{0xae,0xae,14},{0x300,0x36f,4},{0x483,0x489,4},{0x591,0x5bd,4},
{0x5bf,0x5bf,4},{0x5c1,0x5c2,4},{0x5c4,0x5c5,4},{0x5c7,0x5c7,4},{0x600,0x605,7},{0x610,0x61a,4},
{0x61c,0x61c,3},{0x64b,0x65f,4},{0x670,0x670,4},{0x6d6,0x6dc,4},{0x6dd,0x6dd,7},{0x6df,0x6e4,4},
{0x6e7,0x6e8,4},{0x6ea,0x6ed,4},{0x70f,0x70f,7},{0x711,0x711,4},{0x730,0x74a,4},{0x7a6,0x7b0,4},
{0x7eb,0x7f3,4},{0x7fd,0x7fd,4},{0x816,0x819,4},{0x81b,0x823,4},{0x825,0x827,4},{0x829,0x82d,4},
{0x859,0x85b,4},{0x890,0x891,7},{0x898,0x89f,4},{0x8ca,0x8e1,4},{0x8e2,0x8e2,7},{0x8e3,0x902,4},
{0x903,0x903,8},{0x93a,0x93a,4},{0x93b,0x93b,8},{0x93c,0x93c,4},{0x93e,0x940,8},{0x941,0x948,4},
{0x949,0x94c,8},{0x94d,0x94d,4},{0x94e,0x94f,8},{0x951,0x957,4},{0x962,0x963,4},{0x981,0x981,4},
{0x982,0x983,8},{0x9bc,0x9bc,4},{0x9be,0x9be,4},{0x9bf,0x9c0,8},{0x9c1,0x9c4,4},{0x9c7,0x9c8,8},
{0x9cb,0x9cc,8},{0x9cd,0x9cd,4},{0x9d7,0x9d7,4},{0x9e2,0x9e3,4},{0x9fe,0x9fe,4},{0xa01,0xa02,4},
{0xa03,0xa03,8},{0xa3c,0xa3c,4},{0xa3e,0xa40,8},{0xa41,0xa42,4},{0xa47,0xa48,4},{0xa4b,0xa4d,4},
{0xa51,0xa51,4},{0xa70,0xa71,4},{0xa75,0xa75,4},{0xa81,0xa82,4},{0xa83,0xa83,8},{0xabc,0xabc,4},
{0xabe,0xac0,8},{0xac1,0xac5,4},{0xac7,0xac8,4},{0xac9,0xac9,8},{0xacb,0xacc,8},{0xacd,0xacd,4},
{0xae2,0xae3,4},{0xafa,0xaff,4},{0xb01,0xb01,4},{0xb02,0xb03,8},{0xb3c,0xb3c,4},{0xb3e,0xb3f,4},
{0xb40,0xb40,8},{0xb41,0xb44,4},{0xb47,0xb48,8},{0xb4b,0xb4c,8},{0xb4d,0xb4d,4},{0xb55,0xb57,4},
{0xb62,0xb63,4},{0xb82,0xb82,4},{0xbbe,0xbbe,4},{0xbbf,0xbbf,8},{0xbc0,0xbc0,4},{0xbc1,0xbc2,8},
{0xbc6,0xbc8,8},{0xbca,0xbcc,8},{0xbcd,0xbcd,4},{0xbd7,0xbd7,4},{0xc00,0xc00,4},{0xc01,0xc03,8},
{0xc04,0xc04,4},{0xc3c,0xc3c,4},{0xc3e,0xc40,4},{0xc41,0xc44,8},{0xc46,0xc48,4},{0xc4a,0xc4d,4},
{0xc55,0xc56,4},{0xc62,0xc63,4},{0xc81,0xc81,4},{0xc82,0xc83,8},{0xcbc,0xcbc,4},{0xcbe,0xcbe,8},
{0xcbf,0xcbf,4},{0xcc0,0xcc1,8},{0xcc2,0xcc2,4},{0xcc3,0xcc4,8},{0xcc6,0xcc6,4},{0xcc7,0xcc8,8},
{0xcca,0xccb,8},{0xccc,0xccd,4},{0xcd5,0xcd6,4},{0xce2,0xce3,4},{0xcf3,0xcf3,8},{0xd00,0xd01,4},
{0xd02,0xd03,8},{0xd3b,0xd3c,4},{0xd3e,0xd3e,4},{0xd3f,0xd40,8},{0xd41,0xd44,4},{0xd46,0xd48,8},
{0xd4a,0xd4c,8},{0xd4d,0xd4d,4},{0xd4e,0xd4e,7},{0xd57,0xd57,4},{0xd62,0xd63,4},{0xd81,0xd81,4},
{0xd82,0xd83,8},{0xdca,0xdca,4},{0xdcf,0xdcf,4},{0xdd0,0xdd1,8},{0xdd2,0xdd4,4},{0xdd6,0xdd6,4},
{0xdd8,0xdde,8},{0xddf,0xddf,4},{0xdf2,0xdf3,8},{0xe31,0xe31,4},{0xe33,0xe33,8},{0xe34,0xe3a,4},
{0xe47,0xe4e,4},{0xeb1,0xeb1,4},{0xeb3,0xeb3,8},{0xeb4,0xebc,4},{0xec8,0xece,4},{0xf18,0xf19,4},
{0xf35,0xf35,4},{0xf37,0xf37,4},{0xf39,0xf39,4},{0xf3e,0xf3f,8},{0xf71,0xf7e,4},{0xf7f,0xf7f,8},
{0xf80,0xf84,4},{0xf86,0xf87,4},{0xf8d,0xf97,4},{0xf99,0xfbc,4},{0xfc6,0xfc6,4},{0x102d,0x1030,4},
{0x1031,0x1031,8},{0x1032,0x1037,4},{0x1039,0x103a,4},{0x103b,0x103c,8},{0x103d,0x103e,4},{0x1056,0x1057,8},
{0x1058,0x1059,4},{0x105e,0x1060,4},{0x1071,0x1074,4},{0x1082,0x1082,4},{0x1084,0x1084,8},{0x1085,0x1086,4},
{0x108d,0x108d,4},{0x109d,0x109d,4},{0x1100,0x115f,9},{0x1160,0x11a7,10},{0x11a8,0x11ff,11},{0x135d,0x135f,4},
{0x1712,0x1714,4},{0x1715,0x1715,8},{0x1732,0x1733,4},{0x1734,0x1734,8},{0x1752,0x1753,4},{0x1772,0x1773,4},
{0x17b4,0x17b5,4},{0x17b6,0x17b6,8},{0x17b7,0x17bd,4},{0x17be,0x17c5,8},{0x17c6,0x17c6,4},{0x17c7,0x17c8,8},
{0x17c9,0x17d3,4},{0x17dd,0x17dd,4},{0x180b,0x180d,4},{0x180e,0x180e,3},{0x180f,0x180f,4},{0x1885,0x1886,4},
{0x18a9,0x18a9,4},{0x1920,0x1922,4},{0x1923,0x1926,8},{0x1927,0x1928,4},{0x1929,0x192b,8},{0x1930,0x1931,8},
{0x1932,0x1932,4},{0x1933,0x1938,8},{0x1939,0x193b,4},{0x1a17,0x1a18,4},{0x1a19,0x1a1a,8},{0x1a1b,0x1a1b,4},
{0x1a55,0x1a55,8},{0x1a56,0x1a56,4},{0x1a57,0x1a57,8},{0x1a58,0x1a5e,4},{0x1a60,0x1a60,4},{0x1a62,0x1a62,4},
{0x1a65,0x1a6c,4},{0x1a6d,0x1a72,8},{0x1a73,0x1a7c,4},{0x1a7f,0x1a7f,4},{0x1ab0,0x1ace,4},{0x1b00,0x1b03,4},
{0x1b04,0x1b04,8},{0x1b34,0x1b3a,4},{0x1b3b,0x1b3b,8},{0x1b3c,0x1b3c,4},{0x1b3d,0x1b41,8},{0x1b42,0x1b42,4},
{0x1b43,0x1b44,8},{0x1b6b,0x1b73,4},{0x1b80,0x1b81,4},{0x1b82,0x1b82,8},{0x1ba1,0x1ba1,8},{0x1ba2,0x1ba5,4},
{0x1ba6,0x1ba7,8},{0x1ba8,0x1ba9,4},{0x1baa,0x1baa,8},{0x1bab,0x1bad,4},{0x1be6,0x1be6,4},{0x1be7,0x1be7,8},
{0x1be8,0x1be9,4},{0x1bea,0x1bec,8},{0x1bed,0x1bed,4},{0x1bee,0x1bee,8},{0x1bef,0x1bf1,4},{0x1bf2,0x1bf3,8},
{0x1c24,0x1c2b,8},{0x1c2c,0x1c33,4},{0x1c34,0x1c35,8},{0x1c36,0x1c37,4},{0x1cd0,0x1cd2,4},{0x1cd4,0x1ce0,4},
{0x1ce1,0x1ce1,8},{0x1ce2,0x1ce8,4},{0x1ced,0x1ced,4},{0x1cf4,0x1cf4,4},{0x1cf7,0x1cf7,8},{0x1cf8,0x1cf9,4},
{0x1dc0,0x1dff,4},{0x200b,0x200b,3},{0x200c,0x200c,4},{0x200d,0x200d,5},{0x200e,0x200f,3},{0x2028,0x202e,3},
{0x203c,0x203c,14},{0x2049,0x2049,14},{0x2060,0x206f,3},{0x20d0,0x20f0,4},{0x2122,0x2122,14},{0x2139,0x2139,14},
{0x2194,0x2199,14},{0x21a9,0x21aa,14},{0x231a,0x231b,14},{0x2328,0x2328,14},{0x2388,0x2388,14},{0x23cf,0x23cf,14},
{0x23e9,0x23f3,14},{0x23f8,0x23fa,14},{0x24c2,0x24c2,14},{0x25aa,0x25ab,14},{0x25b6,0x25b6,14},{0x25c0,0x25c0,14},
{0x25fb,0x25fe,14},{0x2600,0x2605,14},{0x2607,0x2612,14},{0x2614,0x2685,14},{0x2690,0x2705,14},{0x2708,0x2712,14},
{0x2714,0x2714,14},{0x2716,0x2716,14},{0x271d,0x271d,14},{0x2721,0x2721,14},{0x2728,0x2728,14},{0x2733,0x2734,14},
{0x2744,0x2744,14},{0x2747,0x2747,14},{0x274c,0x274c,14},{0x274e,0x274e,14},{0x2753,0x2755,14},{0x2757,0x2757,14},
{0x2763,0x2767,14},{0x2795,0x2797,14},{0x27a1,0x27a1,14},{0x27b0,0x27b0,14},{0x27bf,0x27bf,14},{0x2934,0x2935,14},
{0x2b05,0x2b07,14},{0x2b1b,0x2b1c,14},{0x2b50,0x2b50,14},{0x2b55,0x2b55,14},{0x2cef,0x2cf1,4},{0x2d7f,0x2d7f,4},
{0x2de0,0x2dff,4},{0x302a,0x302f,4},{0x3030,0x3030,14},{0x303d,0x303d,14},{0x3099,0x309a,4},{0x3297,0x3297,14},
{0x3299,0x3299,14},{0xa66f,0xa672,4},{0xa674,0xa67d,4},{0xa69e,0xa69f,4},{0xa6f0,0xa6f1,4},{0xa802,0xa802,4},
{0xa806,0xa806,4},{0xa80b,0xa80b,4},{0xa823,0xa824,8},{0xa825,0xa826,4},{0xa827,0xa827,8},{0xa82c,0xa82c,4},
{0xa880,0xa881,8},{0xa8b4,0xa8c3,8},{0xa8c4,0xa8c5,4},{0xa8e0,0xa8f1,4},{0xa8ff,0xa8ff,4},{0xa926,0xa92d,4},
{0xa947,0xa951,4},{0xa952,0xa953,8},{0xa960,0xa97c,9},{0xa980,0xa982,4},{0xa983,0xa983,8},{0xa9b3,0xa9b3,4},
{0xa9b4,0xa9b5,8},{0xa9b6,0xa9b9,4},{0xa9ba,0xa9bb,8},{0xa9bc,0xa9bd,4},{0xa9be,0xa9c0,8},{0xa9e5,0xa9e5,4},
{0xaa29,0xaa2e,4},{0xaa2f,0xaa30,8},{0xaa31,0xaa32,4},{0xaa33,0xaa34,8},{0xaa35,0xaa36,4},{0xaa43,0xaa43,4},
{0xaa4c,0xaa4c,4},{0xaa4d,0xaa4d,8},{0xaa7c,0xaa7c,4},{0xaab0,0xaab0,4},{0xaab2,0xaab4,4},{0xaab7,0xaab8,4},
{0xaabe,0xaabf,4},{0xaac1,0xaac1,4},{0xaaeb,0xaaeb,8},{0xaaec,0xaaed,4},{0xaaee,0xaaef,8},{0xaaf5,0xaaf5,8},
{0xaaf6,0xaaf6,4},{0xabe3,0xabe4,8},{0xabe5,0xabe5,4},{0xabe6,0xabe7,8},{0xabe8,0xabe8,4},{0xabe9,0xabea,8},
{0xabec,0xabec,8},{0xabed,0xabed,4},{0xac00,0xac00,12},{0xac01,0xac1b,13},{0xac1c,0xac1c,12},{0xac1d,0xac37,13},
{0xac38,0xac38,12},{0xac39,0xac53,13},{0xac54,0xac54,12},{0xac55,0xac6f,13},{0xac70,0xac70,12},{0xac71,0xac8b,13},
{0xac8c,0xac8c,12},{0xac8d,0xaca7,13},{0xaca8,0xaca8,12},{0xaca9,0xacc3,13},{0xacc4,0xacc4,12},{0xacc5,0xacdf,13},
{0xace0,0xace0,12},{0xace1,0xacfb,13},{0xacfc,0xacfc,12},{0xacfd,0xad17,13},{0xad18,0xad18,12},{0xad19,0xad33,13},
{0xad34,0xad34,12},{0xad35,0xad4f,13},{0xad50,0xad50,12},{0xad51,0xad6b,13},{0xad6c,0xad6c,12},{0xad6d,0xad87,13},
{0xad88,0xad88,12},{0xad89,0xada3,13},{0xada4,0xada4,12},{0xada5,0xadbf,13},{0xadc0,0xadc0,12},{0xadc1,0xaddb,13},
{0xaddc,0xaddc,12},{0xaddd,0xadf7,13},{0xadf8,0xadf8,12},{0xadf9,0xae13,13},{0xae14,0xae14,12},{0xae15,0xae2f,13},
{0xae30,0xae30,12},{0xae31,0xae4b,13},{0xae4c,0xae4c,12},{0xae4d,0xae67,13},{0xae68,0xae68,12},{0xae69,0xae83,13},
{0xae84,0xae84,12},{0xae85,0xae9f,13},{0xaea0,0xaea0,12},{0xaea1,0xaebb,13},{0xaebc,0xaebc,12},{0xaebd,0xaed7,13},
{0xaed8,0xaed8,12},{0xaed9,0xaef3,13},{0xaef4,0xaef4,12},{0xaef5,0xaf0f,13},{0xaf10,0xaf10,12},{0xaf11,0xaf2b,13},
{0xaf2c,0xaf2c,12},{0xaf2d,0xaf47,13},{0xaf48,0xaf48,12},{0xaf49,0xaf63,13},{0xaf64,0xaf64,12},{0xaf65,0xaf7f,13},
{0xaf80,0xaf80,12},{0xaf81,0xaf9b,13},{0xaf9c,0xaf9c,12},{0xaf9d,0xafb7,13},{0xafb8,0xafb8,12},{0xafb9,0xafd3,13},
{0xafd4,0xafd4,12},{0xafd5,0xafef,13},{0xaff0,0xaff0,12},{0xaff1,0xb00b,13},{0xb00c,0xb00c,12},{0xb00d,0xb027,13},
{0xb028,0xb028,12},{0xb029,0xb043,13},{0xb044,0xb044,12},{0xb045,0xb05f,13},{0xb060,0xb060,12},{0xb061,0xb07b,13},
{0xb07c,0xb07c,12},{0xb07d,0xb097,13},{0xb098,0xb098,12},{0xb099,0xb0b3,13},{0xb0b4,0xb0b4,12},{0xb0b5,0xb0cf,13},
{0xb0d0,0xb0d0,12},{0xb0d1,0xb0eb,13},{0xb0ec,0xb0ec,12},{0xb0ed,0xb107,13},{0xb108,0xb108,12},{0xb109,0xb123,13},
{0xb124,0xb124,12},{0xb125,0xb13f,13},{0xb140,0xb140,12},{0xb141,0xb15b,13},{0xb15c,0xb15c,12},{0xb15d,0xb177,13},
{0xb178,0xb178,12},{0xb179,0xb193,13},{0xb194,0xb194,12},{0xb195,0xb1af,13},{0xb1b0,0xb1b0,12},{0xb1b1,0xb1cb,13},
{0xb1cc,0xb1cc,12},{0xb1cd,0xb1e7,13},{0xb1e8,0xb1e8,12},{0xb1e9,0xb203,13},{0xb204,0xb204,12},{0xb205,0xb21f,13},
{0xb220,0xb220,12},{0xb221,0xb23b,13},{0xb23c,0xb23c,12},{0xb23d,0xb257,13},{0xb258,0xb258,12},{0xb259,0xb273,13},
{0xb274,0xb274,12},{0xb275,0xb28f,13},{0xb290,0xb290,12},{0xb291,0xb2ab,13},{0xb2ac,0xb2ac,12},{0xb2ad,0xb2c7,13},
{0xb2c8,0xb2c8,12},{0xb2c9,0xb2e3,13},{0xb2e4,0xb2e4,12},{0xb2e5,0xb2ff,13},{0xb300,0xb300,12},{0xb301,0xb31b,13},
{0xb31c,0xb31c,12},{0xb31d,0xb337,13},{0xb338,0xb338,12},{0xb339,0xb353,13},{0xb354,0xb354,12},{0xb355,0xb36f,13},
{0xb370,0xb370,12},{0xb371,0xb38b,13},{0xb38c,0xb38c,12},{0xb38d,0xb3a7,13},{0xb3a8,0xb3a8,12},{0xb3a9,0xb3c3,13},
{0xb3c4,0xb3c4,12},{0xb3c5,0xb3df,13},{0xb3e0,0xb3e0,12},{0xb3e1,0xb3fb,13},{0xb3fc,0xb3fc,12},{0xb3fd,0xb417,13},
{0xb418,0xb418,12},{0xb419,0xb433,13},{0xb434,0xb434,12},{0xb435,0xb44f,13},{0xb450,0xb450,12},{0xb451,0xb46b,13},
{0xb46c,0xb46c,12},{0xb46d,0xb487,13},{0xb488,0xb488,12},{0xb489,0xb4a3,13},{0xb4a4,0xb4a4,12},{0xb4a5,0xb4bf,13},
{0xb4c0,0xb4c0,12},{0xb4c1,0xb4db,13},{0xb4dc,0xb4dc,12},{0xb4dd,0xb4f7,13},{0xb4f8,0xb4f8,12},{0xb4f9,0xb513,13},
{0xb514,0xb514,12},{0xb515,0xb52f,13},{0xb530,0xb530,12},{0xb531,0xb54b,13},{0xb54c,0xb54c,12},{0xb54d,0xb567,13},
{0xb568,0xb568,12},{0xb569,0xb583,13},{0xb584,0xb584,12},{0xb585,0xb59f,13},{0xb5a0,0xb5a0,12},{0xb5a1,0xb5bb,13},
{0xb5bc,0xb5bc,12},{0xb5bd,0xb5d7,13},{0xb5d8,0xb5d8,12},{0xb5d9,0xb5f3,13},{0xb5f4,0xb5f4,12},{0xb5f5,0xb60f,13},
{0xb610,0xb610,12},{0xb611,0xb62b,13},{0xb62c,0xb62c,12},{0xb62d,0xb647,13},{0xb648,0xb648,12},{0xb649,0xb663,13},
{0xb664,0xb664,12},{0xb665,0xb67f,13},{0xb680,0xb680,12},{0xb681,0xb69b,13},{0xb69c,0xb69c,12},{0xb69d,0xb6b7,13},
{0xb6b8,0xb6b8,12},{0xb6b9,0xb6d3,13},{0xb6d4,0xb6d4,12},{0xb6d5,0xb6ef,13},{0xb6f0,0xb6f0,12},{0xb6f1,0xb70b,13},
{0xb70c,0xb70c,12},{0xb70d,0xb727,13},{0xb728,0xb728,12},{0xb729,0xb743,13},{0xb744,0xb744,12},{0xb745,0xb75f,13},
{0xb760,0xb760,12},{0xb761,0xb77b,13},{0xb77c,0xb77c,12},{0xb77d,0xb797,13},{0xb798,0xb798,12},{0xb799,0xb7b3,13},
{0xb7b4,0xb7b4,12},{0xb7b5,0xb7cf,13},{0xb7d0,0xb7d0,12},{0xb7d1,0xb7eb,13},{0xb7ec,0xb7ec,12},{0xb7ed,0xb807,13},
{0xb808,0xb808,12},{0xb809,0xb823,13},{0xb824,0xb824,12},{0xb825,0xb83f,13},{0xb840,0xb840,12},{0xb841,0xb85b,13},
{0xb85c,0xb85c,12},{0xb85d,0xb877,13},{0xb878,0xb878,12},{0xb879,0xb893,13},{0xb894,0xb894,12},{0xb895,0xb8af,13},
{0xb8b0,0xb8b0,12},{0xb8b1,0xb8cb,13},{0xb8cc,0xb8cc,12},{0xb8cd,0xb8e7,13},{0xb8e8,0xb8e8,12},{0xb8e9,0xb903,13},
{0xb904,0xb904,12},{0xb905,0xb91f,13},{0xb920,0xb920,12},{0xb921,0xb93b,13},{0xb93c,0xb93c,12},{0xb93d,0xb957,13},
{0xb958,0xb958,12},{0xb959,0xb973,13},{0xb974,0xb974,12},{0xb975,0xb98f,13},{0xb990,0xb990,12},{0xb991,0xb9ab,13},
{0xb9ac,0xb9ac,12},{0xb9ad,0xb9c7,13},{0xb9c8,0xb9c8,12},{0xb9c9,0xb9e3,13},{0xb9e4,0xb9e4,12},{0xb9e5,0xb9ff,13},
{0xba00,0xba00,12},{0xba01,0xba1b,13},{0xba1c,0xba1c,12},{0xba1d,0xba37,13},{0xba38,0xba38,12},{0xba39,0xba53,13},
{0xba54,0xba54,12},{0xba55,0xba6f,13},{0xba70,0xba70,12},{0xba71,0xba8b,13},{0xba8c,0xba8c,12},{0xba8d,0xbaa7,13},
{0xbaa8,0xbaa8,12},{0xbaa9,0xbac3,13},{0xbac4,0xbac4,12},{0xbac5,0xbadf,13},{0xbae0,0xbae0,12},{0xbae1,0xbafb,13},
{0xbafc,0xbafc,12},{0xbafd,0xbb17,13},{0xbb18,0xbb18,12},{0xbb19,0xbb33,13},{0xbb34,0xbb34,12},{0xbb35,0xbb4f,13},
{0xbb50,0xbb50,12},{0xbb51,0xbb6b,13},{0xbb6c,0xbb6c,12},{0xbb6d,0xbb87,13},{0xbb88,0xbb88,12},{0xbb89,0xbba3,13},
{0xbba4,0xbba4,12},{0xbba5,0xbbbf,13},{0xbbc0,0xbbc0,12},{0xbbc1,0xbbdb,13},{0xbbdc,0xbbdc,12},{0xbbdd,0xbbf7,13},
{0xbbf8,0xbbf8,12},{0xbbf9,0xbc13,13},{0xbc14,0xbc14,12},{0xbc15,0xbc2f,13},{0xbc30,0xbc30,12},{0xbc31,0xbc4b,13},
{0xbc4c,0xbc4c,12},{0xbc4d,0xbc67,13},{0xbc68,0xbc68,12},{0xbc69,0xbc83,13},{0xbc84,0xbc84,12},{0xbc85,0xbc9f,13},
{0xbca0,0xbca0,12},{0xbca1,0xbcbb,13},{0xbcbc,0xbcbc,12},{0xbcbd,0xbcd7,13},{0xbcd8,0xbcd8,12},{0xbcd9,0xbcf3,13},
{0xbcf4,0xbcf4,12},{0xbcf5,0xbd0f,13},{0xbd10,0xbd10,12},{0xbd11,0xbd2b,13},{0xbd2c,0xbd2c,12},{0xbd2d,0xbd47,13},
{0xbd48,0xbd48,12},{0xbd49,0xbd63,13},{0xbd64,0xbd64,12},{0xbd65,0xbd7f,13},{0xbd80,0xbd80,12},{0xbd81,0xbd9b,13},
{0xbd9c,0xbd9c,12},{0xbd9d,0xbdb7,13},{0xbdb8,0xbdb8,12},{0xbdb9,0xbdd3,13},{0xbdd4,0xbdd4,12},{0xbdd5,0xbdef,13},
{0xbdf0,0xbdf0,12},{0xbdf1,0xbe0b,13},{0xbe0c,0xbe0c,12},{0xbe0d,0xbe27,13},{0xbe28,0xbe28,12},{0xbe29,0xbe43,13},
{0xbe44,0xbe44,12},{0xbe45,0xbe5f,13},{0xbe60,0xbe60,12},{0xbe61,0xbe7b,13},{0xbe7c,0xbe7c,12},{0xbe7d,0xbe97,13},
{0xbe98,0xbe98,12},{0xbe99,0xbeb3,13},{0xbeb4,0xbeb4,12},{0xbeb5,0xbecf,13},{0xbed0,0xbed0,12},{0xbed1,0xbeeb,13},
{0xbeec,0xbeec,12},{0xbeed,0xbf07,13},{0xbf08,0xbf08,12},{0xbf09,0xbf23,13},{0xbf24,0xbf24,12},{0xbf25,0xbf3f,13},
{0xbf40,0xbf40,12},{0xbf41,0xbf5b,13},{0xbf5c,0xbf5c,12},{0xbf5d,0xbf77,13},{0xbf78,0xbf78,12},{0xbf79,0xbf93,13},
{0xbf94,0xbf94,12},{0xbf95,0xbfaf,13},{0xbfb0,0xbfb0,12},{0xbfb1,0xbfcb,13},{0xbfcc,0xbfcc,12},{0xbfcd,0xbfe7,13},
{0xbfe8,0xbfe8,12},{0xbfe9,0xc003,13},{0xc004,0xc004,12},{0xc005,0xc01f,13},{0xc020,0xc020,12},{0xc021,0xc03b,13},
{0xc03c,0xc03c,12},{0xc03d,0xc057,13},{0xc058,0xc058,12},{0xc059,0xc073,13},{0xc074,0xc074,12},{0xc075,0xc08f,13},
{0xc090,0xc090,12},{0xc091,0xc0ab,13},{0xc0ac,0xc0ac,12},{0xc0ad,0xc0c7,13},{0xc0c8,0xc0c8,12},{0xc0c9,0xc0e3,13},
{0xc0e4,0xc0e4,12},{0xc0e5,0xc0ff,13},{0xc100,0xc100,12},{0xc101,0xc11b,13},{0xc11c,0xc11c,12},{0xc11d,0xc137,13},
{0xc138,0xc138,12},{0xc139,0xc153,13},{0xc154,0xc154,12},{0xc155,0xc16f,13},{0xc170,0xc170,12},{0xc171,0xc18b,13},
{0xc18c,0xc18c,12},{0xc18d,0xc1a7,13},{0xc1a8,0xc1a8,12},{0xc1a9,0xc1c3,13},{0xc1c4,0xc1c4,12},{0xc1c5,0xc1df,13},
{0xc1e0,0xc1e0,12},{0xc1e1,0xc1fb,13},{0xc1fc,0xc1fc,12},{0xc1fd,0xc217,13},{0xc218,0xc218,12},{0xc219,0xc233,13},
{0xc234,0xc234,12},{0xc235,0xc24f,13},{0xc250,0xc250,12},{0xc251,0xc26b,13},{0xc26c,0xc26c,12},{0xc26d,0xc287,13},
{0xc288,0xc288,12},{0xc289,0xc2a3,13},{0xc2a4,0xc2a4,12},{0xc2a5,0xc2bf,13},{0xc2c0,0xc2c0,12},{0xc2c1,0xc2db,13},
{0xc2dc,0xc2dc,12},{0xc2dd,0xc2f7,13},{0xc2f8,0xc2f8,12},{0xc2f9,0xc313,13},{0xc314,0xc314,12},{0xc315,0xc32f,13},
{0xc330,0xc330,12},{0xc331,0xc34b,13},{0xc34c,0xc34c,12},{0xc34d,0xc367,13},{0xc368,0xc368,12},{0xc369,0xc383,13},
{0xc384,0xc384,12},{0xc385,0xc39f,13},{0xc3a0,0xc3a0,12},{0xc3a1,0xc3bb,13},{0xc3bc,0xc3bc,12},{0xc3bd,0xc3d7,13},
{0xc3d8,0xc3d8,12},{0xc3d9,0xc3f3,13},{0xc3f4,0xc3f4,12},{0xc3f5,0xc40f,13},{0xc410,0xc410,12},{0xc411,0xc42b,13},
{0xc42c,0xc42c,12},{0xc42d,0xc447,13},{0xc448,0xc448,12},{0xc449,0xc463,13},{0xc464,0xc464,12},{0xc465,0xc47f,13},
{0xc480,0xc480,12},{0xc481,0xc49b,13},{0xc49c,0xc49c,12},{0xc49d,0xc4b7,13},{0xc4b8,0xc4b8,12},{0xc4b9,0xc4d3,13},
{0xc4d4,0xc4d4,12},{0xc4d5,0xc4ef,13},{0xc4f0,0xc4f0,12},{0xc4f1,0xc50b,13},{0xc50c,0xc50c,12},{0xc50d,0xc527,13},
{0xc528,0xc528,12},{0xc529,0xc543,13},{0xc544,0xc544,12},{0xc545,0xc55f,13},{0xc560,0xc560,12},{0xc561,0xc57b,13},
{0xc57c,0xc57c,12},{0xc57d,0xc597,13},{0xc598,0xc598,12},{0xc599,0xc5b3,13},{0xc5b4,0xc5b4,12},{0xc5b5,0xc5cf,13},
{0xc5d0,0xc5d0,12},{0xc5d1,0xc5eb,13},{0xc5ec,0xc5ec,12},{0xc5ed,0xc607,13},{0xc608,0xc608,12},{0xc609,0xc623,13},
{0xc624,0xc624,12},{0xc625,0xc63f,13},{0xc640,0xc640,12},{0xc641,0xc65b,13},{0xc65c,0xc65c,12},{0xc65d,0xc677,13},
{0xc678,0xc678,12},{0xc679,0xc693,13},{0xc694,0xc694,12},{0xc695,0xc6af,13},{0xc6b0,0xc6b0,12},{0xc6b1,0xc6cb,13},
{0xc6cc,0xc6cc,12},{0xc6cd,0xc6e7,13},{0xc6e8,0xc6e8,12},{0xc6e9,0xc703,13},{0xc704,0xc704,12},{0xc705,0xc71f,13},
{0xc720,0xc720,12},{0xc721,0xc73b,13},{0xc73c,0xc73c,12},{0xc73d,0xc757,13},{0xc758,0xc758,12},{0xc759,0xc773,13},
{0xc774,0xc774,12},{0xc775,0xc78f,13},{0xc790,0xc790,12},{0xc791,0xc7ab,13},{0xc7ac,0xc7ac,12},{0xc7ad,0xc7c7,13},
{0xc7c8,0xc7c8,12},{0xc7c9,0xc7e3,13},{0xc7e4,0xc7e4,12},{0xc7e5,0xc7ff,13},{0xc800,0xc800,12},{0xc801,0xc81b,13},
{0xc81c,0xc81c,12},{0xc81d,0xc837,13},{0xc838,0xc838,12},{0xc839,0xc853,13},{0xc854,0xc854,12},{0xc855,0xc86f,13},
{0xc870,0xc870,12},{0xc871,0xc88b,13},{0xc88c,0xc88c,12},{0xc88d,0xc8a7,13},{0xc8a8,0xc8a8,12},{0xc8a9,0xc8c3,13},
{0xc8c4,0xc8c4,12},{0xc8c5,0xc8df,13},{0xc8e0,0xc8e0,12},{0xc8e1,0xc8fb,13},{0xc8fc,0xc8fc,12},{0xc8fd,0xc917,13},
{0xc918,0xc918,12},{0xc919,0xc933,13},{0xc934,0xc934,12},{0xc935,0xc94f,13},{0xc950,0xc950,12},{0xc951,0xc96b,13},
{0xc96c,0xc96c,12},{0xc96d,0xc987,13},{0xc988,0xc988,12},{0xc989,0xc9a3,13},{0xc9a4,0xc9a4,12},{0xc9a5,0xc9bf,13},
{0xc9c0,0xc9c0,12},{0xc9c1,0xc9db,13},{0xc9dc,0xc9dc,12},{0xc9dd,0xc9f7,13},{0xc9f8,0xc9f8,12},{0xc9f9,0xca13,13},
{0xca14,0xca14,12},{0xca15,0xca2f,13},{0xca30,0xca30,12},{0xca31,0xca4b,13},{0xca4c,0xca4c,12},{0xca4d,0xca67,13},
{0xca68,0xca68,12},{0xca69,0xca83,13},{0xca84,0xca84,12},{0xca85,0xca9f,13},{0xcaa0,0xcaa0,12},{0xcaa1,0xcabb,13},
{0xcabc,0xcabc,12},{0xcabd,0xcad7,13},{0xcad8,0xcad8,12},{0xcad9,0xcaf3,13},{0xcaf4,0xcaf4,12},{0xcaf5,0xcb0f,13},
{0xcb10,0xcb10,12},{0xcb11,0xcb2b,13},{0xcb2c,0xcb2c,12},{0xcb2d,0xcb47,13},{0xcb48,0xcb48,12},{0xcb49,0xcb63,13},
{0xcb64,0xcb64,12},{0xcb65,0xcb7f,13},{0xcb80,0xcb80,12},{0xcb81,0xcb9b,13},{0xcb9c,0xcb9c,12},{0xcb9d,0xcbb7,13},
{0xcbb8,0xcbb8,12},{0xcbb9,0xcbd3,13},{0xcbd4,0xcbd4,12},{0xcbd5,0xcbef,13},{0xcbf0,0xcbf0,12},{0xcbf1,0xcc0b,13},
{0xcc0c,0xcc0c,12},{0xcc0d,0xcc27,13},{0xcc28,0xcc28,12},{0xcc29,0xcc43,13},{0xcc44,0xcc44,12},{0xcc45,0xcc5f,13},
{0xcc60,0xcc60,12},{0xcc61,0xcc7b,13},{0xcc7c,0xcc7c,12},{0xcc7d,0xcc97,13},{0xcc98,0xcc98,12},{0xcc99,0xccb3,13},
{0xccb4,0xccb4,12},{0xccb5,0xcccf,13},{0xccd0,0xccd0,12},{0xccd1,0xcceb,13},{0xccec,0xccec,12},{0xcced,0xcd07,13},
{0xcd08,0xcd08,12},{0xcd09,0xcd23,13},{0xcd24,0xcd24,12},{0xcd25,0xcd3f,13},{0xcd40,0xcd40,12},{0xcd41,0xcd5b,13},
{0xcd5c,0xcd5c,12},{0xcd5d,0xcd77,13},{0xcd78,0xcd78,12},{0xcd79,0xcd93,13},{0xcd94,0xcd94,12},{0xcd95,0xcdaf,13},
{0xcdb0,0xcdb0,12},{0xcdb1,0xcdcb,13},{0xcdcc,0xcdcc,12},{0xcdcd,0xcde7,13},{0xcde8,0xcde8,12},{0xcde9,0xce03,13},
{0xce04,0xce04,12},{0xce05,0xce1f,13},{0xce20,0xce20,12},{0xce21,0xce3b,13},{0xce3c,0xce3c,12},{0xce3d,0xce57,13},
{0xce58,0xce58,12},{0xce59,0xce73,13},{0xce74,0xce74,12},{0xce75,0xce8f,13},{0xce90,0xce90,12},{0xce91,0xceab,13},
{0xceac,0xceac,12},{0xcead,0xcec7,13},{0xcec8,0xcec8,12},{0xcec9,0xcee3,13},{0xcee4,0xcee4,12},{0xcee5,0xceff,13},
{0xcf00,0xcf00,12},{0xcf01,0xcf1b,13},{0xcf1c,0xcf1c,12},{0xcf1d,0xcf37,13},{0xcf38,0xcf38,12},{0xcf39,0xcf53,13},
{0xcf54,0xcf54,12},{0xcf55,0xcf6f,13},{0xcf70,0xcf70,12},{0xcf71,0xcf8b,13},{0xcf8c,0xcf8c,12},{0xcf8d,0xcfa7,13},
{0xcfa8,0xcfa8,12},{0xcfa9,0xcfc3,13},{0xcfc4,0xcfc4,12},{0xcfc5,0xcfdf,13},{0xcfe0,0xcfe0,12},{0xcfe1,0xcffb,13},
{0xcffc,0xcffc,12},{0xcffd,0xd017,13},{0xd018,0xd018,12},{0xd019,0xd033,13},{0xd034,0xd034,12},{0xd035,0xd04f,13},
{0xd050,0xd050,12},{0xd051,0xd06b,13},{0xd06c,0xd06c,12},{0xd06d,0xd087,13},{0xd088,0xd088,12},{0xd089,0xd0a3,13},
{0xd0a4,0xd0a4,12},{0xd0a5,0xd0bf,13},{0xd0c0,0xd0c0,12},{0xd0c1,0xd0db,13},{0xd0dc,0xd0dc,12},{0xd0dd,0xd0f7,13},
{0xd0f8,0xd0f8,12},{0xd0f9,0xd113,13},{0xd114,0xd114,12},{0xd115,0xd12f,13},{0xd130,0xd130,12},{0xd131,0xd14b,13},
{0xd14c,0xd14c,12},{0xd14d,0xd167,13},{0xd168,0xd168,12},{0xd169,0xd183,13},{0xd184,0xd184,12},{0xd185,0xd19f,13},
{0xd1a0,0xd1a0,12},{0xd1a1,0xd1bb,13},{0xd1bc,0xd1bc,12},{0xd1bd,0xd1d7,13},{0xd1d8,0xd1d8,12},{0xd1d9,0xd1f3,13},
{0xd1f4,0xd1f4,12},{0xd1f5,0xd20f,13},{0xd210,0xd210,12},{0xd211,0xd22b,13},{0xd22c,0xd22c,12},{0xd22d,0xd247,13},
{0xd248,0xd248,12},{0xd249,0xd263,13},{0xd264,0xd264,12},{0xd265,0xd27f,13},{0xd280,0xd280,12},{0xd281,0xd29b,13},
{0xd29c,0xd29c,12},{0xd29d,0xd2b7,13},{0xd2b8,0xd2b8,12},{0xd2b9,0xd2d3,13},{0xd2d4,0xd2d4,12},{0xd2d5,0xd2ef,13},
{0xd2f0,0xd2f0,12},{0xd2f1,0xd30b,13},{0xd30c,0xd30c,12},{0xd30d,0xd327,13},{0xd328,0xd328,12},{0xd329,0xd343,13},
{0xd344,0xd344,12},{0xd345,0xd35f,13},{0xd360,0xd360,12},{0xd361,0xd37b,13},{0xd37c,0xd37c,12},{0xd37d,0xd397,13},
{0xd398,0xd398,12},{0xd399,0xd3b3,13},{0xd3b4,0xd3b4,12},{0xd3b5,0xd3cf,13},{0xd3d0,0xd3d0,12},{0xd3d1,0xd3eb,13},
{0xd3ec,0xd3ec,12},{0xd3ed,0xd407,13},{0xd408,0xd408,12},{0xd409,0xd423,13},{0xd424,0xd424,12},{0xd425,0xd43f,13},
{0xd440,0xd440,12},{0xd441,0xd45b,13},{0xd45c,0xd45c,12},{0xd45d,0xd477,13},{0xd478,0xd478,12},{0xd479,0xd493,13},
{0xd494,0xd494,12},{0xd495,0xd4af,13},{0xd4b0,0xd4b0,12},{0xd4b1,0xd4cb,13},{0xd4cc,0xd4cc,12},{0xd4cd,0xd4e7,13},
{0xd4e8,0xd4e8,12},{0xd4e9,0xd503,13},{0xd504,0xd504,12},{0xd505,0xd51f,13},{0xd520,0xd520,12},{0xd521,0xd53b,13},
{0xd53c,0xd53c,12},{0xd53d,0xd557,13},{0xd558,0xd558,12},{0xd559,0xd573,13},{0xd574,0xd574,12},{0xd575,0xd58f,13},
{0xd590,0xd590,12},{0xd591,0xd5ab,13},{0xd5ac,0xd5ac,12},{0xd5ad,0xd5c7,13},{0xd5c8,0xd5c8,12},{0xd5c9,0xd5e3,13},
{0xd5e4,0xd5e4,12},{0xd5e5,0xd5ff,13},{0xd600,0xd600,12},{0xd601,0xd61b,13},{0xd61c,0xd61c,12},{0xd61d,0xd637,13},
{0xd638,0xd638,12},{0xd639,0xd653,13},{0xd654,0xd654,12},{0xd655,0xd66f,13},{0xd670,0xd670,12},{0xd671,0xd68b,13},
{0xd68c,0xd68c,12},{0xd68d,0xd6a7,13},{0xd6a8,0xd6a8,12},{0xd6a9,0xd6c3,13},{0xd6c4,0xd6c4,12},{0xd6c5,0xd6df,13},
{0xd6e0,0xd6e0,12},{0xd6e1,0xd6fb,13},{0xd6fc,0xd6fc,12},{0xd6fd,0xd717,13},{0xd718,0xd718,12},{0xd719,0xd733,13},
{0xd734,0xd734,12},{0xd735,0xd74f,13},{0xd750,0xd750,12},{0xd751,0xd76b,13},{0xd76c,0xd76c,12},{0xd76d,0xd787,13},
{0xd788,0xd788,12},{0xd789,0xd7a3,13},{0xd7b0,0xd7c6,10},{0xd7cb,0xd7fb,11},{0xfb1e,0xfb1e,4},{0xfe00,0xfe0f,4},
{0xfe20,0xfe2f,4},{0xfeff,0xfeff,3},{0xff9e,0xff9f,4},{0xfff0,0xfffb,3},{0x101fd,0x101fd,4},{0x102e0,0x102e0,4},
{0x10376,0x1037a,4},{0x10a01,0x10a03,4},{0x10a05,0x10a06,4},{0x10a0c,0x10a0f,4},{0x10a38,0x10a3a,4},{0x10a3f,0x10a3f,4},
{0x10ae5,0x10ae6,4},{0x10d24,0x10d27,4},{0x10eab,0x10eac,4},{0x10efd,0x10eff,4},{0x10f46,0x10f50,4},{0x10f82,0x10f85,4},
{0x11000,0x11000,8},{0x11001,0x11001,4},{0x11002,0x11002,8},{0x11038,0x11046,4},{0x11070,0x11070,4},{0x11073,0x11074,4},
{0x1107f,0x11081,4},{0x11082,0x11082,8},{0x110b0,0x110b2,8},{0x110b3,0x110b6,4},{0x110b7,0x110b8,8},{0x110b9,0x110ba,4},
{0x110bd,0x110bd,7},{0x110c2,0x110c2,4},{0x110cd,0x110cd,7},{0x11100,0x11102,4},{0x11127,0x1112b,4},{0x1112c,0x1112c,8},
{0x1112d,0x11134,4},{0x11145,0x11146,8},{0x11173,0x11173,4},{0x11180,0x11181,4},{0x11182,0x11182,8},{0x111b3,0x111b5,8},
{0x111b6,0x111be,4},{0x111bf,0x111c0,8},{0x111c2,0x111c3,7},{0x111c9,0x111cc,4},{0x111ce,0x111ce,8},{0x111cf,0x111cf,4},
{0x1122c,0x1122e,8},{0x1122f,0x11231,4},{0x11232,0x11233,8},{0x11234,0x11234,4},{0x11235,0x11235,8},{0x11236,0x11237,4},
{0x1123e,0x1123e,4},{0x11241,0x11241,4},{0x112df,0x112df,4},{0x112e0,0x112e2,8},{0x112e3,0x112ea,4},{0x11300,0x11301,4},
{0x11302,0x11303,8},{0x1133b,0x1133c,4},{0x1133e,0x1133e,4},{0x1133f,0x1133f,8},{0x11340,0x11340,4},{0x11341,0x11344,8},
{0x11347,0x11348,8},{0x1134b,0x1134d,8},{0x11357,0x11357,4},{0x11362,0x11363,8},{0x11366,0x1136c,4},{0x11370,0x11374,4},
{0x11435,0x11437,8},{0x11438,0x1143f,4},{0x11440,0x11441,8},{0x11442,0x11444,4},{0x11445,0x11445,8},{0x11446,0x11446,4},
{0x1145e,0x1145e,4},{0x114b0,0x114b0,4},{0x114b1,0x114b2,8},{0x114b3,0x114b8,4},{0x114b9,0x114b9,8},{0x114ba,0x114ba,4},
{0x114bb,0x114bc,8},{0x114bd,0x114bd,4},{0x114be,0x114be,8},{0x114bf,0x114c0,4},{0x114c1,0x114c1,8},{0x114c2,0x114c3,4},
{0x115af,0x115af,4},{0x115b0,0x115b1,8},{0x115b2,0x115b5,4},{0x115b8,0x115bb,8},{0x115bc,0x115bd,4},{0x115be,0x115be,8},
{0x115bf,0x115c0,4},{0x115dc,0x115dd,4},{0x11630,0x11632,8},{0x11633,0x1163a,4},{0x1163b,0x1163c,8},{0x1163d,0x1163d,4},
{0x1163e,0x1163e,8},{0x1163f,0x11640,4},{0x116ab,0x116ab,4},{0x116ac,0x116ac,8},{0x116ad,0x116ad,4},{0x116ae,0x116af,8},
{0x116b0,0x116b5,4},{0x116b6,0x116b6,8},{0x116b7,0x116b7,4},{0x1171d,0x1171f,4},{0x11722,0x11725,4},{0x11726,0x11726,8},
{0x11727,0x1172b,4},{0x1182c,0x1182e,8},{0x1182f,0x11837,4},{0x11838,0x11838,8},{0x11839,0x1183a,4},{0x11930,0x11930,4},
{0x11931,0x11935,8},{0x11937,0x11938,8},{0x1193b,0x1193c,4},{0x1193d,0x1193d,8},{0x1193e,0x1193e,4},{0x1193f,0x1193f,7},
{0x11940,0x11940,8},{0x11941,0x11941,7},{0x11942,0x11942,8},{0x11943,0x11943,4},{0x119d1,0x119d3,8},{0x119d4,0x119d7,4},
{0x119da,0x119db,4},{0x119dc,0x119df,8},{0x119e0,0x119e0,4},{0x119e4,0x119e4,8},{0x11a01,0x11a0a,4},{0x11a33,0x11a38,4},
{0x11a39,0x11a39,8},{0x11a3a,0x11a3a,7},{0x11a3b,0x11a3e,4},{0x11a47,0x11a47,4},{0x11a51,0x11a56,4},{0x11a57,0x11a58,8},
{0x11a59,0x11a5b,4},{0x11a84,0x11a89,7},{0x11a8a,0x11a96,4},{0x11a97,0x11a97,8},{0x11a98,0x11a99,4},{0x11c2f,0x11c2f,8},
{0x11c30,0x11c36,4},{0x11c38,0x11c3d,4},{0x11c3e,0x11c3e,8},{0x11c3f,0x11c3f,4},{0x11c92,0x11ca7,4},{0x11ca9,0x11ca9,8},
{0x11caa,0x11cb0,4},{0x11cb1,0x11cb1,8},{0x11cb2,0x11cb3,4},{0x11cb4,0x11cb4,8},{0x11cb5,0x11cb6,4},{0x11d31,0x11d36,4},
{0x11d3a,0x11d3a,4},{0x11d3c,0x11d3d,4},{0x11d3f,0x11d45,4},{0x11d46,0x11d46,7},{0x11d47,0x11d47,4},{0x11d8a,0x11d8e,8},
{0x11d90,0x11d91,4},{0x11d93,0x11d94,8},{0x11d95,0x11d95,4},{0x11d96,0x11d96,8},{0x11d97,0x11d97,4},{0x11ef3,0x11ef4,4},
{0x11ef5,0x11ef6,8},{0x11f00,0x11f01,4},{0x11f02,0x11f02,7},{0x11f03,0x11f03,8},{0x11f34,0x11f35,8},{0x11f36,0x11f3a,4},
{0x11f3e,0x11f3f,8},{0x11f40,0x11f40,4},{0x11f41,0x11f41,8},{0x11f42,0x11f42,4},{0x13430,0x1343f,3},{0x13440,0x13440,4},
{0x13447,0x13455,4},{0x16af0,0x16af4,4},{0x16b30,0x16b36,4},{0x16f4f,0x16f4f,4},{0x16f51,0x16f87,8},{0x16f8f,0x16f92,4},
{0x16fe4,0x16fe4,4},{0x16ff0,0x16ff1,8},{0x1bc9d,0x1bc9e,4},{0x1bca0,0x1bca3,3},{0x1cf00,0x1cf2d,4},{0x1cf30,0x1cf46,4},
{0x1d165,0x1d165,4},{0x1d166,0x1d166,8},{0x1d167,0x1d169,4},{0x1d16d,0x1d16d,8},{0x1d16e,0x1d172,4},{0x1d173,0x1d17a,3},
{0x1d17b,0x1d182,4},{0x1d185,0x1d18b,4},{0x1d1aa,0x1d1ad,4},{0x1d242,0x1d244,4},{0x1da00,0x1da36,4},{0x1da3b,0x1da6c,4},
{0x1da75,0x1da75,4},{0x1da84,0x1da84,4},{0x1da9b,0x1da9f,4},{0x1daa1,0x1daaf,4},{0x1e000,0x1e006,4},{0x1e008,0x1e018,4},
{0x1e01b,0x1e021,4},{0x1e023,0x1e024,4},{0x1e026,0x1e02a,4},{0x1e08f,0x1e08f,4},{0x1e130,0x1e136,4},{0x1e2ae,0x1e2ae,4},
{0x1e2ec,0x1e2ef,4},{0x1e4ec,0x1e4ef,4},{0x1e8d0,0x1e8d6,4},{0x1e944,0x1e94a,4},{0x1f000,0x1f0ff,14},{0x1f10d,0x1f10f,14},
{0x1f12f,0x1f12f,14},{0x1f16c,0x1f171,14},{0x1f17e,0x1f17f,14},{0x1f18e,0x1f18e,14},{0x1f191,0x1f19a,14},{0x1f1ad,0x1f1e5,14},
{0x1f1e6,0x1f1ff,6},{0x1f201,0x1f20f,14},{0x1f21a,0x1f21a,14},{0x1f22f,0x1f22f,14},{0x1f232,0x1f23a,14},{0x1f23c,0x1f23f,14},
{0x1f249,0x1f3fa,14},{0x1f3fb,0x1f3ff,4},{0x1f400,0x1f53d,14},{0x1f546,0x1f64f,14},{0x1f680,0x1f6ff,14},{0x1f774,0x1f77f,14},
{0x1f7d5,0x1f7ff,14},{0x1f80c,0x1f80f,14},{0x1f848,0x1f84f,14},{0x1f85a,0x1f85f,14},{0x1f888,0x1f88f,14},{0x1f8ae,0x1f8ff,14},
{0x1f90c,0x1f93a,14},{0x1f93c,0x1f945,14},{0x1f947,0x1faff,14},{0x1fc00,0x1fffd,14},{0xe0000,0xe001f,3},{0xe0020,0xe007f,4},
{0xe0080,0xe00ff,3},{0xe0100,0xe01ef,4},{0xe01f0,0xe0fff,3},
};
enum wb_class {W_Other,W_CR,W_LF,W_Newline,W_Extend,W_ZWJ,W_Regional_Indicator,W_Format,W_Katakana,W_Hebrew_Letter,W_ALetter,W_Single_Quote,W_Double_Quote,W_MidNumLet,W_MidLetter,W_MidNum,W_Numeric,W_ExtendNumLet,W_WSegSpace,W_ExtPict,W_ALetterExtPict, W_NUM};
static const char *const wb_names[] = {"Other","CR","LF","Newline","Extend","ZWJ","Regional_Indicator","Format","Katakana","Hebrew_Letter","ALetter","Single_Quote","Double_Quote","MidNumLet","MidLetter","MidNum","Numeric","ExtendNumLet","WSegSpace","ExtPict","ALetterExtPict"};
static const struct ref_range wb_ranges[] = {
{0xa,0xa,2},{0xb,0xc,3},{0xd,0xd,1},{0x20,0x20,18},{0x22,0x22,12},{0x27,0x27,11},
{0x2c,0x2c,15},{0x2e,0x2e,13},{0x30,0x39,16},{0x3a,0x3a,14},{0x3b,0x3b,15},{0x41,0x5a,10},
{0x5f,0x5f,17},{0x61,0x7a,10},{0x85,0x85,3},{0xa9,0xa9,19},{0xaa,0xaa,10},{0xad,0xad,7},
{0xae,0xae,19},{0xb5,0xb5,10},{0xb7,0xb7,14},{0xba,0xba,10},{0xc0,0xd6,10},{0xd8,0xf6,10},
{0xf8,0x2d7,10},{0x2de,0x2ff,10},{0x300,0x36f,4},{0x370,0x374,10},{0x376,0x377,10},{0x37a,0x37d,10},
{0x37e,0x37e,15},{0x37f,0x37f,10},{0x386,0x386,10},{0x387,0x387,14},{0x388,0x38a,10},{0x38c,0x38c,10},
{0x38e,0x3a1,10},{0x3a3,0x3f5,10},{0x3f7,0x481,10},{0x483,0x489,4},{0x48a,0x52f,10},{0x531,0x556,10},
{0x559,0x55c,10},{0x55e,0x55e,10},{0x55f,0x55f,14},{0x560,0x588,10},{0x589,0x589,15},{0x58a,0x58a,10},
{0x591,0x5bd,4},{0x5bf,0x5bf,4},{0x5c1,0x5c2,4},{0x5c4,0x5c5,4},{0x5c7,0x5c7,4},{0x5d0,0x5ea,9},
{0x5ef,0x5f2,9},{0x5f3,0x5f3,10},{0x5f4,0x5f4,14},{0x600,0x605,7},{0x60c,0x60d,15},{0x610,0x61a,4},
{0x61c,0x61c,7},{0x620,0x64a,10},{0x64b,0x65f,4},{0x660,0x669,16},{0x66b,0x66b,16},{0x66c,0x66c,15},
{0x66e,0x66f,10},{0x670,0x670,4},{0x671,0x6d3,10},{0x6d5,0x6d5,10},{0x6d6,0x6dc,4},{0x6dd,0x6dd,7},
{0x6df,0x6e4,4},{0x6e5,0x6e6,10},{0x6e7,0x6e8,4},{0x6ea,0x6ed,4},{0x6ee,0x6ef,10},{0x6f0,0x6f9,16},
{0x6fa,0x6fc,10},{0x6ff,0x6ff,10},{0x70f,0x70f,7},{0x710,0x710,10},{0x711,0x711,4},{0x712,0x72f,10},
{0x730,0x74a,4},{0x74d,0x7a5,10},{0x7a6,0x7b0,4},{0x7b1,0x7b1,10},{0x7c0,0x7c9,16},{0x7ca,0x7ea,10},
{0x7eb,0x7f3,4},{0x7f4,0x7f5,10},{0x7f8,0x7f8,15},{0x7fa,0x7fa,10},{0x7fd,0x7fd,4},{0x800,0x815,10},
{0x816,0x819,4},{0x81a,0x81a,10},{0x81b,0x823,4},{0x824,0x824,10},{0x825,0x827,4},{0x828,0x828,10},
{0x829,0x82d,4},{0x840,0x858,10},{0x859,0x85b,4},{0x860,0x86a,10},{0x870,0x887,10},{0x889,0x88e,10},
{0x890,0x891,7},{0x898,0x89f,4},{0x8a0,0x8c9,10},{0x8ca,0x8e1,4},{0x8e2,0x8e2,7},{0x8e3,0x903,4},
{0x904,0x939,10},{0x93a,0x93c,4},{0x93d,0x93d,10},{0x93e,0x94f,4},{0x950,0x950,10},{0x951,0x957,4},
{0x958,0x961,10},{0x962,0x963,4},{0x966,0x96f,16},{0x971,0x980,10},{0x981,0x983,4},{0x985,0x98c,10},
{0x98f,0x990,10},{0x993,0x9a8,10},{0x9aa,0x9b0,10},{0x9b2,0x9b2,10},{0x9b6,0x9b9,10},{0x9bc,0x9bc,4},
{0x9bd,0x9bd,10},{0x9be,0x9c4,4},{0x9c7,0x9c8,4},{0x9cb,0x9cd,4},{0x9ce,0x9ce,10},{0x9d7,0x9d7,4},
{0x9dc,0x9dd,10},{0x9df,0x9e1,10},{0x9e2,0x9e3,4},{0x9e6,0x9ef,16},{0x9f0,0x9f1,10},{0x9fc,0x9fc,10},
{0x9fe,0x9fe,4},{0xa01,0xa03,4},{0xa05,0xa0a,10},{0xa0f,0xa10,10},{0xa13,0xa28,10},{0xa2a,0xa30,10},
{0xa32,0xa33,10},{0xa35,0xa36,10},{0xa38,0xa39,10},{0xa3c,0xa3c,4},{0xa3e,0xa42,4},{0xa47,0xa48,4},
{0xa4b,0xa4d,4},{0xa51,0xa51,4},{0xa59,0xa5c,10},{0xa5e,0xa5e,10},{0xa66,0xa6f,16},{0xa70,0xa71,4},
{0xa72,0xa74,10},{0xa75,0xa75,4},{0xa81,0xa83,4},{0xa85,0xa8d,10},{0xa8f,0xa91,10},{0xa93,0xaa8,10},
{0xaaa,0xab0,10},{0xab2,0xab3,10},{0xab5,0xab9,10},{0xabc,0xabc,4},{0xabd,0xabd,10},{0xabe,0xac5,4},
{0xac7,0xac9,4},{0xacb,0xacd,4},{0xad0,0xad0,10},{0xae0,0xae1,10},{0xae2,0xae3,4},{0xae6,0xaef,16},
{0xaf9,0xaf9,10},{0xafa,0xaff,4},{0xb01,0xb03,4},{0xb05,0xb0c,10},{0xb0f,0xb10,10},{0xb13,0xb28,10},
{0xb2a,0xb30,10},{0xb32,0xb33,10},{0xb35,0xb39,10},{0xb3c,0xb3c,4},{0xb3d,0xb3d,10},{0xb3e,0xb44,4},
{0xb47,0xb48,4},{0xb4b,0xb4d,4},{0xb55,0xb57,4},{0xb5c,0xb5d,10},{0xb5f,0xb61,10},{0xb62,0xb63,4},
{0xb66,0xb6f,16},{0xb71,0xb71,10},{0xb82,0xb82,4},{0xb83,0xb83,10},{0xb85,0xb8a,10},{0xb8e,0xb90,10},
{0xb92,0xb95,10},{0xb99,0xb9a,10},{0xb9c,0xb9c,10},{0xb9e,0xb9f,10},{0xba3,0xba4,10},{0xba8,0xbaa,10},
{0xbae,0xbb9,10},{0xbbe,0xbc2,4},{0xbc6,0xbc8,4},{0xbca,0xbcd,4},{0xbd0,0xbd0,10},{0xbd7,0xbd7,4},
{0xbe6,0xbef,16},{0xc00,0xc04,4},{0xc05,0xc0c,10},{0xc0e,0xc10,10},{0xc12,0xc28,10},{0xc2a,0xc39,10},
{0xc3c,0xc3c,4},{0xc3d,0xc3d,10},{0xc3e,0xc44,4},{0xc46,0xc48,4},{0xc4a,0xc4d,4},{0xc55,0xc56,4},
{0xc58,0xc5a,10},{0xc5d,0xc5d,10},{0xc60,0xc61,10},{0xc62,0xc63,4},{0xc66,0xc6f,16},{0xc80,0xc80,10},
{0xc81,0xc83,4},{0xc85,0xc8c,10},{0xc8e,0xc90,10},{0xc92,0xca8,10},{0xcaa,0xcb3,10},{0xcb5,0xcb9,10},
{0xcbc,0xcbc,4},{0xcbd,0xcbd,10},{0xcbe,0xcc4,4},{0xcc6,0xcc8,4},{0xcca,0xccd,4},{0xcd5,0xcd6,4},
{0xcdd,0xcde,10},{0xce0,0xce1,10},{0xce2,0xce3,4},{0xce6,0xcef,16},{0xcf1,0xcf2,10},{0xcf3,0xcf3,4},
{0xd00,0xd03,4},{0xd04,0xd0c,10},{0xd0e,0xd10,10},{0xd12,0xd3a,10},{0xd3b,0xd3c,4},{0xd3d,0xd3d,10},
{0xd3e,0xd44,4},{0xd46,0xd48,4},{0xd4a,0xd4d,4},{0xd4e,0xd4e,10},{0xd54,0xd56,10},{0xd57,0xd57,4},
{0xd5f,0xd61,10},{0xd62,0xd63,4},{0xd66,0xd6f,16},{0xd7a,0xd7f,10},{0xd81,0xd83,4},{0xd85,0xd96,10},
{0xd9a,0xdb1,10},{0xdb3,0xdbb,10},{0xdbd,0xdbd,10},{0xdc0,0xdc6,10},{0xdca,0xdca,4},{0xdcf,0xdd4,4},
{0xdd6,0xdd6,4},{0xdd8,0xddf,4},{0xde6,0xdef,16},{0xdf2,0xdf3,4},{0xe31,0xe31,4},{0xe34,0xe3a,4},
{0xe47,0xe4e,4},{0xe50,0xe59,16},{0xeb1,0xeb1,4},{0xeb4,0xebc,4},{0xec8,0xece,4},{0xed0,0xed9,16},
{0xf00,0xf00,10},{0xf18,0xf19,4},{0xf20,0xf29,16},{0xf35,0xf35,4},{0xf37,0xf37,4},{0xf39,0xf39,4},
{0xf3e,0xf3f,4},{0xf40,0xf47,10},{0xf49,0xf6c,10},{0xf71,0xf84,4},{0xf86,0xf87,4},{0xf88,0xf8c,10},
{0xf8d,0xf97,4},{0xf99,0xfbc,4},{0xfc6,0xfc6,4},{0x102b,0x103e,4},{0x1040,0x1049,16},{0x1056,0x1059,4},
{0x105e,0x1060,4},{0x1062,0x1064,4},{0x1067,0x106d,4},{0x1071,0x1074,4},{0x1082,0x108d,4},{0x108f,0x108f,4},
{0x1090,0x1099,16},{0x109a,0x109d,4},{0x10a0,0x10c5,10},{0x10c7,0x10c7,10},{0x10cd,0x10cd,10},{0x10d0,0x10fa,10},
{0x10fc,0x1248,10},{0x124a,0x124d,10},{0x1250,0x1256,10},{0x1258,0x1258,10},{0x125a,0x125d,10},{0x1260,0x1288,10},
{0x128a,0x128d,10},{0x1290,0x12b0,10},{0x12b2,0x12b5,10},{0x12b8,0x12be,10},{0x12c0,0x12c0,10},{0x12c2,0x12c5,10},
{0x12c8,0x12d6,10},{0x12d8,0x1310,10},{0x1312,0x1315,10},{0x1318,0x135a,10},{0x135d,0x135f,4},{0x1380,0x138f,10},
{0x13a0,0x13f5,10},{0x13f8,0x13fd,10},{0x1401,0x166c,10},{0x166f,0x167f,10},{0x1680,0x1680,18},{0x1681,0x169a,10},
{0x16a0,0x16ea,10},{0x16ee,0x16f8,10},{0x1700,0x1711,10},{0x1712,0x1715,4},{0x171f,0x1731,10},{0x1732,0x1734,4},
{0x1740,0x1751,10},{0x1752,0x1753,4},{0x1760,0x176c,10},{0x176e,0x1770,10},{0x1772,0x1773,4},{0x17b4,0x17d3,4},
{0x17dd,0x17dd,4},{0x17e0,0x17e9,16},{0x180b,0x180d,4},{0x180e,0x180e,7},{0x180f,0x180f,4},{0x1810,0x1819,16},
{0x1820,0x1878,10},{0x1880,0x1884,10},{0x1885,0x1886,4},{0x1887,0x18a8,10},{0x18a9,0x18a9,4},{0x18aa,0x18aa,10},
{0x18b0,0x18f5,10},{0x1900,0x191e,10},{0x1920,0x192b,4},{0x1930,0x193b,4},{0x1946,0x194f,16},{0x19d0,0x19d9,16},
{0x1a00,0x1a16,10},{0x1a17,0x1a1b,4},{0x1a55,0x1a5e,4},{0x1a60,0x1a7c,4},{0x1a7f,0x1a7f,4},{0x1a80,0x1a89,16},
{0x1a90,0x1a99,16},{0x1ab0,0x1ace,4},{0x1b00,0x1b04,4},{0x1b05,0x1b33,10},{0x1b34,0x1b44,4},{0x1b45,0x1b4c,10},
{0x1b50,0x1b59,16},{0x1b6b,0x1b73,4},{0x1b80,0x1b82,4},{0x1b83,0x1ba0,10},{0x1ba1,0x1bad,4},{0x1bae,0x1baf,10},
{0x1bb0,0x1bb9,16},{0x1bba,0x1be5,10},{0x1be6,0x1bf3,4},{0x1c00,0x1c23,10},{0x1c24,0x1c37,4},{0x1c40,0x1c49,16},
{0x1c4d,0x1c4f,10},{0x1c50,0x1c59,16},{0x1c5a,0x1c7d,10},{0x1c80,0x1c88,10},{0x1c90,0x1cba,10},{0x1cbd,0x1cbf,10},
{0x1cd0,0x1cd2,4},{0x1cd4,0x1ce8,4},{0x1ce9,0x1cec,10},{0x1ced,0x1ced,4},{0x1cee,0x1cf3,10},{0x1cf4,0x1cf4,4},
{0x1cf5,0x1cf6,10},{0x1cf7,0x1cf9,4},{0x1cfa,0x1cfa,10},{0x1d00,0x1dbf,10},{0x1dc0,0x1dff,4},{0x1e00,0x1f15,10},
{0x1f18,0x1f1d,10},{0x1f20,0x1f45,10},{0x1f48,0x1f4d,10},{0x1f50,0x1f57,10},{0x1f59,0x1f59,10},{0x1f5b,0x1f5b,10},
{0x1f5d,0x1f5d,10},{0x1f5f,0x1f7d,10},{0x1f80,0x1fb4,10},{0x1fb6,0x1fbc,10},{0x1fbe,0x1fbe,10},{0x1fc2,0x1fc4,10},
{0x1fc6,0x1fcc,10},{0x1fd0,0x1fd3,10},{0x1fd6,0x1fdb,10},{0x1fe0,0x1fec,10},{0x1ff2,0x1ff4,10},{0x1ff6,0x1ffc,10},
{0x2000,0x2006,18},{0x2008,0x200a,18},{0x200c,0x200c,4},{0x200d,0x200d,5},{0x200e,0x200f,7},{0x2018,0x2019,13},
{0x2024,0x2024,13},{0x2027,0x2027,14},{0x2028,0x2029,3},{0x202a,0x202e,7},{0x202f,0x202f,17},{0x203c,0x203c,19},
{0x203f,0x2040,17},{0x2044,0x2044,15},{0x2049,0x2049,19},{0x2054,0x2054,17},{0x205f,0x205f,18},{0x2060,0x2064,7},
{0x2066,0x206f,7},{0x2071,0x2071,10},{0x207f,0x207f,10},{0x2090,0x209c,10},{0x20d0,0x20f0,4},{0x2102,0x2102,10},
{0x2107,0x2107,10},{0x210a,0x2113,10},{0x2115,0x2115,10},{0x2119,0x211d,10},{0x2122,0x2122,19},{0x2124,0x2124,10},
{0x2126,0x2126,10},{0x2128,0x2128,10},{0x212a,0x212d,10},{0x212f,0x2138,10},{0x2139,0x2139,20},{0x213c,0x213f,10},
{0x2145,0x2149,10},{0x214e,0x214e,10},{0x2160,0x2188,10},{0x2194,0x2199,19},{0x21a9,0x21aa,19},{0x231a,0x231b,19},
{0x2328,0x2328,19},{0x2388,0x2388,19},{0x23cf,0x23cf,19},{0x23e9,0x23f3,19},{0x23f8,0x23fa,19},{0x24b6,0x24c1,10},
{0x24c2,0x24c2,20},{0x24c3,0x24e9,10},{0x25aa,0x25ab,19},{0x25b6,0x25b6,19},{0x25c0,0x25c0,19},{0x25fb,0x25fe,19},
{0x2600,0x2605,19},{0x2607,0x2612,19},{0x2614,0x2685,19},{0x2690,0x2705,19},{0x2708,0x2712,19},{0x2714,0x2714,19},
{0x2716,0x2716,19},{0x271d,0x271d,19},{0x2721,0x2721,19},{0x2728,0x2728,19},{0x2733,0x2734,19},{0x2744,0x2744,19},
{0x2747,0x2747,19},{0x274c,0x274c,19},{0x274e,0x274e,19},{0x2753,0x2755,19},{0x2757,0x2757,19},{0x2763,0x2767,19},
{0x2795,0x2797,19},{0x27a1,0x27a1,19},{0x27b0,0x27b0,19},{0x27bf,0x27bf,19},{0x2934,0x2935,19},{0x2b05,0x2b07,19},
{0x2b1b,0x2b1c,19},{0x2b50,0x2b50,19},{0x2b55,0x2b55,19},{0x2c00,0x2ce4,10},{0x2ceb,0x2cee,10},{0x2cef,0x2cf1,4},
{0x2cf2,0x2cf3,10},{0x2d00,0x2d25,10},{0x2d27,0x2d27,10},{0x2d2d,0x2d2d,10},{0x2d30,0x2d67,10},{0x2d6f,0x2d6f,10},
{0x2d7f,0x2d7f,4},{0x2d80,0x2d96,10},{0x2da0,0x2da6,10},{0x2da8,0x2dae,10},{0x2db0,0x2db6,10},{0x2db8,0x2dbe,10},
{0x2dc0,0x2dc6,10},{0x2dc8,0x2dce,10},{0x2dd0,0x2dd6,10},{0x2dd8,0x2dde,10},{0x2de0,0x2dff,4},{0x2e2f,0x2e2f,10},
{0x3000,0x3000,18},{0x3005,0x3005,10},{0x302a,0x302f,4},{0x3030,0x3030,19},{0x3031,0x3035,8},{0x303b,0x303c,10},
{0x303d,0x303d,19},{0x3099,0x309a,4},{0x309b,0x309c,8},{0x30a0,0x30fa,8},{0x30fc,0x30ff,8},{0x3105,0x312f,10},
{0x3131,0x318e,10},{0x31a0,0x31bf,10},{0x31f0,0x31ff,8},{0x3297,0x3297,19},{0x3299,0x3299,19},{0x32d0,0x32fe,8},
{0x3300,0x3357,8},{0xa000,0xa48c,10},{0xa4d0,0xa4fd,10},{0xa500,0xa60c,10},{0xa610,0xa61f,10},{0xa620,0xa629,16},
{0xa62a,0xa62b,10},{0xa640,0xa66e,10},{0xa66f,0xa672,4},{0xa674,0xa67d,4},{0xa67f,0xa69d,10},{0xa69e,0xa69f,4},
{0xa6a0,0xa6ef,10},{0xa6f0,0xa6f1,4},{0xa708,0xa7ca,10},{0xa7d0,0xa7d1,10},{0xa7d3,0xa7d3,10},{0xa7d5,0xa7d9,10},
{0xa7f2,0xa801,10},{0xa802,0xa802,4},{0xa803,0xa805,10},{0xa806,0xa806,4},{0xa807,0xa80a,10},{0xa80b,0xa80b,4},
{0xa80c,0xa822,10},{0xa823,0xa827,4},{0xa82c,0xa82c,4},{0xa840,0xa873,10},{0xa880,0xa881,4},{0xa882,0xa8b3,10},
{0xa8b4,0xa8c5,4},{0xa8d0,0xa8d9,16},{0xa8e0,0xa8f1,4},{0xa8f2,0xa8f7,10},{0xa8fb,0xa8fb,10},{0xa8fd,0xa8fe,10},
{0xa8ff,0xa8ff,4},{0xa900,0xa909,16},{0xa90a,0xa925,10},{0xa926,0xa92d,4},{0xa930,0xa946,10},{0xa947,0xa953,4},
{0xa960,0xa97c,10},{0xa980,0xa983,4},{0xa984,0xa9b2,10},{0xa9b3,0xa9c0,4},{0xa9cf,0xa9cf,10},{0xa9d0,0xa9d9,16},
{0xa9e5,0xa9e5,4},{0xa9f0,0xa9f9,16},{0xaa00,0xaa28,10},{0xaa29,0xaa36,4},{0xaa40,0xaa42,10},{0xaa43,0xaa43,4},
{0xaa44,0xaa4b,10},{0xaa4c,0xaa4d,4},{0xaa50,0xaa59,16},{0xaa7b,0xaa7d,4},{0xaab0,0xaab0,4},{0xaab2,0xaab4,4},
{0xaab7,0xaab8,4},{0xaabe,0xaabf,4},{0xaac1,0xaac1,4},{0xaae0,0xaaea,10},{0xaaeb,0xaaef,4},{0xaaf2,0xaaf4,10},
{0xaaf5,0xaaf6,4},{0xab01,0xab06,10},{0xab09,0xab0e,10},{0xab11,0xab16,10},{0xab20,0xab26,10},{0xab28,0xab2e,10},
{0xab30,0xab69,10},{0xab70,0xabe2,10},{0xabe3,0xabea,4},{0xabec,0xabed,4},{0xabf0,0xabf9,16},{0xac00,0xd7a3,10},
{0xd7b0,0xd7c6,10},{0xd7cb,0xd7fb,10},{0xfb00,0xfb06,10},{0xfb13,0xfb17,10},{0xfb1d,0xfb1d,9},{0xfb1e,0xfb1e,4},
{0xfb1f,0xfb28,9},{0xfb2a,0xfb36,9},{0xfb38,0xfb3c,9},{0xfb3e,0xfb3e,9},{0xfb40,0xfb41,9},{0xfb43,0xfb44,9},
{0xfb46,0xfb4f,9},{0xfb50,0xfbb1,10},{0xfbd3,0xfd3d,10},{0xfd50,0xfd8f,10},{0xfd92,0xfdc7,10},{0xfdf0,0xfdfb,10},
{0xfe00,0xfe0f,4},{0xfe10,0xfe10,15},{0xfe13,0xfe13,14},{0xfe14,0xfe14,15},{0xfe20,0xfe2f,4},{0xfe33,0xfe34,17},
{0xfe4d,0xfe4f,17},{0xfe50,0xfe50,15},{0xfe52,0xfe52,13},{0xfe54,0xfe54,15},{0xfe55,0xfe55,14},{0xfe70,0xfe74,10},
{0xfe76,0xfefc,10},{0xfeff,0xfeff,7},{0xff07,0xff07,13},{0xff0c,0xff0c,15},{0xff0e,0xff0e,13},{0xff10,0xff19,16},
{0xff1a,0xff1a,14},{0xff1b,0xff1b,15},{0xff21,0xff3a,10},{0xff3f,0xff3f,17},{0xff41,0xff5a,10},{0xff66,0xff9d,8},
{0xff9e,0xff9f,4},{0xffa0,0xffbe,10},{0xffc2,0xffc7,10},{0xffca,0xffcf,10},{0xffd2,0xffd7,10},{0xffda,0xffdc,10},
{0xfff9,0xfffb,7},{0x10000,0x1000b,10},{0x1000d,0x10026,10},{0x10028,0x1003a,10},{0x1003c,0x1003d,10},{0x1003f,0x1004d,10},
{0x10050,0x1005d,10},{0x10080,0x100fa,10},{0x10140,0x10174,10},{0x101fd,0x101fd,4},{0x10280,0x1029c,10},{0x102a0,0x102d0,10},
{0x102e0,0x102e0,4},{0x10300,0x1031f,10},{0x1032d,0x1034a,10},{0x10350,0x10375,10},{0x10376,0x1037a,4},{0x10380,0x1039d,10},
{0x103a0,0x103c3,10},{0x103c8,0x103cf,10},{0x103d1,0x103d5,10},{0x10400,0x1049d,10},{0x104a0,0x104a9,16},{0x104b0,0x104d3,10},
{0x104d8,0x104fb,10},{0x10500,0x10527,10},{0x10530,0x10563,10},{0x10570,0x1057a,10},{0x1057c,0x1058a,10},{0x1058c,0x10592,10},
{0x10594,0x10595,10},{0x10597,0x105a1,10},{0x105a3,0x105b1,10},{0x105b3,0x105b9,10},{0x105bb,0x105bc,10},{0x10600,0x10736,10},
{0x10740,0x10755,10},{0x10760,0x10767,10},{0x10780,0x10785,10},{0x10787,0x107b0,10},{0x107b2,0x107ba,10},{0x10800,0x10805,10},
{0x10808,0x10808,10},{0x1080a,0x10835,10},{0x10837,0x10838,10},{0x1083c,0x1083c,10},{0x1083f,0x10855,10},{0x10860,0x10876,10},
{0x10880,0x1089e,10},{0x108e0,0x108f2,10},{0x108f4,0x108f5,10},{0x10900,0x10915,10},{0x10920,0x10939,10},{0x10980,0x109b7,10},
{0x109be,0x109bf,10},{0x10a00,0x10a00,10},{0x10a01,0x10a03,4},{0x10a05,0x10a06,4},{0x10a0c,0x10a0f,4},{0x10a10,0x10a13,10},
{0x10a15,0x10a17,10},{0x10a19,0x10a35,10},{0x10a38,0x10a3a,4},{0x10a3f,0x10a3f,4},{0x10a60,0x10a7c,10},{0x10a80,0x10a9c,10},
{0x10ac0,0x10ac7,10},{0x10ac9,0x10ae4,10},{0x10ae5,0x10ae6,4},{0x10b00,0x10b35,10},{0x10b40,0x10b55,10},{0x10b60,0x10b72,10},
{0x10b80,0x10b91,10},{0x10c00,0x10c48,10},{0x10c80,0x10cb2,10},{0x10cc0,0x10cf2,10},{0x10d00,0x10d23,10},{0x10d24,0x10d27,4},
{0x10d30,0x10d39,16},{0x10e80,0x10ea9,10},{0x10eab,0x10eac,4},{0x10eb0,0x10eb1,10},{0x10efd,0x10eff,4},{0x10f00,0x10f1c,10},
{0x10f27,0x10f27,10},{0x10f30,0x10f45,10},{0x10f46,0x10f50,4},{0x10f70,0x10f81,10},{0x10f82,0x10f85,4},{0x10fb0,0x10fc4,10},
{0x10fe0,0x10ff6,10},{0x11000,0x11002,4},{0x11003,0x11037,10},{0x11038,0x11046,4},{0x11066,0x1106f,16},{0x11070,0x11070,4},
{0x11071,0x11072,10},{0x11073,0x11074,4},{0x11075,0x11075,10},{0x1107f,0x11082,4},{0x11083,0x110af,10},{0x110b0,0x110ba,4},
{0x110bd,0x110bd,7},{0x110c2,0x110c2,4},{0x110cd,0x110cd,7},{0x110d0,0x110e8,10},{0x110f0,0x110f9,16},{0x11100,0x11102,4},
{0x11103,0x11126,10},{0x11127,0x11134,4},{0x11136,0x1113f,16},{0x11144,0x11144,10},{0x11145,0x11146,4},{0x11147,0x11147,10},
{0x11150,0x11172,10},{0x11173,0x11173,4},{0x11176,0x11176,10},{0x11180,0x11182,4},{0x11183,0x111b2,10},{0x111b3,0x111c0,4},
{0x111c1,0x111c4,10},{0x111c9,0x111cc,4},{0x111ce,0x111cf,4},{0x111d0,0x111d9,16},{0x111da,0x111da,10},{0x111dc,0x111dc,10},
{0x11200,0x11211,10},{0x11213,0x1122b,10},{0x1122c,0x11237,4},{0x1123e,0x1123e,4},{0x1123f,0x11240,10},{0x11241,0x11241,4},
{0x11280,0x11286,10},{0x11288,0x11288,10},{0x1128a,0x1128d,10},{0x1128f,0x1129d,10},{0x1129f,0x112a8,10},{0x112b0,0x112de,10},
{0x112df,0x112ea,4},{0x112f0,0x112f9,16},{0x11300,0x11303,4},{0x11305,0x1130c,10},{0x1130f,0x11310,10},{0x11313,0x11328,10},
{0x1132a,0x11330,10},{0x11332,0x11333,10},{0x11335,0x11339,10},{0x1133b,0x1133c,4},{0x1133d,0x1133d,10},{0x1133e,0x11344,4},
{0x11347,0x11348,4},{0x1134b,0x1134d,4},{0x11350,0x11350,10},{0x11357,0x11357,4},{0x1135d,0x11361,10},{0x11362,0x11363,4},
{0x11366,0x1136c,4},{0x11370,0x11374,4},{0x11400,0x11434,10},{0x11435,0x11446,4},{0x11447,0x1144a,10},{0x11450,0x11459,16},
{0x1145e,0x1145e,4},{0x1145f,0x11461,10},{0x11480,0x114af,10},{0x114b0,0x114c3,4},{0x114c4,0x114c5,10},{0x114c7,0x114c7,10},
{0x114d0,0x114d9,16},{0x11580,0x115ae,10},{0x115af,0x115b5,4},{0x115b8,0x115c0,4},{0x115d8,0x115db,10},{0x115dc,0x115dd,4},
{0x11600,0x1162f,10},{0x11630,0x11640,4},{0x11644,0x11644,10},{0x11650,0x11659,16},{0x11680,0x116aa,10},{0x116ab,0x116b7,4},
{0x116b8,0x116b8,10},{0x116c0,0x116c9,16},{0x1171d,0x1172b,4},{0x11730,0x11739,16},{0x11800,0x1182b,10},{0x1182c,0x1183a,4},
{0x118a0,0x118df,10},{0x118e0,0x118e9,16},{0x118ff,0x11906,10},{0x11909,0x11909,10},{0x1190c,0x11913,10},{0x11915,0x11916,10},
{0x11918,0x1192f,10},{0x11930,0x11935,4},{0x11937,0x11938,4},{0x1193b,0x1193e,4},{0x1193f,0x1193f,10},{0x11940,0x11940,4},
{0x11941,0x11941,10},{0x11942,0x11943,4},{0x11950,0x11959,16},{0x119a0,0x119a7,10},{0x119aa,0x119d0,10},{0x119d1,0x119d7,4},
{0x119da,0x119e0,4},{0x119e1,0x119e1,10},{0x119e3,0x119e3,10},{0x119e4,0x119e4,4},{0x11a00,0x11a00,10},{0x11a01,0x11a0a,4},
{0x11a0b,0x11a32,10},{0x11a33,0x11a39,4},{0x11a3a,0x11a3a,10},{0x11a3b,0x11a3e,4},{0x11a47,0x11a47,4},{0x11a50,0x11a50,10},
{0x11a51,0x11a5b,4},{0x11a5c,0x11a89,10},{0x11a8a,0x11a99,4},{0x11a9d,0x11a9d,10},{0x11ab0,0x11af8,10},{0x11c00,0x11c08,10},
{0x11c0a,0x11c2e,10},{0x11c2f,0x11c36,4},{0x11c38,0x11c3f,4},{0x11c40,0x11c40,10},{0x11c50,0x11c59,16},{0x11c72,0x11c8f,10},
{0x11c92,0x11ca7,4},{0x11ca9,0x11cb6,4},{0x11d00,0x11d06,10},{0x11d08,0x11d09,10},{0x11d0b,0x11d30,10},{0x11d31,0x11d36,4},
{0x11d3a,0x11d3a,4},{0x11d3c,0x11d3d,4},{0x11d3f,0x11d45,4},{0x11d46,0x11d46,10},{0x11d47,0x11d47,4},{0x11d50,0x11d59,16},
{0x11d60,0x11d65,10},{0x11d67,0x11d68,10},{0x11d6a,0x11d89,10},{0x11d8a,0x11d8e,4},{0x11d90,0x11d91,4},{0x11d93,0x11d97,4},
{0x11d98,0x11d98,10},{0x11da0,0x11da9,16},{0x11ee0,0x11ef2,10},{0x11ef3,0x11ef6,4},{0x11f00,0x11f01,4},{0x11f02,0x11f02,10},
{0x11f03,0x11f03,4},{0x11f04,0x11f10,10},{0x11f12,0x11f33,10},{0x11f34,0x11f3a,4},{0x11f3e,0x11f42,4},{0x11f50,0x11f59,16},
{0x11fb0,0x11fb0,10},{0x12000,0x12399,10},{0x12400,0x1246e,10},{0x12480,0x12543,10},{0x12f90,0x12ff0,10},{0x13000,0x1342f,10},
{0x13430,0x1343f,7},{0x13440,0x13440,4},{0x13441,0x13446,10},{0x13447,0x13455,4},{0x14400,0x14646,10},{0x16800,0x16a38,10},
{0x16a40,0x16a5e,10},{0x16a60,0x16a69,16},{0x16a70,0x16abe,10},{0x16ac0,0x16ac9,16},{0x16ad0,0x16aed,10},{0x16af0,0x16af4,4},
{0x16b00,0x16b2f,10},{0x16b30,0x16b36,4},{0x16b40,0x16b43,10},{0x16b50,0x16b59,16},{0x16b63,0x16b77,10},{0x16b7d,0x16b8f,10},
{0x16e40,0x16e7f,10},{0x16f00,0x16f4a,10},{0x16f4f,0x16f4f,4},{0x16f50,0x16f50,10},{0x16f51,0x16f87,4},{0x16f8f,0x16f92,4},
{0x16f93,0x16f9f,10},{0x16fe0,0x16fe1,10},{0x16fe3,0x16fe3,10},{0x16fe4,0x16fe4,4},{0x16ff0,0x16ff1,4},{0x1aff0,0x1aff3,8},
{0x1aff5,0x1affb,8},{0x1affd,0x1affe,8},{0x1b000,0x1b000,8},{0x1b120,0x1b122,8},{0x1b155,0x1b155,8},{0x1b164,0x1b167,8},
{0x1bc00,0x1bc6a,10},{0x1bc70,0x1bc7c,10},{0x1bc80,0x1bc88,10},{0x1bc90,0x1bc99,10},{0x1bc9d,0x1bc9e,4},{0x1bca0,0x1bca3,7},
{0x1cf00,0x1cf2d,4},{0x1cf30,0x1cf46,4},{0x1d165,0x1d169,4},{0x1d16d,0x1d172,4},{0x1d173,0x1d17a,7},{0x1d17b,0x1d182,4},
{0x1d185,0x1d18b,4},{0x1d1aa,0x1d1ad,4},{0x1d242,0x1d244,4},{0x1d400,0x1d454,10},{0x1d456,0x1d49c,10},{0x1d49e,0x1d49f,10},
{0x1d4a2,0x1d4a2,10},{0x1d4a5,0x1d4a6,10},{0x1d4a9,0x1d4ac,10},{0x1d4ae,0x1d4b9,10},{0x1d4bb,0x1d4bb,10},{0x1d4bd,0x1d4c3,10},
{0x1d4c5,0x1d505,10},{0x1d507,0x1d50a,10},{0x1d50d,0x1d514,10},{0x1d516,0x1d51c,10},{0x1d51e,0x1d539,10},{0x1d53b,0x1d53e,10},
{0x1d540,0x1d544,10},{0x1d546,0x1d546,10},{0x1d54a,0x1d550,10},{0x1d552,0x1d6a5,10},{0x1d6a8,0x1d6c0,10},{0x1d6c2,0x1d6da,10},
{0x1d6dc,0x1d6fa,10},{0x1d6fc,0x1d714,10},{0x1d716,0x1d734,10},{0x1d736,0x1d74e,10},{0x1d750,0x1d76e,10},{0x1d770,0x1d788,10},
{0x1d78a,0x1d7a8,10},{0x1d7aa,0x1d7c2,10},{0x1d7c4,0x1d7cb,10},{0x1d7ce,0x1d7ff,16},{0x1da00,0x1da36,4},{0x1da3b,0x1da6c,4},
{0x1da75,0x1da75,4},{0x1da84,0x1da84,4},{0x1da9b,0x1da9f,4},{0x1daa1,0x1daaf,4},{0x1df00,0x1df1e,10},{0x1df25,0x1df2a,10},
{0x1e000,0x1e006,4},{0x1e008,0x1e018,4},{0x1e01b,0x1e021,4},{0x1e023,0x1e024,4},{0x1e026,0x1e02a,4},{0x1e030,0x1e06d,10},
{0x1e08f,0x1e08f,4},{0x1e100,0x1e12c,10},{0x1e130,0x1e136,4},{0x1e137,0x1e13d,10},{0x1e140,0x1e149,16},{0x1e14e,0x1e14e,10},
{0x1e290,0x1e2ad,10},{0x1e2ae,0x1e2ae,4},{0x1e2c0,0x1e2eb,10},{0x1e2ec,0x1e2ef,4},{0x1e2f0,0x1e2f9,16},{0x1e4d0,0x1e4eb,10},
{0x1e4ec,0x1e4ef,4},{0x1e4f0,0x1e4f9,16},{0x1e7e0,0x1e7e6,10},{0x1e7e8,0x1e7eb,10},{0x1e7ed,0x1e7ee,10},{0x1e7f0,0x1e7fe,10},
{0x1e800,0x1e8c4,10},{0x1e8d0,0x1e8d6,4},{0x1e900,0x1e943,10},{0x1e944,0x1e94a,4},{0x1e94b,0x1e94b,10},{0x1e950,0x1e959,16},
{0x1ee00,0x1ee03,10},{0x1ee05,0x1ee1f,10},{0x1ee21,0x1ee22,10},{0x1ee24,0x1ee24,10},{0x1ee27,0x1ee27,10},{0x1ee29,0x1ee32,10},
{0x1ee34,0x1ee37,10},{0x1ee39,0x1ee39,10},{0x1ee3b,0x1ee3b,10},{0x1ee42,0x1ee42,10},{0x1ee47,0x1ee47,10},{0x1ee49,0x1ee49,10},
{0x1ee4b,0x1ee4b,10},{0x1ee4d,0x1ee4f,10},{0x1ee51,0x1ee52,10},{0x1ee54,0x1ee54,10},{0x1ee57,0x1ee57,10},{0x1ee59,0x1ee59,10},
{0x1ee5b,0x1ee5b,10},{0x1ee5d,0x1ee5d,10},{0x1ee5f,0x1ee5f,10},{0x1ee61,0x1ee62,10},{0x1ee64,0x1ee64,10},{0x1ee67,0x1ee6a,10},
{0x1ee6c,0x1ee72,10},{0x1ee74,0x1ee77,10},{0x1ee79,0x1ee7c,10},{0x1ee7e,0x1ee7e,10},{0x1ee80,0x1ee89,10},{0x1ee8b,0x1ee9b,10},
{0x1eea1,0x1eea3,10},{0x1eea5,0x1eea9,10},{0x1eeab,0x1eebb,10},{0x1f000,0x1f0ff,19},{0x1f10d,0x1f10f,19},{0x1f12f,0x1f12f,19},
{0x1f130,0x1f149,10},{0x1f150,0x1f169,10},{0x1f16c,0x1f16f,19},{0x1f170,0x1f171,20},{0x1f172,0x1f17d,10},{0x1f17e,0x1f17f,20},
{0x1f180,0x1f189,10},{0x1f18e,0x1f18e,19},{0x1f191,0x1f19a,19},{0x1f1ad,0x1f1e5,19},{0x1f1e6,0x1f1ff,6},{0x1f201,0x1f20f,19},
{0x1f21a,0x1f21a,19},{0x1f22f,0x1f22f,19},{0x1f232,0x1f23a,19},{0x1f23c,0x1f23f,19},{0x1f249,0x1f3fa,19},{0x1f3fb,0x1f3ff,4},
{0x1f400,0x1f53d,19},{0x1f546,0x1f64f,19},{0x1f680,0x1f6ff,19},{0x1f774,0x1f77f,19},{0x1f7d5,0x1f7ff,19},{0x1f80c,0x1f80f,19},
{0x1f848,0x1f84f,19},{0x1f85a,0x1f85f,19},{0x1f888,0x1f88f,19},{0x1f8ae,0x1f8ff,19},{0x1f90c,0x1f93a,19},{0x1f93c,0x1f945,19},
{0x1f947,0x1faff,19},{0x1fbf0,0x1fbf9,16},{0x1fc00,0x1fffd,19},{0xe0001,0xe0001,7},{0xe0020,0xe007f,4},{0xe0100,0xe01ef,4},

};
enum sb_class {S_Other,S_CR,S_LF,S_Extend,S_Sep,S_Format,S_Sp,S_Lower,S_Upper,S_OLetter,S_Numeric,S_ATerm,S_SContinue,S_STerm,S_Close, S_NUM};
static const char *const sb_names[] = {"Other","CR","LF","Extend","Sep","Format","Sp","Lower","Upper","OLetter","Numeric","ATerm","SContinue","STerm","Close"};
static const struct ref_range sb_ranges[] = {
{0x9,0x9,6},{0xa,0xa,2},{0xb,0xc,6},{0xd,0xd,1},{0x20,0x20,6},{0x21,0x21,13},
{0x22,0x22,14},{0x27,0x29,14},{0x2c,0x2d,12},{0x2e,0x2e,11},{0x30,0x39,10},{0x3a,0x3a,12},
{0x3f,0x3f,13},{0x41,0x5a,8},{0x5b,0x5b,14},{0x5d,0x5d,14},{0x61,0x7a,7},{0x7b,0x7b,14},
{0x7d,0x7d,14},{0x85,0x85,4},{0xa0,0xa0,6},{0xaa,0xaa,7},{0xab,0xab,14},{0xad,0xad,5},
{0xb5,0xb5,7},{0xba,0xba,7},{0xbb,0xbb,14},{0xc0,0xd6,8},{0xd8,0xde,8},{0xdf,0xf6,7},
{0xf8,0xff,7},{0x100,0x100,8},{0x101,0x101,7},{0x102,0x102,8},{0x103,0x103,7},{0x104,0x104,8},
{0x105,0x105,7},{0x106,0x106,8},{0x107,0x107,7},{0x108,0x108,8},{0x109,0x109,7},{0x10a,0x10a,8},
{0x10b,0x10b,7},{0x10c,0x10c,8},{0x10d,0x10d,7},{0x10e,0x10e,8},{0x10f,0x10f,7},{0x110,0x110,8},
{0x111,0x111,7},{0x112,0x112,8},{0x113,0x113,7},{0x114,0x114,8},{0x115,0x115,7},{0x116,0x116,8},
{0x117,0x117,7},{0x118,0x118,8},{0x119,0x119,7},{0x11a,0x11a,8},{0x11b,0x11b,7},{0x11c,0x11c,8},
{0x11d,0x11d,7},{0x11e,0x11e,8},{0x11f,0x11f,7},{0x120,0x120,8},{0x121,0x121,7},{0x122,0x122,8},
{0x123,0x123,7},{0x124,0x124,8},{0x125,0x125,7},{0x126,0x126,8},{0x127,0x127,7},{0x128,0x128,8},
{0x129,0x129,7},{0x12a,0x12a,8},{0x12b,0x12b,7},{0x12c,0x12c,8},{0x12d,0x12d,7},{0x12e,0x12e,8},
{0x12f,0x12f,7},{0x130,0x130,8},{0x131,0x131,7},{0x132,0x132,8},{0x133,0x133,7},{0x134,0x134,8},
{0x135,0x135,7},{0x136,0x136,8},{0x137,0x138,7},{0x139,0x139,8},{0x13a,0x13a,7},{0x13b,0x13b,8},
{0x13c,0x13c,7},{0x13d,0x13d,8},{0x13e,0x13e,7},{0x13f,0x13f,8},{0x140,0x140,7},{0x141,0x141,8},
{0x142,0x142,7},{0x143,0x143,8},{0x144,0x144,7},{0x145,0x145,8},{0x146,0x146,7},{0x147,0x147,8},
{0x148,0x149,7},{0x14a,0x14a,8},{0x14b,0x14b,7},{0x14c,0x14c,8},{0x14d,0x14d,7},{0x14e,0x14e,8},
{0x14f,0x14f,7},{0x150,0x150,8},{0x151,0x151,7},{0x152,0x152,8},{0x153,0x153,7},{0x154,0x154,8},
{0x155,0x155,7},{0x156,0x156,8},{0x157,0x157,7},{0x158,0x158,8},{0x159,0x159,7},{0x15a,0x15a,8},
{0x15b,0x15b,7},{0x15c,0x15c,8},{0x15d,0x15d,7},{0x15e,0x15e,8},{0x15f,0x15f,7},{0x160,0x160,8},
{0x161,0x161,7},{0x162,0x162,8},{0x163,0x163,7},{0x164,0x164,8},{0x165,0x165,7},{0x166,0x166,8},
{0x167,0x167,7},{0x168,0x168,8},{0x169,0x169,7},{0x16a,0x16a,8},{0x16b,0x16b,7},{0x16c,0x16c,8},
{0x16d,0x16d,7},{0x16e,0x16e,8},{0x16f,0x16f,7},{0x170,0x170,8},{0x171,0x171,7},{0x172,0x172,8},
{0x173,0x173,7},{0x174,0x174,8},{0x175,0x175,7},{0x176,0x176,8},{0x177,0x177,7},{0x178,0x179,8},
{0x17a,0x17a,7},{0x17b,0x17b,8},{0x17c,0x17c,7},{0x17d,0x17d,8},{0x17e,0x180,7},{0x181,0x182,8},
{0x183,0x183,7},{0x184,0x184,8},{0x185,0x185,7},{0x186,0x187,8},{0x188,0x188,7},{0x189,0x18b,8},
{0x18c,0x18d,7},{0x18e,0x191,8},{0x192,0x192,7},{0x193,0x194,8},{0x195,0x195,7},{0x196,0x198,8},
{0x199,0x19b,7},{0x19c,0x19d,8},{0x19e,0x19e,7},{0x19f,0x1a0,8},{0x1a1,0x1a1,7},{0x1a2,0x1a2,8},
{0x1a3,0x1a3,7},{0x1a4,0x1a4,8},{0x1a5,0x1a5,7},{0x1a6,0x1a7,8},{0x1a8,0x1a8,7},{0x1a9,0x1a9,8},
{0x1aa,0x1ab,7},{0x1ac,0x1ac,8},{0x1ad,0x1ad,7},{0x1ae,0x1af,8},{0x1b0,0x1b0,7},{0x1b1,0x1b3,8},
{0x1b4,0x1b4,7},{0x1b5,0x1b5,8},{0x1b6,0x1b6,7},{0x1b7,0x1b8,8},{0x1b9,0x1ba,7},{0x1bb,0x1bb,9},
{0x1bc,0x1bc,8},{0x1bd,0x1bf,7},{0x1c0,0x1c3,9},{0x1c4,0x1c5,8},{0x1c6,0x1c6,7},{0x1c7,0x1c8,8},
{0x1c9,0x1c9,7},{0x1ca,0x1cb,8},{0x1cc,0x1cc,7},{0x1cd,0x1cd,8},{0x1ce,0x1ce,7},{0x1cf,0x1cf,8},
{0x1d0,0x1d0,7},{0x1d1,0x1d1,8},{0x1d2,0x1d2,7},{0x1d3,0x1d3,8},{0x1d4,0x1d4,7},{0x1d5,0x1d5,8},
{0x1d6,0x1d6,7},{0x1d7,0x1d7,8},{0x1d8,0x1d8,7},{0x1d9,0x1d9,8},{0x1da,0x1da,7},{0x1db,0x1db,8},
{0x1dc,0x1dd,7},{0x1de,0x1de,8},{0x1df,0x1df,7},{0x1e0,0x1e0,8},{0x1e1,0x1e1,7},{0x1e2,0x1e2,8},
{0x1e3,0x1e3,7},{0x1e4,0x1e4,8},{0x1e5,0x1e5,7},{0x1e6,0x1e6,8},{0x1e7,0x1e7,7},{0x1e8,0x1e8,8},
{0x1e9,0x1e9,7},{0x1ea,0x1ea,8},{0x1eb,0x1eb,7},{0x1ec,0x1ec,8},{0x1ed,0x1ed,7},{0x1ee,0x1ee,8},
{0x1ef,0x1f0,7},{0x1f1,0x1f2,8},{0x1f3,0x1f3,7},{0x1f4,0x1f4,8},{0x1f5,0x1f5,7},{0x1f6,0x1f8,8},
{0x1f9,0x1f9,7},{0x1fa,0x1fa,8},{0x1fb,0x1fb,7},{0x1fc,0x1fc,8},{0x1fd,0x1fd,7},{0x1fe,0x1fe,8},
{0x1ff,0x1ff,7},{0x200,0x200,8},{0x201,0x201,7},{0x202,0x202,8},{0x203,0x203,7},{0x204,0x204,8},
{0x205,0x205,7},{0x206,0x206,8},{0x207,0x207,7},{0x208,0x208,8},{0x209,0x209,7},{0x20a,0x20a,8},
{0x20b,0x20b,7},{0x20c,0x20c,8},{0x20d,0x20d,7},{0x20e,0x20e,8},{0x20f,0x20f,7},{0x210,0x210,8},
{0x211,0x211,7},{0x212,0x212,8},{0x213,0x213,7},{0x214,0x214,8},{0x215,0x215,7},{0x216,0x216,8},
{0x217,0x217,7},{0x218,0x218,8},{0x219,0x219,7},{0x21a,0x21a,8},{0x21b,0x21b,7},{0x21c,0x21c,8},
{0x21d,0x21d,7},{0x21e,0x21e,8},{0x21f,0x21f,7},{0x220,0x220,8},{0x221,0x221,7},{0x222,0x222,8},
{0x223,0x223,7},{0x224,0x224,8},{0x225,0x225,7},{0x226,0x226,8},{0x227,0x227,7},{0x228,0x228,8},
{0x229,0x229,7},{0x22a,0x22a,8},{0x22b,0x22b,7},{0x22c,0x22c,8},{0x22d,0x22d,7},{0x22e,0x22e,8},
{0x22f,0x22f,7},{0x230,0x230,8},{0x231,0x231,7},{0x232,0x232,8},{0x233,0x239,7},{0x23a,0x23b,8},
{0x23c,0x23c,7},{0x23d,0x23e,8},{0x23f,0x240,7},{0x241,0x241,8},{0x242,0x242,7},{0x243,0x246,8},
{0x247,0x247,7},{0x248,0x248,8},{0x249,0x249,7},{0x24a,0x24a,8},{0x24b,0x24b,7},{0x24c,0x24c,8},
{0x24d,0x24d,7},{0x24e,0x24e,8},{0x24f,0x293,7},{0x294,0x294,9},{0x295,0x2b8,7},{0x2b9,0x2bf,9},
{0x2c0,0x2c1,7},{0x2c6,0x2d1,9},{0x2e0,0x2e4,7},{0x2ec,0x2ec,9},{0x2ee,0x2ee,9},{0x300,0x36f,3},
{0x370,0x370,8},{0x371,0x371,7},{0x372,0x372,8},{0x373,0x373,7},{0x374,0x374,9},{0x376,0x376,8},
{0x377,0x377,7},{0x37a,0x37d,7},{0x37f,0x37f,8},{0x386,0x386,8},{0x388,0x38a,8},{0x38c,0x38c,8},
{0x38e,0x38f,8},{0x390,0x390,7},{0x391,0x3a1,8},{0x3a3,0x3ab,8},{0x3ac,0x3ce,7},{0x3cf,0x3cf,8},
{0x3d0,0x3d1,7},{0x3d2,0x3d4,8},{0x3d5,0x3d7,7},{0x3d8,0x3d8,8},{0x3d9,0x3d9,7},{0x3da,0x3da,8},
{0x3db,0x3db,7},{0x3dc,0x3dc,8},{0x3dd,0x3dd,7},{0x3de,0x3de,8},{0x3df,0x3df,7},{0x3e0,0x3e0,8},
{0x3e1,0x3e1,7},{0x3e2,0x3e2,8},{0x3e3,0x3e3,7},{0x3e4,0x3e4,8},{0x3e5,0x3e5,7},{0x3e6,0x3e6,8},
{0x3e7,0x3e7,7},{0x3e8,0x3e8,8},{0x3e9,0x3e9,7},{0x3ea,0x3ea,8},{0x3eb,0x3eb,7},{0x3ec,0x3ec,8},
{0x3ed,0x3ed,7},{0x3ee,0x3ee,8},{0x3ef,0x3f3,7},{0x3f4,0x3f4,8},{0x3f5,0x3f5,7},{0x3f7,0x3f7,8},
{0x3f8,0x3f8,7},{0x3f9,0x3fa,8},{0x3fb,0x3fc,7},{0x3fd,0x42f,8},{0x430,0x45f,7},{0x460,0x460,8},
{0x461,0x461,7},{0x462,0x462,8},{0x463,0x463,7},{0x464,0x464,8},{0x465,0x465,7},{0x466,0x466,8},
{0x467,0x467,7},{0x468,0x468,8},{0x469,0x469,7},{0x46a,0x46a,8},{0x46b,0x46b,7},{0x46c,0x46c,8},
{0x46d,0x46d,7},{0x46e,0x46e,8},{0x46f,0x46f,7},{0x470,0x470,8},{0x471,0x471,7},{0x472,0x472,8},
{0x473,0x473,7},{0x474,0x474,8},{0x475,0x475,7},{0x476,0x476,8},{0x477,0x477,7},{0x478,0x478,8},
{0x479,0x479,7},{0x47a,0x47a,8},{0x47b,0x47b,7},{0x47c,0x47c,8},{0x47d,0x47d,7},{0x47e,0x47e,8},
{0x47f,0x47f,7},{0x480,0x480,8},{0x481,0x481,7},{0x483,0x489,3},{0x48a,0x48a,8},{0x48b,0x48b,7},
{0x48c,0x48c,8},{0x48d,0x48d,7},{0x48e,0x48e,8},{0x48f,0x48f,7},{0x490,0x490,8},{0x491,0x491,7},
{0x492,0x492,8},{0x493,0x493,7},{0x494,0x494,8},{0x495,0x495,7},{0x496,0x496,8},{0x497,0x497,7},
{0x498,0x498,8},{0x499,0x499,7},{0x49a,0x49a,8},{0x49b,0x49b,7},{0x49c,0x49c,8},{0x49d,0x49d,7},
{0x49e,0x49e,8},{0x49f,0x49f,7},{0x4a0,0x4a0,8},{0x4a1,0x4a1,7},{0x4a2,0x4a2,8},{0x4a3,0x4a3,7},
{0x4a4,0x4a4,8},{0x4a5,0x4a5,7},{0x4a6,0x4a6,8},{0x4a7,0x4a7,7},{0x4a8,0x4a8,8},{0x4a9,0x4a9,7},
{0x4aa,0x4aa,8},{0x4ab,0x4ab,7},{0x4ac,0x4ac,8},{0x4ad,0x4ad,7},{0x4ae,0x4ae,8},{0x4af,0x4af,7},
{0x4b0,0x4b0,8},{0x4b1,0x4b1,7},{0x4b2,0x4b2,8},{0x4b3,0x4b3,7},{0x4b4,0x4b4,8},{0x4b5,0x4b5,7},
{0x4b6,0x4b6,8},{0x4b7,0x4b7,7},{0x4b8,0x4b8,8},{0x4b9,0x4b9,7},{0x4ba,0x4ba,8},{0x4bb,0x4bb,7},
{0x4bc,0x4bc,8},{0x4bd,0x4bd,7},{0x4be,0x4be,8},{0x4bf,0x4bf,7},{0x4c0,0x4c1,8},{0x4c2,0x4c2,7},
{0x4c3,0x4c3,8},{0x4c4,0x4c4,7},{0x4c5,0x4c5,8},{0x4c6,0x4c6,7},{0x4c7,0x4c7,8},{0x4c8,0x4c8,7},
{0x4c9,0x4c9,8},{0x4ca,0x4ca,7},{0x4cb,0x4cb,8},{0x4cc,0x4cc,7},{0x4cd,0x4cd,8},{0x4ce,0x4cf,7},
{0x4d0,0x4d0,8},{0x4d1,0x4d1,7},{0x4d2,0x4d2,8},{0x4d3,0x4d3,7},{0x4d4,0x4d4,8},{0x4d5,0x4d5,7},
{0x4d6,0x4d6,8},{0x4d7,0x4d7,7},{0x4d8,0x4d8,8},{0x4d9,0x4d9,7},{0x4da,0x4da,8},{0x4db,0x4db,7},
{0x4dc,0x4dc,8},{0x4dd,0x4dd,7},{0x4de,0x4de,8},{0x4df,0x4df,7},{0x4e0,0x4e0,8},{0x4e1,0x4e1,7},
{0x4e2,0x4e2,8},{0x4e3,0x4e3,7},{0x4e4,0x4e4,8},{0x4e5,0x4e5,7},{0x4e6,0x4e6,8},{0x4e7,0x4e7,7},
{0x4e8,0x4e8,8},{0x4e9,0x4e9,7},{0x4ea,0x4ea,8},{0x4eb,0x4eb,7},{0x4ec,0x4ec,8},{0x4ed,0x4ed,7},
{0x4ee,0x4ee,8},{0x4ef,0x4ef,7},{0x4f0,0x4f0,8},{0x4f1,0x4f1,7},{0x4f2,0x4f2,8},{0x4f3,0x4f3,7},
{0x4f4,0x4f4,8},{0x4f5,0x4f5,7},{0x4f6,0x4f6,8},{0x4f7,0x4f7,7},{0x4f8,0x4f8,8},{0x4f9,0x4f9,7},
{0x4fa,0x4fa,8},{0x4fb,0x4fb,7},{0x4fc,0x4fc,8},{0x4fd,0x4fd,7},{0x4fe,0x4fe,8},{0x4ff,0x4ff,7},
{0x500,0x500,8},{0x501,0x501,7},{0x502,0x502,8},{0x503,0x503,7},{0x504,0x504,8},{0x505,0x505,7},
{0x506,0x506,8},{0x507,0x507,7},{0x508,0x508,8},{0x509,0x509,7},{0x50a,0x50a,8},{0x50b,0x50b,7},
{0x50c,0x50c,8},{0x50d,0x50d,7},{0x50e,0x50e,8},{0x50f,0x50f,7},{0x510,0x510,8},{0x511,0x511,7},
{0x512,0x512,8},{0x513,0x513,7},{0x514,0x514,8},{0x515,0x515,7},{0x516,0x516,8},{0x517,0x517,7},
{0x518,0x518,8},{0x519,0x519,7},{0x51a,0x51a,8},{0x51b,0x51b,7},{0x51c,0x51c,8},{0x51d,0x51d,7},
{0x51e,0x51e,8},{0x51f,0x51f,7},{0x520,0x520,8},{0x521,0x521,7},{0x522,0x522,8},{0x523,0x523,7},
{0x524,0x524,8},{0x525,0x525,7},{0x526,0x526,8},{0x527,0x527,7},{0x528,0x528,8},{0x529,0x529,7},
{0x52a,0x52a,8},{0x52b,0x52b,7},{0x52c,0x52c,8},{0x52d,0x52d,7},{0x52e,0x52e,8},{0x52f,0x52f,7},
{0x531,0x556,8},{0x559,0x559,9},{0x55d,0x55d,12},{0x560,0x588,7},{0x589,0x589,13},{0x591,0x5bd,3},
{0x5bf,0x5bf,3},{0x5c1,0x5c2,3},{0x5c4,0x5c5,3},{0x5c7,0x5c7,3},{0x5d0,0x5ea,9},{0x5ef,0x5f3,9},
{0x600,0x605,5},{0x60c,0x60d,12},{0x610,0x61a,3},{0x61c,0x61c,5},{0x61d,0x61f,13},{0x620,0x64a,9},
{0x64b,0x65f,3},{0x660,0x669,10},{0x66b,0x66c,10},{0x66e,0x66f,9},{0x670,0x670,3},{0x671,0x6d3,9},
{0x6d4,0x6d4,13},{0x6d5,0x6d5,9},{0x6d6,0x6dc,3},{0x6dd,0x6dd,5},{0x6df,0x6e4,3},{0x6e5,0x6e6,9},
{0x6e7,0x6e8,3},{0x6ea,0x6ed,3},{0x6ee,0x6ef,9},{0x6f0,0x6f9,10},{0x6fa,0x6fc,9},{0x6ff,0x6ff,9},
{0x700,0x702,13},{0x70f,0x70f,5},{0x710,0x710,9},{0x711,0x711,3},{0x712,0x72f,9},{0x730,0x74a,3},
{0x74d,0x7a5,9},{0x7a6,0x7b0,3},{0x7b1,0x7b1,9},{0x7c0,0x7c9,10},{0x7ca,0x7ea,9},{0x7eb,0x7f3,3},
{0x7f4,0x7f5,9},{0x7f8,0x7f8,12},{0x7f9,0x7f9,13},{0x7fa,0x7fa,9},{0x7fd,0x7fd,3},{0x800,0x815,9},
{0x816,0x819,3},{0x81a,0x81a,9},{0x81b,0x823,3},{0x824,0x824,9},{0x825,0x827,3},{0x828,0x828,9},
{0x829,0x82d,3},{0x837,0x837,13},{0x839,0x839,13},{0x83d,0x83e,13},{0x840,0x858,9},{0x859,0x85b,3},
{0x860,0x86a,9},{0x870,0x887,9},{0x889,0x88e,9},{0x890,0x891,5},{0x898,0x89f,3},{0x8a0,0x8c9,9},
{0x8ca,0x8e1,3},{0x8e2,0x8e2,5},{0x8e3,0x903,3},{0x904,0x939,9},{0x93a,0x93c,3},{0x93d,0x93d,9},
{0x93e,0x94f,3},{0x950,0x950,9},{0x951,0x957,3},{0x958,0x961,9},{0x962,0x963,3},{0x964,0x965,13},
{0x966,0x96f,10},{0x971,0x980,9},{0x981,0x983,3},{0x985,0x98c,9},{0x98f,0x990,9},{0x993,0x9a8,9},
{0x9aa,0x9b0,9},{0x9b2,0x9b2,9},{0x9b6,0x9b9,9},{0x9bc,0x9bc,3},{0x9bd,0x9bd,9},{0x9be,0x9c4,3},
{0x9c7,0x9c8,3},{0x9cb,0x9cd,3},{0x9ce,0x9ce,9},{0x9d7,0x9d7,3},{0x9dc,0x9dd,9},{0x9df,0x9e1,9},
{0x9e2,0x9e3,3},{0x9e6,0x9ef,10},{0x9f0,0x9f1,9},{0x9fc,0x9fc,9},{0x9fe,0x9fe,3},{0xa01,0xa03,3},
{0xa05,0xa0a,9},{0xa0f,0xa10,9},{0xa13,0xa28,9},{0xa2a,0xa30,9},{0xa32,0xa33,9},{0xa35,0xa36,9},
{0xa38,0xa39,9},{0xa3c,0xa3c,3},{0xa3e,0xa42,3},{0xa47,0xa48,3},{0xa4b,0xa4d,3},{0xa51,0xa51,3},
{0xa59,0xa5c,9},{0xa5e,0xa5e,9},{0xa66,0xa6f,10},{0xa70,0xa71,3},{0xa72,0xa74,9},{0xa75,0xa75,3},
{0xa81,0xa83,3},{0xa85,0xa8d,9},{0xa8f,0xa91,9},{0xa93,0xaa8,9},{0xaaa,0xab0,9},{0xab2,0xab3,9},
{0xab5,0xab9,9},{0xabc,0xabc,3},{0xabd,0xabd,9},{0xabe,0xac5,3},{0xac7,0xac9,3},{0xacb,0xacd,3},
{0xad0,0xad0,9},{0xae0,0xae1,9},{0xae2,0xae3,3},{0xae6,0xaef,10},{0xaf9,0xaf9,9},{0xafa,0xaff,3},
{0xb01,0xb03,3},{0xb05,0xb0c,9},{0xb0f,0xb10,9},{0xb13,0xb28,9},{0xb2a,0xb30,9},{0xb32,0xb33,9},
{0xb35,0xb39,9},{0xb3c,0xb3c,3},{0xb3d,0xb3d,9},{0xb3e,0xb44,3},{0xb47,0xb48,3},{0xb4b,0xb4d,3},
{0xb55,0xb57,3},{0xb5c,0xb5d,9},{0xb5f,0xb61,9},{0xb62,0xb63,3},{0xb66,0xb6f,10},{0xb71,0xb71,9},
{0xb82,0xb82,3},{0xb83,0xb83,9},{0xb85,0xb8a,9},{0xb8e,0xb90,9},{0xb92,0xb95,9},{0xb99,0xb9a,9},
{0xb9c,0xb9c,9},{0xb9e,0xb9f,9},{0xba3,0xba4,9},{0xba8,0xbaa,9},{0xbae,0xbb9,9},{0xbbe,0xbc2,3},
{0xbc6,0xbc8,3},{0xbca,0xbcd,3},{0xbd0,0xbd0,9},{0xbd7,0xbd7,3},{0xbe6,0xbef,10},{0xc00,0xc04,3},
{0xc05,0xc0c,9},{0xc0e,0xc10,9},{0xc12,0xc28,9},{0xc2a,0xc39,9},{0xc3c,0xc3c,3},{0xc3d,0xc3d,9},
{0xc3e,0xc44,3},{0xc46,0xc48,3},{0xc4a,0xc4d,3},{0xc55,0xc56,3},{0xc58,0xc5a,9},{0xc5d,0xc5d,9},
{0xc60,0xc61,9},{0xc62,0xc63,3},{0xc66,0xc6f,10},{0xc80,0xc80,9},{0xc81,0xc83,3},{0xc85,0xc8c,9},
{0xc8e,0xc90,9},{0xc92,0xca8,9},{0xcaa,0xcb3,9},{0xcb5,0xcb9,9},{0xcbc,0xcbc,3},{0xcbd,0xcbd,9},
{0xcbe,0xcc4,3},{0xcc6,0xcc8,3},{0xcca,0xccd,3},{0xcd5,0xcd6,3},{0xcdd,0xcde,9},{0xce0,0xce1,9},
{0xce2,0xce3,3},{0xce6,0xcef,10},{0xcf1,0xcf2,9},{0xcf3,0xcf3,3},{0xd00,0xd03,3},{0xd04,0xd0c,9},
{0xd0e,0xd10,9},{0xd12,0xd3a,9},{0xd3b,0xd3c,3},{0xd3d,0xd3d,9},{0xd3e,0xd44,3},{0xd46,0xd48,3},
{0xd4a,0xd4d,3},{0xd4e,0xd4e,9},{0xd54,0xd56,9},{0xd57,0xd57,3},{0xd5f,0xd61,9},{0xd62,0xd63,3},
{0xd66,0xd6f,10},{0xd7a,0xd7f,9},{0xd81,0xd83,3},{0xd85,0xd96,9},{0xd9a,0xdb1,9},{0xdb3,0xdbb,9},
{0xdbd,0xdbd,9},{0xdc0,0xdc6,9},{0xdca,0xdca,3},{0xdcf,0xdd4,3},{0xdd6,0xdd6,3},{0xdd8,0xddf,3},
{0xde6,0xdef,10},{0xdf2,0xdf3,3},{0xe01,0xe30,9},{0xe31,0xe31,3},{0xe32,0xe33,9},{0xe34,0xe3a,3},
{0xe40,0xe46,9},{0xe47,0xe4e,3},{0xe50,0xe59,10},{0xe81,0xe82,9},{0xe84,0xe84,9},{0xe86,0xe8a,9},
{0xe8c,0xea3,9},{0xea5,0xea5,9},{0xea7,0xeb0,9},{0xeb1,0xeb1,3},{0xeb2,0xeb3,9},{0xeb4,0xebc,3},
{0xebd,0xebd,9},{0xec0,0xec4,9},{0xec6,0xec6,9},{0xec8,0xece,3},{0xed0,0xed9,10},{0xedc,0xedf,9},
{0xf00,0xf00,9},{0xf18,0xf19,3},{0xf20,0xf29,10},{0xf35,0xf35,3},{0xf37,0xf37,3},{0xf39,0xf39,3},
{0xf3a,0xf3d,14},{0xf3e,0xf3f,3},{0xf40,0xf47,9},{0xf49,0xf6c,9},{0xf71,0xf84,3},{0xf86,0xf87,3},
{0xf88,0xf8c,9},{0xf8d,0xf97,3},{0xf99,0xfbc,3},{0xfc6,0xfc6,3},{0x1000,0x102a,9},{0x102b,0x103e,3},
{0x103f,0x103f,9},{0x1040,0x1049,10},{0x104a,0x104b,13},{0x1050,0x1055,9},{0x1056,0x1059,3},{0x105a,0x105d,9},
{0x105e,0x1060,3},{0x1061,0x1061,9},{0x1062,0x1064,3},{0x1065,0x1066,9},{0x1067,0x106d,3},{0x106e,0x1070,9},
{0x1071,0x1074,3},{0x1075,0x1081,9},{0x1082,0x108d,3},{0x108e,0x108e,9},{0x108f,0x108f,3},{0x1090,0x1099,10},
{0x109a,0x109d,3},{0x10a0,0x10c5,8},{0x10c7,0x10c7,8},{0x10cd,0x10cd,8},{0x10d0,0x10fa,9},{0x10fc,0x10fc,7},
{0x10fd,0x1248,9},{0x124a,0x124d,9},{0x1250,0x1256,9},{0x1258,0x1258,9},{0x125a,0x125d,9},{0x1260,0x1288,9},
{0x128a,0x128d,9},{0x1290,0x12b0,9},{0x12b2,0x12b5,9},{0x12b8,0x12be,9},{0x12c0,0x12c0,9},{0x12c2,0x12c5,9},
{0x12c8,0x12d6,9},{0x12d8,0x1310,9},{0x1312,0x1315,9},{0x1318,0x135a,9},{0x135d,0x135f,3},{0x1362,0x1362,13},
{0x1367,0x1368,13},{0x1380,0x138f,9},{0x13a0,0x13f5,8},{0x13f8,0x13fd,7},{0x1401,0x166c,9},{0x166e,0x166e,13},
{0x166f,0x167f,9},{0x1680,0x1680,6},{0x1681,0x169a,9},{0x169b,0x169c,14},{0x16a0,0x16ea,9},{0x16ee,0x16f8,9},
{0x1700,0x1711,9},{0x1712,0x1715,3},{0x171f,0x1731,9},{0x1732,0x1734,3},{0x1735,0x1736,13},{0x1740,0x1751,9},
{0x1752,0x1753,3},{0x1760,0x176c,9},{0x176e,0x1770,9},{0x1772,0x1773,3},{0x1780,0x17b3,9},{0x17b4,0x17d3,3},
{0x17d7,0x17d7,9},{0x17dc,0x17dc,9},{0x17dd,0x17dd,3},{0x17e0,0x17e9,10},{0x1802,0x1802,12},{0x1803,0x1803,13},
{0x1808,0x1808,12},{0x1809,0x1809,13},{0x180b,0x180d,3},{0x180e,0x180e,5},{0x180f,0x180f,3},{0x1810,0x1819,10},
{0x1820,0x1878,9},{0x1880,0x1884,9},{0x1885,0x1886,3},{0x1887,0x18a8,9},{0x18a9,0x18a9,3},{0x18aa,0x18aa,9},
{0x18b0,0x18f5,9},{0x1900,0x191e,9},{0x1920,0x192b,3},{0x1930,0x193b,3},{0x1944,0x1945,13},{0x1946,0x194f,10},
{0x1950,0x196d,9},{0x1970,0x1974,9},{0x1980,0x19ab,9},{0x19b0,0x19c9,9},{0x19d0,0x19d9,10},{0x1a00,0x1a16,9},
{0x1a17,0x1a1b,3},{0x1a20,0x1a54,9},{0x1a55,0x1a5e,3},{0x1a60,0x1a7c,3},{0x1a7f,0x1a7f,3},{0x1a80,0x1a89,10},
{0x1a90,0x1a99,10},{0x1aa7,0x1aa7,9},{0x1aa8,0x1aab,13},{0x1ab0,0x1ace,3},{0x1b00,0x1b04,3},{0x1b05,0x1b33,9},
{0x1b34,0x1b44,3},{0x1b45,0x1b4c,9},{0x1b50,0x1b59,10},{0x1b5a,0x1b5b,13},{0x1b5e,0x1b5f,13},{0x1b6b,0x1b73,3},
{0x1b7d,0x1b7e,13},{0x1b80,0x1b82,3},{0x1b83,0x1ba0,9},{0x1ba1,0x1bad,3},{0x1bae,0x1baf,9},{0x1bb0,0x1bb9,10},
{0x1bba,0x1be5,9},{0x1be6,0x1bf3,3},{0x1c00,0x1c23,9},{0x1c24,0x1c37,3},{0x1c3b,0x1c3c,13},{0x1c40,0x1c49,10},
{0x1c4d,0x1c4f,9},{0x1c50,0x1c59,10},{0x1c5a,0x1c7d,9},{0x1c7e,0x1c7f,13},{0x1c80,0x1c88,7},{0x1c90,0x1cba,9},
{0x1cbd,0x1cbf,9},{0x1cd0,0x1cd2,3},{0x1cd4,0x1ce8,3},{0x1ce9,0x1cec,9},{0x1ced,0x1ced,3},{0x1cee,0x1cf3,9},
{0x1cf4,0x1cf4,3},{0x1cf5,0x1cf6,9},{0x1cf7,0x1cf9,3},{0x1cfa,0x1cfa,9},{0x1d00,0x1dbf,7},{0x1dc0,0x1dff,3},
{0x1e00,0x1e00,8},{0x1e01,0x1e01,7},{0x1e02,0x1e02,8},{0x1e03,0x1e03,7},{0x1e04,0x1e04,8},{0x1e05,0x1e05,7},
{0x1e06,0x1e06,8},{0x1e07,0x1e07,7},{0x1e08,0x1e08,8},{0x1e09,0x1e09,7},{0x1e0a,0x1e0a,8},{0x1e0b,0x1e0b,7},
{0x1e0c,0x1e0c,8},{0x1e0d,0x1e0d,7},{0x1e0e,0x1e0e,8},{0x1e0f,0x1e0f,7},{0x1e10,0x1e10,8},{0x1e11,0x1e11,7},
{0x1e12,0x1e12,8},{0x1e13,0x1e13,7},{0x1e14,0x1e14,8},{0x1e15,0x1e15,7},{0x1e16,0x1e16,8},{0x1e17,0x1e17,7},
{0x1e18,0x1e18,8},{0x1e19,0x1e19,7},{0x1e1a,0x1e1a,8},{0x1e1b,0x1e1b,7},{0x1e1c,0x1e1c,8},{0x1e1d,0x1e1d,7},
{0x1e1e,0x1e1e,8},{0x1e1f,0x1e1f,7},{0x1e20,0x1e20,8},{0x1e21,0x1e21,7},{0x1e22,0x1e22,8},{0x1e23,0x1e23,7},
{0x1e24,0x1e24,8},{0x1e25,0x1e25,7},{0x1e26,0x1e26,8},{0x1e27,0x1e27,7},{0x1e28,0x1e28,8},{0x1e29,0x1e29,7},
{0x1e2a,0x1e2a,8},{0x1e2b,0x1e2b,7},{0x1e2c,0x1e2c,8},{0x1e2d,0x1e2d,7},{0x1e2e,0x1e2e,8},{0x1e2f,0x1e2f,7},
{0x1e30,0x1e30,8},{0x1e31,0x1e31,7},{0x1e32,0x1e32,8},{0x1e33,0x1e33,7},{0x1e34,0x1e34,8},{0x1e35,0x1e35,7},
{0x1e36,0x1e36,8},{0x1e37,0x1e37,7},{0x1e38,0x1e38,8},{0x1e39,0x1e39,7},{0x1e3a,0x1e3a,8},{0x1e3b,0x1e3b,7},
{0x1e3c,0x1e3c,8},{0x1e3d,0x1e3d,7},{0x1e3e,0x1e3e,8},{0x1e3f,0x1e3f,7},{0x1e40,0x1e40,8},{0x1e41,0x1e41,7},
{0x1e42,0x1e42,8},{0x1e43,0x1e43,7},{0x1e44,0x1e44,8},{0x1e45,0x1e45,7},{0x1e46,0x1e46,8},{0x1e47,0x1e47,7},
{0x1e48,0x1e48,8},{0x1e49,0x1e49,7},{0x1e4a,0x1e4a,8},{0x1e4b,0x1e4b,7},{0x1e4c,0x1e4c,8},{0x1e4d,0x1e4d,7},
{0x1e4e,0x1e4e,8},{0x1e4f,0x1e4f,7},{0x1e50,0x1e50,8},{0x1e51,0x1e51,7},{0x1e52,0x1e52,8},{0x1e53,0x1e53,7},
{0x1e54,0x1e54,8},{0x1e55,0x1e55,7},{0x1e56,0x1e56,8},{0x1e57,0x1e57,7},{0x1e58,0x1e58,8},{0x1e59,0x1e59,7},
{0x1e5a,0x1e5a,8},{0x1e5b,0x1e5b,7},{0x1e5c,0x1e5c,8},{0x1e5d,0x1e5d,7},{0x1e5e,0x1e5e,8},{0x1e5f,0x1e5f,7},
{0x1e60,0x1e60,8},{0x1e61,0x1e61,7},{0x1e62,0x1e62,8},{0x1e63,0x1e63,7},{0x1e64,0x1e64,8},{0x1e65,0x1e65,7},
{0x1e66,0x1e66,8},{0x1e67,0x1e67,7},{0x1e68,0x1e68,8},{0x1e69,0x1e69,7},{0x1e6a,0x1e6a,8},{0x1e6b,0x1e6b,7},
{0x1e6c,0x1e6c,8},{0x1e6d,0x1e6d,7},{0x1e6e,0x1e6e,8},{0x1e6f,0x1e6f,7},{0x1e70,0x1e70,8},{0x1e71,0x1e71,7},
{0x1e72,0x1e72,8},{0x1e73,0x1e73,7},{0x1e74,0x1e74,8},{0x1e75,0x1e75,7},{0x1e76,0x1e76,8},{0x1e77,0x1e77,7},
{0x1e78,0x1e78,8},{0x1e79,0x1e79,7},{0x1e7a,0x1e7a,8},{0x1e7b,0x1e7b,7},{0x1e7c,0x1e7c,8},{0x1e7d,0x1e7d,7},
{0x1e7e,0x1e7e,8},{0x1e7f,0x1e7f,7},{0x1e80,0x1e80,8},{0x1e81,0x1e81,7},{0x1e82,0x1e82,8},{0x1e83,0x1e83,7},
{0x1e84,0x1e84,8},{0x1e85,0x1e85,7},{0x1e86,0x1e86,8},{0x1e87,0x1e87,7},{0x1e88,0x1e88,8},{0x1e89,0x1e89,7},
{0x1e8a,0x1e8a,8},{0x1e8b,0x1e8b,7},{0x1e8c,0x1e8c,8},{0x1e8d,0x1e8d,7},{0x1e8e,0x1e8e,8},{0x1e8f,0x1e8f,7},
{0x1e90,0x1e90,8},{0x1e91,0x1e91,7},{0x1e92,0x1e92,8},{0x1e93,0x1e93,7},{0x1e94,0x1e94,8},{0x1e95,0x1e9d,7},
{0x1e9e,0x1e9e,8},{0x1e9f,0x1e9f,7},{0x1ea0,0x1ea0,8},{0x1ea1,0x1ea1,7},{0x1ea2,0x1ea2,8},{0x1ea3,0x1ea3,7},
{0x1ea4,0x1ea4,8},{0x1ea5,0x1ea5,7},{0x1ea6,0x1ea6,8},{0x1ea7,0x1ea7,7},{0x1ea8,0x1ea8,8},{0x1ea9,0x1ea9,7},
{0x1eaa,0x1eaa,8},{0x1eab,0x1eab,7},{0x1eac,0x1eac,8},{0x1ead,0x1ead,7},{0x1eae,0x1eae,8},{0x1eaf,0x1eaf,7},
{0x1eb0,0x1eb0,8},{0x1eb1,0x1eb1,7},{0x1eb2,0x1eb2,8},{0x1eb3,0x1eb3,7},{0x1eb4,0x1eb4,8},{0x1eb5,0x1eb5,7},
{0x1eb6,0x1eb6,8},{0x1eb7,0x1eb7,7},{0x1eb8,0x1eb8,8},{0x1eb9,0x1eb9,7},{0x1eba,0x1eba,8},{0x1ebb,0x1ebb,7},
{0x1ebc,0x1ebc,8},{0x1ebd,0x1ebd,7},{0x1ebe,0x1ebe,8},{0x1ebf,0x1ebf,7},{0x1ec0,0x1ec0,8},{0x1ec1,0x1ec1,7},
{0x1ec2,0x1ec2,8},{0x1ec3,0x1ec3,7},{0x1ec4,0x1ec4,8},{0x1ec5,0x1ec5,7},{0x1ec6,0x1ec6,8},{0x1ec7,0x1ec7,7},
{0x1ec8,0x1ec8,8},{0x1ec9,0x1ec9,7},{0x1eca,0x1eca,8},{0x1ecb,0x1ecb,7},{0x1ecc,0x1ecc,8},{0x1ecd,0x1ecd,7},
{0x1ece,0x1ece,8},{0x1ecf,0x1ecf,7},{0x1ed0,0x1ed0,8},{0x1ed1,0x1ed1,7},{0x1ed2,0x1ed2,8},{0x1ed3,0x1ed3,7},
{0x1ed4,0x1ed4,8},{0x1ed5,0x1ed5,7},{0x1ed6,0x1ed6,8},{0x1ed7,0x1ed7,7},{0x1ed8,0x1ed8,8},{0x1ed9,0x1ed9,7},
{0x1eda,0x1eda,8},{0x1edb,0x1edb,7},{0x1edc,0x1edc,8},{0x1edd,0x1edd,7},{0x1ede,0x1ede,8},{0x1edf,0x1edf,7},
{0x1ee0,0x1ee0,8},{0x1ee1,0x1ee1,7},{0x1ee2,0x1ee2,8},{0x1ee3,0x1ee3,7},{0x1ee4,0x1ee4,8},{0x1ee5,0x1ee5,7},
{0x1ee6,0x1ee6,8},{0x1ee7,0x1ee7,7},{0x1ee8,0x1ee8,8},{0x1ee9,0x1ee9,7},{0x1eea,0x1eea,8},{0x1eeb,0x1eeb,7},
{0x1eec,0x1eec,8},{0x1eed,0x1eed,7},{0x1eee,0x1eee,8},{0x1eef,0x1eef,7},{0x1ef0,0x1ef0,8},{0x1ef1,0x1ef1,7},
{0x1ef2,0x1ef2,8},{0x1ef3,0x1ef3,7},{0x1ef4,0x1ef4,8},{0x1ef5,0x1ef5,7},{0x1ef6,0x1ef6,8},{0x1ef7,0x1ef7,7},
{0x1ef8,0x1ef8,8},{0x1ef9,0x1ef9,7},{0x1efa,0x1efa,8},{0x1efb,0x1efb,7},{0x1efc,0x1efc,8},{0x1efd,0x1efd,7},
{0x1efe,0x1efe,8},{0x1eff,0x1f07,7},{0x1f08,0x1f0f,8},{0x1f10,0x1f15,7},{0x1f18,0x1f1d,8},{0x1f20,0x1f27,7},
{0x1f28,0x1f2f,8},{0x1f30,0x1f37,7},{0x1f38,0x1f3f,8},{0x1f40,0x1f45,7},{0x1f48,0x1f4d,8},{0x1f50,0x1f57,7},
{0x1f59,0x1f59,8},{0x1f5b,0x1f5b,8},{0x1f5d,0x1f5d,8},{0x1f5f,0x1f5f,8},{0x1f60,0x1f67,7},{0x1f68,0x1f6f,8},
{0x1f70,0x1f7d,7},{0x1f80,0x1f87,7},{0x1f88,0x1f8f,8},{0x1f90,0x1f97,7},{0x1f98,0x1f9f,8},{0x1fa0,0x1fa7,7},
{0x1fa8,0x1faf,8},{0x1fb0,0x1fb4,7},{0x1fb6,0x1fb7,7},{0x1fb8,0x1fbc,8},{0x1fbe,0x1fbe,7},{0x1fc2,0x1fc4,7},
{0x1fc6,0x1fc7,7},{0x1fc8,0x1fcc,8},{0x1fd0,0x1fd3,7},{0x1fd6,0x1fd7,7},{0x1fd8,0x1fdb,8},{0x1fe0,0x1fe7,7},
{0x1fe8,0x1fec,8},{0x1ff2,0x1ff4,7},{0x1ff6,0x1ff7,7},{0x1ff8,0x1ffc,8},{0x2000,0x200a,6},{0x200b,0x200b,5},
{0x200c,0x200d,3},{0x200e,0x200f,5},{0x2013,0x2014,12},{0x2018,0x201f,14},{0x2024,0x2024,11},{0x2028,0x2029,4},
{0x202a,0x202e,5},{0x202f,0x202f,6},{0x2039,0x203a,14},{0x203c,0x203d,13},{0x2045,0x2046,14},{0x2047,0x2049,13},
{0x205f,0x205f,6},{0x2060,0x2064,5},{0x2066,0x206f,5},{0x2071,0x2071,7},{0x207d,0x207e,14},{0x207f,0x207f,7},
{0x208d,0x208e,14},{0x2090,0x209c,7},{0x20d0,0x20f0,3},{0x2102,0x2102,8},{0x2107,0x2107,8},{0x210a,0x210a,7},
{0x210b,0x210d,8},{0x210e,0x210f,7},{0x2110,0x2112,8},{0x2113,0x2113,7},{0x2115,0x2115,8},{0x2119,0x211d,8},
{0x2124,0x2124,8},{0x2126,0x2126,8},{0x2128,0x2128,8},{0x212a,0x212d,8},{0x212f,0x212f,7},{0x2130,0x2133,8},
{0x2134,0x2134,7},{0x2135,0x2138,9},{0x2139,0x2139,7},{0x213c,0x213d,7},{0x213e,0x213f,8},{0x2145,0x2145,8},
{0x2146,0x2149,7},{0x214e,0x214e,7},{0x2160,0x216f,8},{0x2170,0x217f,7},{0x2180,0x2182,9},{0x2183,0x2183,8},
{0x2184,0x2184,7},{0x2185,0x2188,9},{0x2308,0x230b,14},{0x2329,0x232a,14},{0x24b6,0x24cf,8},{0x24d0,0x24e9,7},
{0x275b,0x2760,14},{0x2768,0x2775,14},{0x27c5,0x27c6,14},{0x27e6,0x27ef,14},{0x2983,0x2998,14},{0x29d8,0x29db,14},
{0x29fc,0x29fd,14},{0x2c00,0x2c2f,8},{0x2c30,0x2c5f,7},{0x2c60,0x2c60,8},{0x2c61,0x2c61,7},{0x2c62,0x2c64,8},
{0x2c65,0x2c66,7},{0x2c67,0x2c67,8},{0x2c68,0x2c68,7},{0x2c69,0x2c69,8},{0x2c6a,0x2c6a,7},{0x2c6b,0x2c6b,8},
{0x2c6c,0x2c6c,7},{0x2c6d,0x2c70,8},{0x2c71,0x2c71,7},{0x2c72,0x2c72,8},{0x2c73,0x2c74,7},{0x2c75,0x2c75,8},
{0x2c76,0x2c7d,7},{0x2c7e,0x2c80,8},{0x2c81,0x2c81,7},{0x2c82,0x2c82,8},{0x2c83,0x2c83,7},{0x2c84,0x2c84,8},
{0x2c85,0x2c85,7},{0x2c86,0x2c86,8},{0x2c87,0x2c87,7},{0x2c88,0x2c88,8},{0x2c89,0x2c89,7},{0x2c8a,0x2c8a,8},
{0x2c8b,0x2c8b,7},{0x2c8c,0x2c8c,8},{0x2c8d,0x2c8d,7},{0x2c8e,0x2c8e,8},{0x2c8f,0x2c8f,7},{0x2c90,0x2c90,8},
{0x2c91,0x2c91,7},{0x2c92,0x2c92,8},{0x2c93,0x2c93,7},{0x2c94,0x2c94,8},{0x2c95,0x2c95,7},{0x2c96,0x2c96,8},
{0x2c97,0x2c97,7},{0x2c98,0x2c98,8},{0x2c99,0x2c99,7},{0x2c9a,0x2c9a,8},{0x2c9b,0x2c9b,7},{0x2c9c,0x2c9c,8},
{0x2c9d,0x2c9d,7},{0x2c9e,0x2c9e,8},{0x2c9f,0x2c9f,7},{0x2ca0,0x2ca0,8},{0x2ca1,0x2ca1,7},{0x2ca2,0x2ca2,8},
{0x2ca3,0x2ca3,7},{0x2ca4,0x2ca4,8},{0x2ca5,0x2ca5,7},{0x2ca6,0x2ca6,8},{0x2ca7,0x2ca7,7},{0x2ca8,0x2ca8,8},
{0x2ca9,0x2ca9,7},{0x2caa,0x2caa,8},{0x2cab,0x2cab,7},{0x2cac,0x2cac,8},{0x2cad,0x2cad,7},{0x2cae,0x2cae,8},
{0x2caf,0x2caf,7},{0x2cb0,0x2cb0,8},{0x2cb1,0x2cb1,7},{0x2cb2,0x2cb2,8},{0x2cb3,0x2cb3,7},{0x2cb4,0x2cb4,8},
{0x2cb5,0x2cb5,7},{0x2cb6,0x2cb6,8},{0x2cb7,0x2cb7,7},{0x2cb8,0x2cb8,8},{0x2cb9,0x2cb9,7},{0x2cba,0x2cba,8},
{0x2cbb,0x2cbb,7},{0x2cbc,0x2cbc,8},{0x2cbd,0x2cbd,7},{0x2cbe,0x2cbe,8},{0x2cbf,0x2cbf,7},{0x2cc0,0x2cc0,8},
{0x2cc1,0x2cc1,7},{0x2cc2,0x2cc2,8},{0x2cc3,0x2cc3,7},{0x2cc4,0x2cc4,8},{0x2cc5,0x2cc5,7},{0x2cc6,0x2cc6,8},
{0x2cc7,0x2cc7,7},{0x2cc8,0x2cc8,8},{0x2cc9,0x2cc9,7},{0x2cca,0x2cca,8},{0x2ccb,0x2ccb,7},{0x2ccc,0x2ccc,8},
{0x2ccd,0x2ccd,7},{0x2cce,0x2cce,8},{0x2ccf,0x2ccf,7},{0x2cd0,0x2cd0,8},{0x2cd1,0x2cd1,7},{0x2cd2,0x2cd2,8},
{0x2cd3,0x2cd3,7},{0x2cd4,0x2cd4,8},{0x2cd5,0x2cd5,7},{0x2cd6,0x2cd6,8},{0x2cd7,0x2cd7,7},{0x2cd8,0x2cd8,8},
{0x2cd9,0x2cd9,7},{0x2cda,0x2cda,8},{0x2cdb,0x2cdb,7},{0x2cdc,0x2cdc,8},{0x2cdd,0x2cdd,7},{0x2cde,0x2cde,8},
{0x2cdf,0x2cdf,7},{0x2ce0,0x2ce0,8},{0x2ce1,0x2ce1,7},{0x2ce2,0x2ce2,8},{0x2ce3,0x2ce4,7},{0x2ceb,0x2ceb,8},
{0x2cec,0x2cec,7},{0x2ced,0x2ced,8},{0x2cee,0x2cee,7},{0x2cef,0x2cf1,3},{0x2cf2,0x2cf2,8},{0x2cf3,0x2cf3,7},
{0x2d00,0x2d25,7},{0x2d27,0x2d27,7},{0x2d2d,0x2d2d,7},{0x2d30,0x2d67,9},{0x2d6f,0x2d6f,9},{0x2d7f,0x2d7f,3},
{0x2d80,0x2d96,9},{0x2da0,0x2da6,9},{0x2da8,0x2dae,9},{0x2db0,0x2db6,9},{0x2db8,0x2dbe,9},{0x2dc0,0x2dc6,9},
{0x2dc8,0x2dce,9},{0x2dd0,0x2dd6,9},{0x2dd8,0x2dde,9},{0x2de0,0x2dff,3},{0x2e00,0x2e0d,14},{0x2e1c,0x2e1d,14},
{0x2e20,0x2e29,14},{0x2e2e,0x2e2e,13},{0x2e2f,0x2e2f,9},{0x2e3c,0x2e3c,13},{0x2e42,0x2e42,14},{0x2e53,0x2e54,13},
{0x2e55,0x2e5c,14},{0x3000,0x3000,6},{0x3001,0x3001,12},{0x3002,0x3002,13},{0x3005,0x3007,9},{0x3008,0x3011,14},
{0x3014,0x301b,14},{0x301d,0x301f,14},{0x3021,0x3029,9},{0x302a,0x302f,3},{0x3031,0x3035,9},{0x3038,0x303c,9},
{0x3041,0x3096,9},{0x3099,0x309a,3},{0x309d,0x309f,9},{0x30a1,0x30fa,9},{0x30fc,0x30ff,9},{0x3105,0x312f,9},
{0x3131,0x318e,9},{0x31a0,0x31bf,9},{0x31f0,0x31ff,9},{0x3400,0x4dbf,9},{0x4e00,0xa48c,9},{0xa4d0,0xa4fd,9},
{0xa4ff,0xa4ff,13},{0xa500,0xa60c,9},{0xa60e,0xa60f,13},{0xa610,0xa61f,9},{0xa620,0xa629,10},{0xa62a,0xa62b,9},
{0xa640,0xa640,8},{0xa641,0xa641,7},{0xa642,0xa642,8},{0xa643,0xa643,7},{0xa644,0xa644,8},{0xa645,0xa645,7},
{0xa646,0xa646,8},{0xa647,0xa647,7},{0xa648,0xa648,8},{0xa649,0xa649,7},{0xa64a,0xa64a,8},{0xa64b,0xa64b,7},
{0xa64c,0xa64c,8},{0xa64d,0xa64d,7},{0xa64e,0xa64e,8},{0xa64f,0xa64f,7},{0xa650,0xa650,8},{0xa651,0xa651,7},
{0xa652,0xa652,8},{0xa653,0xa653,7},{0xa654,0xa654,8},{0xa655,0xa655,7},{0xa656,0xa656,8},{0xa657,0xa657,7},
{0xa658,0xa658,8},{0xa659,0xa659,7},{0xa65a,0xa65a,8},{0xa65b,0xa65b,7},{0xa65c,0xa65c,8},{0xa65d,0xa65d,7},
{0xa65e,0xa65e,8},{0xa65f,0xa65f,7},{0xa660,0xa660,8},{0xa661,0xa661,7},{0xa662,0xa662,8},{0xa663,0xa663,7},
{0xa664,0xa664,8},{0xa665,0xa665,7},{0xa666,0xa666,8},{0xa667,0xa667,7},{0xa668,0xa668,8},{0xa669,0xa669,7},
{0xa66a,0xa66a,8},{0xa66b,0xa66b,7},{0xa66c,0xa66c,8},{0xa66d,0xa66d,7},{0xa66e,0xa66e,9},{0xa66f,0xa672,3},
{0xa674,0xa67d,3},{0xa67f,0xa67f,9},{0xa680,0xa680,8},{0xa681,0xa681,7},{0xa682,0xa682,8},{0xa683,0xa683,7},
{0xa684,0xa684,8},{0xa685,0xa685,7},{0xa686,0xa686,8},{0xa687,0xa687,7},{0xa688,0xa688,8},{0xa689,0xa689,7},
{0xa68a,0xa68a,8},{0xa68b,0xa68b,7},{0xa68c,0xa68c,8},{0xa68d,0xa68d,7},{0xa68e,0xa68e,8},{0xa68f,0xa68f,7},
{0xa690,0xa690,8},{0xa691,0xa691,7},{0xa692,0xa692,8},{0xa693,0xa693,7},{0xa694,0xa694,8},{0xa695,0xa695,7},
{0xa696,0xa696,8},{0xa697,0xa697,7},{0xa698,0xa698,8},{0xa699,0xa699,7},{0xa69a,0xa69a,8},{0xa69b,0xa69d,7},
{0xa69e,0xa69f,3},{0xa6a0,0xa6ef,9},{0xa6f0,0xa6f1,3},{0xa6f3,0xa6f3,13},{0xa6f7,0xa6f7,13},{0xa717,0xa71f,9},
{0xa722,0xa722,8},{0xa723,0xa723,7},{0xa724,0xa724,8},{0xa725,0xa725,7},{0xa726,0xa726,8},{0xa727,0xa727,7},
{0xa728,0xa728,8},{0xa729,0xa729,7},{0xa72a,0xa72a,8},{0xa72b,0xa72b,7},{0xa72c,0xa72c,8},{0xa72d,0xa72d,7},
{0xa72e,0xa72e,8},{0xa72f,0xa731,7},{0xa732,0xa732,8},{0xa733,0xa733,7},{0xa734,0xa734,8},{0xa735,0xa735,7},
{0xa736,0xa736,8},{0xa737,0xa737,7},{0xa738,0xa738,8},{0xa739,0xa739,7},{0xa73a,0xa73a,8},{0xa73b,0xa73b,7},
{0xa73c,0xa73c,8},{0xa73d,0xa73d,7},{0xa73e,0xa73e,8},{0xa73f,0xa73f,7},{0xa740,0xa740,8},{0xa741,0xa741,7},
{0xa742,0xa742,8},{0xa743,0xa743,7},{0xa744,0xa744,8},{0xa745,0xa745,7},{0xa746,0xa746,8},{0xa747,0xa747,7},
{0xa748,0xa748,8},{0xa749,0xa749,7},{0xa74a,0xa74a,8},{0xa74b,0xa74b,7},{0xa74c,0xa74c,8},{0xa74d,0xa74d,7},
{0xa74e,0xa74e,8},{0xa74f,0xa74f,7},{0xa750,0xa750,8},{0xa751,0xa751,7},{0xa752,0xa752,8},{0xa753,0xa753,7},
{0xa754,0xa754,8},{0xa755,0xa755,7},{0xa756,0xa756,8},{0xa757,0xa757,7},{0xa758,0xa758,8},{0xa759,0xa759,7},
{0xa75a,0xa75a,8},{0xa75b,0xa75b,7},{0xa75c,0xa75c,8},{0xa75d,0xa75d,7},{0xa75e,0xa75e,8},{0xa75f,0xa75f,7},
{0xa760,0xa760,8},{0xa761,0xa761,7},{0xa762,0xa762,8},{0xa763,0xa763,7},{0xa764,0xa764,8},{0xa765,0xa765,7},
{0xa766,0xa766,8},{0xa767,0xa767,7},{0xa768,0xa768,8},{0xa769,0xa769,7},{0xa76a,0xa76a,8},{0xa76b,0xa76b,7},
{0xa76c,0xa76c,8},{0xa76d,0xa76d,7},{0xa76e,0xa76e,8},{0xa76f,0xa778,7},{0xa779,0xa779,8},{0xa77a,0xa77a,7},
{0xa77b,0xa77b,8},{0xa77c,0xa77c,7},{0xa77d,0xa77e,8},{0xa77f,0xa77f,7},{0xa780,0xa780,8},{0xa781,0xa781,7},
{0xa782,0xa782,8},{0xa783,0xa783,7},{0xa784,0xa784,8},{0xa785,0xa785,7},{0xa786,0xa786,8},{0xa787,0xa787,7},
{0xa788,0xa788,9},{0xa78b,0xa78b,8},{0xa78c,0xa78c,7},{0xa78d,0xa78d,8},{0xa78e,0xa78e,7},{0xa78f,0xa78f,9},
{0xa790,0xa790,8},{0xa791,0xa791,7},{0xa792,0xa792,8},{0xa793,0xa795,7},{0xa796,0xa796,8},{0xa797,0xa797,7},
{0xa798,0xa798,8},{0xa799,0xa799,7},{0xa79a,0xa79a,8},{0xa79b,0xa79b,7},{0xa79c,0xa79c,8},{0xa79d,0xa79d,7},
{0xa79e,0xa79e,8},{0xa79f,0xa79f,7},{0xa7a0,0xa7a0,8},{0xa7a1,0xa7a1,7},{0xa7a2,0xa7a2,8},{0xa7a3,0xa7a3,7},
{0xa7a4,0xa7a4,8},{0xa7a5,0xa7a5,7},{0xa7a6,0xa7a6,8},{0xa7a7,0xa7a7,7},{0xa7a8,0xa7a8,8},{0xa7a9,0xa7a9,7},
{0xa7aa,0xa7ae,8},{0xa7af,0xa7af,7},{0xa7b0,0xa7b4,8},{0xa7b5,0xa7b5,7},{0xa7b6,0xa7b6,8},{0xa7b7,0xa7b7,7},
{0xa7b8,0xa7b8,8},{0xa7b9,0xa7b9,7},{0xa7ba,0xa7ba,8},{0xa7bb,0xa7bb,7},{0xa7bc,0xa7bc,8},{0xa7bd,0xa7bd,7},
{0xa7be,0xa7be,8},{0xa7bf,0xa7bf,7},{0xa7c0,0xa7c0,8},{0xa7c1,0xa7c1,7},{0xa7c2,0xa7c2,8},{0xa7c3,0xa7c3,7},
{0xa7c4,0xa7c7,8},{0xa7c8,0xa7c8,7},{0xa7c9,0xa7c9,8},{0xa7ca,0xa7ca,7},{0xa7d0,0xa7d0,8},{0xa7d1,0xa7d1,7},
{0xa7d3,0xa7d3,7},{0xa7d5,0xa7d5,7},{0xa7d6,0xa7d6,8},{0xa7d7,0xa7d7,7},{0xa7d8,0xa7d8,8},{0xa7d9,0xa7d9,7},
{0xa7f2,0xa7f4,7},{0xa7f5,0xa7f5,8},{0xa7f6,0xa7f6,7},{0xa7f7,0xa7f7,9},{0xa7f8,0xa7fa,7},{0xa7fb,0xa801,9},
{0xa802,0xa802,3},{0xa803,0xa805,9},{0xa806,0xa806,3},{0xa807,0xa80a,9},{0xa80b,0xa80b,3},{0xa80c,0xa822,9},
{0xa823,0xa827,3},{0xa82c,0xa82c,3},{0xa840,0xa873,9},{0xa876,0xa877,13},{0xa880,0xa881,3},{0xa882,0xa8b3,9},
{0xa8b4,0xa8c5,3},{0xa8ce,0xa8cf,13},{0xa8d0,0xa8d9,10},{0xa8e0,0xa8f1,3},{0xa8f2,0xa8f7,9},{0xa8fb,0xa8fb,9},
{0xa8fd,0xa8fe,9},{0xa8ff,0xa8ff,3},{0xa900,0xa909,10},{0xa90a,0xa925,9},{0xa926,0xa92d,3},{0xa92f,0xa92f,13},
{0xa930,0xa946,9},{0xa947,0xa953,3},{0xa960,0xa97c,9},{0xa980,0xa983,3},{0xa984,0xa9b2,9},{0xa9b3,0xa9c0,3},
{0xa9c8,0xa9c9,13},{0xa9cf,0xa9cf,9},{0xa9d0,0xa9d9,10},{0xa9e0,0xa9e4,9},{0xa9e5,0xa9e5,3},{0xa9e6,0xa9ef,9},
{0xa9f0,0xa9f9,10},{0xa9fa,0xa9fe,9},{0xaa00,0xaa28,9},{0xaa29,0xaa36,3},{0xaa40,0xaa42,9},{0xaa43,0xaa43,3},
{0xaa44,0xaa4b,9},{0xaa4c,0xaa4d,3},{0xaa50,0xaa59,10},{0xaa5d,0xaa5f,13},{0xaa60,0xaa76,9},{0xaa7a,0xaa7a,9},
{0xaa7b,0xaa7d,3},{0xaa7e,0xaaaf,9},{0xaab0,0xaab0,3},{0xaab1,0xaab1,9},{0xaab2,0xaab4,3},{0xaab5,0xaab6,9},
{0xaab7,0xaab8,3},{0xaab9,0xaabd,9},{0xaabe,0xaabf,3},{0xaac0,0xaac0,9},{0xaac1,0xaac1,3},{0xaac2,0xaac2,9},
{0xaadb,0xaadd,9},{0xaae0,0xaaea,9},{0xaaeb,0xaaef,3},{0xaaf0,0xaaf1,13},{0xaaf2,0xaaf4,9},{0xaaf5,0xaaf6,3},
{0xab01,0xab06,9},{0xab09,0xab0e,9},{0xab11,0xab16,9},{0xab20,0xab26,9},{0xab28,0xab2e,9},{0xab30,0xab5a,7},
{0xab5c,0xab69,7},{0xab70,0xabbf,7},{0xabc0,0xabe2,9},{0xabe3,0xabea,3},{0xabeb,0xabeb,13},{0xabec,0xabed,3},
{0xabf0,0xabf9,10},{0xac00,0xd7a3,9},{0xd7b0,0xd7c6,9},{0xd7cb,0xd7fb,9},{0xf900,0xfa6d,9},{0xfa70,0xfad9,9},
{0xfb00,0xfb06,7},{0xfb13,0xfb17,7},{0xfb1d,0xfb1d,9},{0xfb1e,0xfb1e,3},{0xfb1f,0xfb28,9},{0xfb2a,0xfb36,9},
{0xfb38,0xfb3c,9},{0xfb3e,0xfb3e,9},{0xfb40,0xfb41,9},{0xfb43,0xfb44,9},{0xfb46,0xfbb1,9},{0xfbd3,0xfd3d,9},
{0xfd3e,0xfd3f,14},{0xfd50,0xfd8f,9},{0xfd92,0xfdc7,9},{0xfdf0,0xfdfb,9},{0xfe00,0xfe0f,3},{0xfe10,0xfe11,12},
{0xfe13,0xfe13,12},{0xfe17,0xfe18,14},{0xfe20,0xfe2f,3},{0xfe31,0xfe32,12},{0xfe35,0xfe44,14},{0xfe47,0xfe48,14},
{0xfe50,0xfe51,12},{0xfe52,0xfe52,11},{0xfe55,0xfe55,12},{0xfe56,0xfe57,13},{0xfe58,0xfe58,12},{0xfe59,0xfe5e,14},
{0xfe63,0xfe63,12},{0xfe70,0xfe74,9},{0xfe76,0xfefc,9},{0xfeff,0xfeff,5},{0xff01,0xff01,13},{0xff08,0xff09,14},
{0xff0c,0xff0d,12},{0xff0e,0xff0e,11},{0xff10,0xff19,10},{0xff1a,0xff1a,12},{0xff1f,0xff1f,13},{0xff21,0xff3a,8},
{0xff3b,0xff3b,14},{0xff3d,0xff3d,14},{0xff41,0xff5a,7},{0xff5b,0xff5b,14},{0xff5d,0xff5d,14},{0xff5f,0xff60,14},
{0xff61,0xff61,13},{0xff62,0xff63,14},{0xff64,0xff64,12},{0xff66,0xff9d,9},{0xff9e,0xff9f,3},{0xffa0,0xffbe,9},
{0xffc2,0xffc7,9},{0xffca,0xffcf,9},{0xffd2,0xffd7,9},{0xffda,0xffdc,9},{0xfff9,0xfffb,5},{0x10000,0x1000b,9},
{0x1000d,0x10026,9},{0x10028,0x1003a,9},{0x1003c,0x1003d,9},{0x1003f,0x1004d,9},{0x10050,0x1005d,9},{0x10080,0x100fa,9},
{0x10140,0x10174,9},{0x101fd,0x101fd,3},{0x10280,0x1029c,9},{0x102a0,0x102d0,9},{0x102e0,0x102e0,3},{0x10300,0x1031f,9},
{0x1032d,0x1034a,9},{0x10350,0x10375,9},{0x10376,0x1037a,3},{0x10380,0x1039d,9},{0x103a0,0x103c3,9},{0x103c8,0x103cf,9},
{0x103d1,0x103d5,9},{0x10400,0x10427,8},{0x10428,0x1044f,7},{0x10450,0x1049d,9},{0x104a0,0x104a9,10},{0x104b0,0x104d3,8},
{0x104d8,0x104fb,7},{0x10500,0x10527,9},{0x10530,0x10563,9},{0x10570,0x1057a,8},{0x1057c,0x1058a,8},{0x1058c,0x10592,8},
{0x10594,0x10595,8},{0x10597,0x105a1,7},{0x105a3,0x105b1,7},{0x105b3,0x105b9,7},{0x105bb,0x105bc,7},{0x10600,0x10736,9},
{0x10740,0x10755,9},{0x10760,0x10767,9},{0x10780,0x10780,7},{0x10781,0x10782,9},{0x10783,0x10785,7},{0x10787,0x107b0,7},
{0x107b2,0x107ba,7},{0x10800,0x10805,9},{0x10808,0x10808,9},{0x1080a,0x10835,9},{0x10837,0x10838,9},{0x1083c,0x1083c,9},
{0x1083f,0x10855,9},{0x10860,0x10876,9},{0x10880,0x1089e,9},{0x108e0,0x108f2,9},{0x108f4,0x108f5,9},{0x10900,0x10915,9},
{0x10920,0x10939,9},{0x10980,0x109b7,9},{0x109be,0x109bf,9},{0x10a00,0x10a00,9},{0x10a01,0x10a03,3},{0x10a05,0x10a06,3},
{0x10a0c,0x10a0f,3},{0x10a10,0x10a13,9},{0x10a15,0x10a17,9},{0x10a19,0x10a35,9},{0x10a38,0x10a3a,3},{0x10a3f,0x10a3f,3},
{0x10a56,0x10a57,13},{0x10a60,0x10a7c,9},{0x10a80,0x10a9c,9},{0x10ac0,0x10ac7,9},{0x10ac9,0x10ae4,9},{0x10ae5,0x10ae6,3},
{0x10b00,0x10b35,9},{0x10b40,0x10b55,9},{0x10b60,0x10b72,9},{0x10b80,0x10b91,9},{0x10c00,0x10c48,9},{0x10c80,0x10cb2,8},
{0x10cc0,0x10cf2,7},{0x10d00,0x10d23,9},{0x10d24,0x10d27,3},{0x10d30,0x10d39,10},{0x10e80,0x10ea9,9},{0x10eab,0x10eac,3},
{0x10eb0,0x10eb1,9},{0x10efd,0x10eff,3},{0x10f00,0x10f1c,9},{0x10f27,0x10f27,9},{0x10f30,0x10f45,9},{0x10f46,0x10f50,3},
{0x10f55,0x10f59,13},{0x10f70,0x10f81,9},{0x10f82,0x10f85,3},{0x10f86,0x10f89,13},{0x10fb0,0x10fc4,9},{0x10fe0,0x10ff6,9},
{0x11000,0x11002,3},{0x11003,0x11037,9},{0x11038,0x11046,3},{0x11047,0x11048,13},{0x11066,0x1106f,10},{0x11070,0x11070,3},
{0x11071,0x11072,9},{0x11073,0x11074,3},{0x11075,0x11075,9},{0x1107f,0x11082,3},{0x11083,0x110af,9},{0x110b0,0x110ba,3},
{0x110bd,0x110bd,5},{0x110be,0x110c1,13},{0x110c2,0x110c2,3},{0x110cd,0x110cd,5},{0x110d0,0x110e8,9},{0x110f0,0x110f9,10},
{0x11100,0x11102,3},{0x11103,0x11126,9},{0x11127,0x11134,3},{0x11136,0x1113f,10},{0x11141,0x11143,13},{0x11144,0x11144,9},
{0x11145,0x11146,3},{0x11147,0x11147,9},{0x11150,0x11172,9},{0x11173,0x11173,3},{0x11176,0x11176,9},{0x11180,0x11182,3},
{0x11183,0x111b2,9},{0x111b3,0x111c0,3},{0x111c1,0x111c4,9},{0x111c5,0x111c6,13},{0x111c9,0x111cc,3},{0x111cd,0x111cd,13},
{0x111ce,0x111cf,3},{0x111d0,0x111d9,10},{0x111da,0x111da,9},{0x111dc,0x111dc,9},{0x111de,0x111df,13},{0x11200,0x11211,9},
{0x11213,0x1122b,9},{0x1122c,0x11237,3},{0x11238,0x11239,13},{0x1123b,0x1123c,13},{0x1123e,0x1123e,3},{0x1123f,0x11240,9},
{0x11241,0x11241,3},{0x11280,0x11286,9},{0x11288,0x11288,9},{0x1128a,0x1128d,9},{0x1128f,0x1129d,9},{0x1129f,0x112a8,9},
{0x112a9,0x112a9,13},{0x112b0,0x112de,9},{0x112df,0x112ea,3},{0x112f0,0x112f9,10},{0x11300,0x11303,3},{0x11305,0x1130c,9},
{0x1130f,0x11310,9},{0x11313,0x11328,9},{0x1132a,0x11330,9},{0x11332,0x11333,9},{0x11335,0x11339,9},{0x1133b,0x1133c,3},
{0x1133d,0x1133d,9},{0x1133e,0x11344,3},{0x11347,0x11348,3},{0x1134b,0x1134d,3},{0x11350,0x11350,9},{0x11357,0x11357,3},
{0x1135d,0x11361,9},{0x11362,0x11363,3},{0x11366,0x1136c,3},{0x11370,0x11374,3},{0x11400,0x11434,9},{0x11435,0x11446,3},
{0x11447,0x1144a,9},{0x1144b,0x1144c,13},{0x11450,0x11459,10},{0x1145e,0x1145e,3},{0x1145f,0x11461,9},{0x11480,0x114af,9},
{0x114b0,0x114c3,3},{0x114c4,0x114c5,9},{0x114c7,0x114c7,9},{0x114d0,0x114d9,10},{0x11580,0x115ae,9},{0x115af,0x115b5,3},
{0x115b8,0x115c0,3},{0x115c2,0x115c3,13},{0x115c9,0x115d7,13},{0x115d8,0x115db,9},{0x115dc,0x115dd,3},{0x11600,0x1162f,9},
{0x11630,0x11640,3},{0x11641,0x11642,13},{0x11644,0x11644,9},{0x11650,0x11659,10},{0x11680,0x116aa,9},{0x116ab,0x116b7,3},
{0x116b8,0x116b8,9},{0x116c0,0x116c9,10},{0x11700,0x1171a,9},{0x1171d,0x1172b,3},{0x11730,0x11739,10},{0x1173c,0x1173e,13},
{0x11740,0x11746,9},{0x11800,0x1182b,9},{0x1182c,0x1183a,3},{0x118a0,0x118bf,8},{0x118c0,0x118df,7},{0x118e0,0x118e9,10},
{0x118ff,0x11906,9},{0x11909,0x11909,9},{0x1190c,0x11913,9},{0x11915,0x11916,9},{0x11918,0x1192f,9},{0x11930,0x11935,3},
{0x11937,0x11938,3},{0x1193b,0x1193e,3},{0x1193f,0x1193f,9},{0x11940,0x11940,3},{0x11941,0x11941,9},{0x11942,0x11943,3},
{0x11944,0x11944,13},{0x11946,0x11946,13},{0x11950,0x11959,10},{0x119a0,0x119a7,9},{0x119aa,0x119d0,9},{0x119d1,0x119d7,3},
{0x119da,0x119e0,3},{0x119e1,0x119e1,9},{0x119e3,0x119e3,9},{0x119e4,0x119e4,3},{0x11a00,0x11a00,9},{0x11a01,0x11a0a,3},
{0x11a0b,0x11a32,9},{0x11a33,0x11a39,3},{0x11a3a,0x11a3a,9},{0x11a3b,0x11a3e,3},{0x11a42,0x11a43,13},{0x11a47,0x11a47,3},
{0x11a50,0x11a50,9},{0x11a51,0x11a5b,3},{0x11a5c,0x11a89,9},{0x11a8a,0x11a99,3},{0x11a9b,0x11a9c,13},{0x11a9d,0x11a9d,9},
{0x11ab0,0x11af8,9},{0x11c00,0x11c08,9},{0x11c0a,0x11c2e,9},{0x11c2f,0x11c36,3},{0x11c38,0x11c3f,3},{0x11c40,0x11c40,9},
{0x11c41,0x11c42,13},{0x11c50,0x11c59,10},{0x11c72,0x11c8f,9},{0x11c92,0x11ca7,3},{0x11ca9,0x11cb6,3},{0x11d00,0x11d06,9},
{0x11d08,0x11d09,9},{0x11d0b,0x11d30,9},{0x11d31,0x11d36,3},{0x11d3a,0x11d3a,3},{0x11d3c,0x11d3d,3},{0x11d3f,0x11d45,3},
{0x11d46,0x11d46,9},{0x11d47,0x11d47,3},{0x11d50,0x11d59,10},{0x11d60,0x11d65,9},{0x11d67,0x11d68,9},{0x11d6a,0x11d89,9},
{0x11d8a,0x11d8e,3},{0x11d90,0x11d91,3},{0x11d93,0x11d97,3},{0x11d98,0x11d98,9},{0x11da0,0x11da9,10},{0x11ee0,0x11ef2,9},
{0x11ef3,0x11ef6,3},{0x11ef7,0x11ef8,13},{0x11f00,0x11f01,3},{0x11f02,0x11f02,9},{0x11f03,0x11f03,3},{0x11f04,0x11f10,9},
{0x11f12,0x11f33,9},{0x11f34,0x11f3a,3},{0x11f3e,0x11f42,3},{0x11f43,0x11f44,13},{0x11f50,0x11f59,10},{0x11fb0,0x11fb0,9},
{0x12000,0x12399,9},{0x12400,0x1246e,9},{0x12480,0x12543,9},{0x12f90,0x12ff0,9},{0x13000,0x1342f,9},{0x13430,0x1343f,5},
{0x13440,0x13440,3},{0x13441,0x13446,9},{0x13447,0x13455,3},{0x14400,0x14646,9},{0x16800,0x16a38,9},{0x16a40,0x16a5e,9},
{0x16a60,0x16a69,10},{0x16a6e,0x16a6f,13},{0x16a70,0x16abe,9},{0x16ac0,0x16ac9,10},{0x16ad0,0x16aed,9},{0x16af0,0x16af4,3},
{0x16af5,0x16af5,13},{0x16b00,0x16b2f,9},{0x16b30,0x16b36,3},{0x16b37,0x16b38,13},{0x16b40,0x16b43,9},{0x16b44,0x16b44,13},
{0x16b50,0x16b59,10},{0x16b63,0x16b77,9},{0x16b7d,0x16b8f,9},{0x16e40,0x16e5f,8},{0x16e60,0x16e7f,7},{0x16e98,0x16e98,13},
{0x16f00,0x16f4a,9},{0x16f4f,0x16f4f,3},{0x16f50,0x16f50,9},{0x16f51,0x16f87,3},{0x16f8f,0x16f92,3},{0x16f93,0x16f9f,9},
{0x16fe0,0x16fe1,9},{0x16fe3,0x16fe3,9},{0x16fe4,0x16fe4,3},{0x16ff0,0x16ff1,3},{0x17000,0x187f7,9},{0x18800,0x18cd5,9},
{0x18d00,0x18d08,9},{0x1aff0,0x1aff3,9},{0x1aff5,0x1affb,9},{0x1affd,0x1affe,9},{0x1b000,0x1b122,9},{0x1b132,0x1b132,9},
{0x1b150,0x1b152,9},{0x1b155,0x1b155,9},{0x1b164,0x1b167,9},{0x1b170,0x1b2fb,9},{0x1bc00,0x1bc6a,9},{0x1bc70,0x1bc7c,9},
{0x1bc80,0x1bc88,9},{0x1bc90,0x1bc99,9},{0x1bc9d,0x1bc9e,3},{0x1bc9f,0x1bc9f,13},{0x1bca0,0x1bca3,5},{0x1cf00,0x1cf2d,3},
{0x1cf30,0x1cf46,3},{0x1d165,0x1d169,3},{0x1d16d,0x1d172,3},{0x1d173,0x1d17a,5},{0x1d17b,0x1d182,3},{0x1d185,0x1d18b,3},
{0x1d1aa,0x1d1ad,3},{0x1d242,0x1d244,3},{0x1d400,0x1d419,8},{0x1d41a,0x1d433,7},{0x1d434,0x1d44d,8},{0x1d44e,0x1d454,7},
{0x1d456,0x1d467,7},{0x1d468,0x1d481,8},{0x1d482,0x1d49b,7},{0x1d49c,0x1d49c,8},{0x1d49e,0x1d49f,8},{0x1d4a2,0x1d4a2,8},
{0x1d4a5,0x1d4a6,8},{0x1d4a9,0x1d4ac,8},{0x1d4ae,0x1d4b5,8},{0x1d4b6,0x1d4b9,7},{0x1d4bb,0x1d4bb,7},{0x1d4bd,0x1d4c3,7},
{0x1d4c5,0x1d4cf,7},{0x1d4d0,0x1d4e9,8},{0x1d4ea,0x1d503,7},{0x1d504,0x1d505,8},{0x1d507,0x1d50a,8},{0x1d50d,0x1d514,8},
{0x1d516,0x1d51c,8},{0x1d51e,0x1d537,7},{0x1d538,0x1d539,8},{0x1d53b,0x1d53e,8},{0x1d540,0x1d544,8},{0x1d546,0x1d546,8},
{0x1d54a,0x1d550,8},{0x1d552,0x1d56b,7},{0x1d56c,0x1d585,8},{0x1d586,0x1d59f,7},{0x1d5a0,0x1d5b9,8},{0x1d5ba,0x1d5d3,7},
{0x1d5d4,0x1d5ed,8},{0x1d5ee,0x1d607,7},{0x1d608,0x1d621,8},{0x1d622,0x1d63b,7},{0x1d63c,0x1d655,8},{0x1d656,0x1d66f,7},
{0x1d670,0x1d689,8},{0x1d68a,0x1d6a5,7},{0x1d6a8,0x1d6c0,8},{0x1d6c2,0x1d6da,7},{0x1d6dc,0x1d6e1,7},{0x1d6e2,0x1d6fa,8},
{0x1d6fc,0x1d714,7},{0x1d716,0x1d71b,7},{0x1d71c,0x1d734,8},{0x1d736,0x1d74e,7},{0x1d750,0x1d755,7},{0x1d756,0x1d76e,8},
{0x1d770,0x1d788,7},{0x1d78a,0x1d78f,7},{0x1d790,0x1d7a8,8},{0x1d7aa,0x1d7c2,7},{0x1d7c4,0x1d7c9,7},{0x1d7ca,0x1d7ca,8},
{0x1d7cb,0x1d7cb,7},{0x1d7ce,0x1d7ff,10},{0x1da00,0x1da36,3},{0x1da3b,0x1da6c,3},{0x1da75,0x1da75,3},{0x1da84,0x1da84,3},
{0x1da88,0x1da88,13},{0x1da9b,0x1da9f,3},{0x1daa1,0x1daaf,3},{0x1df00,0x1df09,7},{0x1df0a,0x1df0a,9},{0x1df0b,0x1df1e,7},
{0x1df25,0x1df2a,7},{0x1e000,0x1e006,3},{0x1e008,0x1e018,3},{0x1e01b,0x1e021,3},{0x1e023,0x1e024,3},{0x1e026,0x1e02a,3},
{0x1e030,0x1e06d,7},{0x1e08f,0x1e08f,3},{0x1e100,0x1e12c,9},{0x1e130,0x1e136,3},{0x1e137,0x1e13d,9},{0x1e140,0x1e149,10},
{0x1e14e,0x1e14e,9},{0x1e290,0x1e2ad,9},{0x1e2ae,0x1e2ae,3},{0x1e2c0,0x1e2eb,9},{0x1e2ec,0x1e2ef,3},{0x1e2f0,0x1e2f9,10},
{0x1e4d0,0x1e4eb,9},{0x1e4ec,0x1e4ef,3},{0x1e4f0,0x1e4f9,10},{0x1e7e0,0x1e7e6,9},{0x1e7e8,0x1e7eb,9},{0x1e7ed,0x1e7ee,9},
{0x1e7f0,0x1e7fe,9},{0x1e800,0x1e8c4,9},{0x1e8d0,0x1e8d6,3},{0x1e900,0x1e921,8},{0x1e922,0x1e943,7},{0x1e944,0x1e94a,3},
{0x1e94b,0x1e94b,9},{0x1e950,0x1e959,10},{0x1ee00,0x1ee03,9},{0x1ee05,0x1ee1f,9},{0x1ee21,0x1ee22,9},{0x1ee24,0x1ee24,9},
{0x1ee27,0x1ee27,9},{0x1ee29,0x1ee32,9},{0x1ee34,0x1ee37,9},{0x1ee39,0x1ee39,9},{0x1ee3b,0x1ee3b,9},{0x1ee42,0x1ee42,9},
{0x1ee47,0x1ee47,9},{0x1ee49,0x1ee49,9},{0x1ee4b,0x1ee4b,9},{0x1ee4d,0x1ee4f,9},{0x1ee51,0x1ee52,9},{0x1ee54,0x1ee54,9},
{0x1ee57,0x1ee57,9},{0x1ee59,0x1ee59,9},{0x1ee5b,0x1ee5b,9},{0x1ee5d,0x1ee5d,9},{0x1ee5f,0x1ee5f,9},{0x1ee61,0x1ee62,9},
{0x1ee64,0x1ee64,9},{0x1ee67,0x1ee6a,9},{0x1ee6c,0x1ee72,9},{0x1ee74,0x1ee77,9},{0x1ee79,0x1ee7c,9},{0x1ee7e,0x1ee7e,9},
{0x1ee80,0x1ee89,9},{0x1ee8b,0x1ee9b,9},{0x1eea1,0x1eea3,9},{0x1eea5,0x1eea9,9},{0x1eeab,0x1eebb,9},{0x1f130,0x1f149,8},
{0x1f150,0x1f169,8},{0x1f170,0x1f189,8},{0x1f676,0x1f678,14},{0x1fbf0,0x1fbf9,10},{0x20000,0x2a6df,9},{0x2a700,0x2b739,9},
{0x2b740,0x2b81d,9},{0x2b820,0x2cea1,9},{0x2ceb0,0x2ebe0,9},{0x2f800,0x2fa1d,9},{0x30000,0x3134a,9},{0x31350,0x323af,9},
{0xe0001,0xe0001,5},{0xe0020,0xe007f,3},{0xe0100,0xe01ef,3},
};
enum lb_class {B_AL,B_B2,B_BA,B_BB,B_BK,B_CB,B_CL,B_CM,B_CP,B_CPwide,B_CR,B_EB,B_EM,B_EX,B_GL,B_H2,B_H3,B_HL,B_HY,B_ID,B_IDcn,B_IN,B_IS,B_JL,B_JT,B_JV,B_LF,B_NL,B_NS,B_NU,B_OP,B_OPwide,B_PO,B_PR,B_QU,B_RI,B_SP,B_SY,B_WJ,B_ZW,B_ZWJ,B_ALcn, B_NUM};
static const char *const lb_names[] = {"AL","B2","BA","BB","BK","CB","CL","CM","CP","CPwide","CR","EB","EM","EX","GL","H2","H3","HL","HY","ID","IDcn","IN","IS","JL","JT","JV","LF","NL","NS","NU","OP","OPwide","PO","PR","QU","RI","SP","SY","WJ","ZW","ZWJ","ALcn"};
static const struct ref_range lb_ranges[] = {
{0x0,0x8,7},{0x9,0x9,2},{0xa,0xa,26},{0xb,0xc,4},{0xd,0xd,10},{0xe,0x1f,7},
{0x20,0x20,36},{0x21,0x21,13},{0x22,0x22,34},{0x24,0x24,33},{0x25,0x25,32},{0x27,0x27,34},
{0x28,0x28,30},{0x29,0x29,8},{0x2b,0x2b,33},{0x2c,0x2c,22},{0x2d,0x2d,18},{0x2e,0x2e,22},
{0x2f,0x2f,37},{0x30,0x39,29},{0x3a,0x3b,22},{0x3f,0x3f,13},{0x5b,0x5b,30},{0x5c,0x5c,33},
{0x5d,0x5d,8},{0x7b,0x7b,30},{0x7c,0x7c,2},{0x7d,0x7d,6},{0x7f,0x84,7},{0x85,0x85,27},
{0x86,0x9f,7},{0xa0,0xa0,14},{0xa1,0xa1,30},{0xa2,0xa2,32},{0xa3,0xa5,33},{0xab,0xab,34},
{0xad,0xad,2},{0xb0,0xb0,32},{0xb1,0xb1,33},{0xb4,0xb4,3},{0xbb,0xbb,34},{0xbf,0xbf,30},
{0x2c8,0x2c8,3},{0x2cc,0x2cc,3},{0x2df,0x2df,3},{0x300,0x34e,7},{0x34f,0x34f,14},{0x350,0x35b,7},
{0x35c,0x362,14},{0x363,0x36f,7},{0x37e,0x37e,22},{0x483,0x489,7},{0x589,0x589,22},{0x58a,0x58a,2},
{0x58f,0x58f,33},{0x591,0x5bd,7},{0x5be,0x5be,2},{0x5bf,0x5bf,7},{0x5c1,0x5c2,7},{0x5c4,0x5c5,7},
{0x5c6,0x5c6,13},{0x5c7,0x5c7,7},{0x5d0,0x5ea,17},{0x5ef,0x5f2,17},{0x609,0x60b,32},{0x60c,0x60d,22},
{0x610,0x61a,7},{0x61b,0x61b,13},{0x61c,0x61c,7},{0x61d,0x61f,13},{0x64b,0x65f,7},{0x660,0x669,29},
{0x66a,0x66a,32},{0x66b,0x66c,29},{0x670,0x670,7},{0x6d4,0x6d4,13},{0x6d6,0x6dc,7},{0x6df,0x6e4,7},
{0x6e7,0x6e8,7},{0x6ea,0x6ed,7},{0x6f0,0x6f9,29},{0x711,0x711,7},{0x730,0x74a,7},{0x7a6,0x7b0,7},
{0x7c0,0x7c9,29},{0x7eb,0x7f3,7},{0x7f8,0x7f8,22},{0x7f9,0x7f9,13},{0x7fd,0x7fd,7},{0x7fe,0x7ff,33},
{0x816,0x819,7},{0x81b,0x823,7},{0x825,0x827,7},{0x829,0x82d,7},{0x859,0x85b,7},{0x898,0x89f,7},
{0x8ca,0x8e1,7},{0x8e3,0x903,7},{0x93a,0x93c,7},{0x93e,0x94f,7},{0x951,0x957,7},{0x962,0x963,7},
{0x964,0x965,2},{0x966,0x96f,29},{0x981,0x983,7},{0x9bc,0x9bc,7},{0x9be,0x9c4,7},{0x9c7,0x9c8,7},
{0x9cb,0x9cd,7},{0x9d7,0x9d7,7},{0x9e2,0x9e3,7},{0x9e6,0x9ef,29},{0x9f2,0x9f3,32},{0x9f9,0x9f9,32},
{0x9fb,0x9fb,33},{0x9fe,0x9fe,7},{0xa01,0xa03,7},{0xa3c,0xa3c,7},{0xa3e,0xa42,7},{0xa47,0xa48,7},
{0xa4b,0xa4d,7},{0xa51,0xa51,7},{0xa66,0xa6f,29},{0xa70,0xa71,7},{0xa75,0xa75,7},{0xa81,0xa83,7},
{0xabc,0xabc,7},{0xabe,0xac5,7},{0xac7,0xac9,7},{0xacb,0xacd,7},{0xae2,0xae3,7},{0xae6,0xaef,29},
{0xaf1,0xaf1,33},{0xafa,0xaff,7},{0xb01,0xb03,7},{0xb3c,0xb3c,7},{0xb3e,0xb44,7},{0xb47,0xb48,7},
{0xb4b,0xb4d,7},{0xb55,0xb57,7},{0xb62,0xb63,7},{0xb66,0xb6f,29},{0xb82,0xb82,7},{0xbbe,0xbc2,7},
{0xbc6,0xbc8,7},{0xbca,0xbcd,7},{0xbd7,0xbd7,7},{0xbe6,0xbef,29},{0xbf9,0xbf9,33},{0xc00,0xc04,7},
{0xc3c,0xc3c,7},{0xc3e,0xc44,7},{0xc46,0xc48,7},{0xc4a,0xc4d,7},{0xc55,0xc56,7},{0xc62,0xc63,7},
{0xc66,0xc6f,29},{0xc77,0xc77,3},{0xc81,0xc83,7},{0xc84,0xc84,3},{0xcbc,0xcbc,7},{0xcbe,0xcc4,7},
{0xcc6,0xcc8,7},{0xcca,0xccd,7},{0xcd5,0xcd6,7},{0xce2,0xce3,7},{0xce6,0xcef,29},{0xcf3,0xcf3,7},
{0xd00,0xd03,7},{0xd3b,0xd3c,7},{0xd3e,0xd44,7},{0xd46,0xd48,7},{0xd4a,0xd4d,7},{0xd57,0xd57,7},
{0xd62,0xd63,7},{0xd66,0xd6f,29},{0xd79,0xd79,32},{0xd81,0xd83,7},{0xdca,0xdca,7},{0xdcf,0xdd4,7},
{0xdd6,0xdd6,7},{0xdd8,0xddf,7},{0xde6,0xdef,29},{0xdf2,0xdf3,7},{0xe31,0xe31,7},{0xe34,0xe3a,7},
{0xe3f,0xe3f,33},{0xe47,0xe4e,7},{0xe50,0xe59,29},{0xe5a,0xe5b,2},{0xeb1,0xeb1,7},{0xeb4,0xebc,7},
{0xec8,0xece,7},{0xed0,0xed9,29},{0xf01,0xf04,3},{0xf06,0xf07,3},{0xf08,0xf08,14},{0xf09,0xf0a,3},
{0xf0b,0xf0b,2},{0xf0c,0xf0c,14},{0xf0d,0xf11,13},{0xf12,0xf12,14},{0xf14,0xf14,13},{0xf18,0xf19,7},
{0xf20,0xf29,29},{0xf34,0xf34,2},{0xf35,0xf35,7},{0xf37,0xf37,7},{0xf39,0xf39,7},{0xf3a,0xf3a,30},
{0xf3b,0xf3b,6},{0xf3c,0xf3c,30},{0xf3d,0xf3d,6},{0xf3e,0xf3f,7},{0xf71,0xf7e,7},{0xf7f,0xf7f,2},
{0xf80,0xf84,7},{0xf85,0xf85,2},{0xf86,0xf87,7},{0xf8d,0xf97,7},{0xf99,0xfbc,7},{0xfbe,0xfbf,2},
{0xfc6,0xfc6,7},{0xfd0,0xfd1,3},{0xfd2,0xfd2,2},{0xfd3,0xfd3,3},{0xfd9,0xfda,14},{0x102b,0x103e,7},
{0x1040,0x1049,29},{0x104a,0x104b,2},{0x1056,0x1059,7},{0x105e,0x1060,7},{0x1062,0x1064,7},{0x1067,0x106d,7},
{0x1071,0x1074,7},{0x1082,0x108d,7},{0x108f,0x108f,7},{0x1090,0x1099,29},{0x109a,0x109d,7},{0x1100,0x115f,23},
{0x1160,0x11a7,25},{0x11a8,0x11ff,24},{0x135d,0x135f,7},{0x1361,0x1361,2},{0x1400,0x1400,2},{0x1680,0x1680,2},
{0x169b,0x169b,30},{0x169c,0x169c,6},{0x16eb,0x16ed,2},{0x1712,0x1715,7},{0x1732,0x1734,7},{0x1735,0x1736,2},
{0x1752,0x1753,7},{0x1772,0x1773,7},{0x17b4,0x17d3,7},{0x17d4,0x17d5,2},{0x17d6,0x17d6,28},{0x17d8,0x17d8,2},
{0x17da,0x17da,2},{0x17db,0x17db,33},{0x17dd,0x17dd,7},{0x17e0,0x17e9,29},{0x1802,0x1803,13},{0x1804,0x1805,2},
{0x1806,0x1806,3},{0x1808,0x1809,13},{0x180b,0x180d,7},{0x180e,0x180e,14},{0x180f,0x180f,7},{0x1810,0x1819,29},
{0x1885,0x1886,7},{0x18a9,0x18a9,7},{0x1920,0x192b,7},{0x1930,0x193b,7},{0x1944,0x1945,13},{0x1946,0x194f,29},
{0x19d0,0x19d9,29},{0x1a17,0x1a1b,7},{0x1a55,0x1a5e,7},{0x1a60,0x1a7c,7},{0x1a7f,0x1a7f,7},{0x1a80,0x1a89,29},
{0x1a90,0x1a99,29},{0x1ab0,0x1ace,7},{0x1b00,0x1b04,7},{0x1b34,0x1b44,7},{0x1b50,0x1b59,29},{0x1b5a,0x1b5b,2},
{0x1b5d,0x1b60,2},{0x1b6b,0x1b73,7},{0x1b7d,0x1b7e,2},{0x1b80,0x1b82,7},{0x1ba1,0x1bad,7},{0x1bb0,0x1bb9,29},
{0x1be6,0x1bf3,7},{0x1c24,0x1c37,7},{0x1c3b,0x1c3f,2},{0x1c40,0x1c49,29},{0x1c50,0x1c59,29},{0x1c7e,0x1c7f,2},
{0x1cd0,0x1cd2,7},{0x1cd4,0x1ce8,7},{0x1ced,0x1ced,7},{0x1cf4,0x1cf4,7},{0x1cf7,0x1cf9,7},{0x1dc0,0x1dcc,7},
{0x1dcd,0x1dcd,14},{0x1dce,0x1dfb,7},{0x1dfc,0x1dfc,14},{0x1dfd,0x1dff,7},{0x1ffd,0x1ffd,3},{0x2000,0x2006,2},
{0x2007,0x2007,14},{0x2008,0x200a,2},{0x200b,0x200b,39},{0x200c,0x200c,7},{0x200d,0x200d,40},{0x200e,0x200f,7},
{0x2010,0x2010,2},{0x2011,0x2011,14},{0x2012,0x2013,2},{0x2014,0x2014,1},{0x2018,0x2019,34},{0x201a,0x201a,30},
{0x201b,0x201d,34},{0x201e,0x201e,30},{0x201f,0x201f,34},{0x2024,0x2026,21},{0x2027,0x2027,2},{0x2028,0x2029,4},
{0x202a,0x202e,7},{0x202f,0x202f,14},{0x2030,0x2037,32},{0x2039,0x203a,34},{0x203c,0x203d,28},{0x2044,0x2044,22},
{0x2045,0x2045,30},{0x2046,0x2046,6},{0x2047,0x2049,28},{0x2056,0x2056,2},{0x2057,0x2057,32},{0x2058,0x205b,2},
{0x205d,0x205f,2},{0x2060,0x2060,38},{0x2066,0x206f,7},{0x207d,0x207d,30},{0x207e,0x207e,6},{0x208d,0x208d,30},
{0x208e,0x208e,6},{0x20a0,0x20a6,33},{0x20a7,0x20a7,32},{0x20a8,0x20b5,33},{0x20b6,0x20b6,32},{0x20b7,0x20ba,33},
{0x20bb,0x20bb,32},{0x20bc,0x20bd,33},{0x20be,0x20be,32},{0x20bf,0x20bf,33},{0x20c0,0x20c0,32},{0x20c1,0x20cf,33},
{0x20d0,0x20f0,7},{0x2103,0x2103,32},{0x2109,0x2109,32},{0x2116,0x2116,33},{0x2212,0x2213,33},{0x22ef,0x22ef,21},
{0x2308,0x2308,30},{0x2309,0x2309,6},{0x230a,0x230a,30},{0x230b,0x230b,6},{0x231a,0x231b,19},{0x2329,0x2329,31},
{0x232a,0x232a,6},{0x23f0,0x23f3,19},{0x2600,0x2603,19},{0x2614,0x2615,19},{0x2618,0x2618,19},{0x261a,0x261c,19},
{0x261d,0x261d,11},{0x261e,0x261f,19},{0x2639,0x263b,19},{0x2668,0x2668,19},{0x267f,0x267f,19},{0x26bd,0x26c8,19},
{0x26cd,0x26cd,19},{0x26cf,0x26d1,19},{0x26d3,0x26d4,19},{0x26d8,0x26d9,19},{0x26dc,0x26dc,19},{0x26df,0x26e1,19},
{0x26ea,0x26ea,19},{0x26f1,0x26f5,19},{0x26f7,0x26f8,19},{0x26f9,0x26f9,11},{0x26fa,0x26fa,19},{0x26fd,0x2704,19},
{0x2708,0x2709,19},{0x270a,0x270d,11},{0x275b,0x2760,34},{0x2762,0x2763,13},{0x2764,0x2764,19},{0x2768,0x2768,30},
{0x2769,0x2769,6},{0x276a,0x276a,30},{0x276b,0x276b,6},{0x276c,0x276c,30},{0x276d,0x276d,6},{0x276e,0x276e,30},
{0x276f,0x276f,6},{0x2770,0x2770,30},{0x2771,0x2771,6},{0x2772,0x2772,30},{0x2773,0x2773,6},{0x2774,0x2774,30},
{0x2775,0x2775,6},{0x27c5,0x27c5,30},{0x27c6,0x27c6,6},{0x27e6,0x27e6,30},{0x27e7,0x27e7,6},{0x27e8,0x27e8,30},
{0x27e9,0x27e9,6},{0x27ea,0x27ea,30},{0x27eb,0x27eb,6},{0x27ec,0x27ec,30},{0x27ed,0x27ed,6},{0x27ee,0x27ee,30},
{0x27ef,0x27ef,6},{0x2983,0x2983,30},{0x2984,0x2984,6},{0x2985,0x2985,30},{0x2986,0x2986,6},{0x2987,0x2987,30},
{0x2988,0x2988,6},{0x2989,0x2989,30},{0x298a,0x298a,6},{0x298b,0x298b,30},{0x298c,0x298c,6},{0x298d,0x298d,30},
{0x298e,0x298e,6},{0x298f,0x298f,30},{0x2990,0x2990,6},{0x2991,0x2991,30},{0x2992,0x2992,6},{0x2993,0x2993,30},
{0x2994,0x2994,6},{0x2995,0x2995,30},{0x2996,0x2996,6},{0x2997,0x2997,30},{0x2998,0x2998,6},{0x29d8,0x29d8,30},
{0x29d9,0x29d9,6},{0x29da,0x29da,30},{0x29db,0x29db,6},{0x29fc,0x29fc,30},{0x29fd,0x29fd,6},{0x2cef,0x2cf1,7},
{0x2cf9,0x2cf9,13},{0x2cfa,0x2cfc,2},{0x2cfe,0x2cfe,13},{0x2cff,0x2cff,2},{0x2d70,0x2d70,2},{0x2d7f,0x2d7f,7},
{0x2de0,0x2dff,7},{0x2e00,0x2e0d,34},{0x2e0e,0x2e15,2},{0x2e17,0x2e17,2},{0x2e18,0x2e18,30},{0x2e19,0x2e19,2},
{0x2e1c,0x2e1d,34},{0x2e20,0x2e21,34},{0x2e22,0x2e22,30},{0x2e23,0x2e23,6},{0x2e24,0x2e24,30},{0x2e25,0x2e25,6},
{0x2e26,0x2e26,30},{0x2e27,0x2e27,6},{0x2e28,0x2e28,30},{0x2e29,0x2e29,6},{0x2e2a,0x2e2d,2},{0x2e2e,0x2e2e,13},
{0x2e30,0x2e31,2},{0x2e33,0x2e34,2},{0x2e3a,0x2e3b,1},{0x2e3c,0x2e3e,2},{0x2e40,0x2e41,2},{0x2e42,0x2e42,30},
{0x2e43,0x2e4a,2},{0x2e4c,0x2e4c,2},{0x2e4e,0x2e4f,2},{0x2e53,0x2e54,13},{0x2e55,0x2e55,30},{0x2e56,0x2e56,6},
{0x2e57,0x2e57,30},{0x2e58,0x2e58,6},{0x2e59,0x2e59,30},{0x2e5a,0x2e5a,6},{0x2e5b,0x2e5b,30},{0x2e5c,0x2e5c,6},
{0x2e5d,0x2e5d,2},{0x2e80,0x2e99,19},{0x2e9b,0x2ef3,19},{0x2f00,0x2fd5,19},{0x2ff0,0x2ffb,19},{0x3000,0x3000,2},
{0x3001,0x3002,6},{0x3003,0x3004,19},{0x3005,0x3005,28},{0x3006,0x3007,19},{0x3008,0x3008,31},{0x3009,0x3009,6},
{0x300a,0x300a,31},{0x300b,0x300b,6},{0x300c,0x300c,31},{0x300d,0x300d,6},{0x300e,0x300e,31},{0x300f,0x300f,6},
{0x3010,0x3010,31},{0x3011,0x3011,6},{0x3012,0x3013,19},{0x3014,0x3014,31},{0x3015,0x3015,6},{0x3016,0x3016,31},
{0x3017,0x3017,6},{0x3018,0x3018,31},{0x3019,0x3019,6},{0x301a,0x301a,31},{0x301b,0x301b,6},{0x301c,0x301c,28},
{0x301d,0x301d,31},{0x301e,0x301f,6},{0x3020,0x3029,19},{0x302a,0x302f,7},{0x3030,0x3034,19},{0x3035,0x3035,7},
{0x3036,0x303a,19},{0x303b,0x303c,28},{0x303d,0x303f,19},{0x3041,0x3041,28},{0x3042,0x3042,19},{0x3043,0x3043,28},
{0x3044,0x3044,19},{0x3045,0x3045,28},{0x3046,0x3046,19},{0x3047,0x3047,28},{0x3048,0x3048,19},{0x3049,0x3049,28},
{0x304a,0x3062,19},{0x3063,0x3063,28},{0x3064,0x3082,19},{0x3083,0x3083,28},{0x3084,0x3084,19},{0x3085,0x3085,28},
{0x3086,0x3086,19},{0x3087,0x3087,28},{0x3088,0x308d,19},{0x308e,0x308e,28},{0x308f,0x3094,19},{0x3095,0x3096,28},
{0x3099,0x309a,7},{0x309b,0x309e,28},{0x309f,0x309f,19},{0x30a0,0x30a1,28},{0x30a2,0x30a2,19},{0x30a3,0x30a3,28},
{0x30a4,0x30a4,19},{0x30a5,0x30a5,28},{0x30a6,0x30a6,19},{0x30a7,0x30a7,28},{0x30a8,0x30a8,19},{0x30a9,0x30a9,28},
{0x30aa,0x30c2,19},{0x30c3,0x30c3,28},{0x30c4,0x30e2,19},{0x30e3,0x30e3,28},{0x30e4,0x30e4,19},{0x30e5,0x30e5,28},
{0x30e6,0x30e6,19},{0x30e7,0x30e7,28},{0x30e8,0x30ed,19},{0x30ee,0x30ee,28},{0x30ef,0x30f4,19},{0x30f5,0x30f6,28},
{0x30f7,0x30fa,19},{0x30fb,0x30fe,28},{0x30ff,0x30ff,19},{0x3105,0x312f,19},{0x3131,0x318e,19},{0x3190,0x31e3,19},
{0x31f0,0x31ff,28},{0x3200,0x321e,19},{0x3220,0x3247,19},{0x3250,0x4dbf,19},{0x4e00,0xa014,19},{0xa015,0xa015,28},
{0xa016,0xa48c,19},{0xa490,0xa4c6,19},{0xa4fe,0xa4ff,2},{0xa60d,0xa60d,2},{0xa60e,0xa60e,13},{0xa60f,0xa60f,2},
{0xa620,0xa629,29},{0xa66f,0xa672,7},{0xa674,0xa67d,7},{0xa69e,0xa69f,7},{0xa6f0,0xa6f1,7},{0xa6f3,0xa6f7,2},
{0xa802,0xa802,7},{0xa806,0xa806,7},{0xa80b,0xa80b,7},{0xa823,0xa827,7},{0xa82c,0xa82c,7},{0xa838,0xa838,32},
{0xa874,0xa875,3},{0xa876,0xa877,13},{0xa880,0xa881,7},{0xa8b4,0xa8c5,7},{0xa8ce,0xa8cf,2},{0xa8d0,0xa8d9,29},
{0xa8e0,0xa8f1,7},{0xa8fc,0xa8fc,3},{0xa8ff,0xa8ff,7},{0xa900,0xa909,29},{0xa926,0xa92d,7},{0xa92e,0xa92f,2},
{0xa947,0xa953,7},{0xa960,0xa97c,23},{0xa980,0xa983,7},{0xa9b3,0xa9c0,7},{0xa9c7,0xa9c9,2},{0xa9d0,0xa9d9,29},
{0xa9e5,0xa9e5,7},{0xa9f0,0xa9f9,29},{0xaa29,0xaa36,7},{0xaa43,0xaa43,7},{0xaa4c,0xaa4d,7},{0xaa50,0xaa59,29},
{0xaa5d,0xaa5f,2},{0xaa7b,0xaa7d,7},{0xaab0,0xaab0,7},{0xaab2,0xaab4,7},{0xaab7,0xaab8,7},{0xaabe,0xaabf,7},
{0xaac1,0xaac1,7},{0xaaeb,0xaaef,7},{0xaaf0,0xaaf1,2},{0xaaf5,0xaaf6,7},{0xabe3,0xabea,7},{0xabeb,0xabeb,2},
{0xabec,0xabed,7},{0xabf0,0xabf9,29},{0xac00,0xac00,15},{0xac01,0xac1b,16},{0xac1c,0xac1c,15},{0xac1d,0xac37,16},
{0xac38,0xac38,15},{0xac39,0xac53,16},{0xac54,0xac54,15},{0xac55,0xac6f,16},{0xac70,0xac70,15},{0xac71,0xac8b,16},
{0xac8c,0xac8c,15},{0xac8d,0xaca7,16},{0xaca8,0xaca8,15},{0xaca9,0xacc3,16},{0xacc4,0xacc4,15},{0xacc5,0xacdf,16},
{0xace0,0xace0,15},{0xace1,0xacfb,16},{0xacfc,0xacfc,15},{0xacfd,0xad17,16},{0xad18,0xad18,15},{0xad19,0xad33,16},
{0xad34,0xad34,15},{0xad35,0xad4f,16},{0xad50,0xad50,15},{0xad51,0xad6b,16},{0xad6c,0xad6c,15},{0xad6d,0xad87,16},
{0xad88,0xad88,15},{0xad89,0xada3,16},{0xada4,0xada4,15},{0xada5,0xadbf,16},{0xadc0,0xadc0,15},{0xadc1,0xaddb,16},
{0xaddc,0xaddc,15},{0xaddd,0xadf7,16},{0xadf8,0xadf8,15},{0xadf9,0xae13,16},{0xae14,0xae14,15},{0xae15,0xae2f,16},
{0xae30,0xae30,15},{0xae31,0xae4b,16},{0xae4c,0xae4c,15},{0xae4d,0xae67,16},{0xae68,0xae68,15},{0xae69,0xae83,16},
{0xae84,0xae84,15},{0xae85,0xae9f,16},{0xaea0,0xaea0,15},{0xaea1,0xaebb,16},{0xaebc,0xaebc,15},{0xaebd,0xaed7,16},
{0xaed8,0xaed8,15},{0xaed9,0xaef3,16},{0xaef4,0xaef4,15},{0xaef5,0xaf0f,16},{0xaf10,0xaf10,15},{0xaf11,0xaf2b,16},
{0xaf2c,0xaf2c,15},{0xaf2d,0xaf47,16},{0xaf48,0xaf48,15},{0xaf49,0xaf63,16},{0xaf64,0xaf64,15},{0xaf65,0xaf7f,16},
{0xaf80,0xaf80,15},{0xaf81,0xaf9b,16},{0xaf9c,0xaf9c,15},{0xaf9d,0xafb7,16},{0xafb8,0xafb8,15},{0xafb9,0xafd3,16},
{0xafd4,0xafd4,15},{0xafd5,0xafef,16},{0xaff0,0xaff0,15},{0xaff1,0xb00b,16},{0xb00c,0xb00c,15},{0xb00d,0xb027,16},
{0xb028,0xb028,15},{0xb029,0xb043,16},{0xb044,0xb044,15},{0xb045,0xb05f,16},{0xb060,0xb060,15},{0xb061,0xb07b,16},
{0xb07c,0xb07c,15},{0xb07d,0xb097,16},{0xb098,0xb098,15},{0xb099,0xb0b3,16},{0xb0b4,0xb0b4,15},{0xb0b5,0xb0cf,16},
{0xb0d0,0xb0d0,15},{0xb0d1,0xb0eb,16},{0xb0ec,0xb0ec,15},{0xb0ed,0xb107,16},{0xb108,0xb108,15},{0xb109,0xb123,16},
{0xb124,0xb124,15},{0xb125,0xb13f,16},{0xb140,0xb140,15},{0xb141,0xb15b,16},{0xb15c,0xb15c,15},{0xb15d,0xb177,16},
{0xb178,0xb178,15},{0xb179,0xb193,16},{0xb194,0xb194,15},{0xb195,0xb1af,16},{0xb1b0,0xb1b0,15},{0xb1b1,0xb1cb,16},
{0xb1cc,0xb1cc,15},{0xb1cd,0xb1e7,16},{0xb1e8,0xb1e8,15},{0xb1e9,0xb203,16},{0xb204,0xb204,15},{0xb205,0xb21f,16},
{0xb220,0xb220,15},{0xb221,0xb23b,16},{0xb23c,0xb23c,15},{0xb23d,0xb257,16},{0xb258,0xb258,15},{0xb259,0xb273,16},
{0xb274,0xb274,15},{0xb275,0xb28f,16},{0xb290,0xb290,15},{0xb291,0xb2ab,16},{0xb2ac,0xb2ac,15},{0xb2ad,0xb2c7,16},
{0xb2c8,0xb2c8,15},{0xb2c9,0xb2e3,16},{0xb2e4,0xb2e4,15},{0xb2e5,0xb2ff,16},{0xb300,0xb300,15},{0xb301,0xb31b,16},
{0xb31c,0xb31c,15},{0xb31d,0xb337,16},{0xb338,0xb338,15},{0xb339,0xb353,16},{0xb354,0xb354,15},{0xb355,0xb36f,16},
{0xb370,0xb370,15},{0xb371,0xb38b,16},{0xb38c,0xb38c,15},{0xb38d,0xb3a7,16},{0xb3a8,0xb3a8,15},{0xb3a9,0xb3c3,16},
{0xb3c4,0xb3c4,15},{0xb3c5,0xb3df,16},{0xb3e0,0xb3e0,15},{0xb3e1,0xb3fb,16},{0xb3fc,0xb3fc,15},{0xb3fd,0xb417,16},
{0xb418,0xb418,15},{0xb419,0xb433,16},{0xb434,0xb434,15},{0xb435,0xb44f,16},{0xb450,0xb450,15},{0xb451,0xb46b,16},
{0xb46c,0xb46c,15},{0xb46d,0xb487,16},{0xb488,0xb488,15},{0xb489,0xb4a3,16},{0xb4a4,0xb4a4,15},{0xb4a5,0xb4bf,16},
{0xb4c0,0xb4c0,15},{0xb4c1,0xb4db,16},{0xb4dc,0xb4dc,15},{0xb4dd,0xb4f7,16},{0xb4f8,0xb4f8,15},{0xb4f9,0xb513,16},
{0xb514,0xb514,15},{0xb515,0xb52f,16},{0xb530,0xb530,15},{0xb531,0xb54b,16},{0xb54c,0xb54c,15},{0xb54d,0xb567,16},
{0xb568,0xb568,15},{0xb569,0xb583,16},{0xb584,0xb584,15},{0xb585,0xb59f,16},{0xb5a0,0xb5a0,15},{0xb5a1,0xb5bb,16},
{0xb5bc,0xb5bc,15},{0xb5bd,0xb5d7,16},{0xb5d8,0xb5d8,15},{0xb5d9,0xb5f3,16},{0xb5f4,0xb5f4,15},{0xb5f5,0xb60f,16},
{0xb610,0xb610,15},{0xb611,0xb62b,16},{0xb62c,0xb62c,15},{0xb62d,0xb647,16},{0xb648,0xb648,15},{0xb649,0xb663,16},
{0xb664,0xb664,15},{0xb665,0xb67f,16},{0xb680,0xb680,15},{0xb681,0xb69b,16},{0xb69c,0xb69c,15},{0xb69d,0xb6b7,16},
{0xb6b8,0xb6b8,15},{0xb6b9,0xb6d3,16},{0xb6d4,0xb6d4,15},{0xb6d5,0xb6ef,16},{0xb6f0,0xb6f0,15},{0xb6f1,0xb70b,16},
{0xb70c,0xb70c,15},{0xb70d,0xb727,16},{0xb728,0xb728,15},{0xb729,0xb743,16},{0xb744,0xb744,15},{0xb745,0xb75f,16},
{0xb760,0xb760,15},{0xb761,0xb77b,16},{0xb77c,0xb77c,15},{0xb77d,0xb797,16},{0xb798,0xb798,15},{0xb799,0xb7b3,16},
{0xb7b4,0xb7b4,15},{0xb7b5,0xb7cf,16},{0xb7d0,0xb7d0,15},{0xb7d1,0xb7eb,16},{0xb7ec,0xb7ec,15},{0xb7ed,0xb807,16},
{0xb808,0xb808,15},{0xb809,0xb823,16},{0xb824,0xb824,15},{0xb825,0xb83f,16},{0xb840,0xb840,15},{0xb841,0xb85b,16},
{0xb85c,0xb85c,15},{0xb85d,0xb877,16},{0xb878,0xb878,15},{0xb879,0xb893,16},{0xb894,0xb894,15},{0xb895,0xb8af,16},
{0xb8b0,0xb8b0,15},{0xb8b1,0xb8cb,16},{0xb8cc,0xb8cc,15},{0xb8cd,0xb8e7,16},{0xb8e8,0xb8e8,15},{0xb8e9,0xb903,16},
{0xb904,0xb904,15},{0xb905,0xb91f,16},{0xb920,0xb920,15},{0xb921,0xb93b,16},{0xb93c,0xb93c,15},{0xb93d,0xb957,16},
{0xb958,0xb958,15},{0xb959,0xb973,16},{0xb974,0xb974,15},{0xb975,0xb98f,16},{0xb990,0xb990,15},{0xb991,0xb9ab,16},
{0xb9ac,0xb9ac,15},{0xb9ad,0xb9c7,16},{0xb9c8,0xb9c8,15},{0xb9c9,0xb9e3,16},{0xb9e4,0xb9e4,15},{0xb9e5,0xb9ff,16},
{0xba00,0xba00,15},{0xba01,0xba1b,16},{0xba1c,0xba1c,15},{0xba1d,0xba37,16},{0xba38,0xba38,15},{0xba39,0xba53,16},
{0xba54,0xba54,15},{0xba55,0xba6f,16},{0xba70,0xba70,15},{0xba71,0xba8b,16},{0xba8c,0xba8c,15},{0xba8d,0xbaa7,16},
{0xbaa8,0xbaa8,15},{0xbaa9,0xbac3,16},{0xbac4,0xbac4,15},{0xbac5,0xbadf,16},{0xbae0,0xbae0,15},{0xbae1,0xbafb,16},
{0xbafc,0xbafc,15},{0xbafd,0xbb17,16},{0xbb18,0xbb18,15},{0xbb19,0xbb33,16},{0xbb34,0xbb34,15},{0xbb35,0xbb4f,16},
{0xbb50,0xbb50,15},{0xbb51,0xbb6b,16},{0xbb6c,0xbb6c,15},{0xbb6d,0xbb87,16},{0xbb88,0xbb88,15},{0xbb89,0xbba3,16},
{0xbba4,0xbba4,15},{0xbba5,0xbbbf,16},{0xbbc0,0xbbc0,15},{0xbbc1,0xbbdb,16},{0xbbdc,0xbbdc,15},{0xbbdd,0xbbf7,16},
{0xbbf8,0xbbf8,15},{0xbbf9,0xbc13,16},{0xbc14,0xbc14,15},{0xbc15,0xbc2f,16},{0xbc30,0xbc30,15},{0xbc31,0xbc4b,16},
{0xbc4c,0xbc4c,15},{0xbc4d,0xbc67,16},{0xbc68,0xbc68,15},{0xbc69,0xbc83,16},{0xbc84,0xbc84,15},{0xbc85,0xbc9f,16},
{0xbca0,0xbca0,15},{0xbca1,0xbcbb,16},{0xbcbc,0xbcbc,15},{0xbcbd,0xbcd7,16},{0xbcd8,0xbcd8,15},{0xbcd9,0xbcf3,16},
{0xbcf4,0xbcf4,15},{0xbcf5,0xbd0f,16},{0xbd10,0xbd10,15},{0xbd11,0xbd2b,16},{0xbd2c,0xbd2c,15},{0xbd2d,0xbd47,16},
{0xbd48,0xbd48,15},{0xbd49,0xbd63,16},{0xbd64,0xbd64,15},{0xbd65,0xbd7f,16},{0xbd80,0xbd80,15},{0xbd81,0xbd9b,16},
{0xbd9c,0xbd9c,15},{0xbd9d,0xbdb7,16},{0xbdb8,0xbdb8,15},{0xbdb9,0xbdd3,16},{0xbdd4,0xbdd4,15},{0xbdd5,0xbdef,16},
{0xbdf0,0xbdf0,15},{0xbdf1,0xbe0b,16},{0xbe0c,0xbe0c,15},{0xbe0d,0xbe27,16},{0xbe28,0xbe28,15},{0xbe29,0xbe43,16},
{0xbe44,0xbe44,15},{0xbe45,0xbe5f,16},{0xbe60,0xbe60,15},{0xbe61,0xbe7b,16},{0xbe7c,0xbe7c,15},{0xbe7d,0xbe97,16},
{0xbe98,0xbe98,15},{0xbe99,0xbeb3,16},{0xbeb4,0xbeb4,15},{0xbeb5,0xbecf,16},{0xbed0,0xbed0,15},{0xbed1,0xbeeb,16},
{0xbeec,0xbeec,15},{0xbeed,0xbf07,16},{0xbf08,0xbf08,15},{0xbf09,0xbf23,16},{0xbf24,0xbf24,15},{0xbf25,0xbf3f,16},
{0xbf40,0xbf40,15},{0xbf41,0xbf5b,16},{0xbf5c,0xbf5c,15},{0xbf5d,0xbf77,16},{0xbf78,0xbf78,15},{0xbf79,0xbf93,16},
{0xbf94,0xbf94,15},{0xbf95,0xbfaf,16},{0xbfb0,0xbfb0,15},{0xbfb1,0xbfcb,16},{0xbfcc,0xbfcc,15},{0xbfcd,0xbfe7,16},
{0xbfe8,0xbfe8,15},{0xbfe9,0xc003,16},{0xc004,0xc004,15},{0xc005,0xc01f,16},{0xc020,0xc020,15},{0xc021,0xc03b,16},
{0xc03c,0xc03c,15},{0xc03d,0xc057,16},{0xc058,0xc058,15},{0xc059,0xc073,16},{0xc074,0xc074,15},{0xc075,0xc08f,16},
{0xc090,0xc090,15},{0xc091,0xc0ab,16},{0xc0ac,0xc0ac,15},{0xc0ad,0xc0c7,16},{0xc0c8,0xc0c8,15},{0xc0c9,0xc0e3,16},
{0xc0e4,0xc0e4,15},{0xc0e5,0xc0ff,16},{0xc100,0xc100,15},{0xc101,0xc11b,16},{0xc11c,0xc11c,15},{0xc11d,0xc137,16},
{0xc138,0xc138,15},{0xc139,0xc153,16},{0xc154,0xc154,15},{0xc155,0xc16f,16},{0xc170,0xc170,15},{0xc171,0xc18b,16},
{0xc18c,0xc18c,15},{0xc18d,0xc1a7,16},{0xc1a8,0xc1a8,15},{0xc1a9,0xc1c3,16},{0xc1c4,0xc1c4,15},{0xc1c5,0xc1df,16},
{0xc1e0,0xc1e0,15},{0xc1e1,0xc1fb,16},{0xc1fc,0xc1fc,15},{0xc1fd,0xc217,16},{0xc218,0xc218,15},{0xc219,0xc233,16},
{0xc234,0xc234,15},{0xc235,0xc24f,16},{0xc250,0xc250,15},{0xc251,0xc26b,16},{0xc26c,0xc26c,15},{0xc26d,0xc287,16},
{0xc288,0xc288,15},{0xc289,0xc2a3,16},{0xc2a4,0xc2a4,15},{0xc2a5,0xc2bf,16},{0xc2c0,0xc2c0,15},{0xc2c1,0xc2db,16},
{0xc2dc,0xc2dc,15},{0xc2dd,0xc2f7,16},{0xc2f8,0xc2f8,15},{0xc2f9,0xc313,16},{0xc314,0xc314,15},{0xc315,0xc32f,16},
{0xc330,0xc330,15},{0xc331,0xc34b,16},{0xc34c,0xc34c,15},{0xc34d,0xc367,16},{0xc368,0xc368,15},{0xc369,0xc383,16},
{0xc384,0xc384,15},{0xc385,0xc39f,16},{0xc3a0,0xc3a0,15},{0xc3a1,0xc3bb,16},{0xc3bc,0xc3bc,15},{0xc3bd,0xc3d7,16},
{0xc3d8,0xc3d8,15},{0xc3d9,0xc3f3,16},{0xc3f4,0xc3f4,15},{0xc3f5,0xc40f,16},{0xc410,0xc410,15},{0xc411,0xc42b,16},
{0xc42c,0xc42c,15},{0xc42d,0xc447,16},{0xc448,0xc448,15},{0xc449,0xc463,16},{0xc464,0xc464,15},{0xc465,0xc47f,16},
{0xc480,0xc480,15},{0xc481,0xc49b,16},{0xc49c,0xc49c,15},{0xc49d,0xc4b7,16},{0xc4b8,0xc4b8,15},{0xc4b9,0xc4d3,16},
{0xc4d4,0xc4d4,15},{0xc4d5,0xc4ef,16},{0xc4f0,0xc4f0,15},{0xc4f1,0xc50b,16},{0xc50c,0xc50c,15},{0xc50d,0xc527,16},
{0xc528,0xc528,15},{0xc529,0xc543,16},{0xc544,0xc544,15},{0xc545,0xc55f,16},{0xc560,0xc560,15},{0xc561,0xc57b,16},
{0xc57c,0xc57c,15},{0xc57d,0xc597,16},{0xc598,0xc598,15},{0xc599,0xc5b3,16},{0xc5b4,0xc5b4,15},{0xc5b5,0xc5cf,16},
{0xc5d0,0xc5d0,15},{0xc5d1,0xc5eb,16},{0xc5ec,0xc5ec,15},{0xc5ed,0xc607,16},{0xc608,0xc608,15},{0xc609,0xc623,16},
{0xc624,0xc624,15},{0xc625,0xc63f,16},{0xc640,0xc640,15},{0xc641,0xc65b,16},{0xc65c,0xc65c,15},{0xc65d,0xc677,16},
{0xc678,0xc678,15},{0xc679,0xc693,16},{0xc694,0xc694,15},{0xc695,0xc6af,16},{0xc6b0,0xc6b0,15},{0xc6b1,0xc6cb,16},
{0xc6cc,0xc6cc,15},{0xc6cd,0xc6e7,16},{0xc6e8,0xc6e8,15},{0xc6e9,0xc703,16},{0xc704,0xc704,15},{0xc705,0xc71f,16},
{0xc720,0xc720,15},{0xc721,0xc73b,16},{0xc73c,0xc73c,15},{0xc73d,0xc757,16},{0xc758,0xc758,15},{0xc759,0xc773,16},
{0xc774,0xc774,15},{0xc775,0xc78f,16},{0xc790,0xc790,15},{0xc791,0xc7ab,16},{0xc7ac,0xc7ac,15},{0xc7ad,0xc7c7,16},
{0xc7c8,0xc7c8,15},{0xc7c9,0xc7e3,16},{0xc7e4,0xc7e4,15},{0xc7e5,0xc7ff,16},{0xc800,0xc800,15},{0xc801,0xc81b,16},
{0xc81c,0xc81c,15},{0xc81d,0xc837,16},{0xc838,0xc838,15},{0xc839,0xc853,16},{0xc854,0xc854,15},{0xc855,0xc86f,16},
{0xc870,0xc870,15},{0xc871,0xc88b,16},{0xc88c,0xc88c,15},{0xc88d,0xc8a7,16},{0xc8a8,0xc8a8,15},{0xc8a9,0xc8c3,16},
{0xc8c4,0xc8c4,15},{0xc8c5,0xc8df,16},{0xc8e0,0xc8e0,15},{0xc8e1,0xc8fb,16},{0xc8fc,0xc8fc,15},{0xc8fd,0xc917,16},
{0xc918,0xc918,15},{0xc919,0xc933,16},{0xc934,0xc934,15},{0xc935,0xc94f,16},{0xc950,0xc950,15},{0xc951,0xc96b,16},
{0xc96c,0xc96c,15},{0xc96d,0xc987,16},{0xc988,0xc988,15},{0xc989,0xc9a3,16},{0xc9a4,0xc9a4,15},{0xc9a5,0xc9bf,16},
{0xc9c0,0xc9c0,15},{0xc9c1,0xc9db,16},{0xc9dc,0xc9dc,15},{0xc9dd,0xc9f7,16},{0xc9f8,0xc9f8,15},{0xc9f9,0xca13,16},
{0xca14,0xca14,15},{0xca15,0xca2f,16},{0xca30,0xca30,15},{0xca31,0xca4b,16},{0xca4c,0xca4c,15},{0xca4d,0xca67,16},
{0xca68,0xca68,15},{0xca69,0xca83,16},{0xca84,0xca84,15},{0xca85,0xca9f,16},{0xcaa0,0xcaa0,15},{0xcaa1,0xcabb,16},
{0xcabc,0xcabc,15},{0xcabd,0xcad7,16},{0xcad8,0xcad8,15},{0xcad9,0xcaf3,16},{0xcaf4,0xcaf4,15},{0xcaf5,0xcb0f,16},
{0xcb10,0xcb10,15},{0xcb11,0xcb2b,16},{0xcb2c,0xcb2c,15},{0xcb2d,0xcb47,16},{0xcb48,0xcb48,15},{0xcb49,0xcb63,16},
{0xcb64,0xcb64,15},{0xcb65,0xcb7f,16},{0xcb80,0xcb80,15},{0xcb81,0xcb9b,16},{0xcb9c,0xcb9c,15},{0xcb9d,0xcbb7,16},
{0xcbb8,0xcbb8,15},{0xcbb9,0xcbd3,16},{0xcbd4,0xcbd4,15},{0xcbd5,0xcbef,16},{0xcbf0,0xcbf0,15},{0xcbf1,0xcc0b,16},
{0xcc0c,0xcc0c,15},{0xcc0d,0xcc27,16},{0xcc28,0xcc28,15},{0xcc29,0xcc43,16},{0xcc44,0xcc44,15},{0xcc45,0xcc5f,16},
{0xcc60,0xcc60,15},{0xcc61,0xcc7b,16},{0xcc7c,0xcc7c,15},{0xcc7d,0xcc97,16},{0xcc98,0xcc98,15},{0xcc99,0xccb3,16},
{0xccb4,0xccb4,15},{0xccb5,0xcccf,16},{0xccd0,0xccd0,15},{0xccd1,0xcceb,16},{0xccec,0xccec,15},{0xcced,0xcd07,16},
{0xcd08,0xcd08,15},{0xcd09,0xcd23,16},{0xcd24,0xcd24,15},{0xcd25,0xcd3f,16},{0xcd40,0xcd40,15},{0xcd41,0xcd5b,16},
{0xcd5c,0xcd5c,15},{0xcd5d,0xcd77,16},{0xcd78,0xcd78,15},{0xcd79,0xcd93,16},{0xcd94,0xcd94,15},{0xcd95,0xcdaf,16},
{0xcdb0,0xcdb0,15},{0xcdb1,0xcdcb,16},{0xcdcc,0xcdcc,15},{0xcdcd,0xcde7,16},{0xcde8,0xcde8,15},{0xcde9,0xce03,16},
{0xce04,0xce04,15},{0xce05,0xce1f,16},{0xce20,0xce20,15},{0xce21,0xce3b,16},{0xce3c,0xce3c,15},{0xce3d,0xce57,16},
{0xce58,0xce58,15},{0xce59,0xce73,16},{0xce74,0xce74,15},{0xce75,0xce8f,16},{0xce90,0xce90,15},{0xce91,0xceab,16},
{0xceac,0xceac,15},{0xcead,0xcec7,16},{0xcec8,0xcec8,15},{0xcec9,0xcee3,16},{0xcee4,0xcee4,15},{0xcee5,0xceff,16},
{0xcf00,0xcf00,15},{0xcf01,0xcf1b,16},{0xcf1c,0xcf1c,15},{0xcf1d,0xcf37,16},{0xcf38,0xcf38,15},{0xcf39,0xcf53,16},
{0xcf54,0xcf54,15},{0xcf55,0xcf6f,16},{0xcf70,0xcf70,15},{0xcf71,0xcf8b,16},{0xcf8c,0xcf8c,15},{0xcf8d,0xcfa7,16},
{0xcfa8,0xcfa8,15},{0xcfa9,0xcfc3,16},{0xcfc4,0xcfc4,15},{0xcfc5,0xcfdf,16},{0xcfe0,0xcfe0,15},{0xcfe1,0xcffb,16},
{0xcffc,0xcffc,15},{0xcffd,0xd017,16},{0xd018,0xd018,15},{0xd019,0xd033,16},{0xd034,0xd034,15},{0xd035,0xd04f,16},
{0xd050,0xd050,15},{0xd051,0xd06b,16},{0xd06c,0xd06c,15},{0xd06d,0xd087,16},{0xd088,0xd088,15},{0xd089,0xd0a3,16},
{0xd0a4,0xd0a4,15},{0xd0a5,0xd0bf,16},{0xd0c0,0xd0c0,15},{0xd0c1,0xd0db,16},{0xd0dc,0xd0dc,15},{0xd0dd,0xd0f7,16},
{0xd0f8,0xd0f8,15},{0xd0f9,0xd113,16},{0xd114,0xd114,15},{0xd115,0xd12f,16},{0xd130,0xd130,15},{0xd131,0xd14b,16},
{0xd14c,0xd14c,15},{0xd14d,0xd167,16},{0xd168,0xd168,15},{0xd169,0xd183,16},{0xd184,0xd184,15},{0xd185,0xd19f,16},
{0xd1a0,0xd1a0,15},{0xd1a1,0xd1bb,16},{0xd1bc,0xd1bc,15},{0xd1bd,0xd1d7,16},{0xd1d8,0xd1d8,15},{0xd1d9,0xd1f3,16},
{0xd1f4,0xd1f4,15},{0xd1f5,0xd20f,16},{0xd210,0xd210,15},{0xd211,0xd22b,16},{0xd22c,0xd22c,15},{0xd22d,0xd247,16},
{0xd248,0xd248,15},{0xd249,0xd263,16},{0xd264,0xd264,15},{0xd265,0xd27f,16},{0xd280,0xd280,15},{0xd281,0xd29b,16},
{0xd29c,0xd29c,15},{0xd29d,0xd2b7,16},{0xd2b8,0xd2b8,15},{0xd2b9,0xd2d3,16},{0xd2d4,0xd2d4,15},{0xd2d5,0xd2ef,16},
{0xd2f0,0xd2f0,15},{0xd2f1,0xd30b,16},{0xd30c,0xd30c,15},{0xd30d,0xd327,16},{0xd328,0xd328,15},{0xd329,0xd343,16},
{0xd344,0xd344,15},{0xd345,0xd35f,16},{0xd360,0xd360,15},{0xd361,0xd37b,16},{0xd37c,0xd37c,15},{0xd37d,0xd397,16},
{0xd398,0xd398,15},{0xd399,0xd3b3,16},{0xd3b4,0xd3b4,15},{0xd3b5,0xd3cf,16},{0xd3d0,0xd3d0,15},{0xd3d1,0xd3eb,16},
{0xd3ec,0xd3ec,15},{0xd3ed,0xd407,16},{0xd408,0xd408,15},{0xd409,0xd423,16},{0xd424,0xd424,15},{0xd425,0xd43f,16},
{0xd440,0xd440,15},{0xd441,0xd45b,16},{0xd45c,0xd45c,15},{0xd45d,0xd477,16},{0xd478,0xd478,15},{0xd479,0xd493,16},
{0xd494,0xd494,15},{0xd495,0xd4af,16},{0xd4b0,0xd4b0,15},{0xd4b1,0xd4cb,16},{0xd4cc,0xd4cc,15},{0xd4cd,0xd4e7,16},
{0xd4e8,0xd4e8,15},{0xd4e9,0xd503,16},{0xd504,0xd504,15},{0xd505,0xd51f,16},{0xd520,0xd520,15},{0xd521,0xd53b,16},
{0xd53c,0xd53c,15},{0xd53d,0xd557,16},{0xd558,0xd558,15},{0xd559,0xd573,16},{0xd574,0xd574,15},{0xd575,0xd58f,16},
{0xd590,0xd590,15},{0xd591,0xd5ab,16},{0xd5ac,0xd5ac,15},{0xd5ad,0xd5c7,16},{0xd5c8,0xd5c8,15},{0xd5c9,0xd5e3,16},
{0xd5e4,0xd5e4,15},{0xd5e5,0xd5ff,16},{0xd600,0xd600,15},{0xd601,0xd61b,16},{0xd61c,0xd61c,15},{0xd61d,0xd637,16},
{0xd638,0xd638,15},{0xd639,0xd653,16},{0xd654,0xd654,15},{0xd655,0xd66f,16},{0xd670,0xd670,15},{0xd671,0xd68b,16},
{0xd68c,0xd68c,15},{0xd68d,0xd6a7,16},{0xd6a8,0xd6a8,15},{0xd6a9,0xd6c3,16},{0xd6c4,0xd6c4,15},{0xd6c5,0xd6df,16},
{0xd6e0,0xd6e0,15},{0xd6e1,0xd6fb,16},{0xd6fc,0xd6fc,15},{0xd6fd,0xd717,16},{0xd718,0xd718,15},{0xd719,0xd733,16},
{0xd734,0xd734,15},{0xd735,0xd74f,16},{0xd750,0xd750,15},{0xd751,0xd76b,16},{0xd76c,0xd76c,15},{0xd76d,0xd787,16},
{0xd788,0xd788,15},{0xd789,0xd7a3,16},{0xd7b0,0xd7c6,25},{0xd7cb,0xd7fb,24},{0xf900,0xfaff,19},{0xfb1d,0xfb1d,17},
{0xfb1e,0xfb1e,7},{0xfb1f,0xfb28,17},{0xfb2a,0xfb36,17},{0xfb38,0xfb3c,17},{0xfb3e,0xfb3e,17},{0xfb40,0xfb41,17},
{0xfb43,0xfb44,17},{0xfb46,0xfb4f,17},{0xfd3e,0xfd3e,6},{0xfd3f,0xfd3f,30},{0xfdfc,0xfdfc,32},{0xfe00,0xfe0f,7},
{0xfe10,0xfe10,22},{0xfe11,0xfe12,6},{0xfe13,0xfe14,22},{0xfe15,0xfe16,13},{0xfe17,0xfe17,31},{0xfe18,0xfe18,6},
{0xfe19,0xfe19,21},{0xfe20,0xfe2f,7},{0xfe30,0xfe34,19},{0xfe35,0xfe35,31},{0xfe36,0xfe36,6},{0xfe37,0xfe37,31},
{0xfe38,0xfe38,6},{0xfe39,0xfe39,31},{0xfe3a,0xfe3a,6},{0xfe3b,0xfe3b,31},{0xfe3c,0xfe3c,6},{0xfe3d,0xfe3d,31},
{0xfe3e,0xfe3e,6},{0xfe3f,0xfe3f,31},{0xfe40,0xfe40,6},{0xfe41,0xfe41,31},{0xfe42,0xfe42,6},{0xfe43,0xfe43,31},
{0xfe44,0xfe44,6},{0xfe45,0xfe46,19},{0xfe47,0xfe47,31},{0xfe48,0xfe48,6},{0xfe49,0xfe4f,19},{0xfe50,0xfe50,6},
{0xfe51,0xfe51,19},{0xfe52,0xfe52,6},{0xfe54,0xfe55,28},{0xfe56,0xfe57,13},{0xfe58,0xfe58,19},{0xfe59,0xfe59,31},
{0xfe5a,0xfe5a,6},{0xfe5b,0xfe5b,31},{0xfe5c,0xfe5c,6},{0xfe5d,0xfe5d,31},{0xfe5e,0xfe5e,6},{0xfe5f,0xfe66,19},
{0xfe68,0xfe68,19},{0xfe69,0xfe69,33},{0xfe6a,0xfe6a,32},{0xfe6b,0xfe6b,19},{0xfeff,0xfeff,38},{0xff01,0xff01,13},
{0xff02,0xff03,19},{0xff04,0xff04,33},{0xff05,0xff05,32},{0xff06,0xff07,19},{0xff08,0xff08,31},{0xff09,0xff09,6},
{0xff0a,0xff0b,19},{0xff0c,0xff0c,6},{0xff0d,0xff0d,19},{0xff0e,0xff0e,6},{0xff0f,0xff19,19},{0xff1a,0xff1b,28},
{0xff1c,0xff1e,19},{0xff1f,0xff1f,13},{0xff20,0xff3a,19},{0xff3b,0xff3b,31},{0xff3c,0xff3c,19},{0xff3d,0xff3d,6},
{0xff3e,0xff5a,19},{0xff5b,0xff5b,31},{0xff5c,0xff5c,19},{0xff5d,0xff5d,6},{0xff5e,0xff5e,19},{0xff5f,0xff5f,31},
{0xff60,0xff61,6},{0xff62,0xff62,31},{0xff63,0xff64,6},{0xff65,0xff65,28},{0xff66,0xff66,19},{0xff67,0xff70,28},
{0xff71,0xff9d,19},{0xff9e,0xff9f,28},{0xffa0,0xffbe,19},{0xffc2,0xffc7,19},{0xffca,0xffcf,19},{0xffd2,0xffd7,19},
{0xffda,0xffdc,19},{0xffe0,0xffe0,32},{0xffe1,0xffe1,33},{0xffe2,0xffe4,19},{0xffe5,0xffe6,33},{0xfff9,0xfffb,7},
{0xfffc,0xfffc,5},{0x10100,0x10102,2},{0x101fd,0x101fd,7},{0x102e0,0x102e0,7},{0x10376,0x1037a,7},{0x1039f,0x1039f,2},
{0x103d0,0x103d0,2},{0x104a0,0x104a9,29},{0x10857,0x10857,2},{0x1091f,0x1091f,2},{0x10a01,0x10a03,7},{0x10a05,0x10a06,7},
{0x10a0c,0x10a0f,7},{0x10a38,0x10a3a,7},{0x10a3f,0x10a3f,7},{0x10a50,0x10a57,2},{0x10ae5,0x10ae6,7},{0x10af0,0x10af5,2},
{0x10af6,0x10af6,21},{0x10b39,0x10b3f,2},{0x10d24,0x10d27,7},{0x10d30,0x10d39,29},{0x10eab,0x10eac,7},{0x10ead,0x10ead,2},
{0x10efd,0x10eff,7},{0x10f46,0x10f50,7},{0x10f82,0x10f85,7},{0x11000,0x11002,7},{0x11038,0x11046,7},{0x11047,0x11048,2},
{0x11066,0x1106f,29},{0x11070,0x11070,7},{0x11073,0x11074,7},{0x1107f,0x11082,7},{0x110b0,0x110ba,7},{0x110be,0x110c1,2},
{0x110c2,0x110c2,7},{0x110f0,0x110f9,29},{0x11100,0x11102,7},{0x11127,0x11134,7},{0x11136,0x1113f,29},{0x11140,0x11143,2},
{0x11145,0x11146,7},{0x11173,0x11173,7},{0x11175,0x11175,3},{0x11180,0x11182,7},{0x111b3,0x111c0,7},{0x111c5,0x111c6,2},
{0x111c8,0x111c8,2},{0x111c9,0x111cc,7},{0x111ce,0x111cf,7},{0x111d0,0x111d9,29},{0x111db,0x111db,3},{0x111dd,0x111df,2},
{0x1122c,0x11237,7},{0x11238,0x11239,2},{0x1123b,0x1123c,2},{0x1123e,0x1123e,7},{0x11241,0x11241,7},{0x112a9,0x112a9,2},
{0x112df,0x112ea,7},{0x112f0,0x112f9,29},{0x11300,0x11303,7},{0x1133b,0x1133c,7},{0x1133e,0x11344,7},{0x11347,0x11348,7},
{0x1134b,0x1134d,7},{0x11357,0x11357,7},{0x11362,0x11363,7},{0x11366,0x1136c,7},{0x11370,0x11374,7},{0x11435,0x11446,7},
{0x1144b,0x1144e,2},{0x11450,0x11459,29},{0x1145a,0x1145b,2},{0x1145e,0x1145e,7},{0x114b0,0x114c3,7},{0x114d0,0x114d9,29},
{0x115af,0x115b5,7},{0x115b8,0x115c0,7},{0x115c1,0x115c1,3},{0x115c2,0x115c3,2},{0x115c4,0x115c5,13},{0x115c9,0x115d7,2},
{0x115dc,0x115dd,7},{0x11630,0x11640,7},{0x11641,0x11642,2},{0x11650,0x11659,29},{0x11660,0x1166c,3},{0x116ab,0x116b7,7},
{0x116c0,0x116c9,29},{0x1171d,0x1172b,7},{0x11730,0x11739,29},{0x1173c,0x1173e,2},{0x1182c,0x1183a,7},{0x118e0,0x118e9,29},
{0x11930,0x11935,7},{0x11937,0x11938,7},{0x1193b,0x1193e,7},{0x11940,0x11940,7},{0x11942,0x11943,7},{0x11944,0x11946,2},
{0x11950,0x11959,29},{0x119d1,0x119d7,7},{0x119da,0x119e0,7},{0x119e2,0x119e2,3},{0x119e4,0x119e4,7},{0x11a01,0x11a0a,7},
{0x11a33,0x11a39,7},{0x11a3b,0x11a3e,7},{0x11a3f,0x11a3f,3},{0x11a41,0x11a44,2},{0x11a45,0x11a45,3},{0x11a47,0x11a47,7},
{0x11a51,0x11a5b,7},{0x11a8a,0x11a99,7},{0x11a9a,0x11a9c,2},{0x11a9e,0x11aa0,3},{0x11aa1,0x11aa2,2},{0x11b00,0x11b09,3},
{0x11c2f,0x11c36,7},{0x11c38,0x11c3f,7},{0x11c41,0x11c45,2},{0x11c50,0x11c59,29},{0x11c70,0x11c70,3},{0x11c71,0x11c71,13},
{0x11c92,0x11ca7,7},{0x11ca9,0x11cb6,7},{0x11d31,0x11d36,7},{0x11d3a,0x11d3a,7},{0x11d3c,0x11d3d,7},{0x11d3f,0x11d45,7},
{0x11d47,0x11d47,7},{0x11d50,0x11d59,29},{0x11d8a,0x11d8e,7},{0x11d90,0x11d91,7},{0x11d93,0x11d97,7},{0x11da0,0x11da9,29},
{0x11ef3,0x11ef6,7},{0x11f00,0x11f01,7},{0x11f03,0x11f03,7},{0x11f34,0x11f3a,7},{0x11f3e,0x11f42,7},{0x11f43,0x11f44,2},
{0x11f45,0x11f4f,19},{0x11f50,0x11f59,29},{0x11fdd,0x11fe0,32},{0x11fff,0x11fff,2},{0x12470,0x12474,2},{0x13258,0x1325a,30},
{0x1325b,0x1325d,6},{0x13282,0x13282,6},{0x13286,0x13286,30},{0x13287,0x13287,6},{0x13288,0x13288,30},{0x13289,0x13289,6},
{0x13379,0x13379,30},{0x1337a,0x1337b,6},{0x13430,0x13436,14},{0x13437,0x13437,30},{0x13438,0x13438,6},{0x13439,0x1343b,14},
{0x1343c,0x1343c,30},{0x1343d,0x1343d,6},{0x1343e,0x1343e,30},{0x1343f,0x1343f,6},{0x13440,0x13440,7},{0x13447,0x13455,7},
{0x145ce,0x145ce,30},{0x145cf,0x145cf,6},{0x16a60,0x16a69,29},{0x16a6e,0x16a6f,2},{0x16ac0,0x16ac9,29},{0x16af0,0x16af4,7},
{0x16af5,0x16af5,2},{0x16b30,0x16b36,7},{0x16b37,0x16b39,2},{0x16b44,0x16b44,2},{0x16b50,0x16b59,29},{0x16e97,0x16e98,2},
{0x16f4f,0x16f4f,7},{0x16f51,0x16f87,7},{0x16f8f,0x16f92,7},{0x16fe0,0x16fe3,28},{0x16fe4,0x16fe4,14},{0x16ff0,0x16ff1,7},
{0x17000,0x187f7,19},{0x18800,0x18aff,19},{0x18d00,0x18d08,19},{0x1b000,0x1b122,19},{0x1b132,0x1b132,28},{0x1b150,0x1b152,28},
{0x1b155,0x1b155,28},{0x1b164,0x1b167,28},{0x1b170,0x1b2fb,19},{0x1bc9d,0x1bc9e,7},{0x1bc9f,0x1bc9f,2},{0x1bca0,0x1bca3,7},
{0x1cf00,0x1cf2d,7},{0x1cf30,0x1cf46,7},{0x1d165,0x1d169,7},{0x1d16d,0x1d182,7},{0x1d185,0x1d18b,7},{0x1d1aa,0x1d1ad,7},
{0x1d242,0x1d244,7},{0x1d7ce,0x1d7ff,29},{0x1da00,0x1da36,7},{0x1da3b,0x1da6c,7},{0x1da75,0x1da75,7},{0x1da84,0x1da84,7},
{0x1da87,0x1da8a,2},{0x1da9b,0x1da9f,7},{0x1daa1,0x1daaf,7},{0x1e000,0x1e006,7},{0x1e008,0x1e018,7},{0x1e01b,0x1e021,7},
{0x1e023,0x1e024,7},{0x1e026,0x1e02a,7},{0x1e08f,0x1e08f,7},{0x1e130,0x1e136,7},{0x1e140,0x1e149,29},{0x1e2ae,0x1e2ae,7},
{0x1e2ec,0x1e2ef,7},{0x1e2f0,0x1e2f9,29},{0x1e2ff,0x1e2ff,33},{0x1e4ec,0x1e4ef,7},{0x1e4f0,0x1e4f9,29},{0x1e8d0,0x1e8d6,7},
{0x1e944,0x1e94a,7},{0x1e950,0x1e959,29},{0x1e95e,0x1e95f,30},{0x1ecac,0x1ecac,32},{0x1ecb0,0x1ecb0,32},{0x1f000,0x1f02b,19},
{0x1f02c,0x1f02f,20},{0x1f030,0x1f093,19},{0x1f094,0x1f09f,20},{0x1f0a0,0x1f0ae,19},{0x1f0af,0x1f0b0,20},{0x1f0b1,0x1f0bf,19},
{0x1f0c0,0x1f0c0,20},{0x1f0c1,0x1f0cf,19},{0x1f0d0,0x1f0d0,20},{0x1f0d1,0x1f0f5,19},{0x1f0f6,0x1f0ff,20},{0x1f10d,0x1f10f,19},
{0x1f16d,0x1f16f,19},{0x1f1ad,0x1f1ad,19},{0x1f1ae,0x1f1e5,20},{0x1f1e6,0x1f1ff,35},{0x1f200,0x1f202,19},{0x1f203,0x1f20f,20},
{0x1f210,0x1f23b,19},{0x1f23c,0x1f23f,20},{0x1f240,0x1f248,19},{0x1f249,0x1f24f,20},{0x1f250,0x1f251,19},{0x1f252,0x1f25f,20},
{0x1f260,0x1f265,19},{0x1f266,0x1f2ff,20},{0x1f300,0x1f384,19},{0x1f385,0x1f385,11},{0x1f386,0x1f39b,19},{0x1f39e,0x1f3b4,19},
{0x1f3b7,0x1f3bb,19},{0x1f3bd,0x1f3c1,19},{0x1f3c2,0x1f3c4,11},{0x1f3c5,0x1f3c6,19},{0x1f3c7,0x1f3c7,11},{0x1f3c8,0x1f3c9,19},
{0x1f3ca,0x1f3cc,11},{0x1f3cd,0x1f3fa,19},{0x1f3fb,0x1f3ff,12},{0x1f400,0x1f441,19},{0x1f442,0x1f443,11},{0x1f444,0x1f445,19},
{0x1f446,0x1f450,11},{0x1f451,0x1f465,19},{0x1f466,0x1f478,11},{0x1f479,0x1f47b,19},{0x1f47c,0x1f47c,11},{0x1f47d,0x1f480,19},
{0x1f481,0x1f483,11},{0x1f484,0x1f484,19},{0x1f485,0x1f487,11},{0x1f488,0x1f48e,19},{0x1f48f,0x1f48f,11},{0x1f490,0x1f490,19},
{0x1f491,0x1f491,11},{0x1f492,0x1f49f,19},{0x1f4a1,0x1f4a1,19},{0x1f4a3,0x1f4a3,19},{0x1f4a5,0x1f4a9,19},{0x1f4aa,0x1f4aa,11},
{0x1f4ab,0x1f4ae,19},{0x1f4b0,0x1f4b0,19},{0x1f4b3,0x1f4ff,19},{0x1f507,0x1f516,19},{0x1f525,0x1f531,19},{0x1f54a,0x1f573,19},
{0x1f574,0x1f575,11},{0x1f576,0x1f579,19},{0x1f57a,0x1f57a,11},{0x1f57b,0x1f58f,19},{0x1f590,0x1f590,11},{0x1f591,0x1f594,19},
{0x1f595,0x1f596,11},{0x1f597,0x1f5d3,19},{0x1f5dc,0x1f5f3,19},{0x1f5fa,0x1f644,19},{0x1f645,0x1f647,11},{0x1f648,0x1f64a,19},
{0x1f64b,0x1f64f,11},{0x1f676,0x1f678,34},{0x1f679,0x1f67b,28},{0x1f680,0x1f6a2,19},{0x1f6a3,0x1f6a3,11},{0x1f6a4,0x1f6b3,19},
{0x1f6b4,0x1f6b6,11},{0x1f6b7,0x1f6bf,19},{0x1f6c0,0x1f6c0,11},{0x1f6c1,0x1f6cb,19},{0x1f6cc,0x1f6cc,11},{0x1f6cd,0x1f6d7,19},
{0x1f6d8,0x1f6db,20},{0x1f6dc,0x1f6ec,19},{0x1f6ed,0x1f6ef,20},{0x1f6f0,0x1f6fc,19},{0x1f6fd,0x1f6ff,20},{0x1f774,0x1f776,19},
{0x1f777,0x1f77a,20},{0x1f77b,0x1f77f,19},{0x1f7d5,0x1f7d9,19},{0x1f7da,0x1f7df,20},{0x1f7e0,0x1f7eb,19},{0x1f7ec,0x1f7ef,20},
{0x1f7f0,0x1f7f0,19},{0x1f7f1,0x1f7ff,20},{0x1f80c,0x1f80f,20},{0x1f848,0x1f84f,20},{0x1f85a,0x1f85f,20},{0x1f888,0x1f88f,20},
{0x1f8ae,0x1f8af,20},{0x1f8b0,0x1f8b1,19},{0x1f8b2,0x1f8ff,20},{0x1f90c,0x1f90c,11},{0x1f90d,0x1f90e,19},{0x1f90f,0x1f90f,11},
{0x1f910,0x1f917,19},{0x1f918,0x1f91f,11},{0x1f920,0x1f925,19},{0x1f926,0x1f926,11},{0x1f927,0x1f92f,19},{0x1f930,0x1f939,11},
{0x1f93a,0x1f93b,19},{0x1f93c,0x1f93e,11},{0x1f93f,0x1f976,19},{0x1f977,0x1f977,11},{0x1f978,0x1f9b4,19},{0x1f9b5,0x1f9b6,11},
{0x1f9b7,0x1f9b7,19},{0x1f9b8,0x1f9b9,11},{0x1f9ba,0x1f9ba,19},{0x1f9bb,0x1f9bb,11},{0x1f9bc,0x1f9cc,19},{0x1f9cd,0x1f9cf,11},
{0x1f9d0,0x1f9d0,19},{0x1f9d1,0x1f9dd,11},{0x1f9de,0x1f9ff,19},{0x1fa54,0x1fa5f,20},{0x1fa60,0x1fa6d,19},{0x1fa6e,0x1fa6f,20},
{0x1fa70,0x1fa7c,19},{0x1fa7d,0x1fa7f,20},{0x1fa80,0x1fa88,19},{0x1fa89,0x1fa8f,20},{0x1fa90,0x1fabd,19},{0x1fabe,0x1fabe,20},
{0x1fabf,0x1fac2,19},{0x1fac3,0x1fac5,11},{0x1fac6,0x1facd,20},{0x1face,0x1fadb,19},{0x1fadc,0x1fadf,20},{0x1fae0,0x1fae8,19},
{0x1fae9,0x1faef,20},{0x1faf0,0x1faf8,11},{0x1faf9,0x1faff,20},{0x1fbf0,0x1fbf9,29},{0x1fc00,0x1fffd,20},{0x20000,0x2fffd,19},
{0x30000,0x3fffd,19},{0xe0001,0xe0001,7},{0xe0020,0xe007f,7},{0xe0100,0xe01ef,7},
};
enum bc_class {BC_L,BC_R,BC_AL,BC_EN,BC_ES,BC_ET,BC_AN,BC_CS,BC_NSM,BC_BN,BC_B,BC_S,BC_WS,BC_ON,BC_LRE,BC_LRO,BC_RLE,BC_RLO,BC_PDF,BC_LRI,BC_RLI,BC_FSI,BC_PDI, BC_NUM};
static const char *const bc_names[] = {"L","R","AL","EN","ES","ET","AN","CS","NSM","BN","B","S","WS","ON","LRE","LRO","RLE","RLO","PDF","LRI","RLI","FSI","PDI"};
static const struct ref_range bc_ranges[] = {
{0x0,0x8,9},{0x9,0x9,11},{0xa,0xa,10},{0xb,0xb,11},{0xc,0xc,12},{0xd,0xd,10},
{0xe,0x1b,9},{0x1c,0x1e,10},{0x1f,0x1f,11},{0x20,0x20,12},{0x21,0x22,13},{0x23,0x25,5},
{0x26,0x2a,13},{0x2b,0x2b,4},{0x2c,0x2c,7},{0x2d,0x2d,4},{0x2e,0x2f,7},{0x30,0x39,3},
{0x3a,0x3a,7},{0x3b,0x40,13},{0x5b,0x60,13},{0x7b,0x7e,13},{0x7f,0x84,9},{0x85,0x85,10},
{0x86,0x9f,9},{0xa0,0xa0,7},{0xa1,0xa1,13},{0xa2,0xa5,5},{0xa6,0xa9,13},{0xab,0xac,13},
{0xad,0xad,9},{0xae,0xaf,13},{0xb0,0xb1,5},{0xb2,0xb3,3},{0xb4,0xb4,13},{0xb6,0xb8,13},
{0xb9,0xb9,3},{0xbb,0xbf,13},{0xd7,0xd7,13},{0xf7,0xf7,13},{0x2b9,0x2ba,13},{0x2c2,0x2cf,13},
{0x2d2,0x2df,13},{0x2e5,0x2ed,13},{0x2ef,0x2ff,13},{0x300,0x36f,8},{0x374,0x375,13},{0x37e,0x37e,13},
{0x384,0x385,13},{0x387,0x387,13},{0x3f6,0x3f6,13},{0x483,0x489,8},{0x58a,0x58a,13},{0x58d,0x58e,13},
{0x58f,0x58f,5},{0x590,0x590,1},{0x591,0x5bd,8},{0x5be,0x5be,1},{0x5bf,0x5bf,8},{0x5c0,0x5c0,1},
{0x5c1,0x5c2,8},{0x5c3,0x5c3,1},{0x5c4,0x5c5,8},{0x5c6,0x5c6,1},{0x5c7,0x5c7,8},{0x5c8,0x5ff,1},
{0x600,0x605,6},{0x606,0x607,13},{0x608,0x608,2},{0x609,0x60a,5},{0x60b,0x60b,2},{0x60c,0x60c,7},
{0x60d,0x60d,2},{0x60e,0x60f,13},{0x610,0x61a,8},{0x61b,0x64a,2},{0x64b,0x65f,8},{0x660,0x669,6},
{0x66a,0x66a,5},{0x66b,0x66c,6},{0x66d,0x66f,2},{0x670,0x670,8},{0x671,0x6d5,2},{0x6d6,0x6dc,8},
{0x6dd,0x6dd,6},{0x6de,0x6de,13},{0x6df,0x6e4,8},{0x6e5,0x6e6,2},{0x6e7,0x6e8,8},{0x6e9,0x6e9,13},
{0x6ea,0x6ed,8},{0x6ee,0x6ef,2},{0x6f0,0x6f9,3},{0x6fa,0x710,2},{0x711,0x711,8},{0x712,0x72f,2},
{0x730,0x74a,8},{0x74b,0x7a5,2},{0x7a6,0x7b0,8},{0x7b1,0x7bf,2},{0x7c0,0x7ea,1},{0x7eb,0x7f3,8},
{0x7f4,0x7f5,1},{0x7f6,0x7f9,13},{0x7fa,0x7fc,1},{0x7fd,0x7fd,8},{0x7fe,0x815,1},{0x816,0x819,8},
{0x81a,0x81a,1},{0x81b,0x823,8},{0x824,0x824,1},{0x825,0x827,8},{0x828,0x828,1},{0x829,0x82d,8},
{0x82e,0x858,1},{0x859,0x85b,8},{0x85c,0x85f,1},{0x860,0x88f,2},{0x890,0x891,6},{0x892,0x897,2},
{0x898,0x89f,8},{0x8a0,0x8c9,2},{0x8ca,0x8e1,8},{0x8e2,0x8e2,6},{0x8e3,0x902,8},{0x93a,0x93a,8},
{0x93c,0x93c,8},{0x941,0x948,8},{0x94d,0x94d,8},{0x951,0x957,8},{0x962,0x963,8},{0x981,0x981,8},
{0x9bc,0x9bc,8},{0x9c1,0x9c4,8},{0x9cd,0x9cd,8},{0x9e2,0x9e3,8},{0x9f2,0x9f3,5},{0x9fb,0x9fb,5},
{0x9fe,0x9fe,8},{0xa01,0xa02,8},{0xa3c,0xa3c,8},{0xa41,0xa42,8},{0xa47,0xa48,8},{0xa4b,0xa4d,8},
{0xa51,0xa51,8},{0xa70,0xa71,8},{0xa75,0xa75,8},{0xa81,0xa82,8},{0xabc,0xabc,8},{0xac1,0xac5,8},
{0xac7,0xac8,8},{0xacd,0xacd,8},{0xae2,0xae3,8},{0xaf1,0xaf1,5},{0xafa,0xaff,8},{0xb01,0xb01,8},
{0xb3c,0xb3c,8},{0xb3f,0xb3f,8},{0xb41,0xb44,8},{0xb4d,0xb4d,8},{0xb55,0xb56,8},{0xb62,0xb63,8},
{0xb82,0xb82,8},{0xbc0,0xbc0,8},{0xbcd,0xbcd,8},{0xbf3,0xbf8,13},{0xbf9,0xbf9,5},{0xbfa,0xbfa,13},
{0xc00,0xc00,8},{0xc04,0xc04,8},{0xc3c,0xc3c,8},{0xc3e,0xc40,8},{0xc46,0xc48,8},{0xc4a,0xc4d,8},
{0xc55,0xc56,8},{0xc62,0xc63,8},{0xc78,0xc7e,13},{0xc81,0xc81,8},{0xcbc,0xcbc,8},{0xccc,0xccd,8},
{0xce2,0xce3,8},{0xd00,0xd01,8},{0xd3b,0xd3c,8},{0xd41,0xd44,8},{0xd4d,0xd4d,8},{0xd62,0xd63,8},
{0xd81,0xd81,8},{0xdca,0xdca,8},{0xdd2,0xdd4,8},{0xdd6,0xdd6,8},{0xe31,0xe31,8},{0xe34,0xe3a,8},
{0xe3f,0xe3f,5},{0xe47,0xe4e,8},{0xeb1,0xeb1,8},{0xeb4,0xebc,8},{0xec8,0xece,8},{0xf18,0xf19,8},
{0xf35,0xf35,8},{0xf37,0xf37,8},{0xf39,0xf39,8},{0xf3a,0xf3d,13},{0xf71,0xf7e,8},{0xf80,0xf84,8},
{0xf86,0xf87,8},{0xf8d,0xf97,8},{0xf99,0xfbc,8},{0xfc6,0xfc6,8},{0x102d,0x1030,8},{0x1032,0x1037,8},
{0x1039,0x103a,8},{0x103d,0x103e,8},{0x1058,0x1059,8},{0x105e,0x1060,8},{0x1071,0x1074,8},{0x1082,0x1082,8},
{0x1085,0x1086,8},{0x108d,0x108d,8},{0x109d,0x109d,8},{0x135d,0x135f,8},{0x1390,0x1399,13},{0x1400,0x1400,13},
{0x1680,0x1680,12},{0x169b,0x169c,13},{0x1712,0x1714,8},{0x1732,0x1733,8},{0x1752,0x1753,8},{0x1772,0x1773,8},
{0x17b4,0x17b5,8},{0x17b7,0x17bd,8},{0x17c6,0x17c6,8},{0x17c9,0x17d3,8},{0x17db,0x17db,5},{0x17dd,0x17dd,8},
{0x17f0,0x17f9,13},{0x1800,0x180a,13},{0x180b,0x180d,8},{0x180e,0x180e,9},{0x180f,0x180f,8},{0x1885,0x1886,8},
{0x18a9,0x18a9,8},{0x1920,0x1922,8},{0x1927,0x1928,8},{0x1932,0x1932,8},{0x1939,0x193b,8},{0x1940,0x1940,13},
{0x1944,0x1945,13},{0x19de,0x19ff,13},{0x1a17,0x1a18,8},{0x1a1b,0x1a1b,8},{0x1a56,0x1a56,8},{0x1a58,0x1a5e,8},
{0x1a60,0x1a60,8},{0x1a62,0x1a62,8},{0x1a65,0x1a6c,8},{0x1a73,0x1a7c,8},{0x1a7f,0x1a7f,8},{0x1ab0,0x1ace,8},
{0x1b00,0x1b03,8},{0x1b34,0x1b34,8},{0x1b36,0x1b3a,8},{0x1b3c,0x1b3c,8},{0x1b42,0x1b42,8},{0x1b6b,0x1b73,8},
{0x1b80,0x1b81,8},{0x1ba2,0x1ba5,8},{0x1ba8,0x1ba9,8},{0x1bab,0x1bad,8},{0x1be6,0x1be6,8},{0x1be8,0x1be9,8},
{0x1bed,0x1bed,8},{0x1bef,0x1bf1,8},{0x1c2c,0x1c33,8},{0x1c36,0x1c37,8},{0x1cd0,0x1cd2,8},{0x1cd4,0x1ce0,8},
{0x1ce2,0x1ce8,8},{0x1ced,0x1ced,8},{0x1cf4,0x1cf4,8},{0x1cf8,0x1cf9,8},{0x1dc0,0x1dff,8},{0x1fbd,0x1fbd,13},
{0x1fbf,0x1fc1,13},{0x1fcd,0x1fcf,13},{0x1fdd,0x1fdf,13},{0x1fed,0x1fef,13},{0x1ffd,0x1ffe,13},{0x2000,0x200a,12},
{0x200b,0x200d,9},{0x200f,0x200f,1},{0x2010,0x2027,13},{0x2028,0x2028,12},{0x2029,0x2029,10},{0x202a,0x202a,14},
{0x202b,0x202b,16},{0x202c,0x202c,18},{0x202d,0x202d,15},{0x202e,0x202e,17},{0x202f,0x202f,7},{0x2030,0x2034,5},
{0x2035,0x2043,13},{0x2044,0x2044,7},{0x2045,0x205e,13},{0x205f,0x205f,12},{0x2060,0x2065,9},{0x2066,0x2066,19},
{0x2067,0x2067,20},{0x2068,0x2068,21},{0x2069,0x2069,22},{0x206a,0x206f,9},{0x2070,0x2070,3},{0x2074,0x2079,3},
{0x207a,0x207b,4},{0x207c,0x207e,13},{0x2080,0x2089,3},{0x208a,0x208b,4},{0x208c,0x208e,13},{0x20a0,0x20cf,5},
{0x20d0,0x20f0,8},{0x2100,0x2101,13},{0x2103,0x2106,13},{0x2108,0x2109,13},{0x2114,0x2114,13},{0x2116,0x2118,13},
{0x211e,0x2123,13},{0x2125,0x2125,13},{0x2127,0x2127,13},{0x2129,0x2129,13},{0x212e,0x212e,5},{0x213a,0x213b,13},
{0x2140,0x2144,13},{0x214a,0x214d,13},{0x2150,0x215f,13},{0x2189,0x218b,13},{0x2190,0x2211,13},{0x2212,0x2212,4},
{0x2213,0x2213,5},{0x2214,0x2335,13},{0x237b,0x2394,13},{0x2396,0x2426,13},{0x2440,0x244a,13},{0x2460,0x2487,13},
{0x2488,0x249b,3},{0x24ea,0x26ab,13},{0x26ad,0x27ff,13},{0x2900,0x2b73,13},{0x2b76,0x2b95,13},{0x2b97,0x2bff,13},
{0x2ce5,0x2cea,13},{0x2cef,0x2cf1,8},{0x2cf9,0x2cff,13},{0x2d7f,0x2d7f,8},{0x2de0,0x2dff,8},{0x2e00,0x2e5d,13},
{0x2e80,0x2e99,13},{0x2e9b,0x2ef3,13},{0x2f00,0x2fd5,13},{0x2ff0,0x2ffb,13},{0x3000,0x3000,12},{0x3001,0x3004,13},
{0x3008,0x3020,13},{0x302a,0x302d,8},{0x3030,0x3030,13},{0x3036,0x3037,13},{0x303d,0x303f,13},{0x3099,0x309a,8},
{0x309b,0x309c,13},{0x30a0,0x30a0,13},{0x30fb,0x30fb,13},{0x31c0,0x31e3,13},{0x321d,0x321e,13},{0x3250,0x325f,13},
{0x327c,0x327e,13},{0x32b1,0x32bf,13},{0x32cc,0x32cf,13},{0x3377,0x337a,13},{0x33de,0x33df,13},{0x33ff,0x33ff,13},
{0x4dc0,0x4dff,13},{0xa490,0xa4c6,13},{0xa60d,0xa60f,13},{0xa66f,0xa672,8},{0xa673,0xa673,13},{0xa674,0xa67d,8},
{0xa67e,0xa67f,13},{0xa69e,0xa69f,8},{0xa6f0,0xa6f1,8},{0xa700,0xa721,13},{0xa788,0xa788,13},{0xa802,0xa802,8},
{0xa806,0xa806,8},{0xa80b,0xa80b,8},{0xa825,0xa826,8},{0xa828,0xa82b,13},{0xa82c,0xa82c,8},{0xa838,0xa839,5},
{0xa874,0xa877,13},{0xa8c4,0xa8c5,8},{0xa8e0,0xa8f1,8},{0xa8ff,0xa8ff,8},{0xa926,0xa92d,8},{0xa947,0xa951,8},
{0xa980,0xa982,8},{0xa9b3,0xa9b3,8},{0xa9b6,0xa9b9,8},{0xa9bc,0xa9bd,8},{0xa9e5,0xa9e5,8},{0xaa29,0xaa2e,8},
{0xaa31,0xaa32,8},{0xaa35,0xaa36,8},{0xaa43,0xaa43,8},{0xaa4c,0xaa4c,8},{0xaa7c,0xaa7c,8},{0xaab0,0xaab0,8},
{0xaab2,0xaab4,8},{0xaab7,0xaab8,8},{0xaabe,0xaabf,8},{0xaac1,0xaac1,8},{0xaaec,0xaaed,8},{0xaaf6,0xaaf6,8},
{0xab6a,0xab6b,13},{0xabe5,0xabe5,8},{0xabe8,0xabe8,8},{0xabed,0xabed,8},{0xfb1d,0xfb1d,1},{0xfb1e,0xfb1e,8},
{0xfb1f,0xfb28,1},{0xfb29,0xfb29,4},{0xfb2a,0xfb4f,1},{0xfb50,0xfd3d,2},{0xfd3e,0xfd4f,13},{0xfd50,0xfdce,2},
{0xfdcf,0xfdcf,13},{0xfdd0,0xfdef,9},{0xfdf0,0xfdfc,2},{0xfdfd,0xfdff,13},{0xfe00,0xfe0f,8},{0xfe10,0xfe19,13},
{0xfe20,0xfe2f,8},{0xfe30,0xfe4f,13},{0xfe50,0xfe50,7},{0xfe51,0xfe51,13},{0xfe52,0xfe52,7},{0xfe54,0xfe54,13},
{0xfe55,0xfe55,7},{0xfe56,0xfe5e,13},{0xfe5f,0xfe5f,5},{0xfe60,0xfe61,13},{0xfe62,0xfe63,4},{0xfe64,0xfe66,13},
{0xfe68,0xfe68,13},{0xfe69,0xfe6a,5},{0xfe6b,0xfe6b,13},{0xfe70,0xfefe,2},{0xfeff,0xfeff,9},{0xff01,0xff02,13},
{0xff03,0xff05,5},{0xff06,0xff0a,13},{0xff0b,0xff0b,4},{0xff0c,0xff0c,7},{0xff0d,0xff0d,4},{0xff0e,0xff0f,7},
{0xff10,0xff19,3},{0xff1a,0xff1a,7},{0xff1b,0xff20,13},{0xff3b,0xff40,13},{0xff5b,0xff65,13},{0xffe0,0xffe1,5},
{0xffe2,0xffe4,13},{0xffe5,0xffe6,5},{0xffe8,0xffee,13},{0xfff0,0xfff8,9},{0xfff9,0xfffd,13},{0xfffe,0xffff,9},
{0x10101,0x10101,13},{0x10140,0x1018c,13},{0x10190,0x1019c,13},{0x101a0,0x101a0,13},{0x101fd,0x101fd,8},{0x102e0,0x102e0,8},
{0x102e1,0x102fb,3},{0x10376,0x1037a,8},{0x10800,0x1091e,1},{0x1091f,0x1091f,13},{0x10920,0x10a00,1},{0x10a01,0x10a03,8},
{0x10a04,0x10a04,1},{0x10a05,0x10a06,8},{0x10a07,0x10a0b,1},{0x10a0c,0x10a0f,8},{0x10a10,0x10a37,1},{0x10a38,0x10a3a,8},
{0x10a3b,0x10a3e,1},{0x10a3f,0x10a3f,8},{0x10a40,0x10ae4,1},{0x10ae5,0x10ae6,8},{0x10ae7,0x10b38,1},{0x10b39,0x10b3f,13},
{0x10b40,0x10cff,1},{0x10d00,0x10d23,2},{0x10d24,0x10d27,8},{0x10d28,0x10d2f,2},{0x10d30,0x10d39,6},{0x10d3a,0x10d3f,2},
{0x10d40,0x10e5f,1},{0x10e60,0x10e7e,6},{0x10e7f,0x10eaa,1},{0x10eab,0x10eac,8},{0x10ead,0x10ebf,1},{0x10ec0,0x10efc,2},
{0x10efd,0x10eff,8},{0x10f00,0x10f2f,1},{0x10f30,0x10f45,2},{0x10f46,0x10f50,8},{0x10f51,0x10f6f,2},{0x10f70,0x10f81,1},
{0x10f82,0x10f85,8},{0x10f86,0x10fff,1},{0x11001,0x11001,8},{0x11038,0x11046,8},{0x11052,0x11065,13},{0x11070,0x11070,8},
{0x11073,0x11074,8},{0x1107f,0x11081,8},{0x110b3,0x110b6,8},{0x110b9,0x110ba,8},{0x110c2,0x110c2,8},{0x11100,0x11102,8},
{0x11127,0x1112b,8},{0x1112d,0x11134,8},{0x11173,0x11173,8},{0x11180,0x11181,8},{0x111b6,0x111be,8},{0x111c9,0x111cc,8},
{0x111cf,0x111cf,8},{0x1122f,0x11231,8},{0x11234,0x11234,8},{0x11236,0x11237,8},{0x1123e,0x1123e,8},{0x11241,0x11241,8},
{0x112df,0x112df,8},{0x112e3,0x112ea,8},{0x11300,0x11301,8},{0x1133b,0x1133c,8},{0x11340,0x11340,8},{0x11366,0x1136c,8},
{0x11370,0x11374,8},{0x11438,0x1143f,8},{0x11442,0x11444,8},{0x11446,0x11446,8},{0x1145e,0x1145e,8},{0x114b3,0x114b8,8},
{0x114ba,0x114ba,8},{0x114bf,0x114c0,8},{0x114c2,0x114c3,8},{0x115b2,0x115b5,8},{0x115bc,0x115bd,8},{0x115bf,0x115c0,8},
{0x115dc,0x115dd,8},{0x11633,0x1163a,8},{0x1163d,0x1163d,8},{0x1163f,0x11640,8},{0x11660,0x1166c,13},{0x116ab,0x116ab,8},
{0x116ad,0x116ad,8},{0x116b0,0x116b5,8},{0x116b7,0x116b7,8},{0x1171d,0x1171f,8},{0x11722,0x11725,8},{0x11727,0x1172b,8},
{0x1182f,0x11837,8},{0x11839,0x1183a,8},{0x1193b,0x1193c,8},{0x1193e,0x1193e,8},{0x11943,0x11943,8},{0x119d4,0x119d7,8},
{0x119da,0x119db,8},{0x119e0,0x119e0,8},{0x11a01,0x11a06,8},{0x11a09,0x11a0a,8},{0x11a33,0x11a38,8},{0x11a3b,0x11a3e,8},
{0x11a47,0x11a47,8},{0x11a51,0x11a56,8},{0x11a59,0x11a5b,8},{0x11a8a,0x11a96,8},{0x11a98,0x11a99,8},{0x11c30,0x11c36,8},
{0x11c38,0x11c3d,8},{0x11c92,0x11ca7,8},{0x11caa,0x11cb0,8},{0x11cb2,0x11cb3,8},{0x11cb5,0x11cb6,8},{0x11d31,0x11d36,8},
{0x11d3a,0x11d3a,8},{0x11d3c,0x11d3d,8},{0x11d3f,0x11d45,8},{0x11d47,0x11d47,8},{0x11d90,0x11d91,8},{0x11d95,0x11d95,8},
{0x11d97,0x11d97,8},{0x11ef3,0x11ef4,8},{0x11f00,0x11f01,8},{0x11f36,0x11f3a,8},{0x11f40,0x11f40,8},{0x11f42,0x11f42,8},
{0x11fd5,0x11fdc,13},{0x11fdd,0x11fe0,5},{0x11fe1,0x11ff1,13},{0x13440,0x13440,8},{0x13447,0x13455,8},{0x16af0,0x16af4,8},
{0x16b30,0x16b36,8},{0x16f4f,0x16f4f,8},{0x16f8f,0x16f92,8},{0x16fe2,0x16fe2,13},{0x16fe4,0x16fe4,8},{0x1bc9d,0x1bc9e,8},
{0x1bca0,0x1bca3,9},{0x1cf00,0x1cf2d,8},{0x1cf30,0x1cf46,8},{0x1d167,0x1d169,8},{0x1d173,0x1d17a,9},{0x1d17b,0x1d182,8},
{0x1d185,0x1d18b,8},{0x1d1aa,0x1d1ad,8},{0x1d1e9,0x1d1ea,13},{0x1d200,0x1d241,13},{0x1d242,0x1d244,8},{0x1d245,0x1d245,13},
{0x1d300,0x1d356,13},{0x1d6db,0x1d6db,13},{0x1d715,0x1d715,13},{0x1d74f,0x1d74f,13},{0x1d789,0x1d789,13},{0x1d7c3,0x1d7c3,13},
{0x1d7ce,0x1d7ff,3},{0x1da00,0x1da36,8},{0x1da3b,0x1da6c,8},{0x1da75,0x1da75,8},{0x1da84,0x1da84,8},{0x1da9b,0x1da9f,8},
{0x1daa1,0x1daaf,8},{0x1e000,0x1e006,8},{0x1e008,0x1e018,8},{0x1e01b,0x1e021,8},{0x1e023,0x1e024,8},{0x1e026,0x1e02a,8},
{0x1e08f,0x1e08f,8},{0x1e130,0x1e136,8},{0x1e2ae,0x1e2ae,8},{0x1e2ec,0x1e2ef,8},{0x1e2ff,0x1e2ff,5},{0x1e4ec,0x1e4ef,8},
{0x1e800,0x1e8cf,1},{0x1e8d0,0x1e8d6,8},{0x1e8d7,0x1e943,1},{0x1e944,0x1e94a,8},{0x1e94b,0x1ec6f,1},{0x1ec70,0x1ecbf,2},
{0x1ecc0,0x1ecff,1},{0x1ed00,0x1ed4f,2},{0x1ed50,0x1edff,1},{0x1ee00,0x1eeef,2},{0x1eef0,0x1eef1,13},{0x1eef2,0x1eeff,2},
{0x1ef00,0x1efff,1},{0x1f000,0x1f02b,13},{0x1f030,0x1f093,13},{0x1f0a0,0x1f0ae,13},{0x1f0b1,0x1f0bf,13},{0x1f0c1,0x1f0cf,13},
{0x1f0d1,0x1f0f5,13},{0x1f100,0x1f10a,3},{0x1f10b,0x1f10f,13},{0x1f12f,0x1f12f,13},{0x1f16a,0x1f16f,13},{0x1f1ad,0x1f1ad,13},
{0x1f260,0x1f265,13},{0x1f300,0x1f6d7,13},{0x1f6dc,0x1f6ec,13},{0x1f6f0,0x1f6fc,13},{0x1f700,0x1f776,13},{0x1f77b,0x1f7d9,13},
{0x1f7e0,0x1f7eb,13},{0x1f7f0,0x1f7f0,13},{0x1f800,0x1f80b,13},{0x1f810,0x1f847,13},{0x1f850,0x1f859,13},{0x1f860,0x1f887,13},
{0x1f890,0x1f8ad,13},{0x1f8b0,0x1f8b1,13},{0x1f900,0x1fa53,13},{0x1fa60,0x1fa6d,13},{0x1fa70,0x1fa7c,13},{0x1fa80,0x1fa88,13},
{0x1fa90,0x1fabd,13},{0x1fabf,0x1fac5,13},{0x1face,0x1fadb,13},{0x1fae0,0x1fae8,13},{0x1faf0,0x1faf8,13},{0x1fb00,0x1fb92,13},
{0x1fb94,0x1fbca,13},{0x1fbf0,0x1fbf9,3},{0x1fffe,0x1ffff,9},{0x2fffe,0x2ffff,9},{0x3fffe,0x3ffff,9},{0x4fffe,0x4ffff,9},
{0x5fffe,0x5ffff,9},{0x6fffe,0x6ffff,9},{0x7fffe,0x7ffff,9},{0x8fffe,0x8ffff,9},{0x9fffe,0x9ffff,9},{0xafffe,0xaffff,9},
{0xbfffe,0xbffff,9},{0xcfffe,0xcffff,9},{0xdfffe,0xe00ff,9},{0xe0100,0xe01ef,8},{0xe01f0,0xe0fff,9},{0xefffe,0xeffff,9},
{0xffffe,0xfffff,9},{0x10fffe,0x10ffff,9},
};
enum cs_class {CS_NONE,CS_C,CS_I,CS_CI, CS_NUM};
static const char *const cs_names[] = {"none","C","I","CI"};
static const struct ref_range cs_ranges[] = {
{0x27,0x27,2},{0x2e,0x2e,2},{0x3a,0x3a,2},{0x41,0x5a,1},{0x5e,0x5e,2},{0x60,0x60,2},
{0x61,0x7a,1},{0xa8,0xa8,2},{0xaa,0xaa,1},{0xad,0xad,2},{0xaf,0xaf,2},{0xb4,0xb4,2},
{0xb5,0xb5,1},{0xb7,0xb8,2},{0xba,0xba,1},{0xc0,0xd6,1},{0xd8,0xf6,1},{0xf8,0x1ba,1},
{0x1bc,0x1bf,1},{0x1c4,0x293,1},{0x295,0x2af,1},{0x2b0,0x2b8,3},{0x2b9,0x2bf,2},{0x2c0,0x2c1,3},
{0x2c2,0x2df,2},{0x2e0,0x2e4,3},{0x2e5,0x344,2},{0x345,0x345,3},{0x346,0x36f,2},{0x370,0x373,1},
{0x374,0x375,2},{0x376,0x377,1},{0x37a,0x37a,3},{0x37b,0x37d,1},{0x37f,0x37f,1},{0x384,0x385,2},
{0x386,0x386,1},{0x387,0x387,2},{0x388,0x38a,1},{0x38c,0x38c,1},{0x38e,0x3a1,1},{0x3a3,0x3f5,1},
{0x3f7,0x481,1},{0x483,0x489,2},{0x48a,0x52f,1},{0x531,0x556,1},{0x559,0x559,2},{0x55f,0x55f,2},
{0x560,0x588,1},{0x591,0x5bd,2},{0x5bf,0x5bf,2},{0x5c1,0x5c2,2},{0x5c4,0x5c5,2},{0x5c7,0x5c7,2},
{0x5f4,0x5f4,2},{0x600,0x605,2},{0x610,0x61a,2},{0x61c,0x61c,2},{0x640,0x640,2},{0x64b,0x65f,2},
{0x670,0x670,2},{0x6d6,0x6dd,2},{0x6df,0x6e8,2},{0x6ea,0x6ed,2},{0x70f,0x70f,2},{0x711,0x711,2},
{0x730,0x74a,2},{0x7a6,0x7b0,2},{0x7eb,0x7f5,2},{0x7fa,0x7fa,2},{0x7fd,0x7fd,2},{0x816,0x82d,2},
{0x859,0x85b,2},{0x888,0x888,2},{0x890,0x891,2},{0x898,0x89f,2},{0x8c9,0x902,2},{0x93a,0x93a,2},
{0x93c,0x93c,2},{0x941,0x948,2},{0x94d,0x94d,2},{0x951,0x957,2},{0x962,0x963,2},{0x971,0x971,2},
{0x981,0x981,2},{0x9bc,0x9bc,2},{0x9c1,0x9c4,2},{0x9cd,0x9cd,2},{0x9e2,0x9e3,2},{0x9fe,0x9fe,2},
{0xa01,0xa02,2},{0xa3c,0xa3c,2},{0xa41,0xa42,2},{0xa47,0xa48,2},{0xa4b,0xa4d,2},{0xa51,0xa51,2},
{0xa70,0xa71,2},{0xa75,0xa75,2},{0xa81,0xa82,2},{0xabc,0xabc,2},{0xac1,0xac5,2},{0xac7,0xac8,2},
{0xacd,0xacd,2},{0xae2,0xae3,2},{0xafa,0xaff,2},{0xb01,0xb01,2},{0xb3c,0xb3c,2},{0xb3f,0xb3f,2},
{0xb41,0xb44,2},{0xb4d,0xb4d,2},{0xb55,0xb56,2},{0xb62,0xb63,2},{0xb82,0xb82,2},{0xbc0,0xbc0,2},
{0xbcd,0xbcd,2},{0xc00,0xc00,2},{0xc04,0xc04,2},{0xc3c,0xc3c,2},{0xc3e,0xc40,2},{0xc46,0xc48,2},
{0xc4a,0xc4d,2},{0xc55,0xc56,2},{0xc62,0xc63,2},{0xc81,0xc81,2},{0xcbc,0xcbc,2},{0xcbf,0xcbf,2},
{0xcc6,0xcc6,2},{0xccc,0xccd,2},{0xce2,0xce3,2},{0xd00,0xd01,2},{0xd3b,0xd3c,2},{0xd41,0xd44,2},
{0xd4d,0xd4d,2},{0xd62,0xd63,2},{0xd81,0xd81,2},{0xdca,0xdca,2},{0xdd2,0xdd4,2},{0xdd6,0xdd6,2},
{0xe31,0xe31,2},{0xe34,0xe3a,2},{0xe46,0xe4e,2},{0xeb1,0xeb1,2},{0xeb4,0xebc,2},{0xec6,0xec6,2},
{0xec8,0xece,2},{0xf18,0xf19,2},{0xf35,0xf35,2},{0xf37,0xf37,2},{0xf39,0xf39,2},{0xf71,0xf7e,2},
{0xf80,0xf84,2},{0xf86,0xf87,2},{0xf8d,0xf97,2},{0xf99,0xfbc,2},{0xfc6,0xfc6,2},{0x102d,0x1030,2},
{0x1032,0x1037,2},{0x1039,0x103a,2},{0x103d,0x103e,2},{0x1058,0x1059,2},{0x105e,0x1060,2},{0x1071,0x1074,2},
{0x1082,0x1082,2},{0x1085,0x1086,2},{0x108d,0x108d,2},{0x109d,0x109d,2},{0x10a0,0x10c5,1},{0x10c7,0x10c7,1},
{0x10cd,0x10cd,1},{0x10d0,0x10fa,1},{0x10fc,0x10fc,3},{0x10fd,0x10ff,1},{0x135d,0x135f,2},{0x13a0,0x13f5,1},
{0x13f8,0x13fd,1},{0x1712,0x1714,2},{0x1732,0x1733,2},{0x1752,0x1753,2},{0x1772,0x1773,2},{0x17b4,0x17b5,2},
{0x17b7,0x17bd,2},{0x17c6,0x17c6,2},{0x17c9,0x17d3,2},{0x17d7,0x17d7,2},{0x17dd,0x17dd,2},{0x180b,0x180f,2},
{0x1843,0x1843,2},{0x1885,0x1886,2},{0x18a9,0x18a9,2},{0x1920,0x1922,2},{0x1927,0x1928,2},{0x1932,0x1932,2},
{0x1939,0x193b,2},{0x1a17,0x1a18,2},{0x1a1b,0x1a1b,2},{0x1a56,0x1a56,2},{0x1a58,0x1a5e,2},{0x1a60,0x1a60,2},
{0x1a62,0x1a62,2},{0x1a65,0x1a6c,2},{0x1a73,0x1a7c,2},{0x1a7f,0x1a7f,2},{0x1aa7,0x1aa7,2},{0x1ab0,0x1ace,2},
{0x1b00,0x1b03,2},{0x1b34,0x1b34,2},{0x1b36,0x1b3a,2},{0x1b3c,0x1b3c,2},{0x1b42,0x1b42,2},{0x1b6b,0x1b73,2},
{0x1b80,0x1b81,2},{0x1ba2,0x1ba5,2},{0x1ba8,0x1ba9,2},{0x1bab,0x1bad,2},{0x1be6,0x1be6,2},{0x1be8,0x1be9,2},
{0x1bed,0x1bed,2},{0x1bef,0x1bf1,2},{0x1c2c,0x1c33,2},{0x1c36,0x1c37,2},{0x1c78,0x1c7d,2},{0x1c80,0x1c88,1},
{0x1c90,0x1cba,1},{0x1cbd,0x1cbf,1},{0x1cd0,0x1cd2,2},{0x1cd4,0x1ce0,2},{0x1ce2,0x1ce8,2},{0x1ced,0x1ced,2},
{0x1cf4,0x1cf4,2},{0x1cf8,0x1cf9,2},{0x1d00,0x1d2b,1},{0x1d2c,0x1d6a,3},{0x1d6b,0x1d77,1},{0x1d78,0x1d78,3},
{0x1d79,0x1d9a,1},{0x1d9b,0x1dbf,3},{0x1dc0,0x1dff,2},{0x1e00,0x1f15,1},{0x1f18,0x1f1d,1},{0x1f20,0x1f45,1},
{0x1f48,0x1f4d,1},{0x1f50,0x1f57,1},{0x1f59,0x1f59,1},{0x1f5b,0x1f5b,1},{0x1f5d,0x1f5d,1},{0x1f5f,0x1f7d,1},
{0x1f80,0x1fb4,1},{0x1fb6,0x1fbc,1},{0x1fbd,0x1fbd,2},{0x1fbe,0x1fbe,1},{0x1fbf,0x1fc1,2},{0x1fc2,0x1fc4,1},
{0x1fc6,0x1fcc,1},{0x1fcd,0x1fcf,2},{0x1fd0,0x1fd3,1},{0x1fd6,0x1fdb,1},{0x1fdd,0x1fdf,2},{0x1fe0,0x1fec,1},
{0x1fed,0x1fef,2},{0x1ff2,0x1ff4,1},{0x1ff6,0x1ffc,1},{0x1ffd,0x1ffe,2},{0x200b,0x200f,2},{0x2018,0x2019,2},
{0x2024,0x2024,2},{0x2027,0x2027,2},{0x202a,0x202e,2},{0x2060,0x2064,2},{0x2066,0x206f,2},{0x2071,0x2071,3},
{0x207f,0x207f,3},{0x2090,0x209c,3},{0x20d0,0x20f0,2},{0x2102,0x2102,1},{0x2107,0x2107,1},{0x210a,0x2113,1},
{0x2115,0x2115,1},{0x2119,0x211d,1},{0x2124,0x2124,1},{0x2126,0x2126,1},{0x2128,0x2128,1},{0x212a,0x212d,1},
{0x212f,0x2134,1},{0x2139,0x2139,1},{0x213c,0x213f,1},{0x2145,0x2149,1},{0x214e,0x214e,1},{0x2160,0x217f,1},
{0x2183,0x2184,1},{0x24b6,0x24e9,1},{0x2c00,0x2c7b,1},{0x2c7c,0x2c7d,3},{0x2c7e,0x2ce4,1},{0x2ceb,0x2cee,1},
{0x2cef,0x2cf1,2},{0x2cf2,0x2cf3,1},{0x2d00,0x2d25,1},{0x2d27,0x2d27,1},{0x2d2d,0x2d2d,1},{0x2d6f,0x2d6f,2},
{0x2d7f,0x2d7f,2},{0x2de0,0x2dff,2},{0x2e2f,0x2e2f,2},{0x3005,0x3005,2},{0x302a,0x302d,2},{0x3031,0x3035,2},
{0x303b,0x303b,2},{0x3099,0x309e,2},{0x30fc,0x30fe,2},{0xa015,0xa015,2},{0xa4f8,0xa4fd,2},{0xa60c,0xa60c,2},
{0xa640,0xa66d,1},{0xa66f,0xa672,2},{0xa674,0xa67d,2},{0xa67f,0xa67f,2},{0xa680,0xa69b,1},{0xa69c,0xa69d,3},
{0xa69e,0xa69f,2},{0xa6f0,0xa6f1,2},{0xa700,0xa721,2},{0xa722,0xa76f,1},{0xa770,0xa770,3},{0xa771,0xa787,1},
{0xa788,0xa78a,2},{0xa78b,0xa78e,1},{0xa790,0xa7ca,1},{0xa7d0,0xa7d1,1},{0xa7d3,0xa7d3,1},{0xa7d5,0xa7d9,1},
{0xa7f2,0xa7f4,3},{0xa7f5,0xa7f6,1},{0xa7f8,0xa7f9,3},{0xa7fa,0xa7fa,1},{0xa802,0xa802,2},{0xa806,0xa806,2},
{0xa80b,0xa80b,2},{0xa825,0xa826,2},{0xa82c,0xa82c,2},{0xa8c4,0xa8c5,2},{0xa8e0,0xa8f1,2},{0xa8ff,0xa8ff,2},
{0xa926,0xa92d,2},{0xa947,0xa951,2},{0xa980,0xa982,2},{0xa9b3,0xa9b3,2},{0xa9b6,0xa9b9,2},{0xa9bc,0xa9bd,2},
{0xa9cf,0xa9cf,2},{0xa9e5,0xa9e6,2},{0xaa29,0xaa2e,2},{0xaa31,0xaa32,2},{0xaa35,0xaa36,2},{0xaa43,0xaa43,2},
{0xaa4c,0xaa4c,2},{0xaa70,0xaa70,2},{0xaa7c,0xaa7c,2},{0xaab0,0xaab0,2},{0xaab2,0xaab4,2},{0xaab7,0xaab8,2},
{0xaabe,0xaabf,2},{0xaac1,0xaac1,2},{0xaadd,0xaadd,2},{0xaaec,0xaaed,2},{0xaaf3,0xaaf4,2},{0xaaf6,0xaaf6,2},
{0xab30,0xab5a,1},{0xab5b,0xab5b,2},{0xab5c,0xab5f,3},{0xab60,0xab68,1},{0xab69,0xab69,3},{0xab6a,0xab6b,2},
{0xab70,0xabbf,1},{0xabe5,0xabe5,2},{0xabe8,0xabe8,2},{0xabed,0xabed,2},{0xfb00,0xfb06,1},{0xfb13,0xfb17,1},
{0xfb1e,0xfb1e,2},{0xfbb2,0xfbc2,2},{0xfe00,0xfe0f,2},{0xfe13,0xfe13,2},{0xfe20,0xfe2f,2},{0xfe52,0xfe52,2},
{0xfe55,0xfe55,2},{0xfeff,0xfeff,2},{0xff07,0xff07,2},{0xff0e,0xff0e,2},{0xff1a,0xff1a,2},{0xff21,0xff3a,1},
{0xff3e,0xff3e,2},{0xff40,0xff40,2},{0xff41,0xff5a,1},{0xff70,0xff70,2},{0xff9e,0xff9f,2},{0xffe3,0xffe3,2},
{0xfff9,0xfffb,2},{0x101fd,0x101fd,2},{0x102e0,0x102e0,2},{0x10376,0x1037a,2},{0x10400,0x1044f,1},{0x104b0,0x104d3,1},
{0x104d8,0x104fb,1},{0x10570,0x1057a,1},{0x1057c,0x1058a,1},{0x1058c,0x10592,1},{0x10594,0x10595,1},{0x10597,0x105a1,1},
{0x105a3,0x105b1,1},{0x105b3,0x105b9,1},{0x105bb,0x105bc,1},{0x10780,0x10780,3},{0x10781,0x10782,2},{0x10783,0x10785,3},
{0x10787,0x107b0,3},{0x107b2,0x107ba,3},{0x10a01,0x10a03,2},{0x10a05,0x10a06,2},{0x10a0c,0x10a0f,2},{0x10a38,0x10a3a,2},
{0x10a3f,0x10a3f,2},{0x10ae5,0x10ae6,2},{0x10c80,0x10cb2,1},{0x10cc0,0x10cf2,1},{0x10d24,0x10d27,2},{0x10eab,0x10eac,2},
{0x10efd,0x10eff,2},{0x10f46,0x10f50,2},{0x10f82,0x10f85,2},{0x11001,0x11001,2},{0x11038,0x11046,2},{0x11070,0x11070,2},
{0x11073,0x11074,2},{0x1107f,0x11081,2},{0x110b3,0x110b6,2},{0x110b9,0x110ba,2},{0x110bd,0x110bd,2},{0x110c2,0x110c2,2},
{0x110cd,0x110cd,2},{0x11100,0x11102,2},{0x11127,0x1112b,2},{0x1112d,0x11134,2},{0x11173,0x11173,2},{0x11180,0x11181,2},
{0x111b6,0x111be,2},{0x111c9,0x111cc,2},{0x111cf,0x111cf,2},{0x1122f,0x11231,2},{0x11234,0x11234,2},{0x11236,0x11237,2},
{0x1123e,0x1123e,2},{0x11241,0x11241,2},{0x112df,0x112df,2},{0x112e3,0x112ea,2},{0x11300,0x11301,2},{0x1133b,0x1133c,2},
{0x11340,0x11340,2},{0x11366,0x1136c,2},{0x11370,0x11374,2},{0x11438,0x1143f,2},{0x11442,0x11444,2},{0x11446,0x11446,2},
{0x1145e,0x1145e,2},{0x114b3,0x114b8,2},{0x114ba,0x114ba,2},{0x114bf,0x114c0,2},{0x114c2,0x114c3,2},{0x115b2,0x115b5,2},
{0x115bc,0x115bd,2},{0x115bf,0x115c0,2},{0x115dc,0x115dd,2},{0x11633,0x1163a,2},{0x1163d,0x1163d,2},{0x1163f,0x11640,2},
{0x116ab,0x116ab,2},{0x116ad,0x116ad,2},{0x116b0,0x116b5,2},{0x116b7,0x116b7,2},{0x1171d,0x1171f,2},{0x11722,0x11725,2},
{0x11727,0x1172b,2},{0x1182f,0x11837,2},{0x11839,0x1183a,2},{0x118a0,0x118df,1},{0x1193b,0x1193c,2},{0x1193e,0x1193e,2},
{0x11943,0x11943,2},{0x119d4,0x119d7,2},{0x119da,0x119db,2},{0x119e0,0x119e0,2},{0x11a01,0x11a0a,2},{0x11a33,0x11a38,2},
{0x11a3b,0x11a3e,2},{0x11a47,0x11a47,2},{0x11a51,0x11a56,2},{0x11a59,0x11a5b,2},{0x11a8a,0x11a96,2},{0x11a98,0x11a99,2},
{0x11c30,0x11c36,2},{0x11c38,0x11c3d,2},{0x11c3f,0x11c3f,2},{0x11c92,0x11ca7,2},{0x11caa,0x11cb0,2},{0x11cb2,0x11cb3,2},
{0x11cb5,0x11cb6,2},{0x11d31,0x11d36,2},{0x11d3a,0x11d3a,2},{0x11d3c,0x11d3d,2},{0x11d3f,0x11d45,2},{0x11d47,0x11d47,2},
{0x11d90,0x11d91,2},{0x11d95,0x11d95,2},{0x11d97,0x11d97,2},{0x11ef3,0x11ef4,2},{0x11f00,0x11f01,2},{0x11f36,0x11f3a,2},
{0x11f40,0x11f40,2},{0x11f42,0x11f42,2},{0x13430,0x13440,2},{0x13447,0x13455,2},{0x16af0,0x16af4,2},{0x16b30,0x16b36,2},
{0x16b40,0x16b43,2},{0x16e40,0x16e7f,1},{0x16f4f,0x16f4f,2},{0x16f8f,0x16f9f,2},{0x16fe0,0x16fe1,2},{0x16fe3,0x16fe4,2},
{0x1aff0,0x1aff3,2},{0x1aff5,0x1affb,2},{0x1affd,0x1affe,2},{0x1bc9d,0x1bc9e,2},{0x1bca0,0x1bca3,2},{0x1cf00,0x1cf2d,2},
{0x1cf30,0x1cf46,2},{0x1d167,0x1d169,2},{0x1d173,0x1d182,2},{0x1d185,0x1d18b,2},{0x1d1aa,0x1d1ad,2},{0x1d242,0x1d244,2},
{0x1d400,0x1d454,1},{0x1d456,0x1d49c,1},{0x1d49e,0x1d49f,1},{0x1d4a2,0x1d4a2,1},{0x1d4a5,0x1d4a6,1},{0x1d4a9,0x1d4ac,1},
{0x1d4ae,0x1d4b9,1},{0x1d4bb,0x1d4bb,1},{0x1d4bd,0x1d4c3,1},{0x1d4c5,0x1d505,1},{0x1d507,0x1d50a,1},{0x1d50d,0x1d514,1},
{0x1d516,0x1d51c,1},{0x1d51e,0x1d539,1},{0x1d53b,0x1d53e,1},{0x1d540,0x1d544,1},{0x1d546,0x1d546,1},{0x1d54a,0x1d550,1},
{0x1d552,0x1d6a5,1},{0x1d6a8,0x1d6c0,1},{0x1d6c2,0x1d6da,1},{0x1d6dc,0x1d6fa,1},{0x1d6fc,0x1d714,1},{0x1d716,0x1d734,1},
{0x1d736,0x1d74e,1},{0x1d750,0x1d76e,1},{0x1d770,0x1d788,1},{0x1d78a,0x1d7a8,1},{0x1d7aa,0x1d7c2,1},{0x1d7c4,0x1d7cb,1},
{0x1da00,0x1da36,2},{0x1da3b,0x1da6c,2},{0x1da75,0x1da75,2},{0x1da84,0x1da84,2},{0x1da9b,0x1da9f,2},{0x1daa1,0x1daaf,2},
{0x1df00,0x1df09,1},{0x1df0b,0x1df1e,1},{0x1df25,0x1df2a,1},{0x1e000,0x1e006,2},{0x1e008,0x1e018,2},{0x1e01b,0x1e021,2},
{0x1e023,0x1e024,2},{0x1e026,0x1e02a,2},{0x1e030,0x1e06d,3},{0x1e08f,0x1e08f,2},{0x1e130,0x1e13d,2},{0x1e2ae,0x1e2ae,2},
{0x1e2ec,0x1e2ef,2},{0x1e4eb,0x1e4ef,2},{0x1e8d0,0x1e8d6,2},{0x1e900,0x1e943,1},{0x1e944,0x1e94b,2},{0x1f130,0x1f149,1},
{0x1f150,0x1f169,1},{0x1f170,0x1f189,1},{0x1f3fb,0x1f3ff,2},{0xe0001,0xe0001,2},{0xe0020,0xe007f,2},{0xe0100,0xe01ef,2},

};
enum asg_class {ASG_A,ASG_U, ASG_NUM};
static const char *const asg_names[] = {"A","U"};
static const struct ref_range asg_ranges[] = {
{0x378,0x379,1},{0x380,0x383,1},{0x38b,0x38b,1},{0x38d,0x38d,1},{0x3a2,0x3a2,1},{0x530,0x530,1},
{0x557,0x558,1},{0x58b,0x58c,1},{0x590,0x590,1},{0x5c8,0x5cf,1},{0x5eb,0x5ee,1},{0x5f5,0x5ff,1},
{0x70e,0x70e,1},{0x74b,0x74c,1},{0x7b2,0x7bf,1},{0x7fb,0x7fc,1},{0x82e,0x82f,1},{0x83f,0x83f,1},
{0x85c,0x85d,1},{0x85f,0x85f,1},{0x86b,0x86f,1},{0x88f,0x88f,1},{0x892,0x897,1},{0x984,0x984,1},
{0x98d,0x98e,1},{0x991,0x992,1},{0x9a9,0x9a9,1},{0x9b1,0x9b1,1},{0x9b3,0x9b5,1},{0x9ba,0x9bb,1},
{0x9c5,0x9c6,1},{0x9c9,0x9ca,1},{0x9cf,0x9d6,1},{0x9d8,0x9db,1},{0x9de,0x9de,1},{0x9e4,0x9e5,1},
{0x9ff,0xa00,1},{0xa04,0xa04,1},{0xa0b,0xa0e,1},{0xa11,0xa12,1},{0xa29,0xa29,1},{0xa31,0xa31,1},
{0xa34,0xa34,1},{0xa37,0xa37,1},{0xa3a,0xa3b,1},{0xa3d,0xa3d,1},{0xa43,0xa46,1},{0xa49,0xa4a,1},
{0xa4e,0xa50,1},{0xa52,0xa58,1},{0xa5d,0xa5d,1},{0xa5f,0xa65,1},{0xa77,0xa80,1},{0xa84,0xa84,1},
{0xa8e,0xa8e,1},{0xa92,0xa92,1},{0xaa9,0xaa9,1},{0xab1,0xab1,1},{0xab4,0xab4,1},{0xaba,0xabb,1},
{0xac6,0xac6,1},{0xaca,0xaca,1},{0xace,0xacf,1},{0xad1,0xadf,1},{0xae4,0xae5,1},{0xaf2,0xaf8,1},
{0xb00,0xb00,1},{0xb04,0xb04,1},{0xb0d,0xb0e,1},{0xb11,0xb12,1},{0xb29,0xb29,1},{0xb31,0xb31,1},
{0xb34,0xb34,1},{0xb3a,0xb3b,1},{0xb45,0xb46,1},{0xb49,0xb4a,1},{0xb4e,0xb54,1},{0xb58,0xb5b,1},
{0xb5e,0xb5e,1},{0xb64,0xb65,1},{0xb78,0xb81,1},{0xb84,0xb84,1},{0xb8b,0xb8d,1},{0xb91,0xb91,1},
{0xb96,0xb98,1},{0xb9b,0xb9b,1},{0xb9d,0xb9d,1},{0xba0,0xba2,1},{0xba5,0xba7,1},{0xbab,0xbad,1},
{0xbba,0xbbd,1},{0xbc3,0xbc5,1},{0xbc9,0xbc9,1},{0xbce,0xbcf,1},{0xbd1,0xbd6,1},{0xbd8,0xbe5,1},
{0xbfb,0xbff,1},{0xc0d,0xc0d,1},{0xc11,0xc11,1},{0xc29,0xc29,1},{0xc3a,0xc3b,1},{0xc45,0xc45,1},
{0xc49,0xc49,1},{0xc4e,0xc54,1},{0xc57,0xc57,1},{0xc5b,0xc5c,1},{0xc5e,0xc5f,1},{0xc64,0xc65,1},
{0xc70,0xc76,1},{0xc8d,0xc8d,1},{0xc91,0xc91,1},{0xca9,0xca9,1},{0xcb4,0xcb4,1},{0xcba,0xcbb,1},
{0xcc5,0xcc5,1},{0xcc9,0xcc9,1},{0xcce,0xcd4,1},{0xcd7,0xcdc,1},{0xcdf,0xcdf,1},{0xce4,0xce5,1},
{0xcf0,0xcf0,1},{0xcf4,0xcff,1},{0xd0d,0xd0d,1},{0xd11,0xd11,1},{0xd45,0xd45,1},{0xd49,0xd49,1},
{0xd50,0xd53,1},{0xd64,0xd65,1},{0xd80,0xd80,1},{0xd84,0xd84,1},{0xd97,0xd99,1},{0xdb2,0xdb2,1},
{0xdbc,0xdbc,1},{0xdbe,0xdbf,1},{0xdc7,0xdc9,1},{0xdcb,0xdce,1},{0xdd5,0xdd5,1},{0xdd7,0xdd7,1},
{0xde0,0xde5,1},{0xdf0,0xdf1,1},{0xdf5,0xe00,1},{0xe3b,0xe3e,1},{0xe5c,0xe80,1},{0xe83,0xe83,1},
{0xe85,0xe85,1},{0xe8b,0xe8b,1},{0xea4,0xea4,1},{0xea6,0xea6,1},{0xebe,0xebf,1},{0xec5,0xec5,1},
{0xec7,0xec7,1},{0xecf,0xecf,1},{0xeda,0xedb,1},{0xee0,0xeff,1},{0xf48,0xf48,1},{0xf6d,0xf70,1},
{0xf98,0xf98,1},{0xfbd,0xfbd,1},{0xfcd,0xfcd,1},{0xfdb,0xfff,1},{0x10c6,0x10c6,1},{0x10c8,0x10cc,1},
{0x10ce,0x10cf,1},{0x1249,0x1249,1},{0x124e,0x124f,1},{0x1257,0x1257,1},{0x1259,0x1259,1},{0x125e,0x125f,1},
{0x1289,0x1289,1},{0x128e,0x128f,1},{0x12b1,0x12b1,1},{0x12b6,0x12b7,1},{0x12bf,0x12bf,1},{0x12c1,0x12c1,1},
{0x12c6,0x12c7,1},{0x12d7,0x12d7,1},{0x1311,0x1311,1},{0x1316,0x1317,1},{0x135b,0x135c,1},{0x137d,0x137f,1},
{0x139a,0x139f,1},{0x13f6,0x13f7,1},{0x13fe,0x13ff,1},{0x169d,0x169f,1},{0x16f9,0x16ff,1},{0x1716,0x171e,1},
{0x1737,0x173f,1},{0x1754,0x175f,1},{0x176d,0x176d,1},{0x1771,0x1771,1},{0x1774,0x177f,1},{0x17de,0x17df,1},
{0x17ea,0x17ef,1},{0x17fa,0x17ff,1},{0x181a,0x181f,1},{0x1879,0x187f,1},{0x18ab,0x18af,1},{0x18f6,0x18ff,1},
{0x191f,0x191f,1},{0x192c,0x192f,1},{0x193c,0x193f,1},{0x1941,0x1943,1},{0x196e,0x196f,1},{0x1975,0x197f,1},
{0x19ac,0x19af,1},{0x19ca,0x19cf,1},{0x19db,0x19dd,1},{0x1a1c,0x1a1d,1},{0x1a5f,0x1a5f,1},{0x1a7d,0x1a7e,1},
{0x1a8a,0x1a8f,1},{0x1a9a,0x1a9f,1},{0x1aae,0x1aaf,1},{0x1acf,0x1aff,1},{0x1b4d,0x1b4f,1},{0x1b7f,0x1b7f,1},
{0x1bf4,0x1bfb,1},{0x1c38,0x1c3a,1},{0x1c4a,0x1c4c,1},{0x1c89,0x1c8f,1},{0x1cbb,0x1cbc,1},{0x1cc8,0x1ccf,1},
{0x1cfb,0x1cff,1},{0x1f16,0x1f17,1},{0x1f1e,0x1f1f,1},{0x1f46,0x1f47,1},{0x1f4e,0x1f4f,1},{0x1f58,0x1f58,1},
{0x1f5a,0x1f5a,1},{0x1f5c,0x1f5c,1},{0x1f5e,0x1f5e,1},{0x1f7e,0x1f7f,1},{0x1fb5,0x1fb5,1},{0x1fc5,0x1fc5,1},
{0x1fd4,0x1fd5,1},{0x1fdc,0x1fdc,1},{0x1ff0,0x1ff1,1},{0x1ff5,0x1ff5,1},{0x1fff,0x1fff,1},{0x2065,0x2065,1},
{0x2072,0x2073,1},{0x208f,0x208f,1},{0x209d,0x209f,1},{0x20c1,0x20cf,1},{0x20f1,0x20ff,1},{0x218c,0x218f,1},
{0x2427,0x243f,1},{0x244b,0x245f,1},{0x2b74,0x2b75,1},{0x2b96,0x2b96,1},{0x2cf4,0x2cf8,1},{0x2d26,0x2d26,1},
{0x2d28,0x2d2c,1},{0x2d2e,0x2d2f,1},{0x2d68,0x2d6e,1},{0x2d71,0x2d7e,1},{0x2d97,0x2d9f,1},{0x2da7,0x2da7,1},
{0x2daf,0x2daf,1},{0x2db7,0x2db7,1},{0x2dbf,0x2dbf,1},{0x2dc7,0x2dc7,1},{0x2dcf,0x2dcf,1},{0x2dd7,0x2dd7,1},
{0x2ddf,0x2ddf,1},{0x2e5e,0x2e7f,1},{0x2e9a,0x2e9a,1},{0x2ef4,0x2eff,1},{0x2fd6,0x2fef,1},{0x2ffc,0x2fff,1},
{0x3040,0x3040,1},{0x3097,0x3098,1},{0x3100,0x3104,1},{0x3130,0x3130,1},{0x318f,0x318f,1},{0x31e4,0x31ef,1},
{0x321f,0x321f,1},{0xa48d,0xa48f,1},{0xa4c7,0xa4cf,1},{0xa62c,0xa63f,1},{0xa6f8,0xa6ff,1},{0xa7cb,0xa7cf,1},
{0xa7d2,0xa7d2,1},{0xa7d4,0xa7d4,1},{0xa7da,0xa7f1,1},{0xa82d,0xa82f,1},{0xa83a,0xa83f,1},{0xa878,0xa87f,1},
{0xa8c6,0xa8cd,1},{0xa8da,0xa8df,1},{0xa954,0xa95e,1},{0xa97d,0xa97f,1},{0xa9ce,0xa9ce,1},{0xa9da,0xa9dd,1},
{0xa9ff,0xa9ff,1},{0xaa37,0xaa3f,1},{0xaa4e,0xaa4f,1},{0xaa5a,0xaa5b,1},{0xaac3,0xaada,1},{0xaaf7,0xab00,1},
{0xab07,0xab08,1},{0xab0f,0xab10,1},{0xab17,0xab1f,1},{0xab27,0xab27,1},{0xab2f,0xab2f,1},{0xab6c,0xab6f,1},
{0xabee,0xabef,1},{0xabfa,0xabff,1},{0xd7a4,0xd7af,1},{0xd7c7,0xd7ca,1},{0xd7fc,0xd7ff,1},{0xfa6e,0xfa6f,1},
{0xfada,0xfaff,1},{0xfb07,0xfb12,1},{0xfb18,0xfb1c,1},{0xfb37,0xfb37,1},{0xfb3d,0xfb3d,1},{0xfb3f,0xfb3f,1},
{0xfb42,0xfb42,1},{0xfb45,0xfb45,1},{0xfbc3,0xfbd2,1},{0xfd90,0xfd91,1},{0xfdc8,0xfdce,1},{0xfdd0,0xfdef,1},
{0xfe1a,0xfe1f,1},{0xfe53,0xfe53,1},{0xfe67,0xfe67,1},{0xfe6c,0xfe6f,1},{0xfe75,0xfe75,1},{0xfefd,0xfefe,1},
{0xff00,0xff00,1},{0xffbf,0xffc1,1},{0xffc8,0xffc9,1},{0xffd0,0xffd1,1},{0xffd8,0xffd9,1},{0xffdd,0xffdf,1},
{0xffe7,0xffe7,1},{0xffef,0xfff8,1},{0xfffe,0xffff,1},{0x1000c,0x1000c,1},{0x10027,0x10027,1},{0x1003b,0x1003b,1},
{0x1003e,0x1003e,1},{0x1004e,0x1004f,1},{0x1005e,0x1007f,1},{0x100fb,0x100ff,1},{0x10103,0x10106,1},{0x10134,0x10136,1},
{0x1018f,0x1018f,1},{0x1019d,0x1019f,1},{0x101a1,0x101cf,1},{0x101fe,0x1027f,1},{0x1029d,0x1029f,1},{0x102d1,0x102df,1},
{0x102fc,0x102ff,1},{0x10324,0x1032c,1},{0x1034b,0x1034f,1},{0x1037b,0x1037f,1},{0x1039e,0x1039e,1},{0x103c4,0x103c7,1},
{0x103d6,0x103ff,1},{0x1049e,0x1049f,1},{0x104aa,0x104af,1},{0x104d4,0x104d7,1},{0x104fc,0x104ff,1},{0x10528,0x1052f,1},
{0x10564,0x1056e,1},{0x1057b,0x1057b,1},{0x1058b,0x1058b,1},{0x10593,0x10593,1},{0x10596,0x10596,1},{0x105a2,0x105a2,1},
{0x105b2,0x105b2,1},{0x105ba,0x105ba,1},{0x105bd,0x105ff,1},{0x10737,0x1073f,1},{0x10756,0x1075f,1},{0x10768,0x1077f,1},
{0x10786,0x10786,1},{0x107b1,0x107b1,1},{0x107bb,0x107ff,1},{0x10806,0x10807,1},{0x10809,0x10809,1},{0x10836,0x10836,1},
{0x10839,0x1083b,1},{0x1083d,0x1083e,1},{0x10856,0x10856,1},{0x1089f,0x108a6,1},{0x108b0,0x108df,1},{0x108f3,0x108f3,1},
{0x108f6,0x108fa,1},{0x1091c,0x1091e,1},{0x1093a,0x1093e,1},{0x10940,0x1097f,1},{0x109b8,0x109bb,1},{0x109d0,0x109d1,1},
{0x10a04,0x10a04,1},{0x10a07,0x10a0b,1},{0x10a14,0x10a14,1},{0x10a18,0x10a18,1},{0x10a36,0x10a37,1},{0x10a3b,0x10a3e,1},
{0x10a49,0x10a4f,1},{0x10a59,0x10a5f,1},{0x10aa0,0x10abf,1},{0x10ae7,0x10aea,1},{0x10af7,0x10aff,1},{0x10b36,0x10b38,1},
{0x10b56,0x10b57,1},{0x10b73,0x10b77,1},{0x10b92,0x10b98,1},{0x10b9d,0x10ba8,1},{0x10bb0,0x10bff,1},{0x10c49,0x10c7f,1},
{0x10cb3,0x10cbf,1},{0x10cf3,0x10cf9,1},{0x10d28,0x10d2f,1},{0x10d3a,0x10e5f,1},{0x10e7f,0x10e7f,1},{0x10eaa,0x10eaa,1},
{0x10eae,0x10eaf,1},{0x10eb2,0x10efc,1},{0x10f28,0x10f2f,1},{0x10f5a,0x10f6f,1},{0x10f8a,0x10faf,1},{0x10fcc,0x10fdf,1},
{0x10ff7,0x10fff,1},{0x1104e,0x11051,1},{0x11076,0x1107e,1},{0x110c3,0x110cc,1},{0x110ce,0x110cf,1},{0x110e9,0x110ef,1},
{0x110fa,0x110ff,1},{0x11135,0x11135,1},{0x11148,0x1114f,1},{0x11177,0x1117f,1},{0x111e0,0x111e0,1},{0x111f5,0x111ff,1},
{0x11212,0x11212,1},{0x11242,0x1127f,1},{0x11287,0x11287,1},{0x11289,0x11289,1},{0x1128e,0x1128e,1},{0x1129e,0x1129e,1},
{0x112aa,0x112af,1},{0x112eb,0x112ef,1},{0x112fa,0x112ff,1},{0x11304,0x11304,1},{0x1130d,0x1130e,1},{0x11311,0x11312,1},
{0x11329,0x11329,1},{0x11331,0x11331,1},{0x11334,0x11334,1},{0x1133a,0x1133a,1},{0x11345,0x11346,1},{0x11349,0x1134a,1},
{0x1134e,0x1134f,1},{0x11351,0x11356,1},{0x11358,0x1135c,1},{0x11364,0x11365,1},{0x1136d,0x1136f,1},{0x11375,0x113ff,1},
{0x1145c,0x1145c,1},{0x11462,0x1147f,1},{0x114c8,0x114cf,1},{0x114da,0x1157f,1},{0x115b6,0x115b7,1},{0x115de,0x115ff,1},
{0x11645,0x1164f,1},{0x1165a,0x1165f,1},{0x1166d,0x1167f,1},{0x116ba,0x116bf,1},{0x116ca,0x116ff,1},{0x1171b,0x1171c,1},
{0x1172c,0x1172f,1},{0x11747,0x117ff,1},{0x1183c,0x1189f,1},{0x118f3,0x118fe,1},{0x11907,0x11908,1},{0x1190a,0x1190b,1},
{0x11914,0x11914,1},{0x11917,0x11917,1},{0x11936,0x11936,1},{0x11939,0x1193a,1},{0x11947,0x1194f,1},{0x1195a,0x1199f,1},
{0x119a8,0x119a9,1},{0x119d8,0x119d9,1},{0x119e5,0x119ff,1},{0x11a48,0x11a4f,1},{0x11aa3,0x11aaf,1},{0x11af9,0x11aff,1},
{0x11b0a,0x11bff,1},{0x11c09,0x11c09,1},{0x11c37,0x11c37,1},{0x11c46,0x11c4f,1},{0x11c6d,0x11c6f,1},{0x11c90,0x11c91,1},
{0x11ca8,0x11ca8,1},{0x11cb7,0x11cff,1},{0x11d07,0x11d07,1},{0x11d0a,0x11d0a,1},{0x11d37,0x11d39,1},{0x11d3b,0x11d3b,1},
{0x11d3e,0x11d3e,1},{0x11d48,0x11d4f,1},{0x11d5a,0x11d5f,1},{0x11d66,0x11d66,1},{0x11d69,0x11d69,1},{0x11d8f,0x11d8f,1},
{0x11d92,0x11d92,1},{0x11d99,0x11d9f,1},{0x11daa,0x11edf,1},{0x11ef9,0x11eff,1},{0x11f11,0x11f11,1},{0x11f3b,0x11f3d,1},
{0x11f5a,0x11faf,1},{0x11fb1,0x11fbf,1},{0x11ff2,0x11ffe,1},{0x1239a,0x123ff,1},{0x1246f,0x1246f,1},{0x12475,0x1247f,1},
{0x12544,0x12f8f,1},{0x12ff3,0x12fff,1},{0x13456,0x143ff,1},{0x14647,0x167ff,1},{0x16a39,0x16a3f,1},{0x16a5f,0x16a5f,1},
{0x16a6a,0x16a6d,1},{0x16abf,0x16abf,1},{0x16aca,0x16acf,1},{0x16aee,0x16aef,1},{0x16af6,0x16aff,1},{0x16b46,0x16b4f,1},
{0x16b5a,0x16b5a,1},{0x16b62,0x16b62,1},{0x16b78,0x16b7c,1},{0x16b90,0x16e3f,1},{0x16e9b,0x16eff,1},{0x16f4b,0x16f4e,1},
{0x16f88,0x16f8e,1},{0x16fa0,0x16fdf,1},{0x16fe5,0x16fef,1},{0x16ff2,0x16fff,1},{0x187f8,0x187ff,1},{0x18cd6,0x18cff,1},
{0x18d09,0x1afef,1},{0x1aff4,0x1aff4,1},{0x1affc,0x1affc,1},{0x1afff,0x1afff,1},{0x1b123,0x1b131,1},{0x1b133,0x1b14f,1},
{0x1b153,0x1b154,1},{0x1b156,0x1b163,1},{0x1b168,0x1b16f,1},{0x1b2fc,0x1bbff,1},{0x1bc6b,0x1bc6f,1},{0x1bc7d,0x1bc7f,1},
{0x1bc89,0x1bc8f,1},{0x1bc9a,0x1bc9b,1},{0x1bca4,0x1ceff,1},{0x1cf2e,0x1cf2f,1},{0x1cf47,0x1cf4f,1},{0x1cfc4,0x1cfff,1},
{0x1d0f6,0x1d0ff,1},{0x1d127,0x1d128,1},{0x1d1eb,0x1d1ff,1},{0x1d246,0x1d2bf,1},{0x1d2d4,0x1d2df,1},{0x1d2f4,0x1d2ff,1},
{0x1d357,0x1d35f,1},{0x1d379,0x1d3ff,1},{0x1d455,0x1d455,1},{0x1d49d,0x1d49d,1},{0x1d4a0,0x1d4a1,1},{0x1d4a3,0x1d4a4,1},
{0x1d4a7,0x1d4a8,1},{0x1d4ad,0x1d4ad,1},{0x1d4ba,0x1d4ba,1},{0x1d4bc,0x1d4bc,1},{0x1d4c4,0x1d4c4,1},{0x1d506,0x1d506,1},
{0x1d50b,0x1d50c,1},{0x1d515,0x1d515,1},{0x1d51d,0x1d51d,1},{0x1d53a,0x1d53a,1},{0x1d53f,0x1d53f,1},{0x1d545,0x1d545,1},
{0x1d547,0x1d549,1},{0x1d551,0x1d551,1},{0x1d6a6,0x1d6a7,1},{0x1d7cc,0x1d7cd,1},{0x1da8c,0x1da9a,1},{0x1daa0,0x1daa0,1},
{0x1dab0,0x1deff,1},{0x1df1f,0x1df24,1},{0x1df2b,0x1dfff,1},{0x1e007,0x1e007,1},{0x1e019,0x1e01a,1},{0x1e022,0x1e022,1},
{0x1e025,0x1e025,1},{0x1e02b,0x1e02f,1},{0x1e06e,0x1e08e,1},{0x1e090,0x1e0ff,1},{0x1e12d,0x1e12f,1},{0x1e13e,0x1e13f,1},
{0x1e14a,0x1e14d,1},{0x1e150,0x1e28f,1},{0x1e2af,0x1e2bf,1},{0x1e2fa,0x1e2fe,1},{0x1e300,0x1e4cf,1},{0x1e4fa,0x1e7df,1},
{0x1e7e7,0x1e7e7,1},{0x1e7ec,0x1e7ec,1},{0x1e7ef,0x1e7ef,1},{0x1e7ff,0x1e7ff,1},{0x1e8c5,0x1e8c6,1},{0x1e8d7,0x1e8ff,1},
{0x1e94c,0x1e94f,1},{0x1e95a,0x1e95d,1},{0x1e960,0x1ec70,1},{0x1ecb5,0x1ed00,1},{0x1ed3e,0x1edff,1},{0x1ee04,0x1ee04,1},
{0x1ee20,0x1ee20,1},{0x1ee23,0x1ee23,1},{0x1ee25,0x1ee26,1},{0x1ee28,0x1ee28,1},{0x1ee33,0x1ee33,1},{0x1ee38,0x1ee38,1},
{0x1ee3a,0x1ee3a,1},{0x1ee3c,0x1ee41,1},{0x1ee43,0x1ee46,1},{0x1ee48,0x1ee48,1},{0x1ee4a,0x1ee4a,1},{0x1ee4c,0x1ee4c,1},
{0x1ee50,0x1ee50,1},{0x1ee53,0x1ee53,1},{0x1ee55,0x1ee56,1},{0x1ee58,0x1ee58,1},{0x1ee5a,0x1ee5a,1},{0x1ee5c,0x1ee5c,1},
{0x1ee5e,0x1ee5e,1},{0x1ee60,0x1ee60,1},{0x1ee63,0x1ee63,1},{0x1ee65,0x1ee66,1},{0x1ee6b,0x1ee6b,1},{0x1ee73,0x1ee73,1},
{0x1ee78,0x1ee78,1},{0x1ee7d,0x1ee7d,1},{0x1ee7f,0x1ee7f,1},{0x1ee8a,0x1ee8a,1},{0x1ee9c,0x1eea0,1},{0x1eea4,0x1eea4,1},
{0x1eeaa,0x1eeaa,1},{0x1eebc,0x1eeef,1},{0x1eef2,0x1efff,1},{0x1f02c,0x1f02f,1},{0x1f094,0x1f09f,1},{0x1f0af,0x1f0b0,1},
{0x1f0c0,0x1f0c0,1},{0x1f0d0,0x1f0d0,1},{0x1f0f6,0x1f0ff,1},{0x1f1ae,0x1f1e5,1},{0x1f203,0x1f20f,1},{0x1f23c,0x1f23f,1},
{0x1f249,0x1f24f,1},{0x1f252,0x1f25f,1},{0x1f266,0x1f2ff,1},{0x1f6d8,0x1f6db,1},{0x1f6ed,0x1f6ef,1},{0x1f6fd,0x1f6ff,1},
{0x1f777,0x1f77a,1},{0x1f7da,0x1f7df,1},{0x1f7ec,0x1f7ef,1},{0x1f7f1,0x1f7ff,1},{0x1f80c,0x1f80f,1},{0x1f848,0x1f84f,1},
{0x1f85a,0x1f85f,1},{0x1f888,0x1f88f,1},{0x1f8ae,0x1f8af,1},{0x1f8b2,0x1f8ff,1},{0x1fa54,0x1fa5f,1},{0x1fa6e,0x1fa6f,1},
{0x1fa7d,0x1fa7f,1},{0x1fa89,0x1fa8f,1},{0x1fabe,0x1fabe,1},{0x1fac6,0x1facd,1},{0x1fadc,0x1fadf,1},{0x1fae9,0x1faef,1},
{0x1faf9,0x1faff,1},{0x1fb93,0x1fb93,1},{0x1fbcb,0x1fbef,1},{0x1fbfa,0x1ffff,1},{0x2a6e0,0x2a6ff,1},{0x2b73a,0x2b73f,1},
{0x2b81e,0x2b81f,1},{0x2cea2,0x2ceaf,1},{0x2ebe1,0x2f7ff,1},{0x2fa1e,0x2ffff,1},{0x3134b,0x3134f,1},{0x323b0,0xe0000,1},
{0xe0002,0xe001f,1},{0xe0080,0xe00ff,1},{0xe01f0,0xeffff,1},{0xffffe,0xfffff,1},{0x10fffe,0x10ffff,1},
};
static const struct ref_bracket {uint32_t cp, id; char type;} ref_brackets[] = {
{0x28,0x28,'o'},{0x29,0x28,'c'},{0x5b,0x5b,'o'},{0x5d,0x5b,'c'},{0x7b,0x7b,'o'},{0x7d,0x7b,'c'},{0xf3a,0xf3a,'o'},{0xf3b,0xf3a,'c'},{0xf3c,0xf3c,'o'},{0xf3d,0xf3c,'c'},{0x169b,0x169b,'o'},{0x169c,0x169b,'c'},{0x2045,0x2045,'o'},{0x2046,0x2045,'c'},{0x207d,0x207d,'o'},{0x207e,0x207d,'c'},{0x208d,0x208d,'o'},{0x208e,0x208d,'c'},{0x2308,0x2308,'o'},{0x2309,0x2308,'c'},{0x230a,0x230a,'o'},{0x230b,0x230a,'c'},{0x2329,0x3008,'o'},{0x232a,0x3008,'c'},{0x2768,0x2768,'o'},{0x2769,0x2768,'c'},{0x276a,0x276a,'o'},{0x276b,0x276a,'c'},{0x276c,0x276c,'o'},{0x276d,0x276c,'c'},{0x276e,0x276e,'o'},{0x276f,0x276e,'c'},{0x2770,0x2770,'o'},{0x2771,0x2770,'c'},{0x2772,0x2772,'o'},{0x2773,0x2772,'c'},{0x2774,0x2774,'o'},{0x2775,0x2774,'c'},{0x27c5,0x27c5,'o'},{0x27c6,0x27c5,'c'},{0x27e6,0x27e6,'o'},{0x27e7,0x27e6,'c'},{0x27e8,0x27e8,'o'},{0x27e9,0x27e8,'c'},{0x27ea,0x27ea,'o'},{0x27eb,0x27ea,'c'},{0x27ec,0x27ec,'o'},{0x27ed,0x27ec,'c'},{0x27ee,0x27ee,'o'},{0x27ef,0x27ee,'c'},{0x2983,0x2983,'o'},{0x2984,0x2983,'c'},{0x2985,0x2985,'o'},{0x2986,0x2985,'c'},{0x2987,0x2987,'o'},{0x2988,0x2987,'c'},{0x2989,0x2989,'o'},{0x298a,0x2989,'c'},{0x298b,0x298b,'o'},{0x298c,0x298b,'c'},{0x298d,0x298d,'o'},{0x298e,0x298f,'c'},{0x298f,0x298f,'o'},{0x2990,0x298d,'c'},{0x2991,0x2991,'o'},{0x2992,0x2991,'c'},{0x2993,0x2993,'o'},{0x2994,0x2993,'c'},{0x2995,0x2995,'o'},{0x2996,0x2995,'c'},{0x2997,0x2997,'o'},{0x2998,0x2997,'c'},{0x29d8,0x29d8,'o'},{0x29d9,0x29d8,'c'},{0x29da,0x29da,'o'},{0x29db,0x29da,'c'},{0x29fc,0x29fc,'o'},{0x29fd,0x29fc,'c'},{0x2e22,0x2e22,'o'},{0x2e23,0x2e22,'c'},{0x2e24,0x2e24,'o'},{0x2e25,0x2e24,'c'},{0x2e26,0x2e26,'o'},{0x2e27,0x2e26,'c'},{0x2e28,0x2e28,'o'},{0x2e29,0x2e28,'c'},{0x2e55,0x2e55,'o'},{0x2e56,0x2e55,'c'},{0x2e57,0x2e57,'o'},{0x2e58,0x2e57,'c'},{0x2e59,0x2e59,'o'},{0x2e5a,0x2e59,'c'},{0x2e5b,0x2e5b,'o'},{0x2e5c,0x2e5b,'c'},{0x3008,0x3008,'o'},{0x3009,0x3008,'c'},{0x300a,0x300a,'o'},{0x300b,0x300a,'c'},{0x300c,0x300c,'o'},{0x300d,0x300c,'c'},{0x300e,0x300e,'o'},{0x300f,0x300e,'c'},{0x3010,0x3010,'o'},{0x3011,0x3010,'c'},{0x3014,0x3014,'o'},{0x3015,0x3014,'c'},{0x3016,0x3016,'o'},{0x3017,0x3016,'c'},{0x3018,0x3018,'o'},{0x3019,0x3018,'c'},{0x301a,0x301a,'o'},{0x301b,0x301a,'c'},{0xfe59,0xfe59,'o'},{0xfe5a,0xfe59,'c'},{0xfe5b,0xfe5b,'o'},{0xfe5c,0xfe5b,'c'},{0xfe5d,0xfe5d,'o'},{0xfe5e,0xfe5d,'c'},{0xff08,0xff08,'o'},{0xff09,0xff08,'c'},{0xff3b,0xff3b,'o'},{0xff3d,0xff3b,'c'},{0xff5b,0xff5b,'o'},{0xff5d,0xff5b,'c'},{0xff5f,0xff5f,'o'},{0xff60,0xff5f,'c'},{0xff62,0xff62,'o'},{0xff63,0xff62,'c'},
};
static const struct ref_mirror {uint32_t cp, to;} ref_mirrors[] = {
{0x28,0x29},{0x29,0x28},{0x3c,0x3e},{0x3e,0x3c},{0x5b,0x5d},{0x5d,0x5b},{0x7b,0x7d},{0x7d,0x7b},{0xab,0xbb},{0xbb,0xab},{0xf3a,0xf3b},{0xf3b,0xf3a},{0xf3c,0xf3d},{0xf3d,0xf3c},{0x169b,0x169c},{0x169c,0x169b},{0x2039,0x203a},{0x203a,0x2039},{0x2045,0x2046},{0x2046,0x2045},{0x207d,0x207e},{0x207e,0x207d},{0x208d,0x208e},{0x208e,0x208d},{0x2208,0x220b},{0x2209,0x220c},{0x220a,0x220d},{0x220b,0x2208},{0x220c,0x2209},{0x220d,0x220a},{0x2215,0x29f5},{0x221f,0x2bfe},{0x2220,0x29a3},{0x2221,0x299b},{0x2222,0x29a0},{0x2224,0x2aee},{0x223c,0x223d},{0x223d,0x223c},{0x2243,0x22cd},{0x2245,0x224c},{0x224c,0x2245},{0x2252,0x2253},{0x2253,0x2252},{0x2254,0x2255},{0x2255,0x2254},{0x2264,0x2265},{0x2265,0x2264},{0x2266,0x2267},{0x2267,0x2266},{0x2268,0x2269},{0x2269,0x2268},{0x226a,0x226b},{0x226b,0x226a},{0x226e,0x226f},{0x226f,0x226e},{0x2270,0x2271},{0x2271,0x2270},{0x2272,0x2273},{0x2273,0x2272},{0x2274,0x2275},{0x2275,0x2274},{0x2276,0x2277},{0x2277,0x2276},{0x2278,0x2279},{0x2279,0x2278},{0x227a,0x227b},{0x227b,0x227a},{0x227c,0x227d},{0x227d,0x227c},{0x227e,0x227f},{0x227f,0x227e},{0x2280,0x2281},{0x2281,0x2280},{0x2282,0x2283},{0x2283,0x2282},{0x2284,0x2285},{0x2285,0x2284},{0x2286,0x2287},{0x2287,0x2286},{0x2288,0x2289},{0x2289,0x2288},{0x228a,0x228b},{0x228b,0x228a},{0x228f,0x2290},{0x2290,0x228f},{0x2291,0x2292},{0x2292,0x2291},{0x2298,0x29b8},{0x22a2,0x22a3},{0x22a3,0x22a2},{0x22a6,0x2ade},{0x22a8,0x2ae4},{0x22a9,0x2ae3},{0x22ab,0x2ae5},{0x22b0,0x22b1},{0x22b1,0x22b0},{0x22b2,0x22b3},{0x22b3,0x22b2},{0x22b4,0x22b5},{0x22b5,0x22b4},{0x22b6,0x22b7},{0x22b7,0x22b6},{0x22b8,0x27dc},{0x22c9,0x22ca},{0x22ca,0x22c9},{0x22cb,0x22cc},{0x22cc,0x22cb},{0x22cd,0x2243},{0x22d0,0x22d1},{0x22d1,0x22d0},{0x22d6,0x22d7},{0x22d7,0x22d6},{0x22d8,0x22d9},{0x22d9,0x22d8},{0x22da,0x22db},{0x22db,0x22da},{0x22dc,0x22dd},{0x22dd,0x22dc},{0x22de,0x22df},{0x22df,0x22de},{0x22e0,0x22e1},{0x22e1,0x22e0},{0x22e2,0x22e3},{0x22e3,0x22e2},{0x22e4,0x22e5},{0x22e5,0x22e4},{0x22e6,0x22e7},{0x22e7,0x22e6},{0x22e8,0x22e9},{0x22e9,0x22e8},{0x22ea,0x22eb},{0x22eb,0x22ea},{0x22ec,0x22ed},{0x22ed,0x22ec},{0x22f0,0x22f1},{0x22f1,0x22f0},{0x22f2,0x22fa},{0x22f3,0x22fb},{0x22f4,0x22fc},{0x22f6,0x22fd},{0x22f7,0x22fe},{0x22fa,0x22f2},{0x22fb,0x22f3},{0x22fc,0x22f4},{0x22fd,0x22f6},{0x22fe,0x22f7},{0x2308,0x2309},{0x2309,0x2308},{0x230a,0x230b},{0x230b,0x230a},{0x2329,0x232a},{0x232a,0x2329},{0x2768,0x2769},{0x2769,0x2768},{0x276a,0x276b},{0x276b,0x276a},{0x276c,0x276d},{0x276d,0x276c},{0x276e,0x276f},{0x276f,0x276e},{0x2770,0x2771},{0x2771,0x2770},{0x2772,0x2773},{0x2773,0x2772},{0x2774,0x2775},{0x2775,0x2774},{0x27c3,0x27c4},{0x27c4,0x27c3},{0x27c5,0x27c6},{0x27c6,0x27c5},{0x27c8,0x27c9},{0x27c9,0x27c8},{0x27cb,0x27cd},{0x27cd,0x27cb},{0x27d5,0x27d6},{0x27d6,0x27d5},{0x27dc,0x22b8},{0x27dd,0x27de},{0x27de,0x27dd},{0x27e2,0x27e3},{0x27e3,0x27e2},{0x27e4,0x27e5},{0x27e5,0x27e4},{0x27e6,0x27e7},{0x27e7,0x27e6},{0x27e8,0x27e9},{0x27e9,0x27e8},{0x27ea,0x27eb},{0x27eb,0x27ea},{0x27ec,0x27ed},{0x27ed,0x27ec},{0x27ee,0x27ef},{0x27ef,0x27ee},{0x2983,0x2984},{0x2984,0x2983},{0x2985,0x2986},{0x2986,0x2985},{0x2987,0x2988},{0x2988,0x2987},{0x2989,0x298a},{0x298a,0x2989},{0x298b,0x298c},{0x298c,0x298b},{0x298d,0x2990},{0x298e,0x298f},{0x298f,0x298e},{0x2990,0x298d},{0x2991,0x2992},{0x2992,0x2991},{0x2993,0x2994},{0x2994,0x2993},{0x2995,0x2996},{0x2996,0x2995},{0x2997,0x2998},{0x2998,0x2997},{0x299b,0x2221},{0x29a0,0x2222},{0x29a3,0x2220},{0x29a4,0x29a5},{0x29a5,0x29a4},{0x29a8,0x29a9},{0x29a9,0x29a8},{0x29aa,0x29ab},{0x29ab,0x29aa},{0x29ac,0x29ad},{0x29ad,0x29ac},{0x29ae,0x29af},{0x29af,0x29ae},{0x29b8,0x2298},{0x29c0,0x29c1},{0x29c1,0x29c0},{0x29c4,0x29c5},{0x29c5,0x29c4},{0x29cf,0x29d0},{0x29d0,0x29cf},{0x29d1,0x29d2},{0x29d2,0x29d1},{0x29d4,0x29d5},{0x29d5,0x29d4},{0x29d8,0x29d9},{0x29d9,0x29d8},{0x29da,0x29db},{0x29db,0x29da},{0x29e8,0x29e9},{0x29e9,0x29e8},{0x29f5,0x2215},{0x29f8,0x29f9},{0x29f9,0x29f8},{0x29fc,0x29fd},{0x29fd,0x29fc},{0x2a2b,0x2a2c},{0x2a2c,0x2a2b},{0x2a2d,0x2a2e},{0x2a2e,0x2a2d},{0x2a34,0x2a35},{0x2a35,0x2a34},{0x2a3c,0x2a3d},{0x2a3d,0x2a3c},{0x2a64,0x2a65},{0x2a65,0x2a64},{0x2a79,0x2a7a},{0x2a7a,0x2a79},{0x2a7b,0x2a7c},{0x2a7c,0x2a7b},{0x2a7d,0x2a7e},{0x2a7e,0x2a7d},{0x2a7f,0x2a80},{0x2a80,0x2a7f},{0x2a81,0x2a82},{0x2a82,0x2a81},{0x2a83,0x2a84},{0x2a84,0x2a83},{0x2a85,0x2a86},{0x2a86,0x2a85},{0x2a87,0x2a88},{0x2a88,0x2a87},{0x2a89,0x2a8a},{0x2a8a,0x2a89},{0x2a8b,0x2a8c},{0x2a8c,0x2a8b},{0x2a8d,0x2a8e},{0x2a8e,0x2a8d},{0x2a8f,0x2a90},{0x2a90,0x2a8f},{0x2a91,0x2a92},{0x2a92,0x2a91},{0x2a93,0x2a94},{0x2a94,0x2a93},{0x2a95,0x2a96},{0x2a96,0x2a95},{0x2a97,0x2a98},{0x2a98,0x2a97},{0x2a99,0x2a9a},{0x2a9a,0x2a99},{0x2a9b,0x2a9c},{0x2a9c,0x2a9b},{0x2a9d,0x2a9e},{0x2a9e,0x2a9d},{0x2a9f,0x2aa0},{0x2aa0,0x2a9f},{0x2aa1,0x2aa2},{0x2aa2,0x2aa1},{0x2aa6,0x2aa7},{0x2aa7,0x2aa6},{0x2aa8,0x2aa9},{0x2aa9,0x2aa8},{0x2aaa,0x2aab},{0x2aab,0x2aaa},{0x2aac,0x2aad},{0x2aad,0x2aac},{0x2aaf,0x2ab0},{0x2ab0,0x2aaf},{0x2ab1,0x2ab2},{0x2ab2,0x2ab1},{0x2ab3,0x2ab4},{0x2ab4,0x2ab3},{0x2ab5,0x2ab6},{0x2ab6,0x2ab5},{0x2ab7,0x2ab8},{0x2ab8,0x2ab7},{0x2ab9,0x2aba},{0x2aba,0x2ab9},{0x2abb,0x2abc},{0x2abc,0x2abb},{0x2abd,0x2abe},{0x2abe,0x2abd},{0x2abf,0x2ac0},{0x2ac0,0x2abf},{0x2ac1,0x2ac2},{0x2ac2,0x2ac1},{0x2ac3,0x2ac4},{0x2ac4,0x2ac3},{0x2ac5,0x2ac6},{0x2ac6,0x2ac5},{0x2ac7,0x2ac8},{0x2ac8,0x2ac7},{0x2ac9,0x2aca},{0x2aca,0x2ac9},{0x2acb,0x2acc},{0x2acc,0x2acb},{0x2acd,0x2ace},{0x2ace,0x2acd},{0x2acf,0x2ad0},{0x2ad0,0x2acf},{0x2ad1,0x2ad2},{0x2ad2,0x2ad1},{0x2ad3,0x2ad4},{0x2ad4,0x2ad3},{0x2ad5,0x2ad6},{0x2ad6,0x2ad5},{0x2ade,0x22a6},{0x2ae3,0x22a9},{0x2ae4,0x22a8},{0x2ae5,0x22ab},{0x2aec,0x2aed},{0x2aed,0x2aec},{0x2aee,0x2224},{0x2af7,0x2af8},{0x2af8,0x2af7},{0x2af9,0x2afa},{0x2afa,0x2af9},{0x2bfe,0x221f},{0x2e02,0x2e03},{0x2e03,0x2e02},{0x2e04,0x2e05},{0x2e05,0x2e04},{0x2e09,0x2e0a},{0x2e0a,0x2e09},{0x2e0c,0x2e0d},{0x2e0d,0x2e0c},{0x2e1c,0x2e1d},{0x2e1d,0x2e1c},{0x2e20,0x2e21},{0x2e21,0x2e20},{0x2e22,0x2e23},{0x2e23,0x2e22},{0x2e24,0x2e25},{0x2e25,0x2e24},{0x2e26,0x2e27},{0x2e27,0x2e26},{0x2e28,0x2e29},{0x2e29,0x2e28},{0x2e55,0x2e56},{0x2e56,0x2e55},{0x2e57,0x2e58},{0x2e58,0x2e57},{0x2e59,0x2e5a},{0x2e5a,0x2e59},{0x2e5b,0x2e5c},{0x2e5c,0x2e5b},{0x3008,0x3009},{0x3009,0x3008},{0x300a,0x300b},{0x300b,0x300a},{0x300c,0x300d},{0x300d,0x300c},{0x300e,0x300f},{0x300f,0x300e},{0x3010,0x3011},{0x3011,0x3010},{0x3014,0x3015},{0x3015,0x3014},{0x3016,0x3017},{0x3017,0x3016},{0x3018,0x3019},{0x3019,0x3018},{0x301a,0x301b},{0x301b,0x301a},{0xfe59,0xfe5a},{0xfe5a,0xfe59},{0xfe5b,0xfe5c},{0xfe5c,0xfe5b},{0xfe5d,0xfe5e},{0xfe5e,0xfe5d},{0xfe64,0xfe65},{0xfe65,0xfe64},{0xff08,0xff09},{0xff09,0xff08},{0xff1c,0xff1e},{0xff1e,0xff1c},{0xff3b,0xff3d},{0xff3d,0xff3b},{0xff5b,0xff5d},{0xff5d,0xff5b},{0xff5f,0xff60},{0xff60,0xff5f},{0xff62,0xff63},{0xff63,0xff62},
};
struct ref_map {uint32_t cp; uint32_t to[3];};
static const struct ref_map ref_lower[] = {
{0x41,{0x61,0x0,0x0}},{0x42,{0x62,0x0,0x0}},{0x43,{0x63,0x0,0x0}},{0x44,{0x64,0x0,0x0}},{0x45,{0x65,0x0,0x0}},{0x46,{0x66,0x0,0x0}},
{0x47,{0x67,0x0,0x0}},{0x48,{0x68,0x0,0x0}},{0x49,{0x69,0x0,0x0}},{0x4a,{0x6a,0x0,0x0}},{0x4b,{0x6b,0x0,0x0}},{0x4c,{0x6c,0x0,0x0}},
{0x4d,{0x6d,0x0,0x0}},{0x4e,{0x6e,0x0,0x0}},{0x4f,{0x6f,0x0,0x0}},{0x50,{0x70,0x0,0x0}},{0x51,{0x71,0x0,0x0}},{0x52,{0x72,0x0,0x0}},
{0x53,{0x73,0x0,0x0}},{0x54,{0x74,0x0,0x0}},{0x55,{0x75,0x0,0x0}},{0x56,{0x76,0x0,0x0}},{0x57,{0x77,0x0,0x0}},{0x58,{0x78,0x0,0x0}},
{0x59,{0x79,0x0,0x0}},{0x5a,{0x7a,0x0,0x0}},{0xc0,{0xe0,0x0,0x0}},{0xc1,{0xe1,0x0,0x0}},{0xc2,{0xe2,0x0,0x0}},{0xc3,{0xe3,0x0,0x0}},
{0xc4,{0xe4,0x0,0x0}},{0xc5,{0xe5,0x0,0x0}},{0xc6,{0xe6,0x0,0x0}},{0xc7,{0xe7,0x0,0x0}},{0xc8,{0xe8,0x0,0x0}},{0xc9,{0xe9,0x0,0x0}},
{0xca,{0xea,0x0,0x0}},{0xcb,{0xeb,0x0,0x0}},{0xcc,{0xec,0x0,0x0}},{0xcd,{0xed,0x0,0x0}},{0xce,{0xee,0x0,0x0}},{0xcf,{0xef,0x0,0x0}},
{0xd0,{0xf0,0x0,0x0}},{0xd1,{0xf1,0x0,0x0}},{0xd2,{0xf2,0x0,0x0}},{0xd3,{0xf3,0x0,0x0}},{0xd4,{0xf4,0x0,0x0}},{0xd5,{0xf5,0x0,0x0}},
{0xd6,{0xf6,0x0,0x0}},{0xd8,{0xf8,0x0,0x0}},{0xd9,{0xf9,0x0,0x0}},{0xda,{0xfa,0x0,0x0}},{0xdb,{0xfb,0x0,0x0}},{0xdc,{0xfc,0x0,0x0}},
{0xdd,{0xfd,0x0,0x0}},{0xde,{0xfe,0x0,0x0}},{0x100,{0x101,0x0,0x0}},{0x102,{0x103,0x0,0x0}},{0x104,{0x105,0x0,0x0}},{0x106,{0x107,0x0,0x0}},
{0x108,{0x109,0x0,0x0}},{0x10a,{0x10b,0x0,0x0}},{0x10c,{0x10d,0x0,0x0}},{0x10e,{0x10f,0x0,0x0}},{0x110,{0x111,0x0,0x0}},{0x112,{0x113,0x0,0x0}},
{0x114,{0x115,0x0,0x0}},{0x116,{0x117,0x0,0x0}},{0x118,{0x119,0x0,0x0}},{0x11a,{0x11b,0x0,0x0}},{0x11c,{0x11d,0x0,0x0}},{0x11e,{0x11f,0x0,0x0}},
{0x120,{0x121,0x0,0x0}},{0x122,{0x123,0x0,0x0}},{0x124,{0x125,0x0,0x0}},{0x126,{0x127,0x0,0x0}},{0x128,{0x129,0x0,0x0}},{0x12a,{0x12b,0x0,0x0}},
{0x12c,{0x12d,0x0,0x0}},{0x12e,{0x12f,0x0,0x0}},{0x130,{0x69,0x307,0x0}},{0x132,{0x133,0x0,0x0}},{0x134,{0x135,0x0,0x0}},{0x136,{0x137,0x0,0x0}},
{0x139,{0x13a,0x0,0x0}},{0x13b,{0x13c,0x0,0x0}},{0x13d,{0x13e,0x0,0x0}},{0x13f,{0x140,0x0,0x0}},{0x141,{0x142,0x0,0x0}},{0x143,{0x144,0x0,0x0}},
{0x145,{0x146,0x0,0x0}},{0x147,{0x148,0x0,0x0}},{0x14a,{0x14b,0x0,0x0}},{0x14c,{0x14d,0x0,0x0}},{0x14e,{0x14f,0x0,0x0}},{0x150,{0x151,0x0,0x0}},
{0x152,{0x153,0x0,0x0}},{0x154,{0x155,0x0,0x0}},{0x156,{0x157,0x0,0x0}},{0x158,{0x159,0x0,0x0}},{0x15a,{0x15b,0x0,0x0}},{0x15c,{0x15d,0x0,0x0}},
{0x15e,{0x15f,0x0,0x0}},{0x160,{0x161,0x0,0x0}},{0x162,{0x163,0x0,0x0}},{0x164,{0x165,0x0,0x0}},{0x166,{0x167,0x0,0x0}},{0x168,{0x169,0x0,0x0}},
{0x16a,{0x16b,0x0,0x0}},{0x16c,{0x16d,0x0,0x0}},{0x16e,{0x16f,0x0,0x0}},{0x170,{0x171,0x0,0x0}},{0x172,{0x173,0x0,0x0}},{0x174,{0x175,0x0,0x0}},
{0x176,{0x177,0x0,0x0}},{0x178,{0xff,0x0,0x0}},{0x179,{0x17a,0x0,0x0}},{0x17b,{0x17c,0x0,0x0}},{0x17d,{0x17e,0x0,0x0}},{0x181,{0x253,0x0,0x0}},
{0x182,{0x183,0x0,0x0}},{0x184,{0x185,0x0,0x0}},{0x186,{0x254,0x0,0x0}},{0x187,{0x188,0x0,0x0}},{0x189,{0x256,0x0,0x0}},{0x18a,{0x257,0x0,0x0}},
{0x18b,{0x18c,0x0,0x0}},{0x18e,{0x1dd,0x0,0x0}},{0x18f,{0x259,0x0,0x0}},{0x190,{0x25b,0x0,0x0}},{0x191,{0x192,0x0,0x0}},{0x193,{0x260,0x0,0x0}},
{0x194,{0x263,0x0,0x0}},{0x196,{0x269,0x0,0x0}},{0x197,{0x268,0x0,0x0}},{0x198,{0x199,0x0,0x0}},{0x19c,{0x26f,0x0,0x0}},{0x19d,{0x272,0x0,0x0}},
{0x19f,{0x275,0x0,0x0}},{0x1a0,{0x1a1,0x0,0x0}},{0x1a2,{0x1a3,0x0,0x0}},{0x1a4,{0x1a5,0x0,0x0}},{0x1a6,{0x280,0x0,0x0}},{0x1a7,{0x1a8,0x0,0x0}},
{0x1a9,{0x283,0x0,0x0}},{0x1ac,{0x1ad,0x0,0x0}},{0x1ae,{0x288,0x0,0x0}},{0x1af,{0x1b0,0x0,0x0}},{0x1b1,{0x28a,0x0,0x0}},{0x1b2,{0x28b,0x0,0x0}},
{0x1b3,{0x1b4,0x0,0x0}},{0x1b5,{0x1b6,0x0,0x0}},{0x1b7,{0x292,0x0,0x0}},{0x1b8,{0x1b9,0x0,0x0}},{0x1bc,{0x1bd,0x0,0x0}},{0x1c4,{0x1c6,0x0,0x0}},
{0x1c5,{0x1c6,0x0,0x0}},{0x1c7,{0x1c9,0x0,0x0}},{0x1c8,{0x1c9,0x0,0x0}},{0x1ca,{0x1cc,0x0,0x0}},{0x1cb,{0x1cc,0x0,0x0}},{0x1cd,{0x1ce,0x0,0x0}},
{0x1cf,{0x1d0,0x0,0x0}},{0x1d1,{0x1d2,0x0,0x0}},{0x1d3,{0x1d4,0x0,0x0}},{0x1d5,{0x1d6,0x0,0x0}},{0x1d7,{0x1d8,0x0,0x0}},{0x1d9,{0x1da,0x0,0x0}},
{0x1db,{0x1dc,0x0,0x0}},{0x1de,{0x1df,0x0,0x0}},{0x1e0,{0x1e1,0x0,0x0}},{0x1e2,{0x1e3,0x0,0x0}},{0x1e4,{0x1e5,0x0,0x0}},{0x1e6,{0x1e7,0x0,0x0}},
{0x1e8,{0x1e9,0x0,0x0}},{0x1ea,{0x1eb,0x0,0x0}},{0x1ec,{0x1ed,0x0,0x0}},{0x1ee,{0x1ef,0x0,0x0}},{0x1f1,{0x1f3,0x0,0x0}},{0x1f2,{0x1f3,0x0,0x0}},
{0x1f4,{0x1f5,0x0,0x0}},{0x1f6,{0x195,0x0,0x0}},{0x1f7,{0x1bf,0x0,0x0}},{0x1f8,{0x1f9,0x0,0x0}},{0x1fa,{0x1fb,0x0,0x0}},{0x1fc,{0x1fd,0x0,0x0}},
{0x1fe,{0x1ff,0x0,0x0}},{0x200,{0x201,0x0,0x0}},{0x202,{0x203,0x0,0x0}},{0x204,{0x205,0x0,0x0}},{0x206,{0x207,0x0,0x0}},{0x208,{0x209,0x0,0x0}},
{0x20a,{0x20b,0x0,0x0}},{0x20c,{0x20d,0x0,0x0}},{0x20e,{0x20f,0x0,0x0}},{0x210,{0x211,0x0,0x0}},{0x212,{0x213,0x0,0x0}},{0x214,{0x215,0x0,0x0}},
{0x216,{0x217,0x0,0x0}},{0x218,{0x219,0x0,0x0}},{0x21a,{0x21b,0x0,0x0}},{0x21c,{0x21d,0x0,0x0}},{0x21e,{0x21f,0x0,0x0}},{0x220,{0x19e,0x0,0x0}},
{0x222,{0x223,0x0,0x0}},{0x224,{0x225,0x0,0x0}},{0x226,{0x227,0x0,0x0}},{0x228,{0x229,0x0,0x0}},{0x22a,{0x22b,0x0,0x0}},{0x22c,{0x22d,0x0,0x0}},
{0x22e,{0x22f,0x0,0x0}},{0x230,{0x231,0x0,0x0}},{0x232,{0x233,0x0,0x0}},{0x23a,{0x2c65,0x0,0x0}},{0x23b,{0x23c,0x0,0x0}},{0x23d,{0x19a,0x0,0x0}},
{0x23e,{0x2c66,0x0,0x0}},{0x241,{0x242,0x0,0x0}},{0x243,{0x180,0x0,0x0}},{0x244,{0x289,0x0,0x0}},{0x245,{0x28c,0x0,0x0}},{0x246,{0x247,0x0,0x0}},
{0x248,{0x249,0x0,0x0}},{0x24a,{0x24b,0x0,0x0}},{0x24c,{0x24d,0x0,0x0}},{0x24e,{0x24f,0x0,0x0}},{0x370,{0x371,0x0,0x0}},{0x372,{0x373,0x0,0x0}},
{0x376,{0x377,0x0,0x0}},{0x37f,{0x3f3,0x0,0x0}},{0x386,{0x3ac,0x0,0x0}},{0x388,{0x3ad,0x0,0x0}},{0x389,{0x3ae,0x0,0x0}},{0x38a,{0x3af,0x0,0x0}},
{0x38c,{0x3cc,0x0,0x0}},{0x38e,{0x3cd,0x0,0x0}},{0x38f,{0x3ce,0x0,0x0}},{0x391,{0x3b1,0x0,0x0}},{0x392,{0x3b2,0x0,0x0}},{0x393,{0x3b3,0x0,0x0}},
{0x394,{0x3b4,0x0,0x0}},{0x395,{0x3b5,0x0,0x0}},{0x396,{0x3b6,0x0,0x0}},{0x397,{0x3b7,0x0,0x0}},{0x398,{0x3b8,0x0,0x0}},{0x399,{0x3b9,0x0,0x0}},
{0x39a,{0x3ba,0x0,0x0}},{0x39b,{0x3bb,0x0,0x0}},{0x39c,{0x3bc,0x0,0x0}},{0x39d,{0x3bd,0x0,0x0}},{0x39e,{0x3be,0x0,0x0}},{0x39f,{0x3bf,0x0,0x0}},
{0x3a0,{0x3c0,0x0,0x0}},{0x3a1,{0x3c1,0x0,0x0}},{0x3a3,{0x3c3,0x0,0x0}},{0x3a4,{0x3c4,0x0,0x0}},{0x3a5,{0x3c5,0x0,0x0}},{0x3a6,{0x3c6,0x0,0x0}},
{0x3a7,{0x3c7,0x0,0x0}},{0x3a8,{0x3c8,0x0,0x0}},{0x3a9,{0x3c9,0x0,0x0}},{0x3aa,{0x3ca,0x0,0x0}},{0x3ab,{0x3cb,0x0,0x0}},{0x3cf,{0x3d7,0x0,0x0}},
{0x3d8,{0x3d9,0x0,0x0}},{0x3da,{0x3db,0x0,0x0}},{0x3dc,{0x3dd,0x0,0x0}},{0x3de,{0x3df,0x0,0x0}},{0x3e0,{0x3e1,0x0,0x0}},{0x3e2,{0x3e3,0x0,0x0}},
{0x3e4,{0x3e5,0x0,0x0}},{0x3e6,{0x3e7,0x0,0x0}},{0x3e8,{0x3e9,0x0,0x0}},{0x3ea,{0x3eb,0x0,0x0}},{0x3ec,{0x3ed,0x0,0x0}},{0x3ee,{0x3ef,0x0,0x0}},
{0x3f4,{0x3b8,0x0,0x0}},{0x3f7,{0x3f8,0x0,0x0}},{0x3f9,{0x3f2,0x0,0x0}},{0x3fa,{0x3fb,0x0,0x0}},{0x3fd,{0x37b,0x0,0x0}},{0x3fe,{0x37c,0x0,0x0}},
{0x3ff,{0x37d,0x0,0x0}},{0x400,{0x450,0x0,0x0}},{0x401,{0x451,0x0,0x0}},{0x402,{0x452,0x0,0x0}},{0x403,{0x453,0x0,0x0}},{0x404,{0x454,0x0,0x0}},
{0x405,{0x455,0x0,0x0}},{0x406,{0x456,0x0,0x0}},{0x407,{0x457,0x0,0x0}},{0x408,{0x458,0x0,0x0}},{0x409,{0x459,0x0,0x0}},{0x40a,{0x45a,0x0,0x0}},
{0x40b,{0x45b,0x0,0x0}},{0x40c,{0x45c,0x0,0x0}},{0x40d,{0x45d,0x0,0x0}},{0x40e,{0x45e,0x0,0x0}},{0x40f,{0x45f,0x0,0x0}},{0x410,{0x430,0x0,0x0}},
{0x411,{0x431,0x0,0x0}},{0x412,{0x432,0x0,0x0}},{0x413,{0x433,0x0,0x0}},{0x414,{0x434,0x0,0x0}},{0x415,{0x435,0x0,0x0}},{0x416,{0x436,0x0,0x0}},
{0x417,{0x437,0x0,0x0}},{0x418,{0x438,0x0,0x0}},{0x419,{0x439,0x0,0x0}},{0x41a,{0x43a,0x0,0x0}},{0x41b,{0x43b,0x0,0x0}},{0x41c,{0x43c,0x0,0x0}},
{0x41d,{0x43d,0x0,0x0}},{0x41e,{0x43e,0x0,0x0}},{0x41f,{0x43f,0x0,0x0}},{0x420,{0x440,0x0,0x0}},{0x421,{0x441,0x0,0x0}},{0x422,{0x442,0x0,0x0}},
{0x423,{0x443,0x0,0x0}},{0x424,{0x444,0x0,0x0}},{0x425,{0x445,0x0,0x0}},{0x426,{0x446,0x0,0x0}},{0x427,{0x447,0x0,0x0}},{0x428,{0x448,0x0,0x0}},
{0x429,{0x449,0x0,0x0}},{0x42a,{0x44a,0x0,0x0}},{0x42b,{0x44b,0x0,0x0}},{0x42c,{0x44c,0x0,0x0}},{0x42d,{0x44d,0x0,0x0}},{0x42e,{0x44e,0x0,0x0}},
{0x42f,{0x44f,0x0,0x0}},{0x460,{0x461,0x0,0x0}},{0x462,{0x463,0x0,0x0}},{0x464,{0x465,0x0,0x0}},{0x466,{0x467,0x0,0x0}},{0x468,{0x469,0x0,0x0}},
{0x46a,{0x46b,0x0,0x0}},{0x46c,{0x46d,0x0,0x0}},{0x46e,{0x46f,0x0,0x0}},{0x470,{0x471,0x0,0x0}},{0x472,{0x473,0x0,0x0}},{0x474,{0x475,0x0,0x0}},
{0x476,{0x477,0x0,0x0}},{0x478,{0x479,0x0,0x0}},{0x47a,{0x47b,0x0,0x0}},{0x47c,{0x47d,0x0,0x0}},{0x47e,{0x47f,0x0,0x0}},{0x480,{0x481,0x0,0x0}},
{0x48a,{0x48b,0x0,0x0}},{0x48c,{0x48d,0x0,0x0}},{0x48e,{0x48f,0x0,0x0}},{0x490,{0x491,0x0,0x0}},{0x492,{0x493,0x0,0x0}},{0x494,{0x495,0x0,0x0}},
{0x496,{0x497,0x0,0x0}},{0x498,{0x499,0x0,0x0}},{0x49a,{0x49b,0x0,0x0}},{0x49c,{0x49d,0x0,0x0}},{0x49e,{0x49f,0x0,0x0}},{0x4a0,{0x4a1,0x0,0x0}},
{0x4a2,{0x4a3,0x0,0x0}},{0x4a4,{0x4a5,0x0,0x0}},{0x4a6,{0x4a7,0x0,0x0}},{0x4a8,{0x4a9,0x0,0x0}},{0x4aa,{0x4ab,0x0,0x0}},{0x4ac,{0x4ad,0x0,0x0}},
{0x4ae,{0x4af,0x0,0x0}},{0x4b0,{0x4b1,0x0,0x0}},{0x4b2,{0x4b3,0x0,0x0}},{0x4b4,{0x4b5,0x0,0x0}},{0x4b6,{0x4b7,0x0,0x0}},{0x4b8,{0x4b9,0x0,0x0}},
{0x4ba,{0x4bb,0x0,0x0}},{0x4bc,{0x4bd,0x0,0x0}},{0x4be,{0x4bf,0x0,0x0}},{0x4c0,{0x4cf,0x0,0x0}},{0x4c1,{0x4c2,0x0,0x0}},{0x4c3,{0x4c4,0x0,0x0}},
{0x4c5,{0x4c6,0x0,0x0}},{0x4c7,{0x4c8,0x0,0x0}},{0x4c9,{0x4ca,0x0,0x0}},{0x4cb,{0x4cc,0x0,0x0}},{0x4cd,{0x4ce,0x0,0x0}},{0x4d0,{0x4d1,0x0,0x0}},
{0x4d2,{0x4d3,0x0,0x0}},{0x4d4,{0x4d5,0x0,0x0}},{0x4d6,{0x4d7,0x0,0x0}},{0x4d8,{0x4d9,0x0,0x0}},{0x4da,{0x4db,0x0,0x0}},{0x4dc,{0x4dd,0x0,0x0}},
{0x4de,{0x4df,0x0,0x0}},{0x4e0,{0x4e1,0x0,0x0}},{0x4e2,{0x4e3,0x0,0x0}},{0x4e4,{0x4e5,0x0,0x0}},{0x4e6,{0x4e7,0x0,0x0}},{0x4e8,{0x4e9,0x0,0x0}},
{0x4ea,{0x4eb,0x0,0x0}},{0x4ec,{0x4ed,0x0,0x0}},{0x4ee,{0x4ef,0x0,0x0}},{0x4f0,{0x4f1,0x0,0x0}},{0x4f2,{0x4f3,0x0,0x0}},{0x4f4,{0x4f5,0x0,0x0}},
{0x4f6,{0x4f7,0x0,0x0}},{0x4f8,{0x4f9,0x0,0x0}},{0x4fa,{0x4fb,0x0,0x0}},{0x4fc,{0x4fd,0x0,0x0}},{0x4fe,{0x4ff,0x0,0x0}},{0x500,{0x501,0x0,0x0}},
{0x502,{0x503,0x0,0x0}},{0x504,{0x505,0x0,0x0}},{0x506,{0x507,0x0,0x0}},{0x508,{0x509,0x0,0x0}},{0x50a,{0x50b,0x0,0x0}},{0x50c,{0x50d,0x0,0x0}},
{0x50e,{0x50f,0x0,0x0}},{0x510,{0x511,0x0,0x0}},{0x512,{0x513,0x0,0x0}},{0x514,{0x515,0x0,0x0}},{0x516,{0x517,0x0,0x0}},{0x518,{0x519,0x0,0x0}},
{0x51a,{0x51b,0x0,0x0}},{0x51c,{0x51d,0x0,0x0}},{0x51e,{0x51f,0x0,0x0}},{0x520,{0x521,0x0,0x0}},{0x522,{0x523,0x0,0x0}},{0x524,{0x525,0x0,0x0}},
{0x526,{0x527,0x0,0x0}},{0x528,{0x529,0x0,0x0}},{0x52a,{0x52b,0x0,0x0}},{0x52c,{0x52d,0x0,0x0}},{0x52e,{0x52f,0x0,0x0}},{0x531,{0x561,0x0,0x0}},
{0x532,{0x562,0x0,0x0}},{0x533,{0x563,0x0,0x0}},{0x534,{0x564,0x0,0x0}},{0x535,{0x565,0x0,0x0}},{0x536,{0x566,0x0,0x0}},{0x537,{0x567,0x0,0x0}},
{0x538,{0x568,0x0,0x0}},{0x539,{0x569,0x0,0x0}},{0x53a,{0x56a,0x0,0x0}},{0x53b,{0x56b,0x0,0x0}},{0x53c,{0x56c,0x0,0x0}},{0x53d,{0x56d,0x0,0x0}},
{0x53e,{0x56e,0x0,0x0}},{0x53f,{0x56f,0x0,0x0}},{0x540,{0x570,0x0,0x0}},{0x541,{0x571,0x0,0x0}},{0x542,{0x572,0x0,0x0}},{0x543,{0x573,0x0,0x0}},
{0x544,{0x574,0x0,0x0}},{0x545,{0x575,0x0,0x0}},{0x546,{0x576,0x0,0x0}},{0x547,{0x577,0x0,0x0}},{0x548,{0x578,0x0,0x0}},{0x549,{0x579,0x0,0x0}},
{0x54a,{0x57a,0x0,0x0}},{0x54b,{0x57b,0x0,0x0}},{0x54c,{0x57c,0x0,0x0}},{0x54d,{0x57d,0x0,0x0}},{0x54e,{0x57e,0x0,0x0}},{0x54f,{0x57f,0x0,0x0}},
{0x550,{0x580,0x0,0x0}},{0x551,{0x581,0x0,0x0}},{0x552,{0x582,0x0,0x0}},{0x553,{0x583,0x0,0x0}},{0x554,{0x584,0x0,0x0}},{0x555,{0x585,0x0,0x0}},
{0x556,{0x586,0x0,0x0}},{0x10a0,{0x2d00,0x0,0x0}},{0x10a1,{0x2d01,0x0,0x0}},{0x10a2,{0x2d02,0x0,0x0}},{0x10a3,{0x2d03,0x0,0x0}},{0x10a4,{0x2d04,0x0,0x0}},
{0x10a5,{0x2d05,0x0,0x0}},{0x10a6,{0x2d06,0x0,0x0}},{0x10a7,{0x2d07,0x0,0x0}},{0x10a8,{0x2d08,0x0,0x0}},{0x10a9,{0x2d09,0x0,0x0}},{0x10aa,{0x2d0a,0x0,0x0}},
{0x10ab,{0x2d0b,0x0,0x0}},{0x10ac,{0x2d0c,0x0,0x0}},{0x10ad,{0x2d0d,0x0,0x0}},{0x10ae,{0x2d0e,0x0,0x0}},{0x10af,{0x2d0f,0x0,0x0}},{0x10b0,{0x2d10,0x0,0x0}},
{0x10b1,{0x2d11,0x0,0x0}},{0x10b2,{0x2d12,0x0,0x0}},{0x10b3,{0x2d13,0x0,0x0}},{0x10b4,{0x2d14,0x0,0x0}},{0x10b5,{0x2d15,0x0,0x0}},{0x10b6,{0x2d16,0x0,0x0}},
{0x10b7,{0x2d17,0x0,0x0}},{0x10b8,{0x2d18,0x0,0x0}},{0x10b9,{0x2d19,0x0,0x0}},{0x10ba,{0x2d1a,0x0,0x0}},{0x10bb,{0x2d1b,0x0,0x0}},{0x10bc,{0x2d1c,0x0,0x0}},
{0x10bd,{0x2d1d,0x0,0x0}},{0x10be,{0x2d1e,0x0,0x0}},{0x10bf,{0x2d1f,0x0,0x0}},{0x10c0,{0x2d20,0x0,0x0}},{0x10c1,{0x2d21,0x0,0x0}},{0x10c2,{0x2d22,0x0,0x0}},
{0x10c3,{0x2d23,0x0,0x0}},{0x10c4,{0x2d24,0x0,0x0}},{0x10c5,{0x2d25,0x0,0x0}},{0x10c7,{0x2d27,0x0,0x0}},{0x10cd,{0x2d2d,0x0,0x0}},{0x13a0,{0xab70,0x0,0x0}},
{0x13a1,{0xab71,0x0,0x0}},{0x13a2,{0xab72,0x0,0x0}},{0x13a3,{0xab73,0x0,0x0}},{0x13a4,{0xab74,0x0,0x0}},{0x13a5,{0xab75,0x0,0x0}},{0x13a6,{0xab76,0x0,0x0}},
{0x13a7,{0xab77,0x0,0x0}},{0x13a8,{0xab78,0x0,0x0}},{0x13a9,{0xab79,0x0,0x0}},{0x13aa,{0xab7a,0x0,0x0}},{0x13ab,{0xab7b,0x0,0x0}},{0x13ac,{0xab7c,0x0,0x0}},
{0x13ad,{0xab7d,0x0,0x0}},{0x13ae,{0xab7e,0x0,0x0}},{0x13af,{0xab7f,0x0,0x0}},{0x13b0,{0xab80,0x0,0x0}},{0x13b1,{0xab81,0x0,0x0}},{0x13b2,{0xab82,0x0,0x0}},
{0x13b3,{0xab83,0x0,0x0}},{0x13b4,{0xab84,0x0,0x0}},{0x13b5,{0xab85,0x0,0x0}},{0x13b6,{0xab86,0x0,0x0}},{0x13b7,{0xab87,0x0,0x0}},{0x13b8,{0xab88,0x0,0x0}},
{0x13b9,{0xab89,0x0,0x0}},{0x13ba,{0xab8a,0x0,0x0}},{0x13bb,{0xab8b,0x0,0x0}},{0x13bc,{0xab8c,0x0,0x0}},{0x13bd,{0xab8d,0x0,0x0}},{0x13be,{0xab8e,0x0,0x0}},
{0x13bf,{0xab8f,0x0,0x0}},{0x13c0,{0xab90,0x0,0x0}},{0x13c1,{0xab91,0x0,0x0}},{0x13c2,{0xab92,0x0,0x0}},{0x13c3,{0xab93,0x0,0x0}},{0x13c4,{0xab94,0x0,0x0}},
{0x13c5,{0xab95,0x0,0x0}},{0x13c6,{0xab96,0x0,0x0}},{0x13c7,{0xab97,0x0,0x0}},{0x13c8,{0xab98,0x0,0x0}},{0x13c9,{0xab99,0x0,0x0}},{0x13ca,{0xab9a,0x0,0x0}},
{0x13cb,{0xab9b,0x0,0x0}},{0x13cc,{0xab9c,0x0,0x0}},{0x13cd,{0xab9d,0x0,0x0}},{0x13ce,{0xab9e,0x0,0x0}},{0x13cf,{0xab9f,0x0,0x0}},{0x13d0,{0xaba0,0x0,0x0}},
{0x13d1,{0xaba1,0x0,0x0}},{0x13d2,{0xaba2,0x0,0x0}},{0x13d3,{0xaba3,0x0,0x0}},{0x13d4,{0xaba4,0x0,0x0}},{0x13d5,{0xaba5,0x0,0x0}},{0x13d6,{0xaba6,0x0,0x0}},
{0x13d7,{0xaba7,0x0,0x0}},{0x13d8,{0xaba8,0x0,0x0}},{0x13d9,{0xaba9,0x0,0x0}},{0x13da,{0xabaa,0x0,0x0}},{0x13db,{0xabab,0x0,0x0}},{0x13dc,{0xabac,0x0,0x0}},
{0x13dd,{0xabad,0x0,0x0}},{0x13de,{0xabae,0x0,0x0}},{0x13df,{0xabaf,0x0,0x0}},{0x13e0,{0xabb0,0x0,0x0}},{0x13e1,{0xabb1,0x0,0x0}},{0x13e2,{0xabb2,0x0,0x0}},
{0x13e3,{0xabb3,0x0,0x0}},{0x13e4,{0xabb4,0x0,0x0}},{0x13e5,{0xabb5,0x0,0x0}},{0x13e6,{0xabb6,0x0,0x0}},{0x13e7,{0xabb7,0x0,0x0}},{0x13e8,{0xabb8,0x0,0x0}},
{0x13e9,{0xabb9,0x0,0x0}},{0x13ea,{0xabba,0x0,0x0}},{0x13eb,{0xabbb,0x0,0x0}},{0x13ec,{0xabbc,0x0,0x0}},{0x13ed,{0xabbd,0x0,0x0}},{0x13ee,{0xabbe,0x0,0x0}},
{0x13ef,{0xabbf,0x0,0x0}},{0x13f0,{0x13f8,0x0,0x0}},{0x13f1,{0x13f9,0x0,0x0}},{0x13f2,{0x13fa,0x0,0x0}},{0x13f3,{0x13fb,0x0,0x0}},{0x13f4,{0x13fc,0x0,0x0}},
{0x13f5,{0x13fd,0x0,0x0}},{0x1c90,{0x10d0,0x0,0x0}},{0x1c91,{0x10d1,0x0,0x0}},{0x1c92,{0x10d2,0x0,0x0}},{0x1c93,{0x10d3,0x0,0x0}},{0x1c94,{0x10d4,0x0,0x0}},
{0x1c95,{0x10d5,0x0,0x0}},{0x1c96,{0x10d6,0x0,0x0}},{0x1c97,{0x10d7,0x0,0x0}},{0x1c98,{0x10d8,0x0,0x0}},{0x1c99,{0x10d9,0x0,0x0}},{0x1c9a,{0x10da,0x0,0x0}},
{0x1c9b,{0x10db,0x0,0x0}},{0x1c9c,{0x10dc,0x0,0x0}},{0x1c9d,{0x10dd,0x0,0x0}},{0x1c9e,{0x10de,0x0,0x0}},{0x1c9f,{0x10df,0x0,0x0}},{0x1ca0,{0x10e0,0x0,0x0}},
{0x1ca1,{0x10e1,0x0,0x0}},{0x1ca2,{0x10e2,0x0,0x0}},{0x1ca3,{0x10e3,0x0,0x0}},{0x1ca4,{0x10e4,0x0,0x0}},{0x1ca5,{0x10e5,0x0,0x0}},{0x1ca6,{0x10e6,0x0,0x0}},
{0x1ca7,{0x10e7,0x0,0x0}},{0x1ca8,{0x10e8,0x0,0x0}},{0x1ca9,{0x10e9,0x0,0x0}},{0x1caa,{0x10ea,0x0,0x0}},{0x1cab,{0x10eb,0x0,0x0}},{0x1cac,{0x10ec,0x0,0x0}},
{0x1cad,{0x10ed,0x0,0x0}},{0x1cae,{0x10ee,0x0,0x0}},{0x1caf,{0x10ef,0x0,0x0}},{0x1cb0,{0x10f0,0x0,0x0}},{0x1cb1,{0x10f1,0x0,0x0}},{0x1cb2,{0x10f2,0x0,0x0}},
{0x1cb3,{0x10f3,0x0,0x0}},{0x1cb4,{0x10f4,0x0,0x0}},{0x1cb5,{0x10f5,0x0,0x0}},{0x1cb6,{0x10f6,0x0,0x0}},{0x1cb7,{0x10f7,0x0,0x0}},{0x1cb8,{0x10f8,0x0,0x0}},
{0x1cb9,{0x10f9,0x0,0x0}},{0x1cba,{0x10fa,0x0,0x0}},{0x1cbd,{0x10fd,0x0,0x0}},{0x1cbe,{0x10fe,0x0,0x0}},{0x1cbf,{0x10ff,0x0,0x0}},{0x1e00,{0x1e01,0x0,0x0}},
{0x1e02,{0x1e03,0x0,0x0}},{0x1e04,{0x1e05,0x0,0x0}},{0x1e06,{0x1e07,0x0,0x0}},{0x1e08,{0x1e09,0x0,0x0}},{0x1e0a,{0x1e0b,0x0,0x0}},{0x1e0c,{0x1e0d,0x0,0x0}},
{0x1e0e,{0x1e0f,0x0,0x0}},{0x1e10,{0x1e11,0x0,0x0}},{0x1e12,{0x1e13,0x0,0x0}},{0x1e14,{0x1e15,0x0,0x0}},{0x1e16,{0x1e17,0x0,0x0}},{0x1e18,{0x1e19,0x0,0x0}},
{0x1e1a,{0x1e1b,0x0,0x0}},{0x1e1c,{0x1e1d,0x0,0x0}},{0x1e1e,{0x1e1f,0x0,0x0}},{0x1e20,{0x1e21,0x0,0x0}},{0x1e22,{0x1e23,0x0,0x0}},{0x1e24,{0x1e25,0x0,0x0}},
{0x1e26,{0x1e27,0x0,0x0}},{0x1e28,{0x1e29,0x0,0x0}},{0x1e2a,{0x1e2b,0x0,0x0}},{0x1e2c,{0x1e2d,0x0,0x0}},{0x1e2e,{0x1e2f,0x0,0x0}},{0x1e30,{0x1e31,0x0,0x0}},
{0x1e32,{0x1e33,0x0,0x0}},{0x1e34,{0x1e35,0x0,0x0}},{0x1e36,{0x1e37,0x0,0x0}},{0x1e38,{0x1e39,0x0,0x0}},{0x1e3a,{0x1e3b,0x0,0x0}},{0x1e3c,{0x1e3d,0x0,0x0}},
{0x1e3e,{0x1e3f,0x0,0x0}},{0x1e40,{0x1e41,0x0,0x0}},{0x1e42,{0x1e43,0x0,0x0}},{0x1e44,{0x1e45,0x0,0x0}},{0x1e46,{0x1e47,0x0,0x0}},{0x1e48,{0x1e49,0x0,0x0}},
{0x1e4a,{0x1e4b,0x0,0x0}},{0x1e4c,{0x1e4d,0x0,0x0}},{0x1e4e,{0x1e4f,0x0,0x0}},{0x1e50,{0x1e51,0x0,0x0}},{0x1e52,{0x1e53,0x0,0x0}},{0x1e54,{0x1e55,0x0,0x0}},
{0x1e56,{0x1e57,0x0,0x0}},{0x1e58,{0x1e59,0x0,0x0}},{0x1e5a,{0x1e5b,0x0,0x0}},{0x1e5c,{0x1e5d,0x0,0x0}},{0x1e5e,{0x1e5f,0x0,0x0}},{0x1e60,{0x1e61,0x0,0x0}},
{0x1e62,{0x1e63,0x0,0x0}},{0x1e64,{0x1e65,0x0,0x0}},{0x1e66,{0x1e67,0x0,0x0}},{0x1e68,{0x1e69,0x0,0x0}},{0x1e6a,{0x1e6b,0x0,0x0}},{0x1e6c,{0x1e6d,0x0,0x0}},
{0x1e6e,{0x1e6f,0x0,0x0}},{0x1e70,{0x1e71,0x0,0x0}},{0x1e72,{0x1e73,0x0,0x0}},{0x1e74,{0x1e75,0x0,0x0}},{0x1e76,{0x1e77,0x0,0x0}},{0x1e78,{0x1e79,0x0,0x0}},
{0x1e7a,{0x1e7b,0x0,0x0}},{0x1e7c,{0x1e7d,0x0,0x0}},{0x1e7e,{0x1e7f,0x0,0x0}},{0x1e80,{0x1e81,0x0,0x0}},{0x1e82,{0x1e83,0x0,0x0}},{0x1e84,{0x1e85,0x0,0x0}},
{0x1e86,{0x1e87,0x0,0x0}},{0x1e88,{0x1e89,0x0,0x0}},{0x1e8a,{0x1e8b,0x0,0x0}},{0x1e8c,{0x1e8d,0x0,0x0}},{0x1e8e,{0x1e8f,0x0,0x0}},{0x1e90,{0x1e91,0x0,0x0}},
{0x1e92,{0x1e93,0x0,0x0}},{0x1e94,{0x1e95,0x0,0x0}},{0x1e9e,{0xdf,0x0,0x0}},{0x1ea0,{0x1ea1,0x0,0x0}},{0x1ea2,{0x1ea3,0x0,0x0}},{0x1ea4,{0x1ea5,0x0,0x0}},
{0x1ea6,{0x1ea7,0x0,0x0}},{0x1ea8,{0x1ea9,0x0,0x0}},{0x1eaa,{0x1eab,0x0,0x0}},{0x1eac,{0x1ead,0x0,0x0}},{0x1eae,{0x1eaf,0x0,0x0}},{0x1eb0,{0x1eb1,0x0,0x0}},
{0x1eb2,{0x1eb3,0x0,0x0}},{0x1eb4,{0x1eb5,0x0,0x0}},{0x1eb6,{0x1eb7,0x0,0x0}},{0x1eb8,{0x1eb9,0x0,0x0}},{0x1eba,{0x1ebb,0x0,0x0}},{0x1ebc,{0x1ebd,0x0,0x0}},
{0x1ebe,{0x1ebf,0x0,0x0}},{0x1ec0,{0x1ec1,0x0,0x0}},{0x1ec2,{0x1ec3,0x0,0x0}},{0x1ec4,{0x1ec5,0x0,0x0}},{0x1ec6,{0x1ec7,0x0,0x0}},{0x1ec8,{0x1ec9,0x0,0x0}},
{0x1eca,{0x1ecb,0x0,0x0}},{0x1ecc,{0x1ecd,0x0,0x0}},{0x1ece,{0x1ecf,0x0,0x0}},{0x1ed0,{0x1ed1,0x0,0x0}},{0x1ed2,{0x1ed3,0x0,0x0}},{0x1ed4,{0x1ed5,0x0,0x0}},
{0x1ed6,{0x1ed7,0x0,0x0}},{0x1ed8,{0x1ed9,0x0,0x0}},{0x1eda,{0x1edb,0x0,0x0}},{0x1edc,{0x1edd,0x0,0x0}},{0x1ede,{0x1edf,0x0,0x0}},{0x1ee0,{0x1ee1,0x0,0x0}},
{0x1ee2,{0x1ee3,0x0,0x0}},{0x1ee4,{0x1ee5,0x0,0x0}},{0x1ee6,{0x1ee7,0x0,0x0}},{0x1ee8,{0x1ee9,0x0,0x0}},{0x1eea,{0x1eeb,0x0,0x0}},{0x1eec,{0x1eed,0x0,0x0}},
{0x1eee,{0x1eef,0x0,0x0}},{0x1ef0,{0x1ef1,0x0,0x0}},{0x1ef2,{0x1ef3,0x0,0x0}},{0x1ef4,{0x1ef5,0x0,0x0}},{0x1ef6,{0x1ef7,0x0,0x0}},{0x1ef8,{0x1ef9,0x0,0x0}},
{0x1efa,{0x1efb,0x0,0x0}},{0x1efc,{0x1efd,0x0,0x0}},{0x1efe,{0x1eff,0x0,0x0}},{0x1f08,{0x1f00,0x0,0x0}},{0x1f09,{0x1f01,0x0,0x0}},{0x1f0a,{0x1f02,0x0,0x0}},
{0x1f0b,{0x1f03,0x0,0x0}},{0x1f0c,{0x1f04,0x0,0x0}},{0x1f0d,{0x1f05,0x0,0x0}},{0x1f0e,{0x1f06,0x0,0x0}},{0x1f0f,{0x1f07,0x0,0x0}},{0x1f18,{0x1f10,0x0,0x0}},
{0x1f19,{0x1f11,0x0,0x0}},{0x1f1a,{0x1f12,0x0,0x0}},{0x1f1b,{0x1f13,0x0,0x0}},{0x1f1c,{0x1f14,0x0,0x0}},{0x1f1d,{0x1f15,0x0,0x0}},{0x1f28,{0x1f20,0x0,0x0}},
{0x1f29,{0x1f21,0x0,0x0}},{0x1f2a,{0x1f22,0x0,0x0}},{0x1f2b,{0x1f23,0x0,0x0}},{0x1f2c,{0x1f24,0x0,0x0}},{0x1f2d,{0x1f25,0x0,0x0}},{0x1f2e,{0x1f26,0x0,0x0}},
{0x1f2f,{0x1f27,0x0,0x0}},{0x1f38,{0x1f30,0x0,0x0}},{0x1f39,{0x1f31,0x0,0x0}},{0x1f3a,{0x1f32,0x0,0x0}},{0x1f3b,{0x1f33,0x0,0x0}},{0x1f3c,{0x1f34,0x0,0x0}},
{0x1f3d,{0x1f35,0x0,0x0}},{0x1f3e,{0x1f36,0x0,0x0}},{0x1f3f,{0x1f37,0x0,0x0}},{0x1f48,{0x1f40,0x0,0x0}},{0x1f49,{0x1f41,0x0,0x0}},{0x1f4a,{0x1f42,0x0,0x0}},
{0x1f4b,{0x1f43,0x0,0x0}},{0x1f4c,{0x1f44,0x0,0x0}},{0x1f4d,{0x1f45,0x0,0x0}},{0x1f59,{0x1f51,0x0,0x0}},{0x1f5b,{0x1f53,0x0,0x0}},{0x1f5d,{0x1f55,0x0,0x0}},
{0x1f5f,{0x1f57,0x0,0x0}},{0x1f68,{0x1f60,0x0,0x0}},{0x1f69,{0x1f61,0x0,0x0}},{0x1f6a,{0x1f62,0x0,0x0}},{0x1f6b,{0x1f63,0x0,0x0}},{0x1f6c,{0x1f64,0x0,0x0}},
{0x1f6d,{0x1f65,0x0,0x0}},{0x1f6e,{0x1f66,0x0,0x0}},{0x1f6f,{0x1f67,0x0,0x0}},{0x1f88,{0x1f80,0x0,0x0}},{0x1f89,{0x1f81,0x0,0x0}},{0x1f8a,{0x1f82,0x0,0x0}},
{0x1f8b,{0x1f83,0x0,0x0}},{0x1f8c,{0x1f84,0x0,0x0}},{0x1f8d,{0x1f85,0x0,0x0}},{0x1f8e,{0x1f86,0x0,0x0}},{0x1f8f,{0x1f87,0x0,0x0}},{0x1f98,{0x1f90,0x0,0x0}},
{0x1f99,{0x1f91,0x0,0x0}},{0x1f9a,{0x1f92,0x0,0x0}},{0x1f9b,{0x1f93,0x0,0x0}},{0x1f9c,{0x1f94,0x0,0x0}},{0x1f9d,{0x1f95,0x0,0x0}},{0x1f9e,{0x1f96,0x0,0x0}},
{0x1f9f,{0x1f97,0x0,0x0}},{0x1fa8,{0x1fa0,0x0,0x0}},{0x1fa9,{0x1fa1,0x0,0x0}},{0x1faa,{0x1fa2,0x0,0x0}},{0x1fab,{0x1fa3,0x0,0x0}},{0x1fac,{0x1fa4,0x0,0x0}},
{0x1fad,{0x1fa5,0x0,0x0}},{0x1fae,{0x1fa6,0x0,0x0}},{0x1faf,{0x1fa7,0x0,0x0}},{0x1fb8,{0x1fb0,0x0,0x0}},{0x1fb9,{0x1fb1,0x0,0x0}},{0x1fba,{0x1f70,0x0,0x0}},
{0x1fbb,{0x1f71,0x0,0x0}},{0x1fbc,{0x1fb3,0x0,0x0}},{0x1fc8,{0x1f72,0x0,0x0}},{0x1fc9,{0x1f73,0x0,0x0}},{0x1fca,{0x1f74,0x0,0x0}},{0x1fcb,{0x1f75,0x0,0x0}},
{0x1fcc,{0x1fc3,0x0,0x0}},{0x1fd8,{0x1fd0,0x0,0x0}},{0x1fd9,{0x1fd1,0x0,0x0}},{0x1fda,{0x1f76,0x0,0x0}},{0x1fdb,{0x1f77,0x0,0x0}},{0x1fe8,{0x1fe0,0x0,0x0}},
{0x1fe9,{0x1fe1,0x0,0x0}},{0x1fea,{0x1f7a,0x0,0x0}},{0x1feb,{0x1f7b,0x0,0x0}},{0x1fec,{0x1fe5,0x0,0x0}},{0x1ff8,{0x1f78,0x0,0x0}},{0x1ff9,{0x1f79,0x0,0x0}},
{0x1ffa,{0x1f7c,0x0,0x0}},{0x1ffb,{0x1f7d,0x0,0x0}},{0x1ffc,{0x1ff3,0x0,0x0}},{0x2126,{0x3c9,0x0,0x0}},{0x212a,{0x6b,0x0,0x0}},{0x212b,{0xe5,0x0,0x0}},
{0x2132,{0x214e,0x0,0x0}},{0x2160,{0x2170,0x0,0x0}},{0x2161,{0x2171,0x0,0x0}},{0x2162,{0x2172,0x0,0x0}},{0x2163,{0x2173,0x0,0x0}},{0x2164,{0x2174,0x0,0x0}},
{0x2165,{0x2175,0x0,0x0}},{0x2166,{0x2176,0x0,0x0}},{0x2167,{0x2177,0x0,0x0}},{0x2168,{0x2178,0x0,0x0}},{0x2169,{0x2179,0x0,0x0}},{0x216a,{0x217a,0x0,0x0}},
{0x216b,{0x217b,0x0,0x0}},{0x216c,{0x217c,0x0,0x0}},{0x216d,{0x217d,0x0,0x0}},{0x216e,{0x217e,0x0,0x0}},{0x216f,{0x217f,0x0,0x0}},{0x2183,{0x2184,0x0,0x0}},
{0x24b6,{0x24d0,0x0,0x0}},{0x24b7,{0x24d1,0x0,0x0}},{0x24b8,{0x24d2,0x0,0x0}},{0x24b9,{0x24d3,0x0,0x0}},{0x24ba,{0x24d4,0x0,0x0}},{0x24bb,{0x24d5,0x0,0x0}},
{0x24bc,{0x24d6,0x0,0x0}},{0x24bd,{0x24d7,0x0,0x0}},{0x24be,{0x24d8,0x0,0x0}},{0x24bf,{0x24d9,0x0,0x0}},{0x24c0,{0x24da,0x0,0x0}},{0x24c1,{0x24db,0x0,0x0}},
{0x24c2,{0x24dc,0x0,0x0}},{0x24c3,{0x24dd,0x0,0x0}},{0x24c4,{0x24de,0x0,0x0}},{0x24c5,{0x24df,0x0,0x0}},{0x24c6,{0x24e0,0x0,0x0}},{0x24c7,{0x24e1,0x0,0x0}},
{0x24c8,{0x24e2,0x0,0x0}},{0x24c9,{0x24e3,0x0,0x0}},{0x24ca,{0x24e4,0x0,0x0}},{0x24cb,{0x24e5,0x0,0x0}},{0x24cc,{0x24e6,0x0,0x0}},{0x24cd,{0x24e7,0x0,0x0}},
{0x24ce,{0x24e8,0x0,0x0}},{0x24cf,{0x24e9,0x0,0x0}},{0x2c00,{0x2c30,0x0,0x0}},{0x2c01,{0x2c31,0x0,0x0}},{0x2c02,{0x2c32,0x0,0x0}},{0x2c03,{0x2c33,0x0,0x0}},
{0x2c04,{0x2c34,0x0,0x0}},{0x2c05,{0x2c35,0x0,0x0}},{0x2c06,{0x2c36,0x0,0x0}},{0x2c07,{0x2c37,0x0,0x0}},{0x2c08,{0x2c38,0x0,0x0}},{0x2c09,{0x2c39,0x0,0x0}},
{0x2c0a,{0x2c3a,0x0,0x0}},{0x2c0b,{0x2c3b,0x0,0x0}},{0x2c0c,{0x2c3c,0x0,0x0}},{0x2c0d,{0x2c3d,0x0,0x0}},{0x2c0e,{0x2c3e,0x0,0x0}},{0x2c0f,{0x2c3f,0x0,0x0}},
{0x2c10,{0x2c40,0x0,0x0}},{0x2c11,{0x2c41,0x0,0x0}},{0x2c12,{0x2c42,0x0,0x0}},{0x2c13,{0x2c43,0x0,0x0}},{0x2c14,{0x2c44,0x0,0x0}},{0x2c15,{0x2c45,0x0,0x0}},
{0x2c16,{0x2c46,0x0,0x0}},{0x2c17,{0x2c47,0x0,0x0}},{0x2c18,{0x2c48,0x0,0x0}},{0x2c19,{0x2c49,0x0,0x0}},{0x2c1a,{0x2c4a,0x0,0x0}},{0x2c1b,{0x2c4b,0x0,0x0}},
{0x2c1c,{0x2c4c,0x0,0x0}},{0x2c1d,{0x2c4d,0x0,0x0}},{0x2c1e,{0x2c4e,0x0,0x0}},{0x2c1f,{0x2c4f,0x0,0x0}},{0x2c20,{0x2c50,0x0,0x0}},{0x2c21,{0x2c51,0x0,0x0}},
{0x2c22,{0x2c52,0x0,0x0}},{0x2c23,{0x2c53,0x0,0x0}},{0x2c24,{0x2c54,0x0,0x0}},{0x2c25,{0x2c55,0x0,0x0}},{0x2c26,{0x2c56,0x0,0x0}},{0x2c27,{0x2c57,0x0,0x0}},
{0x2c28,{0x2c58,0x0,0x0}},{0x2c29,{0x2c59,0x0,0x0}},{0x2c2a,{0x2c5a,0x0,0x0}},{0x2c2b,{0x2c5b,0x0,0x0}},{0x2c2c,{0x2c5c,0x0,0x0}},{0x2c2d,{0x2c5d,0x0,0x0}},
{0x2c2e,{0x2c5e,0x0,0x0}},{0x2c2f,{0x2c5f,0x0,0x0}},{0x2c60,{0x2c61,0x0,0x0}},{0x2c62,{0x26b,0x0,0x0}},{0x2c63,{0x1d7d,0x0,0x0}},{0x2c64,{0x27d,0x0,0x0}},
{0x2c67,{0x2c68,0x0,0x0}},{0x2c69,{0x2c6a,0x0,0x0}},{0x2c6b,{0x2c6c,0x0,0x0}},{0x2c6d,{0x251,0x0,0x0}},{0x2c6e,{0x271,0x0,0x0}},{0x2c6f,{0x250,0x0,0x0}},
{0x2c70,{0x252,0x0,0x0}},{0x2c72,{0x2c73,0x0,0x0}},{0x2c75,{0x2c76,0x0,0x0}},{0x2c7e,{0x23f,0x0,0x0}},{0x2c7f,{0x240,0x0,0x0}},{0x2c80,{0x2c81,0x0,0x0}},
{0x2c82,{0x2c83,0x0,0x0}},{0x2c84,{0x2c85,0x0,0x0}},{0x2c86,{0x2c87,0x0,0x0}},{0x2c88,{0x2c89,0x0,0x0}},{0x2c8a,{0x2c8b,0x0,0x0}},{0x2c8c,{0x2c8d,0x0,0x0}},
{0x2c8e,{0x2c8f,0x0,0x0}},{0x2c90,{0x2c91,0x0,0x0}},{0x2c92,{0x2c93,0x0,0x0}},{0x2c94,{0x2c95,0x0,0x0}},{0x2c96,{0x2c97,0x0,0x0}},{0x2c98,{0x2c99,0x0,0x0}},
{0x2c9a,{0x2c9b,0x0,0x0}},{0x2c9c,{0x2c9d,0x0,0x0}},{0x2c9e,{0x2c9f,0x0,0x0}},{0x2ca0,{0x2ca1,0x0,0x0}},{0x2ca2,{0x2ca3,0x0,0x0}},{0x2ca4,{0x2ca5,0x0,0x0}},
{0x2ca6,{0x2ca7,0x0,0x0}},{0x2ca8,{0x2ca9,0x0,0x0}},{0x2caa,{0x2cab,0x0,0x0}},{0x2cac,{0x2cad,0x0,0x0}},{0x2cae,{0x2caf,0x0,0x0}},{0x2cb0,{0x2cb1,0x0,0x0}},
{0x2cb2,{0x2cb3,0x0,0x0}},{0x2cb4,{0x2cb5,0x0,0x0}},{0x2cb6,{0x2cb7,0x0,0x0}},{0x2cb8,{0x2cb9,0x0,0x0}},{0x2cba,{0x2cbb,0x0,0x0}},{0x2cbc,{0x2cbd,0x0,0x0}},
{0x2cbe,{0x2cbf,0x0,0x0}},{0x2cc0,{0x2cc1,0x0,0x0}},{0x2cc2,{0x2cc3,0x0,0x0}},{0x2cc4,{0x2cc5,0x0,0x0}},{0x2cc6,{0x2cc7,0x0,0x0}},{0x2cc8,{0x2cc9,0x0,0x0}},
{0x2cca,{0x2ccb,0x0,0x0}},{0x2ccc,{0x2ccd,0x0,0x0}},{0x2cce,{0x2ccf,0x0,0x0}},{0x2cd0,{0x2cd1,0x0,0x0}},{0x2cd2,{0x2cd3,0x0,0x0}},{0x2cd4,{0x2cd5,0x0,0x0}},
{0x2cd6,{0x2cd7,0x0,0x0}},{0x2cd8,{0x2cd9,0x0,0x0}},{0x2cda,{0x2cdb,0x0,0x0}},{0x2cdc,{0x2cdd,0x0,0x0}},{0x2cde,{0x2cdf,0x0,0x0}},{0x2ce0,{0x2ce1,0x0,0x0}},
{0x2ce2,{0x2ce3,0x0,0x0}},{0x2ceb,{0x2cec,0x0,0x0}},{0x2ced,{0x2cee,0x0,0x0}},{0x2cf2,{0x2cf3,0x0,0x0}},{0xa640,{0xa641,0x0,0x0}},{0xa642,{0xa643,0x0,0x0}},
{0xa644,{0xa645,0x0,0x0}},{0xa646,{0xa647,0x0,0x0}},{0xa648,{0xa649,0x0,0x0}},{0xa64a,{0xa64b,0x0,0x0}},{0xa64c,{0xa64d,0x0,0x0}},{0xa64e,{0xa64f,0x0,0x0}},
{0xa650,{0xa651,0x0,0x0}},{0xa652,{0xa653,0x0,0x0}},{0xa654,{0xa655,0x0,0x0}},{0xa656,{0xa657,0x0,0x0}},{0xa658,{0xa659,0x0,0x0}},{0xa65a,{0xa65b,0x0,0x0}},
{0xa65c,{0xa65d,0x0,0x0}},{0xa65e,{0xa65f,0x0,0x0}},{0xa660,{0xa661,0x0,0x0}},{0xa662,{0xa663,0x0,0x0}},{0xa664,{0xa665,0x0,0x0}},{0xa666,{0xa667,0x0,0x0}},
{0xa668,{0xa669,0x0,0x0}},{0xa66a,{0xa66b,0x0,0x0}},{0xa66c,{0xa66d,0x0,0x0}},{0xa680,{0xa681,0x0,0x0}},{0xa682,{0xa683,0x0,0x0}},{0xa684,{0xa685,0x0,0x0}},
{0xa686,{0xa687,0x0,0x0}},{0xa688,{0xa689,0x0,0x0}},{0xa68a,{0xa68b,0x0,0x0}},{0xa68c,{0xa68d,0x0,0x0}},{0xa68e,{0xa68f,0x0,0x0}},{0xa690,{0xa691,0x0,0x0}},
{0xa692,{0xa693,0x0,0x0}},{0xa694,{0xa695,0x0,0x0}},{0xa696,{0xa697,0x0,0x0}},{0xa698,{0xa699,0x0,0x0}},{0xa69a,{0xa69b,0x0,0x0}},{0xa722,{0xa723,0x0,0x0}},
{0xa724,{0xa725,0x0,0x0}},{0xa726,{0xa727,0x0,0x0}},{0xa728,{0xa729,0x0,0x0}},{0xa72a,{0xa72b,0x0,0x0}},{0xa72c,{0xa72d,0x0,0x0}},{0xa72e,{0xa72f,0x0,0x0}},
{0xa732,{0xa733,0x0,0x0}},{0xa734,{0xa735,0x0,0x0}},{0xa736,{0xa737,0x0,0x0}},{0xa738,{0xa739,0x0,0x0}},{0xa73a,{0xa73b,0x0,0x0}},{0xa73c,{0xa73d,0x0,0x0}},
{0xa73e,{0xa73f,0x0,0x0}},{0xa740,{0xa741,0x0,0x0}},{0xa742,{0xa743,0x0,0x0}},{0xa744,{0xa745,0x0,0x0}},{0xa746,{0xa747,0x0,0x0}},{0xa748,{0xa749,0x0,0x0}},
{0xa74a,{0xa74b,0x0,0x0}},{0xa74c,{0xa74d,0x0,0x0}},{0xa74e,{0xa74f,0x0,0x0}},{0xa750,{0xa751,0x0,0x0}},{0xa752,{0xa753,0x0,0x0}},{0xa754,{0xa755,0x0,0x0}},
{0xa756,{0xa757,0x0,0x0}},{0xa758,{0xa759,0x0,0x0}},{0xa75a,{0xa75b,0x0,0x0}},{0xa75c,{0xa75d,0x0,0x0}},{0xa75e,{0xa75f,0x0,0x0}},{0xa760,{0xa761,0x0,0x0}},
{0xa762,{0xa763,0x0,0x0}},{0xa764,{0xa765,0x0,0x0}},{0xa766,{0xa767,0x0,0x0}},{0xa768,{0xa769,0x0,0x0}},{0xa76a,{0xa76b,0x0,0x0}},{0xa76c,{0xa76d,0x0,0x0}},
{0xa76e,{0xa76f,0x0,0x0}},{0xa779,{0xa77a,0x0,0x0}},{0xa77b,{0xa77c,0x0,0x0}},{0xa77d,{0x1d79,0x0,0x0}},{0xa77e,{0xa77f,0x0,0x0}},{0xa780,{0xa781,0x0,0x0}},
{0xa782,{0xa783,0x0,0x0}},{0xa784,{0xa785,0x0,0x0}},{0xa786,{0xa787,0x0,0x0}},{0xa78b,{0xa78c,0x0,0x0}},{0xa78d,{0x265,0x0,0x0}},{0xa790,{0xa791,0x0,0x0}},
{0xa792,{0xa793,0x0,0x0}},{0xa796,{0xa797,0x0,0x0}},{0xa798,{0xa799,0x0,0x0}},{0xa79a,{0xa79b,0x0,0x0}},{0xa79c,{0xa79d,0x0,0x0}},{0xa79e,{0xa79f,0x0,0x0}},
{0xa7a0,{0xa7a1,0x0,0x0}},{0xa7a2,{0xa7a3,0x0,0x0}},{0xa7a4,{0xa7a5,0x0,0x0}},{0xa7a6,{0xa7a7,0x0,0x0}},{0xa7a8,{0xa7a9,0x0,0x0}},{0xa7aa,{0x266,0x0,0x0}},
{0xa7ab,{0x25c,0x0,0x0}},{0xa7ac,{0x261,0x0,0x0}},{0xa7ad,{0x26c,0x0,0x0}},{0xa7ae,{0x26a,0x0,0x0}},{0xa7b0,{0x29e,0x0,0x0}},{0xa7b1,{0x287,0x0,0x0}},
{0xa7b2,{0x29d,0x0,0x0}},{0xa7b3,{0xab53,0x0,0x0}},{0xa7b4,{0xa7b5,0x0,0x0}},{0xa7b6,{0xa7b7,0x0,0x0}},{0xa7b8,{0xa7b9,0x0,0x0}},{0xa7ba,{0xa7bb,0x0,0x0}},
{0xa7bc,{0xa7bd,0x0,0x0}},{0xa7be,{0xa7bf,0x0,0x0}},{0xa7c0,{0xa7c1,0x0,0x0}},{0xa7c2,{0xa7c3,0x0,0x0}},{0xa7c4,{0xa794,0x0,0x0}},{0xa7c5,{0x282,0x0,0x0}},
{0xa7c6,{0x1d8e,0x0,0x0}},{0xa7c7,{0xa7c8,0x0,0x0}},{0xa7c9,{0xa7ca,0x0,0x0}},{0xa7d0,{0xa7d1,0x0,0x0}},{0xa7d6,{0xa7d7,0x0,0x0}},{0xa7d8,{0xa7d9,0x0,0x0}},
{0xa7f5,{0xa7f6,0x0,0x0}},{0xff21,{0xff41,0x0,0x0}},{0xff22,{0xff42,0x0,0x0}},{0xff23,{0xff43,0x0,0x0}},{0xff24,{0xff44,0x0,0x0}},{0xff25,{0xff45,0x0,0x0}},
{0xff26,{0xff46,0x0,0x0}},{0xff27,{0xff47,0x0,0x0}},{0xff28,{0xff48,0x0,0x0}},{0xff29,{0xff49,0x0,0x0}},{0xff2a,{0xff4a,0x0,0x0}},{0xff2b,{0xff4b,0x0,0x0}},
{0xff2c,{0xff4c,0x0,0x0}},{0xff2d,{0xff4d,0x0,0x0}},{0xff2e,{0xff4e,0x0,0x0}},{0xff2f,{0xff4f,0x0,0x0}},{0xff30,{0xff50,0x0,0x0}},{0xff31,{0xff51,0x0,0x0}},
{0xff32,{0xff52,0x0,0x0}},{0xff33,{0xff53,0x0,0x0}},{0xff34,{0xff54,0x0,0x0}},{0xff35,{0xff55,0x0,0x0}},{0xff36,{0xff56,0x0,0x0}},{0xff37,{0xff57,0x0,0x0}},
{0xff38,{0xff58,0x0,0x0}},{0xff39,{0xff59,0x0,0x0}},{0xff3a,{0xff5a,0x0,0x0}},{0x10400,{0x10428,0x0,0x0}},{0x10401,{0x10429,0x0,0x0}},{0x10402,{0x1042a,0x0,0x0}},
{0x10403,{0x1042b,0x0,0x0}},{0x10404,{0x1042c,0x0,0x0}},{0x10405,{0x1042d,0x0,0x0}},{0x10406,{0x1042e,0x0,0x0}},{0x10407,{0x1042f,0x0,0x0}},{0x10408,{0x10430,0x0,0x0}},
{0x10409,{0x10431,0x0,0x0}},{0x1040a,{0x10432,0x0,0x0}},{0x1040b,{0x10433,0x0,0x0}},{0x1040c,{0x10434,0x0,0x0}},{0x1040d,{0x10435,0x0,0x0}},{0x1040e,{0x10436,0x0,0x0}},
{0x1040f,{0x10437,0x0,0x0}},{0x10410,{0x10438,0x0,0x0}},{0x10411,{0x10439,0x0,0x0}},{0x10412,{0x1043a,0x0,0x0}},{0x10413,{0x1043b,0x0,0x0}},{0x10414,{0x1043c,0x0,0x0}},
{0x10415,{0x1043d,0x0,0x0}},{0x10416,{0x1043e,0x0,0x0}},{0x10417,{0x1043f,0x0,0x0}},{0x10418,{0x10440,0x0,0x0}},{0x10419,{0x10441,0x0,0x0}},{0x1041a,{0x10442,0x0,0x0}},
{0x1041b,{0x10443,0x0,0x0}},{0x1041c,{0x10444,0x0,0x0}},{0x1041d,{0x10445,0x0,0x0}},{0x1041e,{0x10446,0x0,0x0}},{0x1041f,{0x10447,0x0,0x0}},{0x10420,{0x10448,0x0,0x0}},
{0x10421,{0x10449,0x0,0x0}},{0x10422,{0x1044a,0x0,0x0}},{0x10423,{0x1044b,0x0,0x0}},{0x10424,{0x1044c,0x0,0x0}},{0x10425,{0x1044d,0x0,0x0}},{0x10426,{0x1044e,0x0,0x0}},
{0x10427,{0x1044f,0x0,0x0}},{0x104b0,{0x104d8,0x0,0x0}},{0x104b1,{0x104d9,0x0,0x0}},{0x104b2,{0x104da,0x0,0x0}},{0x104b3,{0x104db,0x0,0x0}},{0x104b4,{0x104dc,0x0,0x0}},
{0x104b5,{0x104dd,0x0,0x0}},{0x104b6,{0x104de,0x0,0x0}},{0x104b7,{0x104df,0x0,0x0}},{0x104b8,{0x104e0,0x0,0x0}},{0x104b9,{0x104e1,0x0,0x0}},{0x104ba,{0x104e2,0x0,0x0}},
{0x104bb,{0x104e3,0x0,0x0}},{0x104bc,{0x104e4,0x0,0x0}},{0x104bd,{0x104e5,0x0,0x0}},{0x104be,{0x104e6,0x0,0x0}},{0x104bf,{0x104e7,0x0,0x0}},{0x104c0,{0x104e8,0x0,0x0}},
{0x104c1,{0x104e9,0x0,0x0}},{0x104c2,{0x104ea,0x0,0x0}},{0x104c3,{0x104eb,0x0,0x0}},{0x104c4,{0x104ec,0x0,0x0}},{0x104c5,{0x104ed,0x0,0x0}},{0x104c6,{0x104ee,0x0,0x0}},
{0x104c7,{0x104ef,0x0,0x0}},{0x104c8,{0x104f0,0x0,0x0}},{0x104c9,{0x104f1,0x0,0x0}},{0x104ca,{0x104f2,0x0,0x0}},{0x104cb,{0x104f3,0x0,0x0}},{0x104cc,{0x104f4,0x0,0x0}},
{0x104cd,{0x104f5,0x0,0x0}},{0x104ce,{0x104f6,0x0,0x0}},{0x104cf,{0x104f7,0x0,0x0}},{0x104d0,{0x104f8,0x0,0x0}},{0x104d1,{0x104f9,0x0,0x0}},{0x104d2,{0x104fa,0x0,0x0}},
{0x104d3,{0x104fb,0x0,0x0}},{0x10570,{0x10597,0x0,0x0}},{0x10571,{0x10598,0x0,0x0}},{0x10572,{0x10599,0x0,0x0}},{0x10573,{0x1059a,0x0,0x0}},{0x10574,{0x1059b,0x0,0x0}},
{0x10575,{0x1059c,0x0,0x0}},{0x10576,{0x1059d,0x0,0x0}},{0x10577,{0x1059e,0x0,0x0}},{0x10578,{0x1059f,0x0,0x0}},{0x10579,{0x105a0,0x0,0x0}},{0x1057a,{0x105a1,0x0,0x0}},
{0x1057c,{0x105a3,0x0,0x0}},{0x1057d,{0x105a4,0x0,0x0}},{0x1057e,{0x105a5,0x0,0x0}},{0x1057f,{0x105a6,0x0,0x0}},{0x10580,{0x105a7,0x0,0x0}},{0x10581,{0x105a8,0x0,0x0}},
{0x10582,{0x105a9,0x0,0x0}},{0x10583,{0x105aa,0x0,0x0}},{0x10584,{0x105ab,0x0,0x0}},{0x10585,{0x105ac,0x0,0x0}},{0x10586,{0x105ad,0x0,0x0}},{0x10587,{0x105ae,0x0,0x0}},
{0x10588,{0x105af,0x0,0x0}},{0x10589,{0x105b0,0x0,0x0}},{0x1058a,{0x105b1,0x0,0x0}},{0x1058c,{0x105b3,0x0,0x0}},{0x1058d,{0x105b4,0x0,0x0}},{0x1058e,{0x105b5,0x0,0x0}},
{0x1058f,{0x105b6,0x0,0x0}},{0x10590,{0x105b7,0x0,0x0}},{0x10591,{0x105b8,0x0,0x0}},{0x10592,{0x105b9,0x0,0x0}},{0x10594,{0x105bb,0x0,0x0}},{0x10595,{0x105bc,0x0,0x0}},
{0x10c80,{0x10cc0,0x0,0x0}},{0x10c81,{0x10cc1,0x0,0x0}},{0x10c82,{0x10cc2,0x0,0x0}},{0x10c83,{0x10cc3,0x0,0x0}},{0x10c84,{0x10cc4,0x0,0x0}},{0x10c85,{0x10cc5,0x0,0x0}},
{0x10c86,{0x10cc6,0x0,0x0}},{0x10c87,{0x10cc7,0x0,0x0}},{0x10c88,{0x10cc8,0x0,0x0}},{0x10c89,{0x10cc9,0x0,0x0}},{0x10c8a,{0x10cca,0x0,0x0}},{0x10c8b,{0x10ccb,0x0,0x0}},
{0x10c8c,{0x10ccc,0x0,0x0}},{0x10c8d,{0x10ccd,0x0,0x0}},{0x10c8e,{0x10cce,0x0,0x0}},{0x10c8f,{0x10ccf,0x0,0x0}},{0x10c90,{0x10cd0,0x0,0x0}},{0x10c91,{0x10cd1,0x0,0x0}},
{0x10c92,{0x10cd2,0x0,0x0}},{0x10c93,{0x10cd3,0x0,0x0}},{0x10c94,{0x10cd4,0x0,0x0}},{0x10c95,{0x10cd5,0x0,0x0}},{0x10c96,{0x10cd6,0x0,0x0}},{0x10c97,{0x10cd7,0x0,0x0}},
{0x10c98,{0x10cd8,0x0,0x0}},{0x10c99,{0x10cd9,0x0,0x0}},{0x10c9a,{0x10cda,0x0,0x0}},{0x10c9b,{0x10cdb,0x0,0x0}},{0x10c9c,{0x10cdc,0x0,0x0}},{0x10c9d,{0x10cdd,0x0,0x0}},
{0x10c9e,{0x10cde,0x0,0x0}},{0x10c9f,{0x10cdf,0x0,0x0}},{0x10ca0,{0x10ce0,0x0,0x0}},{0x10ca1,{0x10ce1,0x0,0x0}},{0x10ca2,{0x10ce2,0x0,0x0}},{0x10ca3,{0x10ce3,0x0,0x0}},
{0x10ca4,{0x10ce4,0x0,0x0}},{0x10ca5,{0x10ce5,0x0,0x0}},{0x10ca6,{0x10ce6,0x0,0x0}},{0x10ca7,{0x10ce7,0x0,0x0}},{0x10ca8,{0x10ce8,0x0,0x0}},{0x10ca9,{0x10ce9,0x0,0x0}},
{0x10caa,{0x10cea,0x0,0x0}},{0x10cab,{0x10ceb,0x0,0x0}},{0x10cac,{0x10cec,0x0,0x0}},{0x10cad,{0x10ced,0x0,0x0}},{0x10cae,{0x10cee,0x0,0x0}},{0x10caf,{0x10cef,0x0,0x0}},
{0x10cb0,{0x10cf0,0x0,0x0}},{0x10cb1,{0x10cf1,0x0,0x0}},{0x10cb2,{0x10cf2,0x0,0x0}},{0x118a0,{0x118c0,0x0,0x0}},{0x118a1,{0x118c1,0x0,0x0}},{0x118a2,{0x118c2,0x0,0x0}},
{0x118a3,{0x118c3,0x0,0x0}},{0x118a4,{0x118c4,0x0,0x0}},{0x118a5,{0x118c5,0x0,0x0}},{0x118a6,{0x118c6,0x0,0x0}},{0x118a7,{0x118c7,0x0,0x0}},{0x118a8,{0x118c8,0x0,0x0}},
{0x118a9,{0x118c9,0x0,0x0}},{0x118aa,{0x118ca,0x0,0x0}},{0x118ab,{0x118cb,0x0,0x0}},{0x118ac,{0x118cc,0x0,0x0}},{0x118ad,{0x118cd,0x0,0x0}},{0x118ae,{0x118ce,0x0,0x0}},
{0x118af,{0x118cf,0x0,0x0}},{0x118b0,{0x118d0,0x0,0x0}},{0x118b1,{0x118d1,0x0,0x0}},{0x118b2,{0x118d2,0x0,0x0}},{0x118b3,{0x118d3,0x0,0x0}},{0x118b4,{0x118d4,0x0,0x0}},
{0x118b5,{0x118d5,0x0,0x0}},{0x118b6,{0x118d6,0x0,0x0}},{0x118b7,{0x118d7,0x0,0x0}},{0x118b8,{0x118d8,0x0,0x0}},{0x118b9,{0x118d9,0x0,0x0}},{0x118ba,{0x118da,0x0,0x0}},
{0x118bb,{0x118db,0x0,0x0}},{0x118bc,{0x118dc,0x0,0x0}},{0x118bd,{0x118dd,0x0,0x0}},{0x118be,{0x118de,0x0,0x0}},{0x118bf,{0x118df,0x0,0x0}},{0x16e40,{0x16e60,0x0,0x0}},
{0x16e41,{0x16e61,0x0,0x0}},{0x16e42,{0x16e62,0x0,0x0}},{0x16e43,{0x16e63,0x0,0x0}},{0x16e44,{0x16e64,0x0,0x0}},{0x16e45,{0x16e65,0x0,0x0}},{0x16e46,{0x16e66,0x0,0x0}},
{0x16e47,{0x16e67,0x0,0x0}},{0x16e48,{0x16e68,0x0,0x0}},{0x16e49,{0x16e69,0x0,0x0}},{0x16e4a,{0x16e6a,0x0,0x0}},{0x16e4b,{0x16e6b,0x0,0x0}},{0x16e4c,{0x16e6c,0x0,0x0}},
{0x16e4d,{0x16e6d,0x0,0x0}},{0x16e4e,{0x16e6e,0x0,0x0}},{0x16e4f,{0x16e6f,0x0,0x0}},{0x16e50,{0x16e70,0x0,0x0}},{0x16e51,{0x16e71,0x0,0x0}},{0x16e52,{0x16e72,0x0,0x0}},
{0x16e53,{0x16e73,0x0,0x0}},{0x16e54,{0x16e74,0x0,0x0}},{0x16e55,{0x16e75,0x0,0x0}},{0x16e56,{0x16e76,0x0,0x0}},{0x16e57,{0x16e77,0x0,0x0}},{0x16e58,{0x16e78,0x0,0x0}},
{0x16e59,{0x16e79,0x0,0x0}},{0x16e5a,{0x16e7a,0x0,0x0}},{0x16e5b,{0x16e7b,0x0,0x0}},{0x16e5c,{0x16e7c,0x0,0x0}},{0x16e5d,{0x16e7d,0x0,0x0}},{0x16e5e,{0x16e7e,0x0,0x0}},
{0x16e5f,{0x16e7f,0x0,0x0}},{0x1e900,{0x1e922,0x0,0x0}},{0x1e901,{0x1e923,0x0,0x0}},{0x1e902,{0x1e924,0x0,0x0}},{0x1e903,{0x1e925,0x0,0x0}},{0x1e904,{0x1e926,0x0,0x0}},
{0x1e905,{0x1e927,0x0,0x0}},{0x1e906,{0x1e928,0x0,0x0}},{0x1e907,{0x1e929,0x0,0x0}},{0x1e908,{0x1e92a,0x0,0x0}},{0x1e909,{0x1e92b,0x0,0x0}},{0x1e90a,{0x1e92c,0x0,0x0}},
{0x1e90b,{0x1e92d,0x0,0x0}},{0x1e90c,{0x1e92e,0x0,0x0}},{0x1e90d,{0x1e92f,0x0,0x0}},{0x1e90e,{0x1e930,0x0,0x0}},{0x1e90f,{0x1e931,0x0,0x0}},{0x1e910,{0x1e932,0x0,0x0}},
{0x1e911,{0x1e933,0x0,0x0}},{0x1e912,{0x1e934,0x0,0x0}},{0x1e913,{0x1e935,0x0,0x0}},{0x1e914,{0x1e936,0x0,0x0}},{0x1e915,{0x1e937,0x0,0x0}},{0x1e916,{0x1e938,0x0,0x0}},
{0x1e917,{0x1e939,0x0,0x0}},{0x1e918,{0x1e93a,0x0,0x0}},{0x1e919,{0x1e93b,0x0,0x0}},{0x1e91a,{0x1e93c,0x0,0x0}},{0x1e91b,{0x1e93d,0x0,0x0}},{0x1e91c,{0x1e93e,0x0,0x0}},
{0x1e91d,{0x1e93f,0x0,0x0}},{0x1e91e,{0x1e940,0x0,0x0}},{0x1e91f,{0x1e941,0x0,0x0}},{0x1e920,{0x1e942,0x0,0x0}},{0x1e921,{0x1e943,0x0,0x0}},
};
static const struct ref_map ref_upper[] = {
{0x61,{0x41,0x0,0x0}},{0x62,{0x42,0x0,0x0}},{0x63,{0x43,0x0,0x0}},{0x64,{0x44,0x0,0x0}},{0x65,{0x45,0x0,0x0}},{0x66,{0x46,0x0,0x0}},
{0x67,{0x47,0x0,0x0}},{0x68,{0x48,0x0,0x0}},{0x69,{0x49,0x0,0x0}},{0x6a,{0x4a,0x0,0x0}},{0x6b,{0x4b,0x0,0x0}},{0x6c,{0x4c,0x0,0x0}},
{0x6d,{0x4d,0x0,0x0}},{0x6e,{0x4e,0x0,0x0}},{0x6f,{0x4f,0x0,0x0}},{0x70,{0x50,0x0,0x0}},{0x71,{0x51,0x0,0x0}},{0x72,{0x52,0x0,0x0}},
{0x73,{0x53,0x0,0x0}},{0x74,{0x54,0x0,0x0}},{0x75,{0x55,0x0,0x0}},{0x76,{0x56,0x0,0x0}},{0x77,{0x57,0x0,0x0}},{0x78,{0x58,0x0,0x0}},
{0x79,{0x59,0x0,0x0}},{0x7a,{0x5a,0x0,0x0}},{0xb5,{0x39c,0x0,0x0}},{0xdf,{0x53,0x53,0x0}},{0xe0,{0xc0,0x0,0x0}},{0xe1,{0xc1,0x0,0x0}},
{0xe2,{0xc2,0x0,0x0}},{0xe3,{0xc3,0x0,0x0}},{0xe4,{0xc4,0x0,0x0}},{0xe5,{0xc5,0x0,0x0}},{0xe6,{0xc6,0x0,0x0}},{0xe7,{0xc7,0x0,0x0}},
{0xe8,{0xc8,0x0,0x0}},{0xe9,{0xc9,0x0,0x0}},{0xea,{0xca,0x0,0x0}},{0xeb,{0xcb,0x0,0x0}},{0xec,{0xcc,0x0,0x0}},{0xed,{0xcd,0x0,0x0}},
{0xee,{0xce,0x0,0x0}},{0xef,{0xcf,0x0,0x0}},{0xf0,{0xd0,0x0,0x0}},{0xf1,{0xd1,0x0,0x0}},{0xf2,{0xd2,0x0,0x0}},{0xf3,{0xd3,0x0,0x0}},
{0xf4,{0xd4,0x0,0x0}},{0xf5,{0xd5,0x0,0x0}},{0xf6,{0xd6,0x0,0x0}},{0xf8,{0xd8,0x0,0x0}},{0xf9,{0xd9,0x0,0x0}},{0xfa,{0xda,0x0,0x0}},
{0xfb,{0xdb,0x0,0x0}},{0xfc,{0xdc,0x0,0x0}},{0xfd,{0xdd,0x0,0x0}},{0xfe,{0xde,0x0,0x0}},{0xff,{0x178,0x0,0x0}},{0x101,{0x100,0x0,0x0}},
{0x103,{0x102,0x0,0x0}},{0x105,{0x104,0x0,0x0}},{0x107,{0x106,0x0,0x0}},{0x109,{0x108,0x0,0x0}},{0x10b,{0x10a,0x0,0x0}},{0x10d,{0x10c,0x0,0x0}},
{0x10f,{0x10e,0x0,0x0}},{0x111,{0x110,0x0,0x0}},{0x113,{0x112,0x0,0x0}},{0x115,{0x114,0x0,0x0}},{0x117,{0x116,0x0,0x0}},{0x119,{0x118,0x0,0x0}},
{0x11b,{0x11a,0x0,0x0}},{0x11d,{0x11c,0x0,0x0}},{0x11f,{0x11e,0x0,0x0}},{0x121,{0x120,0x0,0x0}},{0x123,{0x122,0x0,0x0}},{0x125,{0x124,0x0,0x0}},
{0x127,{0x126,0x0,0x0}},{0x129,{0x128,0x0,0x0}},{0x12b,{0x12a,0x0,0x0}},{0x12d,{0x12c,0x0,0x0}},{0x12f,{0x12e,0x0,0x0}},{0x131,{0x49,0x0,0x0}},
{0x133,{0x132,0x0,0x0}},{0x135,{0x134,0x0,0x0}},{0x137,{0x136,0x0,0x0}},{0x13a,{0x139,0x0,0x0}},{0x13c,{0x13b,0x0,0x0}},{0x13e,{0x13d,0x0,0x0}},
{0x140,{0x13f,0x0,0x0}},{0x142,{0x141,0x0,0x0}},{0x144,{0x143,0x0,0x0}},{0x146,{0x145,0x0,0x0}},{0x148,{0x147,0x0,0x0}},{0x149,{0x2bc,0x4e,0x0}},
{0x14b,{0x14a,0x0,0x0}},{0x14d,{0x14c,0x0,0x0}},{0x14f,{0x14e,0x0,0x0}},{0x151,{0x150,0x0,0x0}},{0x153,{0x152,0x0,0x0}},{0x155,{0x154,0x0,0x0}},
{0x157,{0x156,0x0,0x0}},{0x159,{0x158,0x0,0x0}},{0x15b,{0x15a,0x0,0x0}},{0x15d,{0x15c,0x0,0x0}},{0x15f,{0x15e,0x0,0x0}},{0x161,{0x160,0x0,0x0}},
{0x163,{0x162,0x0,0x0}},{0x165,{0x164,0x0,0x0}},{0x167,{0x166,0x0,0x0}},{0x169,{0x168,0x0,0x0}},{0x16b,{0x16a,0x0,0x0}},{0x16d,{0x16c,0x0,0x0}},
{0x16f,{0x16e,0x0,0x0}},{0x171,{0x170,0x0,0x0}},{0x173,{0x172,0x0,0x0}},{0x175,{0x174,0x0,0x0}},{0x177,{0x176,0x0,0x0}},{0x17a,{0x179,0x0,0x0}},
{0x17c,{0x17b,0x0,0x0}},{0x17e,{0x17d,0x0,0x0}},{0x17f,{0x53,0x0,0x0}},{0x180,{0x243,0x0,0x0}},{0x183,{0x182,0x0,0x0}},{0x185,{0x184,0x0,0x0}},
{0x188,{0x187,0x0,0x0}},{0x18c,{0x18b,0x0,0x0}},{0x192,{0x191,0x0,0x0}},{0x195,{0x1f6,0x0,0x0}},{0x199,{0x198,0x0,0x0}},{0x19a,{0x23d,0x0,0x0}},
{0x19e,{0x220,0x0,0x0}},{0x1a1,{0x1a0,0x0,0x0}},{0x1a3,{0x1a2,0x0,0x0}},{0x1a5,{0x1a4,0x0,0x0}},{0x1a8,{0x1a7,0x0,0x0}},{0x1ad,{0x1ac,0x0,0x0}},
{0x1b0,{0x1af,0x0,0x0}},{0x1b4,{0x1b3,0x0,0x0}},{0x1b6,{0x1b5,0x0,0x0}},{0x1b9,{0x1b8,0x0,0x0}},{0x1bd,{0x1bc,0x0,0x0}},{0x1bf,{0x1f7,0x0,0x0}},
{0x1c5,{0x1c4,0x0,0x0}},{0x1c6,{0x1c4,0x0,0x0}},{0x1c8,{0x1c7,0x0,0x0}},{0x1c9,{0x1c7,0x0,0x0}},{0x1cb,{0x1ca,0x0,0x0}},{0x1cc,{0x1ca,0x0,0x0}},
{0x1ce,{0x1cd,0x0,0x0}},{0x1d0,{0x1cf,0x0,0x0}},{0x1d2,{0x1d1,0x0,0x0}},{0x1d4,{0x1d3,0x0,0x0}},{0x1d6,{0x1d5,0x0,0x0}},{0x1d8,{0x1d7,0x0,0x0}},
{0x1da,{0x1d9,0x0,0x0}},{0x1dc,{0x1db,0x0,0x0}},{0x1dd,{0x18e,0x0,0x0}},{0x1df,{0x1de,0x0,0x0}},{0x1e1,{0x1e0,0x0,0x0}},{0x1e3,{0x1e2,0x0,0x0}},
{0x1e5,{0x1e4,0x0,0x0}},{0x1e7,{0x1e6,0x0,0x0}},{0x1e9,{0x1e8,0x0,0x0}},{0x1eb,{0x1ea,0x0,0x0}},{0x1ed,{0x1ec,0x0,0x0}},{0x1ef,{0x1ee,0x0,0x0}},
{0x1f0,{0x4a,0x30c,0x0}},{0x1f2,{0x1f1,0x0,0x0}},{0x1f3,{0x1f1,0x0,0x0}},{0x1f5,{0x1f4,0x0,0x0}},{0x1f9,{0x1f8,0x0,0x0}},{0x1fb,{0x1fa,0x0,0x0}},
{0x1fd,{0x1fc,0x0,0x0}},{0x1ff,{0x1fe,0x0,0x0}},{0x201,{0x200,0x0,0x0}},{0x203,{0x202,0x0,0x0}},{0x205,{0x204,0x0,0x0}},{0x207,{0x206,0x0,0x0}},
{0x209,{0x208,0x0,0x0}},{0x20b,{0x20a,0x0,0x0}},{0x20d,{0x20c,0x0,0x0}},{0x20f,{0x20e,0x0,0x0}},{0x211,{0x210,0x0,0x0}},{0x213,{0x212,0x0,0x0}},
{0x215,{0x214,0x0,0x0}},{0x217,{0x216,0x0,0x0}},{0x219,{0x218,0x0,0x0}},{0x21b,{0x21a,0x0,0x0}},{0x21d,{0x21c,0x0,0x0}},{0x21f,{0x21e,0x0,0x0}},
{0x223,{0x222,0x0,0x0}},{0x225,{0x224,0x0,0x0}},{0x227,{0x226,0x0,0x0}},{0x229,{0x228,0x0,0x0}},{0x22b,{0x22a,0x0,0x0}},{0x22d,{0x22c,0x0,0x0}},
{0x22f,{0x22e,0x0,0x0}},{0x231,{0x230,0x0,0x0}},{0x233,{0x232,0x0,0x0}},{0x23c,{0x23b,0x0,0x0}},{0x23f,{0x2c7e,0x0,0x0}},{0x240,{0x2c7f,0x0,0x0}},
{0x242,{0x241,0x0,0x0}},{0x247,{0x246,0x0,0x0}},{0x249,{0x248,0x0,0x0}},{0x24b,{0x24a,0x0,0x0}},{0x24d,{0x24c,0x0,0x0}},{0x24f,{0x24e,0x0,0x0}},
{0x250,{0x2c6f,0x0,0x0}},{0x251,{0x2c6d,0x0,0x0}},{0x252,{0x2c70,0x0,0x0}},{0x253,{0x181,0x0,0x0}},{0x254,{0x186,0x0,0x0}},{0x256,{0x189,0x0,0x0}},
{0x257,{0x18a,0x0,0x0}},{0x259,{0x18f,0x0,0x0}},{0x25b,{0x190,0x0,0x0}},{0x25c,{0xa7ab,0x0,0x0}},{0x260,{0x193,0x0,0x0}},{0x261,{0xa7ac,0x0,0x0}},
{0x263,{0x194,0x0,0x0}},{0x265,{0xa78d,0x0,0x0}},{0x266,{0xa7aa,0x0,0x0}},{0x268,{0x197,0x0,0x0}},{0x269,{0x196,0x0,0x0}},{0x26a,{0xa7ae,0x0,0x0}},
{0x26b,{0x2c62,0x0,0x0}},{0x26c,{0xa7ad,0x0,0x0}},{0x26f,{0x19c,0x0,0x0}},{0x271,{0x2c6e,0x0,0x0}},{0x272,{0x19d,0x0,0x0}},{0x275,{0x19f,0x0,0x0}},
{0x27d,{0x2c64,0x0,0x0}},{0x280,{0x1a6,0x0,0x0}},{0x282,{0xa7c5,0x0,0x0}},{0x283,{0x1a9,0x0,0x0}},{0x287,{0xa7b1,0x0,0x0}},{0x288,{0x1ae,0x0,0x0}},
{0x289,{0x244,0x0,0x0}},{0x28a,{0x1b1,0x0,0x0}},{0x28b,{0x1b2,0x0,0x0}},{0x28c,{0x245,0x0,0x0}},{0x292,{0x1b7,0x0,0x0}},{0x29d,{0xa7b2,0x0,0x0}},
{0x29e,{0xa7b0,0x0,0x0}},{0x345,{0x399,0x0,0x0}},{0x371,{0x370,0x0,0x0}},{0x373,{0x372,0x0,0x0}},{0x377,{0x376,0x0,0x0}},{0x37b,{0x3fd,0x0,0x0}},
{0x37c,{0x3fe,0x0,0x0}},{0x37d,{0x3ff,0x0,0x0}},{0x390,{0x399,0x308,0x301}},{0x3ac,{0x386,0x0,0x0}},{0x3ad,{0x388,0x0,0x0}},{0x3ae,{0x389,0x0,0x0}},
{0x3af,{0x38a,0x0,0x0}},{0x3b0,{0x3a5,0x308,0x301}},{0x3b1,{0x391,0x0,0x0}},{0x3b2,{0x392,0x0,0x0}},{0x3b3,{0x393,0x0,0x0}},{0x3b4,{0x394,0x0,0x0}},
{0x3b5,{0x395,0x0,0x0}},{0x3b6,{0x396,0x0,0x0}},{0x3b7,{0x397,0x0,0x0}},{0x3b8,{0x398,0x0,0x0}},{0x3b9,{0x399,0x0,0x0}},{0x3ba,{0x39a,0x0,0x0}},
{0x3bb,{0x39b,0x0,0x0}},{0x3bc,{0x39c,0x0,0x0}},{0x3bd,{0x39d,0x0,0x0}},{0x3be,{0x39e,0x0,0x0}},{0x3bf,{0x39f,0x0,0x0}},{0x3c0,{0x3a0,0x0,0x0}},
{0x3c1,{0x3a1,0x0,0x0}},{0x3c2,{0x3a3,0x0,0x0}},{0x3c3,{0x3a3,0x0,0x0}},{0x3c4,{0x3a4,0x0,0x0}},{0x3c5,{0x3a5,0x0,0x0}},{0x3c6,{0x3a6,0x0,0x0}},
{0x3c7,{0x3a7,0x0,0x0}},{0x3c8,{0x3a8,0x0,0x0}},{0x3c9,{0x3a9,0x0,0x0}},{0x3ca,{0x3aa,0x0,0x0}},{0x3cb,{0x3ab,0x0,0x0}},{0x3cc,{0x38c,0x0,0x0}},
{0x3cd,{0x38e,0x0,0x0}},{0x3ce,{0x38f,0x0,0x0}},{0x3d0,{0x392,0x0,0x0}},{0x3d1,{0x398,0x0,0x0}},{0x3d5,{0x3a6,0x0,0x0}},{0x3d6,{0x3a0,0x0,0x0}},
{0x3d7,{0x3cf,0x0,0x0}},{0x3d9,{0x3d8,0x0,0x0}},{0x3db,{0x3da,0x0,0x0}},{0x3dd,{0x3dc,0x0,0x0}},{0x3df,{0x3de,0x0,0x0}},{0x3e1,{0x3e0,0x0,0x0}},
{0x3e3,{0x3e2,0x0,0x0}},{0x3e5,{0x3e4,0x0,0x0}},{0x3e7,{0x3e6,0x0,0x0}},{0x3e9,{0x3e8,0x0,0x0}},{0x3eb,{0x3ea,0x0,0x0}},{0x3ed,{0x3ec,0x0,0x0}},
{0x3ef,{0x3ee,0x0,0x0}},{0x3f0,{0x39a,0x0,0x0}},{0x3f1,{0x3a1,0x0,0x0}},{0x3f2,{0x3f9,0x0,0x0}},{0x3f3,{0x37f,0x0,0x0}},{0x3f5,{0x395,0x0,0x0}},
{0x3f8,{0x3f7,0x0,0x0}},{0x3fb,{0x3fa,0x0,0x0}},{0x430,{0x410,0x0,0x0}},{0x431,{0x411,0x0,0x0}},{0x432,{0x412,0x0,0x0}},{0x433,{0x413,0x0,0x0}},
{0x434,{0x414,0x0,0x0}},{0x435,{0x415,0x0,0x0}},{0x436,{0x416,0x0,0x0}},{0x437,{0x417,0x0,0x0}},{0x438,{0x418,0x0,0x0}},{0x439,{0x419,0x0,0x0}},
{0x43a,{0x41a,0x0,0x0}},{0x43b,{0x41b,0x0,0x0}},{0x43c,{0x41c,0x0,0x0}},{0x43d,{0x41d,0x0,0x0}},{0x43e,{0x41e,0x0,0x0}},{0x43f,{0x41f,0x0,0x0}},
{0x440,{0x420,0x0,0x0}},{0x441,{0x421,0x0,0x0}},{0x442,{0x422,0x0,0x0}},{0x443,{0x423,0x0,0x0}},{0x444,{0x424,0x0,0x0}},{0x445,{0x425,0x0,0x0}},
{0x446,{0x426,0x0,0x0}},{0x447,{0x427,0x0,0x0}},{0x448,{0x428,0x0,0x0}},{0x449,{0x429,0x0,0x0}},{0x44a,{0x42a,0x0,0x0}},{0x44b,{0x42b,0x0,0x0}},
{0x44c,{0x42c,0x0,0x0}},{0x44d,{0x42d,0x0,0x0}},{0x44e,{0x42e,0x0,0x0}},{0x44f,{0x42f,0x0,0x0}},{0x450,{0x400,0x0,0x0}},{0x451,{0x401,0x0,0x0}},
{0x452,{0x402,0x0,0x0}},{0x453,{0x403,0x0,0x0}},{0x454,{0x404,0x0,0x0}},{0x455,{0x405,0x0,0x0}},{0x456,{0x406,0x0,0x0}},{0x457,{0x407,0x0,0x0}},
{0x458,{0x408,0x0,0x0}},{0x459,{0x409,0x0,0x0}},{0x45a,{0x40a,0x0,0x0}},{0x45b,{0x40b,0x0,0x0}},{0x45c,{0x40c,0x0,0x0}},{0x45d,{0x40d,0x0,0x0}},
{0x45e,{0x40e,0x0,0x0}},{0x45f,{0x40f,0x0,0x0}},{0x461,{0x460,0x0,0x0}},{0x463,{0x462,0x0,0x0}},{0x465,{0x464,0x0,0x0}},{0x467,{0x466,0x0,0x0}},
{0x469,{0x468,0x0,0x0}},{0x46b,{0x46a,0x0,0x0}},{0x46d,{0x46c,0x0,0x0}},{0x46f,{0x46e,0x0,0x0}},{0x471,{0x470,0x0,0x0}},{0x473,{0x472,0x0,0x0}},
{0x475,{0x474,0x0,0x0}},{0x477,{0x476,0x0,0x0}},{0x479,{0x478,0x0,0x0}},{0x47b,{0x47a,0x0,0x0}},{0x47d,{0x47c,0x0,0x0}},{0x47f,{0x47e,0x0,0x0}},
{0x481,{0x480,0x0,0x0}},{0x48b,{0x48a,0x0,0x0}},{0x48d,{0x48c,0x0,0x0}},{0x48f,{0x48e,0x0,0x0}},{0x491,{0x490,0x0,0x0}},{0x493,{0x492,0x0,0x0}},
{0x495,{0x494,0x0,0x0}},{0x497,{0x496,0x0,0x0}},{0x499,{0x498,0x0,0x0}},{0x49b,{0x49a,0x0,0x0}},{0x49d,{0x49c,0x0,0x0}},{0x49f,{0x49e,0x0,0x0}},
{0x4a1,{0x4a0,0x0,0x0}},{0x4a3,{0x4a2,0x0,0x0}},{0x4a5,{0x4a4,0x0,0x0}},{0x4a7,{0x4a6,0x0,0x0}},{0x4a9,{0x4a8,0x0,0x0}},{0x4ab,{0x4aa,0x0,0x0}},
{0x4ad,{0x4ac,0x0,0x0}},{0x4af,{0x4ae,0x0,0x0}},{0x4b1,{0x4b0,0x0,0x0}},{0x4b3,{0x4b2,0x0,0x0}},{0x4b5,{0x4b4,0x0,0x0}},{0x4b7,{0x4b6,0x0,0x0}},
{0x4b9,{0x4b8,0x0,0x0}},{0x4bb,{0x4ba,0x0,0x0}},{0x4bd,{0x4bc,0x0,0x0}},{0x4bf,{0x4be,0x0,0x0}},{0x4c2,{0x4c1,0x0,0x0}},{0x4c4,{0x4c3,0x0,0x0}},
{0x4c6,{0x4c5,0x0,0x0}},{0x4c8,{0x4c7,0x0,0x0}},{0x4ca,{0x4c9,0x0,0x0}},{0x4cc,{0x4cb,0x0,0x0}},{0x4ce,{0x4cd,0x0,0x0}},{0x4cf,{0x4c0,0x0,0x0}},
{0x4d1,{0x4d0,0x0,0x0}},{0x4d3,{0x4d2,0x0,0x0}},{0x4d5,{0x4d4,0x0,0x0}},{0x4d7,{0x4d6,0x0,0x0}},{0x4d9,{0x4d8,0x0,0x0}},{0x4db,{0x4da,0x0,0x0}},
{0x4dd,{0x4dc,0x0,0x0}},{0x4df,{0x4de,0x0,0x0}},{0x4e1,{0x4e0,0x0,0x0}},{0x4e3,{0x4e2,0x0,0x0}},{0x4e5,{0x4e4,0x0,0x0}},{0x4e7,{0x4e6,0x0,0x0}},
{0x4e9,{0x4e8,0x0,0x0}},{0x4eb,{0x4ea,0x0,0x0}},{0x4ed,{0x4ec,0x0,0x0}},{0x4ef,{0x4ee,0x0,0x0}},{0x4f1,{0x4f0,0x0,0x0}},{0x4f3,{0x4f2,0x0,0x0}},
{0x4f5,{0x4f4,0x0,0x0}},{0x4f7,{0x4f6,0x0,0x0}},{0x4f9,{0x4f8,0x0,0x0}},{0x4fb,{0x4fa,0x0,0x0}},{0x4fd,{0x4fc,0x0,0x0}},{0x4ff,{0x4fe,0x0,0x0}},
{0x501,{0x500,0x0,0x0}},{0x503,{0x502,0x0,0x0}},{0x505,{0x504,0x0,0x0}},{0x507,{0x506,0x0,0x0}},{0x509,{0x508,0x0,0x0}},{0x50b,{0x50a,0x0,0x0}},
{0x50d,{0x50c,0x0,0x0}},{0x50f,{0x50e,0x0,0x0}},{0x511,{0x510,0x0,0x0}},{0x513,{0x512,0x0,0x0}},{0x515,{0x514,0x0,0x0}},{0x517,{0x516,0x0,0x0}},
{0x519,{0x518,0x0,0x0}},{0x51b,{0x51a,0x0,0x0}},{0x51d,{0x51c,0x0,0x0}},{0x51f,{0x51e,0x0,0x0}},{0x521,{0x520,0x0,0x0}},{0x523,{0x522,0x0,0x0}},
{0x525,{0x524,0x0,0x0}},{0x527,{0x526,0x0,0x0}},{0x529,{0x528,0x0,0x0}},{0x52b,{0x52a,0x0,0x0}},{0x52d,{0x52c,0x0,0x0}},{0x52f,{0x52e,0x0,0x0}},
{0x561,{0x531,0x0,0x0}},{0x562,{0x532,0x0,0x0}},{0x563,{0x533,0x0,0x0}},{0x564,{0x534,0x0,0x0}},{0x565,{0x535,0x0,0x0}},{0x566,{0x536,0x0,0x0}},
{0x567,{0x537,0x0,0x0}},{0x568,{0x538,0x0,0x0}},{0x569,{0x539,0x0,0x0}},{0x56a,{0x53a,0x0,0x0}},{0x56b,{0x53b,0x0,0x0}},{0x56c,{0x53c,0x0,0x0}},
{0x56d,{0x53d,0x0,0x0}},{0x56e,{0x53e,0x0,0x0}},{0x56f,{0x53f,0x0,0x0}},{0x570,{0x540,0x0,0x0}},{0x571,{0x541,0x0,0x0}},{0x572,{0x542,0x0,0x0}},
{0x573,{0x543,0x0,0x0}},{0x574,{0x544,0x0,0x0}},{0x575,{0x545,0x0,0x0}},{0x576,{0x546,0x0,0x0}},{0x577,{0x547,0x0,0x0}},{0x578,{0x548,0x0,0x0}},
{0x579,{0x549,0x0,0x0}},{0x57a,{0x54a,0x0,0x0}},{0x57b,{0x54b,0x0,0x0}},{0x57c,{0x54c,0x0,0x0}},{0x57d,{0x54d,0x0,0x0}},{0x57e,{0x54e,0x0,0x0}},
{0x57f,{0x54f,0x0,0x0}},{0x580,{0x550,0x0,0x0}},{0x581,{0x551,0x0,0x0}},{0x582,{0x552,0x0,0x0}},{0x583,{0x553,0x0,0x0}},{0x584,{0x554,0x0,0x0}},
{0x585,{0x555,0x0,0x0}},{0x586,{0x556,0x0,0x0}},{0x587,{0x535,0x552,0x0}},{0x10d0,{0x1c90,0x0,0x0}},{0x10d1,{0x1c91,0x0,0x0}},{0x10d2,{0x1c92,0x0,0x0}},
{0x10d3,{0x1c93,0x0,0x0}},{0x10d4,{0x1c94,0x0,0x0}},{0x10d5,{0x1c95,0x0,0x0}},{0x10d6,{0x1c96,0x0,0x0}},{0x10d7,{0x1c97,0x0,0x0}},{0x10d8,{0x1c98,0x0,0x0}},
{0x10d9,{0x1c99,0x0,0x0}},{0x10da,{0x1c9a,0x0,0x0}},{0x10db,{0x1c9b,0x0,0x0}},{0x10dc,{0x1c9c,0x0,0x0}},{0x10dd,{0x1c9d,0x0,0x0}},{0x10de,{0x1c9e,0x0,0x0}},
{0x10df,{0x1c9f,0x0,0x0}},{0x10e0,{0x1ca0,0x0,0x0}},{0x10e1,{0x1ca1,0x0,0x0}},{0x10e2,{0x1ca2,0x0,0x0}},{0x10e3,{0x1ca3,0x0,0x0}},{0x10e4,{0x1ca4,0x0,0x0}},
{0x10e5,{0x1ca5,0x0,0x0}},{0x10e6,{0x1ca6,0x0,0x0}},{0x10e7,{0x1ca7,0x0,0x0}},{0x10e8,{0x1ca8,0x0,0x0}},{0x10e9,{0x1ca9,0x0,0x0}},{0x10ea,{0x1caa,0x0,0x0}},
{0x10eb,{0x1cab,0x0,0x0}},{0x10ec,{0x1cac,0x0,0x0}},{0x10ed,{0x1cad,0x0,0x0}},{0x10ee,{0x1cae,0x0,0x0}},{0x10ef,{0x1caf,0x0,0x0}},{0x10f0,{0x1cb0,0x0,0x0}},
{0x10f1,{0x1cb1,0x0,0x0}},{0x10f2,{0x1cb2,0x0,0x0}},{0x10f3,{0x1cb3,0x0,0x0}},{0x10f4,{0x1cb4,0x0,0x0}},{0x10f5,{0x1cb5,0x0,0x0}},{0x10f6,{0x1cb6,0x0,0x0}},
{0x10f7,{0x1cb7,0x0,0x0}},{0x10f8,{0x1cb8,0x0,0x0}},{0x10f9,{0x1cb9,0x0,0x0}},{0x10fa,{0x1cba,0x0,0x0}},{0x10fd,{0x1cbd,0x0,0x0}},{0x10fe,{0x1cbe,0x0,0x0}},
{0x10ff,{0x1cbf,0x0,0x0}},{0x13f8,{0x13f0,0x0,0x0}},{0x13f9,{0x13f1,0x0,0x0}},{0x13fa,{0x13f2,0x0,0x0}},{0x13fb,{0x13f3,0x0,0x0}},{0x13fc,{0x13f4,0x0,0x0}},
{0x13fd,{0x13f5,0x0,0x0}},{0x1c80,{0x412,0x0,0x0}},{0x1c81,{0x414,0x0,0x0}},{0x1c82,{0x41e,0x0,0x0}},{0x1c83,{0x421,0x0,0x0}},{0x1c84,{0x422,0x0,0x0}},
{0x1c85,{0x422,0x0,0x0}},{0x1c86,{0x42a,0x0,0x0}},{0x1c87,{0x462,0x0,0x0}},{0x1c88,{0xa64a,0x0,0x0}},{0x1d79,{0xa77d,0x0,0x0}},{0x1d7d,{0x2c63,0x0,0x0}},
{0x1d8e,{0xa7c6,0x0,0x0}},{0x1e01,{0x1e00,0x0,0x0}},{0x1e03,{0x1e02,0x0,0x0}},{0x1e05,{0x1e04,0x0,0x0}},{0x1e07,{0x1e06,0x0,0x0}},{0x1e09,{0x1e08,0x0,0x0}},
{0x1e0b,{0x1e0a,0x0,0x0}},{0x1e0d,{0x1e0c,0x0,0x0}},{0x1e0f,{0x1e0e,0x0,0x0}},{0x1e11,{0x1e10,0x0,0x0}},{0x1e13,{0x1e12,0x0,0x0}},{0x1e15,{0x1e14,0x0,0x0}},
{0x1e17,{0x1e16,0x0,0x0}},{0x1e19,{0x1e18,0x0,0x0}},{0x1e1b,{0x1e1a,0x0,0x0}},{0x1e1d,{0x1e1c,0x0,0x0}},{0x1e1f,{0x1e1e,0x0,0x0}},{0x1e21,{0x1e20,0x0,0x0}},
{0x1e23,{0x1e22,0x0,0x0}},{0x1e25,{0x1e24,0x0,0x0}},{0x1e27,{0x1e26,0x0,0x0}},{0x1e29,{0x1e28,0x0,0x0}},{0x1e2b,{0x1e2a,0x0,0x0}},{0x1e2d,{0x1e2c,0x0,0x0}},
{0x1e2f,{0x1e2e,0x0,0x0}},{0x1e31,{0x1e30,0x0,0x0}},{0x1e33,{0x1e32,0x0,0x0}},{0x1e35,{0x1e34,0x0,0x0}},{0x1e37,{0x1e36,0x0,0x0}},{0x1e39,{0x1e38,0x0,0x0}},
{0x1e3b,{0x1e3a,0x0,0x0}},{0x1e3d,{0x1e3c,0x0,0x0}},{0x1e3f,{0x1e3e,0x0,0x0}},{0x1e41,{0x1e40,0x0,0x0}},{0x1e43,{0x1e42,0x0,0x0}},{0x1e45,{0x1e44,0x0,0x0}},
{0x1e47,{0x1e46,0x0,0x0}},{0x1e49,{0x1e48,0x0,0x0}},{0x1e4b,{0x1e4a,0x0,0x0}},{0x1e4d,{0x1e4c,0x0,0x0}},{0x1e4f,{0x1e4e,0x0,0x0}},{0x1e51,{0x1e50,0x0,0x0}},
{0x1e53,{0x1e52,0x0,0x0}},{0x1e55,{0x1e54,0x0,0x0}},{0x1e57,{0x1e56,0x0,0x0}},{0x1e59,{0x1e58,0x0,0x0}},{0x1e5b,{0x1e5a,0x0,0x0}},{0x1e5d,{0x1e5c,0x0,0x0}},
{0x1e5f,{0x1e5e,0x0,0x0}},{0x1e61,{0x1e60,0x0,0x0}},{0x1e63,{0x1e62,0x0,0x0}},{0x1e65,{0x1e64,0x0,0x0}},{0x1e67,{0x1e66,0x0,0x0}},{0x1e69,{0x1e68,0x0,0x0}},
{0x1e6b,{0x1e6a,0x0,0x0}},{0x1e6d,{0x1e6c,0x0,0x0}},{0x1e6f,{0x1e6e,0x0,0x0}},{0x1e71,{0x1e70,0x0,0x0}},{0x1e73,{0x1e72,0x0,0x0}},{0x1e75,{0x1e74,0x0,0x0}},
{0x1e77,{0x1e76,0x0,0x0}},{0x1e79,{0x1e78,0x0,0x0}},{0x1e7b,{0x1e7a,0x0,0x0}},{0x1e7d,{0x1e7c,0x0,0x0}},{0x1e7f,{0x1e7e,0x0,0x0}},{0x1e81,{0x1e80,0x0,0x0}},
{0x1e83,{0x1e82,0x0,0x0}},{0x1e85,{0x1e84,0x0,0x0}},{0x1e87,{0x1e86,0x0,0x0}},{0x1e89,{0x1e88,0x0,0x0}},{0x1e8b,{0x1e8a,0x0,0x0}},{0x1e8d,{0x1e8c,0x0,0x0}},
{0x1e8f,{0x1e8e,0x0,0x0}},{0x1e91,{0x1e90,0x0,0x0}},{0x1e93,{0x1e92,0x0,0x0}},{0x1e95,{0x1e94,0x0,0x0}},{0x1e96,{0x48,0x331,0x0}},{0x1e97,{0x54,0x308,0x0}},
{0x1e98,{0x57,0x30a,0x0}},{0x1e99,{0x59,0x30a,0x0}},{0x1e9a,{0x41,0x2be,0x0}},{0x1e9b,{0x1e60,0x0,0x0}},{0x1ea1,{0x1ea0,0x0,0x0}},{0x1ea3,{0x1ea2,0x0,0x0}},
{0x1ea5,{0x1ea4,0x0,0x0}},{0x1ea7,{0x1ea6,0x0,0x0}},{0x1ea9,{0x1ea8,0x0,0x0}},{0x1eab,{0x1eaa,0x0,0x0}},{0x1ead,{0x1eac,0x0,0x0}},{0x1eaf,{0x1eae,0x0,0x0}},
{0x1eb1,{0x1eb0,0x0,0x0}},{0x1eb3,{0x1eb2,0x0,0x0}},{0x1eb5,{0x1eb4,0x0,0x0}},{0x1eb7,{0x1eb6,0x0,0x0}},{0x1eb9,{0x1eb8,0x0,0x0}},{0x1ebb,{0x1eba,0x0,0x0}},
{0x1ebd,{0x1ebc,0x0,0x0}},{0x1ebf,{0x1ebe,0x0,0x0}},{0x1ec1,{0x1ec0,0x0,0x0}},{0x1ec3,{0x1ec2,0x0,0x0}},{0x1ec5,{0x1ec4,0x0,0x0}},{0x1ec7,{0x1ec6,0x0,0x0}},
{0x1ec9,{0x1ec8,0x0,0x0}},{0x1ecb,{0x1eca,0x0,0x0}},{0x1ecd,{0x1ecc,0x0,0x0}},{0x1ecf,{0x1ece,0x0,0x0}},{0x1ed1,{0x1ed0,0x0,0x0}},{0x1ed3,{0x1ed2,0x0,0x0}},
{0x1ed5,{0x1ed4,0x0,0x0}},{0x1ed7,{0x1ed6,0x0,0x0}},{0x1ed9,{0x1ed8,0x0,0x0}},{0x1edb,{0x1eda,0x0,0x0}},{0x1edd,{0x1edc,0x0,0x0}},{0x1edf,{0x1ede,0x0,0x0}},
{0x1ee1,{0x1ee0,0x0,0x0}},{0x1ee3,{0x1ee2,0x0,0x0}},{0x1ee5,{0x1ee4,0x0,0x0}},{0x1ee7,{0x1ee6,0x0,0x0}},{0x1ee9,{0x1ee8,0x0,0x0}},{0x1eeb,{0x1eea,0x0,0x0}},
{0x1eed,{0x1eec,0x0,0x0}},{0x1eef,{0x1eee,0x0,0x0}},{0x1ef1,{0x1ef0,0x0,0x0}},{0x1ef3,{0x1ef2,0x0,0x0}},{0x1ef5,{0x1ef4,0x0,0x0}},{0x1ef7,{0x1ef6,0x0,0x0}},
{0x1ef9,{0x1ef8,0x0,0x0}},{0x1efb,{0x1efa,0x0,0x0}},{0x1efd,{0x1efc,0x0,0x0}},{0x1eff,{0x1efe,0x0,0x0}},{0x1f00,{0x1f08,0x0,0x0}},{0x1f01,{0x1f09,0x0,0x0}},
{0x1f02,{0x1f0a,0x0,0x0}},{0x1f03,{0x1f0b,0x0,0x0}},{0x1f04,{0x1f0c,0x0,0x0}},{0x1f05,{0x1f0d,0x0,0x0}},{0x1f06,{0x1f0e,0x0,0x0}},{0x1f07,{0x1f0f,0x0,0x0}},
{0x1f10,{0x1f18,0x0,0x0}},{0x1f11,{0x1f19,0x0,0x0}},{0x1f12,{0x1f1a,0x0,0x0}},{0x1f13,{0x1f1b,0x0,0x0}},{0x1f14,{0x1f1c,0x0,0x0}},{0x1f15,{0x1f1d,0x0,0x0}},
{0x1f20,{0x1f28,0x0,0x0}},{0x1f21,{0x1f29,0x0,0x0}},{0x1f22,{0x1f2a,0x0,0x0}},{0x1f23,{0x1f2b,0x0,0x0}},{0x1f24,{0x1f2c,0x0,0x0}},{0x1f25,{0x1f2d,0x0,0x0}},
{0x1f26,{0x1f2e,0x0,0x0}},{0x1f27,{0x1f2f,0x0,0x0}},{0x1f30,{0x1f38,0x0,0x0}},{0x1f31,{0x1f39,0x0,0x0}},{0x1f32,{0x1f3a,0x0,0x0}},{0x1f33,{0x1f3b,0x0,0x0}},
{0x1f34,{0x1f3c,0x0,0x0}},{0x1f35,{0x1f3d,0x0,0x0}},{0x1f36,{0x1f3e,0x0,0x0}},{0x1f37,{0x1f3f,0x0,0x0}},{0x1f40,{0x1f48,0x0,0x0}},{0x1f41,{0x1f49,0x0,0x0}},
{0x1f42,{0x1f4a,0x0,0x0}},{0x1f43,{0x1f4b,0x0,0x0}},{0x1f44,{0x1f4c,0x0,0x0}},{0x1f45,{0x1f4d,0x0,0x0}},{0x1f50,{0x3a5,0x313,0x0}},{0x1f51,{0x1f59,0x0,0x0}},
{0x1f52,{0x3a5,0x313,0x300}},{0x1f53,{0x1f5b,0x0,0x0}},{0x1f54,{0x3a5,0x313,0x301}},{0x1f55,{0x1f5d,0x0,0x0}},{0x1f56,{0x3a5,0x313,0x342}},{0x1f57,{0x1f5f,0x0,0x0}},
{0x1f60,{0x1f68,0x0,0x0}},{0x1f61,{0x1f69,0x0,0x0}},{0x1f62,{0x1f6a,0x0,0x0}},{0x1f63,{0x1f6b,0x0,0x0}},{0x1f64,{0x1f6c,0x0,0x0}},{0x1f65,{0x1f6d,0x0,0x0}},
{0x1f66,{0x1f6e,0x0,0x0}},{0x1f67,{0x1f6f,0x0,0x0}},{0x1f70,{0x1fba,0x0,0x0}},{0x1f71,{0x1fbb,0x0,0x0}},{0x1f72,{0x1fc8,0x0,0x0}},{0x1f73,{0x1fc9,0x0,0x0}},
{0x1f74,{0x1fca,0x0,0x0}},{0x1f75,{0x1fcb,0x0,0x0}},{0x1f76,{0x1fda,0x0,0x0}},{0x1f77,{0x1fdb,0x0,0x0}},{0x1f78,{0x1ff8,0x0,0x0}},{0x1f79,{0x1ff9,0x0,0x0}},
{0x1f7a,{0x1fea,0x0,0x0}},{0x1f7b,{0x1feb,0x0,0x0}},{0x1f7c,{0x1ffa,0x0,0x0}},{0x1f7d,{0x1ffb,0x0,0x0}},{0x1f80,{0x1f08,0x399,0x0}},{0x1f81,{0x1f09,0x399,0x0}},
{0x1f82,{0x1f0a,0x399,0x0}},{0x1f83,{0x1f0b,0x399,0x0}},{0x1f84,{0x1f0c,0x399,0x0}},{0x1f85,{0x1f0d,0x399,0x0}},{0x1f86,{0x1f0e,0x399,0x0}},{0x1f87,{0x1f0f,0x399,0x0}},
{0x1f88,{0x1f08,0x399,0x0}},{0x1f89,{0x1f09,0x399,0x0}},{0x1f8a,{0x1f0a,0x399,0x0}},{0x1f8b,{0x1f0b,0x399,0x0}},{0x1f8c,{0x1f0c,0x399,0x0}},{0x1f8d,{0x1f0d,0x399,0x0}},
{0x1f8e,{0x1f0e,0x399,0x0}},{0x1f8f,{0x1f0f,0x399,0x0}},{0x1f90,{0x1f28,0x399,0x0}},{0x1f91,{0x1f29,0x399,0x0}},{0x1f92,{0x1f2a,0x399,0x0}},{0x1f93,{0x1f2b,0x399,0x0}},
{0x1f94,{0x1f2c,0x399,0x0}},{0x1f95,{0x1f2d,0x399,0x0}},{0x1f96,{0x1f2e,0x399,0x0}},{0x1f97,{0x1f2f,0x399,0x0}},{0x1f98,{0x1f28,0x399,0x0}},{0x1f99,{0x1f29,0x399,0x0}},
{0x1f9a,{0x1f2a,0x399,0x0}},{0x1f9b,{0x1f2b,0x399,0x0}},{0x1f9c,{0x1f2c,0x399,0x0}},{0x1f9d,{0x1f2d,0x399,0x0}},{0x1f9e,{0x1f2e,0x399,0x0}},{0x1f9f,{0x1f2f,0x399,0x0}},
{0x1fa0,{0x1f68,0x399,0x0}},{0x1fa1,{0x1f69,0x399,0x0}},{0x1fa2,{0x1f6a,0x399,0x0}},{0x1fa3,{0x1f6b,0x399,0x0}},{0x1fa4,{0x1f6c,0x399,0x0}},{0x1fa5,{0x1f6d,0x399,0x0}},
{0x1fa6,{0x1f6e,0x399,0x0}},{0x1fa7,{0x1f6f,0x399,0x0}},{0x1fa8,{0x1f68,0x399,0x0}},{0x1fa9,{0x1f69,0x399,0x0}},{0x1faa,{0x1f6a,0x399,0x0}},{0x1fab,{0x1f6b,0x399,0x0}},
{0x1fac,{0x1f6c,0x399,0x0}},{0x1fad,{0x1f6d,0x399,0x0}},{0x1fae,{0x1f6e,0x399,0x0}},{0x1faf,{0x1f6f,0x399,0x0}},{0x1fb0,{0x1fb8,0x0,0x0}},{0x1fb1,{0x1fb9,0x0,0x0}},
{0x1fb2,{0x1fba,0x399,0x0}},{0x1fb3,{0x391,0x399,0x0}},{0x1fb4,{0x386,0x399,0x0}},{0x1fb6,{0x391,0x342,0x0}},{0x1fb7,{0x391,0x342,0x399}},{0x1fbc,{0x391,0x399,0x0}},
{0x1fbe,{0x399,0x0,0x0}},{0x1fc2,{0x1fca,0x399,0x0}},{0x1fc3,{0x397,0x399,0x0}},{0x1fc4,{0x389,0x399,0x0}},{0x1fc6,{0x397,0x342,0x0}},{0x1fc7,{0x397,0x342,0x399}},
{0x1fcc,{0x397,0x399,0x0}},{0x1fd0,{0x1fd8,0x0,0x0}},{0x1fd1,{0x1fd9,0x0,0x0}},{0x1fd2,{0x399,0x308,0x300}},{0x1fd3,{0x399,0x308,0x301}},{0x1fd6,{0x399,0x342,0x0}},
{0x1fd7,{0x399,0x308,0x342}},{0x1fe0,{0x1fe8,0x0,0x0}},{0x1fe1,{0x1fe9,0x0,0x0}},{0x1fe2,{0x3a5,0x308,0x300}},{0x1fe3,{0x3a5,0x308,0x301}},{0x1fe4,{0x3a1,0x313,0x0}},
{0x1fe5,{0x1fec,0x0,0x0}},{0x1fe6,{0x3a5,0x342,0x0}},{0x1fe7,{0x3a5,0x308,0x342}},{0x1ff2,{0x1ffa,0x399,0x0}},{0x1ff3,{0x3a9,0x399,0x0}},{0x1ff4,{0x38f,0x399,0x0}},
{0x1ff6,{0x3a9,0x342,0x0}},{0x1ff7,{0x3a9,0x342,0x399}},{0x1ffc,{0x3a9,0x399,0x0}},{0x214e,{0x2132,0x0,0x0}},{0x2170,{0x2160,0x0,0x0}},{0x2171,{0x2161,0x0,0x0}},
{0x2172,{0x2162,0x0,0x0}},{0x2173,{0x2163,0x0,0x0}},{0x2174,{0x2164,0x0,0x0}},{0x2175,{0x2165,0x0,0x0}},{0x2176,{0x2166,0x0,0x0}},{0x2177,{0x2167,0x0,0x0}},
{0x2178,{0x2168,0x0,0x0}},{0x2179,{0x2169,0x0,0x0}},{0x217a,{0x216a,0x0,0x0}},{0x217b,{0x216b,0x0,0x0}},{0x217c,{0x216c,0x0,0x0}},{0x217d,{0x216d,0x0,0x0}},
{0x217e,{0x216e,0x0,0x0}},{0x217f,{0x216f,0x0,0x0}},{0x2184,{0x2183,0x0,0x0}},{0x24d0,{0x24b6,0x0,0x0}},{0x24d1,{0x24b7,0x0,0x0}},{0x24d2,{0x24b8,0x0,0x0}},
{0x24d3,{0x24b9,0x0,0x0}},{0x24d4,{0x24ba,0x0,0x0}},{0x24d5,{0x24bb,0x0,0x0}},{0x24d6,{0x24bc,0x0,0x0}},{0x24d7,{0x24bd,0x0,0x0}},{0x24d8,{0x24be,0x0,0x0}},
{0x24d9,{0x24bf,0x0,0x0}},{0x24da,{0x24c0,0x0,0x0}},{0x24db,{0x24c1,0x0,0x0}},{0x24dc,{0x24c2,0x0,0x0}},{0x24dd,{0x24c3,0x0,0x0}},{0x24de,{0x24c4,0x0,0x0}},
{0x24df,{0x24c5,0x0,0x0}},{0x24e0,{0x24c6,0x0,0x0}},{0x24e1,{0x24c7,0x0,0x0}},{0x24e2,{0x24c8,0x0,0x0}},{0x24e3,{0x24c9,0x0,0x0}},{0x24e4,{0x24ca,0x0,0x0}},
{0x24e5,{0x24cb,0x0,0x0}},{0x24e6,{0x24cc,0x0,0x0}},{0x24e7,{0x24cd,0x0,0x0}},{0x24e8,{0x24ce,0x0,0x0}},{0x24e9,{0x24cf,0x0,0x0}},{0x2c30,{0x2c00,0x0,0x0}},
{0x2c31,{0x2c01,0x0,0x0}},{0x2c32,{0x2c02,0x0,0x0}},{0x2c33,{0x2c03,0x0,0x0}},{0x2c34,{0x2c04,0x0,0x0}},{0x2c35,{0x2c05,0x0,0x0}},{0x2c36,{0x2c06,0x0,0x0}},
{0x2c37,{0x2c07,0x0,0x0}},{0x2c38,{0x2c08,0x0,0x0}},{0x2c39,{0x2c09,0x0,0x0}},{0x2c3a,{0x2c0a,0x0,0x0}},{0x2c3b,{0x2c0b,0x0,0x0}},{0x2c3c,{0x2c0c,0x0,0x0}},
{0x2c3d,{0x2c0d,0x0,0x0}},{0x2c3e,{0x2c0e,0x0,0x0}},{0x2c3f,{0x2c0f,0x0,0x0}},{0x2c40,{0x2c10,0x0,0x0}},{0x2c41,{0x2c11,0x0,0x0}},{0x2c42,{0x2c12,0x0,0x0}},
{0x2c43,{0x2c13,0x0,0x0}},{0x2c44,{0x2c14,0x0,0x0}},{0x2c45,{0x2c15,0x0,0x0}},{0x2c46,{0x2c16,0x0,0x0}},{0x2c47,{0x2c17,0x0,0x0}},{0x2c48,{0x2c18,0x0,0x0}},
{0x2c49,{0x2c19,0x0,0x0}},{0x2c4a,{0x2c1a,0x0,0x0}},{0x2c4b,{0x2c1b,0x0,0x0}},{0x2c4c,{0x2c1c,0x0,0x0}},{0x2c4d,{0x2c1d,0x0,0x0}},{0x2c4e,{0x2c1e,0x0,0x0}},
{0x2c4f,{0x2c1f,0x0,0x0}},{0x2c50,{0x2c20,0x0,0x0}},{0x2c51,{0x2c21,0x0,0x0}},{0x2c52,{0x2c22,0x0,0x0}},{0x2c53,{0x2c23,0x0,0x0}},{0x2c54,{0x2c24,0x0,0x0}},
{0x2c55,{0x2c25,0x0,0x0}},{0x2c56,{0x2c26,0x0,0x0}},{0x2c57,{0x2c27,0x0,0x0}},{0x2c58,{0x2c28,0x0,0x0}},{0x2c59,{0x2c29,0x0,0x0}},{0x2c5a,{0x2c2a,0x0,0x0}},
{0x2c5b,{0x2c2b,0x0,0x0}},{0x2c5c,{0x2c2c,0x0,0x0}},{0x2c5d,{0x2c2d,0x0,0x0}},{0x2c5e,{0x2c2e,0x0,0x0}},{0x2c5f,{0x2c2f,0x0,0x0}},{0x2c61,{0x2c60,0x0,0x0}},
{0x2c65,{0x23a,0x0,0x0}},{0x2c66,{0x23e,0x0,0x0}},{0x2c68,{0x2c67,0x0,0x0}},{0x2c6a,{0x2c69,0x0,0x0}},{0x2c6c,{0x2c6b,0x0,0x0}},{0x2c73,{0x2c72,0x0,0x0}},
{0x2c76,{0x2c75,0x0,0x0}},{0x2c81,{0x2c80,0x0,0x0}},{0x2c83,{0x2c82,0x0,0x0}},{0x2c85,{0x2c84,0x0,0x0}},{0x2c87,{0x2c86,0x0,0x0}},{0x2c89,{0x2c88,0x0,0x0}},
{0x2c8b,{0x2c8a,0x0,0x0}},{0x2c8d,{0x2c8c,0x0,0x0}},{0x2c8f,{0x2c8e,0x0,0x0}},{0x2c91,{0x2c90,0x0,0x0}},{0x2c93,{0x2c92,0x0,0x0}},{0x2c95,{0x2c94,0x0,0x0}},
{0x2c97,{0x2c96,0x0,0x0}},{0x2c99,{0x2c98,0x0,0x0}},{0x2c9b,{0x2c9a,0x0,0x0}},{0x2c9d,{0x2c9c,0x0,0x0}},{0x2c9f,{0x2c9e,0x0,0x0}},{0x2ca1,{0x2ca0,0x0,0x0}},
{0x2ca3,{0x2ca2,0x0,0x0}},{0x2ca5,{0x2ca4,0x0,0x0}},{0x2ca7,{0x2ca6,0x0,0x0}},{0x2ca9,{0x2ca8,0x0,0x0}},{0x2cab,{0x2caa,0x0,0x0}},{0x2cad,{0x2cac,0x0,0x0}},
{0x2caf,{0x2cae,0x0,0x0}},{0x2cb1,{0x2cb0,0x0,0x0}},{0x2cb3,{0x2cb2,0x0,0x0}},{0x2cb5,{0x2cb4,0x0,0x0}},{0x2cb7,{0x2cb6,0x0,0x0}},{0x2cb9,{0x2cb8,0x0,0x0}},
{0x2cbb,{0x2cba,0x0,0x0}},{0x2cbd,{0x2cbc,0x0,0x0}},{0x2cbf,{0x2cbe,0x0,0x0}},{0x2cc1,{0x2cc0,0x0,0x0}},{0x2cc3,{0x2cc2,0x0,0x0}},{0x2cc5,{0x2cc4,0x0,0x0}},
{0x2cc7,{0x2cc6,0x0,0x0}},{0x2cc9,{0x2cc8,0x0,0x0}},{0x2ccb,{0x2cca,0x0,0x0}},{0x2ccd,{0x2ccc,0x0,0x0}},{0x2ccf,{0x2cce,0x0,0x0}},{0x2cd1,{0x2cd0,0x0,0x0}},
{0x2cd3,{0x2cd2,0x0,0x0}},{0x2cd5,{0x2cd4,0x0,0x0}},{0x2cd7,{0x2cd6,0x0,0x0}},{0x2cd9,{0x2cd8,0x0,0x0}},{0x2cdb,{0x2cda,0x0,0x0}},{0x2cdd,{0x2cdc,0x0,0x0}},
{0x2cdf,{0x2cde,0x0,0x0}},{0x2ce1,{0x2ce0,0x0,0x0}},{0x2ce3,{0x2ce2,0x0,0x0}},{0x2cec,{0x2ceb,0x0,0x0}},{0x2cee,{0x2ced,0x0,0x0}},{0x2cf3,{0x2cf2,0x0,0x0}},
{0x2d00,{0x10a0,0x0,0x0}},{0x2d01,{0x10a1,0x0,0x0}},{0x2d02,{0x10a2,0x0,0x0}},{0x2d03,{0x10a3,0x0,0x0}},{0x2d04,{0x10a4,0x0,0x0}},{0x2d05,{0x10a5,0x0,0x0}},
{0x2d06,{0x10a6,0x0,0x0}},{0x2d07,{0x10a7,0x0,0x0}},{0x2d08,{0x10a8,0x0,0x0}},{0x2d09,{0x10a9,0x0,0x0}},{0x2d0a,{0x10aa,0x0,0x0}},{0x2d0b,{0x10ab,0x0,0x0}},
{0x2d0c,{0x10ac,0x0,0x0}},{0x2d0d,{0x10ad,0x0,0x0}},{0x2d0e,{0x10ae,0x0,0x0}},{0x2d0f,{0x10af,0x0,0x0}},{0x2d10,{0x10b0,0x0,0x0}},{0x2d11,{0x10b1,0x0,0x0}},
{0x2d12,{0x10b2,0x0,0x0}},{0x2d13,{0x10b3,0x0,0x0}},{0x2d14,{0x10b4,0x0,0x0}},{0x2d15,{0x10b5,0x0,0x0}},{0x2d16,{0x10b6,0x0,0x0}},{0x2d17,{0x10b7,0x0,0x0}},
{0x2d18,{0x10b8,0x0,0x0}},{0x2d19,{0x10b9,0x0,0x0}},{0x2d1a,{0x10ba,0x0,0x0}},{0x2d1b,{0x10bb,0x0,0x0}},{0x2d1c,{0x10bc,0x0,0x0}},{0x2d1d,{0x10bd,0x0,0x0}},
{0x2d1e,{0x10be,0x0,0x0}},{0x2d1f,{0x10bf,0x0,0x0}},{0x2d20,{0x10c0,0x0,0x0}},{0x2d21,{0x10c1,0x0,0x0}},{0x2d22,{0x10c2,0x0,0x0}},{0x2d23,{0x10c3,0x0,0x0}},
{0x2d24,{0x10c4,0x0,0x0}},{0x2d25,{0x10c5,0x0,0x0}},{0x2d27,{0x10c7,0x0,0x0}},{0x2d2d,{0x10cd,0x0,0x0}},{0xa641,{0xa640,0x0,0x0}},{0xa643,{0xa642,0x0,0x0}},
{0xa645,{0xa644,0x0,0x0}},{0xa647,{0xa646,0x0,0x0}},{0xa649,{0xa648,0x0,0x0}},{0xa64b,{0xa64a,0x0,0x0}},{0xa64d,{0xa64c,0x0,0x0}},{0xa64f,{0xa64e,0x0,0x0}},
{0xa651,{0xa650,0x0,0x0}},{0xa653,{0xa652,0x0,0x0}},{0xa655,{0xa654,0x0,0x0}},{0xa657,{0xa656,0x0,0x0}},{0xa659,{0xa658,0x0,0x0}},{0xa65b,{0xa65a,0x0,0x0}},
{0xa65d,{0xa65c,0x0,0x0}},{0xa65f,{0xa65e,0x0,0x0}},{0xa661,{0xa660,0x0,0x0}},{0xa663,{0xa662,0x0,0x0}},{0xa665,{0xa664,0x0,0x0}},{0xa667,{0xa666,0x0,0x0}},
{0xa669,{0xa668,0x0,0x0}},{0xa66b,{0xa66a,0x0,0x0}},{0xa66d,{0xa66c,0x0,0x0}},{0xa681,{0xa680,0x0,0x0}},{0xa683,{0xa682,0x0,0x0}},{0xa685,{0xa684,0x0,0x0}},
{0xa687,{0xa686,0x0,0x0}},{0xa689,{0xa688,0x0,0x0}},{0xa68b,{0xa68a,0x0,0x0}},{0xa68d,{0xa68c,0x0,0x0}},{0xa68f,{0xa68e,0x0,0x0}},{0xa691,{0xa690,0x0,0x0}},
{0xa693,{0xa692,0x0,0x0}},{0xa695,{0xa694,0x0,0x0}},{0xa697,{0xa696,0x0,0x0}},{0xa699,{0xa698,0x0,0x0}},{0xa69b,{0xa69a,0x0,0x0}},{0xa723,{0xa722,0x0,0x0}},
{0xa725,{0xa724,0x0,0x0}},{0xa727,{0xa726,0x0,0x0}},{0xa729,{0xa728,0x0,0x0}},{0xa72b,{0xa72a,0x0,0x0}},{0xa72d,{0xa72c,0x0,0x0}},{0xa72f,{0xa72e,0x0,0x0}},
{0xa733,{0xa732,0x0,0x0}},{0xa735,{0xa734,0x0,0x0}},{0xa737,{0xa736,0x0,0x0}},{0xa739,{0xa738,0x0,0x0}},{0xa73b,{0xa73a,0x0,0x0}},{0xa73d,{0xa73c,0x0,0x0}},
{0xa73f,{0xa73e,0x0,0x0}},{0xa741,{0xa740,0x0,0x0}},{0xa743,{0xa742,0x0,0x0}},{0xa745,{0xa744,0x0,0x0}},{0xa747,{0xa746,0x0,0x0}},{0xa749,{0xa748,0x0,0x0}},
{0xa74b,{0xa74a,0x0,0x0}},{0xa74d,{0xa74c,0x0,0x0}},{0xa74f,{0xa74e,0x0,0x0}},{0xa751,{0xa750,0x0,0x0}},{0xa753,{0xa752,0x0,0x0}},{0xa755,{0xa754,0x0,0x0}},
{0xa757,{0xa756,0x0,0x0}},{0xa759,{0xa758,0x0,0x0}},{0xa75b,{0xa75a,0x0,0x0}},{0xa75d,{0xa75c,0x0,0x0}},{0xa75f,{0xa75e,0x0,0x0}},{0xa761,{0xa760,0x0,0x0}},
{0xa763,{0xa762,0x0,0x0}},{0xa765,{0xa764,0x0,0x0}},{0xa767,{0xa766,0x0,0x0}},{0xa769,{0xa768,0x0,0x0}},{0xa76b,{0xa76a,0x0,0x0}},{0xa76d,{0xa76c,0x0,0x0}},
{0xa76f,{0xa76e,0x0,0x0}},{0xa77a,{0xa779,0x0,0x0}},{0xa77c,{0xa77b,0x0,0x0}},{0xa77f,{0xa77e,0x0,0x0}},{0xa781,{0xa780,0x0,0x0}},{0xa783,{0xa782,0x0,0x0}},
{0xa785,{0xa784,0x0,0x0}},{0xa787,{0xa786,0x0,0x0}},{0xa78c,{0xa78b,0x0,0x0}},{0xa791,{0xa790,0x0,0x0}},{0xa793,{0xa792,0x0,0x0}},{0xa794,{0xa7c4,0x0,0x0}},
{0xa797,{0xa796,0x0,0x0}},{0xa799,{0xa798,0x0,0x0}},{0xa79b,{0xa79a,0x0,0x0}},{0xa79d,{0xa79c,0x0,0x0}},{0xa79f,{0xa79e,0x0,0x0}},{0xa7a1,{0xa7a0,0x0,0x0}},
{0xa7a3,{0xa7a2,0x0,0x0}},{0xa7a5,{0xa7a4,0x0,0x0}},{0xa7a7,{0xa7a6,0x0,0x0}},{0xa7a9,{0xa7a8,0x0,0x0}},{0xa7b5,{0xa7b4,0x0,0x0}},{0xa7b7,{0xa7b6,0x0,0x0}},
{0xa7b9,{0xa7b8,0x0,0x0}},{0xa7bb,{0xa7ba,0x0,0x0}},{0xa7bd,{0xa7bc,0x0,0x0}},{0xa7bf,{0xa7be,0x0,0x0}},{0xa7c1,{0xa7c0,0x0,0x0}},{0xa7c3,{0xa7c2,0x0,0x0}},
{0xa7c8,{0xa7c7,0x0,0x0}},{0xa7ca,{0xa7c9,0x0,0x0}},{0xa7d1,{0xa7d0,0x0,0x0}},{0xa7d7,{0xa7d6,0x0,0x0}},{0xa7d9,{0xa7d8,0x0,0x0}},{0xa7f6,{0xa7f5,0x0,0x0}},
{0xab53,{0xa7b3,0x0,0x0}},{0xab70,{0x13a0,0x0,0x0}},{0xab71,{0x13a1,0x0,0x0}},{0xab72,{0x13a2,0x0,0x0}},{0xab73,{0x13a3,0x0,0x0}},{0xab74,{0x13a4,0x0,0x0}},
{0xab75,{0x13a5,0x0,0x0}},{0xab76,{0x13a6,0x0,0x0}},{0xab77,{0x13a7,0x0,0x0}},{0xab78,{0x13a8,0x0,0x0}},{0xab79,{0x13a9,0x0,0x0}},{0xab7a,{0x13aa,0x0,0x0}},
{0xab7b,{0x13ab,0x0,0x0}},{0xab7c,{0x13ac,0x0,0x0}},{0xab7d,{0x13ad,0x0,0x0}},{0xab7e,{0x13ae,0x0,0x0}},{0xab7f,{0x13af,0x0,0x0}},{0xab80,{0x13b0,0x0,0x0}},
{0xab81,{0x13b1,0x0,0x0}},{0xab82,{0x13b2,0x0,0x0}},{0xab83,{0x13b3,0x0,0x0}},{0xab84,{0x13b4,0x0,0x0}},{0xab85,{0x13b5,0x0,0x0}},{0xab86,{0x13b6,0x0,0x0}},
{0xab87,{0x13b7,0x0,0x0}},{0xab88,{0x13b8,0x0,0x0}},{0xab89,{0x13b9,0x0,0x0}},{0xab8a,{0x13ba,0x0,0x0}},{0xab8b,{0x13bb,0x0,0x0}},{0xab8c,{0x13bc,0x0,0x0}},
{0xab8d,{0x13bd,0x0,0x0}},{0xab8e,{0x13be,0x0,0x0}},{0xab8f,{0x13bf,0x0,0x0}},{0xab90,{0x13c0,0x0,0x0}},{0xab91,{0x13c1,0x0,0x0}},{0xab92,{0x13c2,0x0,0x0}},
{0xab93,{0x13c3,0x0,0x0}},{0xab94,{0x13c4,0x0,0x0}},{0xab95,{0x13c5,0x0,0x0}},{0xab96,{0x13c6,0x0,0x0}},{0xab97,{0x13c7,0x0,0x0}},{0xab98,{0x13c8,0x0,0x0}},
{0xab99,{0x13c9,0x0,0x0}},{0xab9a,{0x13ca,0x0,0x0}},{0xab9b,{0x13cb,0x0,0x0}},{0xab9c,{0x13cc,0x0,0x0}},{0xab9d,{0x13cd,0x0,0x0}},{0xab9e,{0x13ce,0x0,0x0}},
{0xab9f,{0x13cf,0x0,0x0}},{0xaba0,{0x13d0,0x0,0x0}},{0xaba1,{0x13d1,0x0,0x0}},{0xaba2,{0x13d2,0x0,0x0}},{0xaba3,{0x13d3,0x0,0x0}},{0xaba4,{0x13d4,0x0,0x0}},
{0xaba5,{0x13d5,0x0,0x0}},{0xaba6,{0x13d6,0x0,0x0}},{0xaba7,{0x13d7,0x0,0x0}},{0xaba8,{0x13d8,0x0,0x0}},{0xaba9,{0x13d9,0x0,0x0}},{0xabaa,{0x13da,0x0,0x0}},
{0xabab,{0x13db,0x0,0x0}},{0xabac,{0x13dc,0x0,0x0}},{0xabad,{0x13dd,0x0,0x0}},{0xabae,{0x13de,0x0,0x0}},{0xabaf,{0x13df,0x0,0x0}},{0xabb0,{0x13e0,0x0,0x0}},
{0xabb1,{0x13e1,0x0,0x0}},{0xabb2,{0x13e2,0x0,0x0}},{0xabb3,{0x13e3,0x0,0x0}},{0xabb4,{0x13e4,0x0,0x0}},{0xabb5,{0x13e5,0x0,0x0}},{0xabb6,{0x13e6,0x0,0x0}},
{0xabb7,{0x13e7,0x0,0x0}},{0xabb8,{0x13e8,0x0,0x0}},{0xabb9,{0x13e9,0x0,0x0}},{0xabba,{0x13ea,0x0,0x0}},{0xabbb,{0x13eb,0x0,0x0}},{0xabbc,{0x13ec,0x0,0x0}},
{0xabbd,{0x13ed,0x0,0x0}},{0xabbe,{0x13ee,0x0,0x0}},{0xabbf,{0x13ef,0x0,0x0}},{0xfb00,{0x46,0x46,0x0}},{0xfb01,{0x46,0x49,0x0}},{0xfb02,{0x46,0x4c,0x0}},
{0xfb03,{0x46,0x46,0x49}},{0xfb04,{0x46,0x46,0x4c}},{0xfb05,{0x53,0x54,0x0}},{0xfb06,{0x53,0x54,0x0}},{0xfb13,{0x544,0x546,0x0}},{0xfb14,{0x544,0x535,0x0}},
{0xfb15,{0x544,0x53b,0x0}},{0xfb16,{0x54e,0x546,0x0}},{0xfb17,{0x544,0x53d,0x0}},{0xff41,{0xff21,0x0,0x0}},{0xff42,{0xff22,0x0,0x0}},{0xff43,{0xff23,0x0,0x0}},
{0xff44,{0xff24,0x0,0x0}},{0xff45,{0xff25,0x0,0x0}},{0xff46,{0xff26,0x0,0x0}},{0xff47,{0xff27,0x0,0x0}},{0xff48,{0xff28,0x0,0x0}},{0xff49,{0xff29,0x0,0x0}},
{0xff4a,{0xff2a,0x0,0x0}},{0xff4b,{0xff2b,0x0,0x0}},{0xff4c,{0xff2c,0x0,0x0}},{0xff4d,{0xff2d,0x0,0x0}},{0xff4e,{0xff2e,0x0,0x0}},{0xff4f,{0xff2f,0x0,0x0}},
{0xff50,{0xff30,0x0,0x0}},{0xff51,{0xff31,0x0,0x0}},{0xff52,{0xff32,0x0,0x0}},{0xff53,{0xff33,0x0,0x0}},{0xff54,{0xff34,0x0,0x0}},{0xff55,{0xff35,0x0,0x0}},
{0xff56,{0xff36,0x0,0x0}},{0xff57,{0xff37,0x0,0x0}},{0xff58,{0xff38,0x0,0x0}},{0xff59,{0xff39,0x0,0x0}},{0xff5a,{0xff3a,0x0,0x0}},{0x10428,{0x10400,0x0,0x0}},
{0x10429,{0x10401,0x0,0x0}},{0x1042a,{0x10402,0x0,0x0}},{0x1042b,{0x10403,0x0,0x0}},{0x1042c,{0x10404,0x0,0x0}},{0x1042d,{0x10405,0x0,0x0}},{0x1042e,{0x10406,0x0,0x0}},
{0x1042f,{0x10407,0x0,0x0}},{0x10430,{0x10408,0x0,0x0}},{0x10431,{0x10409,0x0,0x0}},{0x10432,{0x1040a,0x0,0x0}},{0x10433,{0x1040b,0x0,0x0}},{0x10434,{0x1040c,0x0,0x0}},
{0x10435,{0x1040d,0x0,0x0}},{0x10436,{0x1040e,0x0,0x0}},{0x10437,{0x1040f,0x0,0x0}},{0x10438,{0x10410,0x0,0x0}},{0x10439,{0x10411,0x0,0x0}},{0x1043a,{0x10412,0x0,0x0}},
{0x1043b,{0x10413,0x0,0x0}},{0x1043c,{0x10414,0x0,0x0}},{0x1043d,{0x10415,0x0,0x0}},{0x1043e,{0x10416,0x0,0x0}},{0x1043f,{0x10417,0x0,0x0}},{0x10440,{0x10418,0x0,0x0}},
{0x10441,{0x10419,0x0,0x0}},{0x10442,{0x1041a,0x0,0x0}},{0x10443,{0x1041b,0x0,0x0}},{0x10444,{0x1041c,0x0,0x0}},{0x10445,{0x1041d,0x0,0x0}},{0x10446,{0x1041e,0x0,0x0}},
{0x10447,{0x1041f,0x0,0x0}},{0x10448,{0x10420,0x0,0x0}},{0x10449,{0x10421,0x0,0x0}},{0x1044a,{0x10422,0x0,0x0}},{0x1044b,{0x10423,0x0,0x0}},{0x1044c,{0x10424,0x0,0x0}},
{0x1044d,{0x10425,0x0,0x0}},{0x1044e,{0x10426,0x0,0x0}},{0x1044f,{0x10427,0x0,0x0}},{0x104d8,{0x104b0,0x0,0x0}},{0x104d9,{0x104b1,0x0,0x0}},{0x104da,{0x104b2,0x0,0x0}},
{0x104db,{0x104b3,0x0,0x0}},{0x104dc,{0x104b4,0x0,0x0}},{0x104dd,{0x104b5,0x0,0x0}},{0x104de,{0x104b6,0x0,0x0}},{0x104df,{0x104b7,0x0,0x0}},{0x104e0,{0x104b8,0x0,0x0}},
{0x104e1,{0x104b9,0x0,0x0}},{0x104e2,{0x104ba,0x0,0x0}},{0x104e3,{0x104bb,0x0,0x0}},{0x104e4,{0x104bc,0x0,0x0}},{0x104e5,{0x104bd,0x0,0x0}},{0x104e6,{0x104be,0x0,0x0}},
{0x104e7,{0x104bf,0x0,0x0}},{0x104e8,{0x104c0,0x0,0x0}},{0x104e9,{0x104c1,0x0,0x0}},{0x104ea,{0x104c2,0x0,0x0}},{0x104eb,{0x104c3,0x0,0x0}},{0x104ec,{0x104c4,0x0,0x0}},
{0x104ed,{0x104c5,0x0,0x0}},{0x104ee,{0x104c6,0x0,0x0}},{0x104ef,{0x104c7,0x0,0x0}},{0x104f0,{0x104c8,0x0,0x0}},{0x104f1,{0x104c9,0x0,0x0}},{0x104f2,{0x104ca,0x0,0x0}},
{0x104f3,{0x104cb,0x0,0x0}},{0x104f4,{0x104cc,0x0,0x0}},{0x104f5,{0x104cd,0x0,0x0}},{0x104f6,{0x104ce,0x0,0x0}},{0x104f7,{0x104cf,0x0,0x0}},{0x104f8,{0x104d0,0x0,0x0}},
{0x104f9,{0x104d1,0x0,0x0}},{0x104fa,{0x104d2,0x0,0x0}},{0x104fb,{0x104d3,0x0,0x0}},{0x10597,{0x10570,0x0,0x0}},{0x10598,{0x10571,0x0,0x0}},{0x10599,{0x10572,0x0,0x0}},
{0x1059a,{0x10573,0x0,0x0}},{0x1059b,{0x10574,0x0,0x0}},{0x1059c,{0x10575,0x0,0x0}},{0x1059d,{0x10576,0x0,0x0}},{0x1059e,{0x10577,0x0,0x0}},{0x1059f,{0x10578,0x0,0x0}},
{0x105a0,{0x10579,0x0,0x0}},{0x105a1,{0x1057a,0x0,0x0}},{0x105a3,{0x1057c,0x0,0x0}},{0x105a4,{0x1057d,0x0,0x0}},{0x105a5,{0x1057e,0x0,0x0}},{0x105a6,{0x1057f,0x0,0x0}},
{0x105a7,{0x10580,0x0,0x0}},{0x105a8,{0x10581,0x0,0x0}},{0x105a9,{0x10582,0x0,0x0}},{0x105aa,{0x10583,0x0,0x0}},{0x105ab,{0x10584,0x0,0x0}},{0x105ac,{0x10585,0x0,0x0}},
{0x105ad,{0x10586,0x0,0x0}},{0x105ae,{0x10587,0x0,0x0}},{0x105af,{0x10588,0x0,0x0}},{0x105b0,{0x10589,0x0,0x0}},{0x105b1,{0x1058a,0x0,0x0}},{0x105b3,{0x1058c,0x0,0x0}},
{0x105b4,{0x1058d,0x0,0x0}},{0x105b5,{0x1058e,0x0,0x0}},{0x105b6,{0x1058f,0x0,0x0}},{0x105b7,{0x10590,0x0,0x0}},{0x105b8,{0x10591,0x0,0x0}},{0x105b9,{0x10592,0x0,0x0}},
{0x105bb,{0x10594,0x0,0x0}},{0x105bc,{0x10595,0x0,0x0}},{0x10cc0,{0x10c80,0x0,0x0}},{0x10cc1,{0x10c81,0x0,0x0}},{0x10cc2,{0x10c82,0x0,0x0}},{0x10cc3,{0x10c83,0x0,0x0}},
{0x10cc4,{0x10c84,0x0,0x0}},{0x10cc5,{0x10c85,0x0,0x0}},{0x10cc6,{0x10c86,0x0,0x0}},{0x10cc7,{0x10c87,0x0,0x0}},{0x10cc8,{0x10c88,0x0,0x0}},{0x10cc9,{0x10c89,0x0,0x0}},
{0x10cca,{0x10c8a,0x0,0x0}},{0x10ccb,{0x10c8b,0x0,0x0}},{0x10ccc,{0x10c8c,0x0,0x0}},{0x10ccd,{0x10c8d,0x0,0x0}},{0x10cce,{0x10c8e,0x0,0x0}},{0x10ccf,{0x10c8f,0x0,0x0}},
{0x10cd0,{0x10c90,0x0,0x0}},{0x10cd1,{0x10c91,0x0,0x0}},{0x10cd2,{0x10c92,0x0,0x0}},{0x10cd3,{0x10c93,0x0,0x0}},{0x10cd4,{0x10c94,0x0,0x0}},{0x10cd5,{0x10c95,0x0,0x0}},
{0x10cd6,{0x10c96,0x0,0x0}},{0x10cd7,{0x10c97,0x0,0x0}},{0x10cd8,{0x10c98,0x0,0x0}},{0x10cd9,{0x10c99,0x0,0x0}},{0x10cda,{0x10c9a,0x0,0x0}},{0x10cdb,{0x10c9b,0x0,0x0}},
{0x10cdc,{0x10c9c,0x0,0x0}},{0x10cdd,{0x10c9d,0x0,0x0}},{0x10cde,{0x10c9e,0x0,0x0}},{0x10cdf,{0x10c9f,0x0,0x0}},{0x10ce0,{0x10ca0,0x0,0x0}},{0x10ce1,{0x10ca1,0x0,0x0}},
{0x10ce2,{0x10ca2,0x0,0x0}},{0x10ce3,{0x10ca3,0x0,0x0}},{0x10ce4,{0x10ca4,0x0,0x0}},{0x10ce5,{0x10ca5,0x0,0x0}},{0x10ce6,{0x10ca6,0x0,0x0}},{0x10ce7,{0x10ca7,0x0,0x0}},
{0x10ce8,{0x10ca8,0x0,0x0}},{0x10ce9,{0x10ca9,0x0,0x0}},{0x10cea,{0x10caa,0x0,0x0}},{0x10ceb,{0x10cab,0x0,0x0}},{0x10cec,{0x10cac,0x0,0x0}},{0x10ced,{0x10cad,0x0,0x0}},
{0x10cee,{0x10cae,0x0,0x0}},{0x10cef,{0x10caf,0x0,0x0}},{0x10cf0,{0x10cb0,0x0,0x0}},{0x10cf1,{0x10cb1,0x0,0x0}},{0x10cf2,{0x10cb2,0x0,0x0}},{0x118c0,{0x118a0,0x0,0x0}},
{0x118c1,{0x118a1,0x0,0x0}},{0x118c2,{0x118a2,0x0,0x0}},{0x118c3,{0x118a3,0x0,0x0}},{0x118c4,{0x118a4,0x0,0x0}},{0x118c5,{0x118a5,0x0,0x0}},{0x118c6,{0x118a6,0x0,0x0}},
{0x118c7,{0x118a7,0x0,0x0}},{0x118c8,{0x118a8,0x0,0x0}},{0x118c9,{0x118a9,0x0,0x0}},{0x118ca,{0x118aa,0x0,0x0}},{0x118cb,{0x118ab,0x0,0x0}},{0x118cc,{0x118ac,0x0,0x0}},
{0x118cd,{0x118ad,0x0,0x0}},{0x118ce,{0x118ae,0x0,0x0}},{0x118cf,{0x118af,0x0,0x0}},{0x118d0,{0x118b0,0x0,0x0}},{0x118d1,{0x118b1,0x0,0x0}},{0x118d2,{0x118b2,0x0,0x0}},
{0x118d3,{0x118b3,0x0,0x0}},{0x118d4,{0x118b4,0x0,0x0}},{0x118d5,{0x118b5,0x0,0x0}},{0x118d6,{0x118b6,0x0,0x0}},{0x118d7,{0x118b7,0x0,0x0}},{0x118d8,{0x118b8,0x0,0x0}},
{0x118d9,{0x118b9,0x0,0x0}},{0x118da,{0x118ba,0x0,0x0}},{0x118db,{0x118bb,0x0,0x0}},{0x118dc,{0x118bc,0x0,0x0}},{0x118dd,{0x118bd,0x0,0x0}},{0x118de,{0x118be,0x0,0x0}},
{0x118df,{0x118bf,0x0,0x0}},{0x16e60,{0x16e40,0x0,0x0}},{0x16e61,{0x16e41,0x0,0x0}},{0x16e62,{0x16e42,0x0,0x0}},{0x16e63,{0x16e43,0x0,0x0}},{0x16e64,{0x16e44,0x0,0x0}},
{0x16e65,{0x16e45,0x0,0x0}},{0x16e66,{0x16e46,0x0,0x0}},{0x16e67,{0x16e47,0x0,0x0}},{0x16e68,{0x16e48,0x0,0x0}},{0x16e69,{0x16e49,0x0,0x0}},{0x16e6a,{0x16e4a,0x0,0x0}},
{0x16e6b,{0x16e4b,0x0,0x0}},{0x16e6c,{0x16e4c,0x0,0x0}},{0x16e6d,{0x16e4d,0x0,0x0}},{0x16e6e,{0x16e4e,0x0,0x0}},{0x16e6f,{0x16e4f,0x0,0x0}},{0x16e70,{0x16e50,0x0,0x0}},
{0x16e71,{0x16e51,0x0,0x0}},{0x16e72,{0x16e52,0x0,0x0}},{0x16e73,{0x16e53,0x0,0x0}},{0x16e74,{0x16e54,0x0,0x0}},{0x16e75,{0x16e55,0x0,0x0}},{0x16e76,{0x16e56,0x0,0x0}},
{0x16e77,{0x16e57,0x0,0x0}},{0x16e78,{0x16e58,0x0,0x0}},{0x16e79,{0x16e59,0x0,0x0}},{0x16e7a,{0x16e5a,0x0,0x0}},{0x16e7b,{0x16e5b,0x0,0x0}},{0x16e7c,{0x16e5c,0x0,0x0}},
{0x16e7d,{0x16e5d,0x0,0x0}},{0x16e7e,{0x16e5e,0x0,0x0}},{0x16e7f,{0x16e5f,0x0,0x0}},{0x1e922,{0x1e900,0x0,0x0}},{0x1e923,{0x1e901,0x0,0x0}},{0x1e924,{0x1e902,0x0,0x0}},
{0x1e925,{0x1e903,0x0,0x0}},{0x1e926,{0x1e904,0x0,0x0}},{0x1e927,{0x1e905,0x0,0x0}},{0x1e928,{0x1e906,0x0,0x0}},{0x1e929,{0x1e907,0x0,0x0}},{0x1e92a,{0x1e908,0x0,0x0}},
{0x1e92b,{0x1e909,0x0,0x0}},{0x1e92c,{0x1e90a,0x0,0x0}},{0x1e92d,{0x1e90b,0x0,0x0}},{0x1e92e,{0x1e90c,0x0,0x0}},{0x1e92f,{0x1e90d,0x0,0x0}},{0x1e930,{0x1e90e,0x0,0x0}},
{0x1e931,{0x1e90f,0x0,0x0}},{0x1e932,{0x1e910,0x0,0x0}},{0x1e933,{0x1e911,0x0,0x0}},{0x1e934,{0x1e912,0x0,0x0}},{0x1e935,{0x1e913,0x0,0x0}},{0x1e936,{0x1e914,0x0,0x0}},
{0x1e937,{0x1e915,0x0,0x0}},{0x1e938,{0x1e916,0x0,0x0}},{0x1e939,{0x1e917,0x0,0x0}},{0x1e93a,{0x1e918,0x0,0x0}},{0x1e93b,{0x1e919,0x0,0x0}},{0x1e93c,{0x1e91a,0x0,0x0}},
{0x1e93d,{0x1e91b,0x0,0x0}},{0x1e93e,{0x1e91c,0x0,0x0}},{0x1e93f,{0x1e91d,0x0,0x0}},{0x1e940,{0x1e91e,0x0,0x0}},{0x1e941,{0x1e91f,0x0,0x0}},{0x1e942,{0x1e920,0x0,0x0}},
{0x1e943,{0x1e921,0x0,0x0}},
};
static const struct ref_map ref_title[] = {
{0x61,{0x41,0x0,0x0}},{0x62,{0x42,0x0,0x0}},{0x63,{0x43,0x0,0x0}},{0x64,{0x44,0x0,0x0}},{0x65,{0x45,0x0,0x0}},{0x66,{0x46,0x0,0x0}},
{0x67,{0x47,0x0,0x0}},{0x68,{0x48,0x0,0x0}},{0x69,{0x49,0x0,0x0}},{0x6a,{0x4a,0x0,0x0}},{0x6b,{0x4b,0x0,0x0}},{0x6c,{0x4c,0x0,0x0}},
{0x6d,{0x4d,0x0,0x0}},{0x6e,{0x4e,0x0,0x0}},{0x6f,{0x4f,0x0,0x0}},{0x70,{0x50,0x0,0x0}},{0x71,{0x51,0x0,0x0}},{0x72,{0x52,0x0,0x0}},
{0x73,{0x53,0x0,0x0}},{0x74,{0x54,0x0,0x0}},{0x75,{0x55,0x0,0x0}},{0x76,{0x56,0x0,0x0}},{0x77,{0x57,0x0,0x0}},{0x78,{0x58,0x0,0x0}},
{0x79,{0x59,0x0,0x0}},{0x7a,{0x5a,0x0,0x0}},{0xb5,{0x39c,0x0,0x0}},{0xdf,{0x53,0x73,0x0}},{0xe0,{0xc0,0x0,0x0}},{0xe1,{0xc1,0x0,0x0}},
{0xe2,{0xc2,0x0,0x0}},{0xe3,{0xc3,0x0,0x0}},{0xe4,{0xc4,0x0,0x0}},{0xe5,{0xc5,0x0,0x0}},{0xe6,{0xc6,0x0,0x0}},{0xe7,{0xc7,0x0,0x0}},
{0xe8,{0xc8,0x0,0x0}},{0xe9,{0xc9,0x0,0x0}},{0xea,{0xca,0x0,0x0}},{0xeb,{0xcb,0x0,0x0}},{0xec,{0xcc,0x0,0x0}},{0xed,{0xcd,0x0,0x0}},
{0xee,{0xce,0x0,0x0}},{0xef,{0xcf,0x0,0x0}},{0xf0,{0xd0,0x0,0x0}},{0xf1,{0xd1,0x0,0x0}},{0xf2,{0xd2,0x0,0x0}},{0xf3,{0xd3,0x0,0x0}},
{0xf4,{0xd4,0x0,0x0}},{0xf5,{0xd5,0x0,0x0}},{0xf6,{0xd6,0x0,0x0}},{0xf8,{0xd8,0x0,0x0}},{0xf9,{0xd9,0x0,0x0}},{0xfa,{0xda,0x0,0x0}},
{0xfb,{0xdb,0x0,0x0}},{0xfc,{0xdc,0x0,0x0}},{0xfd,{0xdd,0x0,0x0}},{0xfe,{0xde,0x0,0x0}},{0xff,{0x178,0x0,0x0}},{0x101,{0x100,0x0,0x0}},
{0x103,{0x102,0x0,0x0}},{0x105,{0x104,0x0,0x0}},{0x107,{0x106,0x0,0x0}},{0x109,{0x108,0x0,0x0}},{0x10b,{0x10a,0x0,0x0}},{0x10d,{0x10c,0x0,0x0}},
{0x10f,{0x10e,0x0,0x0}},{0x111,{0x110,0x0,0x0}},{0x113,{0x112,0x0,0x0}},{0x115,{0x114,0x0,0x0}},{0x117,{0x116,0x0,0x0}},{0x119,{0x118,0x0,0x0}},
{0x11b,{0x11a,0x0,0x0}},{0x11d,{0x11c,0x0,0x0}},{0x11f,{0x11e,0x0,0x0}},{0x121,{0x120,0x0,0x0}},{0x123,{0x122,0x0,0x0}},{0x125,{0x124,0x0,0x0}},
{0x127,{0x126,0x0,0x0}},{0x129,{0x128,0x0,0x0}},{0x12b,{0x12a,0x0,0x0}},{0x12d,{0x12c,0x0,0x0}},{0x12f,{0x12e,0x0,0x0}},{0x131,{0x49,0x0,0x0}},
{0x133,{0x132,0x0,0x0}},{0x135,{0x134,0x0,0x0}},{0x137,{0x136,0x0,0x0}},{0x13a,{0x139,0x0,0x0}},{0x13c,{0x13b,0x0,0x0}},{0x13e,{0x13d,0x0,0x0}},
{0x140,{0x13f,0x0,0x0}},{0x142,{0x141,0x0,0x0}},{0x144,{0x143,0x0,0x0}},{0x146,{0x145,0x0,0x0}},{0x148,{0x147,0x0,0x0}},{0x149,{0x2bc,0x4e,0x0}},
{0x14b,{0x14a,0x0,0x0}},{0x14d,{0x14c,0x0,0x0}},{0x14f,{0x14e,0x0,0x0}},{0x151,{0x150,0x0,0x0}},{0x153,{0x152,0x0,0x0}},{0x155,{0x154,0x0,0x0}},
{0x157,{0x156,0x0,0x0}},{0x159,{0x158,0x0,0x0}},{0x15b,{0x15a,0x0,0x0}},{0x15d,{0x15c,0x0,0x0}},{0x15f,{0x15e,0x0,0x0}},{0x161,{0x160,0x0,0x0}},
{0x163,{0x162,0x0,0x0}},{0x165,{0x164,0x0,0x0}},{0x167,{0x166,0x0,0x0}},{0x169,{0x168,0x0,0x0}},{0x16b,{0x16a,0x0,0x0}},{0x16d,{0x16c,0x0,0x0}},
{0x16f,{0x16e,0x0,0x0}},{0x171,{0x170,0x0,0x0}},{0x173,{0x172,0x0,0x0}},{0x175,{0x174,0x0,0x0}},{0x177,{0x176,0x0,0x0}},{0x17a,{0x179,0x0,0x0}},
{0x17c,{0x17b,0x0,0x0}},{0x17e,{0x17d,0x0,0x0}},{0x17f,{0x53,0x0,0x0}},{0x180,{0x243,0x0,0x0}},{0x183,{0x182,0x0,0x0}},{0x185,{0x184,0x0,0x0}},
{0x188,{0x187,0x0,0x0}},{0x18c,{0x18b,0x0,0x0}},{0x192,{0x191,0x0,0x0}},{0x195,{0x1f6,0x0,0x0}},{0x199,{0x198,0x0,0x0}},{0x19a,{0x23d,0x0,0x0}},
{0x19e,{0x220,0x0,0x0}},{0x1a1,{0x1a0,0x0,0x0}},{0x1a3,{0x1a2,0x0,0x0}},{0x1a5,{0x1a4,0x0,0x0}},{0x1a8,{0x1a7,0x0,0x0}},{0x1ad,{0x1ac,0x0,0x0}},
{0x1b0,{0x1af,0x0,0x0}},{0x1b4,{0x1b3,0x0,0x0}},{0x1b6,{0x1b5,0x0,0x0}},{0x1b9,{0x1b8,0x0,0x0}},{0x1bd,{0x1bc,0x0,0x0}},{0x1bf,{0x1f7,0x0,0x0}},
{0x1c4,{0x1c5,0x0,0x0}},{0x1c6,{0x1c5,0x0,0x0}},{0x1c7,{0x1c8,0x0,0x0}},{0x1c9,{0x1c8,0x0,0x0}},{0x1ca,{0x1cb,0x0,0x0}},{0x1cc,{0x1cb,0x0,0x0}},
{0x1ce,{0x1cd,0x0,0x0}},{0x1d0,{0x1cf,0x0,0x0}},{0x1d2,{0x1d1,0x0,0x0}},{0x1d4,{0x1d3,0x0,0x0}},{0x1d6,{0x1d5,0x0,0x0}},{0x1d8,{0x1d7,0x0,0x0}},
{0x1da,{0x1d9,0x0,0x0}},{0x1dc,{0x1db,0x0,0x0}},{0x1dd,{0x18e,0x0,0x0}},{0x1df,{0x1de,0x0,0x0}},{0x1e1,{0x1e0,0x0,0x0}},{0x1e3,{0x1e2,0x0,0x0}},
{0x1e5,{0x1e4,0x0,0x0}},{0x1e7,{0x1e6,0x0,0x0}},{0x1e9,{0x1e8,0x0,0x0}},{0x1eb,{0x1ea,0x0,0x0}},{0x1ed,{0x1ec,0x0,0x0}},{0x1ef,{0x1ee,0x0,0x0}},
{0x1f0,{0x4a,0x30c,0x0}},{0x1f1,{0x1f2,0x0,0x0}},{0x1f3,{0x1f2,0x0,0x0}},{0x1f5,{0x1f4,0x0,0x0}},{0x1f9,{0x1f8,0x0,0x0}},{0x1fb,{0x1fa,0x0,0x0}},
{0x1fd,{0x1fc,0x0,0x0}},{0x1ff,{0x1fe,0x0,0x0}},{0x201,{0x200,0x0,0x0}},{0x203,{0x202,0x0,0x0}},{0x205,{0x204,0x0,0x0}},{0x207,{0x206,0x0,0x0}},
{0x209,{0x208,0x0,0x0}},{0x20b,{0x20a,0x0,0x0}},{0x20d,{0x20c,0x0,0x0}},{0x20f,{0x20e,0x0,0x0}},{0x211,{0x210,0x0,0x0}},{0x213,{0x212,0x0,0x0}},
{0x215,{0x214,0x0,0x0}},{0x217,{0x216,0x0,0x0}},{0x219,{0x218,0x0,0x0}},{0x21b,{0x21a,0x0,0x0}},{0x21d,{0x21c,0x0,0x0}},{0x21f,{0x21e,0x0,0x0}},
{0x223,{0x222,0x0,0x0}},{0x225,{0x224,0x0,0x0}},{0x227,{0x226,0x0,0x0}},{0x229,{0x228,0x0,0x0}},{0x22b,{0x22a,0x0,0x0}},{0x22d,{0x22c,0x0,0x0}},
{0x22f,{0x22e,0x0,0x0}},{0x231,{0x230,0x0,0x0}},{0x233,{0x232,0x0,0x0}},{0x23c,{0x23b,0x0,0x0}},{0x23f,{0x2c7e,0x0,0x0}},{0x240,{0x2c7f,0x0,0x0}},
{0x242,{0x241,0x0,0x0}},{0x247,{0x246,0x0,0x0}},{0x249,{0x248,0x0,0x0}},{0x24b,{0x24a,0x0,0x0}},{0x24d,{0x24c,0x0,0x0}},{0x24f,{0x24e,0x0,0x0}},
{0x250,{0x2c6f,0x0,0x0}},{0x251,{0x2c6d,0x0,0x0}},{0x252,{0x2c70,0x0,0x0}},{0x253,{0x181,0x0,0x0}},{0x254,{0x186,0x0,0x0}},{0x256,{0x189,0x0,0x0}},
{0x257,{0x18a,0x0,0x0}},{0x259,{0x18f,0x0,0x0}},{0x25b,{0x190,0x0,0x0}},{0x25c,{0xa7ab,0x0,0x0}},{0x260,{0x193,0x0,0x0}},{0x261,{0xa7ac,0x0,0x0}},
{0x263,{0x194,0x0,0x0}},{0x265,{0xa78d,0x0,0x0}},{0x266,{0xa7aa,0x0,0x0}},{0x268,{0x197,0x0,0x0}},{0x269,{0x196,0x0,0x0}},{0x26a,{0xa7ae,0x0,0x0}},
{0x26b,{0x2c62,0x0,0x0}},{0x26c,{0xa7ad,0x0,0x0}},{0x26f,{0x19c,0x0,0x0}},{0x271,{0x2c6e,0x0,0x0}},{0x272,{0x19d,0x0,0x0}},{0x275,{0x19f,0x0,0x0}},
{0x27d,{0x2c64,0x0,0x0}},{0x280,{0x1a6,0x0,0x0}},{0x282,{0xa7c5,0x0,0x0}},{0x283,{0x1a9,0x0,0x0}},{0x287,{0xa7b1,0x0,0x0}},{0x288,{0x1ae,0x0,0x0}},
{0x289,{0x244,0x0,0x0}},{0x28a,{0x1b1,0x0,0x0}},{0x28b,{0x1b2,0x0,0x0}},{0x28c,{0x245,0x0,0x0}},{0x292,{0x1b7,0x0,0x0}},{0x29d,{0xa7b2,0x0,0x0}},
{0x29e,{0xa7b0,0x0,0x0}},{0x345,{0x399,0x0,0x0}},{0x371,{0x370,0x0,0x0}},{0x373,{0x372,0x0,0x0}},{0x377,{0x376,0x0,0x0}},{0x37b,{0x3fd,0x0,0x0}},
{0x37c,{0x3fe,0x0,0x0}},{0x37d,{0x3ff,0x0,0x0}},{0x390,{0x399,0x308,0x301}},{0x3ac,{0x386,0x0,0x0}},{0x3ad,{0x388,0x0,0x0}},{0x3ae,{0x389,0x0,0x0}},
{0x3af,{0x38a,0x0,0x0}},{0x3b0,{0x3a5,0x308,0x301}},{0x3b1,{0x391,0x0,0x0}},{0x3b2,{0x392,0x0,0x0}},{0x3b3,{0x393,0x0,0x0}},{0x3b4,{0x394,0x0,0x0}},
{0x3b5,{0x395,0x0,0x0}},{0x3b6,{0x396,0x0,0x0}},{0x3b7,{0x397,0x0,0x0}},{0x3b8,{0x398,0x0,0x0}},{0x3b9,{0x399,0x0,0x0}},{0x3ba,{0x39a,0x0,0x0}},
{0x3bb,{0x39b,0x0,0x0}},{0x3bc,{0x39c,0x0,0x0}},{0x3bd,{0x39d,0x0,0x0}},{0x3be,{0x39e,0x0,0x0}},{0x3bf,{0x39f,0x0,0x0}},{0x3c0,{0x3a0,0x0,0x0}},
{0x3c1,{0x3a1,0x0,0x0}},{0x3c2,{0x3a3,0x0,0x0}},{0x3c3,{0x3a3,0x0,0x0}},{0x3c4,{0x3a4,0x0,0x0}},{0x3c5,{0x3a5,0x0,0x0}},{0x3c6,{0x3a6,0x0,0x0}},
{0x3c7,{0x3a7,0x0,0x0}},{0x3c8,{0x3a8,0x0,0x0}},{0x3c9,{0x3a9,0x0,0x0}},{0x3ca,{0x3aa,0x0,0x0}},{0x3cb,{0x3ab,0x0,0x0}},{0x3cc,{0x38c,0x0,0x0}},
{0x3cd,{0x38e,0x0,0x0}},{0x3ce,{0x38f,0x0,0x0}},{0x3d0,{0x392,0x0,0x0}},{0x3d1,{0x398,0x0,0x0}},{0x3d5,{0x3a6,0x0,0x0}},{0x3d6,{0x3a0,0x0,0x0}},
{0x3d7,{0x3cf,0x0,0x0}},{0x3d9,{0x3d8,0x0,0x0}},{0x3db,{0x3da,0x0,0x0}},{0x3dd,{0x3dc,0x0,0x0}},{0x3df,{0x3de,0x0,0x0}},{0x3e1,{0x3e0,0x0,0x0}},
{0x3e3,{0x3e2,0x0,0x0}},{0x3e5,{0x3e4,0x0,0x0}},{0x3e7,{0x3e6,0x0,0x0}},{0x3e9,{0x3e8,0x0,0x0}},{0x3eb,{0x3ea,0x0,0x0}},{0x3ed,{0x3ec,0x0,0x0}},
{0x3ef,{0x3ee,0x0,0x0}},{0x3f0,{0x39a,0x0,0x0}},{0x3f1,{0x3a1,0x0,0x0}},{0x3f2,{0x3f9,0x0,0x0}},{0x3f3,{0x37f,0x0,0x0}},{0x3f5,{0x395,0x0,0x0}},
{0x3f8,{0x3f7,0x0,0x0}},{0x3fb,{0x3fa,0x0,0x0}},{0x430,{0x410,0x0,0x0}},{0x431,{0x411,0x0,0x0}},{0x432,{0x412,0x0,0x0}},{0x433,{0x413,0x0,0x0}},
{0x434,{0x414,0x0,0x0}},{0x435,{0x415,0x0,0x0}},{0x436,{0x416,0x0,0x0}},{0x437,{0x417,0x0,0x0}},{0x438,{0x418,0x0,0x0}},{0x439,{0x419,0x0,0x0}},
{0x43a,{0x41a,0x0,0x0}},{0x43b,{0x41b,0x0,0x0}},{0x43c,{0x41c,0x0,0x0}},{0x43d,{0x41d,0x0,0x0}},{0x43e,{0x41e,0x0,0x0}},{0x43f,{0x41f,0x0,0x0}},
{0x440,{0x420,0x0,0x0}},{0x441,{0x421,0x0,0x0}},{0x442,{0x422,0x0,0x0}},{0x443,{0x423,0x0,0x0}},{0x444,{0x424,0x0,0x0}},{0x445,{0x425,0x0,0x0}},
{0x446,{0x426,0x0,0x0}},{0x447,{0x427,0x0,0x0}},{0x448,{0x428,0x0,0x0}},{0x449,{0x429,0x0,0x0}},{0x44a,{0x42a,0x0,0x0}},{0x44b,{0x42b,0x0,0x0}},
{0x44c,{0x42c,0x0,0x0}},{0x44d,{0x42d,0x0,0x0}},{0x44e,{0x42e,0x0,0x0}},{0x44f,{0x42f,0x0,0x0}},{0x450,{0x400,0x0,0x0}},{0x451,{0x401,0x0,0x0}},
{0x452,{0x402,0x0,0x0}},{0x453,{0x403,0x0,0x0}},{0x454,{0x404,0x0,0x0}},{0x455,{0x405,0x0,0x0}},{0x456,{0x406,0x0,0x0}},{0x457,{0x407,0x0,0x0}},
{0x458,{0x408,0x0,0x0}},{0x459,{0x409,0x0,0x0}},{0x45a,{0x40a,0x0,0x0}},{0x45b,{0x40b,0x0,0x0}},{0x45c,{0x40c,0x0,0x0}},{0x45d,{0x40d,0x0,0x0}},
{0x45e,{0x40e,0x0,0x0}},{0x45f,{0x40f,0x0,0x0}},{0x461,{0x460,0x0,0x0}},{0x463,{0x462,0x0,0x0}},{0x465,{0x464,0x0,0x0}},{0x467,{0x466,0x0,0x0}},
{0x469,{0x468,0x0,0x0}},{0x46b,{0x46a,0x0,0x0}},{0x46d,{0x46c,0x0,0x0}},{0x46f,{0x46e,0x0,0x0}},{0x471,{0x470,0x0,0x0}},{0x473,{0x472,0x0,0x0}},
{0x475,{0x474,0x0,0x0}},{0x477,{0x476,0x0,0x0}},{0x479,{0x478,0x0,0x0}},{0x47b,{0x47a,0x0,0x0}},{0x47d,{0x47c,0x0,0x0}},{0x47f,{0x47e,0x0,0x0}},
{0x481,{0x480,0x0,0x0}},{0x48b,{0x48a,0x0,0x0}},{0x48d,{0x48c,0x0,0x0}},{0x48f,{0x48e,0x0,0x0}},{0x491,{0x490,0x0,0x0}},{0x493,{0x492,0x0,0x0}},
{0x495,{0x494,0x0,0x0}},{0x497,{0x496,0x0,0x0}},{0x499,{0x498,0x0,0x0}},{0x49b,{0x49a,0x0,0x0}},{0x49d,{0x49c,0x0,0x0}},{0x49f,{0x49e,0x0,0x0}},
{0x4a1,{0x4a0,0x0,0x0}},{0x4a3,{0x4a2,0x0,0x0}},{0x4a5,{0x4a4,0x0,0x0}},{0x4a7,{0x4a6,0x0,0x0}},{0x4a9,{0x4a8,0x0,0x0}},{0x4ab,{0x4aa,0x0,0x0}},
{0x4ad,{0x4ac,0x0,0x0}},{0x4af,{0x4ae,0x0,0x0}},{0x4b1,{0x4b0,0x0,0x0}},{0x4b3,{0x4b2,0x0,0x0}},{0x4b5,{0x4b4,0x0,0x0}},{0x4b7,{0x4b6,0x0,0x0}},
{0x4b9,{0x4b8,0x0,0x0}},{0x4bb,{0x4ba,0x0,0x0}},{0x4bd,{0x4bc,0x0,0x0}},{0x4bf,{0x4be,0x0,0x0}},{0x4c2,{0x4c1,0x0,0x0}},{0x4c4,{0x4c3,0x0,0x0}},
{0x4c6,{0x4c5,0x0,0x0}},{0x4c8,{0x4c7,0x0,0x0}},{0x4ca,{0x4c9,0x0,0x0}},{0x4cc,{0x4cb,0x0,0x0}},{0x4ce,{0x4cd,0x0,0x0}},{0x4cf,{0x4c0,0x0,0x0}},
{0x4d1,{0x4d0,0x0,0x0}},{0x4d3,{0x4d2,0x0,0x0}},{0x4d5,{0x4d4,0x0,0x0}},{0x4d7,{0x4d6,0x0,0x0}},{0x4d9,{0x4d8,0x0,0x0}},{0x4db,{0x4da,0x0,0x0}},
{0x4dd,{0x4dc,0x0,0x0}},{0x4df,{0x4de,0x0,0x0}},{0x4e1,{0x4e0,0x0,0x0}},{0x4e3,{0x4e2,0x0,0x0}},{0x4e5,{0x4e4,0x0,0x0}},{0x4e7,{0x4e6,0x0,0x0}},
{0x4e9,{0x4e8,0x0,0x0}},{0x4eb,{0x4ea,0x0,0x0}},{0x4ed,{0x4ec,0x0,0x0}},{0x4ef,{0x4ee,0x0,0x0}},{0x4f1,{0x4f0,0x0,0x0}},{0x4f3,{0x4f2,0x0,0x0}},
{0x4f5,{0x4f4,0x0,0x0}},{0x4f7,{0x4f6,0x0,0x0}},{0x4f9,{0x4f8,0x0,0x0}},{0x4fb,{0x4fa,0x0,0x0}},{0x4fd,{0x4fc,0x0,0x0}},{0x4ff,{0x4fe,0x0,0x0}},
{0x501,{0x500,0x0,0x0}},{0x503,{0x502,0x0,0x0}},{0x505,{0x504,0x0,0x0}},{0x507,{0x506,0x0,0x0}},{0x509,{0x508,0x0,0x0}},{0x50b,{0x50a,0x0,0x0}},
{0x50d,{0x50c,0x0,0x0}},{0x50f,{0x50e,0x0,0x0}},{0x511,{0x510,0x0,0x0}},{0x513,{0x512,0x0,0x0}},{0x515,{0x514,0x0,0x0}},{0x517,{0x516,0x0,0x0}},
{0x519,{0x518,0x0,0x0}},{0x51b,{0x51a,0x0,0x0}},{0x51d,{0x51c,0x0,0x0}},{0x51f,{0x51e,0x0,0x0}},{0x521,{0x520,0x0,0x0}},{0x523,{0x522,0x0,0x0}},
{0x525,{0x524,0x0,0x0}},{0x527,{0x526,0x0,0x0}},{0x529,{0x528,0x0,0x0}},{0x52b,{0x52a,0x0,0x0}},{0x52d,{0x52c,0x0,0x0}},{0x52f,{0x52e,0x0,0x0}},
{0x561,{0x531,0x0,0x0}},{0x562,{0x532,0x0,0x0}},{0x563,{0x533,0x0,0x0}},{0x564,{0x534,0x0,0x0}},{0x565,{0x535,0x0,0x0}},{0x566,{0x536,0x0,0x0}},
{0x567,{0x537,0x0,0x0}},{0x568,{0x538,0x0,0x0}},{0x569,{0x539,0x0,0x0}},{0x56a,{0x53a,0x0,0x0}},{0x56b,{0x53b,0x0,0x0}},{0x56c,{0x53c,0x0,0x0}},
{0x56d,{0x53d,0x0,0x0}},{0x56e,{0x53e,0x0,0x0}},{0x56f,{0x53f,0x0,0x0}},{0x570,{0x540,0x0,0x0}},{0x571,{0x541,0x0,0x0}},{0x572,{0x542,0x0,0x0}},
{0x573,{0x543,0x0,0x0}},{0x574,{0x544,0x0,0x0}},{0x575,{0x545,0x0,0x0}},{0x576,{0x546,0x0,0x0}},{0x577,{0x547,0x0,0x0}},{0x578,{0x548,0x0,0x0}},
{0x579,{0x549,0x0,0x0}},{0x57a,{0x54a,0x0,0x0}},{0x57b,{0x54b,0x0,0x0}},{0x57c,{0x54c,0x0,0x0}},{0x57d,{0x54d,0x0,0x0}},{0x57e,{0x54e,0x0,0x0}},
{0x57f,{0x54f,0x0,0x0}},{0x580,{0x550,0x0,0x0}},{0x581,{0x551,0x0,0x0}},{0x582,{0x552,0x0,0x0}},{0x583,{0x553,0x0,0x0}},{0x584,{0x554,0x0,0x0}},
{0x585,{0x555,0x0,0x0}},{0x586,{0x556,0x0,0x0}},{0x587,{0x535,0x582,0x0}},{0x13f8,{0x13f0,0x0,0x0}},{0x13f9,{0x13f1,0x0,0x0}},{0x13fa,{0x13f2,0x0,0x0}},
{0x13fb,{0x13f3,0x0,0x0}},{0x13fc,{0x13f4,0x0,0x0}},{0x13fd,{0x13f5,0x0,0x0}},{0x1c80,{0x412,0x0,0x0}},{0x1c81,{0x414,0x0,0x0}},{0x1c82,{0x41e,0x0,0x0}},
{0x1c83,{0x421,0x0,0x0}},{0x1c84,{0x422,0x0,0x0}},{0x1c85,{0x422,0x0,0x0}},{0x1c86,{0x42a,0x0,0x0}},{0x1c87,{0x462,0x0,0x0}},{0x1c88,{0xa64a,0x0,0x0}},
{0x1d79,{0xa77d,0x0,0x0}},{0x1d7d,{0x2c63,0x0,0x0}},{0x1d8e,{0xa7c6,0x0,0x0}},{0x1e01,{0x1e00,0x0,0x0}},{0x1e03,{0x1e02,0x0,0x0}},{0x1e05,{0x1e04,0x0,0x0}},
{0x1e07,{0x1e06,0x0,0x0}},{0x1e09,{0x1e08,0x0,0x0}},{0x1e0b,{0x1e0a,0x0,0x0}},{0x1e0d,{0x1e0c,0x0,0x0}},{0x1e0f,{0x1e0e,0x0,0x0}},{0x1e11,{0x1e10,0x0,0x0}},
{0x1e13,{0x1e12,0x0,0x0}},{0x1e15,{0x1e14,0x0,0x0}},{0x1e17,{0x1e16,0x0,0x0}},{0x1e19,{0x1e18,0x0,0x0}},{0x1e1b,{0x1e1a,0x0,0x0}},{0x1e1d,{0x1e1c,0x0,0x0}},
{0x1e1f,{0x1e1e,0x0,0x0}},{0x1e21,{0x1e20,0x0,0x0}},{0x1e23,{0x1e22,0x0,0x0}},{0x1e25,{0x1e24,0x0,0x0}},{0x1e27,{0x1e26,0x0,0x0}},{0x1e29,{0x1e28,0x0,0x0}},
{0x1e2b,{0x1e2a,0x0,0x0}},{0x1e2d,{0x1e2c,0x0,0x0}},{0x1e2f,{0x1e2e,0x0,0x0}},{0x1e31,{0x1e30,0x0,0x0}},{0x1e33,{0x1e32,0x0,0x0}},{0x1e35,{0x1e34,0x0,0x0}},
{0x1e37,{0x1e36,0x0,0x0}},{0x1e39,{0x1e38,0x0,0x0}},{0x1e3b,{0x1e3a,0x0,0x0}},{0x1e3d,{0x1e3c,0x0,0x0}},{0x1e3f,{0x1e3e,0x0,0x0}},{0x1e41,{0x1e40,0x0,0x0}},
{0x1e43,{0x1e42,0x0,0x0}},{0x1e45,{0x1e44,0x0,0x0}},{0x1e47,{0x1e46,0x0,0x0}},{0x1e49,{0x1e48,0x0,0x0}},{0x1e4b,{0x1e4a,0x0,0x0}},{0x1e4d,{0x1e4c,0x0,0x0}},
{0x1e4f,{0x1e4e,0x0,0x0}},{0x1e51,{0x1e50,0x0,0x0}},{0x1e53,{0x1e52,0x0,0x0}},{0x1e55,{0x1e54,0x0,0x0}},{0x1e57,{0x1e56,0x0,0x0}},{0x1e59,{0x1e58,0x0,0x0}},
{0x1e5b,{0x1e5a,0x0,0x0}},{0x1e5d,{0x1e5c,0x0,0x0}},{0x1e5f,{0x1e5e,0x0,0x0}},{0x1e61,{0x1e60,0x0,0x0}},{0x1e63,{0x1e62,0x0,0x0}},{0x1e65,{0x1e64,0x0,0x0}},
{0x1e67,{0x1e66,0x0,0x0}},{0x1e69,{0x1e68,0x0,0x0}},{0x1e6b,{0x1e6a,0x0,0x0}},{0x1e6d,{0x1e6c,0x0,0x0}},{0x1e6f,{0x1e6e,0x0,0x0}},{0x1e71,{0x1e70,0x0,0x0}},
{0x1e73,{0x1e72,0x0,0x0}},{0x1e75,{0x1e74,0x0,0x0}},{0x1e77,{0x1e76,0x0,0x0}},{0x1e79,{0x1e78,0x0,0x0}},{0x1e7b,{0x1e7a,0x0,0x0}},{0x1e7d,{0x1e7c,0x0,0x0}},
{0x1e7f,{0x1e7e,0x0,0x0}},{0x1e81,{0x1e80,0x0,0x0}},{0x1e83,{0x1e82,0x0,0x0}},{0x1e85,{0x1e84,0x0,0x0}},{0x1e87,{0x1e86,0x0,0x0}},{0x1e89,{0x1e88,0x0,0x0}},
{0x1e8b,{0x1e8a,0x0,0x0}},{0x1e8d,{0x1e8c,0x0,0x0}},{0x1e8f,{0x1e8e,0x0,0x0}},{0x1e91,{0x1e90,0x0,0x0}},{0x1e93,{0x1e92,0x0,0x0}},{0x1e95,{0x1e94,0x0,0x0}},
{0x1e96,{0x48,0x331,0x0}},{0x1e97,{0x54,0x308,0x0}},{0x1e98,{0x57,0x30a,0x0}},{0x1e99,{0x59,0x30a,0x0}},{0x1e9a,{0x41,0x2be,0x0}},{0x1e9b,{0x1e60,0x0,0x0}},
{0x1ea1,{0x1ea0,0x0,0x0}},{0x1ea3,{0x1ea2,0x0,0x0}},{0x1ea5,{0x1ea4,0x0,0x0}},{0x1ea7,{0x1ea6,0x0,0x0}},{0x1ea9,{0x1ea8,0x0,0x0}},{0x1eab,{0x1eaa,0x0,0x0}},
{0x1ead,{0x1eac,0x0,0x0}},{0x1eaf,{0x1eae,0x0,0x0}},{0x1eb1,{0x1eb0,0x0,0x0}},{0x1eb3,{0x1eb2,0x0,0x0}},{0x1eb5,{0x1eb4,0x0,0x0}},{0x1eb7,{0x1eb6,0x0,0x0}},
{0x1eb9,{0x1eb8,0x0,0x0}},{0x1ebb,{0x1eba,0x0,0x0}},{0x1ebd,{0x1ebc,0x0,0x0}},{0x1ebf,{0x1ebe,0x0,0x0}},{0x1ec1,{0x1ec0,0x0,0x0}},{0x1ec3,{0x1ec2,0x0,0x0}},
{0x1ec5,{0x1ec4,0x0,0x0}},{0x1ec7,{0x1ec6,0x0,0x0}},{0x1ec9,{0x1ec8,0x0,0x0}},{0x1ecb,{0x1eca,0x0,0x0}},{0x1ecd,{0x1ecc,0x0,0x0}},{0x1ecf,{0x1ece,0x0,0x0}},
{0x1ed1,{0x1ed0,0x0,0x0}},{0x1ed3,{0x1ed2,0x0,0x0}},{0x1ed5,{0x1ed4,0x0,0x0}},{0x1ed7,{0x1ed6,0x0,0x0}},{0x1ed9,{0x1ed8,0x0,0x0}},{0x1edb,{0x1eda,0x0,0x0}},
{0x1edd,{0x1edc,0x0,0x0}},{0x1edf,{0x1ede,0x0,0x0}},{0x1ee1,{0x1ee0,0x0,0x0}},{0x1ee3,{0x1ee2,0x0,0x0}},{0x1ee5,{0x1ee4,0x0,0x0}},{0x1ee7,{0x1ee6,0x0,0x0}},
{0x1ee9,{0x1ee8,0x0,0x0}},{0x1eeb,{0x1eea,0x0,0x0}},{0x1eed,{0x1eec,0x0,0x0}},{0x1eef,{0x1eee,0x0,0x0}},{0x1ef1,{0x1ef0,0x0,0x0}},{0x1ef3,{0x1ef2,0x0,0x0}},
{0x1ef5,{0x1ef4,0x0,0x0}},{0x1ef7,{0x1ef6,0x0,0x0}},{0x1ef9,{0x1ef8,0x0,0x0}},{0x1efb,{0x1efa,0x0,0x0}},{0x1efd,{0x1efc,0x0,0x0}},{0x1eff,{0x1efe,0x0,0x0}},
{0x1f00,{0x1f08,0x0,0x0}},{0x1f01,{0x1f09,0x0,0x0}},{0x1f02,{0x1f0a,0x0,0x0}},{0x1f03,{0x1f0b,0x0,0x0}},{0x1f04,{0x1f0c,0x0,0x0}},{0x1f05,{0x1f0d,0x0,0x0}},
{0x1f06,{0x1f0e,0x0,0x0}},{0x1f07,{0x1f0f,0x0,0x0}},{0x1f10,{0x1f18,0x0,0x0}},{0x1f11,{0x1f19,0x0,0x0}},{0x1f12,{0x1f1a,0x0,0x0}},{0x1f13,{0x1f1b,0x0,0x0}},
{0x1f14,{0x1f1c,0x0,0x0}},{0x1f15,{0x1f1d,0x0,0x0}},{0x1f20,{0x1f28,0x0,0x0}},{0x1f21,{0x1f29,0x0,0x0}},{0x1f22,{0x1f2a,0x0,0x0}},{0x1f23,{0x1f2b,0x0,0x0}},
{0x1f24,{0x1f2c,0x0,0x0}},{0x1f25,{0x1f2d,0x0,0x0}},{0x1f26,{0x1f2e,0x0,0x0}},{0x1f27,{0x1f2f,0x0,0x0}},{0x1f30,{0x1f38,0x0,0x0}},{0x1f31,{0x1f39,0x0,0x0}},
{0x1f32,{0x1f3a,0x0,0x0}},{0x1f33,{0x1f3b,0x0,0x0}},{0x1f34,{0x1f3c,0x0,0x0}},{0x1f35,{0x1f3d,0x0,0x0}},{0x1f36,{0x1f3e,0x0,0x0}},{0x1f37,{0x1f3f,0x0,0x0}},
{0x1f40,{0x1f48,0x0,0x0}},{0x1f41,{0x1f49,0x0,0x0}},{0x1f42,{0x1f4a,0x0,0x0}},{0x1f43,{0x1f4b,0x0,0x0}},{0x1f44,{0x1f4c,0x0,0x0}},{0x1f45,{0x1f4d,0x0,0x0}},
{0x1f50,{0x3a5,0x313,0x0}},{0x1f51,{0x1f59,0x0,0x0}},{0x1f52,{0x3a5,0x313,0x300}},{0x1f53,{0x1f5b,0x0,0x0}},{0x1f54,{0x3a5,0x313,0x301}},{0x1f55,{0x1f5d,0x0,0x0}},
{0x1f56,{0x3a5,0x313,0x342}},{0x1f57,{0x1f5f,0x0,0x0}},{0x1f60,{0x1f68,0x0,0x0}},{0x1f61,{0x1f69,0x0,0x0}},{0x1f62,{0x1f6a,0x0,0x0}},{0x1f63,{0x1f6b,0x0,0x0}},
{0x1f64,{0x1f6c,0x0,0x0}},{0x1f65,{0x1f6d,0x0,0x0}},{0x1f66,{0x1f6e,0x0,0x0}},{0x1f67,{0x1f6f,0x0,0x0}},{0x1f70,{0x1fba,0x0,0x0}},{0x1f71,{0x1fbb,0x0,0x0}},
{0x1f72,{0x1fc8,0x0,0x0}},{0x1f73,{0x1fc9,0x0,0x0}},{0x1f74,{0x1fca,0x0,0x0}},{0x1f75,{0x1fcb,0x0,0x0}},{0x1f76,{0x1fda,0x0,0x0}},{0x1f77,{0x1fdb,0x0,0x0}},
{0x1f78,{0x1ff8,0x0,0x0}},{0x1f79,{0x1ff9,0x0,0x0}},{0x1f7a,{0x1fea,0x0,0x0}},{0x1f7b,{0x1feb,0x0,0x0}},{0x1f7c,{0x1ffa,0x0,0x0}},{0x1f7d,{0x1ffb,0x0,0x0}},
{0x1f80,{0x1f88,0x0,0x0}},{0x1f81,{0x1f89,0x0,0x0}},{0x1f82,{0x1f8a,0x0,0x0}},{0x1f83,{0x1f8b,0x0,0x0}},{0x1f84,{0x1f8c,0x0,0x0}},{0x1f85,{0x1f8d,0x0,0x0}},
{0x1f86,{0x1f8e,0x0,0x0}},{0x1f87,{0x1f8f,0x0,0x0}},{0x1f90,{0x1f98,0x0,0x0}},{0x1f91,{0x1f99,0x0,0x0}},{0x1f92,{0x1f9a,0x0,0x0}},{0x1f93,{0x1f9b,0x0,0x0}},
{0x1f94,{0x1f9c,0x0,0x0}},{0x1f95,{0x1f9d,0x0,0x0}},{0x1f96,{0x1f9e,0x0,0x0}},{0x1f97,{0x1f9f,0x0,0x0}},{0x1fa0,{0x1fa8,0x0,0x0}},{0x1fa1,{0x1fa9,0x0,0x0}},
{0x1fa2,{0x1faa,0x0,0x0}},{0x1fa3,{0x1fab,0x0,0x0}},{0x1fa4,{0x1fac,0x0,0x0}},{0x1fa5,{0x1fad,0x0,0x0}},{0x1fa6,{0x1fae,0x0,0x0}},{0x1fa7,{0x1faf,0x0,0x0}},
{0x1fb0,{0x1fb8,0x0,0x0}},{0x1fb1,{0x1fb9,0x0,0x0}},{0x1fb2,{0x1fba,0x345,0x0}},{0x1fb3,{0x1fbc,0x0,0x0}},{0x1fb4,{0x386,0x345,0x0}},{0x1fb6,{0x391,0x342,0x0}},
{0x1fb7,{0x391,0x342,0x345}},{0x1fbe,{0x399,0x0,0x0}},{0x1fc2,{0x1fca,0x345,0x0}},{0x1fc3,{0x1fcc,0x0,0x0}},{0x1fc4,{0x389,0x345,0x0}},{0x1fc6,{0x397,0x342,0x0}},
{0x1fc7,{0x397,0x342,0x345}},{0x1fd0,{0x1fd8,0x0,0x0}},{0x1fd1,{0x1fd9,0x0,0x0}},{0x1fd2,{0x399,0x308,0x300}},{0x1fd3,{0x399,0x308,0x301}},{0x1fd6,{0x399,0x342,0x0}},
{0x1fd7,{0x399,0x308,0x342}},{0x1fe0,{0x1fe8,0x0,0x0}},{0x1fe1,{0x1fe9,0x0,0x0}},{0x1fe2,{0x3a5,0x308,0x300}},{0x1fe3,{0x3a5,0x308,0x301}},{0x1fe4,{0x3a1,0x313,0x0}},
{0x1fe5,{0x1fec,0x0,0x0}},{0x1fe6,{0x3a5,0x342,0x0}},{0x1fe7,{0x3a5,0x308,0x342}},{0x1ff2,{0x1ffa,0x345,0x0}},{0x1ff3,{0x1ffc,0x0,0x0}},{0x1ff4,{0x38f,0x345,0x0}},
{0x1ff6,{0x3a9,0x342,0x0}},{0x1ff7,{0x3a9,0x342,0x345}},{0x214e,{0x2132,0x0,0x0}},{0x2170,{0x2160,0x0,0x0}},{0x2171,{0x2161,0x0,0x0}},{0x2172,{0x2162,0x0,0x0}},
{0x2173,{0x2163,0x0,0x0}},{0x2174,{0x2164,0x0,0x0}},{0x2175,{0x2165,0x0,0x0}},{0x2176,{0x2166,0x0,0x0}},{0x2177,{0x2167,0x0,0x0}},{0x2178,{0x2168,0x0,0x0}},
{0x2179,{0x2169,0x0,0x0}},{0x217a,{0x216a,0x0,0x0}},{0x217b,{0x216b,0x0,0x0}},{0x217c,{0x216c,0x0,0x0}},{0x217d,{0x216d,0x0,0x0}},{0x217e,{0x216e,0x0,0x0}},
{0x217f,{0x216f,0x0,0x0}},{0x2184,{0x2183,0x0,0x0}},{0x24d0,{0x24b6,0x0,0x0}},{0x24d1,{0x24b7,0x0,0x0}},{0x24d2,{0x24b8,0x0,0x0}},{0x24d3,{0x24b9,0x0,0x0}},
{0x24d4,{0x24ba,0x0,0x0}},{0x24d5,{0x24bb,0x0,0x0}},{0x24d6,{0x24bc,0x0,0x0}},{0x24d7,{0x24bd,0x0,0x0}},{0x24d8,{0x24be,0x0,0x0}},{0x24d9,{0x24bf,0x0,0x0}},
{0x24da,{0x24c0,0x0,0x0}},{0x24db,{0x24c1,0x0,0x0}},{0x24dc,{0x24c2,0x0,0x0}},{0x24dd,{0x24c3,0x0,0x0}},{0x24de,{0x24c4,0x0,0x0}},{0x24df,{0x24c5,0x0,0x0}},
{0x24e0,{0x24c6,0x0,0x0}},{0x24e1,{0x24c7,0x0,0x0}},{0x24e2,{0x24c8,0x0,0x0}},{0x24e3,{0x24c9,0x0,0x0}},{0x24e4,{0x24ca,0x0,0x0}},{0x24e5,{0x24cb,0x0,0x0}},
{0x24e6,{0x24cc,0x0,0x0}},{0x24e7,{0x24cd,0x0,0x0}},{0x24e8,{0x24ce,0x0,0x0}},{0x24e9,{0x24cf,0x0,0x0}},{0x2c30,{0x2c00,0x0,0x0}},{0x2c31,{0x2c01,0x0,0x0}},
{0x2c32,{0x2c02,0x0,0x0}},{0x2c33,{0x2c03,0x0,0x0}},{0x2c34,{0x2c04,0x0,0x0}},{0x2c35,{0x2c05,0x0,0x0}},{0x2c36,{0x2c06,0x0,0x0}},{0x2c37,{0x2c07,0x0,0x0}},
{0x2c38,{0x2c08,0x0,0x0}},{0x2c39,{0x2c09,0x0,0x0}},{0x2c3a,{0x2c0a,0x0,0x0}},{0x2c3b,{0x2c0b,0x0,0x0}},{0x2c3c,{0x2c0c,0x0,0x0}},{0x2c3d,{0x2c0d,0x0,0x0}},
{0x2c3e,{0x2c0e,0x0,0x0}},{0x2c3f,{0x2c0f,0x0,0x0}},{0x2c40,{0x2c10,0x0,0x0}},{0x2c41,{0x2c11,0x0,0x0}},{0x2c42,{0x2c12,0x0,0x0}},{0x2c43,{0x2c13,0x0,0x0}},
{0x2c44,{0x2c14,0x0,0x0}},{0x2c45,{0x2c15,0x0,0x0}},{0x2c46,{0x2c16,0x0,0x0}},{0x2c47,{0x2c17,0x0,0x0}},{0x2c48,{0x2c18,0x0,0x0}},{0x2c49,{0x2c19,0x0,0x0}},
{0x2c4a,{0x2c1a,0x0,0x0}},{0x2c4b,{0x2c1b,0x0,0x0}},{0x2c4c,{0x2c1c,0x0,0x0}},{0x2c4d,{0x2c1d,0x0,0x0}},{0x2c4e,{0x2c1e,0x0,0x0}},{0x2c4f,{0x2c1f,0x0,0x0}},
{0x2c50,{0x2c20,0x0,0x0}},{0x2c51,{0x2c21,0x0,0x0}},{0x2c52,{0x2c22,0x0,0x0}},{0x2c53,{0x2c23,0x0,0x0}},{0x2c54,{0x2c24,0x0,0x0}},{0x2c55,{0x2c25,0x0,0x0}},
{0x2c56,{0x2c26,0x0,0x0}},{0x2c57,{0x2c27,0x0,0x0}},{0x2c58,{0x2c28,0x0,0x0}},{0x2c59,{0x2c29,0x0,0x0}},{0x2c5a,{0x2c2a,0x0,0x0}},{0x2c5b,{0x2c2b,0x0,0x0}},
{0x2c5c,{0x2c2c,0x0,0x0}},{0x2c5d,{0x2c2d,0x0,0x0}},{0x2c5e,{0x2c2e,0x0,0x0}},{0x2c5f,{0x2c2f,0x0,0x0}},{0x2c61,{0x2c60,0x0,0x0}},{0x2c65,{0x23a,0x0,0x0}},
{0x2c66,{0x23e,0x0,0x0}},{0x2c68,{0x2c67,0x0,0x0}},{0x2c6a,{0x2c69,0x0,0x0}},{0x2c6c,{0x2c6b,0x0,0x0}},{0x2c73,{0x2c72,0x0,0x0}},{0x2c76,{0x2c75,0x0,0x0}},
{0x2c81,{0x2c80,0x0,0x0}},{0x2c83,{0x2c82,0x0,0x0}},{0x2c85,{0x2c84,0x0,0x0}},{0x2c87,{0x2c86,0x0,0x0}},{0x2c89,{0x2c88,0x0,0x0}},{0x2c8b,{0x2c8a,0x0,0x0}},
{0x2c8d,{0x2c8c,0x0,0x0}},{0x2c8f,{0x2c8e,0x0,0x0}},{0x2c91,{0x2c90,0x0,0x0}},{0x2c93,{0x2c92,0x0,0x0}},{0x2c95,{0x2c94,0x0,0x0}},{0x2c97,{0x2c96,0x0,0x0}},
{0x2c99,{0x2c98,0x0,0x0}},{0x2c9b,{0x2c9a,0x0,0x0}},{0x2c9d,{0x2c9c,0x0,0x0}},{0x2c9f,{0x2c9e,0x0,0x0}},{0x2ca1,{0x2ca0,0x0,0x0}},{0x2ca3,{0x2ca2,0x0,0x0}},
{0x2ca5,{0x2ca4,0x0,0x0}},{0x2ca7,{0x2ca6,0x0,0x0}},{0x2ca9,{0x2ca8,0x0,0x0}},{0x2cab,{0x2caa,0x0,0x0}},{0x2cad,{0x2cac,0x0,0x0}},{0x2caf,{0x2cae,0x0,0x0}},
{0x2cb1,{0x2cb0,0x0,0x0}},{0x2cb3,{0x2cb2,0x0,0x0}},{0x2cb5,{0x2cb4,0x0,0x0}},{0x2cb7,{0x2cb6,0x0,0x0}},{0x2cb9,{0x2cb8,0x0,0x0}},{0x2cbb,{0x2cba,0x0,0x0}},
{0x2cbd,{0x2cbc,0x0,0x0}},{0x2cbf,{0x2cbe,0x0,0x0}},{0x2cc1,{0x2cc0,0x0,0x0}},{0x2cc3,{0x2cc2,0x0,0x0}},{0x2cc5,{0x2cc4,0x0,0x0}},{0x2cc7,{0x2cc6,0x0,0x0}},
{0x2cc9,{0x2cc8,0x0,0x0}},{0x2ccb,{0x2cca,0x0,0x0}},{0x2ccd,{0x2ccc,0x0,0x0}},{0x2ccf,{0x2cce,0x0,0x0}},{0x2cd1,{0x2cd0,0x0,0x0}},{0x2cd3,{0x2cd2,0x0,0x0}},
{0x2cd5,{0x2cd4,0x0,0x0}},{0x2cd7,{0x2cd6,0x0,0x0}},{0x2cd9,{0x2cd8,0x0,0x0}},{0x2cdb,{0x2cda,0x0,0x0}},{0x2cdd,{0x2cdc,0x0,0x0}},{0x2cdf,{0x2cde,0x0,0x0}},
{0x2ce1,{0x2ce0,0x0,0x0}},{0x2ce3,{0x2ce2,0x0,0x0}},{0x2cec,{0x2ceb,0x0,0x0}},{0x2cee,{0x2ced,0x0,0x0}},{0x2cf3,{0x2cf2,0x0,0x0}},{0x2d00,{0x10a0,0x0,0x0}},
{0x2d01,{0x10a1,0x0,0x0}},{0x2d02,{0x10a2,0x0,0x0}},{0x2d03,{0x10a3,0x0,0x0}},{0x2d04,{0x10a4,0x0,0x0}},{0x2d05,{0x10a5,0x0,0x0}},{0x2d06,{0x10a6,0x0,0x0}},
{0x2d07,{0x10a7,0x0,0x0}},{0x2d08,{0x10a8,0x0,0x0}},{0x2d09,{0x10a9,0x0,0x0}},{0x2d0a,{0x10aa,0x0,0x0}},{0x2d0b,{0x10ab,0x0,0x0}},{0x2d0c,{0x10ac,0x0,0x0}},
{0x2d0d,{0x10ad,0x0,0x0}},{0x2d0e,{0x10ae,0x0,0x0}},{0x2d0f,{0x10af,0x0,0x0}},{0x2d10,{0x10b0,0x0,0x0}},{0x2d11,{0x10b1,0x0,0x0}},{0x2d12,{0x10b2,0x0,0x0}},
{0x2d13,{0x10b3,0x0,0x0}},{0x2d14,{0x10b4,0x0,0x0}},{0x2d15,{0x10b5,0x0,0x0}},{0x2d16,{0x10b6,0x0,0x0}},{0x2d17,{0x10b7,0x0,0x0}},{0x2d18,{0x10b8,0x0,0x0}},
{0x2d19,{0x10b9,0x0,0x0}},{0x2d1a,{0x10ba,0x0,0x0}},{0x2d1b,{0x10bb,0x0,0x0}},{0x2d1c,{0x10bc,0x0,0x0}},{0x2d1d,{0x10bd,0x0,0x0}},{0x2d1e,{0x10be,0x0,0x0}},
{0x2d1f,{0x10bf,0x0,0x0}},{0x2d20,{0x10c0,0x0,0x0}},{0x2d21,{0x10c1,0x0,0x0}},{0x2d22,{0x10c2,0x0,0x0}},{0x2d23,{0x10c3,0x0,0x0}},{0x2d24,{0x10c4,0x0,0x0}},
{0x2d25,{0x10c5,0x0,0x0}},{0x2d27,{0x10c7,0x0,0x0}},{0x2d2d,{0x10cd,0x0,0x0}},{0xa641,{0xa640,0x0,0x0}},{0xa643,{0xa642,0x0,0x0}},{0xa645,{0xa644,0x0,0x0}},
{0xa647,{0xa646,0x0,0x0}},{0xa649,{0xa648,0x0,0x0}},{0xa64b,{0xa64a,0x0,0x0}},{0xa64d,{0xa64c,0x0,0x0}},{0xa64f,{0xa64e,0x0,0x0}},{0xa651,{0xa650,0x0,0x0}},
{0xa653,{0xa652,0x0,0x0}},{0xa655,{0xa654,0x0,0x0}},{0xa657,{0xa656,0x0,0x0}},{0xa659,{0xa658,0x0,0x0}},{0xa65b,{0xa65a,0x0,0x0}},{0xa65d,{0xa65c,0x0,0x0}},
{0xa65f,{0xa65e,0x0,0x0}},{0xa661,{0xa660,0x0,0x0}},{0xa663,{0xa662,0x0,0x0}},{0xa665,{0xa664,0x0,0x0}},{0xa667,{0xa666,0x0,0x0}},{0xa669,{0xa668,0x0,0x0}},
{0xa66b,{0xa66a,0x0,0x0}},{0xa66d,{0xa66c,0x0,0x0}},{0xa681,{0xa680,0x0,0x0}},{0xa683,{0xa682,0x0,0x0}},{0xa685,{0xa684,0x0,0x0}},{0xa687,{0xa686,0x0,0x0}},
{0xa689,{0xa688,0x0,0x0}},{0xa68b,{0xa68a,0x0,0x0}},{0xa68d,{0xa68c,0x0,0x0}},{0xa68f,{0xa68e,0x0,0x0}},{0xa691,{0xa690,0x0,0x0}},{0xa693,{0xa692,0x0,0x0}},
{0xa695,{0xa694,0x0,0x0}},{0xa697,{0xa696,0x0,0x0}},{0xa699,{0xa698,0x0,0x0}},{0xa69b,{0xa69a,0x0,0x0}},{0xa723,{0xa722,0x0,0x0}},{0xa725,{0xa724,0x0,0x0}},
{0xa727,{0xa726,0x0,0x0}},{0xa729,{0xa728,0x0,0x0}},{0xa72b,{0xa72a,0x0,0x0}},{0xa72d,{0xa72c,0x0,0x0}},{0xa72f,{0xa72e,0x0,0x0}},{0xa733,{0xa732,0x0,0x0}},
{0xa735,{0xa734,0x0,0x0}},{0xa737,{0xa736,0x0,0x0}},{0xa739,{0xa738,0x0,0x0}},{0xa73b,{0xa73a,0x0,0x0}},{0xa73d,{0xa73c,0x0,0x0}},{0xa73f,{0xa73e,0x0,0x0}},
{0xa741,{0xa740,0x0,0x0}},{0xa743,{0xa742,0x0,0x0}},{0xa745,{0xa744,0x0,0x0}},{0xa747,{0xa746,0x0,0x0}},{0xa749,{0xa748,0x0,0x0}},{0xa74b,{0xa74a,0x0,0x0}},
{0xa74d,{0xa74c,0x0,0x0}},{0xa74f,{0xa74e,0x0,0x0}},{0xa751,{0xa750,0x0,0x0}},{0xa753,{0xa752,0x0,0x0}},{0xa755,{0xa754,0x0,0x0}},{0xa757,{0xa756,0x0,0x0}},
{0xa759,{0xa758,0x0,0x0}},{0xa75b,{0xa75a,0x0,0x0}},{0xa75d,{0xa75c,0x0,0x0}},{0xa75f,{0xa75e,0x0,0x0}},{0xa761,{0xa760,0x0,0x0}},{0xa763,{0xa762,0x0,0x0}},
{0xa765,{0xa764,0x0,0x0}},{0xa767,{0xa766,0x0,0x0}},{0xa769,{0xa768,0x0,0x0}},{0xa76b,{0xa76a,0x0,0x0}},{0xa76d,{0xa76c,0x0,0x0}},{0xa76f,{0xa76e,0x0,0x0}},
{0xa77a,{0xa779,0x0,0x0}},{0xa77c,{0xa77b,0x0,0x0}},{0xa77f,{0xa77e,0x0,0x0}},{0xa781,{0xa780,0x0,0x0}},{0xa783,{0xa782,0x0,0x0}},{0xa785,{0xa784,0x0,0x0}},
{0xa787,{0xa786,0x0,0x0}},{0xa78c,{0xa78b,0x0,0x0}},{0xa791,{0xa790,0x0,0x0}},{0xa793,{0xa792,0x0,0x0}},{0xa794,{0xa7c4,0x0,0x0}},{0xa797,{0xa796,0x0,0x0}},
{0xa799,{0xa798,0x0,0x0}},{0xa79b,{0xa79a,0x0,0x0}},{0xa79d,{0xa79c,0x0,0x0}},{0xa79f,{0xa79e,0x0,0x0}},{0xa7a1,{0xa7a0,0x0,0x0}},{0xa7a3,{0xa7a2,0x0,0x0}},
{0xa7a5,{0xa7a4,0x0,0x0}},{0xa7a7,{0xa7a6,0x0,0x0}},{0xa7a9,{0xa7a8,0x0,0x0}},{0xa7b5,{0xa7b4,0x0,0x0}},{0xa7b7,{0xa7b6,0x0,0x0}},{0xa7b9,{0xa7b8,0x0,0x0}},
{0xa7bb,{0xa7ba,0x0,0x0}},{0xa7bd,{0xa7bc,0x0,0x0}},{0xa7bf,{0xa7be,0x0,0x0}},{0xa7c1,{0xa7c0,0x0,0x0}},{0xa7c3,{0xa7c2,0x0,0x0}},{0xa7c8,{0xa7c7,0x0,0x0}},
{0xa7ca,{0xa7c9,0x0,0x0}},{0xa7d1,{0xa7d0,0x0,0x0}},{0xa7d7,{0xa7d6,0x0,0x0}},{0xa7d9,{0xa7d8,0x0,0x0}},{0xa7f6,{0xa7f5,0x0,0x0}},{0xab53,{0xa7b3,0x0,0x0}},
{0xab70,{0x13a0,0x0,0x0}},{0xab71,{0x13a1,0x0,0x0}},{0xab72,{0x13a2,0x0,0x0}},{0xab73,{0x13a3,0x0,0x0}},{0xab74,{0x13a4,0x0,0x0}},{0xab75,{0x13a5,0x0,0x0}},
{0xab76,{0x13a6,0x0,0x0}},{0xab77,{0x13a7,0x0,0x0}},{0xab78,{0x13a8,0x0,0x0}},{0xab79,{0x13a9,0x0,0x0}},{0xab7a,{0x13aa,0x0,0x0}},{0xab7b,{0x13ab,0x0,0x0}},
{0xab7c,{0x13ac,0x0,0x0}},{0xab7d,{0x13ad,0x0,0x0}},{0xab7e,{0x13ae,0x0,0x0}},{0xab7f,{0x13af,0x0,0x0}},{0xab80,{0x13b0,0x0,0x0}},{0xab81,{0x13b1,0x0,0x0}},
{0xab82,{0x13b2,0x0,0x0}},{0xab83,{0x13b3,0x0,0x0}},{0xab84,{0x13b4,0x0,0x0}},{0xab85,{0x13b5,0x0,0x0}},{0xab86,{0x13b6,0x0,0x0}},{0xab87,{0x13b7,0x0,0x0}},
{0xab88,{0x13b8,0x0,0x0}},{0xab89,{0x13b9,0x0,0x0}},{0xab8a,{0x13ba,0x0,0x0}},{0xab8b,{0x13bb,0x0,0x0}},{0xab8c,{0x13bc,0x0,0x0}},{0xab8d,{0x13bd,0x0,0x0}},
{0xab8e,{0x13be,0x0,0x0}},{0xab8f,{0x13bf,0x0,0x0}},{0xab90,{0x13c0,0x0,0x0}},{0xab91,{0x13c1,0x0,0x0}},{0xab92,{0x13c2,0x0,0x0}},{0xab93,{0x13c3,0x0,0x0}},
{0xab94,{0x13c4,0x0,0x0}},{0xab95,{0x13c5,0x0,0x0}},{0xab96,{0x13c6,0x0,0x0}},{0xab97,{0x13c7,0x0,0x0}},{0xab98,{0x13c8,0x0,0x0}},{0xab99,{0x13c9,0x0,0x0}},
{0xab9a,{0x13ca,0x0,0x0}},{0xab9b,{0x13cb,0x0,0x0}},{0xab9c,{0x13cc,0x0,0x0}},{0xab9d,{0x13cd,0x0,0x0}},{0xab9e,{0x13ce,0x0,0x0}},{0xab9f,{0x13cf,0x0,0x0}},
{0xaba0,{0x13d0,0x0,0x0}},{0xaba1,{0x13d1,0x0,0x0}},{0xaba2,{0x13d2,0x0,0x0}},{0xaba3,{0x13d3,0x0,0x0}},{0xaba4,{0x13d4,0x0,0x0}},{0xaba5,{0x13d5,0x0,0x0}},
{0xaba6,{0x13d6,0x0,0x0}},{0xaba7,{0x13d7,0x0,0x0}},{0xaba8,{0x13d8,0x0,0x0}},{0xaba9,{0x13d9,0x0,0x0}},{0xabaa,{0x13da,0x0,0x0}},{0xabab,{0x13db,0x0,0x0}},
{0xabac,{0x13dc,0x0,0x0}},{0xabad,{0x13dd,0x0,0x0}},{0xabae,{0x13de,0x0,0x0}},{0xabaf,{0x13df,0x0,0x0}},{0xabb0,{0x13e0,0x0,0x0}},{0xabb1,{0x13e1,0x0,0x0}},
{0xabb2,{0x13e2,0x0,0x0}},{0xabb3,{0x13e3,0x0,0x0}},{0xabb4,{0x13e4,0x0,0x0}},{0xabb5,{0x13e5,0x0,0x0}},{0xabb6,{0x13e6,0x0,0x0}},{0xabb7,{0x13e7,0x0,0x0}},
{0xabb8,{0x13e8,0x0,0x0}},{0xabb9,{0x13e9,0x0,0x0}},{0xabba,{0x13ea,0x0,0x0}},{0xabbb,{0x13eb,0x0,0x0}},{0xabbc,{0x13ec,0x0,0x0}},{0xabbd,{0x13ed,0x0,0x0}},
{0xabbe,{0x13ee,0x0,0x0}},{0xabbf,{0x13ef,0x0,0x0}},{0xfb00,{0x46,0x66,0x0}},{0xfb01,{0x46,0x69,0x0}},{0xfb02,{0x46,0x6c,0x0}},{0xfb03,{0x46,0x66,0x69}},
{0xfb04,{0x46,0x66,0x6c}},{0xfb05,{0x53,0x74,0x0}},{0xfb06,{0x53,0x74,0x0}},{0xfb13,{0x544,0x576,0x0}},{0xfb14,{0x544,0x565,0x0}},{0xfb15,{0x544,0x56b,0x0}},
{0xfb16,{0x54e,0x576,0x0}},{0xfb17,{0x544,0x56d,0x0}},{0xff41,{0xff21,0x0,0x0}},{0xff42,{0xff22,0x0,0x0}},{0xff43,{0xff23,0x0,0x0}},{0xff44,{0xff24,0x0,0x0}},
{0xff45,{0xff25,0x0,0x0}},{0xff46,{0xff26,0x0,0x0}},{0xff47,{0xff27,0x0,0x0}},{0xff48,{0xff28,0x0,0x0}},{0xff49,{0xff29,0x0,0x0}},{0xff4a,{0xff2a,0x0,0x0}},
{0xff4b,{0xff2b,0x0,0x0}},{0xff4c,{0xff2c,0x0,0x0}},{0xff4d,{0xff2d,0x0,0x0}},{0xff4e,{0xff2e,0x0,0x0}},{0xff4f,{0xff2f,0x0,0x0}},{0xff50,{0xff30,0x0,0x0}},
{0xff51,{0xff31,0x0,0x0}},{0xff52,{0xff32,0x0,0x0}},{0xff53,{0xff33,0x0,0x0}},{0xff54,{0xff34,0x0,0x0}},{0xff55,{0xff35,0x0,0x0}},{0xff56,{0xff36,0x0,0x0}},
{0xff57,{0xff37,0x0,0x0}},{0xff58,{0xff38,0x0,0x0}},{0xff59,{0xff39,0x0,0x0}},{0xff5a,{0xff3a,0x0,0x0}},{0x10428,{0x10400,0x0,0x0}},{0x10429,{0x10401,0x0,0x0}},
{0x1042a,{0x10402,0x0,0x0}},{0x1042b,{0x10403,0x0,0x0}},{0x1042c,{0x10404,0x0,0x0}},{0x1042d,{0x10405,0x0,0x0}},{0x1042e,{0x10406,0x0,0x0}},{0x1042f,{0x10407,0x0,0x0}},
{0x10430,{0x10408,0x0,0x0}},{0x10431,{0x10409,0x0,0x0}},{0x10432,{0x1040a,0x0,0x0}},{0x10433,{0x1040b,0x0,0x0}},{0x10434,{0x1040c,0x0,0x0}},{0x10435,{0x1040d,0x0,0x0}},
{0x10436,{0x1040e,0x0,0x0}},{0x10437,{0x1040f,0x0,0x0}},{0x10438,{0x10410,0x0,0x0}},{0x10439,{0x10411,0x0,0x0}},{0x1043a,{0x10412,0x0,0x0}},{0x1043b,{0x10413,0x0,0x0}},
{0x1043c,{0x10414,0x0,0x0}},{0x1043d,{0x10415,0x0,0x0}},{0x1043e,{0x10416,0x0,0x0}},{0x1043f,{0x10417,0x0,0x0}},{0x10440,{0x10418,0x0,0x0}},{0x10441,{0x10419,0x0,0x0}},
{0x10442,{0x1041a,0x0,0x0}},{0x10443,{0x1041b,0x0,0x0}},{0x10444,{0x1041c,0x0,0x0}},{0x10445,{0x1041d,0x0,0x0}},{0x10446,{0x1041e,0x0,0x0}},{0x10447,{0x1041f,0x0,0x0}},
{0x10448,{0x10420,0x0,0x0}},{0x10449,{0x10421,0x0,0x0}},{0x1044a,{0x10422,0x0,0x0}},{0x1044b,{0x10423,0x0,0x0}},{0x1044c,{0x10424,0x0,0x0}},{0x1044d,{0x10425,0x0,0x0}},
{0x1044e,{0x10426,0x0,0x0}},{0x1044f,{0x10427,0x0,0x0}},{0x104d8,{0x104b0,0x0,0x0}},{0x104d9,{0x104b1,0x0,0x0}},{0x104da,{0x104b2,0x0,0x0}},{0x104db,{0x104b3,0x0,0x0}},
{0x104dc,{0x104b4,0x0,0x0}},{0x104dd,{0x104b5,0x0,0x0}},{0x104de,{0x104b6,0x0,0x0}},{0x104df,{0x104b7,0x0,0x0}},{0x104e0,{0x104b8,0x0,0x0}},{0x104e1,{0x104b9,0x0,0x0}},
{0x104e2,{0x104ba,0x0,0x0}},{0x104e3,{0x104bb,0x0,0x0}},{0x104e4,{0x104bc,0x0,0x0}},{0x104e5,{0x104bd,0x0,0x0}},{0x104e6,{0x104be,0x0,0x0}},{0x104e7,{0x104bf,0x0,0x0}},
{0x104e8,{0x104c0,0x0,0x0}},{0x104e9,{0x104c1,0x0,0x0}},{0x104ea,{0x104c2,0x0,0x0}},{0x104eb,{0x104c3,0x0,0x0}},{0x104ec,{0x104c4,0x0,0x0}},{0x104ed,{0x104c5,0x0,0x0}},
{0x104ee,{0x104c6,0x0,0x0}},{0x104ef,{0x104c7,0x0,0x0}},{0x104f0,{0x104c8,0x0,0x0}},{0x104f1,{0x104c9,0x0,0x0}},{0x104f2,{0x104ca,0x0,0x0}},{0x104f3,{0x104cb,0x0,0x0}},
{0x104f4,{0x104cc,0x0,0x0}},{0x104f5,{0x104cd,0x0,0x0}},{0x104f6,{0x104ce,0x0,0x0}},{0x104f7,{0x104cf,0x0,0x0}},{0x104f8,{0x104d0,0x0,0x0}},{0x104f9,{0x104d1,0x0,0x0}},
{0x104fa,{0x104d2,0x0,0x0}},{0x104fb,{0x104d3,0x0,0x0}},{0x10597,{0x10570,0x0,0x0}},{0x10598,{0x10571,0x0,0x0}},{0x10599,{0x10572,0x0,0x0}},{0x1059a,{0x10573,0x0,0x0}},
{0x1059b,{0x10574,0x0,0x0}},{0x1059c,{0x10575,0x0,0x0}},{0x1059d,{0x10576,0x0,0x0}},{0x1059e,{0x10577,0x0,0x0}},{0x1059f,{0x10578,0x0,0x0}},{0x105a0,{0x10579,0x0,0x0}},
{0x105a1,{0x1057a,0x0,0x0}},{0x105a3,{0x1057c,0x0,0x0}},{0x105a4,{0x1057d,0x0,0x0}},{0x105a5,{0x1057e,0x0,0x0}},{0x105a6,{0x1057f,0x0,0x0}},{0x105a7,{0x10580,0x0,0x0}},
{0x105a8,{0x10581,0x0,0x0}},{0x105a9,{0x10582,0x0,0x0}},{0x105aa,{0x10583,0x0,0x0}},{0x105ab,{0x10584,0x0,0x0}},{0x105ac,{0x10585,0x0,0x0}},{0x105ad,{0x10586,0x0,0x0}},
{0x105ae,{0x10587,0x0,0x0}},{0x105af,{0x10588,0x0,0x0}},{0x105b0,{0x10589,0x0,0x0}},{0x105b1,{0x1058a,0x0,0x0}},{0x105b3,{0x1058c,0x0,0x0}},{0x105b4,{0x1058d,0x0,0x0}},
{0x105b5,{0x1058e,0x0,0x0}},{0x105b6,{0x1058f,0x0,0x0}},{0x105b7,{0x10590,0x0,0x0}},{0x105b8,{0x10591,0x0,0x0}},{0x105b9,{0x10592,0x0,0x0}},{0x105bb,{0x10594,0x0,0x0}},
{0x105bc,{0x10595,0x0,0x0}},{0x10cc0,{0x10c80,0x0,0x0}},{0x10cc1,{0x10c81,0x0,0x0}},{0x10cc2,{0x10c82,0x0,0x0}},{0x10cc3,{0x10c83,0x0,0x0}},{0x10cc4,{0x10c84,0x0,0x0}},
{0x10cc5,{0x10c85,0x0,0x0}},{0x10cc6,{0x10c86,0x0,0x0}},{0x10cc7,{0x10c87,0x0,0x0}},{0x10cc8,{0x10c88,0x0,0x0}},{0x10cc9,{0x10c89,0x0,0x0}},{0x10cca,{0x10c8a,0x0,0x0}},
{0x10ccb,{0x10c8b,0x0,0x0}},{0x10ccc,{0x10c8c,0x0,0x0}},{0x10ccd,{0x10c8d,0x0,0x0}},{0x10cce,{0x10c8e,0x0,0x0}},{0x10ccf,{0x10c8f,0x0,0x0}},{0x10cd0,{0x10c90,0x0,0x0}},
{0x10cd1,{0x10c91,0x0,0x0}},{0x10cd2,{0x10c92,0x0,0x0}},{0x10cd3,{0x10c93,0x0,0x0}},{0x10cd4,{0x10c94,0x0,0x0}},{0x10cd5,{0x10c95,0x0,0x0}},{0x10cd6,{0x10c96,0x0,0x0}},
{0x10cd7,{0x10c97,0x0,0x0}},{0x10cd8,{0x10c98,0x0,0x0}},{0x10cd9,{0x10c99,0x0,0x0}},{0x10cda,{0x10c9a,0x0,0x0}},{0x10cdb,{0x10c9b,0x0,0x0}},{0x10cdc,{0x10c9c,0x0,0x0}},
{0x10cdd,{0x10c9d,0x0,0x0}},{0x10cde,{0x10c9e,0x0,0x0}},{0x10cdf,{0x10c9f,0x0,0x0}},{0x10ce0,{0x10ca0,0x0,0x0}},{0x10ce1,{0x10ca1,0x0,0x0}},{0x10ce2,{0x10ca2,0x0,0x0}},
{0x10ce3,{0x10ca3,0x0,0x0}},{0x10ce4,{0x10ca4,0x0,0x0}},{0x10ce5,{0x10ca5,0x0,0x0}},{0x10ce6,{0x10ca6,0x0,0x0}},{0x10ce7,{0x10ca7,0x0,0x0}},{0x10ce8,{0x10ca8,0x0,0x0}},
{0x10ce9,{0x10ca9,0x0,0x0}},{0x10cea,{0x10caa,0x0,0x0}},{0x10ceb,{0x10cab,0x0,0x0}},{0x10cec,{0x10cac,0x0,0x0}},{0x10ced,{0x10cad,0x0,0x0}},{0x10cee,{0x10cae,0x0,0x0}},
{0x10cef,{0x10caf,0x0,0x0}},{0x10cf0,{0x10cb0,0x0,0x0}},{0x10cf1,{0x10cb1,0x0,0x0}},{0x10cf2,{0x10cb2,0x0,0x0}},{0x118c0,{0x118a0,0x0,0x0}},{0x118c1,{0x118a1,0x0,0x0}},
{0x118c2,{0x118a2,0x0,0x0}},{0x118c3,{0x118a3,0x0,0x0}},{0x118c4,{0x118a4,0x0,0x0}},{0x118c5,{0x118a5,0x0,0x0}},{0x118c6,{0x118a6,0x0,0x0}},{0x118c7,{0x118a7,0x0,0x0}},
{0x118c8,{0x118a8,0x0,0x0}},{0x118c9,{0x118a9,0x0,0x0}},{0x118ca,{0x118aa,0x0,0x0}},{0x118cb,{0x118ab,0x0,0x0}},{0x118cc,{0x118ac,0x0,0x0}},{0x118cd,{0x118ad,0x0,0x0}},
{0x118ce,{0x118ae,0x0,0x0}},{0x118cf,{0x118af,0x0,0x0}},{0x118d0,{0x118b0,0x0,0x0}},{0x118d1,{0x118b1,0x0,0x0}},{0x118d2,{0x118b2,0x0,0x0}},{0x118d3,{0x118b3,0x0,0x0}},
{0x118d4,{0x118b4,0x0,0x0}},{0x118d5,{0x118b5,0x0,0x0}},{0x118d6,{0x118b6,0x0,0x0}},{0x118d7,{0x118b7,0x0,0x0}},{0x118d8,{0x118b8,0x0,0x0}},{0x118d9,{0x118b9,0x0,0x0}},
{0x118da,{0x118ba,0x0,0x0}},{0x118db,{0x118bb,0x0,0x0}},{0x118dc,{0x118bc,0x0,0x0}},{0x118dd,{0x118bd,0x0,0x0}},{0x118de,{0x118be,0x0,0x0}},{0x118df,{0x118bf,0x0,0x0}},
{0x16e60,{0x16e40,0x0,0x0}},{0x16e61,{0x16e41,0x0,0x0}},{0x16e62,{0x16e42,0x0,0x0}},{0x16e63,{0x16e43,0x0,0x0}},{0x16e64,{0x16e44,0x0,0x0}},{0x16e65,{0x16e45,0x0,0x0}},
{0x16e66,{0x16e46,0x0,0x0}},{0x16e67,{0x16e47,0x0,0x0}},{0x16e68,{0x16e48,0x0,0x0}},{0x16e69,{0x16e49,0x0,0x0}},{0x16e6a,{0x16e4a,0x0,0x0}},{0x16e6b,{0x16e4b,0x0,0x0}},
{0x16e6c,{0x16e4c,0x0,0x0}},{0x16e6d,{0x16e4d,0x0,0x0}},{0x16e6e,{0x16e4e,0x0,0x0}},{0x16e6f,{0x16e4f,0x0,0x0}},{0x16e70,{0x16e50,0x0,0x0}},{0x16e71,{0x16e51,0x0,0x0}},
{0x16e72,{0x16e52,0x0,0x0}},{0x16e73,{0x16e53,0x0,0x0}},{0x16e74,{0x16e54,0x0,0x0}},{0x16e75,{0x16e55,0x0,0x0}},{0x16e76,{0x16e56,0x0,0x0}},{0x16e77,{0x16e57,0x0,0x0}},
{0x16e78,{0x16e58,0x0,0x0}},{0x16e79,{0x16e59,0x0,0x0}},{0x16e7a,{0x16e5a,0x0,0x0}},{0x16e7b,{0x16e5b,0x0,0x0}},{0x16e7c,{0x16e5c,0x0,0x0}},{0x16e7d,{0x16e5d,0x0,0x0}},
{0x16e7e,{0x16e5e,0x0,0x0}},{0x16e7f,{0x16e5f,0x0,0x0}},{0x1e922,{0x1e900,0x0,0x0}},{0x1e923,{0x1e901,0x0,0x0}},{0x1e924,{0x1e902,0x0,0x0}},{0x1e925,{0x1e903,0x0,0x0}},
{0x1e926,{0x1e904,0x0,0x0}},{0x1e927,{0x1e905,0x0,0x0}},{0x1e928,{0x1e906,0x0,0x0}},{0x1e929,{0x1e907,0x0,0x0}},{0x1e92a,{0x1e908,0x0,0x0}},{0x1e92b,{0x1e909,0x0,0x0}},
{0x1e92c,{0x1e90a,0x0,0x0}},{0x1e92d,{0x1e90b,0x0,0x0}},{0x1e92e,{0x1e90c,0x0,0x0}},{0x1e92f,{0x1e90d,0x0,0x0}},{0x1e930,{0x1e90e,0x0,0x0}},{0x1e931,{0x1e90f,0x0,0x0}},
{0x1e932,{0x1e910,0x0,0x0}},{0x1e933,{0x1e911,0x0,0x0}},{0x1e934,{0x1e912,0x0,0x0}},{0x1e935,{0x1e913,0x0,0x0}},{0x1e936,{0x1e914,0x0,0x0}},{0x1e937,{0x1e915,0x0,0x0}},
{0x1e938,{0x1e916,0x0,0x0}},{0x1e939,{0x1e917,0x0,0x0}},{0x1e93a,{0x1e918,0x0,0x0}},{0x1e93b,{0x1e919,0x0,0x0}},{0x1e93c,{0x1e91a,0x0,0x0}},{0x1e93d,{0x1e91b,0x0,0x0}},
{0x1e93e,{0x1e91c,0x0,0x0}},{0x1e93f,{0x1e91d,0x0,0x0}},{0x1e940,{0x1e91e,0x0,0x0}},{0x1e941,{0x1e91f,0x0,0x0}},{0x1e942,{0x1e920,0x0,0x0}},{0x1e943,{0x1e921,0x0,0x0}},

};
