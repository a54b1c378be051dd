// generated from vc/gcb13.txt (Unicode 13 grapheme cluster break classes): first code point, class
{0x0,3},{0xA,2},{0xB,3},{0xD,1},{0xE,3},{0x20,0},{0x7F,3},{0xA0,0},{0xA9,9},{0xAA,0},{0xAD,3},{0xAE,9},
{0xAF,0},{0x300,4},{0x370,0},{0x483,4},{0x48A,0},{0x591,4},{0x5BE,0},{0x5BF,4},{0x5C0,0},{0x5C1,4},{0x5C3,0},{0x5C4,4},
{0x5C6,0},{0x5C7,4},{0x5C8,0},{0x600,7},{0x606,0},{0x610,4},{0x61B,0},{0x61C,3},{0x61D,0},{0x64B,4},{0x660,0},{0x670,4},
{0x671,0},{0x6D6,4},{0x6DD,7},{0x6DE,0},{0x6DF,4},{0x6E5,0},{0x6E7,4},{0x6E9,0},{0x6EA,4},{0x6EE,0},{0x70F,7},{0x710,0},
{0x711,4},{0x712,0},{0x730,4},{0x74B,0},{0x7A6,4},{0x7B1,0},{0x7EB,4},{0x7F4,0},{0x7FD,4},{0x7FE,0},{0x816,4},{0x81A,0},
{0x81B,4},{0x824,0},{0x825,4},{0x828,0},{0x829,4},{0x82E,0},{0x859,4},{0x85C,0},{0x8D3,4},{0x8E2,7},{0x8E3,4},{0x903,6},
{0x904,0},{0x93A,4},{0x93B,6},{0x93C,4},{0x93D,0},{0x93E,6},{0x941,4},{0x949,6},{0x94D,4},{0x94E,6},{0x950,0},{0x951,4},
{0x958,0},{0x962,4},{0x964,0},{0x981,4},{0x982,6},{0x984,0},{0x9BC,4},{0x9BD,0},{0x9BE,4},{0x9BF,6},{0x9C1,4},{0x9C5,0},
{0x9C7,6},{0x9C9,0},{0x9CB,6},{0x9CD,4},{0x9CE,0},{0x9D7,4},{0x9D8,0},{0x9E2,4},{0x9E4,0},{0x9FE,4},{0x9FF,0},{0xA01,4},
{0xA03,6},{0xA04,0},{0xA3C,4},{0xA3D,0},{0xA3E,6},{0xA41,4},{0xA43,0},{0xA47,4},{0xA49,0},{0xA4B,4},{0xA4E,0},{0xA51,4},
{0xA52,0},{0xA70,4},{0xA72,0},{0xA75,4},{0xA76,0},{0xA81,4},{0xA83,6},{0xA84,0},{0xABC,4},{0xABD,0},{0xABE,6},{0xAC1,4},
{0xAC6,0},{0xAC7,4},{0xAC9,6},{0xACA,0},{0xACB,6},{0xACD,4},{0xACE,0},{0xAE2,4},{0xAE4,0},{0xAFA,4},{0xB00,0},{0xB01,4},
{0xB02,6},{0xB04,0},{0xB3C,4},{0xB3D,0},{0xB3E,4},{0xB40,6},{0xB41,4},{0xB45,0},{0xB47,6},{0xB49,0},{0xB4B,6},{0xB4D,4},
{0xB4E,0},{0xB55,4},{0xB58,0},{0xB62,4},{0xB64,0},{0xB82,4},{0xB83,0},{0xBBE,4},{0xBBF,6},{0xBC0,4},{0xBC1,6},{0xBC3,0},
{0xBC6,6},{0xBC9,0},{0xBCA,6},{0xBCD,4},{0xBCE,0},{0xBD7,4},{0xBD8,0},{0xC00,4},{0xC01,6},{0xC04,4},{0xC05,0},{0xC3E,4},
{0xC41,6},{0xC45,0},{0xC46,4},{0xC49,0},{0xC4A,4},{0xC4E,0},{0xC55,4},{0xC57,0},{0xC62,4},{0xC64,0},{0xC81,4},{0xC82,6},
{0xC84,0},{0xCBC,4},{0xCBD,0},{0xCBE,6},{0xCBF,4},{0xCC0,6},{0xCC2,4},{0xCC3,6},{0xCC5,0},{0xCC6,4},{0xCC7,6},{0xCC9,0},
{0xCCA,6},{0xCCC,4},{0xCCE,0},{0xCD5,4},{0xCD7,0},{0xCE2,4},{0xCE4,0},{0xD00,4},{0xD02,6},{0xD04,0},{0xD3B,4},{0xD3D,0},
{0xD3E,4},{0xD3F,6},{0xD41,4},{0xD45,0},{0xD46,6},{0xD49,0},{0xD4A,6},{0xD4D,4},{0xD4E,7},{0xD4F,0},{0xD57,4},{0xD58,0},
{0xD62,4},{0xD64,0},{0xD81,4},{0xD82,6},{0xD84,0},{0xDCA,4},{0xDCB,0},{0xDCF,4},{0xDD0,6},{0xDD2,4},{0xDD5,0},{0xDD6,4},
{0xDD7,0},{0xDD8,6},{0xDDF,4},{0xDE0,0},{0xDF2,6},{0xDF4,0},{0xE31,4},{0xE32,0},{0xE33,6},{0xE34,4},{0xE3B,0},{0xE47,4},
{0xE4F,0},{0xEB1,4},{0xEB2,0},{0xEB3,6},{0xEB4,4},{0xEBD,0},{0xEC8,4},{0xECE,0},{0xF18,4},{0xF1A,0},{0xF35,4},{0xF36,0},
{0xF37,4},{0xF38,0},{0xF39,4},{0xF3A,0},{0xF3E,6},{0xF40,0},{0xF71,4},{0xF7F,6},{0xF80,4},{0xF85,0},{0xF86,4},{0xF88,0},
{0xF8D,4},{0xF98,0},{0xF99,4},{0xFBD,0},{0xFC6,4},{0xFC7,0},{0x102D,4},{0x1031,6},{0x1032,4},{0x1038,0},{0x1039,4},{0x103B,6},
{0x103D,4},{0x103F,0},{0x1056,6},{0x1058,4},{0x105A,0},{0x105E,4},{0x1061,0},{0x1071,4},{0x1075,0},{0x1082,4},{0x1083,0},{0x1084,6},
{0x1085,4},{0x1087,0},{0x108D,4},{0x108E,0},{0x109D,4},{0x109E,0},{0x1100,10},{0x1160,11},{0x11A8,12},{0x1200,0},{0x135D,4},{0x1360,0},
{0x1712,4},{0x1715,0},{0x1732,4},{0x1735,0},{0x1752,4},{0x1754,0},{0x1772,4},{0x1774,0},{0x17B4,4},{0x17B6,6},{0x17B7,4},{0x17BE,6},
{0x17C6,4},{0x17C7,6},{0x17C9,4},{0x17D4,0},{0x17DD,4},{0x17DE,0},{0x180B,4},{0x180E,3},{0x180F,0},{0x1885,4},{0x1887,0},{0x18A9,4},
{0x18AA,0},{0x1920,4},{0x1923,6},{0x1927,4},{0x1929,6},{0x192C,0},{0x1930,6},{0x1932,4},{0x1933,6},{0x1939,4},{0x193C,0},{0x1A17,4},
{0x1A19,6},{0x1A1B,4},{0x1A1C,0},{0x1A55,6},{0x1A56,4},{0x1A57,6},{0x1A58,4},{0x1A5F,0},{0x1A60,4},{0x1A61,0},{0x1A62,4},{0x1A63,0},
{0x1A65,4},{0x1A6D,6},{0x1A73,4},{0x1A7D,0},{0x1A7F,4},{0x1A80,0},{0x1AB0,4},{0x1AC1,0},{0x1B00,4},{0x1B04,6},{0x1B05,0},{0x1B34,4},
{0x1B3B,6},{0x1B3C,4},{0x1B3D,6},{0x1B42,4},{0x1B43,6},{0x1B45,0},{0x1B6B,4},{0x1B74,0},{0x1B80,4},{0x1B82,6},{0x1B83,0},{0x1BA1,6},
{0x1BA2,4},{0x1BA6,6},{0x1BA8,4},{0x1BAA,6},{0x1BAB,4},{0x1BAE,0},{0x1BE6,4},{0x1BE7,6},{0x1BE8,4},{0x1BEA,6},{0x1BED,4},{0x1BEE,6},
{0x1BEF,4},{0x1BF2,6},{0x1BF4,0},{0x1C24,6},{0x1C2C,4},{0x1C34,6},{0x1C36,4},{0x1C38,0},{0x1CD0,4},{0x1CD3,0},{0x1CD4,4},{0x1CE1,6},
{0x1CE2,4},{0x1CE9,0},{0x1CED,4},{0x1CEE,0},{0x1CF4,4},{0x1CF5,0},{0x1CF7,6},{0x1CF8,4},{0x1CFA,0},{0x1DC0,4},{0x1DFA,0},{0x1DFB,4},
{0x1E00,0},{0x200B,3},{0x200C,4},{0x200D,5},{0x200E,3},{0x2010,0},{0x2028,3},{0x202F,0},{0x203C,9},{0x203D,0},{0x2049,9},{0x204A,0},
{0x2060,3},{0x2070,0},{0x20D0,4},{0x20F1,0},{0x2122,9},{0x2123,0},{0x2139,9},{0x213A,0},{0x2194,9},{0x219A,0},{0x21A9,9},{0x21AB,0},
{0x231A,9},{0x231C,0},{0x2328,9},{0x2329,0},{0x2388,9},{0x2389,0},{0x23CF,9},{0x23D0,0},{0x23E9,9},{0x23F4,0},{0x23F8,9},{0x23FB,0},
{0x24C2,9},{0x24C3,0},{0x25AA,9},{0x25AC,0},{0x25B6,9},{0x25B7,0},{0x25C0,9},{0x25C1,0},{0x25FB,9},{0x25FF,0},{0x2600,9},{0x2606,0},
{0x2607,9},{0x2613,0},{0x2614,9},{0x2686,0},{0x2690,9},{0x2706,0},{0x2708,9},{0x2713,0},{0x2714,9},{0x2715,0},{0x2716,9},{0x2717,0},
{0x271D,9},{0x271E,0},{0x2721,9},{0x2722,0},{0x2728,9},{0x2729,0},{0x2733,9},{0x2735,0},{0x2744,9},{0x2745,0},{0x2747,9},{0x2748,0},
{0x274C,9},{0x274D,0},{0x274E,9},{0x274F,0},{0x2753,9},{0x2756,0},{0x2757,9},{0x2758,0},{0x2763,9},{0x2768,0},{0x2795,9},{0x2798,0},
{0x27A1,9},{0x27A2,0},{0x27B0,9},{0x27B1,0},{0x27BF,9},{0x27C0,0},{0x2934,9},{0x2936,0},{0x2B05,9},{0x2B08,0},{0x2B1B,9},{0x2B1D,0},
{0x2B50,9},{0x2B51,0},{0x2B55,9},{0x2B56,0},{0x2CEF,4},{0x2CF2,0},{0x2D7F,4},{0x2D80,0},{0x2DE0,4},{0x2E00,0},{0x302A,4},{0x3030,9},
{0x3031,0},{0x303D,9},{0x303E,0},{0x3099,4},{0x309B,0},{0x3297,9},{0x3298,0},{0x3299,9},{0x329A,0},{0xA66F,4},{0xA673,0},{0xA674,4},
{0xA67E,0},{0xA69E,4},{0xA6A0,0},{0xA6F0,4},{0xA6F2,0},{0xA802,4},{0xA803,0},{0xA806,4},{0xA807,0},{0xA80B,4},{0xA80C,0},{0xA823,6},
{0xA825,4},{0xA827,6},{0xA828,0},{0xA82C,4},{0xA82D,0},{0xA880,6},{0xA882,0},{0xA8B4,6},{0xA8C4,4},{0xA8C6,0},{0xA8E0,4},{0xA8F2,0},
{0xA8FF,4},{0xA900,0},{0xA926,4},{0xA92E,0},{0xA947,4},{0xA952,6},{0xA954,0},{0xA960,10},{0xA97D,0},{0xA980,4},{0xA983,6},{0xA984,0},
{0xA9B3,4},{0xA9B4,6},{0xA9B6,4},{0xA9BA,6},{0xA9BC,4},{0xA9BE,6},{0xA9C1,0},{0xA9E5,4},{0xA9E6,0},{0xAA29,4},{0xAA2F,6},{0xAA31,4},
{0xAA33,6},{0xAA35,4},{0xAA37,0},{0xAA43,4},{0xAA44,0},{0xAA4C,4},{0xAA4D,6},{0xAA4E,0},{0xAA7C,4},{0xAA7D,0},{0xAAB0,4},{0xAAB1,0},
{0xAAB2,4},{0xAAB5,0},{0xAAB7,4},{0xAAB9,0},{0xAABE,4},{0xAAC0,0},{0xAAC1,4},{0xAAC2,0},{0xAAEB,6},{0xAAEC,4},{0xAAEE,6},{0xAAF0,0},
{0xAAF5,6},{0xAAF6,4},{0xAAF7,0},{0xABE3,6},{0xABE5,4},{0xABE6,6},{0xABE8,4},{0xABE9,6},{0xABEB,0},{0xABEC,6},{0xABED,4},{0xABEE,0},
{0xAC00,13},{0xAC01,14},{0xAC1C,13},{0xAC1D,14},{0xAC38,13},{0xAC39,14},{0xAC54,13},{0xAC55,14},{0xAC70,13},{0xAC71,14},{0xAC8C,13},{0xAC8D,14},
{0xACA8,13},{0xACA9,14},{0xACC4,13},{0xACC5,14},{0xACE0,13},{0xACE1,14},{0xACFC,13},{0xACFD,14},{0xAD18,13},{0xAD19,14},{0xAD34,13},{0xAD35,14},
{0xAD50,13},{0xAD51,14},{0xAD6C,13},{0xAD6D,14},{0xAD88,13},{0xAD89,14},{0xADA4,13},{0xADA5,14},{0xADC0,13},{0xADC1,14},{0xADDC,13},{0xADDD,14},
{0xADF8,13},{0xADF9,14},{0xAE14,13},{0xAE15,14},{0xAE30,13},{0xAE31,14},{0xAE4C,13},{0xAE4D,14},{0xAE68,13},{0xAE69,14},{0xAE84,13},{0xAE85,14},
{0xAEA0,13},{0xAEA1,14},{0xAEBC,13},{0xAEBD,14},{0xAED8,13},{0xAED9,14},{0xAEF4,13},{0xAEF5,14},{0xAF10,13},{0xAF11,14},{0xAF2C,13},{0xAF2D,14},
{0xAF48,13},{0xAF49,14},{0xAF64,13},{0xAF65,14},{0xAF80,13},{0xAF81,14},{0xAF9C,13},{0xAF9D,14},{0xAFB8,13},{0xAFB9,14},{0xAFD4,13},{0xAFD5,14},
{0xAFF0,13},{0xAFF1,14},{0xB00C,13},{0xB00D,14},{0xB028,13},{0xB029,14},{0xB044,13},{0xB045,14},{0xB060,13},{0xB061,14},{0xB07C,13},{0xB07D,14},
{0xB098,13},{0xB099,14},{0xB0B4,13},{0xB0B5,14},{0xB0D0,13},{0xB0D1,14},{0xB0EC,13},{0xB0ED,14},{0xB108,13},{0xB109,14},{0xB124,13},{0xB125,14},
{0xB140,13},{0xB141,14},{0xB15C,13},{0xB15D,14},{0xB178,13},{0xB179,14},{0xB194,13},{0xB195,14},{0xB1B0,13},{0xB1B1,14},{0xB1CC,13},{0xB1CD,14},
{0xB1E8,13},{0xB1E9,14},{0xB204,13},{0xB205,14},{0xB220,13},{0xB221,14},{0xB23C,13},{0xB23D,14},{0xB258,13},{0xB259,14},{0xB274,13},{0xB275,14},
{0xB290,13},{0xB291,14},{0xB2AC,13},{0xB2AD,14},{0xB2C8,13},{0xB2C9,14},{0xB2E4,13},{0xB2E5,14},{0xB300,13},{0xB301,14},{0xB31C,13},{0xB31D,14},
{0xB338,13},{0xB339,14},{0xB354,13},{0xB355,14},{0xB370,13},{0xB371,14},{0xB38C,13},{0xB38D,14},{0xB3A8,13},{0xB3A9,14},{0xB3C4,13},{0xB3C5,14},
{0xB3E0,13},{0xB3E1,14},{0xB3FC,13},{0xB3FD,14},{0xB418,13},{0xB419,14},{0xB434,13},{0xB435,14},{0xB450,13},{0xB451,14},{0xB46C,13},{0xB46D,14},
{0xB488,13},{0xB489,14},{0xB4A4,13},{0xB4A5,14},{0xB4C0,13},{0xB4C1,14},{0xB4DC,13},{0xB4DD,14},{0xB4F8,13},{0xB4F9,14},{0xB514,13},{0xB515,14},
{0xB530,13},{0xB531,14},{0xB54C,13},{0xB54D,14},{0xB568,13},{0xB569,14},{0xB584,13},{0xB585,14},{0xB5A0,13},{0xB5A1,14},{0xB5BC,13},{0xB5BD,14},
{0xB5D8,13},{0xB5D9,14},{0xB5F4,13},{0xB5F5,14},{0xB610,13},{0xB611,14},{0xB62C,13},{0xB62D,14},{0xB648,13},{0xB649,14},{0xB664,13},{0xB665,14},
{0xB680,13},{0xB681,14},{0xB69C,13},{0xB69D,14},{0xB6B8,13},{0xB6B9,14},{0xB6D4,13},{0xB6D5,14},{0xB6F0,13},{0xB6F1,14},{0xB70C,13},{0xB70D,14},
{0xB728,13},{0xB729,14},{0xB744,13},{0xB745,14},{0xB760,13},{0xB761,14},{0xB77C,13},{0xB77D,14},{0xB798,13},{0xB799,14},{0xB7B4,13},{0xB7B5,14},
{0xB7D0,13},{0xB7D1,14},{0xB7EC,13},{0xB7ED,14},{0xB808,13},{0xB809,14},{0xB824,13},{0xB825,14},{0xB840,13},{0xB841,14},{0xB85C,13},{0xB85D,14},
{0xB878,13},{0xB879,14},{0xB894,13},{0xB895,14},{0xB8B0,13},{0xB8B1,14},{0xB8CC,13},{0xB8CD,14},{0xB8E8,13},{0xB8E9,14},{0xB904,13},{0xB905,14},
{0xB920,13},{0xB921,14},{0xB93C,13},{0xB93D,14},{0xB958,13},{0xB959,14},{0xB974,13},{0xB975,14},{0xB990,13},{0xB991,14},{0xB9AC,13},{0xB9AD,14},
{0xB9C8,13},{0xB9C9,14},{0xB9E4,13},{0xB9E5,14},{0xBA00,13},{0xBA01,14},{0xBA1C,13},{0xBA1D,14},{0xBA38,13},{0xBA39,14},{0xBA54,13},{0xBA55,14},
{0xBA70,13},{0xBA71,14},{0xBA8C,13},{0xBA8D,14},{0xBAA8,13},{0xBAA9,14},{0xBAC4,13},{0xBAC5,14},{0xBAE0,13},{0xBAE1,14},{0xBAFC,13},{0xBAFD,14},
{0xBB18,13},{0xBB19,14},{0xBB34,13},{0xBB35,14},{0xBB50,13},{0xBB51,14},{0xBB6C,13},{0xBB6D,14},{0xBB88,13},{0xBB89,14},{0xBBA4,13},{0xBBA5,14},
{0xBBC0,13},{0xBBC1,14},{0xBBDC,13},{0xBBDD,14},{0xBBF8,13},{0xBBF9,14},{0xBC14,13},{0xBC15,14},{0xBC30,13},{0xBC31,14},{0xBC4C,13},{0xBC4D,14},
{0xBC68,13},{0xBC69,14},{0xBC84,13},{0xBC85,14},{0xBCA0,13},{0xBCA1,14},{0xBCBC,13},{0xBCBD,14},{0xBCD8,13},{0xBCD9,14},{0xBCF4,13},{0xBCF5,14},
{0xBD10,13},{0xBD11,14},{0xBD2C,13},{0xBD2D,14},{0xBD48,13},{0xBD49,14},{0xBD64,13},{0xBD65,14},{0xBD80,13},{0xBD81,14},{0xBD9C,13},{0xBD9D,14},
{0xBDB8,13},{0xBDB9,14},{0xBDD4,13},{0xBDD5,14},{0xBDF0,13},{0xBDF1,14},{0xBE0C,13},{0xBE0D,14},{0xBE28,13},{0xBE29,14},{0xBE44,13},{0xBE45,14},
{0xBE60,13},{0xBE61,14},{0xBE7C,13},{0xBE7D,14},{0xBE98,13},{0xBE99,14},{0xBEB4,13},{0xBEB5,14},{0xBED0,13},{0xBED1,14},{0xBEEC,13},{0xBEED,14},
{0xBF08,13},{0xBF09,14},{0xBF24,13},{0xBF25,14},{0xBF40,13},{0xBF41,14},{0xBF5C,13},{0xBF5D,14},{0xBF78,13},{0xBF79,14},{0xBF94,13},{0xBF95,14},
{0xBFB0,13},{0xBFB1,14},{0xBFCC,13},{0xBFCD,14},{0xBFE8,13},{0xBFE9,14},{0xC004,13},{0xC005,14},{0xC020,13},{0xC021,14},{0xC03C,13},{0xC03D,14},
{0xC058,13},{0xC059,14},{0xC074,13},{0xC075,14},{0xC090,13},{0xC091,14},{0xC0AC,13},{0xC0AD,14},{0xC0C8,13},{0xC0C9,14},{0xC0E4,13},{0xC0E5,14},
{0xC100,13},{0xC101,14},{0xC11C,13},{0xC11D,14},{0xC138,13},{0xC139,14},{0xC154,13},{0xC155,14},{0xC170,13},{0xC171,14},{0xC18C,13},{0xC18D,14},
{0xC1A8,13},{0xC1A9,14},{0xC1C4,13},{0xC1C5,14},{0xC1E0,13},{0xC1E1,14},{0xC1FC,13},{0xC1FD,14},{0xC218,13},{0xC219,14},{0xC234,13},{0xC235,14},
{0xC250,13},{0xC251,14},{0xC26C,13},{0xC26D,14},{0xC288,13},{0xC289,14},{0xC2A4,13},{0xC2A5,14},{0xC2C0,13},{0xC2C1,14},{0xC2DC,13},{0xC2DD,14},
{0xC2F8,13},{0xC2F9,14},{0xC314,13},{0xC315,14},{0xC330,13},{0xC331,14},{0xC34C,13},{0xC34D,14},{0xC368,13},{0xC369,14},{0xC384,13},{0xC385,14},
{0xC3A0,13},{0xC3A1,14},{0xC3BC,13},{0xC3BD,14},{0xC3D8,13},{0xC3D9,14},{0xC3F4,13},{0xC3F5,14},{0xC410,13},{0xC411,14},{0xC42C,13},{0xC42D,14},
{0xC448,13},{0xC449,14},{0xC464,13},{0xC465,14},{0xC480,13},{0xC481,14},{0xC49C,13},{0xC49D,14},{0xC4B8,13},{0xC4B9,14},{0xC4D4,13},{0xC4D5,14},
{0xC4F0,13},{0xC4F1,14},{0xC50C,13},{0xC50D,14},{0xC528,13},{0xC529,14},{0xC544,13},{0xC545,14},{0xC560,13},{0xC561,14},{0xC57C,13},{0xC57D,14},
{0xC598,13},{0xC599,14},{0xC5B4,13},{0xC5B5,14},{0xC5D0,13},{0xC5D1,14},{0xC5EC,13},{0xC5ED,14},{0xC608,13},{0xC609,14},{0xC624,13},{0xC625,14},
{0xC640,13},{0xC641,14},{0xC65C,13},{0xC65D,14},{0xC678,13},{0xC679,14},{0xC694,13},{0xC695,14},{0xC6B0,13},{0xC6B1,14},{0xC6CC,13},{0xC6CD,14},
{0xC6E8,13},{0xC6E9,14},{0xC704,13},{0xC705,14},{0xC720,13},{0xC721,14},{0xC73C,13},{0xC73D,14},{0xC758,13},{0xC759,14},{0xC774,13},{0xC775,14},
{0xC790,13},{0xC791,14},{0xC7AC,13},{0xC7AD,14},{0xC7C8,13},{0xC7C9,14},{0xC7E4,13},{0xC7E5,14},{0xC800,13},{0xC801,14},{0xC81C,13},{0xC81D,14},
{0xC838,13},{0xC839,14},{0xC854,13},{0xC855,14},{0xC870,13},{0xC871,14},{0xC88C,13},{0xC88D,14},{0xC8A8,13},{0xC8A9,14},{0xC8C4,13},{0xC8C5,14},
{0xC8E0,13},{0xC8E1,14},{0xC8FC,13},{0xC8FD,14},{0xC918,13},{0xC919,14},{0xC934,13},{0xC935,14},{0xC950,13},{0xC951,14},{0xC96C,13},{0xC96D,14},
{0xC988,13},{0xC989,14},{0xC9A4,13},{0xC9A5,14},{0xC9C0,13},{0xC9C1,14},{0xC9DC,13},{0xC9DD,14},{0xC9F8,13},{0xC9F9,14},{0xCA14,13},{0xCA15,14},
{0xCA30,13},{0xCA31,14},{0xCA4C,13},{0xCA4D,14},{0xCA68,13},{0xCA69,14},{0xCA84,13},{0xCA85,14},{0xCAA0,13},{0xCAA1,14},{0xCABC,13},{0xCABD,14},
{0xCAD8,13},{0xCAD9,14},{0xCAF4,13},{0xCAF5,14},{0xCB10,13},{0xCB11,14},{0xCB2C,13},{0xCB2D,14},{0xCB48,13},{0xCB49,14},{0xCB64,13},{0xCB65,14},
{0xCB80,13},{0xCB81,14},{0xCB9C,13},{0xCB9D,14},{0xCBB8,13},{0xCBB9,14},{0xCBD4,13},{0xCBD5,14},{0xCBF0,13},{0xCBF1,14},{0xCC0C,13},{0xCC0D,14},
{0xCC28,13},{0xCC29,14},{0xCC44,13},{0xCC45,14},{0xCC60,13},{0xCC61,14},{0xCC7C,13},{0xCC7D,14},{0xCC98,13},{0xCC99,14},{0xCCB4,13},{0xCCB5,14},
{0xCCD0,13},{0xCCD1,14},{0xCCEC,13},{0xCCED,14},{0xCD08,13},{0xCD09,14},{0xCD24,13},{0xCD25,14},{0xCD40,13},{0xCD41,14},{0xCD5C,13},{0xCD5D,14},
{0xCD78,13},{0xCD79,14},{0xCD94,13},{0xCD95,14},{0xCDB0,13},{0xCDB1,14},{0xCDCC,13},{0xCDCD,14},{0xCDE8,13},{0xCDE9,14},{0xCE04,13},{0xCE05,14},
{0xCE20,13},{0xCE21,14},{0xCE3C,13},{0xCE3D,14},{0xCE58,13},{0xCE59,14},{0xCE74,13},{0xCE75,14},{0xCE90,13},{0xCE91,14},{0xCEAC,13},{0xCEAD,14},
{0xCEC8,13},{0xCEC9,14},{0xCEE4,13},{0xCEE5,14},{0xCF00,13},{0xCF01,14},{0xCF1C,13},{0xCF1D,14},{0xCF38,13},{0xCF39,14},{0xCF54,13},{0xCF55,14},
{0xCF70,13},{0xCF71,14},{0xCF8C,13},{0xCF8D,14},{0xCFA8,13},{0xCFA9,14},{0xCFC4,13},{0xCFC5,14},{0xCFE0,13},{0xCFE1,14},{0xCFFC,13},{0xCFFD,14},
{0xD018,13},{0xD019,14},{0xD034,13},{0xD035,14},{0xD050,13},{0xD051,14},{0xD06C,13},{0xD06D,14},{0xD088,13},{0xD089,14},{0xD0A4,13},{0xD0A5,14},
{0xD0C0,13},{0xD0C1,14},{0xD0DC,13},{0xD0DD,14},{0xD0F8,13},{0xD0F9,14},{0xD114,13},{0xD115,14},{0xD130,13},{0xD131,14},{0xD14C,13},{0xD14D,14},
{0xD168,13},{0xD169,14},{0xD184,13},{0xD185,14},{0xD1A0,13},{0xD1A1,14},{0xD1BC,13},{0xD1BD,14},{0xD1D8,13},{0xD1D9,14},{0xD1F4,13},{0xD1F5,14},
{0xD210,13},{0xD211,14},{0xD22C,13},{0xD22D,14},{0xD248,13},{0xD249,14},{0xD264,13},{0xD265,14},{0xD280,13},{0xD281,14},{0xD29C,13},{0xD29D,14},
{0xD2B8,13},{0xD2B9,14},{0xD2D4,13},{0xD2D5,14},{0xD2F0,13},{0xD2F1,14},{0xD30C,13},{0xD30D,14},{0xD328,13},{0xD329,14},{0xD344,13},{0xD345,14},
{0xD360,13},{0xD361,14},{0xD37C,13},{0xD37D,14},{0xD398,13},{0xD399,14},{0xD3B4,13},{0xD3B5,14},{0xD3D0,13},{0xD3D1,14},{0xD3EC,13},{0xD3ED,14},
{0xD408,13},{0xD409,14},{0xD424,13},{0xD425,14},{0xD440,13},{0xD441,14},{0xD45C,13},{0xD45D,14},{0xD478,13},{0xD479,14},{0xD494,13},{0xD495,14},
{0xD4B0,13},{0xD4B1,14},{0xD4CC,13},{0xD4CD,14},{0xD4E8,13},{0xD4E9,14},{0xD504,13},{0xD505,14},{0xD520,13},{0xD521,14},{0xD53C,13},{0xD53D,14},
{0xD558,13},{0xD559,14},{0xD574,13},{0xD575,14},{0xD590,13},{0xD591,14},{0xD5AC,13},{0xD5AD,14},{0xD5C8,13},{0xD5C9,14},{0xD5E4,13},{0xD5E5,14},
{0xD600,13},{0xD601,14},{0xD61C,13},{0xD61D,14},{0xD638,13},{0xD639,14},{0xD654,13},{0xD655,14},{0xD670,13},{0xD671,14},{0xD68C,13},{0xD68D,14},
{0xD6A8,13},{0xD6A9,14},{0xD6C4,13},{0xD6C5,14},{0xD6E0,13},{0xD6E1,14},{0xD6FC,13},{0xD6FD,14},{0xD718,13},{0xD719,14},{0xD734,13},{0xD735,14},
{0xD750,13},{0xD751,14},{0xD76C,13},{0xD76D,14},{0xD788,13},{0xD789,14},{0xD7A4,0},{0xD7B0,11},{0xD7C7,0},{0xD7CB,12},{0xD7FC,0},{0xFB1E,4},
{0xFB1F,0},{0xFE00,4},{0xFE10,0},{0xFE20,4},{0xFE30,0},{0xFEFF,3},{0xFF00,0},{0xFF9E,4},{0xFFA0,0},{0xFFF0,3},{0xFFFC,0},{0x101FD,4},
{0x101FE,0},{0x102E0,4},{0x102E1,0},{0x10376,4},{0x1037B,0},{0x10A01,4},{0x10A04,0},{0x10A05,4},{0x10A07,0},{0x10A0C,4},{0x10A10,0},{0x10A38,4},
{0x10A3B,0},{0x10A3F,4},{0x10A40,0},{0x10AE5,4},{0x10AE7,0},{0x10D24,4},{0x10D28,0},{0x10EAB,4},{0x10EAD,0},{0x10F46,4},{0x10F51,0},{0x11000,6},
{0x11001,4},{0x11002,6},{0x11003,0},{0x11038,4},{0x11047,0},{0x1107F,4},{0x11082,6},{0x11083,0},{0x110B0,6},{0x110B3,4},{0x110B7,6},{0x110B9,4},
{0x110BB,0},{0x110BD,7},{0x110BE,0},{0x110CD,7},{0x110CE,0},{0x11100,4},{0x11103,0},{0x11127,4},{0x1112C,6},{0x1112D,4},{0x11135,0},{0x11145,6},
{0x11147,0},{0x11173,4},{0x11174,0},{0x11180,4},{0x11182,6},{0x11183,0},{0x111B3,6},{0x111B6,4},{0x111BF,6},{0x111C1,0},{0x111C2,7},{0x111C4,0},
{0x111C9,4},{0x111CD,0},{0x111CE,6},{0x111CF,4},{0x111D0,0},{0x1122C,6},{0x1122F,4},{0x11232,6},{0x11234,4},{0x11235,6},{0x11236,4},{0x11238,0},
{0x1123E,4},{0x1123F,0},{0x112DF,4},{0x112E0,6},{0x112E3,4},{0x112EB,0},{0x11300,4},{0x11302,6},{0x11304,0},{0x1133B,4},{0x1133D,0},{0x1133E,4},
{0x1133F,6},{0x11340,4},{0x11341,6},{0x11345,0},{0x11347,6},{0x11349,0},{0x1134B,6},{0x1134E,0},{0x11357,4},{0x11358,0},{0x11362,6},{0x11364,0},
{0x11366,4},{0x1136D,0},{0x11370,4},{0x11375,0},{0x11435,6},{0x11438,4},{0x11440,6},{0x11442,4},{0x11445,6},{0x11446,4},{0x11447,0},{0x1145E,4},
{0x1145F,0},{0x114B0,4},{0x114B1,6},{0x114B3,4},{0x114B9,6},{0x114BA,4},{0x114BB,6},{0x114BD,4},{0x114BE,6},{0x114BF,4},{0x114C1,6},{0x114C2,4},
{0x114C4,0},{0x115AF,4},{0x115B0,6},{0x115B2,4},{0x115B6,0},{0x115B8,6},{0x115BC,4},{0x115BE,6},{0x115BF,4},{0x115C1,0},{0x115DC,4},{0x115DE,0},
{0x11630,6},{0x11633,4},{0x1163B,6},{0x1163D,4},{0x1163E,6},{0x1163F,4},{0x11641,0},{0x116AB,4},{0x116AC,6},{0x116AD,4},{0x116AE,6},{0x116B0,4},
{0x116B6,6},{0x116B7,4},{0x116B8,0},{0x1171D,4},{0x11720,0},{0x11722,4},{0x11726,6},{0x11727,4},{0x1172C,0},{0x1182C,6},{0x1182F,4},{0x11838,6},
{0x11839,4},{0x1183B,0},{0x11930,4},{0x11931,6},{0x11936,0},{0x11937,6},{0x11939,0},{0x1193B,4},{0x1193D,6},{0x1193E,4},{0x1193F,7},{0x11940,6},
{0x11941,7},{0x11942,6},{0x11943,4},{0x11944,0},{0x119D1,6},{0x119D4,4},{0x119D8,0},{0x119DA,4},{0x119DC,6},{0x119E0,4},{0x119E1,0},{0x119E4,6},
{0x119E5,0},{0x11A01,4},{0x11A0B,0},{0x11A33,4},{0x11A39,6},{0x11A3A,7},{0x11A3B,4},{0x11A3F,0},{0x11A47,4},{0x11A48,0},{0x11A51,4},{0x11A57,6},
{0x11A59,4},{0x11A5C,0},{0x11A84,7},{0x11A8A,4},{0x11A97,6},{0x11A98,4},{0x11A9A,0},{0x11C2F,6},{0x11C30,4},{0x11C37,0},{0x11C38,4},{0x11C3E,6},
{0x11C3F,4},{0x11C40,0},{0x11C92,4},{0x11CA8,0},{0x11CA9,6},{0x11CAA,4},{0x11CB1,6},{0x11CB2,4},{0x11CB4,6},{0x11CB5,4},{0x11CB7,0},{0x11D31,4},
{0x11D37,0},{0x11D3A,4},{0x11D3B,0},{0x11D3C,4},{0x11D3E,0},{0x11D3F,4},{0x11D46,7},{0x11D47,4},{0x11D48,0},{0x11D8A,6},{0x11D8F,0},{0x11D90,4},
{0x11D92,0},{0x11D93,6},{0x11D95,4},{0x11D96,6},{0x11D97,4},{0x11D98,0},{0x11EF3,4},{0x11EF5,6},{0x11EF7,0},{0x13430,3},{0x13439,0},{0x16AF0,4},
{0x16AF5,0},{0x16B30,4},{0x16B37,0},{0x16F4F,4},{0x16F50,0},{0x16F51,6},{0x16F88,0},{0x16F8F,4},{0x16F93,0},{0x16FE4,4},{0x16FE5,0},{0x16FF0,6},
{0x16FF2,0},{0x1BC9D,4},{0x1BC9F,0},{0x1BCA0,3},{0x1BCA4,0},{0x1D165,4},{0x1D166,6},{0x1D167,4},{0x1D16A,0},{0x1D16D,6},{0x1D16E,4},{0x1D173,3},
{0x1D17B,4},{0x1D183,0},{0x1D185,4},{0x1D18C,0},{0x1D1AA,4},{0x1D1AE,0},{0x1D242,4},{0x1D245,0},{0x1DA00,4},{0x1DA37,0},{0x1DA3B,4},{0x1DA6D,0},
{0x1DA75,4},{0x1DA76,0},{0x1DA84,4},{0x1DA85,0},{0x1DA9B,4},{0x1DAA0,0},{0x1DAA1,4},{0x1DAB0,0},{0x1E000,4},{0x1E007,0},{0x1E008,4},{0x1E019,0},
{0x1E01B,4},{0x1E022,0},{0x1E023,4},{0x1E025,0},{0x1E026,4},{0x1E02B,0},{0x1E130,4},{0x1E137,0},{0x1E2EC,4},{0x1E2F0,0},{0x1E8D0,4},{0x1E8D7,0},
{0x1E944,4},{0x1E94B,0},{0x1F000,9},{0x1F100,0},{0x1F10D,9},{0x1F110,0},{0x1F12F,9},{0x1F130,0},{0x1F16C,9},{0x1F172,0},{0x1F17E,9},{0x1F180,0},
{0x1F18E,9},{0x1F18F,0},{0x1F191,9},{0x1F19B,0},{0x1F1AD,9},{0x1F1E6,8},{0x1F200,0},{0x1F201,9},{0x1F210,0},{0x1F21A,9},{0x1F21B,0},{0x1F22F,9},
{0x1F230,0},{0x1F232,9},{0x1F23B,0},{0x1F23C,9},{0x1F240,0},{0x1F249,9},{0x1F3FB,4},{0x1F400,9},{0x1F53E,0},{0x1F546,9},{0x1F650,0},{0x1F680,9},
{0x1F700,0},{0x1F774,9},{0x1F780,0},{0x1F7D5,9},{0x1F800,0},{0x1F80C,9},{0x1F810,0},{0x1F848,9},{0x1F850,0},{0x1F85A,9},{0x1F860,0},{0x1F888,9},
{0x1F890,0},{0x1F8AE,9},{0x1F900,0},{0x1F90C,9},{0x1F93B,0},{0x1F93C,9},{0x1F946,0},{0x1F947,9},{0x1FB00,0},{0x1FC00,9},{0x1FFFE,0},{0xE0000,3},
{0xE0020,4},{0xE0080,3},{0xE0100,4},{0xE01F0,3},{0xE1000,0},
