// generated by gen_ucd.py; do not edit
static const uint32_t kAssigned[][3] = { // first, last, since version
{0x0,0x377,7},
{0x37A,0x37F,7},
{0x384,0x38A,7},
{0x38C,0x38C,7},
{0x38E,0x3A1,7},
{0x3A3,0x52F,7},
{0x531,0x556,7},
{0x559,0x55F,7},
{0x560,0x560,11},
{0x561,0x587,7},
{0x588,0x588,11},
{0x589,0x58A,7},
{0x58D,0x58F,7},
{0x591,0x5C7,7},
{0x5D0,0x5EA,7},
{0x5EF,0x5EF,11},
{0x5F0,0x5F4,7},
{0x600,0x61C,7},
{0x61D,0x61D,14},
{0x61E,0x70D,7},
{0x70F,0x74A,7},
{0x74D,0x7B1,7},
{0x7C0,0x7FA,7},
{0x7FD,0x7FF,11},
{0x800,0x82D,7},
{0x830,0x83E,7},
{0x840,0x85B,7},
{0x85E,0x85E,7},
{0x860,0x86A,10},
{0x870,0x88E,14},
{0x890,0x891,14},
{0x897,0x897,16},
{0x898,0x89F,14},
{0x8A0,0x8B2,7},
{0x8B3,0x8B4,8},
{0x8B5,0x8B5,14},
{0x8B6,0x8BD,9},
{0x8BE,0x8C7,13},
{0x8C8,0x8D2,14},
{0x8D3,0x8D3,11},
{0x8D4,0x8E2,9},
{0x8E3,0x8E3,8},
{0x8E4,0x983,7},
{0x985,0x98C,7},
{0x98F,0x990,7},
{0x993,0x9A8,7},
{0x9AA,0x9B0,7},
{0x9B2,0x9B2,7},
{0x9B6,0x9B9,7},
{0x9BC,0x9C4,7},
{0x9C7,0x9C8,7},
{0x9CB,0x9CE,7},
{0x9D7,0x9D7,7},
{0x9DC,0x9DD,7},
{0x9DF,0x9E3,7},
{0x9E6,0x9FB,7},
{0x9FC,0x9FD,10},
{0x9FE,0x9FE,11},
{0xA01,0xA03,7},
{0xA05,0xA0A,7},
{0xA0F,0xA10,7},
{0xA13,0xA28,7},
{0xA2A,0xA30,7},
{0xA32,0xA33,7},
{0xA35,0xA36,7},
{0xA38,0xA39,7},
{0xA3C,0xA3C,7},
{0xA3E,0xA42,7},
{0xA47,0xA48,7},
{0xA4B,0xA4D,7},
{0xA51,0xA51,7},
{0xA59,0xA5C,7},
{0xA5E,0xA5E,7},
{0xA66,0xA75,7},
{0xA76,0xA76,11},
{0xA81,0xA83,7},
{0xA85,0xA8D,7},
{0xA8F,0xA91,7},
{0xA93,0xAA8,7},
{0xAAA,0xAB0,7},
{0xAB2,0xAB3,7},
{0xAB5,0xAB9,7},
{0xABC,0xAC5,7},
{0xAC7,0xAC9,7},
{0xACB,0xACD,7},
{0xAD0,0xAD0,7},
{0xAE0,0xAE3,7},
{0xAE6,0xAF1,7},
{0xAF9,0xAF9,8},
{0xAFA,0xAFF,10},
{0xB01,0xB03,7},
{0xB05,0xB0C,7},
{0xB0F,0xB10,7},
{0xB13,0xB28,7},
{0xB2A,0xB30,7},
{0xB32,0xB33,7},
{0xB35,0xB39,7},
{0xB3C,0xB44,7},
{0xB47,0xB48,7},
{0xB4B,0xB4D,7},
{0xB55,0xB55,13},
{0xB56,0xB57,7},
{0xB5C,0xB5D,7},
{0xB5F,0xB63,7},
{0xB66,0xB77,7},
{0xB82,0xB83,7},
{0xB85,0xB8A,7},
{0xB8E,0xB90,7},
{0xB92,0xB95,7},
{0xB99,0xB9A,7},
{0xB9C,0xB9C,7},
{0xB9E,0xB9F,7},
{0xBA3,0xBA4,7},
{0xBA8,0xBAA,7},
{0xBAE,0xBB9,7},
{0xBBE,0xBC2,7},
{0xBC6,0xBC8,7},
{0xBCA,0xBCD,7},
{0xBD0,0xBD0,7},
{0xBD7,0xBD7,7},
{0xBE6,0xBFA,7},
{0xC00,0xC03,7},
{0xC04,0xC04,11},
{0xC05,0xC0C,7},
{0xC0E,0xC10,7},
{0xC12,0xC28,7},
{0xC2A,0xC39,7},
{0xC3C,0xC3C,14},
{0xC3D,0xC44,7},
{0xC46,0xC48,7},
{0xC4A,0xC4D,7},
{0xC55,0xC56,7},
{0xC58,0xC59,7},
{0xC5A,0xC5A,8},
{0xC5D,0xC5D,14},
{0xC60,0xC63,7},
{0xC66,0xC6F,7},
{0xC77,0xC77,12},
{0xC78,0xC7F,7},
{0xC80,0xC80,9},
{0xC81,0xC83,7},
{0xC84,0xC84,11},
{0xC85,0xC8C,7},
{0xC8E,0xC90,7},
{0xC92,0xCA8,7},
{0xCAA,0xCB3,7},
{0xCB5,0xCB9,7},
{0xCBC,0xCC4,7},
{0xCC6,0xCC8,7},
{0xCCA,0xCCD,7},
{0xCD5,0xCD6,7},
{0xCDD,0xCDD,14},
{0xCDE,0xCDE,7},
{0xCE0,0xCE3,7},
{0xCE6,0xCEF,7},
{0xCF1,0xCF2,7},
{0xCF3,0xCF3,15},
{0xD00,0xD00,10},
{0xD01,0xD03,7},
{0xD04,0xD04,13},
{0xD05,0xD0C,7},
{0xD0E,0xD10,7},
{0xD12,0xD3A,7},
{0xD3B,0xD3C,10},
{0xD3D,0xD44,7},
{0xD46,0xD48,7},
{0xD4A,0xD4E,7},
{0xD4F,0xD4F,9},
{0xD54,0xD56,9},
{0xD57,0xD57,7},
{0xD58,0xD5E,9},
{0xD5F,0xD5F,8},
{0xD60,0xD63,7},
{0xD66,0xD75,7},
{0xD76,0xD78,9},
{0xD79,0xD7F,7},
{0xD81,0xD81,13},
{0xD82,0xD83,7},
{0xD85,0xD96,7},
{0xD9A,0xDB1,7},
{0xDB3,0xDBB,7},
{0xDBD,0xDBD,7},
{0xDC0,0xDC6,7},
{0xDCA,0xDCA,7},
{0xDCF,0xDD4,7},
{0xDD6,0xDD6,7},
{0xDD8,0xDDF,7},
{0xDE6,0xDEF,7},
{0xDF2,0xDF4,7},
{0xE01,0xE3A,7},
{0xE3F,0xE5B,7},
{0xE81,0xE82,7},
{0xE84,0xE84,7},
{0xE86,0xE86,12},
{0xE87,0xE88,7},
{0xE89,0xE89,12},
{0xE8A,0xE8A,7},
{0xE8C,0xE8C,12},
{0xE8D,0xE8D,7},
{0xE8E,0xE93,12},
{0xE94,0xE97,7},
{0xE98,0xE98,12},
{0xE99,0xE9F,7},
{0xEA0,0xEA0,12},
{0xEA1,0xEA3,7},
{0xEA5,0xEA5,7},
{0xEA7,0xEA7,7},
{0xEA8,0xEA9,12},
{0xEAA,0xEAB,7},
{0xEAC,0xEAC,12},
{0xEAD,0xEB9,7},
{0xEBA,0xEBA,12},
{0xEBB,0xEBD,7},
{0xEC0,0xEC4,7},
{0xEC6,0xEC6,7},
{0xEC8,0xECD,7},
{0xECE,0xECE,15},
{0xED0,0xED9,7},
{0xEDC,0xEDF,7},
{0xF00,0xF47,7},
{0xF49,0xF6C,7},
{0xF71,0xF97,7},
{0xF99,0xFBC,7},
{0xFBE,0xFCC,7},
{0xFCE,0xFDA,7},
{0x1000,0x10C5,7},
{0x10C7,0x10C7,7},
{0x10CD,0x10CD,7},
{0x10D0,0x1248,7},
{0x124A,0x124D,7},
{0x1250,0x1256,7},
{0x1258,0x1258,7},
{0x125A,0x125D,7},
{0x1260,0x1288,7},
{0x128A,0x128D,7},
{0x1290,0x12B0,7},
{0x12B2,0x12B5,7},
{0x12B8,0x12BE,7},
{0x12C0,0x12C0,7},
{0x12C2,0x12C5,7},
{0x12C8,0x12D6,7},
{0x12D8,0x1310,7},
{0x1312,0x1315,7},
{0x1318,0x135A,7},
{0x135D,0x137C,7},
{0x1380,0x1399,7},
{0x13A0,0x13F4,7},
{0x13F5,0x13F5,8},
{0x13F8,0x13FD,8},
{0x1400,0x169C,7},
{0x16A0,0x16F8,7},
{0x1700,0x170C,7},
{0x170D,0x170D,14},
{0x170E,0x1714,7},
{0x1715,0x1715,14},
{0x171F,0x171F,14},
{0x1720,0x1736,7},
{0x1740,0x1753,7},
{0x1760,0x176C,7},
{0x176E,0x1770,7},
{0x1772,0x1773,7},
{0x1780,0x17DD,7},
{0x17E0,0x17E9,7},
{0x17F0,0x17F9,7},
{0x1800,0x180E,7},
{0x180F,0x180F,14},
{0x1810,0x1819,7},
{0x1820,0x1877,7},
{0x1878,0x1878,11},
{0x1880,0x18AA,7},
{0x18B0,0x18F5,7},
{0x1900,0x191E,7},
{0x1920,0x192B,7},
{0x1930,0x193B,7},
{0x1940,0x1940,7},
{0x1944,0x196D,7},
{0x1970,0x1974,7},
{0x1980,0x19AB,7},
{0x19B0,0x19C9,7},
{0x19D0,0x19DA,7},
{0x19DE,0x1A1B,7},
{0x1A1E,0x1A5E,7},
{0x1A60,0x1A7C,7},
{0x1A7F,0x1A89,7},
{0x1A90,0x1A99,7},
{0x1AA0,0x1AAD,7},
{0x1AB0,0x1ABE,7},
{0x1ABF,0x1AC0,13},
{0x1AC1,0x1ACE,14},
{0x1B00,0x1B4B,7},
{0x1B4C,0x1B4C,14},
{0x1B4E,0x1B4F,16},
{0x1B50,0x1B7C,7},
{0x1B7D,0x1B7E,14},
{0x1B7F,0x1B7F,16},
{0x1B80,0x1BF3,7},
{0x1BFC,0x1C37,7},
{0x1C3B,0x1C49,7},
{0x1C4D,0x1C7F,7},
{0x1C80,0x1C88,9},
{0x1C89,0x1C8A,16},
{0x1C90,0x1CBA,11},
{0x1CBD,0x1CBF,11},
{0x1CC0,0x1CC7,7},
{0x1CD0,0x1CF6,7},
{0x1CF7,0x1CF7,10},
{0x1CF8,0x1CF9,7},
{0x1CFA,0x1CFA,12},
{0x1D00,0x1DF5,7},
{0x1DF6,0x1DF9,10},
{0x1DFA,0x1DFA,14},
{0x1DFB,0x1DFB,9},
{0x1DFC,0x1F15,7},
{0x1F18,0x1F1D,7},
{0x1F20,0x1F45,7},
{0x1F48,0x1F4D,7},
{0x1F50,0x1F57,7},
{0x1F59,0x1F59,7},
{0x1F5B,0x1F5B,7},
{0x1F5D,0x1F5D,7},
{0x1F5F,0x1F7D,7},
{0x1F80,0x1FB4,7},
{0x1FB6,0x1FC4,7},
{0x1FC6,0x1FD3,7},
{0x1FD6,0x1FDB,7},
{0x1FDD,0x1FEF,7},
{0x1FF2,0x1FF4,7},
{0x1FF6,0x1FFE,7},
{0x2000,0x2064,7},
{0x2066,0x2071,7},
{0x2074,0x208E,7},
{0x2090,0x209C,7},
{0x20A0,0x20BD,7},
{0x20BE,0x20BE,8},
{0x20BF,0x20BF,10},
{0x20C0,0x20C0,14},
{0x20D0,0x20F0,7},
{0x2100,0x2189,7},
{0x218A,0x218B,8},
{0x2190,0x23FA,7},
{0x23FB,0x23FE,9},
{0x23FF,0x23FF,10},
{0x2400,0x2426,7},
{0x2427,0x2429,16},
{0x2440,0x244A,7},
{0x2460,0x2B73,7},
{0x2B76,0x2B95,7},
{0x2B97,0x2B97,13},
{0x2B98,0x2BB9,7},
{0x2BBA,0x2BBC,11},
{0x2BBD,0x2BC8,7},
{0x2BC9,0x2BC9,12},
{0x2BCA,0x2BD1,7},
{0x2BD2,0x2BD2,10},
{0x2BD3,0x2BEB,11},
{0x2BEC,0x2BEF,8},
{0x2BF0,0x2BFE,11},
{0x2BFF,0x2BFF,12},
{0x2C00,0x2C2E,7},
{0x2C2F,0x2C2F,14},
{0x2C30,0x2C5E,7},
{0x2C5F,0x2C5F,14},
{0x2C60,0x2CF3,7},
{0x2CF9,0x2D25,7},
{0x2D27,0x2D27,7},
{0x2D2D,0x2D2D,7},
{0x2D30,0x2D67,7},
{0x2D6F,0x2D70,7},
{0x2D7F,0x2D96,7},
{0x2DA0,0x2DA6,7},
{0x2DA8,0x2DAE,7},
{0x2DB0,0x2DB6,7},
{0x2DB8,0x2DBE,7},
{0x2DC0,0x2DC6,7},
{0x2DC8,0x2DCE,7},
{0x2DD0,0x2DD6,7},
{0x2DD8,0x2DDE,7},
{0x2DE0,0x2E42,7},
{0x2E43,0x2E44,9},
{0x2E45,0x2E49,10},
{0x2E4A,0x2E4E,11},
{0x2E4F,0x2E4F,12},
{0x2E50,0x2E52,13},
{0x2E53,0x2E5D,14},
{0x2E80,0x2E99,7},
{0x2E9B,0x2EF3,7},
{0x2F00,0x2FD5,7},
{0x2FF0,0x2FFB,7},
{0x2FFC,0x2FFF,16},
{0x3000,0x303F,7},
{0x3041,0x3096,7},
{0x3099,0x30FF,7},
{0x3105,0x312D,7},
{0x312E,0x312E,10},
{0x312F,0x312F,11},
{0x3131,0x318E,7},
{0x3190,0x31BA,7},
{0x31BB,0x31BF,13},
{0x31C0,0x31E3,7},
{0x31E4,0x31E5,16},
{0x31EF,0x31EF,16},
{0x31F0,0x321E,7},
{0x3220,0x32FE,7},
{0x32FF,0x32FF,13},
{0x3300,0x4DB5,7},
{0x4DB6,0x4DBF,13},
{0x4DC0,0x9FCC,7},
{0x9FCD,0x9FD5,8},
{0x9FD6,0x9FEA,10},
{0x9FEB,0x9FEF,11},
{0x9FF0,0x9FFC,13},
{0x9FFD,0x9FFF,14},
{0xA000,0xA48C,7},
{0xA490,0xA4C6,7},
{0xA4D0,0xA62B,7},
{0xA640,0xA69D,7},
{0xA69E,0xA69E,8},
{0xA69F,0xA6F7,7},
{0xA700,0xA78E,7},
{0xA78F,0xA78F,8},
{0xA790,0xA7AD,7},
{0xA7AE,0xA7AE,9},
{0xA7AF,0xA7AF,11},
{0xA7B0,0xA7B1,7},
{0xA7B2,0xA7B7,8},
{0xA7B8,0xA7B9,11},
{0xA7BA,0xA7BF,12},
{0xA7C0,0xA7C1,14},
{0xA7C2,0xA7C6,12},
{0xA7C7,0xA7CA,13},
{0xA7CB,0xA7CD,16},
{0xA7D0,0xA7D1,14},
{0xA7D3,0xA7D3,14},
{0xA7D5,0xA7D9,14},
{0xA7DA,0xA7DC,16},
{0xA7F2,0xA7F4,14},
{0xA7F5,0xA7F6,13},
{0xA7F7,0xA82B,7},
{0xA82C,0xA82C,13},
{0xA830,0xA839,7},
{0xA840,0xA877,7},
{0xA880,0xA8C4,7},
{0xA8C5,0xA8C5,9},
{0xA8CE,0xA8D9,7},
{0xA8E0,0xA8FB,7},
{0xA8FC,0xA8FD,8},
{0xA8FE,0xA8FF,11},
{0xA900,0xA953,7},
{0xA95F,0xA97C,7},
{0xA980,0xA9CD,7},
{0xA9CF,0xA9D9,7},
{0xA9DE,0xA9FE,7},
{0xAA00,0xAA36,7},
{0xAA40,0xAA4D,7},
{0xAA50,0xAA59,7},
{0xAA5C,0xAAC2,7},
{0xAADB,0xAAF6,7},
{0xAB01,0xAB06,7},
{0xAB09,0xAB0E,7},
{0xAB11,0xAB16,7},
{0xAB20,0xAB26,7},
{0xAB28,0xAB2E,7},
{0xAB30,0xAB5F,7},
{0xAB60,0xAB63,8},
{0xAB64,0xAB65,7},
{0xAB66,0xAB67,12},
{0xAB68,0xAB6B,13},
{0xAB70,0xABBF,8},
{0xABC0,0xABED,7},
{0xABF0,0xABF9,7},
{0xAC00,0xD7A3,7},
{0xD7B0,0xD7C6,7},
{0xD7CB,0xD7FB,7},
{0xF900,0xFA6D,7},
{0xFA70,0xFAD9,7},
{0xFB00,0xFB06,7},
{0xFB13,0xFB17,7},
{0xFB1D,0xFB36,7},
{0xFB38,0xFB3C,7},
{0xFB3E,0xFB3E,7},
{0xFB40,0xFB41,7},
{0xFB43,0xFB44,7},
{0xFB46,0xFBC1,7},
{0xFBC2,0xFBC2,14},
{0xFBD3,0xFD3F,7},
{0xFD40,0xFD4F,14},
{0xFD50,0xFD8F,7},
{0xFD92,0xFDC7,7},
{0xFDCF,0xFDCF,14},
{0xFDF0,0xFDFD,7},
{0xFDFE,0xFDFF,14},
{0xFE00,0xFE19,7},
{0xFE20,0xFE2D,7},
{0xFE2E,0xFE2F,8},
{0xFE30,0xFE52,7},
{0xFE54,0xFE66,7},
{0xFE68,0xFE6B,7},
{0xFE70,0xFE74,7},
{0xFE76,0xFEFC,7},
{0xFEFF,0xFEFF,7},
{0xFF01,0xFFBE,7},
{0xFFC2,0xFFC7,7},
{0xFFCA,0xFFCF,7},
{0xFFD2,0xFFD7,7},
{0xFFDA,0xFFDC,7},
{0xFFE0,0xFFE6,7},
{0xFFE8,0xFFEE,7},
{0xFFF9,0xFFFD,7},
{0x10000,0x1000B,7},
{0x1000D,0x10026,7},
{0x10028,0x1003A,7},
{0x1003C,0x1003D,7},
{0x1003F,0x1004D,7},
{0x10050,0x1005D,7},
{0x10080,0x100FA,7},
{0x10100,0x10102,7},
{0x10107,0x10133,7},
{0x10137,0x1018C,7},
{0x1018D,0x1018E,9},
{0x10190,0x1019B,7},
{0x1019C,0x1019C,13},
{0x101A0,0x101A0,7},
{0x101D0,0x101FD,7},
{0x10280,0x1029C,7},
{0x102A0,0x102D0,7},
{0x102E0,0x102FB,7},
{0x10300,0x10323,7},
{0x1032D,0x1032F,10},
{0x10330,0x1034A,7},
{0x10350,0x1037A,7},
{0x10380,0x1039D,7},
{0x1039F,0x103C3,7},
{0x103C8,0x103D5,7},
{0x10400,0x1049D,7},
{0x104A0,0x104A9,7},
{0x104B0,0x104D3,9},
{0x104D8,0x104FB,9},
{0x10500,0x10527,7},
{0x10530,0x10563,7},
{0x1056F,0x1056F,7},
{0x10570,0x1057A,14},
{0x1057C,0x1058A,14},
{0x1058C,0x10592,14},
{0x10594,0x10595,14},
{0x10597,0x105A1,14},
{0x105A3,0x105B1,14},
{0x105B3,0x105B9,14},
{0x105BB,0x105BC,14},
{0x105C0,0x105F3,16},
{0x10600,0x10736,7},
{0x10740,0x10755,7},
{0x10760,0x10767,7},
{0x10780,0x10785,14},
{0x10787,0x107B0,14},
{0x107B2,0x107BA,14},
{0x10800,0x10805,7},
{0x10808,0x10808,7},
{0x1080A,0x10835,7},
{0x10837,0x10838,7},
{0x1083C,0x1083C,7},
{0x1083F,0x10855,7},
{0x10857,0x1089E,7},
{0x108A7,0x108AF,7},
{0x108E0,0x108F2,8},
{0x108F4,0x108F5,8},
{0x108FB,0x108FF,8},
{0x10900,0x1091B,7},
{0x1091F,0x10939,7},
{0x1093F,0x1093F,7},
{0x10980,0x109B7,7},
{0x109BC,0x109BD,8},
{0x109BE,0x109BF,7},
{0x109C0,0x109CF,8},
{0x109D2,0x109FF,8},
{0x10A00,0x10A03,7},
{0x10A05,0x10A06,7},
{0x10A0C,0x10A13,7},
{0x10A15,0x10A17,7},
{0x10A19,0x10A33,7},
{0x10A34,0x10A35,11},
{0x10A38,0x10A3A,7},
{0x10A3F,0x10A47,7},
{0x10A48,0x10A48,11},
{0x10A50,0x10A58,7},
{0x10A60,0x10A9F,7},
{0x10AC0,0x10AE6,7},
{0x10AEB,0x10AF6,7},
{0x10B00,0x10B35,7},
{0x10B39,0x10B55,7},
{0x10B58,0x10B72,7},
{0x10B78,0x10B91,7},
{0x10B99,0x10B9C,7},
{0x10BA9,0x10BAF,7},
{0x10C00,0x10C48,7},
{0x10C80,0x10CB2,8},
{0x10CC0,0x10CF2,8},
{0x10CFA,0x10CFF,8},
{0x10D00,0x10D27,11},
{0x10D30,0x10D39,11},
{0x10D40,0x10D65,16},
{0x10D69,0x10D85,16},
{0x10D8E,0x10D8F,16},
{0x10E60,0x10E7E,7},
{0x10E80,0x10EA9,13},
{0x10EAB,0x10EAD,13},
{0x10EB0,0x10EB1,13},
{0x10EC2,0x10EC4,16},
{0x10EFC,0x10EFC,16},
{0x10EFD,0x10EFF,15},
{0x10F00,0x10F27,11},
{0x10F30,0x10F59,11},
{0x10F70,0x10F89,14},
{0x10FB0,0x10FCB,13},
{0x10FE0,0x10FF6,12},
{0x11000,0x1104D,7},
{0x11052,0x1106F,7},
{0x11070,0x11075,14},
{0x1107F,0x110C1,7},
{0x110C2,0x110C2,14},
{0x110CD,0x110CD,11},
{0x110D0,0x110E8,7},
{0x110F0,0x110F9,7},
{0x11100,0x11134,7},
{0x11136,0x11143,7},
{0x11144,0x11146,11},
{0x11147,0x11147,13},
{0x11150,0x11176,7},
{0x11180,0x111C8,7},
{0x111C9,0x111CC,8},
{0x111CD,0x111CD,7},
{0x111CE,0x111CF,13},
{0x111D0,0x111DA,7},
{0x111DB,0x111DF,8},
{0x111E1,0x111F4,7},
{0x11200,0x11211,7},
{0x11213,0x1123D,7},
{0x1123E,0x1123E,9},
{0x1123F,0x11241,15},
{0x11280,0x11286,8},
{0x11288,0x11288,8},
{0x1128A,0x1128D,8},
{0x1128F,0x1129D,8},
{0x1129F,0x112A9,8},
{0x112B0,0x112EA,7},
{0x112F0,0x112F9,7},
{0x11300,0x11300,8},
{0x11301,0x11303,7},
{0x11305,0x1130C,7},
{0x1130F,0x11310,7},
{0x11313,0x11328,7},
{0x1132A,0x11330,7},
{0x11332,0x11333,7},
{0x11335,0x11339,7},
{0x1133B,0x1133B,11},
{0x1133C,0x11344,7},
{0x11347,0x11348,7},
{0x1134B,0x1134D,7},
{0x11350,0x11350,8},
{0x11357,0x11357,7},
{0x1135D,0x11363,7},
{0x11366,0x1136C,7},
{0x11370,0x11374,7},
{0x11380,0x11389,16},
{0x1138B,0x1138B,16},
{0x1138E,0x1138E,16},
{0x11390,0x113B5,16},
{0x113B7,0x113C0,16},
{0x113C2,0x113C2,16},
{0x113C5,0x113C5,16},
{0x113C7,0x113CA,16},
{0x113CC,0x113D5,16},
{0x113D7,0x113D8,16},
{0x113E1,0x113E2,16},
{0x11400,0x11459,9},
{0x1145A,0x1145A,13},
{0x1145B,0x1145B,9},
{0x1145D,0x1145D,9},
{0x1145E,0x1145E,11},
{0x1145F,0x1145F,12},
{0x11460,0x11461,13},
{0x11480,0x114C7,7},
{0x114D0,0x114D9,7},
{0x11580,0x115B5,7},
{0x115B8,0x115C9,7},
{0x115CA,0x115DD,8},
{0x11600,0x11644,7},
{0x11650,0x11659,7},
{0x11660,0x1166C,9},
{0x11680,0x116B7,7},
{0x116B8,0x116B8,12},
{0x116B9,0x116B9,14},
{0x116C0,0x116C9,7},
{0x116D0,0x116E3,16},
{0x11700,0x11719,8},
{0x1171A,0x1171A,11},
{0x1171D,0x1172B,8},
{0x11730,0x1173F,8},
{0x11740,0x11746,14},
{0x11800,0x1183B,11},
{0x118A0,0x118F2,7},
{0x118FF,0x118FF,7},
{0x11900,0x11906,13},
{0x11909,0x11909,13},
{0x1190C,0x11913,13},
{0x11915,0x11916,13},
{0x11918,0x11935,13},
{0x11937,0x11938,13},
{0x1193B,0x11946,13},
{0x11950,0x11959,13},
{0x119A0,0x119A7,12},
{0x119AA,0x119D7,12},
{0x119DA,0x119E4,12},
{0x11A00,0x11A47,10},
{0x11A50,0x11A83,10},
{0x11A84,0x11A85,12},
{0x11A86,0x11A9C,10},
{0x11A9D,0x11A9D,11},
{0x11A9E,0x11AA2,10},
{0x11AB0,0x11ABF,14},
{0x11AC0,0x11AF8,7},
{0x11B00,0x11B09,15},
{0x11BC0,0x11BE1,16},
{0x11BF0,0x11BF9,16},
{0x11C00,0x11C08,9},
{0x11C0A,0x11C36,9},
{0x11C38,0x11C45,9},
{0x11C50,0x11C6C,9},
{0x11C70,0x11C8F,9},
{0x11C92,0x11CA7,9},
{0x11CA9,0x11CB6,9},
{0x11D00,0x11D06,10},
{0x11D08,0x11D09,10},
{0x11D0B,0x11D36,10},
{0x11D3A,0x11D3A,10},
{0x11D3C,0x11D3D,10},
{0x11D3F,0x11D47,10},
{0x11D50,0x11D59,10},
{0x11D60,0x11D65,11},
{0x11D67,0x11D68,11},
{0x11D6A,0x11D8E,11},
{0x11D90,0x11D91,11},
{0x11D93,0x11D98,11},
{0x11DA0,0x11DA9,11},
{0x11EE0,0x11EF8,11},
{0x11F00,0x11F10,15},
{0x11F12,0x11F3A,15},
{0x11F3E,0x11F59,15},
{0x11F5A,0x11F5A,16},
{0x11FB0,0x11FB0,13},
{0x11FC0,0x11FF1,12},
{0x11FFF,0x11FFF,12},
{0x12000,0x12398,7},
{0x12399,0x12399,8},
{0x12400,0x1246E,7},
{0x12470,0x12474,7},
{0x12480,0x12543,8},
{0x12F90,0x12FF2,14},
{0x13000,0x1342E,7},
{0x1342F,0x1342F,15},
{0x13430,0x13438,12},
{0x13439,0x13455,15},
{0x13460,0x143FA,16},
{0x14400,0x14646,8},
{0x16100,0x16139,16},
{0x16800,0x16A38,7},
{0x16A40,0x16A5E,7},
{0x16A60,0x16A69,7},
{0x16A6E,0x16A6F,7},
{0x16A70,0x16ABE,14},
{0x16AC0,0x16AC9,14},
{0x16AD0,0x16AED,7},
{0x16AF0,0x16AF5,7},
{0x16B00,0x16B45,7},
{0x16B50,0x16B59,7},
{0x16B5B,0x16B61,7},
{0x16B63,0x16B77,7},
{0x16B7D,0x16B8F,7},
{0x16D40,0x16D79,16},
{0x16E40,0x16E9A,11},
{0x16F00,0x16F44,7},
{0x16F45,0x16F4A,12},
{0x16F4F,0x16F4F,12},
{0x16F50,0x16F7E,7},
{0x16F7F,0x16F87,12},
{0x16F8F,0x16F9F,7},
{0x16FE0,0x16FE0,9},
{0x16FE1,0x16FE1,10},
{0x16FE2,0x16FE3,12},
{0x16FE4,0x16FE4,13},
{0x16FF0,0x16FF1,13},
{0x17000,0x187EC,9},
{0x187ED,0x187F1,11},
{0x187F2,0x187F7,12},
{0x18800,0x18AF2,9},
{0x18AF3,0x18CD5,13},
{0x18CFF,0x18CFF,16},
{0x18D00,0x18D08,13},
{0x1AFF0,0x1AFF3,14},
{0x1AFF5,0x1AFFB,14},
{0x1AFFD,0x1AFFE,14},
{0x1B000,0x1B001,7},
{0x1B002,0x1B11E,10},
{0x1B11F,0x1B122,14},
{0x1B132,0x1B132,15},
{0x1B150,0x1B152,12},
{0x1B155,0x1B155,15},
{0x1B164,0x1B167,12},
{0x1B170,0x1B2FB,10},
{0x1BC00,0x1BC6A,7},
{0x1BC70,0x1BC7C,7},
{0x1BC80,0x1BC88,7},
{0x1BC90,0x1BC99,7},
{0x1BC9C,0x1BCA3,7},
{0x1CC00,0x1CCF9,16},
{0x1CD00,0x1CEB3,16},
{0x1CF00,0x1CF2D,14},
{0x1CF30,0x1CF46,14},
{0x1CF50,0x1CFC3,14},
{0x1D000,0x1D0F5,7},
{0x1D100,0x1D126,7},
{0x1D129,0x1D1DD,7},
{0x1D1DE,0x1D1E8,8},
{0x1D1E9,0x1D1EA,14},
{0x1D200,0x1D245,7},
{0x1D2C0,0x1D2D3,15},
{0x1D2E0,0x1D2F3,11},
{0x1D300,0x1D356,7},
{0x1D360,0x1D371,7},
{0x1D372,0x1D378,11},
{0x1D400,0x1D454,7},
{0x1D456,0x1D49C,7},
{0x1D49E,0x1D49F,7},
{0x1D4A2,0x1D4A2,7},
{0x1D4A5,0x1D4A6,7},
{0x1D4A9,0x1D4AC,7},
{0x1D4AE,0x1D4B9,7},
{0x1D4BB,0x1D4BB,7},
{0x1D4BD,0x1D4C3,7},
{0x1D4C5,0x1D505,7},
{0x1D507,0x1D50A,7},
{0x1D50D,0x1D514,7},
{0x1D516,0x1D51C,7},
{0x1D51E,0x1D539,7},
{0x1D53B,0x1D53E,7},
{0x1D540,0x1D544,7},
{0x1D546,0x1D546,7},
{0x1D54A,0x1D550,7},
{0x1D552,0x1D6A5,7},
{0x1D6A8,0x1D7CB,7},
{0x1D7CE,0x1D7FF,7},
{0x1D800,0x1DA8B,8},
{0x1DA9B,0x1DA9F,8},
{0x1DAA1,0x1DAAF,8},
{0x1DF00,0x1DF1E,14},
{0x1DF25,0x1DF2A,15},
{0x1E000,0x1E006,9},
{0x1E008,0x1E018,9},
{0x1E01B,0x1E021,9},
{0x1E023,0x1E024,9},
{0x1E026,0x1E02A,9},
{0x1E030,0x1E06D,15},
{0x1E08F,0x1E08F,15},
{0x1E100,0x1E12C,12},
{0x1E130,0x1E13D,12},
{0x1E140,0x1E149,12},
{0x1E14E,0x1E14F,12},
{0x1E290,0x1E2AE,14},
{0x1E2C0,0x1E2F9,12},
{0x1E2FF,0x1E2FF,12},
{0x1E4D0,0x1E4F9,15},
{0x1E5D0,0x1E5FA,16},
{0x1E5FF,0x1E5FF,16},
{0x1E7E0,0x1E7E6,14},
{0x1E7E8,0x1E7EB,14},
{0x1E7ED,0x1E7EE,14},
{0x1E7F0,0x1E7FE,14},
{0x1E800,0x1E8C4,7},
{0x1E8C7,0x1E8D6,7},
{0x1E900,0x1E94A,9},
{0x1E94B,0x1E94B,12},
{0x1E950,0x1E959,9},
{0x1E95E,0x1E95F,9},
{0x1EC71,0x1ECB4,11},
{0x1ED01,0x1ED3D,12},
{0x1EE00,0x1EE03,7},
{0x1EE05,0x1EE1F,7},
{0x1EE21,0x1EE22,7},
{0x1EE24,0x1EE24,7},
{0x1EE27,0x1EE27,7},
{0x1EE29,0x1EE32,7},
{0x1EE34,0x1EE37,7},
{0x1EE39,0x1EE39,7},
{0x1EE3B,0x1EE3B,7},
{0x1EE42,0x1EE42,7},
{0x1EE47,0x1EE47,7},
{0x1EE49,0x1EE49,7},
{0x1EE4B,0x1EE4B,7},
{0x1EE4D,0x1EE4F,7},
{0x1EE51,0x1EE52,7},
{0x1EE54,0x1EE54,7},
{0x1EE57,0x1EE57,7},
{0x1EE59,0x1EE59,7},
{0x1EE5B,0x1EE5B,7},
{0x1EE5D,0x1EE5D,7},
{0x1EE5F,0x1EE5F,7},
{0x1EE61,0x1EE62,7},
{0x1EE64,0x1EE64,7},
{0x1EE67,0x1EE6A,7},
{0x1EE6C,0x1EE72,7},
{0x1EE74,0x1EE77,7},
{0x1EE79,0x1EE7C,7},
{0x1EE7E,0x1EE7E,7},
{0x1EE80,0x1EE89,7},
{0x1EE8B,0x1EE9B,7},
{0x1EEA1,0x1EEA3,7},
{0x1EEA5,0x1EEA9,7},
{0x1EEAB,0x1EEBB,7},
{0x1EEF0,0x1EEF1,7},
{0x1F000,0x1F02B,7},
{0x1F030,0x1F093,7},
{0x1F0A0,0x1F0AE,7},
{0x1F0B1,0x1F0BF,7},
{0x1F0C1,0x1F0CF,7},
{0x1F0D1,0x1F0F5,7},
{0x1F100,0x1F10C,7},
{0x1F10D,0x1F10F,13},
{0x1F110,0x1F12E,7},
{0x1F12F,0x1F12F,11},
{0x1F130,0x1F16B,7},
{0x1F16C,0x1F16C,12},
{0x1F16D,0x1F16F,13},
{0x1F170,0x1F19A,7},
{0x1F19B,0x1F1AC,9},
{0x1F1AD,0x1F1AD,13},
{0x1F1E6,0x1F202,7},
{0x1F210,0x1F23A,7},
{0x1F23B,0x1F23B,9},
{0x1F240,0x1F248,7},
{0x1F250,0x1F251,7},
{0x1F260,0x1F265,10},
{0x1F300,0x1F32C,7},
{0x1F32D,0x1F32F,8},
{0x1F330,0x1F37D,7},
{0x1F37E,0x1F37F,8},
{0x1F380,0x1F3CE,7},
{0x1F3CF,0x1F3D3,8},
{0x1F3D4,0x1F3F7,7},
{0x1F3F8,0x1F3FF,8},
{0x1F400,0x1F4FE,7},
{0x1F4FF,0x1F4FF,8},
{0x1F500,0x1F54A,7},
{0x1F54B,0x1F54F,8},
{0x1F550,0x1F579,7},
{0x1F57A,0x1F57A,9},
{0x1F57B,0x1F5A3,7},
{0x1F5A4,0x1F5A4,9},
{0x1F5A5,0x1F642,7},
{0x1F643,0x1F644,8},
{0x1F645,0x1F6CF,7},
{0x1F6D0,0x1F6D0,8},
{0x1F6D1,0x1F6D2,9},
{0x1F6D3,0x1F6D4,10},
{0x1F6D5,0x1F6D5,12},
{0x1F6D6,0x1F6D7,13},
{0x1F6DC,0x1F6DC,15},
{0x1F6DD,0x1F6DF,14},
{0x1F6E0,0x1F6EC,7},
{0x1F6F0,0x1F6F3,7},
{0x1F6F4,0x1F6F6,9},
{0x1F6F7,0x1F6F8,10},
{0x1F6F9,0x1F6F9,11},
{0x1F6FA,0x1F6FA,12},
{0x1F6FB,0x1F6FC,13},
{0x1F700,0x1F773,7},
{0x1F774,0x1F776,15},
{0x1F77B,0x1F77F,15},
{0x1F780,0x1F7D4,7},
{0x1F7D5,0x1F7D8,11},
{0x1F7D9,0x1F7D9,15},
{0x1F7E0,0x1F7EB,12},
{0x1F7F0,0x1F7F0,14},
{0x1F800,0x1F80B,7},
{0x1F810,0x1F847,7},
{0x1F850,0x1F859,7},
{0x1F860,0x1F887,7},
{0x1F890,0x1F8AD,7},
{0x1F8B0,0x1F8B1,13},
{0x1F8B2,0x1F8BB,16},
{0x1F8C0,0x1F8C1,16},
{0x1F900,0x1F90B,10},
{0x1F90C,0x1F90C,13},
{0x1F90D,0x1F90F,12},
{0x1F910,0x1F918,8},
{0x1F919,0x1F91E,9},
{0x1F91F,0x1F91F,10},
{0x1F920,0x1F927,9},
{0x1F928,0x1F92F,10},
{0x1F930,0x1F930,9},
{0x1F931,0x1F932,10},
{0x1F933,0x1F93E,9},
{0x1F93F,0x1F93F,12},
{0x1F940,0x1F94B,9},
{0x1F94C,0x1F94C,10},
{0x1F94D,0x1F94F,11},
{0x1F950,0x1F95E,9},
{0x1F95F,0x1F96B,10},
{0x1F96C,0x1F970,11},
{0x1F971,0x1F971,12},
{0x1F972,0x1F972,13},
{0x1F973,0x1F976,11},
{0x1F977,0x1F978,13},
{0x1F979,0x1F979,14},
{0x1F97A,0x1F97A,11},
{0x1F97B,0x1F97B,12},
{0x1F97C,0x1F97F,11},
{0x1F980,0x1F984,8},
{0x1F985,0x1F991,9},
{0x1F992,0x1F997,10},
{0x1F998,0x1F9A2,11},
{0x1F9A3,0x1F9A4,13},
{0x1F9A5,0x1F9AA,12},
{0x1F9AB,0x1F9AD,13},
{0x1F9AE,0x1F9AF,12},
{0x1F9B0,0x1F9B9,11},
{0x1F9BA,0x1F9BF,12},
{0x1F9C0,0x1F9C0,8},
{0x1F9C1,0x1F9C2,11},
{0x1F9C3,0x1F9CA,12},
{0x1F9CB,0x1F9CB,13},
{0x1F9CC,0x1F9CC,14},
{0x1F9CD,0x1F9CF,12},
{0x1F9D0,0x1F9E6,10},
{0x1F9E7,0x1F9FF,11},
{0x1FA00,0x1FA53,12},
{0x1FA60,0x1FA6D,11},
{0x1FA70,0x1FA73,12},
{0x1FA74,0x1FA74,13},
{0x1FA75,0x1FA77,15},
{0x1FA78,0x1FA7A,12},
{0x1FA7B,0x1FA7C,14},
{0x1FA80,0x1FA82,12},
{0x1FA83,0x1FA86,13},
{0x1FA87,0x1FA88,15},
{0x1FA89,0x1FA89,16},
{0x1FA8F,0x1FA8F,16},
{0x1FA90,0x1FA95,12},
{0x1FA96,0x1FAA8,13},
{0x1FAA9,0x1FAAC,14},
{0x1FAAD,0x1FAAF,15},
{0x1FAB0,0x1FAB6,13},
{0x1FAB7,0x1FABA,14},
{0x1FABB,0x1FABD,15},
{0x1FABE,0x1FABE,16},
{0x1FABF,0x1FABF,15},
{0x1FAC0,0x1FAC2,13},
{0x1FAC3,0x1FAC5,14},
{0x1FAC6,0x1FAC6,16},
{0x1FACE,0x1FACF,15},
{0x1FAD0,0x1FAD6,13},
{0x1FAD7,0x1FAD9,14},
{0x1FADA,0x1FADB,15},
{0x1FADC,0x1FADC,16},
{0x1FADF,0x1FADF,16},
{0x1FAE0,0x1FAE7,14},
{0x1FAE8,0x1FAE8,15},
{0x1FAE9,0x1FAE9,16},
{0x1FAF0,0x1FAF6,14},
{0x1FAF7,0x1FAF8,15},
{0x1FB00,0x1FB92,13},
{0x1FB94,0x1FBCA,13},
{0x1FBCB,0x1FBEF,16},
{0x1FBF0,0x1FBF9,13},
{0x20000,0x2A6D6,7},
{0x2A6D7,0x2A6DD,13},
{0x2A6DE,0x2A6DF,14},
{0x2A700,0x2B734,7},
{0x2B735,0x2B738,14},
{0x2B739,0x2B739,15},
{0x2B740,0x2B81D,7},
{0x2B820,0x2CEA1,8},
{0x2CEB0,0x2EBE0,10},
{0x2EBF0,0x2EE5D,16},
{0x2F800,0x2FA1D,7},
{0x30000,0x3134A,13},
{0x31350,0x323AF,15},
{0xE0001,0xE0001,7},
{0xE0020,0xE007F,7},
{0xE0100,0xE01EF,7},
};
static const uint32_t kLower[][3] = { // code point, simple lowercase, since version
{0x41,0x61,7},
{0x42,0x62,7},
{0x43,0x63,7},
{0x44,0x64,7},
{0x45,0x65,7},
{0x46,0x66,7},
{0x47,0x67,7},
{0x48,0x68,7},
{0x49,0x69,7},
{0x4A,0x6A,7},
{0x4B,0x6B,7},
{0x4C,0x6C,7},
{0x4D,0x6D,7},
{0x4E,0x6E,7},
{0x4F,0x6F,7},
{0x50,0x70,7},
{0x51,0x71,7},
{0x52,0x72,7},
{0x53,0x73,7},
{0x54,0x74,7},
{0x55,0x75,7},
{0x56,0x76,7},
{0x57,0x77,7},
{0x58,0x78,7},
{0x59,0x79,7},
{0x5A,0x7A,7},
{0xC0,0xE0,7},
{0xC1,0xE1,7},
{0xC2,0xE2,7},
{0xC3,0xE3,7},
{0xC4,0xE4,7},
{0xC5,0xE5,7},
{0xC6,0xE6,7},
{0xC7,0xE7,7},
{0xC8,0xE8,7},
{0xC9,0xE9,7},
{0xCA,0xEA,7},
{0xCB,0xEB,7},
{0xCC,0xEC,7},
{0xCD,0xED,7},
{0xCE,0xEE,7},
{0xCF,0xEF,7},
{0xD0,0xF0,7},
{0xD1,0xF1,7},
{0xD2,0xF2,7},
{0xD3,0xF3,7},
{0xD4,0xF4,7},
{0xD5,0xF5,7},
{0xD6,0xF6,7},
{0xD8,0xF8,7},
{0xD9,0xF9,7},
{0xDA,0xFA,7},
{0xDB,0xFB,7},
{0xDC,0xFC,7},
{0xDD,0xFD,7},
{0xDE,0xFE,7},
{0x100,0x101,7},
{0x102,0x103,7},
{0x104,0x105,7},
{0x106,0x107,7},
{0x108,0x109,7},
{0x10A,0x10B,7},
{0x10C,0x10D,7},
{0x10E,0x10F,7},
{0x110,0x111,7},
{0x112,0x113,7},
{0x114,0x115,7},
{0x116,0x117,7},
{0x118,0x119,7},
{0x11A,0x11B,7},
{0x11C,0x11D,7},
{0x11E,0x11F,7},
{0x120,0x121,7},
{0x122,0x123,7},
{0x124,0x125,7},
{0x126,0x127,7},
{0x128,0x129,7},
{0x12A,0x12B,7},
{0x12C,0x12D,7},
{0x12E,0x12F,7},
{0x130,0x69,7},
{0x132,0x133,7},
{0x134,0x135,7},
{0x136,0x137,7},
{0x139,0x13A,7},
{0x13B,0x13C,7},
{0x13D,0x13E,7},
{0x13F,0x140,7},
{0x141,0x142,7},
{0x143,0x144,7},
{0x145,0x146,7},
{0x147,0x148,7},
{0x14A,0x14B,7},
{0x14C,0x14D,7},
{0x14E,0x14F,7},
{0x150,0x151,7},
{0x152,0x153,7},
{0x154,0x155,7},
{0x156,0x157,7},
{0x158,0x159,7},
{0x15A,0x15B,7},
{0x15C,0x15D,7},
{0x15E,0x15F,7},
{0x160,0x161,7},
{0x162,0x163,7},
{0x164,0x165,7},
{0x166,0x167,7},
{0x168,0x169,7},
{0x16A,0x16B,7},
{0x16C,0x16D,7},
{0x16E,0x16F,7},
{0x170,0x171,7},
{0x172,0x173,7},
{0x174,0x175,7},
{0x176,0x177,7},
{0x178,0xFF,7},
{0x179,0x17A,7},
{0x17B,0x17C,7},
{0x17D,0x17E,7},
{0x181,0x253,7},
{0x182,0x183,7},
{0x184,0x185,7},
{0x186,0x254,7},
{0x187,0x188,7},
{0x189,0x256,7},
{0x18A,0x257,7},
{0x18B,0x18C,7},
{0x18E,0x1DD,7},
{0x18F,0x259,7},
{0x190,0x25B,7},
{0x191,0x192,7},
{0x193,0x260,7},
{0x194,0x263,7},
{0x196,0x269,7},
{0x197,0x268,7},
{0x198,0x199,7},
{0x19C,0x26F,7},
{0x19D,0x272,7},
{0x19F,0x275,7},
{0x1A0,0x1A1,7},
{0x1A2,0x1A3,7},
{0x1A4,0x1A5,7},
{0x1A6,0x280,7},
{0x1A7,0x1A8,7},
{0x1A9,0x283,7},
{0x1AC,0x1AD,7},
{0x1AE,0x288,7},
{0x1AF,0x1B0,7},
{0x1B1,0x28A,7},
{0x1B2,0x28B,7},
{0x1B3,0x1B4,7},
{0x1B5,0x1B6,7},
{0x1B7,0x292,7},
{0x1B8,0x1B9,7},
{0x1BC,0x1BD,7},
{0x1C4,0x1C6,7},
{0x1C5,0x1C6,7},
{0x1C7,0x1C9,7},
{0x1C8,0x1C9,7},
{0x1CA,0x1CC,7},
{0x1CB,0x1CC,7},
{0x1CD,0x1CE,7},
{0x1CF,0x1D0,7},
{0x1D1,0x1D2,7},
{0x1D3,0x1D4,7},
{0x1D5,0x1D6,7},
{0x1D7,0x1D8,7},
{0x1D9,0x1DA,7},
{0x1DB,0x1DC,7},
{0x1DE,0x1DF,7},
{0x1E0,0x1E1,7},
{0x1E2,0x1E3,7},
{0x1E4,0x1E5,7},
{0x1E6,0x1E7,7},
{0x1E8,0x1E9,7},
{0x1EA,0x1EB,7},
{0x1EC,0x1ED,7},
{0x1EE,0x1EF,7},
{0x1F1,0x1F3,7},
{0x1F2,0x1F3,7},
{0x1F4,0x1F5,7},
{0x1F6,0x195,7},
{0x1F7,0x1BF,7},
{0x1F8,0x1F9,7},
{0x1FA,0x1FB,7},
{0x1FC,0x1FD,7},
{0x1FE,0x1FF,7},
{0x200,0x201,7},
{0x202,0x203,7},
{0x204,0x205,7},
{0x206,0x207,7},
{0x208,0x209,7},
{0x20A,0x20B,7},
{0x20C,0x20D,7},
{0x20E,0x20F,7},
{0x210,0x211,7},
{0x212,0x213,7},
{0x214,0x215,7},
{0x216,0x217,7},
{0x218,0x219,7},
{0x21A,0x21B,7},
{0x21C,0x21D,7},
{0x21E,0x21F,7},
{0x220,0x19E,7},
{0x222,0x223,7},
{0x224,0x225,7},
{0x226,0x227,7},
{0x228,0x229,7},
{0x22A,0x22B,7},
{0x22C,0x22D,7},
{0x22E,0x22F,7},
{0x230,0x231,7},
{0x232,0x233,7},
{0x23A,0x2C65,7},
{0x23B,0x23C,7},
{0x23D,0x19A,7},
{0x23E,0x2C66,7},
{0x241,0x242,7},
{0x243,0x180,7},
{0x244,0x289,7},
{0x245,0x28C,7},
{0x246,0x247,7},
{0x248,0x249,7},
{0x24A,0x24B,7},
{0x24C,0x24D,7},
{0x24E,0x24F,7},
{0x370,0x371,7},
{0x372,0x373,7},
{0x376,0x377,7},
{0x37F,0x3F3,7},
{0x386,0x3AC,7},
{0x388,0x3AD,7},
{0x389,0x3AE,7},
{0x38A,0x3AF,7},
{0x38C,0x3CC,7},
{0x38E,0x3CD,7},
{0x38F,0x3CE,7},
{0x391,0x3B1,7},
{0x392,0x3B2,7},
{0x393,0x3B3,7},
{0x394,0x3B4,7},
{0x395,0x3B5,7},
{0x396,0x3B6,7},
{0x397,0x3B7,7},
{0x398,0x3B8,7},
{0x399,0x3B9,7},
{0x39A,0x3BA,7},
{0x39B,0x3BB,7},
{0x39C,0x3BC,7},
{0x39D,0x3BD,7},
{0x39E,0x3BE,7},
{0x39F,0x3BF,7},
{0x3A0,0x3C0,7},
{0x3A1,0x3C1,7},
{0x3A3,0x3C3,7},
{0x3A4,0x3C4,7},
{0x3A5,0x3C5,7},
{0x3A6,0x3C6,7},
{0x3A7,0x3C7,7},
{0x3A8,0x3C8,7},
{0x3A9,0x3C9,7},
{0x3AA,0x3CA,7},
{0x3AB,0x3CB,7},
{0x3CF,0x3D7,7},
{0x3D8,0x3D9,7},
{0x3DA,0x3DB,7},
{0x3DC,0x3DD,7},
{0x3DE,0x3DF,7},
{0x3E0,0x3E1,7},
{0x3E2,0x3E3,7},
{0x3E4,0x3E5,7},
{0x3E6,0x3E7,7},
{0x3E8,0x3E9,7},
{0x3EA,0x3EB,7},
{0x3EC,0x3ED,7},
{0x3EE,0x3EF,7},
{0x3F4,0x3B8,7},
{0x3F7,0x3F8,7},
{0x3F9,0x3F2,7},
{0x3FA,0x3FB,7},
{0x3FD,0x37B,7},
{0x3FE,0x37C,7},
{0x3FF,0x37D,7},
{0x400,0x450,7},
{0x401,0x451,7},
{0x402,0x452,7},
{0x403,0x453,7},
{0x404,0x454,7},
{0x405,0x455,7},
{0x406,0x456,7},
{0x407,0x457,7},
{0x408,0x458,7},
{0x409,0x459,7},
{0x40A,0x45A,7},
{0x40B,0x45B,7},
{0x40C,0x45C,7},
{0x40D,0x45D,7},
{0x40E,0x45E,7},
{0x40F,0x45F,7},
{0x410,0x430,7},
{0x411,0x431,7},
{0x412,0x432,7},
{0x413,0x433,7},
{0x414,0x434,7},
{0x415,0x435,7},
{0x416,0x436,7},
{0x417,0x437,7},
{0x418,0x438,7},
{0x419,0x439,7},
{0x41A,0x43A,7},
{0x41B,0x43B,7},
{0x41C,0x43C,7},
{0x41D,0x43D,7},
{0x41E,0x43E,7},
{0x41F,0x43F,7},
{0x420,0x440,7},
{0x421,0x441,7},
{0x422,0x442,7},
{0x423,0x443,7},
{0x424,0x444,7},
{0x425,0x445,7},
{0x426,0x446,7},
{0x427,0x447,7},
{0x428,0x448,7},
{0x429,0x449,7},
{0x42A,0x44A,7},
{0x42B,0x44B,7},
{0x42C,0x44C,7},
{0x42D,0x44D,7},
{0x42E,0x44E,7},
{0x42F,0x44F,7},
{0x460,0x461,7},
{0x462,0x463,7},
{0x464,0x465,7},
{0x466,0x467,7},
{0x468,0x469,7},
{0x46A,0x46B,7},
{0x46C,0x46D,7},
{0x46E,0x46F,7},
{0x470,0x471,7},
{0x472,0x473,7},
{0x474,0x475,7},
{0x476,0x477,7},
{0x478,0x479,7},
{0x47A,0x47B,7},
{0x47C,0x47D,7},
{0x47E,0x47F,7},
{0x480,0x481,7},
{0x48A,0x48B,7},
{0x48C,0x48D,7},
{0x48E,0x48F,7},
{0x490,0x491,7},
{0x492,0x493,7},
{0x494,0x495,7},
{0x496,0x497,7},
{0x498,0x499,7},
{0x49A,0x49B,7},
{0x49C,0x49D,7},
{0x49E,0x49F,7},
{0x4A0,0x4A1,7},
{0x4A2,0x4A3,7},
{0x4A4,0x4A5,7},
{0x4A6,0x4A7,7},
{0x4A8,0x4A9,7},
{0x4AA,0x4AB,7},
{0x4AC,0x4AD,7},
{0x4AE,0x4AF,7},
{0x4B0,0x4B1,7},
{0x4B2,0x4B3,7},
{0x4B4,0x4B5,7},
{0x4B6,0x4B7,7},
{0x4B8,0x4B9,7},
{0x4BA,0x4BB,7},
{0x4BC,0x4BD,7},
{0x4BE,0x4BF,7},
{0x4C0,0x4CF,7},
{0x4C1,0x4C2,7},
{0x4C3,0x4C4,7},
{0x4C5,0x4C6,7},
{0x4C7,0x4C8,7},
{0x4C9,0x4CA,7},
{0x4CB,0x4CC,7},
{0x4CD,0x4CE,7},
{0x4D0,0x4D1,7},
{0x4D2,0x4D3,7},
{0x4D4,0x4D5,7},
{0x4D6,0x4D7,7},
{0x4D8,0x4D9,7},
{0x4DA,0x4DB,7},
{0x4DC,0x4DD,7},
{0x4DE,0x4DF,7},
{0x4E0,0x4E1,7},
{0x4E2,0x4E3,7},
{0x4E4,0x4E5,7},
{0x4E6,0x4E7,7},
{0x4E8,0x4E9,7},
{0x4EA,0x4EB,7},
{0x4EC,0x4ED,7},
{0x4EE,0x4EF,7},
{0x4F0,0x4F1,7},
{0x4F2,0x4F3,7},
{0x4F4,0x4F5,7},
{0x4F6,0x4F7,7},
{0x4F8,0x4F9,7},
{0x4FA,0x4FB,7},
{0x4FC,0x4FD,7},
{0x4FE,0x4FF,7},
{0x500,0x501,7},
{0x502,0x503,7},
{0x504,0x505,7},
{0x506,0x507,7},
{0x508,0x509,7},
{0x50A,0x50B,7},
{0x50C,0x50D,7},
{0x50E,0x50F,7},
{0x510,0x511,7},
{0x512,0x513,7},
{0x514,0x515,7},
{0x516,0x517,7},
{0x518,0x519,7},
{0x51A,0x51B,7},
{0x51C,0x51D,7},
{0x51E,0x51F,7},
{0x520,0x521,7},
{0x522,0x523,7},
{0x524,0x525,7},
{0x526,0x527,7},
{0x528,0x529,7},
{0x52A,0x52B,7},
{0x52C,0x52D,7},
{0x52E,0x52F,7},
{0x531,0x561,7},
{0x532,0x562,7},
{0x533,0x563,7},
{0x534,0x564,7},
{0x535,0x565,7},
{0x536,0x566,7},
{0x537,0x567,7},
{0x538,0x568,7},
{0x539,0x569,7},
{0x53A,0x56A,7},
{0x53B,0x56B,7},
{0x53C,0x56C,7},
{0x53D,0x56D,7},
{0x53E,0x56E,7},
{0x53F,0x56F,7},
{0x540,0x570,7},
{0x541,0x571,7},
{0x542,0x572,7},
{0x543,0x573,7},
{0x544,0x574,7},
{0x545,0x575,7},
{0x546,0x576,7},
{0x547,0x577,7},
{0x548,0x578,7},
{0x549,0x579,7},
{0x54A,0x57A,7},
{0x54B,0x57B,7},
{0x54C,0x57C,7},
{0x54D,0x57D,7},
{0x54E,0x57E,7},
{0x54F,0x57F,7},
{0x550,0x580,7},
{0x551,0x581,7},
{0x552,0x582,7},
{0x553,0x583,7},
{0x554,0x584,7},
{0x555,0x585,7},
{0x556,0x586,7},
{0x10A0,0x2D00,7},
{0x10A1,0x2D01,7},
{0x10A2,0x2D02,7},
{0x10A3,0x2D03,7},
{0x10A4,0x2D04,7},
{0x10A5,0x2D05,7},
{0x10A6,0x2D06,7},
{0x10A7,0x2D07,7},
{0x10A8,0x2D08,7},
{0x10A9,0x2D09,7},
{0x10AA,0x2D0A,7},
{0x10AB,0x2D0B,7},
{0x10AC,0x2D0C,7},
{0x10AD,0x2D0D,7},
{0x10AE,0x2D0E,7},
{0x10AF,0x2D0F,7},
{0x10B0,0x2D10,7},
{0x10B1,0x2D11,7},
{0x10B2,0x2D12,7},
{0x10B3,0x2D13,7},
{0x10B4,0x2D14,7},
{0x10B5,0x2D15,7},
{0x10B6,0x2D16,7},
{0x10B7,0x2D17,7},
{0x10B8,0x2D18,7},
{0x10B9,0x2D19,7},
{0x10BA,0x2D1A,7},
{0x10BB,0x2D1B,7},
{0x10BC,0x2D1C,7},
{0x10BD,0x2D1D,7},
{0x10BE,0x2D1E,7},
{0x10BF,0x2D1F,7},
{0x10C0,0x2D20,7},
{0x10C1,0x2D21,7},
{0x10C2,0x2D22,7},
{0x10C3,0x2D23,7},
{0x10C4,0x2D24,7},
{0x10C5,0x2D25,7},
{0x10C7,0x2D27,7},
{0x10CD,0x2D2D,7},
{0x13A0,0xAB70,8},
{0x13A1,0xAB71,8},
{0x13A2,0xAB72,8},
{0x13A3,0xAB73,8},
{0x13A4,0xAB74,8},
{0x13A5,0xAB75,8},
{0x13A6,0xAB76,8},
{0x13A7,0xAB77,8},
{0x13A8,0xAB78,8},
{0x13A9,0xAB79,8},
{0x13AA,0xAB7A,8},
{0x13AB,0xAB7B,8},
{0x13AC,0xAB7C,8},
{0x13AD,0xAB7D,8},
{0x13AE,0xAB7E,8},
{0x13AF,0xAB7F,8},
{0x13B0,0xAB80,8},
{0x13B1,0xAB81,8},
{0x13B2,0xAB82,8},
{0x13B3,0xAB83,8},
{0x13B4,0xAB84,8},
{0x13B5,0xAB85,8},
{0x13B6,0xAB86,8},
{0x13B7,0xAB87,8},
{0x13B8,0xAB88,8},
{0x13B9,0xAB89,8},
{0x13BA,0xAB8A,8},
{0x13BB,0xAB8B,8},
{0x13BC,0xAB8C,8},
{0x13BD,0xAB8D,8},
{0x13BE,0xAB8E,8},
{0x13BF,0xAB8F,8},
{0x13C0,0xAB90,8},
{0x13C1,0xAB91,8},
{0x13C2,0xAB92,8},
{0x13C3,0xAB93,8},
{0x13C4,0xAB94,8},
{0x13C5,0xAB95,8},
{0x13C6,0xAB96,8},
{0x13C7,0xAB97,8},
{0x13C8,0xAB98,8},
{0x13C9,0xAB99,8},
{0x13CA,0xAB9A,8},
{0x13CB,0xAB9B,8},
{0x13CC,0xAB9C,8},
{0x13CD,0xAB9D,8},
{0x13CE,0xAB9E,8},
{0x13CF,0xAB9F,8},
{0x13D0,0xABA0,8},
{0x13D1,0xABA1,8},
{0x13D2,0xABA2,8},
{0x13D3,0xABA3,8},
{0x13D4,0xABA4,8},
{0x13D5,0xABA5,8},
{0x13D6,0xABA6,8},
{0x13D7,0xABA7,8},
{0x13D8,0xABA8,8},
{0x13D9,0xABA9,8},
{0x13DA,0xABAA,8},
{0x13DB,0xABAB,8},
{0x13DC,0xABAC,8},
{0x13DD,0xABAD,8},
{0x13DE,0xABAE,8},
{0x13DF,0xABAF,8},
{0x13E0,0xABB0,8},
{0x13E1,0xABB1,8},
{0x13E2,0xABB2,8},
{0x13E3,0xABB3,8},
{0x13E4,0xABB4,8},
{0x13E5,0xABB5,8},
{0x13E6,0xABB6,8},
{0x13E7,0xABB7,8},
{0x13E8,0xABB8,8},
{0x13E9,0xABB9,8},
{0x13EA,0xABBA,8},
{0x13EB,0xABBB,8},
{0x13EC,0xABBC,8},
{0x13ED,0xABBD,8},
{0x13EE,0xABBE,8},
{0x13EF,0xABBF,8},
{0x13F0,0x13F8,8},
{0x13F1,0x13F9,8},
{0x13F2,0x13FA,8},
{0x13F3,0x13FB,8},
{0x13F4,0x13FC,8},
{0x13F5,0x13FD,8},
{0x1C89,0x1C8A,16},
{0x1C90,0x10D0,11},
{0x1C91,0x10D1,11},
{0x1C92,0x10D2,11},
{0x1C93,0x10D3,11},
{0x1C94,0x10D4,11},
{0x1C95,0x10D5,11},
{0x1C96,0x10D6,11},
{0x1C97,0x10D7,11},
{0x1C98,0x10D8,11},
{0x1C99,0x10D9,11},
{0x1C9A,0x10DA,11},
{0x1C9B,0x10DB,11},
{0x1C9C,0x10DC,11},
{0x1C9D,0x10DD,11},
{0x1C9E,0x10DE,11},
{0x1C9F,0x10DF,11},
{0x1CA0,0x10E0,11},
{0x1CA1,0x10E1,11},
{0x1CA2,0x10E2,11},
{0x1CA3,0x10E3,11},
{0x1CA4,0x10E4,11},
{0x1CA5,0x10E5,11},
{0x1CA6,0x10E6,11},
{0x1CA7,0x10E7,11},
{0x1CA8,0x10E8,11},
{0x1CA9,0x10E9,11},
{0x1CAA,0x10EA,11},
{0x1CAB,0x10EB,11},
{0x1CAC,0x10EC,11},
{0x1CAD,0x10ED,11},
{0x1CAE,0x10EE,11},
{0x1CAF,0x10EF,11},
{0x1CB0,0x10F0,11},
{0x1CB1,0x10F1,11},
{0x1CB2,0x10F2,11},
{0x1CB3,0x10F3,11},
{0x1CB4,0x10F4,11},
{0x1CB5,0x10F5,11},
{0x1CB6,0x10F6,11},
{0x1CB7,0x10F7,11},
{0x1CB8,0x10F8,11},
{0x1CB9,0x10F9,11},
{0x1CBA,0x10FA,11},
{0x1CBD,0x10FD,11},
{0x1CBE,0x10FE,11},
{0x1CBF,0x10FF,11},
{0x1E00,0x1E01,7},
{0x1E02,0x1E03,7},
{0x1E04,0x1E05,7},
{0x1E06,0x1E07,7},
{0x1E08,0x1E09,7},
{0x1E0A,0x1E0B,7},
{0x1E0C,0x1E0D,7},
{0x1E0E,0x1E0F,7},
{0x1E10,0x1E11,7},
{0x1E12,0x1E13,7},
{0x1E14,0x1E15,7},
{0x1E16,0x1E17,7},
{0x1E18,0x1E19,7},
{0x1E1A,0x1E1B,7},
{0x1E1C,0x1E1D,7},
{0x1E1E,0x1E1F,7},
{0x1E20,0x1E21,7},
{0x1E22,0x1E23,7},
{0x1E24,0x1E25,7},
{0x1E26,0x1E27,7},
{0x1E28,0x1E29,7},
{0x1E2A,0x1E2B,7},
{0x1E2C,0x1E2D,7},
{0x1E2E,0x1E2F,7},
{0x1E30,0x1E31,7},
{0x1E32,0x1E33,7},
{0x1E34,0x1E35,7},
{0x1E36,0x1E37,7},
{0x1E38,0x1E39,7},
{0x1E3A,0x1E3B,7},
{0x1E3C,0x1E3D,7},
{0x1E3E,0x1E3F,7},
{0x1E40,0x1E41,7},
{0x1E42,0x1E43,7},
{0x1E44,0x1E45,7},
{0x1E46,0x1E47,7},
{0x1E48,0x1E49,7},
{0x1E4A,0x1E4B,7},
{0x1E4C,0x1E4D,7},
{0x1E4E,0x1E4F,7},
{0x1E50,0x1E51,7},
{0x1E52,0x1E53,7},
{0x1E54,0x1E55,7},
{0x1E56,0x1E57,7},
{0x1E58,0x1E59,7},
{0x1E5A,0x1E5B,7},
{0x1E5C,0x1E5D,7},
{0x1E5E,0x1E5F,7},
{0x1E60,0x1E61,7},
{0x1E62,0x1E63,7},
{0x1E64,0x1E65,7},
{0x1E66,0x1E67,7},
{0x1E68,0x1E69,7},
{0x1E6A,0x1E6B,7},
{0x1E6C,0x1E6D,7},
{0x1E6E,0x1E6F,7},
{0x1E70,0x1E71,7},
{0x1E72,0x1E73,7},
{0x1E74,0x1E75,7},
{0x1E76,0x1E77,7},
{0x1E78,0x1E79,7},
{0x1E7A,0x1E7B,7},
{0x1E7C,0x1E7D,7},
{0x1E7E,0x1E7F,7},
{0x1E80,0x1E81,7},
{0x1E82,0x1E83,7},
{0x1E84,0x1E85,7},
{0x1E86,0x1E87,7},
{0x1E88,0x1E89,7},
{0x1E8A,0x1E8B,7},
{0x1E8C,0x1E8D,7},
{0x1E8E,0x1E8F,7},
{0x1E90,0x1E91,7},
{0x1E92,0x1E93,7},
{0x1E94,0x1E95,7},
{0x1E9E,0xDF,7},
{0x1EA0,0x1EA1,7},
{0x1EA2,0x1EA3,7},
{0x1EA4,0x1EA5,7},
{0x1EA6,0x1EA7,7},
{0x1EA8,0x1EA9,7},
{0x1EAA,0x1EAB,7},
{0x1EAC,0x1EAD,7},
{0x1EAE,0x1EAF,7},
{0x1EB0,0x1EB1,7},
{0x1EB2,0x1EB3,7},
{0x1EB4,0x1EB5,7},
{0x1EB6,0x1EB7,7},
{0x1EB8,0x1EB9,7},
{0x1EBA,0x1EBB,7},
{0x1EBC,0x1EBD,7},
{0x1EBE,0x1EBF,7},
{0x1EC0,0x1EC1,7},
{0x1EC2,0x1EC3,7},
{0x1EC4,0x1EC5,7},
{0x1EC6,0x1EC7,7},
{0x1EC8,0x1EC9,7},
{0x1ECA,0x1ECB,7},
{0x1ECC,0x1ECD,7},
{0x1ECE,0x1ECF,7},
{0x1ED0,0x1ED1,7},
{0x1ED2,0x1ED3,7},
{0x1ED4,0x1ED5,7},
{0x1ED6,0x1ED7,7},
{0x1ED8,0x1ED9,7},
{0x1EDA,0x1EDB,7},
{0x1EDC,0x1EDD,7},
{0x1EDE,0x1EDF,7},
{0x1EE0,0x1EE1,7},
{0x1EE2,0x1EE3,7},
{0x1EE4,0x1EE5,7},
{0x1EE6,0x1EE7,7},
{0x1EE8,0x1EE9,7},
{0x1EEA,0x1EEB,7},
{0x1EEC,0x1EED,7},
{0x1EEE,0x1EEF,7},
{0x1EF0,0x1EF1,7},
{0x1EF2,0x1EF3,7},
{0x1EF4,0x1EF5,7},
{0x1EF6,0x1EF7,7},
{0x1EF8,0x1EF9,7},
{0x1EFA,0x1EFB,7},
{0x1EFC,0x1EFD,7},
{0x1EFE,0x1EFF,7},
{0x1F08,0x1F00,7},
{0x1F09,0x1F01,7},
{0x1F0A,0x1F02,7},
{0x1F0B,0x1F03,7},
{0x1F0C,0x1F04,7},
{0x1F0D,0x1F05,7},
{0x1F0E,0x1F06,7},
{0x1F0F,0x1F07,7},
{0x1F18,0x1F10,7},
{0x1F19,0x1F11,7},
{0x1F1A,0x1F12,7},
{0x1F1B,0x1F13,7},
{0x1F1C,0x1F14,7},
{0x1F1D,0x1F15,7},
{0x1F28,0x1F20,7},
{0x1F29,0x1F21,7},
{0x1F2A,0x1F22,7},
{0x1F2B,0x1F23,7},
{0x1F2C,0x1F24,7},
{0x1F2D,0x1F25,7},
{0x1F2E,0x1F26,7},
{0x1F2F,0x1F27,7},
{0x1F38,0x1F30,7},
{0x1F39,0x1F31,7},
{0x1F3A,0x1F32,7},
{0x1F3B,0x1F33,7},
{0x1F3C,0x1F34,7},
{0x1F3D,0x1F35,7},
{0x1F3E,0x1F36,7},
{0x1F3F,0x1F37,7},
{0x1F48,0x1F40,7},
{0x1F49,0x1F41,7},
{0x1F4A,0x1F42,7},
{0x1F4B,0x1F43,7},
{0x1F4C,0x1F44,7},
{0x1F4D,0x1F45,7},
{0x1F59,0x1F51,7},
{0x1F5B,0x1F53,7},
{0x1F5D,0x1F55,7},
{0x1F5F,0x1F57,7},
{0x1F68,0x1F60,7},
{0x1F69,0x1F61,7},
{0x1F6A,0x1F62,7},
{0x1F6B,0x1F63,7},
{0x1F6C,0x1F64,7},
{0x1F6D,0x1F65,7},
{0x1F6E,0x1F66,7},
{0x1F6F,0x1F67,7},
{0x1F88,0x1F80,7},
{0x1F89,0x1F81,7},
{0x1F8A,0x1F82,7},
{0x1F8B,0x1F83,7},
{0x1F8C,0x1F84,7},
{0x1F8D,0x1F85,7},
{0x1F8E,0x1F86,7},
{0x1F8F,0x1F87,7},
{0x1F98,0x1F90,7},
{0x1F99,0x1F91,7},
{0x1F9A,0x1F92,7},
{0x1F9B,0x1F93,7},
{0x1F9C,0x1F94,7},
{0x1F9D,0x1F95,7},
{0x1F9E,0x1F96,7},
{0x1F9F,0x1F97,7},
{0x1FA8,0x1FA0,7},
{0x1FA9,0x1FA1,7},
{0x1FAA,0x1FA2,7},
{0x1FAB,0x1FA3,7},
{0x1FAC,0x1FA4,7},
{0x1FAD,0x1FA5,7},
{0x1FAE,0x1FA6,7},
{0x1FAF,0x1FA7,7},
{0x1FB8,0x1FB0,7},
{0x1FB9,0x1FB1,7},
{0x1FBA,0x1F70,7},
{0x1FBB,0x1F71,7},
{0x1FBC,0x1FB3,7},
{0x1FC8,0x1F72,7},
{0x1FC9,0x1F73,7},
{0x1FCA,0x1F74,7},
{0x1FCB,0x1F75,7},
{0x1FCC,0x1FC3,7},
{0x1FD8,0x1FD0,7},
{0x1FD9,0x1FD1,7},
{0x1FDA,0x1F76,7},
{0x1FDB,0x1F77,7},
{0x1FE8,0x1FE0,7},
{0x1FE9,0x1FE1,7},
{0x1FEA,0x1F7A,7},
{0x1FEB,0x1F7B,7},
{0x1FEC,0x1FE5,7},
{0x1FF8,0x1F78,7},
{0x1FF9,0x1F79,7},
{0x1FFA,0x1F7C,7},
{0x1FFB,0x1F7D,7},
{0x1FFC,0x1FF3,7},
{0x2126,0x3C9,7},
{0x212A,0x6B,7},
{0x212B,0xE5,7},
{0x2132,0x214E,7},
{0x2160,0x2170,7},
{0x2161,0x2171,7},
{0x2162,0x2172,7},
{0x2163,0x2173,7},
{0x2164,0x2174,7},
{0x2165,0x2175,7},
{0x2166,0x2176,7},
{0x2167,0x2177,7},
{0x2168,0x2178,7},
{0x2169,0x2179,7},
{0x216A,0x217A,7},
{0x216B,0x217B,7},
{0x216C,0x217C,7},
{0x216D,0x217D,7},
{0x216E,0x217E,7},
{0x216F,0x217F,7},
{0x2183,0x2184,7},
{0x24B6,0x24D0,7},
{0x24B7,0x24D1,7},
{0x24B8,0x24D2,7},
{0x24B9,0x24D3,7},
{0x24BA,0x24D4,7},
{0x24BB,0x24D5,7},
{0x24BC,0x24D6,7},
{0x24BD,0x24D7,7},
{0x24BE,0x24D8,7},
{0x24BF,0x24D9,7},
{0x24C0,0x24DA,7},
{0x24C1,0x24DB,7},
{0x24C2,0x24DC,7},
{0x24C3,0x24DD,7},
{0x24C4,0x24DE,7},
{0x24C5,0x24DF,7},
{0x24C6,0x24E0,7},
{0x24C7,0x24E1,7},
{0x24C8,0x24E2,7},
{0x24C9,0x24E3,7},
{0x24CA,0x24E4,7},
{0x24CB,0x24E5,7},
{0x24CC,0x24E6,7},
{0x24CD,0x24E7,7},
{0x24CE,0x24E8,7},
{0x24CF,0x24E9,7},
{0x2C00,0x2C30,7},
{0x2C01,0x2C31,7},
{0x2C02,0x2C32,7},
{0x2C03,0x2C33,7},
{0x2C04,0x2C34,7},
{0x2C05,0x2C35,7},
{0x2C06,0x2C36,7},
{0x2C07,0x2C37,7},
{0x2C08,0x2C38,7},
{0x2C09,0x2C39,7},
{0x2C0A,0x2C3A,7},
{0x2C0B,0x2C3B,7},
{0x2C0C,0x2C3C,7},
{0x2C0D,0x2C3D,7},
{0x2C0E,0x2C3E,7},
{0x2C0F,0x2C3F,7},
{0x2C10,0x2C40,7},
{0x2C11,0x2C41,7},
{0x2C12,0x2C42,7},
{0x2C13,0x2C43,7},
{0x2C14,0x2C44,7},
{0x2C15,0x2C45,7},
{0x2C16,0x2C46,7},
{0x2C17,0x2C47,7},
{0x2C18,0x2C48,7},
{0x2C19,0x2C49,7},
{0x2C1A,0x2C4A,7},
{0x2C1B,0x2C4B,7},
{0x2C1C,0x2C4C,7},
{0x2C1D,0x2C4D,7},
{0x2C1E,0x2C4E,7},
{0x2C1F,0x2C4F,7},
{0x2C20,0x2C50,7},
{0x2C21,0x2C51,7},
{0x2C22,0x2C52,7},
{0x2C23,0x2C53,7},
{0x2C24,0x2C54,7},
{0x2C25,0x2C55,7},
{0x2C26,0x2C56,7},
{0x2C27,0x2C57,7},
{0x2C28,0x2C58,7},
{0x2C29,0x2C59,7},
{0x2C2A,0x2C5A,7},
{0x2C2B,0x2C5B,7},
{0x2C2C,0x2C5C,7},
{0x2C2D,0x2C5D,7},
{0x2C2E,0x2C5E,7},
{0x2C2F,0x2C5F,14},
{0x2C60,0x2C61,7},
{0x2C62,0x26B,7},
{0x2C63,0x1D7D,7},
{0x2C64,0x27D,7},
{0x2C67,0x2C68,7},
{0x2C69,0x2C6A,7},
{0x2C6B,0x2C6C,7},
{0x2C6D,0x251,7},
{0x2C6E,0x271,7},
{0x2C6F,0x250,7},
{0x2C70,0x252,7},
{0x2C72,0x2C73,7},
{0x2C75,0x2C76,7},
{0x2C7E,0x23F,7},
{0x2C7F,0x240,7},
{0x2C80,0x2C81,7},
{0x2C82,0x2C83,7},
{0x2C84,0x2C85,7},
{0x2C86,0x2C87,7},
{0x2C88,0x2C89,7},
{0x2C8A,0x2C8B,7},
{0x2C8C,0x2C8D,7},
{0x2C8E,0x2C8F,7},
{0x2C90,0x2C91,7},
{0x2C92,0x2C93,7},
{0x2C94,0x2C95,7},
{0x2C96,0x2C97,7},
{0x2C98,0x2C99,7},
{0x2C9A,0x2C9B,7},
{0x2C9C,0x2C9D,7},
{0x2C9E,0x2C9F,7},
{0x2CA0,0x2CA1,7},
{0x2CA2,0x2CA3,7},
{0x2CA4,0x2CA5,7},
{0x2CA6,0x2CA7,7},
{0x2CA8,0x2CA9,7},
{0x2CAA,0x2CAB,7},
{0x2CAC,0x2CAD,7},
{0x2CAE,0x2CAF,7},
{0x2CB0,0x2CB1,7},
{0x2CB2,0x2CB3,7},
{0x2CB4,0x2CB5,7},
{0x2CB6,0x2CB7,7},
{0x2CB8,0x2CB9,7},
{0x2CBA,0x2CBB,7},
{0x2CBC,0x2CBD,7},
{0x2CBE,0x2CBF,7},
{0x2CC0,0x2CC1,7},
{0x2CC2,0x2CC3,7},
{0x2CC4,0x2CC5,7},
{0x2CC6,0x2CC7,7},
{0x2CC8,0x2CC9,7},
{0x2CCA,0x2CCB,7},
{0x2CCC,0x2CCD,7},
{0x2CCE,0x2CCF,7},
{0x2CD0,0x2CD1,7},
{0x2CD2,0x2CD3,7},
{0x2CD4,0x2CD5,7},
{0x2CD6,0x2CD7,7},
{0x2CD8,0x2CD9,7},
{0x2CDA,0x2CDB,7},
{0x2CDC,0x2CDD,7},
{0x2CDE,0x2CDF,7},
{0x2CE0,0x2CE1,7},
{0x2CE2,0x2CE3,7},
{0x2CEB,0x2CEC,7},
{0x2CED,0x2CEE,7},
{0x2CF2,0x2CF3,7},
{0xA640,0xA641,7},
{0xA642,0xA643,7},
{0xA644,0xA645,7},
{0xA646,0xA647,7},
{0xA648,0xA649,7},
{0xA64A,0xA64B,7},
{0xA64C,0xA64D,7},
{0xA64E,0xA64F,7},
{0xA650,0xA651,7},
{0xA652,0xA653,7},
{0xA654,0xA655,7},
{0xA656,0xA657,7},
{0xA658,0xA659,7},
{0xA65A,0xA65B,7},
{0xA65C,0xA65D,7},
{0xA65E,0xA65F,7},
{0xA660,0xA661,7},
{0xA662,0xA663,7},
{0xA664,0xA665,7},
{0xA666,0xA667,7},
{0xA668,0xA669,7},
{0xA66A,0xA66B,7},
{0xA66C,0xA66D,7},
{0xA680,0xA681,7},
{0xA682,0xA683,7},
{0xA684,0xA685,7},
{0xA686,0xA687,7},
{0xA688,0xA689,7},
{0xA68A,0xA68B,7},
{0xA68C,0xA68D,7},
{0xA68E,0xA68F,7},
{0xA690,0xA691,7},
{0xA692,0xA693,7},
{0xA694,0xA695,7},
{0xA696,0xA697,7},
{0xA698,0xA699,7},
{0xA69A,0xA69B,7},
{0xA722,0xA723,7},
{0xA724,0xA725,7},
{0xA726,0xA727,7},
{0xA728,0xA729,7},
{0xA72A,0xA72B,7},
{0xA72C,0xA72D,7},
{0xA72E,0xA72F,7},
{0xA732,0xA733,7},
{0xA734,0xA735,7},
{0xA736,0xA737,7},
{0xA738,0xA739,7},
{0xA73A,0xA73B,7},
{0xA73C,0xA73D,7},
{0xA73E,0xA73F,7},
{0xA740,0xA741,7},
{0xA742,0xA743,7},
{0xA744,0xA745,7},
{0xA746,0xA747,7},
{0xA748,0xA749,7},
{0xA74A,0xA74B,7},
{0xA74C,0xA74D,7},
{0xA74E,0xA74F,7},
{0xA750,0xA751,7},
{0xA752,0xA753,7},
{0xA754,0xA755,7},
{0xA756,0xA757,7},
{0xA758,0xA759,7},
{0xA75A,0xA75B,7},
{0xA75C,0xA75D,7},
{0xA75E,0xA75F,7},
{0xA760,0xA761,7},
{0xA762,0xA763,7},
{0xA764,0xA765,7},
{0xA766,0xA767,7},
{0xA768,0xA769,7},
{0xA76A,0xA76B,7},
{0xA76C,0xA76D,7},
{0xA76E,0xA76F,7},
{0xA779,0xA77A,7},
{0xA77B,0xA77C,7},
{0xA77D,0x1D79,7},
{0xA77E,0xA77F,7},
{0xA780,0xA781,7},
{0xA782,0xA783,7},
{0xA784,0xA785,7},
{0xA786,0xA787,7},
{0xA78B,0xA78C,7},
{0xA78D,0x265,7},
{0xA790,0xA791,7},
{0xA792,0xA793,7},
{0xA796,0xA797,7},
{0xA798,0xA799,7},
{0xA79A,0xA79B,7},
{0xA79C,0xA79D,7},
{0xA79E,0xA79F,7},
{0xA7A0,0xA7A1,7},
{0xA7A2,0xA7A3,7},
{0xA7A4,0xA7A5,7},
{0xA7A6,0xA7A7,7},
{0xA7A8,0xA7A9,7},
{0xA7AA,0x266,7},
{0xA7AB,0x25C,7},
{0xA7AC,0x261,7},
{0xA7AD,0x26C,7},
{0xA7AE,0x26A,9},
{0xA7B0,0x29E,7},
{0xA7B1,0x287,7},
{0xA7B2,0x29D,8},
{0xA7B3,0xAB53,8},
{0xA7B4,0xA7B5,8},
{0xA7B6,0xA7B7,8},
{0xA7B8,0xA7B9,11},
{0xA7BA,0xA7BB,12},
{0xA7BC,0xA7BD,12},
{0xA7BE,0xA7BF,12},
{0xA7C0,0xA7C1,14},
{0xA7C2,0xA7C3,12},
{0xA7C4,0xA794,12},
{0xA7C5,0x282,12},
{0xA7C6,0x1D8E,12},
{0xA7C7,0xA7C8,13},
{0xA7C9,0xA7CA,13},
{0xA7CB,0x264,16},
{0xA7CC,0xA7CD,16},
{0xA7D0,0xA7D1,14},
{0xA7D6,0xA7D7,14},
{0xA7D8,0xA7D9,14},
{0xA7DA,0xA7DB,16},
{0xA7DC,0x19B,16},
{0xA7F5,0xA7F6,13},
{0xFF21,0xFF41,7},
{0xFF22,0xFF42,7},
{0xFF23,0xFF43,7},
{0xFF24,0xFF44,7},
{0xFF25,0xFF45,7},
{0xFF26,0xFF46,7},
{0xFF27,0xFF47,7},
{0xFF28,0xFF48,7},
{0xFF29,0xFF49,7},
{0xFF2A,0xFF4A,7},
{0xFF2B,0xFF4B,7},
{0xFF2C,0xFF4C,7},
{0xFF2D,0xFF4D,7},
{0xFF2E,0xFF4E,7},
{0xFF2F,0xFF4F,7},
{0xFF30,0xFF50,7},
{0xFF31,0xFF51,7},
{0xFF32,0xFF52,7},
{0xFF33,0xFF53,7},
{0xFF34,0xFF54,7},
{0xFF35,0xFF55,7},
{0xFF36,0xFF56,7},
{0xFF37,0xFF57,7},
{0xFF38,0xFF58,7},
{0xFF39,0xFF59,7},
{0xFF3A,0xFF5A,7},
{0x10400,0x10428,7},
{0x10401,0x10429,7},
{0x10402,0x1042A,7},
{0x10403,0x1042B,7},
{0x10404,0x1042C,7},
{0x10405,0x1042D,7},
{0x10406,0x1042E,7},
{0x10407,0x1042F,7},
{0x10408,0x10430,7},
{0x10409,0x10431,7},
{0x1040A,0x10432,7},
{0x1040B,0x10433,7},
{0x1040C,0x10434,7},
{0x1040D,0x10435,7},
{0x1040E,0x10436,7},
{0x1040F,0x10437,7},
{0x10410,0x10438,7},
{0x10411,0x10439,7},
{0x10412,0x1043A,7},
{0x10413,0x1043B,7},
{0x10414,0x1043C,7},
{0x10415,0x1043D,7},
{0x10416,0x1043E,7},
{0x10417,0x1043F,7},
{0x10418,0x10440,7},
{0x10419,0x10441,7},
{0x1041A,0x10442,7},
{0x1041B,0x10443,7},
{0x1041C,0x10444,7},
{0x1041D,0x10445,7},
{0x1041E,0x10446,7},
{0x1041F,0x10447,7},
{0x10420,0x10448,7},
{0x10421,0x10449,7},
{0x10422,0x1044A,7},
{0x10423,0x1044B,7},
{0x10424,0x1044C,7},
{0x10425,0x1044D,7},
{0x10426,0x1044E,7},
{0x10427,0x1044F,7},
{0x104B0,0x104D8,9},
{0x104B1,0x104D9,9},
{0x104B2,0x104DA,9},
{0x104B3,0x104DB,9},
{0x104B4,0x104DC,9},
{0x104B5,0x104DD,9},
{0x104B6,0x104DE,9},
{0x104B7,0x104DF,9},
{0x104B8,0x104E0,9},
{0x104B9,0x104E1,9},
{0x104BA,0x104E2,9},
{0x104BB,0x104E3,9},
{0x104BC,0x104E4,9},
{0x104BD,0x104E5,9},
{0x104BE,0x104E6,9},
{0x104BF,0x104E7,9},
{0x104C0,0x104E8,9},
{0x104C1,0x104E9,9},
{0x104C2,0x104EA,9},
{0x104C3,0x104EB,9},
{0x104C4,0x104EC,9},
{0x104C5,0x104ED,9},
{0x104C6,0x104EE,9},
{0x104C7,0x104EF,9},
{0x104C8,0x104F0,9},
{0x104C9,0x104F1,9},
{0x104CA,0x104F2,9},
{0x104CB,0x104F3,9},
{0x104CC,0x104F4,9},
{0x104CD,0x104F5,9},
{0x104CE,0x104F6,9},
{0x104CF,0x104F7,9},
{0x104D0,0x104F8,9},
{0x104D1,0x104F9,9},
{0x104D2,0x104FA,9},
{0x104D3,0x104FB,9},
{0x10570,0x10597,14},
{0x10571,0x10598,14},
{0x10572,0x10599,14},
{0x10573,0x1059A,14},
{0x10574,0x1059B,14},
{0x10575,0x1059C,14},
{0x10576,0x1059D,14},
{0x10577,0x1059E,14},
{0x10578,0x1059F,14},
{0x10579,0x105A0,14},
{0x1057A,0x105A1,14},
{0x1057C,0x105A3,14},
{0x1057D,0x105A4,14},
{0x1057E,0x105A5,14},
{0x1057F,0x105A6,14},
{0x10580,0x105A7,14},
{0x10581,0x105A8,14},
{0x10582,0x105A9,14},
{0x10583,0x105AA,14},
{0x10584,0x105AB,14},
{0x10585,0x105AC,14},
{0x10586,0x105AD,14},
{0x10587,0x105AE,14},
{0x10588,0x105AF,14},
{0x10589,0x105B0,14},
{0x1058A,0x105B1,14},
{0x1058C,0x105B3,14},
{0x1058D,0x105B4,14},
{0x1058E,0x105B5,14},
{0x1058F,0x105B6,14},
{0x10590,0x105B7,14},
{0x10591,0x105B8,14},
{0x10592,0x105B9,14},
{0x10594,0x105BB,14},
{0x10595,0x105BC,14},
{0x10C80,0x10CC0,8},
{0x10C81,0x10CC1,8},
{0x10C82,0x10CC2,8},
{0x10C83,0x10CC3,8},
{0x10C84,0x10CC4,8},
{0x10C85,0x10CC5,8},
{0x10C86,0x10CC6,8},
{0x10C87,0x10CC7,8},
{0x10C88,0x10CC8,8},
{0x10C89,0x10CC9,8},
{0x10C8A,0x10CCA,8},
{0x10C8B,0x10CCB,8},
{0x10C8C,0x10CCC,8},
{0x10C8D,0x10CCD,8},
{0x10C8E,0x10CCE,8},
{0x10C8F,0x10CCF,8},
{0x10C90,0x10CD0,8},
{0x10C91,0x10CD1,8},
{0x10C92,0x10CD2,8},
{0x10C93,0x10CD3,8},
{0x10C94,0x10CD4,8},
{0x10C95,0x10CD5,8},
{0x10C96,0x10CD6,8},
{0x10C97,0x10CD7,8},
{0x10C98,0x10CD8,8},
{0x10C99,0x10CD9,8},
{0x10C9A,0x10CDA,8},
{0x10C9B,0x10CDB,8},
{0x10C9C,0x10CDC,8},
{0x10C9D,0x10CDD,8},
{0x10C9E,0x10CDE,8},
{0x10C9F,0x10CDF,8},
{0x10CA0,0x10CE0,8},
{0x10CA1,0x10CE1,8},
{0x10CA2,0x10CE2,8},
{0x10CA3,0x10CE3,8},
{0x10CA4,0x10CE4,8},
{0x10CA5,0x10CE5,8},
{0x10CA6,0x10CE6,8},
{0x10CA7,0x10CE7,8},
{0x10CA8,0x10CE8,8},
{0x10CA9,0x10CE9,8},
{0x10CAA,0x10CEA,8},
{0x10CAB,0x10CEB,8},
{0x10CAC,0x10CEC,8},
{0x10CAD,0x10CED,8},
{0x10CAE,0x10CEE,8},
{0x10CAF,0x10CEF,8},
{0x10CB0,0x10CF0,8},
{0x10CB1,0x10CF1,8},
{0x10CB2,0x10CF2,8},
{0x10D50,0x10D70,16},
{0x10D51,0x10D71,16},
{0x10D52,0x10D72,16},
{0x10D53,0x10D73,16},
{0x10D54,0x10D74,16},
{0x10D55,0x10D75,16},
{0x10D56,0x10D76,16},
{0x10D57,0x10D77,16},
{0x10D58,0x10D78,16},
{0x10D59,0x10D79,16},
{0x10D5A,0x10D7A,16},
{0x10D5B,0x10D7B,16},
{0x10D5C,0x10D7C,16},
{0x10D5D,0x10D7D,16},
{0x10D5E,0x10D7E,16},
{0x10D5F,0x10D7F,16},
{0x10D60,0x10D80,16},
{0x10D61,0x10D81,16},
{0x10D62,0x10D82,16},
{0x10D63,0x10D83,16},
{0x10D64,0x10D84,16},
{0x10D65,0x10D85,16},
{0x118A0,0x118C0,7},
{0x118A1,0x118C1,7},
{0x118A2,0x118C2,7},
{0x118A3,0x118C3,7},
{0x118A4,0x118C4,7},
{0x118A5,0x118C5,7},
{0x118A6,0x118C6,7},
{0x118A7,0x118C7,7},
{0x118A8,0x118C8,7},
{0x118A9,0x118C9,7},
{0x118AA,0x118CA,7},
{0x118AB,0x118CB,7},
{0x118AC,0x118CC,7},
{0x118AD,0x118CD,7},
{0x118AE,0x118CE,7},
{0x118AF,0x118CF,7},
{0x118B0,0x118D0,7},
{0x118B1,0x118D1,7},
{0x118B2,0x118D2,7},
{0x118B3,0x118D3,7},
{0x118B4,0x118D4,7},
{0x118B5,0x118D5,7},
{0x118B6,0x118D6,7},
{0x118B7,0x118D7,7},
{0x118B8,0x118D8,7},
{0x118B9,0x118D9,7},
{0x118BA,0x118DA,7},
{0x118BB,0x118DB,7},
{0x118BC,0x118DC,7},
{0x118BD,0x118DD,7},
{0x118BE,0x118DE,7},
{0x118BF,0x118DF,7},
{0x16E40,0x16E60,11},
{0x16E41,0x16E61,11},
{0x16E42,0x16E62,11},
{0x16E43,0x16E63,11},
{0x16E44,0x16E64,11},
{0x16E45,0x16E65,11},
{0x16E46,0x16E66,11},
{0x16E47,0x16E67,11},
{0x16E48,0x16E68,11},
{0x16E49,0x16E69,11},
{0x16E4A,0x16E6A,11},
{0x16E4B,0x16E6B,11},
{0x16E4C,0x16E6C,11},
{0x16E4D,0x16E6D,11},
{0x16E4E,0x16E6E,11},
{0x16E4F,0x16E6F,11},
{0x16E50,0x16E70,11},
{0x16E51,0x16E71,11},
{0x16E52,0x16E72,11},
{0x16E53,0x16E73,11},
{0x16E54,0x16E74,11},
{0x16E55,0x16E75,11},
{0x16E56,0x16E76,11},
{0x16E57,0x16E77,11},
{0x16E58,0x16E78,11},
{0x16E59,0x16E79,11},
{0x16E5A,0x16E7A,11},
{0x16E5B,0x16E7B,11},
{0x16E5C,0x16E7C,11},
{0x16E5D,0x16E7D,11},
{0x16E5E,0x16E7E,11},
{0x16E5F,0x16E7F,11},
{0x1E900,0x1E922,9},
{0x1E901,0x1E923,9},
{0x1E902,0x1E924,9},
{0x1E903,0x1E925,9},
{0x1E904,0x1E926,9},
{0x1E905,0x1E927,9},
{0x1E906,0x1E928,9},
{0x1E907,0x1E929,9},
{0x1E908,0x1E92A,9},
{0x1E909,0x1E92B,9},
{0x1E90A,0x1E92C,9},
{0x1E90B,0x1E92D,9},
{0x1E90C,0x1E92E,9},
{0x1E90D,0x1E92F,9},
{0x1E90E,0x1E930,9},
{0x1E90F,0x1E931,9},
{0x1E910,0x1E932,9},
{0x1E911,0x1E933,9},
{0x1E912,0x1E934,9},
{0x1E913,0x1E935,9},
{0x1E914,0x1E936,9},
{0x1E915,0x1E937,9},
{0x1E916,0x1E938,9},
{0x1E917,0x1E939,9},
{0x1E918,0x1E93A,9},
{0x1E919,0x1E93B,9},
{0x1E91A,0x1E93C,9},
{0x1E91B,0x1E93D,9},
{0x1E91C,0x1E93E,9},
{0x1E91D,0x1E93F,9},
{0x1E91E,0x1E940,9},
{0x1E91F,0x1E941,9},
{0x1E920,0x1E942,9},
{0x1E921,0x1E943,9},
};
