package zzverif

// Attacks are published collision messages up to their first flagged block, which is the last one listed; they start from the standard initial value.
var Attacks = [][]Block{
	{
		{0x25504446, 0x2d312e33, 0xa25e2e3, 0xcfd30a0a, 0xa312030, 0x206f626a, 0xa3c3c2f, 0x57696474, 0x68203220, 0x3020522f, 0x48656967, 0x68742033, 0x20302052, 0x2f547970, 0x65203420, 0x3020522f},
		{0x53756274, 0x79706520, 0x35203020, 0x522f4669, 0x6c746572, 0x20362030, 0x20522f43, 0x6f6c6f72, 0x53706163, 0x65203720, 0x3020522f, 0x4c656e67, 0x74682038, 0x20302052, 0x2f426974, 0x73506572},
		{0x436f6d70, 0x6f6e656e, 0x7420383e, 0x3e0a7374, 0x7265616d, 0xaffd8ff, 0xfe002453, 0x48412d31, 0x20697320, 0x64656164, 0x21212121, 0x21852fec, 0x9233975, 0x9c39b1a1, 0xc63c4c97, 0xe1fffe01},
		{0x7346dc91, 0x66b67e11, 0x8f029ab6, 0x21b2560f, 0xf9ca67cc, 0xa8c7f85b, 0xa84c7903, 0xc2b3de2, 0x18f86db3, 0xa90901d5, 0xdf45c14f, 0x26fedfb3, 0xdc38e96a, 0xc22fe7bd, 0x728f0e45, 0xbce046d2},
		{0x3c570feb, 0x141398bb, 0x552ef5a0, 0xa82be331, 0xfea48037, 0xb8b5d71f, 0xe332edf, 0x93ac3500, 0xeb4ddc0d, 0xecc1a864, 0x790c782c, 0x76215660, 0xdd309791, 0xd06bd0af, 0x3f98cda4, 0xbc4629b1},
	},
	{
		{0x25504446, 0x2d312e33, 0xa25e2e3, 0xcfd30a0a, 0xa312030, 0x206f626a, 0xa3c3c2f, 0x57696474, 0x68203220, 0x3020522f, 0x48656967, 0x68742033, 0x20302052, 0x2f547970, 0x65203420, 0x3020522f},
		{0x53756274, 0x79706520, 0x35203020, 0x522f4669, 0x6c746572, 0x20362030, 0x20522f43, 0x6f6c6f72, 0x53706163, 0x65203720, 0x3020522f, 0x4c656e67, 0x74682038, 0x20302052, 0x2f426974, 0x73506572},
		{0x436f6d70, 0x6f6e656e, 0x7420383e, 0x3e0a7374, 0x7265616d, 0xaffd8ff, 0xfe002453, 0x48412d31, 0x20697320, 0x64656164, 0x21212121, 0x21852fec, 0x9233975, 0x9c39b1a1, 0xc63c4c97, 0xe1fffe01},
		{0x7f46dc93, 0xa6b67e01, 0x3b029aaa, 0x1db2560b, 0x45ca67d6, 0x88c7f84b, 0x8c4c791f, 0xe02b3df6, 0x14f86db1, 0x690901c5, 0x6b45c153, 0xafedfb7, 0x6038e972, 0x722fe7ad, 0x728f0e49, 0x4e046c2},
		{0x30570fe9, 0xd41398ab, 0xe12ef5bc, 0x942be335, 0x42a4802d, 0x98b5d70f, 0x2a332ec3, 0x7fac3514, 0xe74ddc0f, 0x2cc1a874, 0xcd0c7830, 0x5a215664, 0x61309789, 0x606bd0bf, 0x3f98cda8, 0x44629a1},
	},
	{
		{0x99040d04, 0x7fe81780, 0x12000ff, 0x4b657920, 0x69732070, 0x61727420, 0x6f662061, 0x20636f6c, 0x6c697369, 0x6f6e2120, 0x49742773, 0x20612074, 0x72617021, 0x79c61af0, 0xafcc0545, 0x15d9274e},
		{0x7307624b, 0x1dc7fb23, 0x988bb8de, 0x8b575dba, 0x7b9eab31, 0xc1674b6d, 0x974378a8, 0x27732ff5, 0x851c76a2, 0xe60772b5, 0xa47ce1ea, 0xc40bb993, 0xc12d8c70, 0xe24a4f8d, 0x5fcdedc1, 0xb32c9cf1},
		{0x9e31af24, 0x29759d42, 0xe4dfdb31, 0x719f5876, 0x23ee5529, 0x39b6dcdc, 0x459fca53, 0x553b70f8, 0x7ede30a2, 0x47ea3af6, 0xc759a2f2, 0xb320d76, 0xdb64ff4, 0x79084fd3, 0xccb3cdd4, 0x8362d96a},
		{0x9c430617, 0xcaff6c36, 0xc637e53f, 0xde28417f, 0x626fec54, 0xed7943a4, 0x6e5f5730, 0xf2bb38fb, 0x1df6e009, 0x10d00e, 0x24ad78bf, 0x92641993, 0x608e8d15, 0x8a789f34, 0xc46fe1e6, 0x27f35a4},
		{0xcbfb8270, 0x76c50eca, 0xe8b7cca, 0x69bb2c2b, 0x790259f9, 0xbf9570dd, 0x8d4437a3, 0x115faff7, 0xc3cac09a, 0xd2526605, 0x5c271047, 0x55178eae, 0xff825a2c, 0xaa2acfb5, 0xde64ce76, 0x41dc59a5},
		{0x41a9fc9c, 0x756756e2, 0xe23dc713, 0xc8c24c97, 0x90aa6b0e, 0x38a7f55f, 0x14452a1c, 0xa2850ddd, 0x9562fd9a, 0x18ad4249, 0x6aa97008, 0xf74672f6, 0x8ef461eb, 0x88b09933, 0xd626b4f9, 0x18749cc0},
		{0x27fddd6c, 0x425fc421, 0x6835d013, 0x4d15285b, 0xab2cb784, 0xa4f7cbb4, 0xfb514d4b, 0xf0f6237c, 0xf00a9e9f, 0x132b9a06, 0x6e6fd17f, 0x6c429874, 0x78586ff6, 0x51af9674, 0x7fb426b9, 0x872b9a88},
		{0xe4063f59, 0xbb334cc0, 0x650f83a, 0x80c42751, 0xb71974d3, 0xfc2819, 0xa2e8f1e3, 0x2c1b51cb, 0x18e6bfc4, 0xdb9baef6, 0x75d4aaf5, 0xb1574a04, 0x7f8f6dd2, 0xec153a93, 0x41229397, 0x4d928f88},
		{0xced9363c, 0xfef97ce2, 0xe742bf34, 0xc96b8ef3, 0x875676fe, 0xa5cca8e5, 0xf7dea0ba, 0xb2413d4d, 0xe00ee71e, 0xe01f162b, 0xdb6d1eaf, 0xd925e6ae, 0xbaae6a35, 0x4ef17cf2, 0x5a404fb, 0xdb12fc45},
		{0x4d41fdd9, 0x5cf24596, 0x64a2ad03, 0x2d1da60a, 0x73264075, 0xd7f1e0d6, 0xc1403ae7, 0xa0d861df, 0x3fe57071, 0x88dd5e07, 0xd1589b9f, 0x8b663055, 0x3f8fc352, 0xb3e0c27d, 0xa80bddba, 0x4c64020d},
	},
	{
		{0x99030d04, 0x7fe81780, 0x11800ff, 0x50726163, 0x74696361, 0x6c205348, 0x412d3120, 0x63686f73, 0x656e2d70, 0x72656669, 0x7820636f, 0x6c6c6973, 0x696f6e21, 0x1d276c6b, 0xa661e104, 0xe1f7d76},
		{0x7f076249, 0xddc7fb33, 0x2c8bb8c2, 0xb7575dbe, 0xc79eab2b, 0xe1674b7d, 0xb34378b4, 0xcb732fe1, 0x891c76a0, 0x260772a5, 0x107ce1f6, 0xe80bb997, 0x7d2d8c68, 0x524a4f9d, 0x5fcdedcd, 0xb2c9ce1},
		{0x9231af26, 0xe9759d52, 0x50dfdb2d, 0x4d9f5872, 0x9fee5533, 0x19b6dccc, 0x619fca4f, 0xb93b70ec, 0x72de30a0, 0x87ea3ae6, 0x7359a2ee, 0x27320d72, 0xb1b64fec, 0xc9084fc3, 0xccb3cdd8, 0x3b62d97a},
		{0x90430615, 0xaff6c26, 0x7237e523, 0xe228417b, 0xde6fec4e, 0xcd7943b4, 0x4a5f572c, 0x1ebb38ef, 0x11f6e00b, 0xc010d01e, 0x90ad78a3, 0xbe641997, 0xdc8e8d0d, 0x3a789f24, 0xc46fe1ea, 0xba7f35b4},
		{0xc7fb8272, 0xb6c50eda, 0xba8b7cd6, 0x55bb2c2f, 0xc50259e3, 0x9f9570cd, 0xa94437bf, 0xfd5fafe3, 0xcfcac098, 0x12526615, 0xe827105b, 0x79178eaa, 0x43825a34, 0x1a2acfa5, 0xde64ce7a, 0xf9dc59b5},
		{0x4da9fc9e, 0xb56756f2, 0x563dc70f, 0xf4c24c93, 0x2caa6b14, 0x18a7f54f, 0x30452a00, 0x4e850dc9, 0x9962fd98, 0xd8ad4259, 0xdea97014, 0xdb4672f2, 0x32f461f3, 0x38b09923, 0xd626b4f5, 0xa0749cd0},
		{0x2bfddd6e, 0x825fc431, 0xdc35d00f, 0x7115285f, 0x172cb79e, 0x84f7cba4, 0xdf514d57, 0x1cf62368, 0xfc0a9e9d, 0xd32b9a16, 0xda6fd163, 0x40429870, 0xc4586fee, 0xe1af9664, 0x7fb426b5, 0x3f2b9a98},
		{0xe8063f5b, 0x7b334cd0, 0xb250f826, 0xbcc42755, 0xb1974c9, 0x20fc2809, 0x86e8f1ff, 0xc01b51df, 0x14e6bfc6, 0x1b9baee6, 0xc1d4aae9, 0x9d574a00, 0xc38f6dca, 0x5c153a83, 0x4122939b, 0xf5928f98},
		{0xc2d9363e, 0x3ef97cf2, 0x5342bf28, 0xf56b8ef7, 0x3b5676e4, 0x85cca8f5, 0xd3dea0a6, 0x5e413d59, 0xec0ee71c, 0x201f163b, 0x6f6d1eb3, 0xf525e6aa, 0x6ae6a2d, 0xfef17ce2, 0x5a404f7, 0x6312fc55},
		{0x4141fddb, 0x9cf24586, 0xd0a2ad1f, 0x111da60e, 0xcf26406f, 0xf7f1e0c6, 0xe5403afb, 0x4cd861cb, 0x33e57073, 0x48dd5e17, 0x65589b83, 0xa7663051, 0x838fc34a, 0x3e0c26d, 0xa80bddb6, 0xf464021d},
	},
}
