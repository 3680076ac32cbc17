package zzverif

// Specification data, written down once from the published material and kept
// independent of the tree under check.

// dvDef is a disturbance vector I(K,b) / II(K,b) and its test step.
type dvDef struct{ typ, k, b, t uint32 }

// specDVs lists the 32 vectors in the published order: the position is the
// mask bit.
var specDVs = [32]dvDef{
	{1, 43, 0, 58},
	{1, 44, 0, 58},
	{1, 45, 0, 58},
	{1, 46, 0, 58},
	{1, 46, 2, 58},
	{1, 47, 0, 58},
	{1, 47, 2, 58},
	{1, 48, 0, 58},
	{1, 48, 2, 58},
	{1, 49, 0, 58},
	{1, 49, 2, 58},
	{1, 50, 0, 65},
	{1, 50, 2, 65},
	{1, 51, 0, 65},
	{1, 51, 2, 65},
	{1, 52, 0, 65},
	{2, 45, 0, 58},
	{2, 46, 0, 58},
	{2, 46, 2, 58},
	{2, 47, 0, 58},
	{2, 48, 0, 58},
	{2, 49, 0, 58},
	{2, 49, 2, 58},
	{2, 50, 0, 65},
	{2, 50, 2, 65},
	{2, 51, 0, 65},
	{2, 51, 2, 65},
	{2, 52, 0, 65},
	{2, 53, 0, 65},
	{2, 54, 0, 65},
	{2, 55, 0, 65},
	{2, 56, 0, 65},
}

// bitCond: bit p of word i XOR bit q of word j equals v.
type bitCond struct{ i, p, j, q, v uint8 }

// specConds are the unavoidable bit conditions of each vector.
var specConds = [32][]bitCond{
	{{37, 4, 39, 4, 1}, {37, 4, 40, 29, 0}, {39, 4, 41, 4, 1}, {39, 4, 42, 29, 0}, {41, 4, 44, 29, 0}, {43, 4, 46, 29, 0}, {44, 29, 46, 29, 1}, {46, 29, 47, 29, 0}, {58, 0, 63, 30, 1}, {59, 5, 63, 30, 0}, {61, 1, 62, 6, 1}},
	{{38, 4, 40, 4, 1}, {38, 4, 41, 29, 0}, {40, 4, 42, 4, 1}, {40, 4, 43, 29, 0}, {40, 29, 41, 29, 0}, {42, 4, 45, 29, 0}, {44, 4, 47, 29, 0}, {45, 29, 47, 29, 1}, {47, 29, 48, 29, 0}, {59, 0, 64, 30, 1}, {60, 5, 64, 30, 0}, {62, 1, 63, 6, 1}},
	{{35, 4, 39, 29, 0}, {39, 4, 41, 4, 1}, {39, 4, 42, 29, 0}, {41, 4, 44, 29, 0}, {41, 29, 42, 29, 0}, {43, 4, 46, 29, 0}, {44, 29, 46, 29, 1}, {45, 4, 48, 29, 0}, {46, 29, 48, 29, 1}, {48, 29, 49, 29, 0}, {60, 0, 61, 5, 1}, {63, 1, 64, 6, 1}},
	{{36, 4, 40, 29, 0}, {40, 4, 42, 4, 1}, {40, 4, 43, 29, 0}, {42, 4, 45, 29, 0}, {42, 29, 43, 29, 0}, {44, 4, 47, 29, 0}, {45, 29, 47, 29, 1}, {46, 4, 49, 29, 0}, {47, 29, 49, 29, 1}, {49, 29, 50, 29, 0}, {61, 0, 62, 5, 1}},
	{{35, 1, 36, 6, 1}, {39, 1, 40, 6, 1}, {40, 6, 42, 6, 0}, {42, 6, 44, 6, 0}, {44, 6, 46, 6, 0}, {46, 6, 47, 1, 0}, {61, 2, 62, 7, 1}},
	{{37, 4, 40, 29, 0}, {40, 29, 41, 29, 0}, {41, 4, 44, 29, 0}, {43, 4, 46, 29, 0}, {43, 29, 44, 29, 0}, {44, 29, 46, 29, 1}, {45, 4, 48, 29, 0}, {46, 29, 48, 29, 1}, {47, 4, 50, 29, 0}, {48, 29, 50, 29, 1}, {50, 29, 51, 29, 0}, {62, 0, 63, 5, 1}},
	{{36, 1, 37, 6, 1}, {40, 1, 41, 6, 1}, {41, 6, 43, 6, 0}, {43, 6, 45, 6, 0}, {45, 6, 47, 6, 0}, {47, 6, 48, 1, 0}, {62, 2, 63, 7, 1}},
	{{35, 4, 39, 29, 0}, {38, 4, 41, 29, 0}, {40, 29, 41, 29, 0}, {41, 29, 42, 29, 0}, {42, 4, 45, 29, 0}, {44, 4, 47, 29, 0}, {44, 29, 45, 29, 0}, {45, 29, 47, 29, 1}, {46, 4, 49, 29, 0}, {47, 29, 49, 29, 1}, {48, 4, 51, 29, 0}, {49, 29, 51, 29, 1}, {51, 29, 52, 29, 0}, {63, 0, 64, 5, 1}},
	{{37, 1, 38, 6, 1}, {41, 1, 42, 6, 1}, {42, 6, 44, 6, 0}, {44, 6, 46, 6, 0}, {46, 6, 48, 6, 0}, {48, 6, 49, 1, 0}, {63, 2, 64, 7, 1}},
	{{36, 4, 40, 29, 0}, {39, 4, 42, 29, 0}, {41, 29, 42, 29, 0}, {42, 29, 43, 29, 0}, {43, 4, 46, 29, 0}, {45, 4, 48, 29, 0}, {45, 29, 46, 29, 0}, {46, 29, 48, 29, 1}, {47, 4, 50, 29, 0}, {48, 29, 50, 29, 1}, {49, 4, 52, 29, 0}, {50, 29, 52, 29, 1}, {52, 29, 53, 29, 0}},
	{{35, 1, 36, 6, 1}, {38, 1, 40, 1, 1}, {39, 6, 40, 1, 0}, {42, 1, 50, 1, 1}, {43, 6, 45, 6, 0}, {45, 6, 47, 6, 0}, {47, 6, 49, 6, 0}, {49, 6, 50, 1, 0}},
	{{36, 4, 37, 4, 1}, {37, 4, 41, 29, 0}, {40, 4, 43, 29, 0}, {42, 29, 43, 29, 0}, {43, 29, 44, 29, 0}, {44, 4, 47, 29, 0}, {46, 4, 49, 29, 0}, {46, 29, 47, 29, 0}, {47, 29, 49, 29, 1}, {48, 4, 51, 29, 0}, {49, 29, 51, 29, 1}, {50, 4, 53, 29, 0}, {51, 29, 54, 29, 1}, {53, 29, 54, 29, 0}},
	{{36, 1, 37, 6, 1}, {39, 1, 40, 6, 1}, {40, 6, 41, 1, 0}, {43, 1, 51, 1, 1}, {44, 6, 46, 6, 0}, {46, 6, 48, 6, 0}, {48, 6, 50, 6, 0}, {50, 6, 51, 1, 0}},
	{{35, 3, 39, 28, 0}, {37, 4, 38, 4, 1}, {38, 4, 42, 29, 0}, {41, 4, 44, 29, 0}, {43, 29, 44, 29, 0}, {44, 29, 45, 29, 0}, {45, 4, 48, 29, 0}, {47, 4, 50, 29, 0}, {47, 29, 48, 29, 0}, {48, 29, 50, 29, 1}, {48, 29, 55, 29, 1}, {49, 4, 52, 29, 0}, {50, 29, 52, 29, 1}, {51, 4, 54, 29, 0}, {54, 29, 55, 29, 0}},
	{{35, 5, 39, 30, 0}, {37, 1, 37, 6, 0}, {37, 1, 38, 6, 1}, {40, 1, 41, 6, 1}, {41, 6, 42, 1, 0}, {44, 1, 45, 6, 1}, {45, 6, 47, 6, 0}, {47, 6, 49, 6, 0}, {49, 6, 51, 6, 0}, {51, 6, 52, 1, 0}},
	{{38, 4, 39, 4, 1}, {39, 4, 43, 29, 0}, {42, 4, 45, 29, 0}, {44, 29, 45, 29, 0}, {45, 29, 46, 29, 0}, {46, 4, 49, 29, 0}, {48, 4, 51, 29, 0}, {48, 29, 49, 29, 0}, {48, 29, 55, 29, 1}, {49, 29, 51, 29, 1}, {50, 4, 53, 29, 0}, {52, 4, 55, 29, 0}, {53, 29, 56, 29, 1}, {55, 29, 56, 29, 0}},
	{{36, 4, 40, 29, 0}, {41, 4, 44, 29, 0}, {43, 29, 44, 29, 0}, {44, 29, 45, 29, 0}, {47, 4, 50, 29, 0}, {49, 4, 52, 29, 0}, {49, 29, 50, 29, 0}, {50, 29, 52, 29, 1}, {52, 29, 53, 29, 0}, {60, 0, 61, 5, 1}, {63, 1, 64, 6, 1}},
	{{37, 4, 40, 29, 0}, {40, 29, 41, 29, 0}, {42, 4, 45, 29, 0}, {44, 29, 45, 29, 0}, {45, 29, 46, 29, 0}, {48, 4, 51, 29, 0}, {50, 4, 53, 29, 0}, {50, 29, 51, 29, 0}, {51, 29, 54, 29, 1}, {53, 29, 54, 29, 0}, {61, 0, 62, 5, 1}},
	{{36, 1, 37, 6, 1}, {41, 1, 42, 6, 1}, {42, 6, 43, 1, 0}, {47, 1, 51, 1, 1}, {48, 6, 50, 6, 0}, {50, 6, 51, 1, 0}, {61, 2, 62, 7, 1}},
	{{35, 3, 39, 28, 0}, {35, 4, 39, 29, 0}, {38, 4, 41, 29, 0}, {40, 29, 41, 29, 0}, {41, 29, 42, 29, 0}, {43, 4, 46, 29, 0}, {45, 29, 46, 29, 0}, {46, 29, 47, 29, 0}, {49, 4, 52, 29, 0}, {51, 4, 54, 29, 0}, {51, 29, 52, 29, 0}, {51, 29, 54, 29, 1}, {54, 29, 55, 29, 0}, {62, 0, 63, 5, 1}},
	{{35, 30, 40, 28, 1}, {36, 3, 40, 28, 0}, {36, 4, 40, 29, 0}, {39, 4, 42, 29, 0}, {41, 29, 42, 29, 0}, {42, 29, 43, 29, 0}, {44, 4, 47, 29, 0}, {46, 29, 47, 29, 0}, {47, 29, 48, 29, 0}, {50, 4, 53, 29, 0}, {52, 4, 55, 29, 0}, {52, 29, 53, 29, 0}, {53, 29, 56, 29, 1}, {55, 29, 56, 29, 0}, {63, 0, 64, 5, 1}},
	{{36, 30, 41, 28, 1}, {37, 3, 41, 28, 0}, {37, 4, 41, 29, 0}, {40, 4, 43, 29, 0}, {42, 29, 43, 29, 0}, {43, 29, 44, 29, 0}, {45, 4, 48, 29, 0}, {47, 29, 48, 29, 0}, {48, 29, 49, 29, 0}, {51, 4, 54, 29, 0}, {53, 4, 56, 29, 0}, {53, 29, 54, 29, 0}, {53, 29, 56, 29, 1}, {56, 29, 57, 29, 0}},
	{{36, 0, 41, 30, 1}, {37, 5, 41, 30, 0}, {39, 1, 40, 6, 1}, {40, 6, 41, 1, 0}, {44, 1, 45, 6, 1}, {45, 6, 46, 1, 0}, {50, 1, 54, 1, 1}, {51, 6, 53, 6, 0}, {53, 6, 54, 1, 0}},
	{{37, 30, 42, 28, 1}, {38, 3, 42, 28, 0}, {38, 4, 42, 29, 0}, {41, 4, 44, 29, 0}, {43, 29, 44, 29, 0}, {44, 29, 45, 29, 0}, {46, 4, 49, 29, 0}, {48, 29, 49, 29, 0}, {49, 29, 50, 29, 0}, {52, 4, 55, 29, 0}, {54, 4, 57, 29, 0}, {54, 29, 55, 29, 0}, {55, 29, 58, 29, 1}, {57, 29, 58, 29, 0}},
	{{37, 0, 42, 30, 1}, {38, 5, 42, 30, 0}, {40, 1, 41, 6, 1}, {41, 6, 42, 1, 0}, {45, 1, 47, 1, 1}, {46, 6, 47, 1, 0}, {51, 1, 55, 1, 1}, {52, 6, 54, 6, 0}, {54, 6, 55, 1, 0}},
	{{38, 30, 43, 28, 1}, {39, 3, 43, 28, 0}, {39, 4, 43, 29, 0}, {42, 4, 45, 29, 0}, {44, 29, 45, 29, 0}, {45, 29, 46, 29, 0}, {47, 4, 50, 29, 0}, {49, 29, 50, 29, 0}, {50, 29, 51, 29, 0}, {53, 4, 56, 29, 0}, {55, 4, 58, 29, 0}, {55, 29, 56, 29, 0}, {56, 29, 59, 29, 1}, {58, 29, 59, 29, 0}},
	{{38, 0, 43, 30, 1}, {39, 5, 43, 30, 0}, {41, 1, 42, 6, 1}, {42, 6, 43, 1, 0}, {46, 1, 48, 1, 1}, {47, 6, 48, 1, 0}, {52, 1, 56, 1, 1}, {53, 6, 55, 6, 0}, {55, 6, 56, 1, 0}},
	{{36, 4, 38, 4, 1}, {39, 30, 44, 28, 1}, {40, 3, 44, 28, 0}, {40, 4, 44, 29, 0}, {43, 4, 46, 29, 0}, {45, 29, 46, 29, 0}, {46, 29, 47, 29, 0}, {48, 4, 51, 29, 0}, {50, 29, 51, 29, 0}, {51, 29, 52, 29, 0}, {54, 4, 57, 29, 0}, {56, 4, 59, 29, 0}, {56, 29, 57, 29, 0}, {56, 29, 59, 29, 1}, {59, 29, 60, 29, 0}},
	{{37, 4, 39, 4, 1}, {37, 4, 40, 29, 0}, {41, 3, 45, 28, 0}, {41, 4, 45, 29, 0}, {44, 4, 47, 29, 0}, {46, 29, 47, 29, 0}, {47, 29, 48, 29, 0}, {49, 4, 52, 29, 0}, {51, 29, 52, 29, 0}, {52, 29, 53, 29, 0}, {55, 4, 58, 29, 0}, {57, 4, 61, 29, 0}, {57, 29, 58, 29, 0}, {58, 29, 61, 29, 1}},
	{{36, 4, 38, 4, 1}, {38, 4, 40, 4, 1}, {38, 4, 41, 29, 0}, {42, 3, 46, 28, 0}, {42, 4, 46, 29, 0}, {45, 4, 48, 29, 0}, {47, 29, 48, 29, 0}, {48, 29, 49, 29, 0}, {50, 4, 53, 29, 0}, {52, 29, 53, 29, 0}, {53, 29, 54, 29, 0}, {56, 4, 59, 29, 0}, {58, 4, 62, 29, 0}, {58, 29, 59, 29, 0}},
	{{37, 4, 39, 4, 1}, {37, 4, 40, 29, 0}, {39, 4, 41, 4, 1}, {39, 4, 42, 29, 0}, {43, 3, 47, 28, 0}, {43, 4, 47, 29, 0}, {46, 4, 49, 29, 0}, {48, 29, 49, 29, 0}, {49, 29, 50, 29, 0}, {51, 4, 54, 29, 0}, {53, 29, 54, 29, 0}, {54, 29, 55, 29, 0}, {57, 4, 59, 29, 0}, {59, 4, 63, 29, 0}},
	{{38, 4, 40, 4, 1}, {38, 4, 41, 29, 0}, {40, 4, 42, 4, 1}, {40, 4, 43, 29, 0}, {40, 29, 41, 29, 0}, {44, 3, 48, 28, 0}, {44, 4, 48, 29, 0}, {47, 4, 50, 29, 0}, {49, 29, 50, 29, 0}, {50, 29, 51, 29, 0}, {52, 4, 55, 29, 0}, {54, 29, 55, 29, 0}, {55, 29, 56, 29, 0}, {60, 4, 64, 29, 0}},
}
