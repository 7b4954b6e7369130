#pragma once
// SPLAT_ITERATE_WITH(M, a0, a1, ...) -> M(a0, 0), M(a1, 1), ...   (empty for no arguments)
#define I_SPLAT_SELECT(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, N, ...) N
#define I_SPLAT_ITER_0(M)
#define I_SPLAT_ITER_1(M, a0) M(a0, 0)
#define I_SPLAT_ITER_2(M, a0, a1) M(a0, 0), M(a1, 1)
#define I_SPLAT_ITER_3(M, a0, a1, a2) M(a0, 0), M(a1, 1), M(a2, 2)
#define I_SPLAT_ITER_4(M, a0, a1, a2, a3) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3)
#define I_SPLAT_ITER_5(M, a0, a1, a2, a3, a4) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4)
#define I_SPLAT_ITER_6(M, a0, a1, a2, a3, a4, a5) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5)
#define I_SPLAT_ITER_7(M, a0, a1, a2, a3, a4, a5, a6) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6)
#define I_SPLAT_ITER_8(M, a0, a1, a2, a3, a4, a5, a6, a7) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7)
#define I_SPLAT_ITER_9(M, a0, a1, a2, a3, a4, a5, a6, a7, a8) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8)
#define I_SPLAT_ITER_10(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9)
#define I_SPLAT_ITER_11(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10)
#define I_SPLAT_ITER_12(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11)
#define I_SPLAT_ITER_13(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12)
#define I_SPLAT_ITER_14(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13)
#define I_SPLAT_ITER_15(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14)
#define I_SPLAT_ITER_16(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15)
#define I_SPLAT_ITER_17(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16)
#define I_SPLAT_ITER_18(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17)
#define I_SPLAT_ITER_19(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17), M(a18, 18)
#define I_SPLAT_ITER_20(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17), M(a18, 18), M(a19, 19)
#define I_SPLAT_ITER_21(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17), M(a18, 18), M(a19, 19), M(a20, 20)
#define I_SPLAT_ITER_22(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17), M(a18, 18), M(a19, 19), M(a20, 20), M(a21, 21)
#define I_SPLAT_ITER_23(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17), M(a18, 18), M(a19, 19), M(a20, 20), M(a21, 21), M(a22, 22)
#define I_SPLAT_ITER_24(M, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) M(a0, 0), M(a1, 1), M(a2, 2), M(a3, 3), M(a4, 4), M(a5, 5), M(a6, 6), M(a7, 7), M(a8, 8), M(a9, 9), M(a10, 10), M(a11, 11), M(a12, 12), M(a13, 13), M(a14, 14), M(a15, 15), M(a16, 16), M(a17, 17), M(a18, 18), M(a19, 19), M(a20, 20), M(a21, 21), M(a22, 22), M(a23, 23)
#define SPLAT_ITERATE_WITH(M, ...) I_SPLAT_SELECT(M, ##__VA_ARGS__, I_SPLAT_ITER_24, I_SPLAT_ITER_23, I_SPLAT_ITER_22, I_SPLAT_ITER_21, I_SPLAT_ITER_20, I_SPLAT_ITER_19, I_SPLAT_ITER_18, I_SPLAT_ITER_17, I_SPLAT_ITER_16, I_SPLAT_ITER_15, I_SPLAT_ITER_14, I_SPLAT_ITER_13, I_SPLAT_ITER_12, I_SPLAT_ITER_11, I_SPLAT_ITER_10, I_SPLAT_ITER_9, I_SPLAT_ITER_8, I_SPLAT_ITER_7, I_SPLAT_ITER_6, I_SPLAT_ITER_5, I_SPLAT_ITER_4, I_SPLAT_ITER_3, I_SPLAT_ITER_2, I_SPLAT_ITER_1, I_SPLAT_ITER_0)(M, ##__VA_ARGS__)
