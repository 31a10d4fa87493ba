// The mock MPI implementation generated by checks/mpigen.py
#pragma once
#include <stdint.h>
typedef void (*mock_fn)();
struct row { const char *name, *kinds, *cls; int fargs, flens; mock_fn f[9]; };
extern "C" { extern const row mock_rows[]; extern const int mock_nrows, mock_nwrapped; int mock_call(int, int, long *, long *); void mock_fcall(int, long *); }
enum { F_C, F_F, F_F1, F_F2, F_F08, F_ENTER, F_LEAVE, F_FENTER, F_FLEAVE };
typedef long (*fn24)(long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long);
inline long call24(mock_fn f, const long *a) { return ((fn24)(void *)f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]); }
