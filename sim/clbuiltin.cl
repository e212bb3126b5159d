// OpenCL C builtins for kernels that are compiled for the CPU (compiled with -cl-no-stdinc; linked with each program).
#pragma OPENCL EXTENSION cl_khr_fp64 : enable
#define OV __attribute__((overloadable))
#define VT(T) typedef T T##2 __attribute__((ext_vector_type(2))); typedef T T##3 __attribute__((ext_vector_type(3))); typedef T T##4 __attribute__((ext_vector_type(4)));
typedef unsigned int uint;
typedef unsigned long ulong;
VT(float) VT(double) VT(int) VT(uint) VT(long) VT(ulong)

#define V1(N, T) \
	T##2 OV N(T##2 a) { return (T##2)(N(a.x), N(a.y)); } \
	T##3 OV N(T##3 a) { return (T##3)(N(a.x), N(a.y), N(a.z)); } \
	T##4 OV N(T##4 a) { return (T##4)(N(a.x), N(a.y), N(a.z), N(a.w)); }
#define V2(N, T) \
	T##2 OV N(T##2 a, T##2 b) { return (T##2)(N(a.x, b.x), N(a.y, b.y)); } \
	T##3 OV N(T##3 a, T##3 b) { return (T##3)(N(a.x, b.x), N(a.y, b.y), N(a.z, b.z)); } \
	T##4 OV N(T##4 a, T##4 b) { return (T##4)(N(a.x, b.x), N(a.y, b.y), N(a.z, b.z), N(a.w, b.w)); }
#define V2S(N, T) \
	T##2 OV N(T##2 a, T b) { return (T##2)(N(a.x, b), N(a.y, b)); } \
	T##3 OV N(T##3 a, T b) { return (T##3)(N(a.x, b), N(a.y, b), N(a.z, b)); } \
	T##4 OV N(T##4 a, T b) { return (T##4)(N(a.x, b), N(a.y, b), N(a.z, b), N(a.w, b)); }
#define V3(N, T) \
	T##2 OV N(T##2 a, T##2 b, T##2 c) { return (T##2)(N(a.x, b.x, c.x), N(a.y, b.y, c.y)); } \
	T##3 OV N(T##3 a, T##3 b, T##3 c) { return (T##3)(N(a.x, b.x, c.x), N(a.y, b.y, c.y), N(a.z, b.z, c.z)); } \
	T##4 OV N(T##4 a, T##4 b, T##4 c) { return (T##4)(N(a.x, b.x, c.x), N(a.y, b.y, c.y), N(a.z, b.z, c.z), N(a.w, b.w, c.w)); }

#define F1(N, D, F) double OV N(double a) { return D(a); } float OV N(float a) { return F(a); } V1(N, double) V1(N, float)
#define F2(N, D, F) double OV N(double a, double b) { return D(a, b); } float OV N(float a, float b) { return F(a, b); } V2(N, double) V2(N, float)
#define F3(N, D, F) double OV N(double a, double b, double c) { return D(a, b, c); } float OV N(float a, float b, float c) { return F(a, b, c); } V3(N, double) V3(N, float)

F1(sqrt, __builtin_sqrt, __builtin_sqrtf)
F1(native_sqrt, __builtin_sqrt, __builtin_sqrtf)
F1(half_sqrt, __builtin_sqrt, __builtin_sqrtf)
#define RS(a) (1.0 / __builtin_sqrt(a))
#define RSF(a) (1.0f / __builtin_sqrtf(a))
F1(rsqrt, RS, RSF)
F1(native_rsqrt, RS, RSF)
#define RC(a) (1.0 / (a))
#define RCF(a) (1.0f / (a))
F1(native_recip, RC, RCF)
F1(fabs, __builtin_fabs, __builtin_fabsf)
F1(floor, __builtin_floor, __builtin_floorf)
F1(ceil, __builtin_ceil, __builtin_ceilf)
F1(trunc, __builtin_trunc, __builtin_truncf)
F1(round, __builtin_round, __builtin_roundf)
F1(rint, __builtin_rint, __builtin_rintf)
F1(exp, __builtin_exp, __builtin_expf)
F1(log, __builtin_log, __builtin_logf)
F1(log2, __builtin_log2, __builtin_log2f)
F1(exp2, __builtin_exp2, __builtin_exp2f)
F1(sin, __builtin_sin, __builtin_sinf)
F1(cos, __builtin_cos, __builtin_cosf)
F1(tan, __builtin_tan, __builtin_tanf)
F1(cbrt, __builtin_cbrt, __builtin_cbrtf)
#define SGN(a) ((a) > 0 ? 1.0 : (a) < 0 ? -1.0 : 0.0)
F1(sign, SGN, SGN)
F2(fmin, __builtin_fmin, __builtin_fminf)
F2(fmax, __builtin_fmax, __builtin_fmaxf)
V2S(fmin, double) V2S(fmin, float) V2S(fmax, double) V2S(fmax, float)
#define MINM(a, b) ((b) < (a) ? (b) : (a))
#define MAXM(a, b) ((a) < (b) ? (b) : (a))
F2(min, MINM, MINM)
F2(max, MAXM, MAXM)
V2S(min, double) V2S(min, float) V2S(max, double) V2S(max, float)
F2(pow, __builtin_pow, __builtin_powf)
F2(powr, __builtin_pow, __builtin_powf)
F2(hypot, __builtin_hypot, __builtin_hypotf)
F2(copysign, __builtin_copysign, __builtin_copysignf)
F2(fmod, __builtin_fmod, __builtin_fmodf)
F2(atan2, __builtin_atan2, __builtin_atan2f)
#define DIVM(a, b) ((a) / (b))
F2(native_divide, DIVM, DIVM)
#define STEPM(e, x) ((x) < (e) ? 0 : 1)
F2(step, STEPM, STEPM)
F3(fma, __builtin_fma, __builtin_fmaf)
#define MADM(a, b, c) ((a) * (b) + (c))
F3(mad, MADM, MADM)
#define CLAMPM(x, l, h) ((x) < (l) ? (l) : (x) > (h) ? (h) : (x))
F3(clamp, CLAMPM, CLAMPM)
#define MIXM(x, y, a) ((x) + ((y) - (x)) * (a))
F3(mix, MIXM, MIXM)

#define GEO(T, S) \
	T OV dot(T a, T b) { return a * b; } \
	T OV dot(T##2 a, T##2 b) { return a.x * b.x + a.y * b.y; } \
	T OV dot(T##3 a, T##3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } \
	T OV dot(T##4 a, T##4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; } \
	T##3 OV cross(T##3 a, T##3 b) { return (T##3)(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); } \
	T OV length(T a) { return fabs(a); } T OV length(T##2 a) { return S(dot(a, a)); } T OV length(T##3 a) { return S(dot(a, a)); } T OV length(T##4 a) { return S(dot(a, a)); } \
	T OV distance(T a, T b) { return fabs(a - b); } T OV distance(T##2 a, T##2 b) { return length(a - b); } T OV distance(T##3 a, T##3 b) { return length(a - b); } T OV distance(T##4 a, T##4 b) { return length(a - b); } \
	T OV fast_length(T##3 a) { return S(dot(a, a)); } T OV fast_distance(T##3 a, T##3 b) { return length(a - b); } \
	T##2 OV normalize(T##2 a) { return a / length(a); } T##3 OV normalize(T##3 a) { return a / length(a); } T##4 OV normalize(T##4 a) { return a / length(a); }
GEO(double, __builtin_sqrt)
GEO(float, __builtin_sqrtf)

#define INT(T, U) \
	T OV min(T a, T b) { return b < a ? b : a; } T OV max(T a, T b) { return a < b ? b : a; } V2(min, T) V2(max, T) \
	T OV clamp(T x, T l, T h) { return x < l ? l : x > h ? h : x; } \
	T OV mad24(T a, T b, T c) { return a * b + c; } T OV mul24(T a, T b) { return a * b; }
INT(int, uint) INT(uint, uint) INT(long, ulong) INT(ulong, ulong)
uint OV abs(int a) { return a < 0 ? 0u - (uint)a : (uint)a; }
uint OV abs(uint a) { return a; }
ulong OV abs(long a) { return a < 0 ? 0ul - (ulong)a : (ulong)a; }
ulong OV abs(ulong a) { return a; }
int OV ctz(int a) { return a ? __builtin_ctz((uint)a) : 32; }
uint OV ctz(uint a) { return a ? (uint)__builtin_ctz(a) : 32; }
long OV ctz(long a) { return a ? __builtin_ctzl((ulong)a) : 64; }
ulong OV ctz(ulong a) { return a ? (ulong)__builtin_ctzl(a) : 64; }
int OV clz(int a) { return a ? __builtin_clz((uint)a) : 32; }
uint OV clz(uint a) { return a ? (uint)__builtin_clz(a) : 32; }
long OV clz(long a) { return a ? __builtin_clzl((ulong)a) : 64; }
ulong OV clz(ulong a) { return a ? (ulong)__builtin_clzl(a) : 64; }
int OV popcount(int a) { return __builtin_popcount((uint)a); }
uint OV popcount(uint a) { return (uint)__builtin_popcount(a); }
int OV isnan(double a) { return __builtin_isnan(a); }
int OV isnan(float a) { return __builtin_isnan(a); }
int OV isinf(double a) { return __builtin_isinf(a); }
int OV isinf(float a) { return __builtin_isinf(a); }
int OV isfinite(double a) { return !__builtin_isnan(a) && !__builtin_isinf(a); }
int OV isfinite(float a) { return !__builtin_isnan(a) && !__builtin_isinf(a); }
double OV select(double a, double b, long c) { return c ? b : a; }
double OV select(double a, double b, ulong c) { return c ? b : a; }
float OV select(float a, float b, int c) { return c ? b : a; }
float OV select(float a, float b, uint c) { return c ? b : a; }
int OV select(int a, int b, int c) { return c ? b : a; }
int OV select(int a, int b, uint c) { return c ? b : a; }

#define ATOM(Q, T) \
	T OV atomic_add(volatile Q T* p, T v) { T o = *p; *p = o + v; return o; } \
	T OV atomic_sub(volatile Q T* p, T v) { T o = *p; *p = o - v; return o; } \
	T OV atomic_inc(volatile Q T* p) { T o = *p; *p = o + 1; return o; } \
	T OV atomic_dec(volatile Q T* p) { T o = *p; *p = o - 1; return o; } \
	T OV atomic_xchg(volatile Q T* p, T v) { T o = *p; *p = v; return o; } \
	T OV atomic_min(volatile Q T* p, T v) { T o = *p; *p = v < o ? v : o; return o; } \
	T OV atomic_max(volatile Q T* p, T v) { T o = *p; *p = o < v ? v : o; return o; } \
	T OV atomic_and(volatile Q T* p, T v) { T o = *p; *p = o & v; return o; } \
	T OV atomic_or(volatile Q T* p, T v) { T o = *p; *p = o | v; return o; } \
	T OV atomic_cmpxchg(volatile Q T* p, T c, T v) { T o = *p; if(o == c) { *p = v; } return o; }
ATOM(__global, int) ATOM(__global, uint) ATOM(__local, int) ATOM(__local, uint)
