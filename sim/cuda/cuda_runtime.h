// What the CUDA toolkit's headers declare, as far as the engines use it, for the simulated runtime (simcuda.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <tuple>
#include <utility>
#include <algorithm>

#define __global__
#define __device__
#define __host__
#define __constant__ const
#define __forceinline__ inline
#define __restrict__
#define __shared__ static		// blocks of a kernel run one after the other
#define __launch_bounds__(...)
#define CUDART_VERSION 11080

enum cudaError { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInitializationError = 3, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevicePointer = 17,
	cudaErrorInvalidMemcpyDirection = 21, cudaErrorNoDevice = 100, cudaErrorInvalidDevice = 101, cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600, cudaErrorIllegalAddress = 700, cudaErrorLaunchFailure = 719, cudaErrorUnknown = 999 };
typedef cudaError cudaError_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
enum cudaFuncCache { cudaFuncCachePreferNone, cudaFuncCachePreferShared, cudaFuncCachePreferL1, cudaFuncCachePreferEqual };
enum cudaChannelFormatKind { cudaChannelFormatKindSigned, cudaChannelFormatKindUnsigned, cudaChannelFormatKindFloat, cudaChannelFormatKindNone };
enum cudaResourceType { cudaResourceTypeArray, cudaResourceTypeMipmappedArray, cudaResourceTypeLinear, cudaResourceTypePitch2D };
enum cudaTextureReadMode { cudaReadModeElementType, cudaReadModeNormalizedFloat };
enum cudaTextureAddressMode { cudaAddressModeWrap, cudaAddressModeClamp, cudaAddressModeMirror, cudaAddressModeBorder };
enum cudaTextureFilterMode { cudaFilterModePoint, cudaFilterModeLinear };
struct cudaChannelFormatDesc { int x, y, z, w; cudaChannelFormatKind f; };
struct cudaResourceDesc { cudaResourceType resType; struct { struct { void* devPtr; cudaChannelFormatDesc desc; size_t sizeInBytes; } linear; } res; };
struct cudaTextureDesc { cudaTextureAddressMode addressMode[3]; cudaTextureFilterMode filterMode; cudaTextureReadMode readMode; int sRGB; float borderColor[4]; int normalizedCoords; };
struct cudaResourceViewDesc { int format; };
typedef unsigned long long cudaTextureObject_t;
struct CUstream_st;
typedef CUstream_st* cudaStream_t;
struct CUuuid_st { char bytes[16]; };
struct cudaDeviceProp
{
	char name[256]; CUuuid_st uuid; size_t totalGlobalMem, sharedMemPerBlock; int regsPerBlock, warpSize; size_t memPitch; int maxThreadsPerBlock, maxThreadsDim[3], maxGridSize[3], clockRate; size_t totalConstMem;
	int major, minor, multiProcessorCount, pciBusID, pciDeviceID, pciDomainID, l2CacheSize; size_t sharedMemPerMultiprocessor; int regsPerMultiprocessor;
};
enum { cudaStreamDefault = 0, cudaStreamNonBlocking = 1 };

struct dim3 { unsigned x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
struct uint3 { unsigned x, y, z; };
struct int2 { int x, y; };
struct int4 { int x, y, z, w; };
struct float2 { float x, y; };
struct float3 { float x, y, z; };
struct float4 { float x, y, z, w; };
struct double2 { double x, y; };
struct double3 { double x, y, z; };
struct double4 { double x, y, z, w; };

extern uint3 threadIdx, blockIdx;
extern dim3 blockDim, gridDim;

cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaMalloc(void**, size_t);
template<class T> cudaError_t cudaMalloc(T** p, size_t n) { return cudaMalloc(reinterpret_cast<void**>(p), n); }
cudaError_t cudaFree(void*);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemcpy2D(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpy2DAsync(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemcpyPeer(void*, int, const void*, int, size_t);
cudaError_t cudaMemcpyPeerAsync(void*, int, const void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char* cudaGetErrorString(cudaError_t);
const char* cudaGetErrorName(cudaError_t);
cudaError_t cudaCreateTextureObject(cudaTextureObject_t*, const cudaResourceDesc*, const cudaTextureDesc*, const cudaResourceViewDesc*);
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t);

namespace simcuda {
void syncthreads();
void* shared();
cudaError_t func_attr();
const void* texel(cudaTextureObject_t t, long i, size_t size);	// nullptr: illegal
void launch(const char* name, dim3 grid, dim3 block, size_t shared_size, cudaStream_t s, std::function<void()> f);
struct Cfg
{
	dim3 g, b; size_t shm; cudaStream_t s;
	Cfg(dim3 grid, dim3 block, size_t shared_size = 0, cudaStream_t stream = nullptr) : g(grid), b(block), shm(shared_size), s(stream) {}
};
template<class... P, class... A> void start(const char* name, const Cfg& c, void (*k)(P...), A&&... a)
{
	// the arguments are converted and copied when the kernel is launched
	auto f = std::bind([k](typename std::decay<P>::type... p) { k(p...); }, static_cast<typename std::decay<P>::type>(a)...);
	launch(name, c.g, c.b, c.shm, c.s, [f]() mutable { f(); });
}
}
inline void __syncthreads() { simcuda::syncthreads(); }
inline void __syncwarp(unsigned = 0) {}
inline void __threadfence() {}
template<class K> cudaError_t cudaFuncSetCacheConfig(K*, cudaFuncCache) { return simcuda::func_attr(); }
template<class T> T tex1Dfetch(cudaTextureObject_t t, int i)
{
	T v;
	const void* p = simcuda::texel(t, i, sizeof(T));
	if(p) { memcpy(&v, p, sizeof(T)); }
	else { memset(&v, 0, sizeof(T)); }
	return v;
}
inline double __hiloint2double(int hi, int lo) { uint64_t u = static_cast<uint64_t>(static_cast<uint32_t>(hi)) << 32 | static_cast<uint32_t>(lo); double d; memcpy(&d, &u, 8); return d; }
template<class T> T __ldg(const T* p) { return *p; }
using std::min;
using std::max;
inline double rsqrt(double x) { return 1 / std::sqrt(x); }
