/* A stand-in for the CUDA runtime, see ../cuda.hpp. */
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>

/* Both passes define functions of the device, those compiled for the device are used. */
#if defined(__CUDA_ARCH__)
#define __global__
#define __device__
#else
#define __global__ __attribute__((weak))
#define __device__ __attribute__((weak))
#endif
#define __host__
#define __constant__ const
#define __forceinline__ inline
#define __noinline__
#define __restrict__ __restrict
#define __launch_bounds__(...)

struct dim3
{
    unsigned x, y, z;
    dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x{x}, y{y}, z{z} {}
};
struct uint3 { unsigned x, y, z; };

enum cudaError_t
{
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidConfiguration = 9,
    cudaErrorInvalidDevicePointer = 17,
    cudaErrorInvalidMemcpyDirection = 21,
    cudaErrorNoDevice = 100,
    cudaErrorLaunchOutOfResources = 701,
    cudaErrorLaunchFailure = 719,
};
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
typedef struct CUstream_st* cudaStream_t;

cudaError_t cudaMalloc(void** pointer, size_t size);
template <class T> cudaError_t cudaMalloc(T** pointer, size_t size) { return cudaMalloc(reinterpret_cast<void**>(pointer), size); }
cudaError_t cudaFree(void* pointer);
cudaError_t cudaMemcpy(void* to, const void* from, size_t size, cudaMemcpyKind kind);
cudaError_t cudaMemcpyAsync(void* to, const void* from, size_t size, cudaMemcpyKind kind, cudaStream_t stream = nullptr);
cudaError_t cudaMemset(void* to, int value, size_t size);
cudaError_t cudaMemsetAsync(void* to, int value, size_t size, cudaStream_t stream = nullptr);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaThreadSynchronize();
cudaError_t cudaStreamSynchronize(cudaStream_t stream);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char* cudaGetErrorString(cudaError_t error);
const char* cudaGetErrorName(cudaError_t error);

/* Positions of the running thread. */
namespace pbt_cuda
{
struct ThreadIdx { struct X { operator unsigned() const; } x; struct Zero { operator unsigned() const { return 0; } } y, z; };
struct BlockIdx { struct X { operator unsigned() const; } x; struct Zero { operator unsigned() const { return 0; } } y, z; };
struct BlockDim { struct X { operator unsigned() const; } x; struct One { operator unsigned() const { return 1; } } y, z; };
struct GridDim { struct X { operator unsigned() const; } x; struct One { operator unsigned() const { return 1; } } y, z; };
}
static const pbt_cuda::ThreadIdx threadIdx{};
static const pbt_cuda::BlockIdx blockIdx{};
static const pbt_cuda::BlockDim blockDim{};
static const pbt_cuda::GridDim gridDim{};
void __syncthreads();
void __threadfence();
void __threadfence_block();

inline float __int2float_rn(int v) { return static_cast<float>(v); }
inline float __uint2float_rn(unsigned v) { return static_cast<float>(v); }
inline float __ll2float_rn(long long v) { return static_cast<float>(v); }
inline float __ull2float_rn(unsigned long long v) { return static_cast<float>(v); }
inline float __fmul_rn(float a, float b) { return a * b; }
inline float __fadd_rn(float a, float b) { return a + b; }
inline float __fsub_rn(float a, float b) { return a - b; }
inline float __fmaf_rn(float a, float b, float c) { return std::fmaf(a, b, c); }
template <class T> inline T min(T a, T b) { return b < a ? b : a; }
template <class T> inline T max(T a, T b) { return a < b ? b : a; }
inline int atomicAdd(int* a, int v) { return __atomic_fetch_add(a, v, __ATOMIC_RELAXED); }
inline unsigned atomicAdd(unsigned* a, unsigned v) { return __atomic_fetch_add(a, v, __ATOMIC_RELAXED); }
inline int atomicSub(int* a, int v) { return __atomic_fetch_sub(a, v, __ATOMIC_RELAXED); }
inline int atomicOr(int* a, int v) { return __atomic_fetch_or(a, v, __ATOMIC_RELAXED); }
inline unsigned atomicOr(unsigned* a, unsigned v) { return __atomic_fetch_or(a, v, __ATOMIC_RELAXED); }
inline int atomicAnd(int* a, int v) { return __atomic_fetch_and(a, v, __ATOMIC_RELAXED); }
inline int atomicExch(int* a, int v) { return __atomic_exchange_n(a, v, __ATOMIC_RELAXED); }
inline unsigned atomicExch(unsigned* a, unsigned v) { return __atomic_exchange_n(a, v, __ATOMIC_RELAXED); }
inline int atomicCAS(int* a, int e, int v) { __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); return e; }
inline int atomicMax(int* a, int v) { int o = __atomic_load_n(a, __ATOMIC_RELAXED); while (o < v && !__atomic_compare_exchange_n(a, &o, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {} return o; }
