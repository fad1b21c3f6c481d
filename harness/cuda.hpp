/*
 * A stand-in for the CUDA runtime with one device and the default stream.
 * Kernels are compiled as C++ with __CUDA_ARCH__ and instrumented, threads follow device.hpp;
 * commands are executed when the host waits for them.
 * Launches name<<<blocks, threads>>>(...) are rewritten to pbt_cuda::configure(blocks, threads).on("name", name)(...).
 */
#pragma once
#include "device.hpp"
#include "cuda_launch.hpp"

#include <cooperative_groups.h>

namespace pbt_cuda
{
using device::Buffer;

struct Stream
{
    std::vector<std::function<void()>> pending;
    cudaError_t last = cudaSuccess;
    void drain()
    {
        while (!pending.empty())
        {
            auto action = std::move(pending.front());
            pending.erase(pending.begin());
            action();
        }
    }
};
inline Stream& stream()
{
    static Stream s;
    return s;
}
inline void reset()
{
    device::reset();
    stream() = Stream{};
}
inline cudaError_t failed(cudaError_t error)
{
    if (error != cudaSuccess) stream().last = error;
    return error;
}

/* An error which every call returns from some moment on. */
inline cudaError_t lost()
{
    if (device::state().fault_code) return static_cast<cudaError_t>(device::state().fault_code);
    return device::state().launches ? cudaErrorLaunchFailure : cudaErrorNoDevice;
}
/* The result of a call which has nothing else to report. */
inline cudaError_t result(const char* function, cudaError_t error)
{
    bool fails = device::fails(function);
    return device::state().lost ? lost() : fails ? failed(device::state().fault_code ? static_cast<cudaError_t>(device::state().fault_code) : error) : cudaSuccess;
}

void launch(const char* name, dim3 blocks, dim3 threads, std::function<void()> body)
{
    if (blocks.y != 1 || blocks.z != 1 || threads.y != 1 || threads.z != 1) pbt::unsupported("kernels of several dimensions");
    if (blocks.x == 0 || threads.x == 0 || threads.x > 1024)
    {
        failed(cudaErrorInvalidConfiguration);
        return;
    }
    if (result("a launch", cudaErrorLaunchOutOfResources) != cudaSuccess) return;
    std::string kernel = name;
    stream().pending.push_back([=] {
        device::launch(kernel, blocks.x, threads.x, 0, device::state().buffers, body);
    });
}

ThreadIdx::X::operator unsigned() const { return static_cast<unsigned>(device::thread().local); }
BlockIdx::X::operator unsigned() const { return static_cast<unsigned>(device::thread().group); }
BlockDim::X::operator unsigned() const { return static_cast<unsigned>(device::state().group_size); }
GridDim::X::operator unsigned() const { return static_cast<unsigned>(device::state().groups); }
void grid_sync() { device::grid_barrier(); }
void block_sync() { device::group_barrier(); }
unsigned long long grid_rank() { return device::thread().group * device::state().group_size + device::thread().local; }
unsigned long long grid_size() { return device::state().threads.size(); }
unsigned block_rank() { return static_cast<unsigned>(device::thread().local); }
unsigned block_size() { return static_cast<unsigned>(device::state().group_size); }

inline cudaError_t copy(void* to, const void* from, size_t size, cudaMemcpyKind kind)
{
    bool to_device = device::find(to, size) != nullptr, from_device = device::find(from, size) != nullptr;
    if (size == 0) return cudaSuccess;
    switch (kind)
    {
        case cudaMemcpyHostToDevice: if (!to_device || from_device) return failed(cudaErrorInvalidValue); break;
        case cudaMemcpyDeviceToHost: if (to_device || !from_device) return failed(cudaErrorInvalidValue); break;
        case cudaMemcpyDeviceToDevice: if (!to_device || !from_device) return failed(cudaErrorInvalidValue); break;
        case cudaMemcpyHostToHost: if (to_device || from_device) return failed(cudaErrorInvalidValue); break;
        case cudaMemcpyDefault: break;
        default: return failed(cudaErrorInvalidMemcpyDirection);
    }
    std::memcpy(to, from, size);
    return cudaSuccess;
}
}

cudaError_t cudaMalloc(void** pointer, size_t size)
{
    if (!pointer) return pbt_cuda::failed(cudaErrorInvalidValue);
    if (auto error = pbt_cuda::result("cudaMalloc", cudaErrorMemoryAllocation)) return error;
    *pointer = size ? device::allocate(size).data : nullptr;
    return cudaSuccess;
}
cudaError_t cudaFree(void* pointer)
{
    pbt_cuda::stream().drain();
    if (auto error = pbt_cuda::result("cudaFree", cudaErrorInvalidDevicePointer)) return error;
    if (!pointer) return cudaSuccess;
    return device::release(pointer) ? cudaSuccess : pbt_cuda::failed(cudaErrorInvalidDevicePointer);
}
cudaError_t cudaMemcpy(void* to, const void* from, size_t size, cudaMemcpyKind kind)
{
    pbt_cuda::stream().drain();
    if (auto error = pbt_cuda::result("cudaMemcpy", cudaErrorInvalidValue)) return error;
    return pbt_cuda::copy(to, from, size, kind);
}
cudaError_t cudaMemcpyAsync(void* to, const void* from, size_t size, cudaMemcpyKind kind, cudaStream_t)
{
    if (auto error = pbt_cuda::result("cudaMemcpyAsync", cudaErrorInvalidValue)) return error;
    pbt_cuda::stream().pending.push_back([=] { if (!device::state().lost) pbt_cuda::copy(to, from, size, kind); });
    return cudaSuccess;
}
cudaError_t cudaMemset(void* to, int value, size_t size)
{
    pbt_cuda::stream().drain();
    if (auto error = pbt_cuda::result("cudaMemset", cudaErrorInvalidValue)) return error;
    if (size && !device::find(to, size)) return pbt_cuda::failed(cudaErrorInvalidValue);
    std::memset(to, value, size);
    return cudaSuccess;
}
cudaError_t cudaMemsetAsync(void* to, int value, size_t size, cudaStream_t)
{
    if (auto error = pbt_cuda::result("cudaMemsetAsync", cudaErrorInvalidValue)) return error;
    pbt_cuda::stream().pending.push_back([=] {
        if (device::state().lost) return;
        if (!device::find(to, size)) pbt_cuda::failed(cudaErrorInvalidValue);
        else std::memset(to, value, size);
    });
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize()
{
    // Only failures of what was going on asynchronously are reported, those of other calls are not.
    auto& stream = pbt_cuda::stream();
    const cudaError_t before = stream.last;
    stream.last = cudaSuccess;
    stream.drain();
    if (device::state().lost) return pbt_cuda::lost();
    const cudaError_t error = stream.last;
    if (error == cudaSuccess) stream.last = before;
    return error;
}
cudaError_t cudaThreadSynchronize() { return cudaDeviceSynchronize(); }
cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaDeviceSynchronize(); }
cudaError_t cudaGetLastError()
{
    if (device::state().lost) return pbt_cuda::lost();
    cudaError_t result = pbt_cuda::stream().last;
    pbt_cuda::stream().last = cudaSuccess;
    return result;
}
cudaError_t cudaPeekAtLastError() { return device::state().lost ? pbt_cuda::lost() : pbt_cuda::stream().last; }
const char* cudaGetErrorName(cudaError_t) { return "error"; }
const char* cudaGetErrorString(cudaError_t error)
{
    switch (error)
    {
        case cudaSuccess: return "no error";
        case cudaErrorInvalidConfiguration: return "invalid configuration argument";
        case cudaErrorMemoryAllocation: return "out of memory";
        case cudaErrorNoDevice: return "no CUDA-capable device is detected";
        case cudaErrorLaunchOutOfResources: return "too many resources requested for launch";
        case cudaErrorLaunchFailure: return "unspecified launch failure";
        case cudaErrorInvalidDevicePointer: return "invalid device pointer";
        default: return "invalid argument";
    }
}
void __syncthreads() { device::group_barrier(); }
void __threadfence() {}
void __threadfence_block() {}
