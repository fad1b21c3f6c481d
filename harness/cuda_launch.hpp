/* Launches of kernels by rewritten host code. */
#pragma once
#include <cuda_runtime.h>

#include <functional>
#include <tuple>
#include <utility>

namespace pbt_cuda
{
void launch(const char* name, dim3 blocks, dim3 threads, std::function<void()> body);

template <class... P> struct Bound
{
    const char* name;
    dim3 blocks, threads;
    void (*kernel)(P...);
    void operator()(P... values) const
    {
        auto function = kernel;
        std::tuple<P...> arguments{values...};
        launch(name, blocks, threads, [=] { std::apply(function, arguments); });
    }
};
struct Configuration
{
    dim3 blocks, threads;
    template <class... P> Bound<P...> on(const char* name, void (*kernel)(P...)) const { return {name, blocks, threads, kernel}; }
};
inline Configuration configure(dim3 blocks, dim3 threads, size_t = 0, cudaStream_t = nullptr) { return {blocks, threads}; }
}
