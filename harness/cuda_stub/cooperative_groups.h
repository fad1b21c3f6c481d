#pragma once
#include <cuda_runtime.h>
namespace pbt_cuda { void grid_sync(); void block_sync(); unsigned long long grid_rank(); unsigned long long grid_size(); unsigned block_rank(); unsigned block_size(); }
namespace cooperative_groups
{
struct grid_group
{
    void sync() const { pbt_cuda::grid_sync(); }
    bool is_valid() const { return true; }
    unsigned long long size() const { return pbt_cuda::grid_size(); }
    unsigned long long thread_rank() const { return pbt_cuda::grid_rank(); }
};
struct thread_block
{
    void sync() const { pbt_cuda::block_sync(); }
    unsigned size() const { return pbt_cuda::block_size(); }
    unsigned thread_rank() const { return pbt_cuda::block_rank(); }
};
inline grid_group this_grid() { return {}; }
inline thread_block this_thread_block() { return {}; }
template <class G> void sync(const G& g) { g.sync(); }
}
