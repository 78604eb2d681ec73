#pragma once
#include <cstddef>
namespace sim { void mem_access(const void* p, size_t n, bool write, const void* pc); void* mem_alloc(size_t, size_t); size_t mem_size(void*); void lib_access(const void* p, size_t n, bool write, const void* pc); }
