#pragma once
#include <cstdint>
#include <cstddef>
#include "bls.hpp"
static inline int sodium_init() { return 0; }
static inline void randombytes_buf(void* p, size_t n) { toy::on_random((uint8_t*)p, n); }
