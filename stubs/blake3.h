// Stand-in for the BLAKE3 library (its submodule is not part of the tree): single-chunk inputs, default output length.
#pragma once
#include <stdint.h>
#include <stddef.h>
#define BLAKE3_OUT_LEN 32
typedef struct { uint8_t buf[1024]; size_t len; } blake3_hasher;
#ifdef __cplusplus
extern "C" {
#endif
void blake3_hasher_init(blake3_hasher*);
void blake3_hasher_update(blake3_hasher*, const void*, size_t);
void blake3_hasher_finalize(const blake3_hasher*, uint8_t*, size_t);
#ifdef __cplusplus
}
#endif
