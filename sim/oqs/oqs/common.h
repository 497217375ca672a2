/* Stand-in for liboqs: the few entry points the library uses. */
#pragma once
#include <stddef.h>
#include <stdint.h>
void* OQS_MEM_aligned_alloc(size_t alignment, size_t size);
void OQS_MEM_aligned_free(void* ptr);
int OQS_MEM_secure_bcmp(const void* a, const void* b, size_t len);
void OQS_MEM_cleanse(void* ptr, size_t len);
