#pragma once
#include <oqs/common.h>
void OQS_randombytes(uint8_t* random_array, size_t bytes_to_read);
