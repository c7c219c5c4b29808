// zlib interface; the model is a stored (uncompressed) format with a length and a check byte
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned char Byte; typedef Byte Bytef; typedef unsigned long uLong; typedef uLong uLongf; typedef unsigned int uInt;
#define Z_OK 0
#define Z_BUF_ERROR (-5)
#define Z_DATA_ERROR (-3)
#define Z_BEST_SPEED 1
#define Z_BEST_COMPRESSION 9
#define Z_DEFAULT_COMPRESSION (-1)
int compress2(Bytef*, uLongf*, const Bytef*, uLong, int);
int compress(Bytef*, uLongf*, const Bytef*, uLong);
uLong compressBound(uLong);
int uncompress(Bytef*, uLongf*, const Bytef*, uLong);
#ifdef __cplusplus
}
#endif
