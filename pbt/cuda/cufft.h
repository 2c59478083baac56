// Emulation of the part of cuFFT which /repo uses
#pragma once
#include "cuda_runtime.h"

typedef float2 cuComplex;
typedef cuComplex cufftComplex;
typedef float cufftReal;
typedef int cufftHandle;
enum cufftResult
{
    CUFFT_SUCCESS = 0,
    CUFFT_INVALID_PLAN = 1,
    CUFFT_ALLOC_FAILED = 2,
    CUFFT_INVALID_VALUE = 4,
    CUFFT_EXEC_FAILED = 6,
    CUFFT_INVALID_SIZE = 8
};
enum cufftType
{
    CUFFT_C2C = 0x29
};
#define CUFFT_FORWARD -1
#define CUFFT_INVERSE 1

// nx is the slowest changing dimension (rows), ny is the fastest one
cufftResult cufftPlan2d( cufftHandle * plan, int nx, int ny, cufftType type );
cufftResult cufftDestroy( cufftHandle plan );
cufftResult cufftSetStream( cufftHandle plan, cudaStream_t stream );
cufftResult cufftExecC2C( cufftHandle plan, cufftComplex * in, cufftComplex * out, int direction );
