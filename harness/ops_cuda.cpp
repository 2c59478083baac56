#include "cuda/image_function_cuda.cuh"
#include "ops.h"
#define HAS_AbsoluteDifference
#define HAS_BitwiseAnd
#define HAS_Maximum
#define HAS_Invert
#define HAS_Threshold
#define HAS_LookupTable
#define NO_Normalize
#define HAS_Copy
#define HAS_Fill
#define HAS_SetPixel
#define HAS_ConvertToGrayScale
#define HAS_ConvertToRgb
#define HAS_ExtractChannel
#define HAS_Histogram
#define HAS_ProjectionProfile
#define HAS_IsEqual
#define HAS_Flip
#define NS Image_Function_Cuda
#define RUN_NAME runCuda
namespace hv
{
#include "ops_bind.inc"
}
