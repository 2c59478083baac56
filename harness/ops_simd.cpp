#include "image_function_simd.h"
#include "ops.h"
#define HAS_AbsoluteDifference
#define HAS_BitwiseAnd
#define HAS_Maximum
#define HAS_Invert
#define HAS_Threshold
#define HAS_ConvertToRgb
#define HAS_RgbToBgr
#define HAS_ConvertTo16Bit
#define HAS_Sum
#define HAS_ProjectionProfile
#define HAS_Accumulate
#define HAS_Flip
#define NS Image_Function_Simd
#define RUN_NAME runSimd
namespace hv
{
#include "ops_bind.inc"
}
