#include "image_function.h"
#include "ops.h"
#define HAS_AbsoluteDifference
#define HAS_BitwiseAnd
#define HAS_Maximum
#define HAS_Invert
#define HAS_Threshold
#define HAS_LookupTable
#define HAS_Copy
#define HAS_Fill
#define HAS_SetPixel
#define HAS_GetPixel
#define HAS_ConvertToGrayScale
#define HAS_ConvertToRgb
#define HAS_RgbToBgr
#define HAS_RgbToRgba
#define HAS_Merge
#define HAS_ExtractChannel
#define HAS_ReplaceChannel
#define HAS_ConvertTo16Bit
#define HAS_Sum
#define HAS_Histogram
#define HAS_HistogramMask
#define HAS_ProjectionProfile
#define HAS_Accumulate
#define HAS_IsEqual
#define HAS_IsBinary
#define HAS_Flip
#define HAS_Transpose
#define HAS_Resize
#define HAS_Rotate
#define HAS_Shift
#define HAS_BinaryDilate
#define NS Image_Function
#define RUN_NAME runCpu
namespace hv
{
#include "ops_bind.inc"
}
