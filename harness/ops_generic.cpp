#include "penguinv/penguinv.h"
#include "ops.h"
#define HAS_AbsoluteDifference
#define HAS_BitwiseAnd
#define HAS_Maximum
#define HAS_Invert
#define HAS_Threshold
#define HAS_LookupTable
#define HAS_Copy
#define HAS_Fill
#define HAS_SetPixel
#define HAS_GetPixel
#define HAS_ConvertToGrayScale
#define HAS_ConvertToRgb
#define HAS_RgbToBgr
#define HAS_Merge
#define HAS_ExtractChannel
#define HAS_Sum
#define HAS_Histogram
#define HAS_ProjectionProfile
#define HAS_Accumulate
#define HAS_IsEqual
#define HAS_Flip
#define HAS_Transpose
#define HAS_Resize
#define NS penguinV
#define RUN_NAME runGeneric
namespace hv
{
#include "ops_bind.inc"
}
