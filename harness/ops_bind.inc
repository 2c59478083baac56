// Execution of a Call by the functions of namespace NS. HAS_<op> tells which operations exist there.
#define A_ c.in[0].img
#define AX_ c.in[0].x
#define AY_ c.in[0].y
#define B_ c.in[1].img
#define BX_ c.in[1].x
#define BY_ c.in[1].y
#define C_ c.in[2].img
#define CX_ c.in[2].x
#define CY_ c.in[2].y
#define O_ c.output()
#define OX_ c.out[0].x
#define OY_ c.out[0].y

#define BINARY_OP( F )                                                                                                                                           \
    case F:                                                                                                                                                      \
        switch ( c.form ) {                                                                                                                                      \
        case 1:                                                                                                                                                  \
            c.ret( NS::F( A_, B_ ) );                                                                                                                            \
            return true;                                                                                                                                         \
        case 2:                                                                                                                                                  \
            NS::F( A_, B_, O_ );                                                                                                                                 \
            return true;                                                                                                                                         \
        case 3:                                                                                                                                                  \
            c.ret( NS::F( A_, AX_, AY_, B_, BX_, BY_, c.w, c.h ) );                                                                                              \
            return true;                                                                                                                                         \
        default:                                                                                                                                                 \
            NS::F( A_, AX_, AY_, B_, BX_, BY_, O_, OX_, OY_, c.w, c.h );                                                                                         \
            return true;                                                                                                                                         \
        }

#define UNARY_OP( LABEL, F, ... )                                                                                                                                \
    case LABEL:                                                                                                                                                  \
        switch ( c.form ) {                                                                                                                                      \
        case 1:                                                                                                                                                  \
            c.ret( NS::F( A_, ##__VA_ARGS__ ) );                                                                                                                 \
            return true;                                                                                                                                         \
        case 2:                                                                                                                                                  \
            NS::F( A_, O_, ##__VA_ARGS__ );                                                                                                                      \
            return true;                                                                                                                                         \
        case 3:                                                                                                                                                  \
            c.ret( NS::F( A_, AX_, AY_, c.w, c.h, ##__VA_ARGS__ ) );                                                                                             \
            return true;                                                                                                                                         \
        default:                                                                                                                                                 \
            NS::F( A_, AX_, AY_, O_, OX_, OY_, c.w, c.h, ##__VA_ARGS__ );                                                                                        \
            return true;                                                                                                                                         \
        }

bool RUN_NAME( Call & c )
{
    switch ( c.op ) {
#ifdef HAS_AbsoluteDifference
        BINARY_OP( AbsoluteDifference )
#endif
#ifdef HAS_BitwiseAnd
        BINARY_OP( BitwiseAnd )
        BINARY_OP( BitwiseOr )
        BINARY_OP( BitwiseXor )
#endif
#ifdef HAS_Maximum
        BINARY_OP( Maximum )
        BINARY_OP( Minimum )
        BINARY_OP( Subtract )
#endif
#ifdef HAS_Invert
        UNARY_OP( Invert, Invert )
#endif
#ifdef HAS_Threshold
        UNARY_OP( Threshold, Threshold, c.u1 )
        UNARY_OP( Threshold2, Threshold, c.u1, c.u2 )
#endif
#ifdef HAS_LookupTable
        UNARY_OP( LookupTable, LookupTable, c.table )
        UNARY_OP( GammaCorrection, GammaCorrection, c.d1, c.d2 )
#ifndef NO_Normalize
        UNARY_OP( Normalize, Normalize )
#endif
#endif
#ifdef HAS_Copy
    case Copy:
        switch ( c.form ) {
        case 1:
            return false;
        case 2:
            NS::Copy( A_, O_ );
            return true;
        case 3:
            c.ret( NS::Copy( A_, AX_, AY_, c.w, c.h ) );
            return true;
        default:
            NS::Copy( A_, AX_, AY_, O_, OX_, OY_, c.w, c.h );
            return true;
        }
#endif
#ifdef HAS_Fill
    case Fill:
        if ( c.form == 2 )
            NS::Fill( A_, c.u1 );
        else if ( c.form == 4 )
            NS::Fill( A_, AX_, AY_, c.w, c.h, c.u1 );
        else
            return false;
        return true;
#endif
#ifdef HAS_SetPixel
    case SetPixel:
        if ( c.form != 4 )
            return false;
        NS::SetPixel( A_, AX_, AY_, c.u1 );
        return true;
    case SetPixel2:
        if ( c.form != 4 )
            return false;
        NS::SetPixel( A_, c.X, c.Y, c.u1 );
        return true;
#endif
#ifdef HAS_GetPixel
    case GetPixel:
        if ( c.form != 4 )
            return false;
        c.num = NS::GetPixel( A_, AX_, AY_ );
        return true;
#endif
#ifdef HAS_ConvertToGrayScale
        UNARY_OP( ConvertToGrayScale, ConvertToGrayScale )
#endif
#ifdef HAS_ConvertToRgb
        UNARY_OP( ConvertToRgb, ConvertToRgb )
#endif
#ifdef HAS_RgbToBgr
        UNARY_OP( RgbToBgr, RgbToBgr )
#endif
#ifdef HAS_RgbToRgba
        UNARY_OP( RgbToRgba, RgbToRgba )
        UNARY_OP( RgbaToRgb, RgbaToRgb )
#endif
#ifdef HAS_Merge
    case Merge:
        switch ( c.form ) {
        case 1:
            c.ret( NS::Merge( A_, B_, C_ ) );
            return true;
        case 2:
            NS::Merge( A_, B_, C_, O_ );
            return true;
        case 3:
            c.ret( NS::Merge( A_, AX_, AY_, B_, BX_, BY_, C_, CX_, CY_, c.w, c.h ) );
            return true;
        default:
            NS::Merge( A_, AX_, AY_, B_, BX_, BY_, C_, CX_, CY_, O_, OX_, OY_, c.w, c.h );
            return true;
        }
    case Split:
        if ( c.form == 2 )
            NS::Split( A_, c.out[0].img, c.out[1].img, c.out[2].img );
        else if ( c.form == 4 )
            NS::Split( A_, AX_, AY_, c.out[0].img, c.out[0].x, c.out[0].y, c.out[1].img, c.out[1].x, c.out[1].y, c.out[2].img, c.out[2].x, c.out[2].y, c.w, c.h );
        else
            return false;
        return true;
#endif
#ifdef HAS_ExtractChannel
        UNARY_OP( ExtractChannel, ExtractChannel, c.u1 )
#endif
#ifdef HAS_ReplaceChannel
    case ReplaceChannel:
        if ( c.form == 2 )
            NS::ReplaceChannel( A_, O_, c.u1 );
        else if ( c.form == 4 )
            NS::ReplaceChannel( A_, AX_, AY_, O_, OX_, OY_, c.w, c.h, c.u1 );
        else
            return false;
        return true;
#endif
#ifdef HAS_ConvertTo16Bit
    case ConvertTo16Bit:
        switch ( c.form ) {
        case 1:
            c.wide = NS::ConvertTo16Bit( A_ );
            c.wideX = c.wideY = 0;
            return true;
        case 2:
            NS::ConvertTo16Bit( A_, c.wide );
            return true;
        case 3:
            c.wide = NS::ConvertTo16Bit( A_, AX_, AY_, c.w, c.h );
            c.wideX = c.wideY = 0;
            return true;
        default:
            NS::ConvertTo16Bit( A_, AX_, AY_, c.wide, c.wideX, c.wideY, c.w, c.h );
            return true;
        }
    case ConvertTo8Bit:
        switch ( c.form ) {
        case 1:
            c.ret( NS::ConvertTo8Bit( c.wide ) );
            return true;
        case 2:
            NS::ConvertTo8Bit( c.wide, O_ );
            return true;
        case 3:
            c.ret( NS::ConvertTo8Bit( c.wide, c.wideX, c.wideY, c.w, c.h ) );
            return true;
        default:
            NS::ConvertTo8Bit( c.wide, c.wideX, c.wideY, O_, OX_, OY_, c.w, c.h );
            return true;
        }
#endif
#ifdef HAS_Sum
    case Sum:
        if ( c.form == 2 )
            c.num = NS::Sum( A_ );
        else if ( c.form == 4 )
            c.num = NS::Sum( A_, AX_, AY_, c.w, c.h );
        else
            return false;
        return true;
#endif
#ifdef HAS_Histogram
    case Histogram:
        switch ( c.form ) {
        case 1:
            c.vec = NS::Histogram( A_ );
            return true;
        case 2:
            NS::Histogram( A_, c.vec );
            return true;
        case 3:
            c.vec = NS::Histogram( A_, AX_, AY_, c.w, c.h );
            return true;
        default:
            NS::Histogram( A_, AX_, AY_, c.w, c.h, c.vec );
            return true;
        }
#endif
#ifdef HAS_HistogramMask
    case HistogramMask:
        switch ( c.form ) {
        case 1:
            c.vec = NS::Histogram( A_, B_ );
            return true;
        case 2:
            NS::Histogram( A_, B_, c.vec );
            return true;
        case 3:
            c.vec = NS::Histogram( A_, AX_, AY_, B_, BX_, BY_, c.w, c.h );
            return true;
        default:
            NS::Histogram( A_, AX_, AY_, B_, BX_, BY_, c.w, c.h, c.vec );
            return true;
        }
#endif
#ifdef HAS_ProjectionProfile
    case ProjectionProfile:
        switch ( c.form ) {
        case 1:
            c.vec = NS::ProjectionProfile( A_, c.b1 );
            return true;
        case 2:
            NS::ProjectionProfile( A_, c.b1, c.vec );
            return true;
        case 3:
            c.vec = NS::ProjectionProfile( A_, AX_, AY_, c.w, c.h, c.b1 );
            return true;
        default:
            NS::ProjectionProfile( A_, AX_, AY_, c.w, c.h, c.b1, c.vec );
            return true;
        }
#endif
#ifdef HAS_Accumulate
    case Accumulate:
        if ( c.form == 2 )
            NS::Accumulate( A_, c.vec );
        else if ( c.form == 4 )
            NS::Accumulate( A_, AX_, AY_, c.w, c.h, c.vec );
        else
            return false;
        return true;
#endif
#ifdef HAS_IsEqual
    case IsEqual:
        if ( c.form == 2 )
            c.num = NS::IsEqual( A_, B_ ) ? 1 : 0;
        else if ( c.form == 4 )
            c.num = NS::IsEqual( A_, AX_, AY_, B_, BX_, BY_, c.w, c.h ) ? 1 : 0;
        else
            return false;
        return true;
#endif
#ifdef HAS_IsBinary
    case IsBinary:
        if ( c.form == 2 )
            c.num = NS::IsBinary( A_ ) ? 1 : 0;
        else if ( c.form == 4 )
            c.num = NS::IsBinary( A_, AX_, AY_, c.w, c.h ) ? 1 : 0;
        else
            return false;
        return true;
#endif
#ifdef HAS_Flip
        UNARY_OP( Flip, Flip, c.b1, c.b2 )
#endif
#ifdef HAS_Transpose
        UNARY_OP( Transpose, Transpose )
#endif
#ifdef HAS_Resize
    case Resize:
        switch ( c.form ) {
        case 1:
            c.ret( NS::Resize( A_, c.wo, c.ho ) );
            return true;
        case 2:
            NS::Resize( A_, O_ );
            return true;
        case 3:
            c.ret( NS::Resize( A_, AX_, AY_, c.w, c.h, c.wo, c.ho ) );
            return true;
        default:
            NS::Resize( A_, AX_, AY_, c.w, c.h, O_, OX_, OY_, c.wo, c.ho );
            return true;
        }
#endif
#ifdef HAS_Rotate
    case Rotate:
        switch ( c.form ) {
        case 1:
            c.ret( NS::Rotate( A_, c.d1, c.d2, c.d5 ) );
            return true;
        case 2:
            NS::Rotate( A_, c.d1, c.d2, O_, c.d3, c.d4, c.d5 );
            return true;
        case 3:
            c.ret( NS::Rotate( A_, AX_, AY_, c.d1, c.d2, c.w, c.h, c.d5 ) );
            return true;
        default:
            NS::Rotate( A_, AX_, AY_, c.d1, c.d2, O_, OX_, OY_, c.d3, c.d4, c.w, c.h, c.d5 );
            return true;
        }
#endif
#ifdef HAS_Shift
        UNARY_OP( Shift, Shift, c.d1, c.d2 )
#endif
#ifdef HAS_BinaryDilate
    case BinaryDilate:
        if ( c.form == 2 )
            NS::BinaryDilate( A_, c.n1, c.n2 );
        else if ( c.form == 4 )
            NS::BinaryDilate( A_, AX_, AY_, c.w, c.h, c.n1, c.n2 );
        else
            return false;
        return true;
    case BinaryErode:
        if ( c.form == 2 )
            NS::BinaryErode( A_, c.n1, c.n2 );
        else if ( c.form == 4 )
            NS::BinaryErode( A_, AX_, AY_, c.w, c.h, c.n1, c.n2 );
        else
            return false;
        return true;
#endif
    default:
        return false;
    }
}
