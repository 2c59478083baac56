// The image operations of the library as data: generated calls, execution on any back end, independent reference
#pragma once
#include "img.h"
#include <map>

namespace hv
{
    enum Op
    {
        AbsoluteDifference,
        BitwiseAnd,
        BitwiseOr,
        BitwiseXor,
        Maximum,
        Minimum,
        Subtract,
        Invert,
        Threshold,
        Threshold2,
        LookupTable,
        GammaCorrection,
        Normalize,
        Copy,
        Fill,
        SetPixel,
        SetPixel2,
        GetPixel,
        ConvertToGrayScale,
        ConvertToRgb,
        RgbToBgr,
        RgbToRgba,
        RgbaToRgb,
        Merge,
        Split,
        ExtractChannel,
        ReplaceChannel,
        ConvertTo16Bit,
        ConvertTo8Bit,
        Sum,
        Histogram,
        HistogramMask,
        ProjectionProfile,
        Accumulate,
        IsEqual,
        IsBinary,
        Flip,
        Transpose,
        Resize,
        Rotate,
        Shift,
        BinaryDilate,
        BinaryErode,
        OpCount
    };

    const char * opName( Op op );

    struct Slot
    {
        Image img;
        uint32_t x = 0, y = 0;
    };

    // A call of one operation. form: 1 = whole image, result returned; 2 = whole image, output parameter;
    // 3 = rectangle, result returned; 4 = rectangle and output parameter.
    struct Call
    {
        Op op = Copy;
        int form = 4;
        std::vector<Slot> in, out;
        int alias = -1; // out[0] is in[alias]
        Image16Bit wide; // the 16-bit image of the depth conversions
        uint32_t wideX = 0, wideY = 0;
        uint32_t w = 0, h = 0; // input rectangle
        uint32_t wo = 0, ho = 0; // output rectangle
        uint8_t ccOut = 1; // channels of the output
        uint8_t u1 = 0, u2 = 0;
        double d1 = 0, d2 = 0, d3 = 0, d4 = 0, d5 = 0;
        bool b1 = false, b2 = false;
        uint32_t n1 = 0, n2 = 0;
        std::vector<uint8_t> table;
        std::vector<uint32_t> X, Y;
        std::vector<uint32_t> vec; // result (and start value for accumulation)
        uint64_t num = 0; // result

        Image & output()
        {
            return alias >= 0 ? in[static_cast<size_t>( alias )].img : out[0].img;
        }
        void ret( Image && image )
        {
            out.resize( 1 );
            out[0].img = std::move( image );
            out[0].x = out[0].y = 0;
        }
        bool returns() const
        {
            return form == 1 || form == 3;
        }
    };

    typedef bool ( *RunFunction )( Call & ); // false: the back end has no such operation or form

    bool runCpu( Call & c );
    bool runSimd( Call & c );
    bool runPool( Call & c );
    bool runGeneric( Call & c );
    bool runOpenCL( Call & c );
    bool runCuda( Call & c );

    // State of all data before the call
    struct Before
    {
        std::vector<Snap> in, out;
        SnapT<uint16_t> wide;
        std::vector<uint32_t> vec;
    };

    Before before( const Call & c );

    struct Plane // expected values of one output
    {
        uint32_t w = 0, h = 0;
        uint8_t cc = 1;
        std::vector<int16_t> lo, hi; // lo == -1: unchanged
        std::vector<uint8_t> zero; // 0 is accepted as well
        void init( uint32_t w_, uint32_t h_, uint8_t cc_ )
        {
            w = w_;
            h = h_;
            cc = cc_;
            lo.assign( static_cast<size_t>( w ) * h * cc, -1 );
            hi = lo;
        }
        size_t index( uint32_t x, uint32_t y, uint32_t c = 0 ) const
        {
            return ( static_cast<size_t>( y ) * w + x ) * cc + c;
        }
        void set( uint32_t x, uint32_t y, uint32_t c, int v )
        {
            lo[index( x, y, c )] = hi[index( x, y, c )] = static_cast<int16_t>( v );
        }
        void set( uint32_t x, uint32_t y, uint32_t c, int l, int h_ )
        {
            lo[index( x, y, c )] = static_cast<int16_t>( l );
            hi[index( x, y, c )] = static_cast<int16_t>( h_ );
        }
    };

    struct Expected
    {
        std::vector<Plane> plane;
        std::vector<uint16_t> wide; // expected 16-bit rectangle
        bool hasVec = false, hasNum = false;
        std::vector<uint32_t> vec;
        uint64_t num = 0;
    };

    struct GenOptions
    {
        uint32_t area = 12000;
        uint32_t limit = 5000;
        bool padding = true;
        bool alias = true;
        bool colour = true;
        int forms = 0xF; // bit (form - 1)
    };

    void genCall( Src & s, Call & c, Op op, const GenOptions & options );
    void reference( const Call & c, const Before & b, Expected & e );

    // Compares the result and / or the frame (everything that must not change); throws pbt::Failure
    const int VALUES = 1, FRAME = 2;
    void verify( const Call & c, const Before & b, const Expected & e, int what = VALUES );

    // Everything together; returns false if the back end lacks the call
    bool checkCall( Call & c, RunFunction run, int what = VALUES );

    // Makes a valid call invalid; returns the description of what is wrong, or an empty text if this way does not apply
    std::string breakCall( Src & s, Call & c );

    std::string describe( const Call & c );
    bool nontrivialCall( const Call & c );

    const std::vector<Op> & pointwiseOps();
    const std::vector<Op> & colourOps();
    const std::vector<Op> & reductionOps();
    const std::vector<Op> & geometryOps();
    const std::vector<Op> & morphologyOps();
    const std::vector<Op> & allOps();

    int formMask( Op op );
    bool isColourOp( Op op ); // accepts several channel counts
}
