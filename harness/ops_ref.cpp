// Generation, independent reference and verification of image operations.
// The reference is written pixel by pixel from the definitions; it shares no code with the library.
#include "ops.h"

namespace hv
{
    namespace
    {
        const char * names[] = {
            "AbsoluteDifference", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "Maximum", "Minimum", "Subtract", "Invert", "Threshold", "Threshold2",
            "LookupTable", "GammaCorrection", "Normalize", "Copy", "Fill", "SetPixel", "SetPixel2", "GetPixel", "ConvertToGrayScale", "ConvertToRgb",
            "RgbToBgr", "RgbToRgba", "RgbaToRgb", "Merge", "Split", "ExtractChannel", "ReplaceChannel", "ConvertTo16Bit", "ConvertTo8Bit", "Sum",
            "Histogram", "HistogramMask", "ProjectionProfile", "Accumulate", "IsEqual", "IsBinary", "Flip", "Transpose", "Resize", "Rotate",
            "Shift", "BinaryDilate", "BinaryErode" };
        static_assert( sizeof( names ) / sizeof( names[0] ) == OpCount, "one name per operation" );

        // channels: 0 = any of 1, 3, 4 (the same for all images marked 0)
        struct Traits
        {
            int nIn, nOut;
            int ccIn, ccOut;
            int forms; // bit (form - 1)
            bool alias; // output may be an input
        };

        Traits traits( Op op )
        {
            switch ( op ) {
            case AbsoluteDifference:
            case BitwiseAnd:
            case BitwiseOr:
            case BitwiseXor:
            case Maximum:
            case Minimum:
            case Subtract:
                return Traits{ 2, 1, 0, 0, 15, true };
            case Invert:
            case LookupTable:
            case GammaCorrection:
            case Normalize:
                return Traits{ 1, 1, 0, 0, 15, true };
            case Threshold:
            case Threshold2:
                return Traits{ 1, 1, 1, 1, 15, true };
            case Copy:
                return Traits{ 1, 1, 0, 0, 14, false };
            case Fill:
                return Traits{ 1, 1, 0, 0, 10, false };
            case SetPixel:
            case SetPixel2:
                return Traits{ 1, 1, 1, 1, 8, false };
            case GetPixel:
                return Traits{ 1, 0, 1, 1, 8, false };
            case ConvertToGrayScale:
                return Traits{ 1, 1, 0, 1, 15, false };
            case ConvertToRgb:
                return Traits{ 1, 1, 0, 3, 15, false };
            case RgbToBgr:
                return Traits{ 1, 1, 3, 3, 15, true };
            case RgbToRgba:
                return Traits{ 1, 1, 3, 4, 15, false };
            case RgbaToRgb:
                return Traits{ 1, 1, 4, 3, 15, false };
            case Merge:
                return Traits{ 3, 1, 1, 3, 15, false };
            case Split:
                return Traits{ 1, 3, 3, 1, 10, false };
            case ExtractChannel:
                return Traits{ 1, 1, 0, 1, 15, false };
            case ReplaceChannel:
                return Traits{ 1, 1, 1, 3, 10, false };
            case ConvertTo16Bit:
                return Traits{ 1, 0, 0, 0, 15, false };
            case ConvertTo8Bit:
                return Traits{ 0, 1, 0, 0, 15, false };
            case Sum:
            case IsBinary:
                return Traits{ 1, 0, 1, 1, 10, false };
            case Histogram:
            case ProjectionProfile:
                return Traits{ 1, 0, 0, 0, 15, false };
            case HistogramMask:
                return Traits{ 2, 0, 0, 0, 15, false };
            case Accumulate:
                return Traits{ 1, 0, 0, 0, 10, false };
            case IsEqual:
                return Traits{ 2, 0, 0, 0, 10, false };
            case Flip:
            case Transpose:
            case Rotate:
            case Shift:
                return Traits{ 1, 1, 1, 1, 15, false };
            case Resize:
                return Traits{ 1, 1, 0, 0, 15, false };
            case BinaryDilate:
            case BinaryErode:
                return Traits{ 1, 1, 1, 1, 10, false };
            default:
                return Traits{ 0, 0, 1, 1, 8, false };
            }
        }

        bool inPlace( Op op )
        {
            return op == Fill || op == SetPixel || op == SetPixel2 || op == BinaryDilate || op == BinaryErode;
        }

        uint32_t margin( Src & s )
        {
            const uint32_t k = s.byte();
            if ( k < 128 )
                return 0;
            if ( k < 224 )
                return 1 + static_cast<uint32_t>( s.upto( 4 ) );
            return static_cast<uint32_t>( s.upto( k < 253 ? 40 : 300 ) );
        }

        // margins: left, right, top, bottom
        void slotGeometry( Src & s, uint32_t w, uint32_t h, bool margins, uint32_t & x, uint32_t & y, uint32_t & fullW, uint32_t & fullH )
        {
            x = y = 0;
            fullW = w;
            fullH = h;
            if ( margins ) {
                x = margin( s );
                fullW += x + margin( s );
                y = margin( s );
                fullH += y + margin( s );
            }
        }

        void genSlot( Src & s, Slot & slot, uint32_t w, uint32_t h, uint8_t cc, bool margins, const GenOptions & options )
        {
            uint32_t fullW, fullH;
            slotGeometry( s, w, h, margins, slot.x, slot.y, fullW, fullH );
            slot.img = genImage( s, fullW, fullH, cc, options.padding ? genAlignment( s ) : 1 );
        }

        double genFraction( Src & s )
        {
            const uint32_t k = s.byte();
            if ( k < 90 )
                return 0;
            if ( k < 200 )
                return static_cast<double>( s.upto( 64 ) ) / 64.0;
            return s.unit();
        }
    }

    const char * opName( Op op )
    {
        return names[op];
    }

    int formMask( Op op )
    {
        return traits( op ).forms;
    }

    bool isColourOp( Op op )
    {
        return traits( op ).ccIn == 0;
    }

    const std::vector<Op> & pointwiseOps()
    {
        static const std::vector<Op> v{ AbsoluteDifference, BitwiseAnd, BitwiseOr,       BitwiseXor, Maximum, Minimum, Subtract, Invert,   Threshold,
                                        Threshold2,         LookupTable, GammaCorrection, Normalize,  Copy,    Fill,    SetPixel, SetPixel2, GetPixel };
        return v;
    }

    const std::vector<Op> & colourOps()
    {
        static const std::vector<Op> v{ ConvertToGrayScale, ConvertToRgb, RgbToBgr,       RgbToRgba,      RgbaToRgb,    Merge,
                                        Split,              ExtractChannel, ReplaceChannel, ConvertTo16Bit, ConvertTo8Bit };
        return v;
    }

    const std::vector<Op> & reductionOps()
    {
        static const std::vector<Op> v{ Sum, Histogram, HistogramMask, ProjectionProfile, Accumulate, IsEqual, IsBinary };
        return v;
    }

    const std::vector<Op> & geometryOps()
    {
        static const std::vector<Op> v{ Flip, Transpose, Resize, Rotate, Shift };
        return v;
    }

    const std::vector<Op> & morphologyOps()
    {
        static const std::vector<Op> v{ BinaryDilate, BinaryErode };
        return v;
    }

    const std::vector<Op> & allOps()
    {
        static std::vector<Op> v;
        if ( v.empty() ) {
            for ( int i = 0; i < OpCount; ++i )
                v.push_back( static_cast<Op>( i ) );
        }
        return v;
    }

    void genCall( Src & s, Call & c, Op op, const GenOptions & options )
    {
        const Traits t = traits( op );
        c = Call();
        c.op = op;

        std::vector<int> forms;
        for ( int f = 4; f >= 1; --f ) {
            if ( ( t.forms & options.forms ) & ( 1 << ( f - 1 ) ) )
                forms.push_back( f );
        }
        if ( forms.empty() )
            throw pbt::Discard();
        c.form = forms[0] == 4 && !s.chance( 100 ) ? 4 : forms[s.upto( forms.size() - 1 )];
        const bool margins = c.form >= 3;

        const uint8_t anyCC = options.colour ? s.pick<uint8_t>( { 1, 1, 3, 4 } ) : 1;
        const uint8_t ccIn = t.ccIn == 0 ? anyCC : static_cast<uint8_t>( t.ccIn );
        c.ccOut = t.ccOut == 0 ? anyCC : static_cast<uint8_t>( t.ccOut );

        genSize( s, c.w, c.h, options.area, op == BinaryDilate || op == BinaryErode ? std::min( options.limit, 4000u ) : options.limit );
        if ( op == SetPixel || op == GetPixel )
            c.w = c.h = 1;
        c.wo = c.w;
        c.ho = c.h;
        if ( op == Transpose )
            std::swap( c.wo, c.ho );
        if ( op == Resize ) {
            if ( s.flag() ) {
                genSize( s, c.wo, c.ho, options.area, options.limit );
            }
            else {
                c.wo = std::max<uint32_t>( 1, c.w * s.pick<uint32_t>( { 1, 2, 3, 4, 6 } ) / s.pick<uint32_t>( { 1, 2, 3, 5 } ) );
                c.ho = std::max<uint32_t>( 1, c.h * s.pick<uint32_t>( { 1, 2, 3, 4, 6 } ) / s.pick<uint32_t>( { 1, 2, 3, 5 } ) );
                c.wo = std::min( c.wo, std::max( 1u, 4 * options.area / c.ho ) );
            }
        }

        // parameters
        switch ( op ) {
        case Threshold:
        case Fill:
        case SetPixel:
        case SetPixel2:
            c.u1 = genLevel( s );
            break;
        case Threshold2:
            c.u1 = genLevel( s );
            c.u2 = genLevel( s );
            if ( c.u1 > c.u2 )
                std::swap( c.u1, c.u2 );
            break;
        case LookupTable: {
            const uint32_t kind = static_cast<uint32_t>( s.upto( 3 ) );
            pbt::Stream r( s.raw( 2 ) );
            c.table.resize( 256 );
            for ( uint32_t i = 0; i < 256; ++i )
                c.table[i] = static_cast<uint8_t>( kind == 0 ? i + 1 : kind == 1 ? 255 - i : r.next() );
            break;
        }
        case GammaCorrection:
            c.d1 = s.pick<double>( { 1.0, 0.5, 2.0, 0.0, 10.0, -1.0 } );
            if ( c.d1 < 0 )
                c.d1 = s.unit() * 3;
            c.d2 = s.pick<double>( { 1.0, 0.5, 2.0, 0.0, 0.1, -1.0 } );
            if ( c.d2 < 0 )
                c.d2 = s.unit() * 5;
            break;
        case ExtractChannel:
            c.u1 = static_cast<uint8_t>( s.upto( ccIn - 1u ) );
            break;
        case ReplaceChannel:
            c.u1 = static_cast<uint8_t>( s.upto( 2 ) );
            break;
        case ProjectionProfile:
            c.b1 = s.flag();
            break;
        case Flip: {
            const uint32_t k = static_cast<uint32_t>( s.upto( 3 ) );
            c.b1 = ( k & 1 ) == 0;
            c.b2 = ( k & 2 ) != 0;
            break;
        }
        case Shift: {
            const double lx = c.w - 1, ly = c.h - 1;
            c.d1 = std::min( lx, std::floor( s.unit() * ( std::min( lx, s.flag() ? lx : 4.0 ) + 0.999 ) ) + genFraction( s ) ) * ( s.flag() ? -1 : 1 );
            c.d2 = std::min( ly, std::floor( s.unit() * ( std::min( ly, s.flag() ? ly : 4.0 ) + 0.999 ) ) + genFraction( s ) ) * ( s.flag() ? -1 : 1 );
            break;
        }
        case BinaryDilate:
        case BinaryErode:
            c.n1 = s.flag() ? static_cast<uint32_t>( s.upto( c.w + 1 ) ) : static_cast<uint32_t>( s.upto( 4 ) );
            c.n2 = s.flag() ? static_cast<uint32_t>( s.upto( c.h + 1 ) ) : static_cast<uint32_t>( s.upto( 4 ) );
            if ( s.chance( 24 ) )
                c.n1 = s.pick<uint32_t>( { 0xFFFFFFFFu, 0x80000000u, 65536u, 256u } ) + static_cast<uint32_t>( s.flag() ? s.upto( 3 ) : 0 );
            if ( s.chance( 24 ) )
                c.n2 = s.pick<uint32_t>( { 0xFFFFFFFFu, 0x80000000u, 65536u, 256u } ) + static_cast<uint32_t>( s.flag() ? s.upto( 3 ) : 0 );
            break;
        default:
            break;
        }

        // images
        c.in.resize( static_cast<size_t>( t.nIn ) );
        for ( size_t i = 0; i < c.in.size(); ++i )
            genSlot( s, c.in[i], c.w, c.h, op == HistogramMask && i == 1 ? 1 : ccIn, margins, options );

        // an even area with one or two different values at its edges, inside or just outside of it
        if ( !c.in.empty() && op != HistogramMask && s.chance( 24 ) ) {
            Slot & slot = c.in[static_cast<size_t>( s.upto( c.in.size() - 1 ) )];
            Image & image = slot.img;
            const uint8_t even = s.byte();
            for ( uint32_t y = 0; y < image.height(); ++y )
                std::fill( image.data() + static_cast<size_t>( y ) * image.rowSize(),
                           image.data() + static_cast<size_t>( y ) * image.rowSize() + static_cast<size_t>( image.width() ) * image.colorCount(), even );
            const size_t count = 1 + s.upto( 1 );
            for ( size_t i = 0; i < count; ++i ) {
                const uint32_t px = s.pick<uint32_t>( { slot.x + c.w - 1, slot.x, slot.x + c.w, slot.x + image.width() - 1, slot.x + c.w / 2 } ) % image.width();
                const uint32_t py = s.pick<uint32_t>( { slot.y + c.h - 1, slot.y, slot.y + c.h, slot.y + image.height() - 1, slot.y + c.h / 2 } ) % image.height();
                image.data()[static_cast<size_t>( py ) * image.rowSize() + static_cast<size_t>( px ) * image.colorCount() + s.upto( image.colorCount() - 1u )] = s.byte();
            }
        }

        if ( op == Rotate ) {
            const uint32_t kind = static_cast<uint32_t>( s.upto( 3 ) );
            const double x0 = c.in[0].x, y0 = c.in[0].y;
            if ( kind == 0 ) {
                c.d1 = x0 + c.w / 2.0;
                c.d2 = y0 + c.h / 2.0;
            }
            else {
                c.d1 = x0 + ( kind == 3 ? s.unit() * 3 - 1 : s.unit() ) * c.w;
                c.d2 = y0 + ( kind == 3 ? s.unit() * 3 - 1 : s.unit() ) * c.h;
                if ( s.flag() ) {
                    c.d1 = std::floor( c.d1 );
                    c.d2 = std::floor( c.d2 );
                }
            }
            c.d3 = c.d1 - x0;
            c.d4 = c.d2 - y0;
            if ( s.flag() ) {
                c.d3 += std::floor( ( s.unit() - 0.5 ) * c.w );
                c.d4 += std::floor( ( s.unit() - 0.5 ) * c.h );
            }
            if ( c.form == 1 || c.form == 3 ) {
                c.d3 = c.d1;
                c.d4 = c.d2;
            }
            if ( c.form != 1 && c.form != 3 && s.chance( 16 ) ) { // far away from the image, beyond the range of integers
                double & centre = s.flag() ? c.d1 : c.d2;
                centre += ( s.flag() ? 1 : -1 ) * s.pick<double>( { 4294967296.0, 2147483648.0, 18446744073709551616.0, 70000.0, 1e30 } );
            }
            const double pi = 3.14159265358979323846;
            c.d5 = s.pick<double>( { 0.0, pi / 2, pi, -pi / 2, pi / 4, 0.1, -0.3, 100.0 } );
            if ( c.d5 == 100.0 )
                c.d5 = ( s.unit() - 0.5 ) * 15;
        }

        if ( op == BinaryDilate || op == BinaryErode ) {
            // two values only, inside the rectangle
            Image & image = c.in[0].img;
            const uint8_t level = s.pick<uint8_t>( { 128, 250, 5, 1 } );
            for ( uint32_t y = 0; y < c.h; ++y ) {
                uint8_t * row = image.data() + static_cast<size_t>( c.in[0].y + y ) * image.rowSize() + c.in[0].x;
                for ( uint32_t x = 0; x < c.w; ++x )
                    row[x] = row[x] < level ? 0 : 255;
            }
        }
        else if ( op == IsEqual ) {
            if ( !s.chance( 40 ) ) { // equal inside the rectangle, possibly up to one value
                const size_t bytes = static_cast<size_t>( c.w ) * ccIn;
                for ( uint32_t y = 0; y < c.h; ++y ) {
                    const uint8_t * from = c.in[0].img.data() + static_cast<size_t>( c.in[0].y + y ) * c.in[0].img.rowSize() + static_cast<size_t>( c.in[0].x ) * ccIn;
                    std::copy( from, from + bytes,
                               c.in[1].img.data() + static_cast<size_t>( c.in[1].y + y ) * c.in[1].img.rowSize() + static_cast<size_t>( c.in[1].x ) * ccIn );
                }
                if ( s.chance( 160 ) ) {
                    const uint32_t y = static_cast<uint32_t>( s.upto( c.h - 1 ) );
                    const size_t x = s.flag() ? bytes - 1 : s.upto( bytes - 1 );
                    c.in[1].img.data()[static_cast<size_t>( c.in[1].y + y ) * c.in[1].img.rowSize() + static_cast<size_t>( c.in[1].x ) * ccIn + x]
                        ^= static_cast<uint8_t>( 1 + s.upto( 254 ) );
                }
            }
        }
        else if ( op == Accumulate ) {
            const bool high = s.flag();
            pbt::Stream r( s.raw( 2 ) );
            c.vec.resize( static_cast<size_t>( c.w ) * c.h * ccIn );
            for ( uint32_t & v : c.vec )
                v = high ? static_cast<uint32_t>( r.next() ) : r.below( 3 );
        }
        else if ( op == Histogram || op == HistogramMask || op == ProjectionProfile ) {
            if ( s.flag() )
                c.vec.assign( s.upto( 300 ), 7u ); // old contents of the result
        }
        else if ( op == SetPixel2 ) {
            const uint32_t n = 1 + static_cast<uint32_t>( s.upto( 12 ) );
            for ( uint32_t i = 0; i < n; ++i ) {
                c.X.push_back( static_cast<uint32_t>( s.upto( c.in[0].img.width() - 1 ) ) );
                c.Y.push_back( static_cast<uint32_t>( s.upto( c.in[0].img.height() - 1 ) ) );
            }
        }

        if ( op == ConvertTo16Bit || op == ConvertTo8Bit ) {
            if ( op == ConvertTo8Bit || !c.returns() ) {
                uint32_t fullW, fullH;
                slotGeometry( s, c.w, c.h, margins, c.wideX, c.wideY, fullW, fullH );
                Image16Bit wide( fullW, fullH, anyCC, options.padding ? genAlignment( s ) : 1 );
                fillImage( s, wide );
                c.wide = std::move( wide );
            }
        }

        if ( inPlace( op ) ) {
            c.alias = 0;
            c.out.resize( 1 );
            c.out[0].x = c.in[0].x;
            c.out[0].y = c.in[0].y;
        }
        else if ( !c.returns() && t.nOut > 0 ) {
            c.out.resize( static_cast<size_t>( t.nOut ) );
            if ( t.alias && options.alias && s.chance( 60 ) ) {
                c.alias = static_cast<int>( s.upto( c.in.size() - 1 ) );
                c.out[0].x = c.in[static_cast<size_t>( c.alias )].x;
                c.out[0].y = c.in[static_cast<size_t>( c.alias )].y;
            }
            else {
                for ( Slot & slot : c.out )
                    genSlot( s, slot, c.wo, c.ho, c.ccOut, margins, options );
            }
        }
    }

    Before before( const Call & c )
    {
        Before b;
        for ( const Slot & slot : c.in )
            b.in.push_back( snap( slot.img ) );
        if ( c.alias < 0 ) {
            for ( const Slot & slot : c.out )
                b.out.push_back( snap( slot.img ) );
        }
        b.wide = snap( c.wide );
        b.vec = c.vec;
        return b;
    }

    namespace
    {
        // value ranges for real-valued results rounded by adding one half
        int low( double v, double tolerance )
        {
            return static_cast<int>( std::max( 0.0, std::min( 255.0, std::floor( v - tolerance ) ) ) );
        }
    }

    void reference( const Call & c, const Before & b, Expected & e )
    {
        const Traits t = traits( c.op );
        const int nPlanes = ( c.op == ConvertTo8Bit ) ? 1 : t.nOut;
        e = Expected();
        e.plane.resize( static_cast<size_t>( nPlanes ) );
        const uint8_t ccOut = inPlace( c.op ) ? b.in[0].cc : ( c.op == ConvertTo8Bit ? b.wide.cc : c.ccOut );
        for ( Plane & p : e.plane )
            p.init( c.wo, c.ho, ccOut );

        auto A = [&]( uint32_t x, uint32_t y, uint32_t ch = 0 ) -> int { return b.in[0].at( c.in[0].x + x, c.in[0].y + y, ch ); };
        auto B = [&]( uint32_t x, uint32_t y, uint32_t ch = 0 ) -> int { return b.in[1].at( c.in[1].x + x, c.in[1].y + y, ch ); };
        const uint32_t cc = b.in.empty() ? b.wide.cc : b.in[0].cc;
        Plane * p = e.plane.empty() ? nullptr : &e.plane[0];

        switch ( c.op ) {
        case AbsoluteDifference:
        case BitwiseAnd:
        case BitwiseOr:
        case BitwiseXor:
        case Maximum:
        case Minimum:
        case Subtract:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k ) {
                        const int l = A( x, y, k ), r = B( x, y, k );
                        int v = 0;
                        switch ( c.op ) {
                        case AbsoluteDifference:
                            v = std::abs( l - r );
                            break;
                        case BitwiseAnd:
                            v = l & r;
                            break;
                        case BitwiseOr:
                            v = l | r;
                            break;
                        case BitwiseXor:
                            v = l ^ r;
                            break;
                        case Maximum:
                            v = std::max( l, r );
                            break;
                        case Minimum:
                            v = std::min( l, r );
                            break;
                        default:
                            v = std::max( 0, l - r );
                            break;
                        }
                        p->set( x, y, k, v );
                    }
            break;
        case Invert:
        case Threshold:
        case Threshold2:
        case LookupTable:
        case GammaCorrection:
        case Copy:
        case Normalize: {
            int minimum = 255, maximum = 0;
            if ( c.op == Normalize ) {
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x )
                        for ( uint32_t k = 0; k < cc; ++k ) {
                            minimum = std::min( minimum, A( x, y, k ) );
                            maximum = std::max( maximum, A( x, y, k ) );
                        }
            }
            int lo[256], hi[256];
            for ( int i = 0; i < 256; ++i ) {
                switch ( c.op ) {
                case Invert:
                    lo[i] = hi[i] = 255 - i;
                    break;
                case Threshold:
                    lo[i] = hi[i] = i < c.u1 ? 0 : 255;
                    break;
                case Threshold2:
                    lo[i] = hi[i] = i < c.u1 || i > c.u2 ? 0 : 255;
                    break;
                case LookupTable:
                    lo[i] = hi[i] = c.table[static_cast<size_t>( i )];
                    break;
                case GammaCorrection: {
                    const double v = c.d1 * std::pow( i / 255.0, c.d2 ) * 255 + 0.5;
                    lo[i] = low( v, 1e-9 );
                    hi[i] = low( v, -1e-9 );
                    break;
                }
                case Normalize:
                    if ( minimum == maximum || i < minimum || i > maximum ) {
                        lo[i] = hi[i] = i;
                    }
                    else {
                        const double v = ( i - minimum ) * 255.0 / ( maximum - minimum ) + 0.5;
                        // halves are rounded up where the factor is a binary fraction, so no way of calculating it has an error
                        int odd = maximum - minimum;
                        while ( odd % 2 == 0 )
                            odd /= 2;
                        const double tolerance = 255 % odd == 0 ? 0 : 1e-9;
                        lo[i] = low( v, tolerance );
                        hi[i] = low( v, -tolerance );
                    }
                    break;
                default:
                    lo[i] = hi[i] = i;
                    break;
                }
            }
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k ) {
                        const int v = A( x, y, k );
                        p->set( x, y, k, lo[v], hi[v] );
                    }
            break;
        }
        case Fill:
        case SetPixel:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        p->set( x, y, k, c.u1 );
            break;
        case SetPixel2:
            // the plane covers the generated rectangle; points outside of it are checked by extending it to the whole image
            p->init( b.in[0].w, b.in[0].h, 1 );
            for ( size_t i = 0; i < c.X.size(); ++i )
                p->set( c.X[i], c.Y[i], 0, c.u1 );
            break;
        case GetPixel:
            e.hasNum = true;
            e.num = static_cast<uint64_t>( A( 0, 0 ) );
            break;
        case ConvertToGrayScale:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    p->set( x, y, 0, cc == 1 ? A( x, y ) : ( A( x, y, 0 ) + A( x, y, 1 ) + A( x, y, 2 ) ) / 3 );
            break;
        case ConvertToRgb:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < 3; ++k )
                        p->set( x, y, k, A( x, y, cc == 1 ? 0 : k ) );
            break;
        case RgbToBgr:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < 3; ++k )
                        p->set( x, y, k, A( x, y, 2 - k ) );
            break;
        case RgbToRgba:
        case RgbaToRgb:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < p->cc; ++k )
                        p->set( x, y, k, k == 3 ? 255 : A( x, y, k ) );
            break;
        case Merge:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < 3; ++k )
                        p->set( x, y, k, b.in[k].at( c.in[k].x + x, c.in[k].y + y ) );
            break;
        case Split:
            for ( uint32_t k = 0; k < 3; ++k )
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x )
                        e.plane[k].set( x, y, 0, A( x, y, k ) );
            break;
        case ExtractChannel:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    p->set( x, y, 0, A( x, y, c.u1 ) );
            break;
        case ReplaceChannel:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    p->set( x, y, c.u1, A( x, y ) );
            break;
        case ConvertTo16Bit:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        e.wide.push_back( static_cast<uint16_t>( A( x, y, k ) * 256 ) );
            break;
        case ConvertTo8Bit:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        p->set( x, y, k, b.wide.at( c.wideX + x, c.wideY + y, k ) / 256 );
            break;
        case Sum: {
            e.hasNum = true;
            uint32_t v = 0;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    v += static_cast<uint32_t>( A( x, y ) );
            e.num = v;
            break;
        }
        case Histogram:
        case HistogramMask:
            e.hasVec = true;
            e.vec.assign( 256 * cc, 0 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    if ( c.op == Histogram || B( x, y ) > 0 )
                        for ( uint32_t k = 0; k < cc; ++k )
                            ++e.vec[static_cast<uint32_t>( A( x, y, k ) ) * cc + k];
            break;
        case ProjectionProfile:
            e.hasVec = true;
            e.vec.assign( c.b1 ? c.w * cc : c.h, 0 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        e.vec[c.b1 ? x * cc + k : y] += static_cast<uint32_t>( A( x, y, k ) );
            break;
        case Accumulate:
            e.hasVec = true;
            e.vec = b.vec;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        e.vec[( static_cast<size_t>( y ) * c.w + x ) * cc + k] += static_cast<uint32_t>( A( x, y, k ) );
            break;
        case IsEqual:
            e.hasNum = true;
            e.num = 1;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        if ( A( x, y, k ) != B( x, y, k ) )
                            e.num = 0;
            break;
        case IsBinary: {
            bool seen[256] = { false };
            int count = 0;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    if ( !seen[A( x, y )] ) {
                        seen[A( x, y )] = true;
                        ++count;
                    }
            e.hasNum = true;
            e.num = count <= 2 ? 1 : 0;
            break;
        }
        case Flip:
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    p->set( x, y, 0, A( c.b1 ? c.w - 1 - x : x, c.b2 ? c.h - 1 - y : y ) );
            break;
        case Transpose:
            for ( uint32_t y = 0; y < c.ho; ++y )
                for ( uint32_t x = 0; x < c.wo; ++x )
                    p->set( x, y, 0, A( y, x ) );
            break;
        case Resize:
            for ( uint32_t y = 0; y < c.ho; ++y )
                for ( uint32_t x = 0; x < c.wo; ++x )
                    for ( uint32_t k = 0; k < cc; ++k )
                        p->set( x, y, k,
                                A( static_cast<uint32_t>( static_cast<uint64_t>( x ) * c.w / c.wo ), static_cast<uint32_t>( static_cast<uint64_t>( y ) * c.h / c.ho ),
                                   k ) );
            break;
        case Rotate: {
            p->zero.assign( p->lo.size(), 0 );
            const long double cosA = cosl( c.d5 ), sinA = sinl( c.d5 );
            const double x0 = c.in[0].x, y0 = c.in[0].y;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    const long double dx = x - static_cast<long double>( c.d3 ), dy = y - static_cast<long double>( c.d4 );
                    const double px = static_cast<double>( cosA * dx + sinA * dy + c.d1 );
                    const double py = static_cast<double>( -sinA * dx + cosA * dy + c.d2 );
                    const double eps = 1e-6;
                    int inside = 0;
                    double lowest = 1e9, highest = -1;
                    for ( int corner = 0; corner < 4; ++corner ) {
                        const double qx = px + ( corner & 1 ? eps : -eps ), qy = py + ( corner & 2 ? eps : -eps );
                        const double fx = std::floor( qx ), fy = std::floor( qy );
                        if ( qx < x0 || qy < y0 || fx >= x0 + c.w - 1 || fy >= y0 + c.h - 1 )
                            continue;
                        ++inside;
                        const uint32_t ix = static_cast<uint32_t>( fx - x0 ), iy = static_cast<uint32_t>( fy - y0 );
                        const double ax = qx - fx, ay = qy - fy;
                        const double v = ( A( ix, iy ) * ( 1 - ax ) + A( ix + 1, iy ) * ax ) * ( 1 - ay ) + ( A( ix, iy + 1 ) * ( 1 - ax ) + A( ix + 1, iy + 1 ) * ax ) * ay;
                        lowest = std::min( lowest, v );
                        highest = std::max( highest, v );
                    }
                    if ( inside == 0 )
                        p->set( x, y, 0, 0 );
                    else {
                        p->set( x, y, 0, low( lowest + 0.5, 1e-3 ), low( highest + 0.5, -1e-3 ) );
                        p->zero[p->index( x, y )] = inside < 4 ? 1 : 0;
                    }
                }
            break;
        }
        case Shift: {
            const Snap & in = b.in[0];
            const double fx = std::floor( -c.d1 ), fy = std::floor( -c.d2 );
            const double ax = -c.d1 - fx, ay = -c.d2 - fy; // weight of the next pixel
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    const int64_t ix = static_cast<int64_t>( c.in[0].x ) + x + static_cast<int64_t>( fx );
                    const int64_t iy = static_cast<int64_t>( c.in[0].y ) + y + static_cast<int64_t>( fy );
                    const int64_t nx = ix + ( ax > 0 ? 1 : 0 ), ny = iy + ( ay > 0 ? 1 : 0 );
                    if ( ix < 0 || iy < 0 || nx >= in.w || ny >= in.h ) {
                        p->set( x, y, 0, 0 );
                        continue;
                    }
                    auto at = [&]( int64_t px, int64_t py ) { return static_cast<double>( in.at( static_cast<uint32_t>( px ), static_cast<uint32_t>( py ) ) ); };
                    const double v = ( at( ix, iy ) * ( 1 - ax ) + at( nx, iy ) * ax ) * ( 1 - ay ) + ( at( ix, ny ) * ( 1 - ax ) + at( nx, ny ) * ax ) * ay;
                    p->set( x, y, 0, low( v + 0.5, 0.05 ), low( v + 0.5, -0.05 ) );
                }
            break;
        }
        case BinaryDilate:
        case BinaryErode: {
            const int64_t dx = std::min( c.n1, c.w / 2 ), dy = std::min( c.n2, c.h / 2 );
            const int wanted = c.op == BinaryDilate ? 255 : 0;
            // separable by definition of a rectangular neighbourhood: rows first
            std::vector<uint8_t> rows( static_cast<size_t>( c.w ) * c.h );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( int64_t x = 0; x < c.w; ++x ) {
                    bool found = false;
                    for ( int64_t k = std::max<int64_t>( 0, x - dx ); k <= std::min<int64_t>( c.w - 1, x + dx ) && !found; ++k )
                        found = A( static_cast<uint32_t>( k ), y ) == wanted;
                    rows[static_cast<size_t>( y ) * c.w + static_cast<size_t>( x )] = found ? 1 : 0;
                }
            for ( int64_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    bool found = false;
                    for ( int64_t k = std::max<int64_t>( 0, y - dy ); k <= std::min<int64_t>( c.h - 1, y + dy ) && !found; ++k )
                        found = rows[static_cast<size_t>( k ) * c.w + x] != 0;
                    p->set( x, static_cast<uint32_t>( y ), 0, found ? wanted : 255 - wanted );
                }
            break;
        }
        default:
            break;
        }
    }

    namespace
    {
        void compareFrame( const Snap & was, const Image & image, const char * what, size_t index )
        {
            const Snap now = snap( image );
            PBT_CHECK( now.w == was.w && now.h == was.h && now.cc == was.cc && now.row == was.row && now.al == was.al,
                       what << ' ' << index << " changed its geometry: " << show( was, 0 ) << " -> " << show( now, 0 ) );
            for ( size_t i = 0; i < was.d.size(); ++i )
                PBT_CHECK( was.d[i] == now.d[i], what << ' ' << index << " changed at byte " << i << " (row " << i / was.row << ", offset " << i % was.row << " of rowSize "
                                                      << was.row << "): " << int( was.d[i] ) << " -> " << int( now.d[i] ) );
        }
    }

    void verify( const Call & c, const Before & b, const Expected & e, int what )
    {
        if ( what & FRAME ) {
            for ( size_t i = 0; i < c.in.size(); ++i ) {
                if ( c.alias != static_cast<int>( i ) )
                    compareFrame( b.in[i], c.in[i].img, "input", i );
            }
            if ( c.op == ConvertTo8Bit )
                PBT_CHECK( snap( c.wide ) == b.wide, "16-bit input changed" );
        }

        for ( size_t k = 0; k < e.plane.size(); ++k ) {
            const Plane & p = e.plane[k];
            PBT_CHECK( k < c.out.size(), "no output" );
            const Image & image = c.alias >= 0 ? c.in[static_cast<size_t>( c.alias )].img : c.out[k].img;
            const uint32_t ox = c.op == SetPixel2 ? 0 : c.out[k].x, oy = c.op == SetPixel2 ? 0 : c.out[k].y;
            if ( c.returns() || ( c.op == Copy && c.form == 2 ) ) {
                if ( what & VALUES )
                    PBT_CHECK( image.width() == p.w && image.height() == p.h && image.colorCount() == p.cc,
                               "result is " << image.width() << 'x' << image.height() << " with " << int( image.colorCount() ) << " channels instead of " << p.w << 'x' << p.h
                                            << " with " << int( p.cc ) );
                else if ( image.width() != p.w || image.height() != p.h || image.colorCount() != p.cc )
                    continue;
            }
            else {
                const Snap & was = c.alias >= 0 ? b.in[static_cast<size_t>( c.alias )] : b.out[k];
                if ( image.width() != was.w || image.height() != was.h || image.colorCount() != was.cc || image.rowSize() != was.row )
                    pbt::fail( "the output image changed its geometry" );
                if ( what & FRAME ) {
                    const bool wholeFill = c.op == Fill && c.form == 2;
                    for ( uint32_t y = 0; y < was.h && !wholeFill; ++y ) {
                        const uint8_t * row = image.data() + static_cast<size_t>( y ) * was.row;
                        const uint8_t * old = was.d.data() + static_cast<size_t>( y ) * was.row;
                        for ( uint32_t i = 0; i < was.row; ++i ) {
                            if ( row[i] == old[i] )
                                continue;
                            const uint32_t x = i / was.cc;
                            const bool inside = y >= oy && y < oy + p.h && x >= ox && x < ox + p.w && i < was.w * was.cc;
                            const bool allowed = inside && p.lo[p.index( x - ox, y - oy, i % was.cc )] >= 0;
                            PBT_CHECK( allowed, "output " << k << " changed outside of the result at row " << y << ", byte " << i << " (rectangle " << ox << ',' << oy << ' ' << p.w
                                                          << 'x' << p.h << "): " << int( old[i] ) << " -> " << int( row[i] ) );
                        }
                    }
                }
            }
            if ( what & VALUES ) {
                for ( uint32_t y = 0; y < p.h; ++y )
                    for ( uint32_t x = 0; x < p.w; ++x )
                        for ( uint32_t ch = 0; ch < p.cc; ++ch ) {
                            const size_t i = p.index( x, y, ch );
                            if ( p.lo[i] < 0 )
                                continue;
                            const int v = image.data()[static_cast<size_t>( oy + y ) * image.rowSize() + static_cast<size_t>( ox + x ) * p.cc + ch];
                            if ( v >= p.lo[i] && v <= p.hi[i] )
                                continue;
                            if ( !p.zero.empty() && p.zero[i] != 0 && v == 0 )
                                continue;
                            pbt::fail( "wrong value of output " + std::to_string( k ) + " at (" + std::to_string( x ) + ", " + std::to_string( y ) + ") channel " + std::to_string( ch )
                                       + ": " + std::to_string( v ) + " instead of " + std::to_string( p.lo[i] )
                                       + ( p.lo[i] != p.hi[i] ? " to " + std::to_string( p.hi[i] ) : std::string() ) );
                        }
                // the other channels of a replaced channel, the other pixels of a pixel list
                if ( ( c.op == ReplaceChannel || c.op == SetPixel2 ) && !c.returns() ) {
                    const Snap & was = c.alias >= 0 ? b.in[static_cast<size_t>( c.alias )] : b.out[k];
                    for ( uint32_t y = 0; y < p.h; ++y )
                        for ( uint32_t x = 0; x < p.w; ++x )
                            for ( uint32_t ch = 0; ch < p.cc; ++ch )
                                if ( p.lo[p.index( x, y, ch )] < 0 )
                                    PBT_CHECK( image.data()[static_cast<size_t>( oy + y ) * image.rowSize() + static_cast<size_t>( ox + x ) * p.cc + ch]
                                                   == was.at( ox + x, oy + y, ch ),
                                               "channel " << ch << " at (" << x << ", " << y << ") changed" );
                }
            }
        }

        if ( c.op == ConvertTo16Bit ) {
            const SnapT<uint16_t> now = snap( c.wide );
            const uint32_t cc = b.in[0].cc;
            if ( c.returns() ) {
                PBT_CHECK( now.w == c.w && now.h == c.h && now.cc == cc, "16-bit result has a wrong size" );
            }
            else {
                PBT_CHECK( now.w == b.wide.w && now.h == b.wide.h && now.cc == b.wide.cc && now.row == b.wide.row, "16-bit output changed its geometry" );
            }
            for ( uint32_t y = 0; y < now.h; ++y )
                for ( uint32_t i = 0; i < now.row; ++i ) {
                    const uint32_t x = i / cc;
                    const uint16_t v = now.d[static_cast<size_t>( y ) * now.row + i];
                    if ( i < now.w * cc && x >= c.wideX && x < c.wideX + c.w && y >= c.wideY && y < c.wideY + c.h ) {
                        const uint16_t expected = e.wide[( static_cast<size_t>( y - c.wideY ) * c.w + ( x - c.wideX ) ) * cc + i % cc];
                        if ( what & VALUES )
                            PBT_CHECK( v == expected, "16-bit value at (" << x - c.wideX << ", " << y - c.wideY << ") channel " << i % cc << ": " << v << " instead of " << expected );
                    }
                    else if ( ( what & FRAME ) && !c.returns() ) {
                        PBT_CHECK( v == b.wide.d[static_cast<size_t>( y ) * now.row + i], "16-bit output changed outside of the rectangle at row " << y << ", element " << i );
                    }
                }
        }

        if ( what & VALUES ) {
            if ( e.hasNum )
                PBT_CHECK( c.num == e.num, "result " << c.num << " instead of " << e.num );
            if ( e.hasVec ) {
                PBT_CHECK( c.vec.size() == e.vec.size(), "result has " << c.vec.size() << " elements instead of " << e.vec.size() );
                for ( size_t i = 0; i < e.vec.size(); ++i )
                    PBT_CHECK( c.vec[i] == e.vec[i], "element " << i << " is " << c.vec[i] << " instead of " << e.vec[i] );
            }
        }
    }

    bool checkCall( Call & c, RunFunction run, int what )
    {
        const Before b = before( c );
        if ( !run( c ) )
            return false;
        Expected e;
        reference( c, b, e );
        verify( c, b, e, what );
        return true;
    }

    std::string describe( const Call & c )
    {
        std::ostringstream o;
        o << opName( c.op ) << " form " << c.form << " size " << c.w << 'x' << c.h;
        if ( c.wo != c.w || c.ho != c.h )
            o << " -> " << c.wo << 'x' << c.ho;
        for ( size_t i = 0; i < c.in.size(); ++i )
            o << "; in" << i << "@(" << c.in[i].x << ',' << c.in[i].y << ") " << show( snap( c.in[i].img ), 12 );
        if ( c.alias >= 0 )
            o << "; out is in" << c.alias;
        else
            for ( size_t i = 0; i < c.out.size(); ++i )
                o << "; out" << i << "@(" << c.out[i].x << ',' << c.out[i].y << ") " << show( snap( c.out[i].img ), 0 );
        if ( !c.wide.empty() )
            o << "; wide@(" << c.wideX << ',' << c.wideY << ") " << c.wide.width() << 'x' << c.wide.height() << 'c' << int( c.wide.colorCount() );
        switch ( c.op ) {
        case Threshold:
        case Fill:
        case SetPixel:
        case ExtractChannel:
        case ReplaceChannel:
            o << "; value " << int( c.u1 );
            break;
        case SetPixel2:
            o << "; value " << int( c.u1 ) << "; " << c.X.size() << " points";
            break;
        case Threshold2:
            o << "; range " << int( c.u1 ) << ".." << int( c.u2 );
            break;
        case GammaCorrection:
            o << "; a " << c.d1 << " gamma " << c.d2;
            break;
        case Shift:
            o << "; by (" << c.d1 << ", " << c.d2 << ")";
            break;
        case Rotate:
            o << "; centers (" << c.d1 << ", " << c.d2 << ") (" << c.d3 << ", " << c.d4 << ") angle " << c.d5;
            break;
        case Flip:
            o << "; horizontal " << c.b1 << " vertical " << c.b2;
            break;
        case ProjectionProfile:
            o << "; horizontal " << c.b1;
            break;
        case BinaryDilate:
        case BinaryErode:
            o << "; half sizes " << c.n1 << ", " << c.n2;
            break;
        default:
            break;
        }
        return o.str();
    }

    bool nontrivialCall( const Call & c )
    {
        if ( c.op == SetPixel || c.op == GetPixel )
            return !c.in.empty() && c.in[0].img.width() * c.in[0].img.height() > 1;
        return static_cast<uint64_t>( c.w ) * c.h > 1;
    }
}
