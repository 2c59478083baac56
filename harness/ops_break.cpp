// Invalid calls made from valid ones
#include "ops.h"

using namespace hv;

namespace
{
    uint32_t rectW( const Call & c, bool output )
    {
        return output ? c.wo : c.w;
    }
    uint32_t rectH( const Call & c, bool output )
    {
        return output ? c.ho : c.h;
    }

    struct Target
    {
        Slot * slot;
        bool output;
        size_t index;
    };

    void reimage( Src & s, Slot & slot, uint32_t w, uint32_t h, uint8_t cc )
    {
        slot.img = genImage( s, w, h, cc, slot.img.alignment() );
    }
}

namespace hv
{
    // Makes a valid call invalid; returns the description of what is wrong, or an empty text if this way does not apply
    std::string breakCall( Src & s, Call & c )
    {
        const bool inPlaceOp = c.op == Fill || c.op == SetPixel || c.op == SetPixel2 || c.op == BinaryDilate || c.op == BinaryErode;
        const bool rectangle = c.form >= 3 && c.op != SetPixel && c.op != SetPixel2 && c.op != GetPixel;
        std::vector<Target> targets;
        for ( size_t i = 0; i < c.in.size(); ++i )
            targets.push_back( Target{ &c.in[i], false, i } );
        if ( !c.returns() && !inPlaceOp && c.alias < 0 ) {
            for ( size_t i = 0; i < c.out.size(); ++i )
                targets.push_back( Target{ &c.out[i], true, i } );
        }
        const bool wide = c.op == ConvertTo16Bit || c.op == ConvertTo8Bit;

        switch ( s.upto( 9 ) ) {
        case 0: { // empty rectangle
            if ( !rectangle )
                return "";
            uint32_t & v = s.flag() ? c.w : c.h;
            v = 0;
            if ( c.op == Resize && s.flag() ) {
                c.w = std::max( 1u, c.w );
                c.h = std::max( 1u, c.h );
                ( s.flag() ? c.wo : c.ho ) = 0;
            }
            if ( c.op == Accumulate )
                c.vec.clear();
            return "empty rectangle";
        }
        case 1: { // position beyond the image
            if ( !rectangle || targets.empty() )
                return "";
            Target & t = targets[s.upto( targets.size() - 1 )];
            if ( s.flag() )
                t.slot->x = t.slot->img.width() - rectW( c, t.output ) + 1 + static_cast<uint32_t>( s.upto( 3 ) );
            else
                t.slot->y = t.slot->img.height() - rectH( c, t.output ) + 1 + static_cast<uint32_t>( s.upto( 3 ) );
            return "rectangle sticks out of image";
        }
        case 2: { // wrap around
            if ( !rectangle || targets.empty() )
                return "";
            Target & t = targets[s.upto( targets.size() - 1 )];
            if ( s.flag() )
                t.slot->x = 0u - 1u - static_cast<uint32_t>( s.upto( rectW( c, t.output ) - 1 ) );
            else
                t.slot->y = 0u - 1u - static_cast<uint32_t>( s.upto( rectH( c, t.output ) - 1 ) );
            return "rectangle wraps around";
        }
        case 3: { // huge size
            if ( !rectangle || targets.empty() )
                return "";
            {
                const Slot & base = *targets[s.upto( targets.size() - 1 )].slot;
                if ( s.flag() )
                    c.w = 0u - ( s.flag() ? base.x : static_cast<uint32_t>( s.upto( 3 ) ) );
                else
                    c.h = 0u - ( s.flag() ? base.y : static_cast<uint32_t>( s.upto( 3 ) ) );
            }
            if ( c.op == Accumulate )
                c.vec.resize( 1 );
            return "huge rectangle";
        }
        case 4: { // empty image
            if ( c.op == Fill && c.form == 2 )
                return "";
            if ( wide && ( targets.empty() || s.flag() ) && !( c.op == ConvertTo16Bit && c.returns() ) ) {
                c.wide = Image16Bit();
                return "empty 16-bit image";
            }
            if ( targets.empty() )
                return "";
            Target & t = targets[s.upto( targets.size() - 1 )];
            t.slot->img = Image( 0, 0, t.slot->img.colorCount() );
            return "empty image";
        }
        case 5: { // different sizes, whole image calls
            if ( c.form >= 3 || targets.size() < 2 || c.op == Resize )
                return "";
            Target & t = targets[1 + s.upto( targets.size() - 2 )];
            uint32_t w = t.slot->img.width(), h = t.slot->img.height();
            const bool smaller = c.op == Transpose || s.flag();
            uint32_t & v = s.flag() ? w : h;
            if ( smaller && v == 1 )
                return "";
            v = smaller ? v - 1 : v + 1;
            reimage( s, *t.slot, w, h, t.slot->img.colorCount() );
            return "images of different size";
        }
        case 6: { // channel count
            if ( targets.empty() || ( c.op == Fill && c.form == 2 ) )
                return "";
            Target & t = targets[s.upto( targets.size() - 1 )];
            const uint8_t old = t.slot->img.colorCount();
            uint8_t cc = s.pick<uint8_t>( { 2, 5, 1, 3, 4 } );
            if ( cc == old )
                return "";
            const bool single = targets.size() == 1 && !wide && c.alias < 0;
            if ( cc == 1 || cc == 3 || cc == 4 ) {
                if ( c.op == Copy && c.form == 2 )
                    return "";
                if ( c.op == ExtractChannel && !t.output && cc > c.u1 )
                    return "";
                if ( ( c.op == ConvertToGrayScale || c.op == ConvertToRgb ) && !t.output )
                    return "";
                if ( isColourOp( c.op ) && single )
                    return "";
                if ( c.op == HistogramMask && t.index == 0 )
                    return "";
                if ( c.alias >= 0 && c.in.size() == 1 && isColourOp( c.op ) )
                    return "";
                if ( wide && c.returns() )
                    return "";
            }
            // form 3 of a one-image conversion may allocate the result by itself
            reimage( s, *t.slot, t.slot->img.width(), t.slot->img.height(), cc );
            return "channel count " + std::to_string( old ) + " -> " + std::to_string( cc );
        }
        case 7: { // 16-bit image
            if ( !wide )
                return "";
            if ( c.op == ConvertTo16Bit && c.returns() )
                return "";
            const uint32_t k = static_cast<uint32_t>( s.upto( 3 ) );
            if ( k == 0 && !( c.op == ConvertTo8Bit && c.returns() ) ) {
                c.wide = Image16Bit( c.wide.width(), c.wide.height(), static_cast<uint8_t>( c.wide.colorCount() == 1 ? 3 : 1 ), c.wide.alignment() );
                return "channels of 16-bit image";
            }
            if ( k == 1 ) {
                c.wide = Image16Bit( c.wide.width(), c.wide.height(), 2, c.wide.alignment() );
                return "unsupported channels of 16-bit image";
            }
            if ( c.form == 4 || c.form == 3 ) {
                if ( k == 2 )
                    c.wideX = c.wide.width() - c.w + 1;
                else
                    c.wideY = 0u - 1u - static_cast<uint32_t>( s.upto( c.h - 1 ) );
                return "rectangle of 16-bit image";
            }
            return "";
        }
        default:
            break;
        }
        // parameters
        switch ( c.op ) {
        case ExtractChannel:
            c.u1 = static_cast<uint8_t>( c.in[0].img.colorCount() + ( s.flag() ? 0 : s.upto( 250 ) ) );
            return "channel out of range";
        case ReplaceChannel:
            c.u1 = static_cast<uint8_t>( 3 + ( s.flag() ? 0 : s.upto( 250 ) ) );
            return "channel out of range";
        case LookupTable:
            c.table.resize( s.pick<size_t>( { 255, 257, 0, 512, 1 } ) );
            return "table size";
        case GammaCorrection:
            ( s.flag() ? c.d1 : c.d2 ) = -( s.unit() + 1e-6 );
            return "negative parameter";
        case Threshold2:
            if ( c.u1 == c.u2 ) {
                if ( c.u2 == 0 )
                    return "";
                c.u1 = c.u2--;
            }
            else
                std::swap( c.u1, c.u2 );
            return "minimum above maximum";
        case Accumulate:
            if ( s.flag() )
                c.vec.push_back( 1 );
            else
                c.vec.pop_back();
            return "array size";
        case Shift:
            if ( s.flag() )
                c.d1 = ( s.flag() ? 1 : -1 ) * ( c.w - 1.0 + 0.01 + s.unit() * 10 );
            else
                c.d2 = ( s.flag() ? 1 : -1 ) * ( c.h - 1.0 + 0.01 + s.unit() * 10 );
            return "shift beyond the rectangle";
        case SetPixel:
        case GetPixel: {
            uint32_t & v = s.flag() ? c.in[0].x : c.in[0].y;
            v = ( &v == &c.in[0].x ? c.in[0].img.width() : c.in[0].img.height() ) + static_cast<uint32_t>( s.flag() ? s.upto( 3 ) : s.upto( 0xFFFFF000u ) );
            return "point outside";
        }
        case SetPixel2: {
            const uint32_t k = static_cast<uint32_t>( s.upto( 4 ) );
            if ( k == 0 ) {
                c.X.clear();
                c.Y.clear();
                return "no points";
            }
            if ( k == 1 ) {
                ( s.flag() ? c.X : c.Y ).push_back( 0 );
                return "different numbers of coordinates";
            }
            const size_t i = s.upto( c.X.size() - 1 );
            if ( s.flag() )
                c.X[i] = c.in[0].img.width() + static_cast<uint32_t>( s.upto( 3 ) );
            else
                c.Y[i] = c.in[0].img.height() + static_cast<uint32_t>( s.upto( 3 ) );
            return "point " + std::to_string( i ) + " outside";
        }
        default:
            return "";
        }
    }
}
