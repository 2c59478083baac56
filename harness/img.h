// Image generation and snapshots
#pragma once
#include "../pbt/pbt.h"
#include "image_buffer.h"
#include "penguinv_exception.h"
#include <algorithm>
#include <cmath>

namespace hv
{
    using pbt::Ctx;
    using pbt::Src;
    using penguinV::Image;
    using penguinV::Image16Bit;
    using penguinV::ImageTemplate;

    // Complete copy of an image: geometry and every byte including padding
    template <typename T>
    struct SnapT
    {
        uint32_t w = 0, h = 0, row = 0;
        uint8_t cc = 1, al = 1, type = 0;
        std::vector<T> d;

        T at( uint32_t x, uint32_t y, uint32_t c = 0 ) const
        {
            return d[static_cast<size_t>( y ) * row + static_cast<size_t>( x ) * cc + c];
        }
        bool operator==( const SnapT & o ) const
        {
            return w == o.w && h == o.h && row == o.row && cc == o.cc && al == o.al && d == o.d;
        }
    };
    typedef SnapT<uint8_t> Snap;

    template <typename T>
    SnapT<T> snap( const ImageTemplate<T> & image )
    {
        SnapT<T> s;
        s.w = image.width();
        s.h = image.height();
        s.row = image.rowSize();
        s.cc = image.colorCount();
        s.al = image.alignment();
        s.type = image.type();
        if ( !image.empty() )
            s.d.assign( image.data(), image.data() + static_cast<size_t>( s.row ) * s.h );
        return s;
    }

    inline const std::vector<uint32_t> & vectorEdges()
    {
        static const std::vector<uint32_t> v{ 15,  16,  17,  31,  32,  33,  47,  48,  49,  63,  64,  65,  79,  80,  81,  95,  96,  97,
                                              111, 112, 113, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 319, 320, 321, 383, 385 };
        return v;
    }

    // A dimension: mostly small, often around vector sizes, rarely long
    inline uint32_t genDim( Src & s, uint32_t limit = 5000 )
    {
        const uint32_t k = s.byte();
        uint32_t v;
        if ( k < 100 )
            v = 1 + static_cast<uint32_t>( s.upto( 7 ) );
        else if ( k < 170 )
            v = 1 + static_cast<uint32_t>( s.upto( 39 ) );
        else if ( k < 232 )
            v = s.pickFrom( vectorEdges() );
        else if ( k < 251 )
            v = 1 + static_cast<uint32_t>( s.upto( 300 ) );
        else if ( k < 254 )
            v = 258 + static_cast<uint32_t>( s.upto( 800 ) );
        else
            v = 1000 + static_cast<uint32_t>( s.upto( 4000 ) );
        return std::min( v, limit );
    }

    inline void genSize( Src & s, uint32_t & w, uint32_t & h, uint32_t area = 16000, uint32_t limit = 5000 )
    {
        if ( limit >= 5000 && s.chance( limit >= 6000 ? 3 : 2 ) ) { // more than 16 bits of coordinates
            w = 65530 + static_cast<uint32_t>( s.upto( 300 ) );
            h = 1 + static_cast<uint32_t>( s.upto( 2 ) );
            if ( s.flag() )
                std::swap( w, h );
            return;
        }
        w = genDim( s, limit );
        h = genDim( s, limit );
        if ( static_cast<uint64_t>( w ) * h > area ) {
            if ( s.flag() )
                w = std::max( 1u, area / h );
            else
                h = std::max( 1u, area / w );
            if ( static_cast<uint64_t>( w ) * h > area )
                w = h = static_cast<uint32_t>( std::sqrt( static_cast<double>( area ) ) );
        }
    }

    inline uint8_t genAlignment( Src & s )
    {
        const uint32_t k = s.byte();
        if ( k < 120 )
            return 1;
        if ( k < 240 )
            return s.pick<uint8_t>( { 2, 3, 4, 5, 8, 16, 32, 64, 128 } );
        return static_cast<uint8_t>( 1 + s.upto( 254 ) );
    }

    inline uint8_t genLevel( Src & s )
    {
        const uint32_t k = s.byte();
        if ( k < 128 )
            return s.pick<uint8_t>( { 0, 255, 1, 254, 127, 128, 129, 2, 126, 64, 192 } );
        return s.byte();
    }

    // Fills every byte (also the padding) from the tape
    template <typename T>
    void genContent( Src & s, T * data, size_t count, uint32_t row, uint32_t cc )
    {
        const uint32_t kind = static_cast<uint32_t>( s.upto( 9 ) );
        const uint64_t wide = sizeof( T ) > 1 ? 0x101u : 1u;
        if ( kind == 0 ) {
            const uint8_t v = genLevel( s );
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( v * wide );
            return;
        }
        if ( kind == 9 && count <= 96 ) {
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( s.raw( sizeof( T ) ) );
            return;
        }
        pbt::Stream r( s.raw( 4 ) );
        switch ( kind ) {
        case 1:
        case 2:
        case 9:
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( r.next() );
            break;
        case 3: { // a few levels
            uint64_t level[4] = { genLevel( s ) * wide, genLevel( s ) * wide, genLevel( s ) * wide, genLevel( s ) * wide };
            const uint32_t n = 2 + static_cast<uint32_t>( s.upto( 2 ) );
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( level[r.below( n )] );
            break;
        }
        case 4:
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( ( r.next() & 1 ) ? 255 * wide : 0 );
            break;
        case 5: { // unique positions
            const uint32_t a = static_cast<uint32_t>( s.upto( 7 ) ) + 1, b = static_cast<uint32_t>( s.upto( 30 ) ) + 1;
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( ( i % row ) * a + ( i / row ) * b + r.state );
            break;
        }
        case 6: { // narrow range
            const uint8_t v = genLevel( s );
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( ( v + r.below( 3 ) ) * wide );
            break;
        }
        case 7: { // sparse
            const uint64_t v = genLevel( s ) * wide, o = genLevel( s ) * wide;
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( r.below( 64 ) == 0 ? o : v );
            break;
        }
        default: // almost saturated
            for ( size_t i = 0; i < count; ++i )
                data[i] = static_cast<T>( 255 * wide - r.below( 4 ) );
            break;
        }
        (void)cc;
    }

    template <typename T>
    void fillImage( Src & s, ImageTemplate<T> & image )
    {
        genContent( s, image.data(), static_cast<size_t>( image.rowSize() ) * image.height(), image.rowSize(), image.colorCount() );
    }

    inline Image genImage( Src & s, uint32_t w, uint32_t h, uint8_t cc, uint8_t al )
    {
        Image image( w, h, cc, al );
        fillImage( s, image );
        return image;
    }

    inline std::string show( const Snap & s, size_t limit = 24 )
    {
        std::ostringstream o;
        o << s.w << 'x' << s.h << 'c' << int( s.cc ) << 'a' << int( s.al );
        if ( limit > 0 && !s.d.empty() ) {
            o << '[';
            for ( size_t i = 0; i < s.d.size() && i < limit; ++i )
                o << ( i ? " " : "" ) << int( s.d[i] );
            o << ( s.d.size() > limit ? " ..]" : "]" );
        }
        return o.str();
    }

    // Builds an image from a snapshot
    inline Image fromSnap( const Snap & s )
    {
        Image image( s.w, s.h, s.cc, s.al );
        std::copy( s.d.begin(), s.d.end(), image.data() );
        return image;
    }
}
