// P15-P18: image files
#include "file/bmp_image.h"
#include "file/file_image.h"
#include "file/jpeg_image.h"
#include "file/png_image.h"
#include "file/raw_image.h"
#include "img.h"
#include <csetjmp>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <jpeglib.h>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

namespace
{
    // Memory is limited while a file of unknown contents is loaded: the header of a tiny file may ask for terabytes
    thread_local bool limitMemory = false;
    const size_t MEMORY_LIMIT = 48u << 20;
    // ... or pretended to be plenty: large requests get address space only
    thread_local bool plentyOfMemory = false;
    // What fresh memory contains, if not what the sanitizer puts there
    thread_local int fresh = -1;
    struct Mapping
    {
        void * address = nullptr;
        size_t size = 0;
    };
    thread_local Mapping mapping[8];
    thread_local int mappings = 0;

    void * pretend( size_t size )
    {
        for ( Mapping & m : mapping )
            if ( m.address == nullptr && size <= ( static_cast<size_t>( 1 ) << 36 ) ) {
                void * p = mmap( nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
                if ( p == MAP_FAILED )
                    return nullptr;
                m.address = p;
                m.size = size;
                ++mappings;
                return p;
            }
        return nullptr;
    }

    bool unmap( void * p )
    {
        for ( Mapping & m : mapping )
            if ( m.address == p ) {
                munmap( p, m.size );
                m.address = nullptr;
                --mappings;
                return true;
            }
        return false;
    }
}

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__( ( weak ) );

void * operator new( size_t size )
{
    if ( limitMemory && size > MEMORY_LIMIT ) {
        void * large = plentyOfMemory ? pretend( size ) : nullptr;
        if ( large == nullptr )
            throw std::bad_alloc();
        return large;
    }
    void * p = std::malloc( size ? size : 1 );
    if ( p == nullptr )
        throw std::bad_alloc();
    if ( fresh >= 0 )
        memset( p, fresh, size );
    return p;
}
void * operator new[]( size_t size )
{
    return operator new( size );
}
void * operator new( size_t size, const std::nothrow_t & ) noexcept
{
    try {
        return operator new( size );
    }
    catch ( ... ) {
        return nullptr;
    }
}
void * operator new[]( size_t size, const std::nothrow_t & ) noexcept
{
    return operator new( size, std::nothrow );
}
void operator delete( void * p ) noexcept
{
    if ( p == nullptr || mappings == 0 || !unmap( p ) )
        std::free( p );
}
void operator delete[]( void * p ) noexcept
{
    operator delete( p );
}
void operator delete( void * p, const std::nothrow_t & ) noexcept
{
    operator delete( p );
}
void operator delete[]( void * p, const std::nothrow_t & ) noexcept
{
    operator delete( p );
}
void operator delete( void * p, size_t ) noexcept
{
    operator delete( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    operator delete( p );
}

namespace
{
    using namespace hv;
    typedef std::vector<uint8_t> Bytes;

    std::string file( const std::string & name )
    {
        return pbt::scratchDirectory() + "/" + name;
    }

    void spill( const std::string & path, const Bytes & data )
    {
        std::ofstream f( path, std::ios::binary | std::ios::trunc );
        f.write( reinterpret_cast<const char *>( data.data() ), static_cast<std::streamsize>( data.size() ) );
        if ( !f.flush() )
            throw std::runtime_error( "scratch file" );
    }

    Bytes slurp( const std::string & path )
    {
        std::ifstream f( path, std::ios::binary );
        if ( !f )
            pbt::fail( "the file was not written: " + path );
        return Bytes( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
    }

    // A picture without any layout: channels as an image of the library stores them
    struct Picture
    {
        uint32_t w = 0, h = 0;
        uint8_t cc = 0;
        Bytes d;
        bool operator==( const Picture & o ) const
        {
            return w == o.w && h == o.h && cc == o.cc && d == o.d;
        }
    };

    std::string show( const Picture & p )
    {
        std::ostringstream o;
        o << p.w << 'x' << p.h << 'c' << int( p.cc ) << '[';
        for ( size_t i = 0; i < p.d.size() && i < 24; ++i )
            o << ( i ? " " : "" ) << int( p.d[i] );
        o << ( p.d.size() > 24 ? " ..]" : "]" );
        return o.str();
    }

    Picture part( const Snap & s, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
    {
        Picture p;
        p.w = w;
        p.h = h;
        p.cc = s.cc;
        for ( uint32_t j = 0; j < h; ++j )
            for ( uint32_t i = 0; i < w * s.cc; ++i )
                p.d.push_back( s.d[static_cast<size_t>( y + j ) * s.row + x * s.cc + i] );
        return p;
    }

    // Also a check of consistency: touches everything an image claims to have
    Picture whole( Image & image )
    {
        const Snap s = snap( image );
        if ( image.empty() ) {
            PBT_CHECK( s.w == 0 || s.h == 0 || s.d.empty(), "an empty image has dimensions" );
            return Picture();
        }
        PBT_CHECK( s.w > 0 && s.h > 0 && s.cc > 0, "an image with data has no dimensions" );
        PBT_CHECK( s.al > 0 && s.row % s.al == 0 && static_cast<uint64_t>( s.row ) >= static_cast<uint64_t>( s.w ) * s.cc && s.row - s.w * s.cc < s.al,
                   "the row size " << s.row << " does not agree with width " << s.w << ", " << int( s.cc ) << " channels, alignment " << int( s.al ) );
        std::copy( s.d.begin(), s.d.end(), image.data() ); // the whole buffer is writable
        return part( s, 0, 0, s.w, s.h );
    }

    void same( const Picture & got, const Picture & want, const char * what )
    {
        PBT_CHECK( got.w == want.w && got.h == want.h && got.cc == want.cc, what << ": got " << show( got ) << " instead of " << show( want ) );
        for ( size_t i = 0; i < want.d.size(); ++i )
            PBT_CHECK( got.d[i] == want.d[i], what << ": pixel (" << i / want.cc % want.w << ", " << i / want.cc / want.w << ") channel " << i % want.cc << " is " << int( got.d[i] )
                                                   << " instead of " << int( want.d[i] ) << ", got " << show( got ) << " instead of " << show( want ) );
    }

    struct Case
    {
        Image image;
        Snap before;
        bool wholeImage = false;
        uint32_t x = 0, y = 0, w = 0, h = 0;
        Picture want;
    };

    // Rarely rows of more than 65535 bytes or several megabytes of pixels; [longest] is the limit of the format
    void genFileSize( Src & s, uint32_t & w, uint32_t & h, uint32_t area, uint32_t limit, uint32_t longest = 70000 )
    {
        if ( area >= 4000 && s.chance( 1 ) ) {
            if ( s.chance( 64 ) ) {
                w = 1100 + static_cast<uint32_t>( s.upto( 900 ) );
                h = 1100 + static_cast<uint32_t>( s.upto( 1600 ) );
                return;
            }
            w = s.flag() ? 65530 + static_cast<uint32_t>( s.upto( 10 ) ) : 16380 + static_cast<uint32_t>( s.upto( 6000 ) );
            w = std::min( w, longest );
            h = 1 + static_cast<uint32_t>( s.upto( 2 ) );
            if ( s.chance( 64 ) )
                std::swap( w, h );
            return;
        }
        genSize( s, w, h, area, limit );
    }

    void genCase( Src & s, Ctx & ctx, Case & c, uint32_t area, uint32_t longest = 70000 )
    {
        uint32_t w, h;
        genFileSize( s, w, h, area, 3000, longest );
        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 1, 3, 4 } );
        c.image = genImage( s, w, h, cc, genAlignment( s ) );
        c.before = snap( c.image );
        c.w = w;
        c.h = h;
        c.wholeImage = s.upto( 2 ) == 0;
        if ( !c.wholeImage ) {
            c.x = s.flag() ? 0 : s.u( 0, w - 1 );
            c.y = s.flag() ? 0 : s.u( 0, h - 1 );
            c.w = s.chance( 60 ) ? w - c.x : s.u( 1, w - c.x );
            c.h = s.chance( 60 ) ? h - c.y : s.u( 1, h - c.y );
        }
        c.want = part( c.before, c.x, c.y, c.w, c.h );
        PBT_NOTE( ctx, "image " << hv::show( c.before ) << ( c.wholeImage ? " whole" : " rectangle " ) << c.x << ',' << c.y << ' ' << c.w << 'x' << c.h << "; " );
        if ( c.image.rowSize() != w * cc )
            ctx.label( "padded rows" );
        if ( c.x > 0 || c.y > 0 )
            ctx.label( "shifted rectangle" );
        ctx.nontrivial = c.w * c.h > 1;
    }

    // ---------------------------------------------------------------- independent bitmap code

    void put( Bytes & b, uint64_t v, int bytes )
    {
        for ( int i = 0; i < bytes; ++i )
            b.push_back( static_cast<uint8_t>( v >> ( 8 * i ) ) );
    }

    uint32_t get( const Bytes & b, size_t at, int bytes )
    {
        uint32_t v = 0;
        for ( int i = 0; i < bytes; ++i ) {
            PBT_CHECK( at + static_cast<size_t>( i ) < b.size(), "the file is too short" );
            v |= static_cast<uint32_t>( b[at + static_cast<size_t>( i )] ) << ( 8 * i );
        }
        return v;
    }

    Picture readBmp( const Bytes & b )
    {
        PBT_CHECK( b.size() >= 54 && b[0] == 'B' && b[1] == 'M', "no bitmap file header" );
        PBT_CHECK( get( b, 2, 4 ) == b.size(), "the header gives a file size of " << get( b, 2, 4 ) << " but the file has " << b.size() << " bytes" );
        const uint32_t offset = get( b, 10, 4 );
        PBT_CHECK( get( b, 14, 4 ) == 40, "unexpected information header" );
        const int32_t width = static_cast<int32_t>( get( b, 18, 4 ) ), rawHeight = static_cast<int32_t>( get( b, 22, 4 ) );
        PBT_CHECK( width > 0 && rawHeight != 0, "bad dimensions " << width << 'x' << rawHeight << " in the header" );
        PBT_CHECK( get( b, 26, 2 ) == 1, "number of planes is not 1" );
        const uint32_t bits = get( b, 28, 2 );
        PBT_CHECK( bits == 8 || bits == 24 || bits == 32, "bits per pixel: " << bits );
        PBT_CHECK( get( b, 30, 4 ) == 0, "the header claims compression" );
        Picture p;
        p.w = static_cast<uint32_t>( width );
        p.h = static_cast<uint32_t>( rawHeight < 0 ? -rawHeight : rawHeight );
        p.cc = static_cast<uint8_t>( bits / 8 );
        const uint64_t row = ( static_cast<uint64_t>( p.w ) * p.cc + 3 ) / 4 * 4;
        PBT_CHECK( get( b, 34, 4 ) == 0 || get( b, 34, 4 ) == row * p.h, "the header gives an image size of " << get( b, 34, 4 ) << " instead of " << row * p.h );
        const uint32_t colors = get( b, 46, 4 ) == 0 && bits == 8 ? 256 : get( b, 46, 4 );
        PBT_CHECK( offset >= 54 + ( bits == 8 ? colors * 4 : 0 ), "pixel data starts inside the header" );
        PBT_CHECK( offset + row * p.h == b.size(), "the file has " << b.size() << " bytes instead of " << offset + row * p.h );
        p.d.resize( static_cast<size_t>( p.w ) * p.h * p.cc );
        for ( uint32_t y = 0; y < p.h; ++y ) {
            const size_t from = offset + row * ( rawHeight > 0 ? p.h - 1 - y : y );
            for ( uint32_t i = 0; i < p.w * p.cc; ++i ) {
                uint8_t v = b[from + i];
                if ( bits == 8 ) {
                    PBT_CHECK( v < colors && b[54 + v * 4u] == b[55 + v * 4u] && b[54 + v * 4u] == b[56 + v * 4u], "the palette of a gray image is not gray" );
                    v = b[54 + v * 4u];
                }
                p.d[static_cast<size_t>( y ) * p.w * p.cc + i] = v;
            }
        }
        return p;
    }

    // A well-formed bitmap and the picture in it. alternative: the picture when gray tones are given as gray instead of BGR
    Bytes genBmp( Src & s, Ctx & ctx, Picture & want, Picture & alternative, uint32_t area = 4000 )
    {
        uint32_t w, h;
        genFileSize( s, w, h, area, 2000 );
        const bool core = s.chance( 80 ) && std::max( w, h ) <= 65535;
        const uint32_t bits = s.pick<uint32_t>( { 8, 24, 32, 8 } );
        const bool topDown = !core && s.flag();
        const size_t gap = s.chance( 100 ) ? s.upto( 40 ) : 0;
        uint32_t colors = 0, colorsUsed = 0;
        Bytes palette;
        Bytes color[3]; // blue, green, red by index
        const uint32_t kind = static_cast<uint32_t>( s.upto( 3 ) ); // of the palette
        pbt::Stream r( s.raw( 3 ) );
        if ( bits == 8 ) {
            if ( core || !s.chance( 90 ) )
                colors = 256;
            else
                colors = colorsUsed = 1 + static_cast<uint32_t>( s.upto( 255 ) );
            if ( !core && colors == 256 && s.chance( 40 ) )
                colorsUsed = 256;
            const uint8_t flip = s.chance( 60 ) ? 255 : 0;
            for ( uint32_t i = 0; i < colors; ++i ) {
                uint8_t v[3];
                switch ( kind ) {
                case 0:
                    v[0] = v[1] = v[2] = static_cast<uint8_t>( i );
                    break;
                case 1: // gray tones in another order
                    v[0] = v[1] = v[2] = flip ? static_cast<uint8_t>( 255 - i ) : static_cast<uint8_t>( r.next() );
                    break;
                case 2: // gray but for one color
                    v[0] = v[1] = v[2] = static_cast<uint8_t>( i );
                    if ( i == colors / 2 )
                        v[r.below( 3 )] ^= 1;
                    break;
                default:
                    for ( uint8_t & x : v )
                        x = static_cast<uint8_t>( r.next() );
                }
                for ( int k = 0; k < 3; ++k ) {
                    palette.push_back( v[k] );
                    color[k].push_back( v[k] );
                }
                if ( !core )
                    palette.push_back( flip ? static_cast<uint8_t>( r.next() ) : 0 );
            }
        }
        else if ( !core && s.chance( 50 ) ) { // colors preferred by displays with few of them
            colorsUsed = 1 + static_cast<uint32_t>( s.upto( 255 ) );
            for ( uint32_t i = 0; i < colorsUsed * 4; ++i )
                palette.push_back( static_cast<uint8_t>( r.next() ) );
        }
        const uint32_t cc = bits / 8;
        const size_t row = ( static_cast<size_t>( w ) * cc + 3 ) / 4 * 4;
        const size_t header = 14 + ( core ? 12 : 40 );
        const size_t offset = header + palette.size() + gap;
        const bool wrongSize = s.chance( 60 ); // some programs write a wrong file size
        Bytes b;
        put( b, 0x4D42, 2 );
        put( b, wrongSize ? r.next() : offset + row * h, 4 );
        put( b, s.chance( 40 ) ? r.next() : 0, 4 );
        put( b, offset, 4 );
        if ( core ) {
            put( b, 12, 4 );
            put( b, w, 2 );
            put( b, h, 2 );
            put( b, 1, 2 );
            put( b, bits, 2 );
        }
        else {
            put( b, 40, 4 );
            put( b, w, 4 );
            put( b, topDown ? 0u - h : h, 4 );
            put( b, 1, 2 );
            put( b, bits, 2 );
            put( b, 0, 4 );
            put( b, s.flag() ? row * h : 0, 4 );
            put( b, s.flag() ? r.next() : 2835, 4 );
            put( b, s.flag() ? r.next() : 2835, 4 );
            put( b, colorsUsed, 4 );
            put( b, s.flag() ? colorsUsed : ( s.chance( 40 ) ? r.next() : 0 ), 4 );
        }
        b.insert( b.end(), palette.begin(), palette.end() );
        for ( size_t i = 0; i < gap; ++i )
            b.push_back( static_cast<uint8_t>( r.next() ) );
        Bytes index( row * h );
        for ( uint8_t & v : index )
            v = static_cast<uint8_t>( bits == 8 ? r.below( colors ) : r.next() );
        if ( bits == 8 && s.chance( 60 ) )
            for ( uint8_t & v : index )
                v = static_cast<uint8_t>( r.below( 2 ) ? colors / 2 : 0 );
        b.insert( b.end(), index.begin(), index.end() );
        want.w = w;
        want.h = h;
        const bool toColor = bits == 8 && kind != 0;
        want.cc = static_cast<uint8_t>( toColor ? 3 : cc );
        want.d.clear();
        alternative = want;
        bool allGray = true;
        for ( uint32_t y = 0; y < h; ++y ) {
            const uint8_t * line = index.data() + row * ( topDown ? y : h - 1 - y );
            for ( uint32_t i = 0; i < w * cc; ++i ) {
                if ( toColor ) {
                    for ( int k = 0; k < 3; ++k )
                        want.d.push_back( color[k][line[i]] );
                    alternative.d.push_back( color[0][line[i]] );
                    allGray = allGray && color[0][line[i]] == color[1][line[i]] && color[0][line[i]] == color[2][line[i]];
                }
                else {
                    want.d.push_back( line[i] );
                    if ( bits == 8 )
                        for ( int k = 0; k < 3; ++k )
                            alternative.d.push_back( line[i] );
                }
            }
        }
        if ( toColor && allGray )
            alternative.cc = 1;
        else if ( bits == 8 && !toColor )
            alternative.cc = 3;
        else
            alternative = want;
        PBT_NOTE( ctx, ( core ? "core" : "info" ) << " bitmap " << w << 'x' << h << ' ' << bits << " bits" << ( topDown ? " top-down" : "" ) << ", " << colors << " colors of kind " << kind
                                                 << ", gap " << gap << "; " );
        ctx.label( bits == 8 ? ( kind == 0 ? "bmp gray" : "bmp palette" ) : ( bits == 24 ? "bmp 24" : "bmp 32" ) );
        return b;
    }

    // ---------------------------------------------------------------- independent PNG code

    void put32( Bytes & b, uint32_t v )
    {
        for ( int i = 3; i >= 0; --i )
            b.push_back( static_cast<uint8_t>( v >> ( 8 * i ) ) );
    }

    void chunk( Bytes & out, const char * type, const Bytes & data )
    {
        put32( out, static_cast<uint32_t>( data.size() ) );
        Bytes body( type, type + 4 );
        body.insert( body.end(), data.begin(), data.end() );
        out.insert( out.end(), body.begin(), body.end() );
        put32( out, static_cast<uint32_t>( crc32( 0, body.data(), static_cast<uInt>( body.size() ) ) ) );
    }

    uint8_t paeth( int a, int b, int c )
    {
        const int p = a + b - c, pa = std::abs( p - a ), pb = std::abs( p - b ), pc = std::abs( p - c );
        return static_cast<uint8_t>( pa <= pb && pa <= pc ? a : ( pb <= pc ? b : c ) );
    }

    uint8_t predict( int filter, const Bytes & row, const Bytes & above, size_t i, size_t bpp )
    {
        const int a = i >= bpp ? row[i - bpp] : 0, b = above.empty() ? 0 : above[i], c = i >= bpp && !above.empty() ? above[i - bpp] : 0;
        switch ( filter ) {
        case 1:
            return static_cast<uint8_t>( a );
        case 2:
            return static_cast<uint8_t>( b );
        case 3:
            return static_cast<uint8_t>( ( a + b ) / 2 );
        case 4:
            return paeth( a, b, c );
        default:
            return 0;
        }
    }

    // Gray or RGB with 8 bits without interlacing, which is all the library writes; channels in file order
    Picture readPng( const Bytes & b )
    {
        static const uint8_t SIGNATURE[8] = { 0x89, 'P', 'N', 'G', 13, 10, 26, 10 };
        PBT_CHECK( b.size() > 8 && std::equal( SIGNATURE, SIGNATURE + 8, b.begin() ), "no PNG signature" );
        size_t at = 8;
        Bytes data;
        Picture p;
        bool ended = false;
        uint8_t type = 0;
        while ( !ended ) {
            PBT_CHECK( at + 12 <= b.size(), "PNG file ends early" );
            auto big = [&b]( size_t i ) { return ( static_cast<uint32_t>( b[i] ) << 24 ) | ( static_cast<uint32_t>( b[i + 1] ) << 16 ) | ( static_cast<uint32_t>( b[i + 2] ) << 8 ) | b[i + 3]; };
            const uint32_t length = big( at );
            PBT_CHECK( at + 12 + length <= b.size(), "PNG chunk ends after the file" );
            const std::string name( b.begin() + static_cast<std::ptrdiff_t>( at ) + 4, b.begin() + static_cast<std::ptrdiff_t>( at ) + 8 );
            PBT_CHECK( crc32( 0, b.data() + at + 4, length + 4 ) == big( at + 8 + length ), "wrong CRC of " << name );
            if ( name == "IHDR" ) {
                PBT_CHECK( length == 13, "bad IHDR" );
                p.w = big( at + 8 );
                p.h = big( at + 12 );
                type = b[at + 17];
                PBT_CHECK( b[at + 16] == 8 && ( type == 0 || type == 2 || type == 6 ) && b[at + 20] == 0, "unexpected PNG kind: depth " << int( b[at + 16] ) << ", type " << int( type ) );
                p.cc = type == 0 ? 1 : ( type == 2 ? 3 : 4 );
            }
            else if ( name == "IDAT" )
                data.insert( data.end(), b.begin() + static_cast<std::ptrdiff_t>( at ) + 8, b.begin() + static_cast<std::ptrdiff_t>( at + 8 + length ) );
            else if ( name == "IEND" )
                ended = true;
            at += 12 + length;
        }
        const size_t line = static_cast<size_t>( p.w ) * p.cc;
        Bytes raw( ( line + 1 ) * p.h + 1 );
        uLongf size = raw.size();
        PBT_CHECK( uncompress( raw.data(), &size, data.data(), data.size() ) == Z_OK && size == ( line + 1 ) * p.h, "PNG data of wrong length" );
        Bytes above;
        for ( uint32_t y = 0; y < p.h; ++y ) {
            Bytes row( raw.begin() + static_cast<std::ptrdiff_t>( ( line + 1 ) * y + 1 ), raw.begin() + static_cast<std::ptrdiff_t>( ( line + 1 ) * ( y + 1 ) ) );
            for ( size_t i = 0; i < line; ++i )
                row[i] = static_cast<uint8_t>( row[i] + predict( raw[( line + 1 ) * y], row, above, i, p.cc ) );
            p.d.insert( p.d.end(), row.begin(), row.end() );
            above = row;
        }
        return p;
    }

    Bytes compressed( Src & s, const Bytes & raw )
    {
        uLongf size = compressBound( raw.size() );
        Bytes out( size );
        compress2( out.data(), &size, raw.data(), raw.size(), static_cast<int>( s.upto( 9 ) ) );
        out.resize( size );
        return out;
    }

    // rows of samples (not yet packed) -> filtered packed bytes
    void pack( Src & s, Bytes & out, const std::vector<uint32_t> & sample, uint32_t w, uint32_t h, uint32_t channels, uint32_t depth )
    {
        const size_t bpp = std::max<size_t>( 1, channels * depth / 8 );
        Bytes above;
        const uint32_t filterKind = static_cast<uint32_t>( s.upto( 5 ) );
        pbt::Stream r( s.raw( 1 ) );
        for ( uint32_t y = 0; y < h; ++y ) {
            Bytes row( ( static_cast<size_t>( w ) * channels * depth + 7 ) / 8 );
            for ( uint32_t i = 0; i < w * channels; ++i ) {
                const uint32_t v = sample[static_cast<size_t>( y ) * w * channels + i];
                if ( depth == 16 ) {
                    row[i * 2] = static_cast<uint8_t>( v >> 8 );
                    row[i * 2 + 1] = static_cast<uint8_t>( v );
                }
                else if ( depth == 8 )
                    row[i] = static_cast<uint8_t>( v );
                else
                    row[i * depth / 8] = static_cast<uint8_t>( row[i * depth / 8] | ( v << ( 8 - depth - i * depth % 8 ) ) );
            }
            const int filter = static_cast<int>( filterKind == 5 ? r.below( 5 ) : filterKind );
            out.push_back( static_cast<uint8_t>( filter ) );
            for ( size_t i = 0; i < row.size(); ++i )
                out.push_back( static_cast<uint8_t>( row[i] - predict( filter, row, above, i, bpp ) ) );
            above = row;
        }
    }

    // A well-formed PNG and the picture expected from it (channels blue, green, red); slack: allowed difference
    Bytes genPng( Src & s, Ctx & ctx, Picture & want, int & slack, uint32_t area = 4000 )
    {
        uint32_t w, h;
        genFileSize( s, w, h, area, 1500 );
        const uint32_t type = s.pick<uint32_t>( { 0, 2, 3, 4, 6 } );
        uint32_t depth = 8;
        switch ( type ) {
        case 0:
            depth = s.pick<uint32_t>( { 8, 1, 2, 4, 16 } );
            break;
        case 3:
            depth = s.pick<uint32_t>( { 8, 1, 2, 4 } );
            break;
        default:
            depth = s.pick<uint32_t>( { 8, 16 } );
        }
        const bool interlaced = s.chance( 90 );
        const bool transparency = ( type == 0 || type == 2 || type == 3 ) && s.chance( 110 );
        const uint32_t channels = type == 0 || type == 3 ? 1 : ( type == 2 ? 3 : ( type == 4 ? 2 : 4 ) );
        pbt::Stream r( s.raw( 3 ) );
        const uint32_t few = s.flag() ? 0 : 1 + static_cast<uint32_t>( s.upto( 3 ) ); // number of values in use
        const uint32_t range = 1u << depth;
        const uint32_t entries = type == 3 ? 1 + static_cast<uint32_t>( s.upto( range - 1 ) ) : 0;
        Bytes palette( entries * 3 );
        for ( uint8_t & v : palette )
            v = static_cast<uint8_t>( r.next() );
        std::vector<uint32_t> level( 4 );
        for ( uint32_t & v : level )
            v = r.below( type == 3 ? entries : range );
        std::vector<uint32_t> sample( static_cast<size_t>( w ) * h * channels );
        for ( uint32_t & v : sample )
            v = few ? level[r.below( few )] : r.below( type == 3 ? entries : range );
        Bytes b{ 0x89, 'P', 'N', 'G', 13, 10, 26, 10 };
        Bytes head;
        put32( head, w );
        put32( head, h );
        head.push_back( static_cast<uint8_t>( depth ) );
        head.push_back( static_cast<uint8_t>( type ) );
        head.push_back( 0 );
        head.push_back( 0 );
        head.push_back( interlaced ? 1 : 0 );
        chunk( b, "IHDR", head );
        if ( s.chance( 60 ) ) {
            Bytes gamma;
            put32( gamma, 20000 + r.below( 100000 ) );
            chunk( b, "gAMA", gamma );
        }
        if ( s.chance( 40 ) )
            chunk( b, "tEXt", Bytes{ 'C', 'o', 'm', 'm', 'e', 'n', 't', 0, 'x' } );
        if ( s.chance( 40 ) ) { // how many bits of the samples were significant before
            static const size_t SIGNIFICANT[] = { 1, 0, 3, 3, 2, 0, 4 };
            Bytes bits( SIGNIFICANT[type] );
            for ( uint8_t & v : bits )
                v = static_cast<uint8_t>( 1 + r.below( type == 3 ? 8 : depth ) );
            chunk( b, "sBIT", bits );
        }
        if ( type == 3 )
            chunk( b, "PLTE", palette );
        else if ( ( type == 2 || type == 6 ) && s.chance( 30 ) ) { // suggested
            Bytes suggested( 3 * ( 1 + r.below( 256 ) ) );
            for ( uint8_t & v : suggested )
                v = static_cast<uint8_t>( r.next() );
            chunk( b, "PLTE", suggested );
        }
        if ( transparency ) {
            Bytes t;
            if ( type == 3 ) {
                const uint32_t n = 1 + r.below( entries );
                for ( uint32_t i = 0; i < n; ++i )
                    t.push_back( static_cast<uint8_t>( r.next() ) );
            }
            else
                for ( uint32_t i = 0; i < ( type == 0 ? 1u : 3u ); ++i ) {
                    const uint32_t v = level[0];
                    t.push_back( static_cast<uint8_t>( v >> 8 ) );
                    t.push_back( static_cast<uint8_t>( v ) );
                }
            chunk( b, "tRNS", t );
        }
        if ( s.chance( 40 ) ) {
            Bytes background;
            if ( type == 3 )
                background.push_back( static_cast<uint8_t>( r.below( entries ) ) );
            else
                for ( uint32_t i = 0; i < ( type == 0 || type == 4 ? 1u : 3u ); ++i ) {
                    const uint32_t v = r.below( range );
                    background.push_back( static_cast<uint8_t>( v >> 8 ) );
                    background.push_back( static_cast<uint8_t>( v ) );
                }
            chunk( b, "bKGD", background );
        }
        if ( s.chance( 20 ) )
            chunk( b, "pHYs", Bytes{ 0, 0, 1, 0, 0, 0, 2, 0, static_cast<uint8_t>( r.below( 2 ) ) } );
        if ( s.chance( 20 ) )
            chunk( b, "tIME", Bytes{ 7, 0xE6, 1, 1, 1, 1, 1 } );
        Bytes raw;
        if ( !interlaced )
            pack( s, raw, sample, w, h, channels, depth );
        else {
            static const uint32_t X0[] = { 0, 4, 0, 2, 0, 1, 0 }, Y0[] = { 0, 0, 4, 0, 2, 0, 1 }, DX[] = { 8, 8, 4, 4, 2, 2, 1 }, DY[] = { 8, 8, 8, 4, 4, 2, 2 };
            for ( int pass = 0; pass < 7; ++pass ) {
                std::vector<uint32_t> sub;
                uint32_t pw = 0, ph = 0;
                for ( uint32_t y = Y0[pass]; y < h; y += DY[pass] ) {
                    ++ph;
                    pw = 0;
                    for ( uint32_t x = X0[pass]; x < w; x += DX[pass] ) {
                        ++pw;
                        for ( uint32_t k = 0; k < channels; ++k )
                            sub.push_back( sample[( static_cast<size_t>( y ) * w + x ) * channels + k] );
                    }
                }
                if ( pw > 0 && ph > 0 )
                    pack( s, raw, sub, pw, ph, channels, depth );
            }
        }
        const Bytes z = compressed( s, raw );
        const size_t pieces = 1 + s.upto( 2 );
        size_t at = 0;
        for ( size_t i = 0; i < pieces; ++i ) {
            const size_t end = i + 1 == pieces ? z.size() : std::min( z.size(), at + r.below( static_cast<uint32_t>( z.size() ) + 1 ) );
            chunk( b, "IDAT", Bytes( z.begin() + static_cast<std::ptrdiff_t>( at ), z.begin() + static_cast<std::ptrdiff_t>( end ) ) );
            at = end;
        }
        chunk( b, "IEND", Bytes() );
        want.w = w;
        want.h = h;
        want.cc = type == 0 || type == 4 ? 1 : 3;
        want.d.clear();
        slack = depth == 16 ? 1 : 0;
        auto to8 = [depth, range]( uint32_t v ) { return static_cast<uint8_t>( depth == 16 ? v >> 8 : v * 255 / ( range - 1 ) ); };
        for ( size_t i = 0; i < static_cast<size_t>( w ) * h; ++i ) {
            const uint32_t * v = sample.data() + i * channels;
            if ( want.cc == 1 )
                want.d.push_back( to8( v[0] ) );
            else
                for ( uint32_t k = 0; k < 3; ++k )
                    want.d.push_back( type == 3 ? palette[v[0] * 3 + 2 - k] : to8( v[2 - k] ) );
        }
        PBT_NOTE( ctx, "PNG " << w << 'x' << h << " type " << type << " depth " << depth << ( interlaced ? " interlaced" : "" ) << ( transparency ? " with transparency" : "" ) << "; " );
        ctx.label( "png type " + std::to_string( type ) + " depth " + std::to_string( depth ) );
        return b;
    }

    // ---------------------------------------------------------------- libjpeg used directly

    struct JpegTrap
    {
        jpeg_error_mgr base;
        std::jmp_buf jump;
    };

    void trap( j_common_ptr info )
    {
        longjmp( reinterpret_cast<JpegTrap *>( info->err )->jump, 1 );
    }
    void quiet( j_common_ptr ) {}

    struct Outcome
    {
        bool ok = false;
        Picture picture;
    };

    void readJpeg( const Bytes & b, Outcome & out )
    {
        static jpeg_decompress_struct info;
        static JpegTrap error;
        std::memset( &info, 0, sizeof( info ) );
        info.err = jpeg_std_error( &error.base );
        error.base.error_exit = trap;
        error.base.output_message = quiet;
        if ( setjmp( error.jump ) ) {
            jpeg_destroy_decompress( &info );
            out.ok = false;
            return;
        }
        jpeg_create_decompress( &info );
        jpeg_mem_src( &info, b.data(), b.size() );
        jpeg_read_header( &info, TRUE );
        jpeg_start_decompress( &info );
        out.picture.w = info.output_width;
        out.picture.h = info.output_height;
        out.picture.cc = static_cast<uint8_t>( info.output_components );
        out.picture.d.assign( static_cast<size_t>( info.output_width ) * info.output_height * static_cast<size_t>( info.output_components ), 0 );
        while ( info.output_scanline < info.output_height ) {
            JSAMPROW row = out.picture.d.data() + static_cast<size_t>( info.output_scanline ) * info.output_width * static_cast<size_t>( info.output_components );
            jpeg_read_scanlines( &info, &row, 1 );
        }
        jpeg_finish_decompress( &info );
        jpeg_destroy_decompress( &info );
        out.ok = true;
    }

    // options: 1 progressive, 2 no subsampling, 4 restart markers, 8 optimised tables
    Bytes writeJpeg( const Picture & p, int quality, uint32_t options )
    {
        jpeg_compress_struct info;
        jpeg_error_mgr error;
        info.err = jpeg_std_error( &error );
        jpeg_create_compress( &info );
        unsigned char * memory = nullptr;
        unsigned long size = 0;
        jpeg_mem_dest( &info, &memory, &size );
        info.image_width = p.w;
        info.image_height = p.h;
        info.input_components = p.cc;
        info.in_color_space = p.cc == 1 ? JCS_GRAYSCALE : ( p.cc == 3 ? JCS_RGB : JCS_CMYK );
        jpeg_set_defaults( &info );
        jpeg_set_quality( &info, quality, TRUE );
        if ( options & 2 )
            for ( int i = 0; i < info.num_components; ++i )
                info.comp_info[i].h_samp_factor = info.comp_info[i].v_samp_factor = 1;
        if ( options & 4 )
            info.restart_interval = 3;
        if ( options & 8 )
            info.optimize_coding = TRUE;
        if ( options & 1 )
            jpeg_simple_progression( &info );
        jpeg_start_compress( &info, TRUE );
        while ( info.next_scanline < info.image_height ) {
            JSAMPROW row = const_cast<uint8_t *>( p.d.data() ) + static_cast<size_t>( info.next_scanline ) * p.w * p.cc;
            jpeg_write_scanlines( &info, &row, 1 );
        }
        jpeg_finish_compress( &info );
        jpeg_destroy_compress( &info );
        Bytes b( memory, memory + size );
        std::free( memory );
        return b;
    }

    int distance( const Picture & a, const Picture & b )
    {
        int d = 0;
        for ( size_t i = 0; i < a.d.size() && i < b.d.size(); ++i )
            d = std::max( d, std::abs( int( a.d[i] ) - int( b.d[i] ) ) );
        return d;
    }

    double meanDistance( const Picture & a, const Picture & b )
    {
        double d = 0;
        for ( size_t i = 0; i < a.d.size() && i < b.d.size(); ++i )
            d += std::abs( int( a.d[i] ) - int( b.d[i] ) );
        return a.d.empty() ? 0 : d / static_cast<double>( a.d.size() );
    }

    // ---------------------------------------------------------------- P15

    int openFiles()
    {
        int n = 0;
        for ( int fd = 0; fd < 64; ++fd )
            if ( fcntl( fd, F_GETFD ) != -1 )
                ++n;
        return n;
    }

    // The same call again and again: neither memory nor descriptors may be lost each time
    void leakCheck( Ctx & ctx, const std::function<void()> & call )
    {
        const int files = openFiles();
        auto once = [&call]() {
            limitMemory = true;
            try {
                call();
            }
            catch ( ... ) {
            }
            limitMemory = false;
        };
        once();
        if ( !__sanitizer_get_current_allocated_bytes )
            return;
        const size_t first = __sanitizer_get_current_allocated_bytes();
        once();
        const size_t second = __sanitizer_get_current_allocated_bytes();
        once();
        const size_t third = __sanitizer_get_current_allocated_bytes();
        ctx.label( "leak check" );
        PBT_CHECK( openFiles() <= files, "files are left open" );
        PBT_CHECK( second <= first || third <= second, "each call loses " << third - second << " bytes" );
    }

    void callSave( const char * module, const std::string & path, const Case & c )
    {
        const bool generic = module[0] == 'f';
        const std::string kind = generic ? module + 1 : module;
        if ( c.wholeImage ) {
            if ( generic )
                File_Operation::Save( path, c.image );
            else if ( kind == "bmp" )
                Bitmap_Operation::Save( path, c.image );
            else if ( kind == "png" )
                Png_Operation::Save( path, c.image );
            else
                Jpeg_Operation::Save( path, c.image );
        }
        else {
            if ( generic )
                File_Operation::Save( path, c.image, c.x, c.y, c.w, c.h );
            else if ( kind == "bmp" )
                Bitmap_Operation::Save( path, c.image, c.x, c.y, c.w, c.h );
            else if ( kind == "png" )
                Png_Operation::Save( path, c.image, c.x, c.y, c.w, c.h );
            else
                Jpeg_Operation::Save( path, c.image, c.x, c.y, c.w, c.h );
        }
    }

    // form 0: returning, 1: into an image which already holds something; generic: through File_Operation
    void callLoad( Src & s, const std::string & kind, const std::string & path, Image & image )
    {
        const bool generic = s.flag();
        const bool returning = s.flag();
        if ( !returning && s.flag() ) {
            image = Image( 1 + s.u( 0, 20 ), 1 + s.u( 0, 20 ), s.pick<uint8_t>( { 1, 3, 4 } ), genAlignment( s ) );
            image.fill( 77 );
        }
        if ( generic ) {
            if ( returning )
                image = File_Operation::Load( path );
            else
                File_Operation::Load( path, image );
        }
        else if ( kind == "bmp" ) {
            if ( returning )
                image = Bitmap_Operation::Load( path );
            else
                Bitmap_Operation::Load( path, image );
        }
        else if ( kind == "png" ) {
            if ( returning )
                image = Png_Operation::Load( path );
            else
                Png_Operation::Load( path, image );
        }
        else {
            if ( returning )
                image = Jpeg_Operation::Load( path );
            else
                Jpeg_Operation::Load( path, image );
        }
    }

    void unchanged( const Case & c )
    {
        PBT_CHECK( snap( c.image ) == c.before, "saving changed the image" );
    }

    pbt::Register p15a( "P15", "roundtrip", 8, "images of any size, 1, 3 or 4 channels and alignment, whole or a rectangle, saved as bitmap, read by an independent reader and loaded; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            Case c;
                            genCase( s, ctx, c, s.chance( 3 ) ? 700000 : 12000 );
                            const std::string path = file( s.pick<const char *>( { "a.bmp", "a", "a.BMP", "x.dat", "bmp" } ) );
                            if ( s.chance( 60 ) )
                                spill( path, Bytes( s.u( 0, 5000 ), 0x5A ) ); // an older longer file is replaced
                            callSave( s.flag() ? "fbmp" : "bmp", path, c );
                            if ( s.chance( 8 ) )
                                leakCheck( ctx, [&] { callSave( "bmp", path, c ); } );
                            unchanged( c );
                            same( readBmp( slurp( path ) ), c.want, "independent reader of the saved bitmap" );
                            Image back;
                            callLoad( s, "bmp", path, back );
                            PBT_CHECK( !back.empty(), "the saved bitmap is not loaded" );
                            same( whole( back ), c.want, "loaded bitmap" );
                        } );

    // A save which cannot be done must be reported and leave the image alone
    void refusedSaves( Src & s, Ctx & ctx, const std::string & kind )
    {
        Case c;
        genCase( s, ctx, c, 3000 );
        if ( kind == "jpg" && c.image.colorCount() == 4 )
            throw pbt::Discard();
        const uint32_t way = static_cast<uint32_t>( s.upto( 6 ) );
        std::string path = file( "r." + kind );
        PBT_NOTE( ctx, "way " << way << "; " );
        switch ( way ) {
        case 0: // no space on the device
            path = "/dev/full";
            break;
        case 1:
            path = file( "none/r." + kind );
            break;
        case 2: // a directory
            path = pbt::scratchDirectory();
            break;
        case 3:
            c.wholeImage = false;
            c.w = 0;
            break;
        case 4:
            c.wholeImage = false;
            c.x = c.before.w - c.w + 1 + ( s.flag() ? s.u( 0, 10 ) : 0 );
            break;
        case 5:
            c.wholeImage = false;
            c.h = 0u - ( s.flag() ? c.y : 1u );
            c.y = std::max( c.y, 1u );
            break;
        default:
            c.image.clear();
            c.before = snap( c.image );
            c.wholeImage = s.flag();
        }
        bool thrown = false;
        try {
            callSave( kind.c_str(), path, c );
        }
        catch ( const std::exception & ) {
            thrown = true;
        }
        PBT_CHECK( thrown, "a save which cannot be done is not reported" );
        PBT_CHECK( snap( c.image ) == c.before, "a refused save changed the image" );
        if ( s.chance( 64 ) )
            leakCheck( ctx, [&] { callSave( kind.c_str(), path, c ); } );
        ctx.nontrivial = true;
    }

    pbt::Register p15b( "P15", "refusal", 1, "saving to a full device, a missing directory, a directory, a rectangle outside the image or an empty image must be refused; non-trivial: always",
                        []( Src & s, Ctx & ctx ) { refusedSaves( s, ctx, "bmp" ); } );

    // ---------------------------------------------------------------- P16

    pbt::Register p16a( "P16", "png", 4, "images of any size, 1, 3 or 4 channels and alignment, whole or a rectangle, saved as PNG, read by an independent decoder and loaded; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            Case c;
                            genCase( s, ctx, c, s.chance( 3 ) ? 300000 : 6000 );
                            const std::string path = file( "a.png" );
                            callSave( s.flag() ? "fpng" : "png", path, c );
                            if ( s.chance( 8 ) )
                                leakCheck( ctx, [&] { callSave( "png", path, c ); } );
                            unchanged( c );
                            Picture want;
                            want.w = c.w;
                            want.h = c.h;
                            want.cc = c.want.cc == 1 ? 1 : 3; // alpha is not stored
                            for ( size_t i = 0; i < c.want.d.size(); ++i )
                                if ( c.want.cc != 4 || i % 4 != 3 )
                                    want.d.push_back( c.want.d[i] );
                            Picture stored = readPng( slurp( path ) );
                            for ( size_t i = 0; stored.cc == 3 && i + 2 < stored.d.size(); i += 3 )
                                std::swap( stored.d[i], stored.d[i + 2] ); // the library keeps blue first
                            same( stored, want, "independent reader of the saved PNG" );
                            Image back;
                            callLoad( s, "png", path, back );
                            PBT_CHECK( !back.empty(), "the saved PNG is not loaded" );
                            same( whole( back ), want, "loaded PNG" );
                        } );

    // content for JPEG: from constant to noise
    pbt::Register p16b( "P16", "jpeg", 3,
                        "gray and RGB images, whole or a rectangle, saved as JPEG with a generated quality; the error against the image must not exceed the error of coding the same pixels with libjpeg directly, and "
                        "loading equals decoding by libjpeg; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            Case c;
                            genCase( s, ctx, c, 6000, 65500 );
                            if ( c.image.colorCount() == 4 ) {
                                bool thrown = false;
                                try {
                                    callSave( s.flag() ? "fjpg" : "jpg", file( "a.jpg" ), c );
                                }
                                catch ( const std::exception & ) {
                                    thrown = true;
                                }
                                PBT_CHECK( thrown, "an image with alpha channel is saved as JPEG" );
                                unchanged( c );
                                return;
                            }
                            if ( s.flag() ) { // smooth
                                const uint32_t a = s.u( 0, 3 ), b = s.u( 0, 3 ), k = s.u( 0, 40 );
                                for ( uint32_t y = 0; y < c.before.h; ++y )
                                    for ( uint32_t i = 0; i < c.before.row; ++i )
                                        c.image.data()[y * c.before.row + i] = static_cast<uint8_t>( std::min( 255u, ( i / c.before.cc * a + y * b ) / 4 + ( i % c.before.cc ) * k ) );
                                c.before = snap( c.image );
                                c.want = part( c.before, c.x, c.y, c.w, c.h );
                            }
                            const int old = Jpeg_Operation::GetImageQuality();
                            const int quality = s.flag() ? 100 : 1 + static_cast<int>( s.upto( 99 ) );
                            Jpeg_Operation::SetImageQuality( quality );
                            PBT_CHECK( Jpeg_Operation::GetImageQuality() == quality, "the quality is not kept" );
                            for ( int bad : { 0, 101, -1 } ) {
                                bool thrown = false;
                                try {
                                    Jpeg_Operation::SetImageQuality( bad );
                                }
                                catch ( const std::exception & ) {
                                    thrown = true;
                                }
                                PBT_CHECK( thrown && Jpeg_Operation::GetImageQuality() == quality, "quality " << bad << " is accepted" );
                            }
                            const std::string path = file( s.flag() ? "a.jpg" : "a.jpeg" );
                            callSave( s.flag() ? "fjpg" : "jpg", path, c );
                            Jpeg_Operation::SetImageQuality( old );
                            unchanged( c );
                            PBT_NOTE( ctx, "quality " << quality << "; " );
                            Outcome stored, direct;
                            readJpeg( slurp( path ), stored );
                            readJpeg( writeJpeg( c.want, quality, 0 ), direct );
                            if ( !direct.ok )
                                throw pbt::Discard();
                            PBT_CHECK( stored.ok, "the saved JPEG cannot be decoded" );
                            PBT_CHECK( stored.picture.w == c.w && stored.picture.h == c.h && stored.picture.cc == c.want.cc, "the saved JPEG is " << show( stored.picture ) );
                            PBT_CHECK( distance( stored.picture, c.want ) <= distance( direct.picture, c.want ) + 3 && meanDistance( stored.picture, c.want ) <= meanDistance( direct.picture, c.want ) + 0.5,
                                       "the saved JPEG differs by up to " << distance( stored.picture, c.want ) << " (mean " << meanDistance( stored.picture, c.want ) << ") from the image, direct coding by "
                                                                          << distance( direct.picture, c.want ) << " (mean " << meanDistance( direct.picture, c.want ) << ")" );
                            Image back;
                            callLoad( s, "jpg", path, back );
                            PBT_CHECK( !back.empty(), "the saved JPEG is not loaded" );
                            same( whole( back ), stored.picture, "loaded JPEG" );
                        } );

    template <typename T>
    void rawCase( Src & s, Ctx & ctx )
    {
        uint32_t w, h;
        genFileSize( s, w, h, 5000, 2000 );
        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } );
        ImageTemplate<T> image( w, h, cc, genAlignment( s ) );
        fillImage( s, image );
        const SnapT<T> before = snap( image );
        const std::string path = file( "a.raw" );
        PBT_NOTE( ctx, "raw " << w << 'x' << h << 'c' << int( cc ) << 'a' << int( before.al ) << " of " << sizeof( T ) << " bytes; " );
        Raw_Operation::Save( path, image );
        PBT_CHECK( snap( image ) == before, "saving changed the image" );
        ImageTemplate<T> back = Raw_Operation::Load<T>( path, w, h, cc );
        PBT_CHECK( !back.empty(), "the saved raw file is not loaded" );
        const SnapT<T> after = snap( back );
        PBT_CHECK( after.w == w && after.h == h && after.cc == cc, "raw file loaded with other dimensions" );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t i = 0; i < w * cc; ++i )
                PBT_CHECK( after.d[static_cast<size_t>( y ) * after.row + i] == before.d[static_cast<size_t>( y ) * before.row + i], "raw: value " << i << " of row " << y << " differs" );
        // other dimensions than those of the file
        const uint32_t w2 = s.flag() ? w + 1 + s.u( 0, 3 ) : static_cast<uint32_t>( w + ( 0x100000000ull / std::max( 1u, h * cc ) ) ), h2 = h + s.u( 0, 2 );
        if ( static_cast<uint64_t>( w2 ) * h2 != static_cast<uint64_t>( w ) * h ) {
            bool refused = false;
            try {
                limitMemory = true;
                refused = Raw_Operation::Load<T>( path, w2, h2, cc ).empty();
                limitMemory = false;
            }
            catch ( const std::exception & ) {
                limitMemory = false;
                refused = true;
            }
            PBT_CHECK( refused, "a raw file of " << w << 'x' << h << " was loaded as " << w2 << 'x' << h2 );
        }
        // byte order
        ImageTemplate<T> swapped( image );
        Raw_Operation::LittleEndianToBigEndian( swapped );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t i = 0; i < w * cc; ++i ) {
                T value = before.d[static_cast<size_t>( y ) * before.row + i];
                uint8_t * bytes = reinterpret_cast<uint8_t *>( &value );
                std::reverse( bytes, bytes + sizeof( T ) );
                PBT_CHECK( swapped.data()[static_cast<size_t>( y ) * swapped.rowSize() + i] == value, "byte order of value " << i << " of row " << y );
            }
        Raw_Operation::LittleEndianToBigEndian( swapped );
        PBT_CHECK( snap( swapped ) == before, "swapping bytes twice changes the image" );
        ctx.nontrivial = w * h > 1;
    }

    pbt::Register p16c( "P16", "raw", 2, "images with elements of 1, 2, 4 or 8 bytes saved and loaded as raw file, with the right and with wrong dimensions, and byte order conversion; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            switch ( s.upto( 3 ) ) {
                            case 0:
                                return rawCase<uint8_t>( s, ctx );
                            case 1:
                                return rawCase<uint16_t>( s, ctx );
                            case 2:
                                return rawCase<uint32_t>( s, ctx );
                            default:
                                return rawCase<uint64_t>( s, ctx );
                            }
                        } );

    pbt::Register p16d( "P16", "refusal", 1, "saving to a full device, a missing directory, a directory, a rectangle outside the image, an empty image or of a size the format cannot hold must be refused; non-trivial: always",
                        []( Src & s, Ctx & ctx ) {
                            if ( s.chance( 20 ) ) { // more pixels in a row or column than the format can hold
                                const bool png = s.flag();
                                const uint32_t big = png ? 1000001 + s.u( 0, 9 ) : 65501 + s.u( 0, 9 );
                                Case c;
                                c.wholeImage = true;
                                c.image = s.flag() ? Image( big, 1 ) : Image( 1, big );
                                c.image.fill( 3 );
                                c.before = snap( c.image );
                                PBT_NOTE( ctx, "too big for " << ( png ? "png" : "jpg" ) );
                                ctx.nontrivial = true;
                                const std::string path = file( png ? "big.png" : "big.jpg" );
                                bool thrown = false;
                                try {
                                    callSave( png ? "png" : "jpg", path, c );
                                }
                                catch ( const std::exception & ) {
                                    thrown = true;
                                }
                                if ( !thrown ) { // then it must have worked
                                    Image back;
                                    callLoad( s, png ? "png" : "jpg", path, back );
                                    PBT_CHECK( back.width() == c.image.width() && back.height() == c.image.height(), "an image of too big size is neither refused nor stored" );
                                }
                                return;
                            }
                            refusedSaves( s, ctx, s.flag() ? "png" : "jpg" );
                        } );

    // ---------------------------------------------------------------- P17

    Picture genSmall( Src & s, uint8_t cc )
    {
        Picture p;
        p.w = 1 + s.u( 0, 40 );
        p.h = 1 + s.u( 0, 40 );
        p.cc = cc;
        pbt::Stream r( s.raw( 2 ) );
        const bool noise = s.flag();
        p.d.resize( static_cast<size_t>( p.w ) * p.h * cc );
        for ( size_t i = 0; i < p.d.size(); ++i )
            p.d[i] = static_cast<uint8_t>( noise ? r.next() : i / 3 );
        return p;
    }

    void fixCrc( Bytes & b )
    {
        size_t at = 8;
        while ( at + 12 <= b.size() ) {
            const uint32_t length = ( static_cast<uint32_t>( b[at] ) << 24 ) | ( static_cast<uint32_t>( b[at + 1] ) << 16 ) | ( static_cast<uint32_t>( b[at + 2] ) << 8 ) | b[at + 3];
            if ( length > b.size() || at + 12 + length > b.size() )
                return;
            const uint32_t crc = static_cast<uint32_t>( crc32( 0, b.data() + at + 4, length + 4 ) );
            for ( size_t i = 0; i < 4; ++i )
                b[at + 8 + length + i] = static_cast<uint8_t>( crc >> ( 24 - 8 * i ) );
            at += 12 + length;
        }
    }

    const std::vector<uint64_t> & oddValues()
    {
        static const std::vector<uint64_t> v{ 0,          1,          2,          3,          4,      7,      8,      12,         40,         54,         64,         108,    124,
                                              255,        256,        1023,       1024,       1078,   4096,   65535,  65536,      0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE,
                                              0x40000000, 0x40000001, 0x20000000, 0x55555556, 0x10000000, 0x01000000, 0x00010001, 0xAAAAAAAB, 0x3FFFFFFF, 0xC0000000 };
        return v;
    }

    void mutate( Src & s, Bytes & b, bool header )
    {
        const size_t times = 1 + s.upto( 5 );
        for ( size_t i = 0; i < times; ++i ) {
            if ( b.empty() )
                return;
            const size_t limit = header ? std::min<size_t>( b.size(), 64 ) : b.size();
            const size_t at = s.upto( limit - 1 );
            switch ( s.upto( 7 ) ) {
            case 0:
                b[at] = static_cast<uint8_t>( b[at] ^ ( 1u << s.upto( 7 ) ) );
                break;
            case 1:
                b[at] = s.byte();
                break;
            case 2:
            case 3: { // a field
                const uint64_t v = s.pickFrom( oddValues() );
                const size_t n = s.pick<size_t>( { 4, 2, 1 } );
                const bool big = s.flag();
                for ( size_t k = 0; k < n && at + k < b.size(); ++k )
                    b[at + k] = static_cast<uint8_t>( v >> ( 8 * ( big ? n - 1 - k : k ) ) );
                break;
            }
            case 4:
                b.resize( s.upto( b.size() - 1 ) );
                break;
            case 5: {
                const size_t n = std::min<size_t>( b.size() - at, 1 + s.upto( 30 ) );
                b.erase( b.begin() + static_cast<std::ptrdiff_t>( at ), b.begin() + static_cast<std::ptrdiff_t>( at + n ) );
                break;
            }
            case 6: {
                Bytes extra( 1 + s.upto( 30 ) );
                for ( uint8_t & v : extra )
                    v = s.byte();
                b.insert( b.begin() + static_cast<std::ptrdiff_t>( at ), extra.begin(), extra.end() );
                break;
            }
            default: { // repeat a part
                const size_t n = std::min<size_t>( b.size() - at, 1 + s.upto( 60 ) );
                const Bytes piece( b.begin() + static_cast<std::ptrdiff_t>( at ), b.begin() + static_cast<std::ptrdiff_t>( at + n ) );
                b.insert( b.end(), piece.begin(), piece.end() );
            }
            }
        }
    }

    // bitmaps whose header fields are consistent with the length of the file modulo 2^32
    Bytes wrappedBmp( Src & s )
    {
        const uint32_t bits = s.pick<uint32_t>( { 8, 24, 32 } );
        uint32_t w = s.flag() ? static_cast<uint32_t>( s.pickFrom( oddValues() ) ) : s.u( 0, 0xFFFFFFFEu );
        uint32_t h = s.flag() ? static_cast<uint32_t>( s.pickFrom( oddValues() ) ) : s.u( 0, 0xFFFFFFFEu );
        if ( s.flag() ) { // some times 2^32 bytes and a bit
            h = 1 + s.u( 0, 200 );
            w = static_cast<uint32_t>( ( ( ( 1 + s.upto( 13 ) ) << 32 ) / h ) / ( bits / 8 ) + s.upto( 20 ) );
            if ( s.flag() )
                h = 0u - h;
        }
        uint32_t row = w * ( bits / 8 );
        if ( row % 4 )
            row = ( row / 4 + 1 ) * 4;
        const uint32_t absolute = h & 0x80000000u ? 0u - h : h;
        const uint32_t size = ( row * absolute ) & 0xFFFFu;
        const uint32_t offset = 54 + ( bits == 8 && s.flag() ? 1024 : 0 );
        Bytes b;
        put( b, 0x4D42, 2 );
        put( b, 0, 4 );
        put( b, 0, 4 );
        put( b, offset, 4 );
        put( b, 40, 4 );
        put( b, w, 4 );
        put( b, h, 4 );
        put( b, 1, 2 );
        put( b, bits, 2 );
        put( b, 0, 4 );
        put( b, s.flag() ? row * absolute : 0, 4 );
        for ( int i = 0; i < 16; ++i )
            b.push_back( 0 );
        b.resize( offset + size, 9 );
        return b;
    }

    // The same file gives the same image, whatever memory contained before
    void sameFromFile( const std::string & kind, const std::string & path, bool plenty = false )
    {
        Picture result[2];
        bool refused[2] = { false, false };
        for ( int i = 0; i < 2; ++i ) {
            limitMemory = true;
            plentyOfMemory = plenty;
            fresh = i == 0 ? 0x3C : 0xC3;
            try {
                Image image = kind == "bmp" ? Bitmap_Operation::Load( path ) : kind == "png" ? Png_Operation::Load( path ) : Jpeg_Operation::Load( path );
                limitMemory = plentyOfMemory = false;
                fresh = -1;
                result[i] = whole( image );
            }
            catch ( const std::exception & ) {
                limitMemory = plentyOfMemory = false;
                fresh = -1;
                refused[i] = true;
            }
        }
        PBT_CHECK( refused[0] == refused[1], "a file is refused or loaded depending on the contents of unused memory" );
        PBT_CHECK( result[0] == result[1], "the loaded image depends on the contents of memory before the call" );
    }

    void loadAnything( Src & s, Ctx & ctx, const std::string & kind, const std::string & path, Image & image, bool & loaded )
    {
        loaded = false;
        limitMemory = true;
        try {
            callLoad( s, kind, path, image );
            limitMemory = false;
            loaded = !image.empty();
        }
        catch ( const std::exception & ) {
            limitMemory = false;
            ctx.label( "refused by an exception" );
        }
        catch ( ... ) {
            limitMemory = false;
            pbt::fail( "an exception which is not a standard one" );
        }
        whole( image );
        if ( loaded )
            ctx.label( "loaded" );
        if ( s.chance( 60 ) )
            sameFromFile( kind, path );
        if ( s.chance( 40 ) )
            leakCheck( ctx, [&] {
                if ( kind == "bmp" )
                    Bitmap_Operation::Load( path );
                else if ( kind == "png" )
                    Png_Operation::Load( path );
                else
                    Jpeg_Operation::Load( path );
            } );
    }

    // Loading something valid must work in any state the library was left in
    void loadValid( Src & s, Ctx & ctx, const std::string & kind, Image & image )
    {
        Picture want, alternative;
        int slack = 0;
        Ctx silent;
        const std::string path = file( "valid." + kind );
        if ( kind == "bmp" )
            spill( path, genBmp( s, silent, want, alternative, 300 ) );
        else if ( kind == "png" )
            spill( path, genPng( s, silent, want, slack, 300 ) );
        else {
            Outcome direct;
            const Bytes b = writeJpeg( genSmall( s, s.flag() ? 1 : 3 ), 90, 0 );
            readJpeg( b, direct );
            want = direct.picture;
            spill( path, b );
        }
        callLoad( s, kind, path, image );
        PBT_CHECK( !image.empty(), "a valid file does not load after another one" );
        const Picture got = whole( image );
        PBT_CHECK( got.w == want.w && got.h == want.h, "a valid file loads with wrong size after another one" );
        (void)ctx;
    }

    pbt::Register p17a( "P17", "mutated", 8,
                        "valid bitmaps, PNG and JPEG files of all kinds with 1 to 6 mutations (bits, fields, truncation, insertion, deletion, repetition; PNG checksums mostly repaired), loaded by right and wrong module, followed by a "
                        "valid file; non-trivial: the file begins like the right format",
                        []( Src & s, Ctx & ctx ) {
                            const std::string kind = s.pick<const char *>( { "bmp", "png", "jpg" } );
                            Bytes b;
                            Picture want, alternative;
                            int slack;
                            if ( kind == "bmp" )
                                b = genBmp( s, ctx, want, alternative, 1000 );
                            else if ( kind == "png" )
                                b = genPng( s, ctx, want, slack, 800 );
                            else
                                b = writeJpeg( genSmall( s, s.pick<uint8_t>( { 1, 3, 4 } ) ), 1 + static_cast<int>( s.upto( 99 ) ), static_cast<uint32_t>( s.upto( 15 ) ) );
                            mutate( s, b, s.flag() );
                            if ( kind == "png" && !s.chance( 40 ) )
                                fixCrc( b );
                            const std::string path = file( "m." + std::string( s.chance( 20 ) ? s.pick<const char *>( { "bmp", "png", "jpg" } ) : kind.c_str() ) );
                            PBT_NOTE( ctx, kind << " of " << b.size() << " bytes as " << path.substr( path.rfind( '/' ) + 1 ) << "; " );
                            spill( path, b );
                            ctx.nontrivial = b.size() > 10 && ( kind != "bmp" || b[0] == 'B' );
                            Image image;
                            bool loaded;
                            loadAnything( s, ctx, s.chance( 20 ) ? s.pick<const char *>( { "bmp", "png", "jpg" } ) : kind, path, image, loaded );
                            if ( s.chance( 128 ) )
                                loadValid( s, ctx, kind, image );
                        },
                        20 );

    pbt::Register p17b( "P17", "random", 2, "random bytes, often after the signature of a format, missing, empty files and directories, loaded as every format; non-trivial: more than 16 bytes", []( Src & s, Ctx & ctx ) {
        const std::string kind = s.pick<const char *>( { "bmp", "png", "jpg" } );
        Bytes b( s.flag() ? s.upto( 40 ) : s.upto( 3000 ) );
        if ( b.size() <= 200 )
            for ( uint8_t & v : b )
                v = s.byte();
        else {
            pbt::Stream r( s.raw( 3 ) );
            for ( uint8_t & v : b )
                v = static_cast<uint8_t>( r.next() );
        }
        if ( s.flag() ) {
            const Bytes magic = kind == "bmp" ? Bytes{ 'B', 'M' } : ( kind == "png" ? Bytes{ 0x89, 'P', 'N', 'G', 13, 10, 26, 10, 0, 0, 0, 13, 'I', 'H', 'D', 'R' } : Bytes{ 0xFF, 0xD8, 0xFF, 0xE0 } );
            b.insert( b.begin(), magic.begin(), magic.end() );
        }
        ctx.nontrivial = b.size() > 16;
        std::string path = file( "r." + kind );
        switch ( s.upto( 7 ) ) {
        case 0:
            path = file( "missing." + kind );
            break;
        case 1:
            path = file( "dir." + kind );
            mkdir( path.c_str(), 0700 );
            break;
        case 2:
            path = "";
            break;
        default:
            spill( path, b );
        }
        PBT_NOTE( ctx, b.size() << " bytes as '" << path << "'; " );
        Image image;
        bool loaded;
        loadAnything( s, ctx, kind, path, image, loaded );
        if ( s.flag() )
            loadValid( s, ctx, kind, image );
        // raw files of the same contents with any dimensions
        const uint32_t w = s.flag() ? s.u( 0, 60 ) : s.u( 0, 0xFFFFFFFEu ), h = s.flag() ? s.u( 0, 60 ) : s.u( 0, 0xFFFFFFFEu );
        const uint8_t cc = s.flag() ? 1 : s.byte();
        PBT_NOTE( ctx, "raw " << w << 'x' << h << 'x' << int( cc ) << "; " );
        limitMemory = true;
        try {
            penguinV::Image raw8 = Raw_Operation::Load<uint8_t>( path, w, h, cc );
            penguinV::Image16Bit raw16 = Raw_Operation::Load<uint16_t>( path, w, h, cc );
            limitMemory = false;
            whole( raw8 );
            snap( raw16 );
        }
        catch ( const std::exception & ) {
            limitMemory = false;
        }
    } );

    pbt::Register p17c( "P17", "wrapped", 2, "bitmaps with huge dimensions whose data size modulo 2^32 or 2^16 is that of the file; raw files likewise; non-trivial: always", []( Src & s, Ctx & ctx ) {
        ctx.nontrivial = true;
        const Bytes b = wrappedBmp( s );
        const std::string path = file( "w.bmp" );
        spill( path, b );
        PBT_NOTE( ctx, "bitmap with width " << get( b, 18, 4 ) << " height " << get( b, 22, 4 ) << " bits " << get( b, 28, 2 ) << " of " << b.size() << " bytes; " );
        Image image;
        bool loaded = false;
        limitMemory = plentyOfMemory = true;
        try {
            image = Bitmap_Operation::Load( path );
            loaded = !image.empty();
        }
        catch ( const std::exception & ) {
        }
        limitMemory = plentyOfMemory = false;
        if ( loaded )
            PBT_CHECK( static_cast<uint64_t>( image.rowSize() ) * image.height() <= 4 * b.size() + 64, "an image of " << image.width() << 'x' << image.height() << " was loaded from a file of " << b.size() << " bytes" );
        // width * height * channels == size of the file modulo 2^32
        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } );
        const uint32_t h = 1 + s.u( 0, 200 ), unit = h * cc;
        const uint64_t wrap = ( 1 + s.upto( 13 ) ) << 32;
        const uint64_t w = ( wrap + unit - 1 ) / unit + s.upto( 20 );
        if ( w * cc > 0xFFFFFFFFull )
            return;
        const uint64_t size = w * unit - wrap;
        if ( size == 0 )
            return;
        spill( path, Bytes( static_cast<size_t>( size ), 7 ) );
        PBT_NOTE( ctx, "raw image " << w << 'x' << h << 'x' << int( cc ) << " from " << size << " bytes; " );
        bool refused = false;
        limitMemory = plentyOfMemory = true;
        try {
            refused = Raw_Operation::Load<uint8_t>( path, static_cast<uint32_t>( w ), h, cc ).empty();
        }
        catch ( const std::exception & ) {
            refused = true;
        }
        limitMemory = plentyOfMemory = false;
        PBT_CHECK( refused, "a raw image of " << w << 'x' << h << 'x' << int( cc ) << " was loaded from " << size << " bytes" );
    } );

    // Headers which are wrong by little, in files whose size fits
    pbt::Register p17d( "P17", "headers", 3, "small bitmaps with one or two header fields off by little or of another kind, with the amount of data they ask for; non-trivial: always", []( Src & s, Ctx & ctx ) {
        ctx.nontrivial = true;
        uint32_t w = s.u( 0, 12 ), h = s.u( 0, 12 ), planes = 1, bits = s.pick<uint32_t>( { 8, 24, 32 } ), dib = s.pick<uint32_t>( { 40, 12 } ), compression = 0, sizeImage = 0, length = 0;
        const uint32_t declared = bits == 8 && s.flag() ? 1024 : 0;
        uint32_t offset = 14 + dib + declared;
        const uint32_t dibRead = dib;
        const size_t times = s.upto( 2 );
        bool zero = false;
        int more = 0;
        for ( size_t i = 0; i < times; ++i )
            switch ( s.upto( 8 ) ) {
            case 0:
                offset = s.u( 0, 14 + dib + declared + 8 );
                break;
            case 1:
                bits = s.u( 0, 40 );
                break;
            case 2:
                planes = s.u( 0, 3 );
                break;
            case 3:
                dib = s.u( 0, 130 );
                break;
            case 4:
                sizeImage = s.u( 1, 700 );
                break;
            case 5:
                compression = s.u( 0, 4 );
                break;
            case 6:
                more = static_cast<int>( s.upto( 8 ) ) - 4;
                break;
            case 7:
                w = 0u - w;
                break;
            default:
                h = 0u - h;
            }
        zero = s.chance( 20 );
        const uint32_t absoluteW = w & 0x80000000u ? 0u - w : w, absoluteH = h & 0x80000000u ? 0u - h : h;
        const uint32_t row = ( absoluteW * bits / 8 + 3 ) / 4 * 4;
        length = zero ? offset : offset + row * absoluteH;
        Bytes b;
        put( b, 0x4D42, 2 );
        put( b, length, 4 );
        put( b, 0, 4 );
        put( b, offset, 4 );
        put( b, dib, 4 );
        if ( dibRead == 12 ) {
            put( b, w & 0xFFFF, 2 );
            put( b, h & 0xFFFF, 2 );
            put( b, planes, 2 );
            put( b, bits, 2 );
        }
        else {
            put( b, w, 4 );
            put( b, h, 4 );
            put( b, planes, 2 );
            put( b, bits, 2 );
            put( b, compression, 4 );
            put( b, sizeImage, 4 );
            for ( int i = 0; i < 16; ++i )
                b.push_back( 0 );
        }
        pbt::Stream r( s.raw( 2 ) );
        while ( b.size() < length )
            b.push_back( static_cast<uint8_t>( r.next() ) );
        b.resize( static_cast<size_t>( std::max( 0, static_cast<int>( length ) + more ) ) );
        PBT_NOTE( ctx, "bitmap " << static_cast<int32_t>( w ) << 'x' << static_cast<int32_t>( h ) << " bits " << bits << " planes " << planes << " header " << dib << " offset " << offset << ", " << b.size() << " bytes; " );
        const std::string path = file( "h.bmp" );
        spill( path, b );
        Image image;
        bool loaded;
        loadAnything( s, ctx, "bmp", path, image, loaded );
        if ( loaded )
            PBT_CHECK( static_cast<uint64_t>( image.width() ) * image.height() <= b.size(), "an image of " << image.width() << 'x' << image.height() << " was loaded from a file of " << b.size() << " bytes" );
        sameFromFile( "bmp", path, s.flag() );
    } );

    // ---------------------------------------------------------------- P18

    pbt::Register p18a( "P18", "bmp", 3,
                        "bitmaps of an independent writer: 12 or 40 byte header, 8 bits with gray or color palettes of 1 to 256 entries, 24 or 32 bits, both row orders, gaps, odd padding and sizes; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            Picture want, alternative;
                            const Bytes b = genBmp( s, ctx, want, alternative );
                            const std::string path = file( "f.bmp" );
                            spill( path, b );
                            Image image;
                            callLoad( s, "bmp", path, image );
                            PBT_CHECK( !image.empty(), "a well-formed bitmap is not loaded" );
                            const Picture got = whole( image );
                            if ( !( got == alternative ) )
                                same( got, want, "bitmap" );
                            ctx.nontrivial = want.w * want.h > 1;
                        } );

    pbt::Register p18b( "P18", "png", 3,
                        "PNG files of an independent encoder: all color types and bit depths, filters, interlacing, palettes, transparency, split data, other chunks; non-trivial: more than one pixel", []( Src & s, Ctx & ctx ) {
                            Picture want;
                            int slack = 0;
                            const Bytes b = genPng( s, ctx, want, slack );
                            const std::string path = file( "f.png" );
                            spill( path, b );
                            Image image;
                            callLoad( s, "png", path, image );
                            PBT_CHECK( !image.empty(), "a well-formed PNG is not loaded" );
                            const Picture got = whole( image );
                            if ( slack == 0 || got.d.size() != want.d.size() || distance( got, want ) > slack )
                                same( got, want, "PNG" );
                            ctx.nontrivial = want.w * want.h > 1;
                        } );

    pbt::Register p18c( "P18", "jpeg", 1, "JPEG files written by libjpeg: gray, color, CMYK, progressive, subsampled or not, restart markers; decoded by libjpeg directly; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            const Picture p = genSmall( s, s.pick<uint8_t>( { 3, 1, 4 } ) );
                            const Bytes b = writeJpeg( p, 1 + static_cast<int>( s.upto( 99 ) ), static_cast<uint32_t>( s.upto( 15 ) ) );
                            PBT_NOTE( ctx, "JPEG " << show( p ) << "; " );
                            Outcome direct;
                            readJpeg( b, direct );
                            PBT_CHECK( direct.ok, "harness: own JPEG" );
                            const std::string path = file( "f.jpg" );
                            spill( path, b );
                            Image image;
                            callLoad( s, "jpg", path, image );
                            PBT_CHECK( !image.empty(), "a well-formed JPEG is not loaded" );
                            same( whole( image ), direct.picture, "JPEG" );
                            ctx.nontrivial = p.w * p.h > 1;
                        } );
}
