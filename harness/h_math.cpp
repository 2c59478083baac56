// Numeric tools: Gaussian kernel, Fourier and Haar transforms, automatic threshold, Hough transform, geometry, linear systems, light correction
#include "fft.h"
#include "filtering.h"
#include "image_function.h"
#include "img.h"
#include "math/haar_transform.h"
#include "math/hough_transform.h"
#include "math/math_base.h"
#include "tool/light_correction.h"
#include <atomic>
#include <cfloat>
#include <complex>
#include <list>
#include <limits>
#include <map>
#include <memory>
#include <new>

namespace
{
    // Blocks of any demanded size above this limit do not exist, so that a demand for gigabytes is a bad_alloc
    const size_t MEMORY_LIMIT = 256u << 20;
    std::atomic<int64_t> live( 0 );
}

void * operator new( size_t size )
{
    if ( size > MEMORY_LIMIT )
        throw std::bad_alloc();
    void * p = std::malloc( size ? size : 1 );
    if ( p == nullptr )
        throw std::bad_alloc();
    ++live;
    return p;
}
void * operator new[]( size_t size )
{
    return operator new( size );
}
void * operator new( size_t size, const std::nothrow_t & ) noexcept
{
    try {
        return operator new( size );
    }
    catch ( ... ) {
        return nullptr;
    }
}
void * operator new[]( size_t size, const std::nothrow_t & ) noexcept
{
    return operator new( size, std::nothrow );
}
void operator delete( void * p ) noexcept
{
    if ( p != nullptr )
        --live;
    std::free( p );
}
void operator delete[]( void * p ) noexcept
{
    operator delete( p );
}
void operator delete( void * p, size_t ) noexcept
{
    operator delete( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    operator delete( p );
}
void operator delete( void * p, const std::nothrow_t & ) noexcept
{
    operator delete( p );
}
void operator delete[]( void * p, const std::nothrow_t & ) noexcept
{
    operator delete( p );
}

using namespace hv;

namespace
{
    typedef long double real;

    template <typename F>
    bool refused( F f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return true;
        }
        catch ( const std::bad_alloc & ) {
            return true;
        }
        catch ( const std::length_error & ) {
            return true;
        }
        return false;
    }

    // ------------------------------------------------------------------------------------------------ Gaussian kernel

    std::vector<float> staleFloats( Src & s )
    {
        return std::vector<float>( s.pick<size_t>( { 0, 1, 9, 100, 5000 } ), s.pick<float>( { 0, 7, -1, std::numeric_limits<float>::quiet_NaN() } ) );
    }

    pbt::Register p23( "P23", "kernel", 4, "sizes, kernel sizes and sigma of any magnitude; non-trivial: kernel with different values", []( Src & s, Ctx & ctx ) {
        const uint32_t limit = s.chance( 8 ) ? 300 : s.flag() ? 8 : 40;
        const uint32_t w = 3 + static_cast<uint32_t>( s.upto( limit ) ), h = 3 + static_cast<uint32_t>( s.upto( limit ) );
        const uint32_t most = ( std::min( w, h ) - 1 ) / 2;
        const uint32_t k = s.chance( 60 ) ? most : 1 + static_cast<uint32_t>( s.upto( most - 1 ) );
        float sigma;
        switch ( s.upto( 5 ) ) {
        case 0:
            sigma = s.pick<float>( { 1, 0.5f, 1.4f, 2, 3, 10, 0.1f, 50 } );
            break;
        case 1:
        case 2:
            sigma = static_cast<float>( 0.05 + 20 * s.unit() );
            break;
        case 3:
            sigma = static_cast<float>( ( 0.1 + 0.9 * s.unit() ) * k * k );
            break;
        case 4:
            sigma = static_cast<float>( ( 1 + s.unit() ) * std::pow( 2.0, static_cast<double>( s.range( -147, 126 ) ) ) );
            break;
        default:
            sigma = s.pick<float>( { FLT_MIN, FLT_MAX, std::numeric_limits<float>::denorm_min(), FLT_MAX / 2, 1e-10f, 1e10f, 1e-30f, 1e30f, 1e-38f } );
            break;
        }
        PBT_NOTE( ctx, w << 'x' << h << ", kernel " << k << ", sigma " << sigma << '\n' );
        std::vector<float> filter = staleFloats( s );
        Image_Function::GetGaussianKernel( filter, w, h, k, sigma );
        PBT_CHECK( filter.size() == static_cast<size_t>( w ) * h, "filter has " << filter.size() << " elements" );
        const int64_t cx = w / 2, cy = h / 2, half = k;
        real sum = 0;
        for ( int64_t y = -half; y <= half; ++y )
            for ( int64_t x = -half; x <= half; ++x )
                sum += std::exp( -static_cast<real>( x * x + y * y ) / ( 2 * static_cast<real>( sigma ) ) );
        real total = 0;
        const double tolerance = 1e-5 + 1e-7 * ( 2 * half + 1 ) * ( 2 * half + 1 );
        auto like = []( float a, float b ) { return std::fabs( a - b ) <= 1e-6f * b + 1e-37f; };
        auto at = [&]( int64_t x, int64_t y ) { return filter[static_cast<size_t>( ( cy + y ) * w + cx + x )]; };
        for ( int64_t y = -cy; y < static_cast<int64_t>( h ) - cy; ++y )
            for ( int64_t x = -cx; x < static_cast<int64_t>( w ) - cx; ++x ) {
                const float v = at( x, y );
                if ( x < -half || x > half || y < -half || y > half ) {
                    PBT_CHECK( v == 0, "element (" << x << ", " << y << ") from the center is " << v << " out of the kernel" );
                    continue;
                }
                total += v;
                const real expected = std::exp( -static_cast<real>( x * x + y * y ) / ( 2 * static_cast<real>( sigma ) ) ) / sum;
                PBT_CHECK( v >= 0, "element (" << x << ", " << y << ") from the center is " << v );
                PBT_CHECK( std::fabs( v - expected ) <= expected * tolerance * 2 + 1e-30, "element (" << x << ", " << y << ") from the center is " << v << " instead of " << expected );
                PBT_CHECK( like( at( -x, y ), v ) && like( at( x, -y ), v ) && like( at( -x, -y ), v ) && like( at( y, x ), v ), "the kernel is not symmetric at (" << x << ", " << y << ") from the center" );
            }
        PBT_CHECK( std::fabs( total - 1 ) <= tolerance, "sum of the kernel is " << total );
        ctx.nontrivial = at( 0, 0 ) != at( 1, 0 );
        if ( sigma < 1e-3f || sigma > 1e6f )
            ctx.label( "extreme sigma" );
    } );

    pbt::Register p23b( "P23", "refusal", 1, "valid calls broken in one way; non-trivial: always", []( Src & s, Ctx & ctx ) {
        ctx.nontrivial = true;
        uint32_t w = 3 + static_cast<uint32_t>( s.upto( 20 ) ), h = 3 + static_cast<uint32_t>( s.upto( 20 ) ), k = 1;
        float sigma = 1;
        switch ( s.upto( 6 ) ) {
        case 0:
            sigma = s.pick<float>( { 0.0f, -0.0f, -1.0f, -FLT_MIN, -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), -FLT_MAX } );
            break;
        case 1:
            ( s.flag() ? w : h ) = static_cast<uint32_t>( s.upto( 2 ) );
            break;
        case 2:
            k = 0;
            break;
        case 3:
            k = ( std::min( w, h ) + 1 ) / 2 + static_cast<uint32_t>( s.upto( 10 ) );
            break;
        case 4: // twice the size plus one does not fit into 32 bits
            k = s.pick<uint32_t>( { 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0x80000002u } );
            break;
        case 5: // number of elements does not fit into 32 bits (and into memory)
            w = 65536u + static_cast<uint32_t>( s.upto( 3 ) );
            h = 65536u + static_cast<uint32_t>( s.upto( 3 ) );
            break;
        default:
            ( s.flag() ? w : h ) = s.flag() ? 0xFFFFFFFFu : 0x80000000u;
            k = 1 + static_cast<uint32_t>( s.upto( 1 ) );
            break;
        }
        PBT_NOTE( ctx, w << 'x' << h << ", kernel " << k << ", sigma " << sigma << '\n' );
        std::vector<float> filter = staleFloats( s );
        PBT_CHECK( refused( [&] { Image_Function::GetGaussianKernel( filter, w, h, k, sigma ); } ), "the call is not refused" );
    } );

    // ------------------------------------------------------------------------------------------------ Fourier transform

    typedef FFT::BaseComplexData<kiss_fft_cpx> Base;
    typedef std::complex<double> cpx;

    // anything of the size of data
    struct Field
    {
        uint32_t w = 0, h = 0;
        std::vector<cpx> v;
        double norm() const
        {
            double n = 0;
            for ( const cpx & c : v )
                n += std::norm( c );
            return std::sqrt( n );
        }
    };

    Field genField( Src & s, uint32_t w, uint32_t h )
    {
        Field f;
        f.w = w;
        f.h = h;
        f.v.resize( static_cast<size_t>( w ) * h );
        const uint32_t kind = static_cast<uint32_t>( s.upto( 4 ) );
        const double scale = s.pick<double>( { 1, 255, 1e-3, 1e5, 1e-12, 1e12 } );
        if ( kind == 0 ) { // impulse
            f.v[s.upto( f.v.size() - 1 )] = cpx( static_cast<float>( scale ), 0 );
            return f;
        }
        if ( kind == 1 && f.v.size() <= 64 ) {
            for ( cpx & c : f.v )
                c = cpx( ( static_cast<int>( s.byte() ) - 128 ) * scale / 128, s.flag() ? ( static_cast<int>( s.byte() ) - 128 ) * scale / 128 : 0.0 );
        }
        else {
            pbt::Stream r( s.raw( 3 ) );
            for ( cpx & c : f.v )
                c = cpx( ( r.below( 20001 ) / 10000.0 - 1 ) * scale, kind == 2 ? 0 : ( r.below( 20001 ) / 10000.0 - 1 ) * scale );
        }
        for ( cpx & c : f.v )
            c = cpx( static_cast<float>( c.real() ), static_cast<float>( c.imag() ) );
        return f;
    }

    // row-column transform by definition
    Field dft( const Field & f, bool inverse )
    {
        Field rows = f, out = f;
        const double sign = inverse ? 2 : -2;
        auto table = [&]( uint32_t n ) {
            std::vector<cpx> t( n );
            for ( uint32_t i = 0; i < n; ++i )
                t[i] = std::polar( 1.0, sign * pvmath::pi * i / n );
            return t;
        };
        const std::vector<cpx> tw = table( f.w ), th = table( f.h );
        for ( uint32_t y = 0; y < f.h; ++y )
            for ( uint32_t u = 0; u < f.w; ++u ) {
                cpx sum = 0;
                for ( uint32_t x = 0; x < f.w; ++x )
                    sum += f.v[static_cast<size_t>( y ) * f.w + x] * tw[static_cast<uint64_t>( u ) * x % f.w];
                rows.v[static_cast<size_t>( y ) * f.w + u] = sum;
            }
        for ( uint32_t u = 0; u < f.w; ++u )
            for ( uint32_t v = 0; v < f.h; ++v ) {
                cpx sum = 0;
                for ( uint32_t y = 0; y < f.h; ++y )
                    sum += rows.v[static_cast<size_t>( y ) * f.w + u] * th[static_cast<uint64_t>( v ) * y % f.h];
                out.v[static_cast<size_t>( v ) * f.w + u] = sum;
            }
        return out;
    }

    void put( Base & data, const Field & f )
    {
        data.resize( f.w, f.h );
        PBT_CHECK( data.width() == f.w && data.height() == f.h && !data.empty(), "resize gives " << data.width() << 'x' << data.height() );
        for ( size_t i = 0; i < f.v.size(); ++i ) {
            data.data()[i].r = static_cast<float>( f.v[i].real() );
            data.data()[i].i = static_cast<float>( f.v[i].imag() );
        }
    }

    void compareField( const Base & data, const Field & f, double tolerance, const std::string & what )
    {
        PBT_CHECK( data.width() == f.w && data.height() == f.h, what << ": size is " << data.width() << 'x' << data.height() << " instead of " << f.w << 'x' << f.h );
        PBT_CHECK( data.empty() == f.v.empty(), what << ": data is " << ( data.empty() ? "" : "not " ) << "empty" );
        for ( size_t i = 0; i < f.v.size(); ++i ) {
            const cpx c( data.data()[i].r, data.data()[i].i );
            PBT_CHECK( std::abs( c - f.v[i] ) <= tolerance + ( tolerance > 0 ? 5e-6 * std::abs( f.v[i] ) : 0 ), what << ": element (" << i % f.w << ", " << i / f.w << ") is " << c << " instead of " << f.v[i] );
        }
    }

    void genFftSize( Src & s, uint32_t & w, uint32_t & h, uint32_t area = 1500 )
    {
        auto side = [&s] {
            switch ( s.upto( 3 ) ) {
            case 0:
                return 1 + static_cast<uint32_t>( s.upto( 7 ) );
            case 1:
                return s.pick<uint32_t>( { 8, 16, 32, 64, 2, 4, 9, 12, 15, 20, 25, 27, 30, 36, 45, 60, 100, 128 } );
            case 2:
                return s.pick<uint32_t>( { 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 97, 101, 49, 77 } );
            default:
                return 1 + static_cast<uint32_t>( s.upto( 63 ) );
            }
        };
        w = side();
        h = s.chance( 60 ) ? w : side();
        if ( area >= 1000 && s.chance( 2 ) ) { // long sides
            w = s.pick<uint32_t>( { 192, 243, 255, 256, 257, 333, 509, 512, 625, 640, 1000, 1021, 1024, 1280, 2048, 4096 } );
            h = s.chance( 10 ) ? s.pick<uint32_t>( { 256, 257, 100, 243 } ) : 1 + static_cast<uint32_t>( s.upto( 3 ) );
            if ( w > 650 && h > 4 )
                h = 4;
            if ( s.flag() )
                std::swap( w, h );
            return;
        }
        if ( w * h > area ) {
            ( s.flag() ? w : h ) = std::max( 1u, area / std::max( w, h ) );
            if ( w * h > area )
                w = h = static_cast<uint32_t>( std::sqrt( area ) );
        }
    }

    // an executor which might have been used for other sizes before
    void prepare( Src & s, FFT::FFTExecutor & executor, uint32_t w, uint32_t h )
    {
        if ( s.chance( 60 ) ) {
            uint32_t a, b;
            genFftSize( s, a, b, 200 );
            executor.initialize( a, b );
            if ( s.flag() ) {
                FFT::ComplexData d;
                put( d, genField( s, a, b ) );
                executor.directTransform( d );
            }
        }
        if ( executor.width() != w || executor.height() != h || s.flag() )
            executor.initialize( w, h );
        PBT_CHECK( executor.width() == w && executor.height() == h, "executor has the size of " << executor.width() << 'x' << executor.height() );
    }

    // Rounding errors of one side of a transform relative to the norm: a prime factor means a sum of as many terms in single precision
    double roundingOf( uint32_t side )
    {
        double error = 0;
        for ( uint32_t p = 2; side > 1; ++p )
            for ( ; side % p == 0; side /= p )
                error += p > 100 ? 6e-8 * p : 0;
        return error;
    }

    const char * FFT_RULE = "square and other sizes, even, odd, prime and one, data of many magnitudes, in place and not; non-trivial: both sides above one";

    pbt::Register p24( "P24", "transforms", 4, FFT_RULE, []( Src & s, Ctx & ctx ) {
        uint32_t w, h;
        genFftSize( s, w, h );
        const Field f = genField( s, w, h );
        const bool inverse = s.flag(), inPlace = s.flag();
        ctx.nontrivial = w > 1 && h > 1;
        ctx.label( w == h ? "square" : "not square" );
        PBT_NOTE( ctx, ( inverse ? "inverse" : "direct" ) << " transform of " << w << 'x' << h << ( inPlace ? " in place" : "" ) << '\n' );
        FFT::FFTExecutor executor( s.flag() ? w : 3, s.flag() ? h : 5 );
        prepare( s, executor, w, h );
        FFT::ComplexData in, out;
        put( in, f );
        put( out, f );
        for ( size_t i = 0; i < f.v.size(); ++i )
            out.data()[i].r = out.data()[i].i = 1e30f;
        FFT::ComplexData & result = inPlace ? in : out;
        if ( inverse ) {
            if ( inPlace && s.flag() )
                executor.inverseTransform( in );
            else
                executor.inverseTransform( in, result );
        }
        else {
            if ( inPlace && s.flag() )
                executor.directTransform( in );
            else
                executor.directTransform( in, result );
        }
        const double rounding = roundingOf( w ) + roundingOf( h ), tolerance = ( 2e-5 + rounding ) * f.norm();
        compareField( result, dft( f, inverse ), tolerance, "transform" );
        if ( !inPlace )
            compareField( in, f, 0, "input" );
        // there and back
        if ( inverse )
            executor.directTransform( result );
        else
            executor.inverseTransform( result );
        Field back = f;
        for ( cpx & c : back.v )
            c *= static_cast<double>( f.v.size() );
        compareField( result, back, tolerance * std::sqrt( static_cast<double>( f.v.size() ) ) + ( 2e-6 + 2 * rounding ) * f.norm() * static_cast<double>( f.v.size() ), "there and back" );
    } );

    pbt::Register p24b( "P24", "images", 2, FFT_RULE, []( Src & s, Ctx & ctx ) {
        uint32_t w, h;
        genFftSize( s, w, h, 4000 );
        if ( s.chance( 2 ) ) { // more than 16 bits of positions, or of coordinates
            w = s.pick<uint32_t>( { 256, 300, 65536, 1024, 70000 } );
            h = w > 60000 ? 1 + static_cast<uint32_t>( s.upto( 1 ) ) : 64 * static_cast<uint32_t>( 1 + s.upto( 3 ) ) + 16;
            if ( s.flag() )
                std::swap( w, h );
        }
        const Image image = genImage( s, w, h, 1, genAlignment( s ) );
        ctx.nontrivial = w > 1 && h > 1;
        PBT_NOTE( ctx, "image " << show( snap( image ) ) << '\n' );
        const Snap before = snap( image );
        FFT::ComplexData data;
        if ( s.flag() )
            put( data, genField( s, 3, 2 ) );
        data.set( image );
        PBT_CHECK( snap( image ) == before, "the image was changed" );
        Field f;
        f.w = w;
        f.h = h;
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x )
                f.v.push_back( before.at( x, y ) );
        compareField( data, f, 0, "converted image" );
        const FFT::ComplexData made( image );
        compareField( made, f, 0, "data made of the image" );
        FFT::FFTExecutor executor( w, h );
        executor.directTransform( data );
        executor.inverseTransform( data );
        const Image back = data.get();
        PBT_CHECK( back.width() == w && back.height() == h && back.colorCount() == 1, "the returned image is " << show( snap( back ), 0 ) );
        // any placement in which the origin is moved to the middle
        bool good = false;
        std::string why;
        for ( uint32_t sx = w / 2; sx <= ( w + 1 ) / 2 && !good; ++sx )
            for ( uint32_t sy = h / 2; sy <= ( h + 1 ) / 2 && !good; ++sy ) {
                good = true;
                for ( uint32_t y = 0; y < h && good; ++y )
                    for ( uint32_t x = 0; x < w && good; ++x ) {
                        const uint8_t v = back.data()[static_cast<size_t>( ( y + sy ) % h ) * back.rowSize() + ( x + sx ) % w];
                        if ( v != before.at( x, y ) ) {
                            good = false;
                            std::ostringstream o;
                            o << "pixel (" << x << ", " << y << ") is " << int( v ) << " at its place instead of " << int( before.at( x, y ) );
                            why = o.str();
                        }
                    }
            }
        PBT_CHECK( good, "the image after both transforms is not the image with exchanged quadrants: " << why );
    } );

    pbt::Register p24c( "P24", "multiplication", 3, "products with every aliasing choice, convolution theorem; non-trivial: the output is an input", []( Src & s, Ctx & ctx ) {
        uint32_t w, h;
        genFftSize( s, w, h, 256 );
        const Field a = genField( s, w, h ), b = genField( s, w, h );
        const uint32_t alias = static_cast<uint32_t>( s.upto( 4 ) );
        static const char * names[] = { "separate", "out is the first", "out is the second", "all the same", "equal inputs" };
        ctx.nontrivial = alias != 0;
        ctx.label( names[alias] );
        PBT_NOTE( ctx, w << 'x' << h << ", " << names[alias] << '\n' );
        FFT::FFTExecutor executor( w, h );
        FFT::ComplexData d1, d2, d3;
        put( d1, a );
        put( d2, b );
        put( d3, b );
        const Field & second = alias >= 3 ? a : b;
        FFT::ComplexData & in2 = alias >= 3 ? d1 : d2;
        FFT::ComplexData & out = alias == 0 || alias == 4 ? d3 : alias == 2 ? d2 : d1;
        Field product = a;
        double most = 0;
        for ( size_t i = 0; i < a.v.size(); ++i ) {
            product.v[i] = a.v[i] * second.v[i];
            most = std::max( most, std::abs( product.v[i] ) );
        }
        executor.complexMultiplication( d1, in2, out );
        compareField( out, product, 1e-6 * most + 1e-37, "product" );
        if ( alias == 0 || alias == 2 || alias == 4 )
            compareField( d1, a, 0, "the first input" );
        if ( alias == 0 || alias == 1 )
            compareField( d2, b, 0, "the second input" );
        if ( !s.flag() )
            return;
        // product in the frequency domain is the circular convolution
        put( d1, a );
        put( d2, b );
        executor.directTransform( d1 );
        executor.directTransform( d2 );
        FFT::ComplexData & result = s.flag() ? d1 : d2;
        executor.complexMultiplication( d1, d2, result );
        executor.inverseTransform( result );
        Field convolution = a;
        const double n = static_cast<double>( a.v.size() );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x ) {
                cpx sum = 0;
                for ( uint32_t v = 0; v < h; ++v )
                    for ( uint32_t u = 0; u < w; ++u )
                        sum += a.v[v * w + u] * b.v[( y + h - v ) % h * w + ( x + w - u ) % w];
                convolution.v[y * w + x] = sum * n;
            }
        compareField( result, convolution, 1e-4 * n * a.norm() * b.norm() + 1e-30, "convolution" );
    } );

    // histories of complex data
    struct Model
    {
        Field f;
        bool unknown = false; // contents
    };

    void compareModel( const FFT::ComplexData & d, const Model & m, const std::string & what )
    {
        if ( m.unknown ) {
            PBT_CHECK( d.width() == m.f.w && d.height() == m.f.h && !d.empty(), what << ": size is " << d.width() << 'x' << d.height() );
            return;
        }
        compareField( d, m.f, 0, what );
    }

    pbt::Register p24d( "P24", "data", 3, "histories of creation, copy, move, resize and refused calls; non-trivial: three steps or more", []( Src & s, Ctx & ctx ) {
        const int64_t liveBefore = live;
        {
            std::vector<std::unique_ptr<FFT::ComplexData>> d;
            std::vector<Model> m;
            for ( int i = 0; i < 3; ++i ) {
                d.emplace_back( new FFT::ComplexData );
                m.emplace_back();
            }
            auto small = [&s] { return 1 + static_cast<uint32_t>( s.upto( 8 ) ); };
            const uint32_t steps = 1 + static_cast<uint32_t>( s.upto( 14 ) );
            ctx.nontrivial = steps >= 3;
            for ( uint32_t step = 0; step < steps; ++step ) {
                const size_t i = s.upto( 2 ), j = s.upto( 2 );
                const uint32_t kind = static_cast<uint32_t>( s.upto( 10 ) );
                PBT_NOTE( ctx, "step " << kind << " of " << i << " and " << j << '\n' );
                switch ( kind ) {
                case 0:
                case 1: {
                    m[i].f = genField( s, small(), small() );
                    m[i].unknown = false;
                    put( *d[i], m[i].f );
                    break;
                }
                case 2: { // copies
                    const Base & source = *d[j];
                    if ( s.flag() ) {
                        std::unique_ptr<FFT::ComplexData> copy( new FFT::ComplexData( source ) );
                        d[i] = std::move( copy );
                    }
                    else {
                        static_cast<Base &>( *d[i] ) = source;
                    }
                    if ( i != j )
                        m[i] = m[j];
                    break;
                }
                case 3: { // moves
                    if ( i == j )
                        break;
                    if ( s.flag() ) {
                        std::unique_ptr<FFT::ComplexData> copy( new FFT::ComplexData( std::move( *d[j] ) ) );
                        d[i] = std::move( copy );
                    }
                    else {
                        static_cast<Base &>( *d[i] ) = std::move( static_cast<Base &>( *d[j] ) );
                    }
                    m[i] = m[j];
                    // the source holds anything consistent
                    m[j].f.w = d[j]->width();
                    m[j].f.h = d[j]->height();
                    PBT_CHECK( d[j]->empty() == ( d[j]->width() == 0 ) && d[j]->empty() == ( d[j]->height() == 0 ), "moved data is inconsistent" );
                    m[j].f.v.clear();
                    m[j].unknown = !d[j]->empty();
                    break;
                }
                case 4: {
                    const uint32_t w = static_cast<uint32_t>( s.upto( 8 ) ), h = static_cast<uint32_t>( s.upto( 8 ) );
                    d[i]->resize( w, h );
                    if ( w != 0 && h != 0 && ( w != m[i].f.w || h != m[i].f.h ) ) {
                        m[i].f.w = w;
                        m[i].f.h = h;
                        m[i].f.v.clear();
                        m[i].unknown = true;
                    }
                    break;
                }
                case 5: { // values of a vector
                    const size_t right = static_cast<size_t>( m[i].f.w ) * m[i].f.h;
                    size_t size = right;
                    if ( s.chance( 100 ) )
                        size = s.upto( 70 );
                    std::vector<float> values( size );
                    for ( float & v : values )
                        v = s.byte();
                    const bool no = refused( [&] { d[i]->set( values ); } );
                    PBT_CHECK( no == ( size != right || right == 0 ), "a set of " << size << " values for " << right << " elements is " << ( no ? "" : "not " ) << "refused" );
                    if ( !no ) {
                        m[i].f.v.assign( values.begin(), values.end() );
                        m[i].unknown = false;
                    }
                    break;
                }
                case 6: { // creation of a vector
                    const uint32_t w = s.chance( 40 ) ? 0 : small(), h = s.chance( 40 ) ? 0 : small();
                    const size_t right = static_cast<size_t>( w ) * h;
                    const size_t size = s.chance( 100 ) ? s.upto( 70 ) : right;
                    const std::vector<float> values( size, 3.0f );
                    const int64_t before = live;
                    const bool no = refused( [&] {
                        FFT::ComplexData data( values, w, h );
                        Field f;
                        f.w = w;
                        f.h = h;
                        f.v.assign( right, 3.0 );
                        compareField( data, f, 0, "data of a vector" );
                    } );
                    PBT_CHECK( no == ( size != right || right == 0 ), "creation of " << w << 'x' << h << " from " << size << " values is " << ( no ? "" : "not " ) << "refused" );
                    PBT_CHECK( live == before, ( no ? "refused creation" : "creation" ) << " of data loses memory" );
                    break;
                }
                case 7: { // images which cannot be converted
                    Image image;
                    if ( s.flag() )
                        image = Image( small(), small(), s.pick<uint8_t>( { 3, 4, 2 } ) );
                    PBT_CHECK( refused( [&] { d[i]->set( image ); } ), "an empty or a color image is not refused" );
                    PBT_CHECK( refused( [&] { FFT::ComplexData data( image ); } ), "an empty or a color image is not refused in the constructor" );
                    break;
                }
                case 8: { // executors
                    const uint32_t w = small(), h = small();
                    FFT::FFTExecutor executor( w, h );
                    PBT_CHECK( refused( [&] { executor.initialize( 0, h ); } ) && refused( [&] { executor.initialize( w, 0 ); } ), "an empty executor is not refused" );
                    PBT_CHECK( refused( [&] { FFT::FFTExecutor none( s.flag() ? w : 0, 0 ); } ), "an empty executor can be created" );
                    const bool fits = d[i]->width() == w && d[i]->height() == h && d[j]->width() == w && d[j]->height() == h;
                    if ( fits )
                        break;
                    PBT_CHECK( refused( [&] { executor.directTransform( *d[i], *d[j] ); } ), "direct transform of another size is not refused" );
                    PBT_CHECK( refused( [&] { executor.inverseTransform( *d[i], *d[j] ); } ), "inverse transform of another size is not refused" );
                    PBT_CHECK( ( d[i]->width() == w && d[i]->height() == h ) || refused( [&] { executor.directTransform( *d[i] ); } ), "transform of another size is not refused" );
                    break;
                }
                case 9: { // multiplication does not depend on the executor
                    const FFT::FFTExecutor executor( 1, 1 );
                    const size_t k = s.upto( 2 );
                    const bool fits = FFT::equalSize( *d[i], *d[j] ) && FFT::equalSize( *d[k], *d[j] ) && !d[i]->empty();
                    if ( fits )
                        break;
                    PBT_CHECK( refused( [&] { executor.complexMultiplication( *d[i], *d[j], *d[k] ); } ), "product of different sizes is not refused" );
                    break;
                }
                default: { // too much of memory: sizes whose product does not fit into 32 bits
                    const uint32_t w = 65536u + static_cast<uint32_t>( s.upto( 2 ) ), h = 65536u;
                    PBT_CHECK( refused( [&] { FFT::ComplexData data( std::vector<float>( static_cast<uint32_t>( w * h ), 1.0f ), w, h ); } ),
                               w << 'x' << h << " elements from " << static_cast<uint32_t>( w * h ) << " values are not refused" );
                    break;
                }
                }
                for ( size_t k = 0; k < d.size(); ++k )
                    compareModel( *d[k], m[k], "data " + std::to_string( k ) );
            }
            const Image empty = FFT::ComplexData().get();
            PBT_CHECK( empty.empty(), "an image of empty data is not empty" );
        }
        (void)liveBefore;
    } );

    // ------------------------------------------------------------------------------------------------ Haar transform

    template <typename T>
    std::vector<T> genNumbers( Src & s, size_t n )
    {
        std::vector<T> v( n );
        const double scale = s.pick<double>( { 1, 255, 1e-5, 1e6 } );
        if ( n <= 64 && s.flag() ) {
            for ( T & x : v )
                x = static_cast<T>( ( static_cast<int>( s.byte() ) - 100 ) * scale );
            return v;
        }
        pbt::Stream r( s.raw( 3 ) );
        for ( T & x : v )
            x = static_cast<T>( ( r.below( 2000001 ) / 1000000.0 - 1 ) * scale );
        return v;
    }

    // orthonormal one level transform of rows and columns, by definition
    std::vector<real> haar( const std::vector<real> & in, size_t w, size_t h, bool inverse )
    {
        const real c = 1 / std::sqrt( static_cast<real>( 2 ) );
        std::vector<real> rows( in.size() ), out( in.size() );
        for ( size_t y = 0; y < h; ++y )
            for ( size_t i = 0; i < w / 2; ++i ) {
                if ( inverse ) {
                    rows[y * w + 2 * i] = ( in[y * w + i] - in[y * w + w / 2 + i] ) * c;
                    rows[y * w + 2 * i + 1] = ( in[y * w + i] + in[y * w + w / 2 + i] ) * c;
                }
                else {
                    rows[y * w + i] = ( in[y * w + 2 * i + 1] + in[y * w + 2 * i] ) * c;
                    rows[y * w + w / 2 + i] = ( in[y * w + 2 * i + 1] - in[y * w + 2 * i] ) * c;
                }
            }
        for ( size_t x = 0; x < w; ++x )
            for ( size_t i = 0; i < h / 2; ++i ) {
                if ( inverse ) {
                    out[2 * i * w + x] = ( rows[i * w + x] - rows[( h / 2 + i ) * w + x] ) * c;
                    out[( 2 * i + 1 ) * w + x] = ( rows[i * w + x] + rows[( h / 2 + i ) * w + x] ) * c;
                }
                else {
                    out[i * w + x] = ( rows[( 2 * i + 1 ) * w + x] + rows[2 * i * w + x] ) * c;
                    out[( h / 2 + i ) * w + x] = ( rows[( 2 * i + 1 ) * w + x] - rows[2 * i * w + x] ) * c;
                }
            }
        return out;
    }

    template <typename T>
    void checkHaar( Src & s, Ctx & ctx )
    {
        const uint32_t limit = s.flag() ? 3 : 30;
        size_t w = 2 + 2 * s.upto( limit ), h = 2 + 2 * s.upto( limit );
        const uint32_t unusual = s.byte();
        if ( unusual < 5 )
            ( s.flag() ? w : h ) = 2 + 2 * s.upto( 600 );
        else if ( unusual == 5 && s.chance( 64 ) ) { // more than 16 bits of elements or coordinates
            w = s.pick<size_t>( { 256, 258, 512, 2, 65536, 65538 } );
            h = w > 600 ? 2 : 2 * ( 65536 / w / 2 + 1 );
            if ( s.flag() )
                std::swap( w, h );
        }
        const std::vector<T> in = genNumbers<T>( s, w * h );
        const bool inverse = s.flag(), inPlace = s.flag();
        ctx.nontrivial = true;
        ctx.label( inPlace ? "in place" : "separate" );
        PBT_NOTE( ctx, ( inverse ? "inverse" : "direct" ) << " transform of " << w << 'x' << h << ( sizeof( T ) == 4 ? " float" : " double" ) << ( inPlace ? " in place\n" : "\n" ) );
        T most = 0;
        for ( T x : in )
            most = std::max( most, std::abs( x ) );
        const double tolerance = 16 * std::numeric_limits<T>::epsilon() * most;
        std::vector<T> data = in, other( w * h, std::numeric_limits<T>::quiet_NaN() );
        std::vector<T> & out = inPlace ? data : other;
        auto run = []( bool backward, const std::vector<T> & from, std::vector<T> & to, size_t width, size_t height ) {
            if ( backward )
                Image_Function::HaarInverseTransform( from, to, width, height );
            else
                Image_Function::HaarDirectTransform( from, to, width, height );
        };
        run( inverse, data, out, w, h );
        if ( !inPlace )
            PBT_CHECK( data == in, "the input was changed" );
        const std::vector<real> expected = haar( std::vector<real>( in.begin(), in.end() ), w, h, inverse );
        real energyIn = 0, energyOut = 0;
        for ( size_t i = 0; i < in.size(); ++i ) {
            PBT_CHECK( std::fabs( out[i] - expected[i] ) <= tolerance, "element (" << i % w << ", " << i / w << ") is " << out[i] << " instead of " << expected[i] );
            energyIn += static_cast<real>( in[i] ) * in[i];
            energyOut += static_cast<real>( out[i] ) * out[i];
        }
        PBT_CHECK( std::fabs( energyIn - energyOut ) <= 32 * std::numeric_limits<T>::epsilon() * energyIn, "energy " << energyIn << " becomes " << energyOut );
        std::vector<T> back( w * h );
        run( !inverse, out, back, w, h );
        for ( size_t i = 0; i < in.size(); ++i )
            PBT_CHECK( std::fabs( back[i] - in[i] ) <= tolerance * 2, "element (" << i % w << ", " << i / w << ") is " << back[i] << " after both transforms instead of " << in[i] );
    }

    template <typename T>
    void checkHaarRefusal( Src & s, Ctx & ctx )
    {
        size_t w = 2 + 2 * s.upto( 5 ), h = 2 + 2 * s.upto( 5 ), in = w * h, out = in;
        switch ( s.upto( 4 ) ) {
        case 0:
            ( s.flag() ? w : h ) -= 1;
            in = out = w * h;
            break;
        case 1:
            ( s.flag() ? w : h ) = 0;
            if ( s.flag() )
                in = out = 0;
            break;
        case 2:
            ( s.flag() ? in : out ) += s.flag() ? 1 : -1;
            break;
        case 3:
            ( s.flag() ? w : h ) += 2;
            break;
        default:
            in = out = 0;
            break;
        }
        ctx.nontrivial = true;
        PBT_NOTE( ctx, w << 'x' << h << " with " << in << " and " << out << " elements\n" );
        const std::vector<T> input( in, 1 );
        std::vector<T> output( out, 2 );
        PBT_CHECK( refused( [&] { Image_Function::HaarDirectTransform( input, output, w, h ); } ), "the direct transform is not refused" );
        PBT_CHECK( refused( [&] { Image_Function::HaarInverseTransform( input, output, w, h ); } ), "the inverse transform is not refused" );
        PBT_CHECK( output == std::vector<T>( out, 2 ), "a refused transform changes the output" );
    }

    pbt::Register p25( "P25", "transforms", 5, "all even sizes, numbers of several magnitudes, float and double, in place and not; non-trivial: always", []( Src & s, Ctx & ctx ) {
        s.flag() ? checkHaar<float>( s, ctx ) : checkHaar<double>( s, ctx );
    } );
    pbt::Register p25b( "P25", "refusal", 1, "odd, empty and different sizes; non-trivial: always", []( Src & s, Ctx & ctx ) {
        s.flag() ? checkHaarRefusal<float>( s, ctx ) : checkHaarRefusal<double>( s, ctx );
    } );

    // ------------------------------------------------------------------------------------------------ automatic threshold

    pbt::Register p26( "P26", "threshold", 1, "histograms of few and many bins, counts up to 32 bits, peaks and plateaus; non-trivial: at least two used bins", []( Src & s, Ctx & ctx ) {
        std::vector<uint32_t> histogram( 256, 0 );
        auto count = [&s]() -> uint32_t {
            switch ( s.upto( 4 ) ) {
            case 0:
                return static_cast<uint32_t>( s.upto( 3 ) );
            case 1:
                return s.byte();
            case 2:
                return static_cast<uint32_t>( s.raw( 3 ) );
            case 3:
                return 0xFFFFFFFFu - static_cast<uint32_t>( s.upto( 5 ) );
            default:
                return static_cast<uint32_t>( s.raw( 4 ) );
            }
        };
        const uint32_t kind = static_cast<uint32_t>( s.upto( 4 ) );
        if ( kind == 0 || kind == 1 ) { // a few bins
            const uint32_t bins = static_cast<uint32_t>( s.upto( 6 ) );
            for ( uint32_t i = 0; i < bins; ++i )
                histogram[s.flag() ? s.pick<uint8_t>( { 0, 255, 1, 254, 127, 128 } ) : s.byte()] = count();
        }
        else {
            pbt::Stream r( s.raw( 4 ) );
            if ( kind == 2 ) {
                const uint32_t top = s.pick<uint32_t>( { 2, 100, 1000000, 0xFFFFFFFFu } ), lowest = s.byte(), n = 1 + static_cast<uint32_t>( s.byte() );
                for ( uint32_t i = lowest; i < 256 && i < lowest + n; ++i )
                    histogram[i] = r.below( top );
            }
            else { // peaks
                const uint32_t peaks = 1 + static_cast<uint32_t>( s.upto( 3 ) );
                for ( uint32_t p = 0; p < peaks; ++p ) {
                    const double at = r.below( 256 ), spread = 1 + r.below( 40 ), high = std::pow( 10.0, r.below( 9 ) );
                    for ( int i = 0; i < 256; ++i )
                        histogram[static_cast<size_t>( i )] += static_cast<uint32_t>( high * std::exp( -( i - at ) * ( i - at ) / ( 2 * spread * spread ) ) );
                }
            }
        }
        const std::vector<uint32_t> before = histogram;
        if ( s.chance( 12 ) ) {
            const size_t size = s.pick<size_t>( { 0, 1, 255, 257, 512, 768, 65536 } );
            histogram.resize( size );
            PBT_NOTE( ctx, "histogram of " << size << " bins\n" );
            PBT_CHECK( refused( [&] { Image_Function::GetThreshold( histogram ); } ), "a histogram of " << size << " bins is not refused" );
            return;
        }
        PBT_NOTE( ctx, "bins:" );
        real total = 0, sum = 0;
        size_t used = 0;
        for ( size_t i = 0; i < 256; ++i ) {
            total += histogram[i];
            sum += static_cast<real>( histogram[i] ) * i;
            if ( histogram[i] ) {
                ++used;
                PBT_NOTE( ctx, ' ' << i << '=' << histogram[i] );
            }
        }
        ctx.nontrivial = used >= 2;
        const uint8_t threshold = Image_Function::GetThreshold( histogram );
        PBT_NOTE( ctx, "\nthreshold " << int( threshold ) << '\n' );
        PBT_CHECK( histogram == before, "the histogram was changed" );
        if ( used < 2 )
            return;
        real best = -1, mine = -1, bestError = 0, mineError = 0;
        size_t bestAt = 0;
        real n = 0, part = 0;
        for ( size_t t = 0; t < 256; ++t ) {
            n += histogram[t];
            part += static_cast<real>( histogram[t] ) * t;
            if ( n == 0 || n == total )
                continue;
            const real difference = part / n - ( sum - part ) / ( total - n );
            const real variance = n / total * ( ( total - n ) / total ) * difference * difference;
            // a share of one class which is close to 1 is rounded while computing the share of another class
            const real error = 1e-9L + 8 * std::numeric_limits<double>::epsilon() * total / std::min( n, total - n );
            if ( variance > best ) {
                best = variance;
                bestAt = t;
                bestError = error;
            }
            if ( t == threshold ) {
                mine = variance;
                mineError = error;
            }
        }
        PBT_CHECK( mine * ( 1 + mineError ) >= best * ( 1 - bestError ), "threshold " << int( threshold ) << " has variance " << mine << " while " << bestAt << " has " << best );
    } );

    // ------------------------------------------------------------------------------------------------ Hough transform

    template <typename T>
    std::string showPoints( const std::vector<PointBase2D<T>> & v )
    {
        std::ostringstream o;
        o.precision( 9 );
        o << v.size() << " points";
        for ( size_t i = 0; i < v.size() && i < 40; ++i )
            o << " (" << v[i].x << ", " << v[i].y << ')';
        return o.str();
    }

    template <typename T>
    void checkHough( Src & s, Ctx & ctx )
    {
        const T minimumStep = 0.001f * static_cast<float>( pvmath::pi ) / 180.0f, minimumTolerance = 1e-5f;
        // parameters
        const double degree = pvmath::pi / 180;
        const T initial = static_cast<T>( s.flag() ? degree * s.pick<int>( { 0, 45, 90, -45, 180, 30, -90, 270, 360, 135 } ) : ( s.unit() - 0.5 ) * 12 );
        T step = static_cast<T>( s.pick<double>( { 1, 0.5, 0.2, 0.1, 2, 5, 10, 0.01, 0.001, 0, -1 } ) * degree );
        const int sideWanted = static_cast<int>( s.upto( s.chance( 30 ) ? 200 : 20 ) );
        T range = static_cast<T>( step * static_cast<T>( sideWanted ) );
        if ( s.chance( 50 ) )
            range = static_cast<T>( static_cast<double>( step ) * ( sideWanted + s.unit() ) );
        if ( step <= 0 )
            range = static_cast<T>( s.pick<double>( { 0, 0.01, -1, 0.05 } ) * degree );
        const T tolerance = static_cast<T>( s.flag() ? s.pick<double>( { 1, 0.5, 0.1, 2, 0.01, 0.001, 0, -1, 10 } ) : s.unit() * 3 );
        // effective values
        T useStep = step < minimumStep ? minimumStep : step;
        T useRange = range < minimumStep ? minimumStep : range;
        if ( useRange < useStep )
            useRange = useStep;
        const T useTolerance = tolerance < minimumTolerance ? minimumTolerance : tolerance;
        const real ratio = static_cast<real>( useRange ) / useStep;
        const int sideLow = static_cast<int>( ratio * ( 1 - 4 * std::numeric_limits<T>::epsilon() ) + 0.5L ), sideHigh = static_cast<int>( ratio * ( 1 + 4 * std::numeric_limits<T>::epsilon() ) + 0.5L );
        // points
        std::vector<PointBase2D<T>> input;
        const double size = s.pick<double>( { 100, 10, 1000, 1, 5000 } );
        const double offset = s.chance( 50 ) ? size * 3 : 0;
        const size_t groups = s.upto( 3 );
        for ( size_t g = 0; g < groups; ++g ) {
            double angle = initial + static_cast<double>( useStep ) * static_cast<double>( s.range( -sideLow, sideLow ) );
            if ( s.chance( 60 ) )
                angle = ( s.unit() - 0.5 ) * 7;
            const double px = ( s.unit() - 0.5 ) * size + offset, py = ( s.unit() - 0.5 ) * size - offset;
            const size_t n = s.upto( s.flag() ? 6 : 30 );
            const double noise = s.flag() ? 0 : useTolerance * 1.5;
            pbt::Stream r( s.raw( 2 ) );
            for ( size_t i = 0; i < n; ++i ) {
                const double t = ( r.below( 10001 ) / 10000.0 - 0.5 ) * size, d = ( r.below( 10001 ) / 5000.0 - 1 ) * noise;
                input.push_back( PointBase2D<T>( static_cast<T>( px + t * std::cos( angle ) - d * std::sin( angle ) ), static_cast<T>( py + t * std::sin( angle ) + d * std::cos( angle ) ) ) );
            }
        }
        const size_t noisePoints = s.upto( s.flag() ? 3 : 25 );
        const bool grid = s.chance( 40 );
        if ( sideHigh <= 20 && s.chance( 3 ) ) { // many points
            const size_t many = sideHigh <= 2 && s.chance( 40 ) ? 65530 + s.upto( 20 ) : 250 + s.upto( 400 );
            pbt::Stream r( s.raw( 3 ) );
            for ( size_t i = 0; i < many; ++i )
                input.push_back( PointBase2D<T>( static_cast<T>( ( r.below( 100001 ) / 100000.0 - 0.5 ) * size + offset ), static_cast<T>( ( r.below( 100001 ) / 100000.0 - 0.5 ) * size - offset ) ) );
        }
        for ( size_t i = 0; i < noisePoints; ++i ) {
            if ( grid )
                input.push_back( PointBase2D<T>( static_cast<T>( s.range( -4, 4 ) ), static_cast<T>( s.range( -4, 4 ) ) ) );
            else
                input.push_back( PointBase2D<T>( static_cast<T>( ( s.unit() - 0.5 ) * size + offset ), static_cast<T>( ( s.unit() - 0.5 ) * size - offset ) ) );
        }
        if ( s.chance( 120 ) && input.size() > 1 ) { // another order
            pbt::Stream r( s.raw( 2 ) );
            for ( size_t i = input.size() - 1; i > 0; --i )
                std::swap( input[i], input[r.below( static_cast<uint32_t>( i + 1 ) )] );
        }
        PBT_NOTE( ctx, ( sizeof( T ) == 4 ? "float" : "double" ) << ": angle " << initial << ", angle tolerance " << range << ", step " << step << ", line tolerance " << tolerance << ", "
                                                                 << showPoints( input ) << '\n' );
        std::vector<PointBase2D<T>> on( s.upto( 2 ) ), off( s.upto( 2 ) );
        const std::vector<PointBase2D<T>> before = input;
        const bool found = Image_Function::HoughTransform( input, initial, range, step, tolerance, on, off );
        PBT_NOTE( ctx, "on the line: " << showPoints( on ) << "\noff the line: " << showPoints( off ) << '\n' );
        if ( input.size() < 2 ) {
            PBT_CHECK( !found, "a line is found in " << input.size() << " points" );
            return;
        }
        PBT_CHECK( found, "no line is found in " << input.size() << " points" );
        ctx.nontrivial = on.size() >= 3;
        // both lists together are the input
        auto equal = []( const PointBase2D<T> & a, const PointBase2D<T> & b ) { return a.x == b.x && a.y == b.y; };
        size_t a = 0, b = 0;
        for ( const PointBase2D<T> & p : before ) {
            if ( a < on.size() && equal( on[a], p ) )
                ++a;
            else if ( b < off.size() && equal( off[b], p ) )
                ++b;
            else
                PBT_CHECK( false, "point (" << p.x << ", " << p.y << ") is missed or is out of order in the lists" );
        }
        PBT_CHECK( a == on.size() && b == off.size(), "lists have more points than the input" );
        PBT_CHECK( !on.empty(), "no points on the line" );
        // distances to lines at all angles
        real most = 0;
        for ( const PointBase2D<T> & p : input )
            most = std::max( most, static_cast<real>( std::fabs( p.x ) ) + std::fabs( p.y ) );
        const real eps = 8 * std::numeric_limits<T>::epsilon() * ( most * ( 3 + std::fabs( static_cast<real>( initial ) ) + static_cast<real>( useStep ) * sideHigh ) + useTolerance );
        bool fits = false, sure = sideLow == sideHigh;
        size_t bestCount = 0;
        int bestAt = 0;
        const real width = 2 * static_cast<real>( useTolerance );
        for ( int id = -sideHigh; id <= sideHigh; ++id ) {
            const real angle = static_cast<real>( initial ) + static_cast<real>( useStep ) * id;
            const real c = std::cos( angle ), d = std::sin( angle );
            auto distance = [&]( const PointBase2D<T> & p ) { return p.y * c - p.x * d; };
            if ( !fits ) {
                real low = distance( on[0] ), high = low;
                for ( const PointBase2D<T> & p : on ) {
                    low = std::min( low, distance( p ) );
                    high = std::max( high, distance( p ) );
                }
                fits = high - low <= width + 2 * eps;
            }
            std::vector<real> v;
            for ( const PointBase2D<T> & p : input )
                v.push_back( distance( p ) );
            std::sort( v.begin(), v.end() );
            size_t inner = 0, outer = 0;
            for ( size_t i = 0; i < v.size(); ++i ) {
                while ( inner < v.size() && v[inner] <= v[i] + width - 2 * eps )
                    ++inner;
                outer = std::max( outer, inner );
                while ( outer < v.size() && v[outer] <= v[i] + width + 2 * eps )
                    ++outer;
                const size_t first = std::max( inner, i + 1 );
                sure = sure && outer == first;
                if ( id >= -sideLow && id <= sideLow && first - i > bestCount ) {
                    bestCount = first - i;
                    bestAt = id;
                }
            }
        }
        PBT_CHECK( fits, "points on the line do not fit into a band of any searched angle" );
        if ( sure )
            PBT_CHECK( on.size() == bestCount, on.size() << " points on the line while the line at step " << bestAt << " has " << bestCount );
        ctx.label( sure ? "sure" : "a point at the border of a band" );
    }

    pbt::Register p27( "P27", "best line", 1, "lines with noise and outliers, several lines, grids, all parameters, float and double; non-trivial: at least 3 points on the line",
                       []( Src & s, Ctx & ctx ) { s.flag() ? checkHough<double>( s, ctx ) : checkHough<float>( s, ctx ); } );

    // ------------------------------------------------------------------------------------------------ geometry

    template <typename T>
    struct Geo
    {
        typedef PointBase2D<T> Point;
        typedef LineBase2D<T> Line;

        Src & s;
        double range;

        explicit Geo( Src & source )
            : s( source )
        {
            range = sizeof( T ) == 4 ? s.pick<double>( { 5, 1, 0.5, 10 } ) : s.pick<double>( { 10, 1, 1000, 0.1, 100000 } );
        }

        T number()
        {
            if ( s.flag() )
                return static_cast<T>( s.range( -5, 5 ) * range / 10 );
            return static_cast<T>( ( s.unit() - 0.5 ) * range );
        }
        Point point()
        {
            const T x = number(), y = number();
            return Point( x, y );
        }
        // far enough from [p]
        Point another( const Point & p )
        {
            Point q = point();
            switch ( s.upto( 3 ) ) {
            case 0:
                q.x = p.x;
                break;
            case 1:
                q.y = p.y;
                break;
            default:
                break;
            }
            const double least = range / 20;
            if ( std::fabs( q.x - p.x ) < least && std::fabs( q.y - p.y ) < least )
                ( s.flag() ? q.x : q.y ) += static_cast<T>( s.flag() ? range / 2 : -range / 2 );
            return q;
        }
        static real size( const Point & p )
        {
            return std::fabs( static_cast<real>( p.x ) ) + std::fabs( static_cast<real>( p.y ) );
        }
        static real eps()
        {
            return std::numeric_limits<T>::epsilon();
        }
    };

    // a line by exact numbers
    struct Exact
    {
        real x, y, dx, dy;
        real cross( real px, real py ) const
        {
            return dx * ( py - y ) - dy * ( px - x );
        }
        real dot( real px, real py ) const
        {
            return dx * ( px - x ) + dy * ( py - y );
        }
    };

    template <typename T>
    struct BothLines
    {
        LineBase2D<T> line;
        Exact exact;
    };

    template <typename T>
    BothLines<T> genLine( Geo<T> & g, Ctx & ctx )
    {
        const PointBase2D<T> a = g.point();
        BothLines<T> r;
        if ( g.s.flag() ) {
            const PointBase2D<T> b = g.another( a );
            r.line = LineBase2D<T>( a, b );
            const real dx = static_cast<real>( b.x ) - a.x, dy = static_cast<real>( b.y ) - a.y, length = std::sqrt( dx * dx + dy * dy );
            r.exact = Exact{ a.x, a.y, dx / length, dy / length };
            PBT_NOTE( ctx, "line through (" << a.x << ", " << a.y << ") and (" << b.x << ", " << b.y << ")\n" );
        }
        else {
            const T angle = static_cast<T>( g.s.flag() ? pvmath::pi / 4 * static_cast<double>( g.s.range( -8, 8 ) ) : ( g.s.unit() - 0.5 ) * 12 );
            r.line = LineBase2D<T>( a, angle );
            r.exact = Exact{ a.x, a.y, std::cos( static_cast<real>( angle ) ), std::sin( static_cast<real>( angle ) ) };
            PBT_NOTE( ctx, "line through (" << a.x << ", " << a.y << ") at angle " << angle << '\n' );
        }
        return r;
    }

    real angleDifference( real a, real b )
    {
        const real pi = std::acos( static_cast<real>( -1 ) );
        real d = std::fmod( std::fabs( a - b ), 2 * pi );
        return std::min( d, 2 * pi - d );
    }

    template <typename T>
    void checkLine( Src & s, Ctx & ctx )
    {
        Geo<T> g( s );
        ctx.nontrivial = true;
        const BothLines<T> l = genLine( g, ctx );
        const PointBase2D<T> p = g.point(), o = g.point();
        PBT_NOTE( ctx, "point (" << p.x << ", " << p.y << "), offset (" << o.x << ", " << o.y << ")\n" );
        const real scale = g.size( p ) + g.size( o ) + std::fabs( l.exact.x ) + std::fabs( l.exact.y );
        const real tolerance = 32 * g.eps() * scale, angleTolerance = 16 * g.eps();
        PBT_CHECK( l.line.position().x == l.exact.x && l.line.position().y == l.exact.y, "position is (" << l.line.position().x << ", " << l.line.position().y << ")" );
        const real angle = std::atan2( l.exact.dy, l.exact.dx );
        PBT_CHECK( angleDifference( l.line.angle(), angle ) <= angleTolerance, "angle is " << l.line.angle() << " instead of " << angle );
        // distance
        const real distance = std::fabs( l.exact.cross( p.x, p.y ) );
        PBT_CHECK( std::fabs( l.line.distance( p ) - distance ) <= tolerance, "distance is " << l.line.distance( p ) << " instead of " << distance );
        const T along = g.number();
        const PointBase2D<T> q( static_cast<T>( l.exact.x + along * l.exact.dx ), static_cast<T>( l.exact.y + along * l.exact.dy ) );
        PBT_CHECK( l.line.distance( q ) <= tolerance + 32 * g.eps() * std::fabs( along ), "distance to a point of the line is " << l.line.distance( q ) );
        // projection
        const PointBase2D<T> projection = l.line.projection( p );
        const real along2 = l.exact.dot( p.x, p.y );
        PBT_CHECK( std::fabs( projection.x - ( l.exact.x + along2 * l.exact.dx ) ) <= tolerance && std::fabs( projection.y - ( l.exact.y + along2 * l.exact.dy ) ) <= tolerance,
                   "projection is (" << projection.x << ", " << projection.y << ")" );
        const PointBase2D<T> opposite = l.line.opposite( p );
        PBT_CHECK( std::fabs( opposite.x - 2 * ( l.exact.x + along2 * l.exact.dx ) + p.x ) <= 3 * tolerance && std::fabs( opposite.y - 2 * ( l.exact.y + along2 * l.exact.dy ) + p.y ) <= 3 * tolerance,
                   "opposite point is (" << opposite.x << ", " << opposite.y << ")" );
        // translation
        const LineBase2D<T> moved = l.line + o;
        LineBase2D<T> movedHere = l.line;
        LineBase2D<T> & same = ( movedHere += o );
        PBT_CHECK( &same == &movedHere, "+= gives another object" );
        for ( const LineBase2D<T> * m : { &moved, static_cast<const LineBase2D<T> *>( &movedHere ) } ) {
            PBT_CHECK( angleDifference( m->angle(), angle ) <= 2 * angleTolerance, "angle of the moved line is " << m->angle() << " instead of " << angle );
            PBT_CHECK( std::fabs( m->position().x - ( l.exact.x + o.x ) ) <= tolerance && std::fabs( m->position().y - ( l.exact.y + o.y ) ) <= tolerance, "the line is moved to another place" );
            PBT_CHECK( std::fabs( m->distance( p + o ) - distance ) <= 3 * tolerance, "distance changes when the line and the point move together" );
        }
        PBT_CHECK( l.line.position().x == l.exact.x && l.line.position().y == l.exact.y, "+ moves the line itself" );
    }

    template <typename T>
    void checkTwoLines( Src & s, Ctx & ctx )
    {
        Geo<T> g( s );
        const BothLines<T> a = genLine( g, ctx );
        BothLines<T> b;
        const uint32_t kind = static_cast<uint32_t>( s.upto( 4 ) );
        const real pi = std::acos( static_cast<real>( -1 ) );
        if ( kind <= 1 ) {
            b = genLine( g, ctx );
        }
        else { // parallel, opposite or almost parallel
            const T angle = static_cast<T>( std::atan2( a.exact.dy, a.exact.dx ) + ( s.flag() ? pi : 0 ) + ( kind == 2 ? 0 : ( s.unit() - 0.5 ) * ( kind == 3 ? 0.01 : 1e-6 ) ) );
            const PointBase2D<T> at = g.point();
            b.line = LineBase2D<T>( at, angle );
            b.exact = Exact{ at.x, at.y, std::cos( static_cast<real>( angle ) ), std::sin( static_cast<real>( angle ) ) };
            PBT_NOTE( ctx, "line through (" << at.x << ", " << at.y << ") at angle " << angle << '\n' );
        }
        const real sine = a.exact.dy * b.exact.dx - a.exact.dx * b.exact.dy, absolute = std::fabs( sine );
        const real limit = sizeof( T ) == 4 ? 1e-4 : 1e-8;
        ctx.label( absolute < limit ? "parallel" : "crossing" );
        ctx.nontrivial = true;
        const bool parallel = a.line.isParallel( b.line );
        PBT_CHECK( a.line.isIntersect( b.line ) != parallel, "lines are parallel and intersect at once" );
        PBT_CHECK( b.line.isParallel( a.line ) == parallel, "parallelism depends on the order" );
        if ( absolute < limit * 0.9 || absolute > limit * 1.1 )
            PBT_CHECK( parallel == ( absolute < limit ), "lines with sine " << sine << " of the angle are " << ( parallel ? "" : "not " ) << "parallel" );
        PointBase2D<T> point( 77, 78 );
        const bool crossing = a.line.intersection( b.line, point );
        PBT_CHECK( crossing != parallel, "an intersection of parallel lines or no intersection of others" );
        if ( !crossing )
            return;
        // exact place
        const real along = ( b.exact.dy * ( a.exact.x - b.exact.x ) - b.exact.dx * ( a.exact.y - b.exact.y ) ) / sine;
        const real x = a.exact.x + a.exact.dx * along, y = a.exact.y + a.exact.dy * along;
        const real scale = std::fabs( a.exact.x ) + std::fabs( a.exact.y ) + std::fabs( b.exact.x ) + std::fabs( b.exact.y );
        const real tolerance = 64 * g.eps() * ( scale + std::fabs( along ) );
        PBT_CHECK( std::fabs( point.x - x ) <= tolerance / absolute && std::fabs( point.y - y ) <= tolerance / absolute,
                   "intersection is (" << point.x << ", " << point.y << ") instead of (" << x << ", " << y << ")" );
        PBT_CHECK( std::fabs( a.exact.cross( point.x, point.y ) ) <= tolerance && std::fabs( b.exact.cross( point.x, point.y ) ) <= tolerance,
                   "intersection (" << point.x << ", " << point.y << ") is not on the lines" );
    }

    template <typename T>
    void checkSameLine( Src & s, Ctx & ctx )
    {
#ifdef PBT_NO_LINE_COMPARISON
        PBT_CHECK( false, "comparison of lines does not compile" );
#else
        Geo<T> g( s );
        g.range = 4;
        ctx.nontrivial = true;
        const PointBase2D<T> a = g.point();
        PointBase2D<T> d = g.point();
        const real length = std::hypot( static_cast<real>( d.x ), static_cast<real>( d.y ) );
        if ( length < 0.3 )
            d = PointBase2D<T>( 1, 0 );
        const T t[4] = { g.number(), g.number(), g.number(), g.number() };
        if ( std::fabs( t[0] - t[1] ) < 0.2 || std::fabs( t[2] - t[3] ) < 0.2 )
            throw pbt::Discard();
        PointBase2D<T> p[4];
        for ( int i = 0; i < 4; ++i )
            p[i] = PointBase2D<T>( a.x + t[i] * d.x, a.y + t[i] * d.y );
        const LineBase2D<T> first( p[0], p[1] ), second( p[2], p[3] );
        PBT_NOTE( ctx, "line (" << p[0].x << ", " << p[0].y << ") - (" << p[1].x << ", " << p[1].y << ") and (" << p[2].x << ", " << p[2].y << ") - (" << p[3].x << ", " << p[3].y << ")\n" );
        // parallelism is compared at 1e-8 (1e-4), distance at 1e-9 (1e-5); pieces of the line are at least a tenth long
        PBT_CHECK( first == first, "a line is not equal to itself" );
        if ( sizeof( T ) == 8 )
            PBT_CHECK( first == second && second == first, "pieces of one line are not equal" );
        const double least = sizeof( T ) == 8 ? 1e-6 : 1e-2;
        const double shift = least + s.unit(), turn = least + s.unit();
        const PointBase2D<T> normal( static_cast<T>( -d.y / length * shift ), static_cast<T>( d.x / length * shift ) );
        PBT_CHECK( length < 0.3 || !( first == second + normal ), "parallel lines at the distance of " << shift << " are equal" );
        const LineBase2D<T> turned( p[2], static_cast<T>( second.angle() + turn ) );
        PBT_CHECK( !( first == turned ), "lines with the angle of " << turn << " are equal" );
#endif
    }

    template <typename T>
    void checkFitting( Src & s, Ctx & ctx )
    {
        const double range = s.pick<double>( { 20, 1000 } );
        // away from zero: coordinates of an image and beyond
        const double away = s.flag() ? 0 : s.pick<double>( { 500, 5000, sizeof( T ) == 4 ? 3000 : 1e7 } );
        const size_t n = s.upto( s.flag() ? 4 : 40 );
        const double px = ( s.unit() - 0.5 ) * range + away, py = ( s.unit() - 0.5 ) * range + ( s.flag() ? away : 0 );
        const double angle = s.flag() ? pvmath::pi / 4 * static_cast<double>( s.range( 0, 7 ) ) : s.unit() * 7;
        const double noise = s.pick<double>( { 0, 0.001, 0.1, 0.5 } ) * range;
        pbt::Stream r( s.raw( 3 ) );
        std::vector<PointBase2D<T>> points;
        const bool explicitPoints = n <= 6 && s.flag();
        for ( size_t i = 0; i < n; ++i ) {
            const double t = ( r.below( 10001 ) / 10000.0 - 0.5 ) * range, d = ( r.below( 10001 ) / 10000.0 - 0.5 ) * noise;
            if ( explicitPoints )
                points.push_back( PointBase2D<T>( static_cast<T>( s.range( -9, 9 ) ), static_cast<T>( s.range( -9, 9 ) ) ) );
            else
                points.push_back( PointBase2D<T>( static_cast<T>( px + t * std::cos( angle ) - d * std::sin( angle ) ), static_cast<T>( py + t * std::sin( angle ) + d * std::cos( angle ) ) ) );
        }
        PBT_NOTE( ctx, ( sizeof( T ) == 4 ? "float " : "double " ) << showPoints( points ) << '\n' );
        LineBase2D<T> line;
        if ( s.flag() )
            line = LineBase2D<T>::bestFittingLine( points );
        else
            line = LineBase2D<T>::bestFittingLine( std::list<PointBase2D<T>>( points.begin(), points.end() ) );
        if ( n < 2 )
            return;
        ctx.nontrivial = n >= 3;
        real mx = 0, my = 0;
        for ( const PointBase2D<T> & p : points ) {
            mx += p.x;
            my += p.y;
        }
        mx /= n;
        my /= n;
        real xx = 0, yy = 0, xy = 0, scale = 1;
        for ( const PointBase2D<T> & p : points ) {
            xx += ( p.x - mx ) * ( p.x - mx );
            yy += ( p.y - my ) * ( p.y - my );
            xy += ( p.x - mx ) * ( p.y - my );
            scale = std::max( { scale, std::fabs( static_cast<real>( p.x ) ), std::fabs( static_cast<real>( p.y ) ) } );
        }
        xx /= n;
        yy /= n;
        xy /= n;
        const real eps = std::numeric_limits<T>::epsilon();
        PBT_CHECK( std::fabs( line.position().x - mx ) <= 64 * eps * scale && std::fabs( line.position().y - my ) <= 64 * eps * scale,
                   "position of the line is (" << line.position().x << ", " << line.position().y << ") instead of (" << mx << ", " << my << ")" );
        // the center is as exact as the coordinates are, so deviations from it lose this much
        const real spread = std::max( xx, yy ), loss = 64 * eps * scale * std::sqrt( spread ) + 64 * eps * scale * 64 * eps * scale;
        if ( spread < 4 * loss )
            return;
        // least squares along the other axis than that of the bigger spread
        const real tolerance = 8 * loss / spread + 32 * eps;
        const real got = line.angle();
        const real alongX = std::atan2( xy, xx ), alongY = std::atan2( yy, xy );
        auto agrees = [&]( real expected ) {
            const real d = angleDifference( 2 * got, 2 * expected ) / 2; // lines have no direction
            return d <= tolerance;
        };
        const bool good = ( xx > yy - 4 * loss && agrees( alongX ) ) || ( yy > xx - 4 * loss && agrees( alongY ) );
        PBT_CHECK( good, "angle of the line is " << got << " instead of " << ( xx > yy ? alongX : alongY ) );
    }

    // Vector arithmetic of points
    template <typename T>
    bool sameNumber( T a, T b, double eps )
    {
        return eps == 0 ? a == b : std::fabs( static_cast<double>( a ) - static_cast<double>( b ) ) < eps;
    }

    template <typename T>
    void checkPoints( Src & s, Ctx & ctx, double eps )
    {
        ctx.nontrivial = true;
        auto number = [&]() -> T {
            if ( s.flag() )
                return static_cast<T>( s.upto( 3 ) );
            return eps == 0 ? static_cast<T>( s.raw( 4 ) ) : static_cast<T>( ( s.unit() - 0.5 ) * 2000 );
        };
        // equal, different or almost equal coordinates
        auto close = [&]( T v ) -> T {
            switch ( s.upto( 3 ) ) {
            case 0:
                return v;
            case 1:
                return number();
            case 2:
                return eps == 0 ? static_cast<T>( v + 1 ) : static_cast<T>( v + eps * 3 );
            default:
                return eps == 0 ? v : static_cast<T>( v - eps * 0.3 );
            }
        };
        const T x1 = number(), y1 = number(), z1 = number(), x2 = close( x1 ), y2 = close( y1 ), z2 = close( z1 ), factor = static_cast<T>( s.upto( 5 ) );
        PBT_NOTE( ctx, "(" << x1 << ", " << y1 << ", " << z1 << ") and (" << x2 << ", " << y2 << ", " << z2 << ")\n" );
        // not sure when float arithmetic makes the difference fall on the limit
        for ( double d : { std::fabs( static_cast<double>( x1 ) - static_cast<double>( x2 ) ), std::fabs( static_cast<double>( y1 ) - static_cast<double>( y2 ) ),
                           std::fabs( static_cast<double>( z1 ) - static_cast<double>( z2 ) ) } )
            if ( eps > 0 && d > eps * 0.5 && d < eps * 2 )
                throw pbt::Discard();
        const bool equal2 = sameNumber( x1, x2, eps ) && sameNumber( y1, y2, eps ), equal3 = equal2 && sameNumber( z1, z2, eps );
        const PointBase2D<T> a( x1, y1 ), b( x2, y2 );
        PBT_CHECK( ( a == b ) == equal2 && ( b == a ) == equal2, "points are " << ( equal2 ? "not " : "" ) << "equal" );
        PBT_CHECK( ( a != b ) == !equal2 && ( b != a ) == !equal2, "points are " << ( equal2 ? "" : "not " ) << "different" );
        auto is = []( const PointBase2D<T> & p, T x, T y ) { return p.x == x && p.y == y; };
        PBT_CHECK( is( a + b, x1 + x2, y1 + y2 ), "wrong sum" );
        PBT_CHECK( is( a - b, x1 - x2, y1 - y2 ), "wrong difference" );
        PBT_CHECK( is( a * factor, x1 * factor, y1 * factor ), "wrong product with a number" );
        PBT_CHECK( is( factor * a, x1 * factor, y1 * factor ) && is( 3 * a, 3 * x1, 3 * y1 ), "wrong product of a number" );
        PointBase2D<T> c = a, d = a;
        PBT_CHECK( &( c += b ) == &c && is( c, x1 + x2, y1 + y2 ), "wrong +=" );
        PBT_CHECK( &( d -= b ) == &d && is( d, x1 - x2, y1 - y2 ), "wrong -=" );
        c += c;
        PBT_CHECK( is( c, ( x1 + x2 ) * 2, ( y1 + y2 ) * 2 ), "wrong += of itself" );
        PBT_CHECK( is( PointBase2D<T>(), 0, 0 ), "a default point is not zero" );

        const PointBase3D<T> p( x1, y1, z1 ), q( x2, y2, z2 );
        auto is3 = []( const PointBase3D<T> & t, T x, T y, T z ) { return t.x == x && t.y == y && t.z == z; };
        PBT_CHECK( ( p == q ) == equal3 && ( q == p ) == equal3, "3D points are " << ( equal3 ? "not " : "" ) << "equal" );
        PBT_CHECK( ( p != q ) == !equal3 && ( q != p ) == !equal3, "3D points are " << ( equal3 ? "" : "not " ) << "different" );
        PBT_CHECK( is3( p + q, x1 + x2, y1 + y2, z1 + z2 ), "wrong 3D sum" );
        PBT_CHECK( is3( p - q, x1 - x2, y1 - y2, z1 - z2 ), "wrong 3D difference" );
        PointBase3D<T> u = p, v = p;
        PBT_CHECK( &( u += q ) == &u && is3( u, x1 + x2, y1 + y2, z1 + z2 ), "wrong 3D +=" );
        PBT_CHECK( &( v -= q ) == &v && is3( v, x1 - x2, y1 - y2, z1 - z2 ), "wrong 3D -=" );
        PBT_CHECK( is3( PointBase3D<T>(), 0, 0, 0 ), "a default 3D point is not zero" );
    }

    const char * LINE_RULE = "lines by points and angles: any, vertical, horizontal and almost parallel, float and double; non-trivial: always";
    pbt::Register p28( "P28", "lines", 3, LINE_RULE, []( Src & s, Ctx & ctx ) { s.flag() ? checkLine<double>( s, ctx ) : checkLine<float>( s, ctx ); } );
    pbt::Register p28b( "P28", "two lines", 3, LINE_RULE, []( Src & s, Ctx & ctx ) { s.flag() ? checkTwoLines<double>( s, ctx ) : checkTwoLines<float>( s, ctx ); } );
    pbt::Register p28c( "P28", "equal lines", 2, LINE_RULE, []( Src & s, Ctx & ctx ) { s.flag() ? checkSameLine<double>( s, ctx ) : checkSameLine<float>( s, ctx ); } );
    pbt::Register p28d( "P28", "fitting", 3, "point sets along lines of any direction with noise; non-trivial: at least 3 points", []( Src & s, Ctx & ctx ) {
        s.flag() ? checkFitting<double>( s, ctx ) : checkFitting<float>( s, ctx );
    } );
    pbt::Register p28e( "P28", "points", 2, "points with equal, almost equal and other coordinates; non-trivial: always", []( Src & s, Ctx & ctx ) {
        switch ( s.upto( 2 ) ) {
        case 0:
            checkPoints<double>( s, ctx, 1e-9 );
            break;
        case 1:
            checkPoints<float>( s, ctx, 1e-5 );
            break;
        default:
            checkPoints<uint32_t>( s, ctx, 0 );
            break;
        }
        const double angle = ( s.unit() - 0.5 ) * 2000;
        PBT_CHECK( std::fabs( pvmath::toRadians( angle ) - angle / 180 * std::acos( -1.0 ) ) <= 1e-12 * std::fabs( angle ), "wrong radians of " << angle );
        PBT_CHECK( std::fabs( pvmath::toDegrees( pvmath::toRadians( angle ) ) - angle ) <= 1e-12 * std::fabs( angle ), "wrong degrees of " << angle );
    } );

    // determinant of a small integer matrix without rounding
    __int128 determinant( std::vector<int> a, size_t n )
    {
        std::vector<__int128> m( a.begin(), a.end() );
        __int128 previous = 1;
        int sign = 1;
        for ( size_t k = 0; k + 1 < n; ++k ) {
            size_t pivot = k;
            while ( pivot < n && m[pivot * n + k] == 0 )
                ++pivot;
            if ( pivot == n )
                return 0;
            if ( pivot != k ) {
                for ( size_t j = 0; j < n; ++j )
                    std::swap( m[pivot * n + j], m[k * n + j] );
                sign = -sign;
            }
            for ( size_t i = k + 1; i < n; ++i )
                for ( size_t j = k + 1; j < n; ++j )
                    m[i * n + j] = ( m[i * n + j] * m[k * n + k] - m[i * n + k] * m[k * n + j] ) / previous;
            previous = m[k * n + k];
        }
        return sign * m[n * n - 1];
    }

    pbt::Register p28f( "P28", "linear systems", 4, "integer systems of any rank, dominant and random real ones, wrong sizes; non-trivial: at least 3 equations", []( Src & s, Ctx & ctx ) {
        const uint32_t kind = static_cast<uint32_t>( s.upto( 5 ) );
        size_t n = 2 + s.upto( 3 );
        std::vector<double> a, b, roots( s.pick<size_t>( { 0, 1, 2, 3, 5, 20 } ), 99.0 );
        bool sure = true, singular = false;
        if ( kind <= 2 ) { // integers
            std::vector<int> m( n * n );
            const int most = static_cast<int>( s.pick<uint32_t>( { 1, 2, 9 } ) );
            for ( int & x : m )
                x = static_cast<int>( s.range( -most, most ) );
            if ( kind == 2 ) { // a row or a column as a combination of others
                const size_t row = s.upto( n - 1 ), p = s.upto( n - 1 ), q = s.upto( n - 1 );
                const int u = static_cast<int>( s.range( -2, 2 ) ), v = static_cast<int>( s.range( -2, 2 ) );
                const bool column = s.flag();
                for ( size_t i = 0; i < n; ++i ) {
                    auto cell = [&]( size_t r ) -> int & { return column ? m[i * n + r] : m[r * n + i]; };
                    cell( row ) = ( p == row ? 0 : u * cell( p ) ) + ( q == row ? 0 : v * cell( q ) );
                }
            }
            singular = determinant( m, n ) == 0;
            a.assign( m.begin(), m.end() );
            for ( size_t i = 0; i < n; ++i )
                b.push_back( static_cast<double>( s.range( -9, 9 ) ) );
        }
        else {
            n = 2 + s.upto( 8 );
            pbt::Stream r( s.raw( 4 ) );
            const double scale = kind == 3 ? 1 : std::pow( 10.0, static_cast<double>( s.range( -3, 6 ) ) );
            for ( size_t i = 0; i < n * n; ++i )
                a.push_back( ( r.below( 2000001 ) / 1000000.0 - 1 ) * scale );
            if ( kind != 3 )
                for ( size_t i = 0; i < n; ++i ) // dominant in some column
                    a[i * n + ( kind == 4 ? i : ( i * 1 + n / 2 ) % n )] = ( r.below( 2 ) ? 1 : -1 ) * scale * static_cast<double>( n + 1 );
            else
                sure = false;
            for ( size_t i = 0; i < n; ++i )
                b.push_back( ( r.below( 2000001 ) / 1000000.0 - 1 ) * scale );
        }
        ctx.nontrivial = n >= 3;
        if ( s.chance( 16 ) ) { // wrong sizes
            switch ( s.upto( 3 ) ) {
            case 0:
                a.resize( a.size() + 1 );
                break;
            case 1:
                a.resize( a.size() - 1 );
                break;
            case 2:
                b.resize( s.flag() ? n + 1 : n - 1 );
                break;
            default:
                a.assign( s.upto( 1 ), 1.0 );
                b.assign( a.size(), 1.0 );
                break;
            }
            PBT_NOTE( ctx, a.size() << " coefficients, " << b.size() << " terms\n" );
            PBT_CHECK( refused( [&] { pvmath::getMatrixRoots( a, b, roots ); } ), "a system of wrong sizes is not refused" );
            return;
        }
        PBT_NOTE( ctx, "matrix" );
        for ( size_t i = 0; i < a.size(); ++i )
            PBT_NOTE( ctx, ( i % n ? " " : " | " ) << a[i] );
        PBT_NOTE( ctx, " terms" );
        for ( double x : b )
            PBT_NOTE( ctx, ' ' << x );
        PBT_NOTE( ctx, "\n" );
        ctx.label( singular ? "singular" : "regular" );
        const std::vector<double> a0 = a, b0 = b;
        const bool no = refused( [&] { pvmath::getMatrixRoots( a, b, roots ); } );
        PBT_CHECK( a == a0 && b == b0, "the system was changed" );
        if ( sure )
            PBT_CHECK( no == singular, "a " << ( singular ? "singular" : "regular" ) << " system is " << ( no ? "" : "not " ) << "refused" );
        if ( no )
            return;
        PBT_CHECK( roots.size() >= n, "only " << roots.size() << " roots" );
        double size = 0;
        for ( size_t i = 0; i < n; ++i )
            size = std::max( size, std::fabs( roots[i] ) );
        for ( size_t i = 0; i < n; ++i ) {
            real sum = 0, magnitude = std::fabs( b[i] );
            for ( size_t j = 0; j < n; ++j ) {
                sum += static_cast<real>( a[i * n + j] ) * roots[j];
                magnitude += std::fabs( a[i * n + j] );
            }
            double most = 0;
            for ( double x : a )
                most = std::max( most, std::fabs( x ) );
            PBT_CHECK( std::fabs( sum - b[i] ) <= 1e-11L * ( most * size * n + std::fabs( b[i] ) ), "equation " << i << " gives " << sum << " instead of " << b[i] );
        }
    } );

    // ------------------------------------------------------------------------------------------------ light correction

    struct Light
    {
        bool known = false;
        uint32_t w = 0, h = 0;
        int top = 0;
        std::vector<uint8_t> reference;
    };

    pbt::Register p29( "P29", "histories", 1, "histories of analysis, correction and search with images of equal and other sizes and types; non-trivial: a correction after an analysis", []( Src & s, Ctx & ctx ) {
        // an object in memory which is not clean
        alignas( LightCorrection ) static unsigned char memory[sizeof( LightCorrection )];
        std::memset( memory, s.pick<int>( { 0xA5, 0x00, 0xFF, 0x01 } ), sizeof memory );
        LightCorrection * light = new ( memory ) LightCorrection;
        struct Destroy
        {
            LightCorrection * l;
            ~Destroy()
            {
                l->~LightCorrection();
            }
        } destroy{ light };
        Light model;
        uint32_t w, h;
        const uint32_t unusual = s.byte();
        if ( unusual < 2 ) // more than 16 bits of pixels or coordinates
            genSize( s, w, h, 80000, 5000 );
        else if ( unusual == 2 && s.chance( 32 ) ) {
            w = s.flag() ? 65530 + static_cast<uint32_t>( s.upto( 20 ) ) : 250 + static_cast<uint32_t>( s.upto( 20 ) );
            h = w > 60000 ? 1 + static_cast<uint32_t>( s.upto( 1 ) ) : 250 + static_cast<uint32_t>( s.upto( 20 ) );
            if ( s.flag() )
                std::swap( w, h );
        }
        else
            genSize( s, w, h, 600, 300 );
        auto picture = [&]( uint32_t pw, uint32_t ph, uint8_t cc ) {
            Image image( pw, ph, cc, genAlignment( s ) );
            switch ( s.upto( 3 ) ) {
            case 0:
                fillImage( s, image );
                break;
            case 1: { // illumination
                pbt::Stream r( s.raw( 3 ) );
                const int low = 1 + static_cast<int>( r.below( 100 ) ), high = low + 1 + static_cast<int>( r.below( 254 - static_cast<uint32_t>( low ) ) );
                for ( size_t i = 0; i < static_cast<size_t>( image.rowSize() ) * image.height(); ++i )
                    image.data()[i] = static_cast<uint8_t>( low + static_cast<int>( r.below( static_cast<uint32_t>( high - low + 1 ) ) ) );
                break;
            }
            default: {
                pbt::Stream r( s.raw( 3 ) );
                for ( size_t i = 0; i < static_cast<size_t>( image.rowSize() ) * image.height(); ++i )
                    image.data()[i] = static_cast<uint8_t>( r.below( 10 ) == 0 ? ( r.next() & 1 ? 0 : 255 ) : r.below( 256 ) );
                break;
            }
            }
            return image;
        };
        const uint32_t steps = 1 + static_cast<uint32_t>( s.upto( 7 ) );
        for ( uint32_t step = 0; step < steps; ++step ) {
            uint32_t pw = w, ph = h;
            uint8_t cc = 1;
            bool empty = false;
            switch ( s.upto( 11 ) ) {
            case 11:
                pw += 1;
                break;
            case 10:
                ph += 1;
                break;
            case 9:
                pw = std::max( 1u, pw - 1 );
                break;
            case 8:
                ph = std::max( 1u, ph - 1 );
                break;
            case 7:
                cc = s.pick<uint8_t>( { 3, 4 } );
                break;
            case 6:
                std::swap( pw, ph );
                break;
            case 5:
                empty = s.flag();
                break;
            default:
                break;
            }
            Image image = empty ? Image() : picture( pw, ph, cc );
            const Snap before = snap( image );
            const uint32_t kind = static_cast<uint32_t>( s.upto( 6 ) );
            if ( kind <= 1 ) {
                // what is expected
                int low = 255, high = 0;
                if ( !empty )
                    for ( uint32_t y = 0; y < ph; ++y )
                        for ( uint32_t x = 0; x < pw; ++x ) {
                            const int v = before.at( x, y );
                            if ( v > 0 && v < low )
                                low = v;
                            if ( v < 255 && v > high )
                                high = v;
                        }
                const bool bad = empty || cc != 1 || low >= high;
                PBT_NOTE( ctx, "analyse " << show( before ) << '\n' );
                const bool no = refused( [&] { light->analyze( image ); } );
                if ( bad )
                    PBT_CHECK( no, "analysis of an image which has no different levels, is empty or has colors is not refused" );
                if ( low < high && !bad )
                    PBT_CHECK( !no, "analysis is refused" );
                PBT_CHECK( snap( image ) == before, "analysis changes the image" );
                if ( !bad ) {
                    model.known = true;
                    model.w = pw;
                    model.h = ph;
                    model.top = high;
                    model.reference.clear();
                    for ( uint32_t y = 0; y < ph; ++y )
                        for ( uint32_t x = 0; x < pw; ++x )
                            model.reference.push_back( before.at( x, y ) );
                    if ( s.flag() )
                        ctx.label( "analysed" );
                }
                continue;
            }
            if ( kind == 2 ) {
                PBT_NOTE( ctx, "search in " << show( before ) << '\n' );
                std::vector<std::pair<uint32_t, uint32_t>> expected, got;
                if ( empty || cc != 1 ) {
                    PBT_CHECK( refused( [&] { light->findIncorrectPixels( image ); } ), "search in an empty or a color image is not refused" );
                    continue;
                }
                for ( const auto & p : light->findIncorrectPixels( image ) )
                    got.emplace_back( p.y, p.x );
                for ( uint32_t y = 0; y < ph; ++y )
                    for ( uint32_t x = 0; x < pw; ++x )
                        if ( before.at( x, y ) == 0 || before.at( x, y ) == 255 )
                            expected.emplace_back( y, x );
                std::sort( got.begin(), got.end() );
                PBT_CHECK( got == expected, got.size() << " incorrect pixels are found instead of " << expected.size() );
                PBT_CHECK( snap( image ) == before, "search changes the image" );
                continue;
            }
            uint32_t x = 0, y = 0, rw = pw, rh = ph;
            bool whole = kind <= 4;
            bool badRectangle = false;
            if ( kind == 3 && model.known && !empty && cc == 1 && pw == model.w && ph == model.h ) { // the analysed image itself
                for ( uint32_t b = 0; b < ph; ++b )
                    for ( uint32_t a = 0; a < pw; ++a )
                        image.data()[static_cast<size_t>( b ) * image.rowSize() + a] = model.reference[static_cast<size_t>( b ) * pw + a];
            }
            if ( !whole ) {
                x = static_cast<uint32_t>( s.upto( pw - 1 ) );
                y = static_cast<uint32_t>( s.upto( ph - 1 ) );
                rw = 1 + static_cast<uint32_t>( s.upto( pw - x - 1 ) );
                rh = 1 + static_cast<uint32_t>( s.upto( ph - y - 1 ) );
                if ( s.chance( 30 ) ) {
                    badRectangle = true;
                    switch ( s.upto( 2 ) ) {
                    case 0:
                        rw = pw - x + 1;
                        break;
                    case 1:
                        rh = ph - y + 1;
                        break;
                    default:
                        ( s.flag() ? rw : rh ) = 0;
                        break;
                    }
                }
            }
            const Snap from = snap( image );
            PBT_NOTE( ctx, "correct (" << x << ", " << y << ") " << rw << 'x' << rh << " of " << show( from ) << '\n' );
            const bool no = refused( [&] {
                if ( whole )
                    light->correct( image );
                else
                    light->correct( image, x, y, rw, rh );
            } );
            const bool bad = empty || badRectangle || !model.known || cc != 1 || pw != model.w || ph != model.h;
            PBT_CHECK( no == bad, "correction " << ( no ? "is refused" : "of an image of another size or type, of a wrong rectangle or without analysis is not refused" ) );
            const Snap after = snap( image );
            if ( no ) {
                PBT_CHECK( after == from, "refused correction changes the image" );
                continue;
            }
            ctx.nontrivial = true;
            for ( uint32_t b = 0; b < from.h; ++b )
                for ( uint32_t a = 0; a < from.row; ++a ) {
                    const int old = from.d[static_cast<size_t>( b ) * from.row + a], now = after.d[static_cast<size_t>( b ) * from.row + a];
                    if ( a < x || a >= x + rw || b < y || b >= y + rh ) {
                        PBT_CHECK( old == now, "byte " << a << " of row " << b << " out of the rectangle is changed" );
                        continue;
                    }
                    const int reference = model.reference[static_cast<size_t>( b ) * model.w + a];
                    if ( reference == 0 || reference == 255 ) {
                        PBT_CHECK( now == old, "pixel (" << a << ", " << b << ") changes from " << old << " to " << now << " though its illumination is " << reference );
                        continue;
                    }
                    if ( old == reference )
                        PBT_CHECK( now == model.top, "pixel (" << a << ", " << b << ") of the illumination itself becomes " << now << " instead of " << model.top );
                    const double value = static_cast<double>( old ) * model.top / reference;
                    PBT_CHECK( value >= 255.48 ? now == 255 : std::fabs( now - value ) <= 0.52,
                               "pixel (" << a << ", " << b << ") changes from " << old << " to " << now << " instead of " << value << ", illumination " << reference << " of " << model.top );
                }
        }
    } );
}
