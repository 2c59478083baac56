// P33: CUDA image functions (executed by the emulator in pbt/cuda) against the reference of the CPU functions, transfers, device memory, devices
#include "cuda/cuda_device.cuh"
#include "cuda/cuda_fft.cuh"
#include "cuda/cuda_helper.cuh"
#include "cuda/cuda_types.cuh"
#include "cuda/filtering_cuda.cuh"
#include "cuda/image_buffer_cuda.cuh"
#include "cuda/image_buffer_cuda_pinned.cuh"
#include "cuda/image_function_cuda.cuh"
#include "filtering.h"
#include "image_function.h"
#include "image_function_helper.h"
#include "ops.h"
#include <cmath>
#include <complex>
#include <memory>

using namespace hv;
using penguinV::ImageCuda;

namespace
{
    const char * RULE = "operation, call form, sizes, margins, alignment, channels and contents drawn from the tape, the same data on the device; "
                        "non-trivial: the processed rectangle has more than one pixel";

    multiCuda::CudaDeviceManager & manager()
    {
        static bool ready = false;
        if ( !ready ) {
            multiCuda::CudaDeviceManager::instance().initializeDevices();
            ready = true;
        }
        return multiCuda::CudaDeviceManager::instance();
    }

    // Order of threads of kernels, size of blocks, streams; at the end nothing may be left on the device
    struct Device
    {
        size_t allocations, host, plans;
        bool changed = false;

        Device( Src & s, Ctx & ctx, bool failures = false )
        {
            multiCuda::CudaDevice & device = manager().device();
            cudaEmulator::settings.step = s.pick<uint64_t>( { 1, 1, 31, 1000003 } );
            cudaEmulator::settings.backward = s.flag();
            cudaEmulator::settings.failAllocation = -1;
            if ( s.chance( 60 ) ) {
                const uint32_t threads = 32 * ( 1 + static_cast<uint32_t>( s.upto( 31 ) ) );
                PBT_NOTE( ctx, threads << " threads per block; " );
                device.setThreadsPerBlock( threads );
                changed = true;
            }
            const size_t streams = s.chance( 30 ) ? s.upto( 3 ) : device.streamCount();
            if ( streams != device.streamCount() ) {
                PBT_NOTE( ctx, streams << " streams; " );
                device.setStreamCount( streams );
                changed = true;
            }
            if ( streams > 0 )
                device.setCurrentStreamId( s.upto( streams - 1 ) );
            if ( s.chance( 12 ) ) {
                const size_t size = s.pick<size_t>( { 1024, 65536, 1 << 20, 300000 } );
                PBT_NOTE( ctx, "reserve " << size << "; " );
                multiCuda::MemoryManager::memory().reserve( size );
            }
            allocations = cudaEmulator::liveAllocations();
            host = cudaEmulator::liveHostAllocations();
            plans = cudaEmulator::livePlans();
            if ( failures )
                cudaEmulator::settings.failAllocation = static_cast<long>( s.upto( 6 ) );
        }
        // everything of the case is released
        void end()
        {
            PBT_CHECK( cudaEmulator::liveAllocations() == allocations, cudaEmulator::liveAllocations() << " blocks of device memory instead of " << allocations );
            PBT_CHECK( cudaEmulator::liveHostAllocations() == host, cudaEmulator::liveHostAllocations() << " blocks of pinned memory instead of " << host );
            PBT_CHECK( cudaEmulator::livePlans() == plans, cudaEmulator::livePlans() << " plans of transforms instead of " << plans );
            PBT_CHECK( cudaPeekAtLastError() == cudaSuccess, "an error is left: " << int( cudaPeekAtLastError() ) );
        }
        ~Device()
        {
            cudaEmulator::settings.failAllocation = -1;
            cudaEmulator::poison();
            cudaGetLastError();
            if ( changed ) {
                multiCuda::CudaDevice & device = manager().device();
                device.setThreadsPerBlock( device.maximumThreadsPerBlock() );
                device.setStreamCount( 0 );
            }
        }
    };

    // The same image on the device, every byte
    Image upload( const Snap & s )
    {
        Image image = ImageCuda( s.w, s.h, s.cc, s.al );
        PBT_CHECK( image.rowSize() == s.row && image.type() != Image().type(), "an image on the device has another geometry" );
        if ( !s.d.empty() )
            cudaEmulator::poke( image.data(), s.d.data(), s.d.size() );
        return image;
    }
    Image upload( const Image & image )
    {
        return upload( snap( image ) );
    }

    // The same image in the memory of CPU, every byte
    Snap deviceSnap( const Image & image )
    {
        Snap s;
        s.w = image.width();
        s.h = image.height();
        s.row = image.rowSize();
        s.cc = image.colorCount();
        s.al = image.alignment();
        s.d.resize( static_cast<size_t>( s.row ) * s.h );
        if ( !s.d.empty() )
            cudaEmulator::peek( s.d.data(), image.data(), s.d.size() );
        return s;
    }
    Image download( const Image & image )
    {
        const Snap s = deviceSnap( image );
        Image out( s.w, s.h, s.cc, s.al );
        PBT_CHECK( out.rowSize() == s.row, "an image on the device has another size of rows" );
        std::copy( s.d.begin(), s.d.end(), out.data() );
        return out;
    }

    std::function<void( Src &, Ctx & )> onCuda( void ( *f )( Src &, Ctx & ) )
    {
        return [f]( Src & s, Ctx & ctx ) {
            Device device( s, ctx );
            f( s, ctx );
            device.end();
        };
    }

    bool refused( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const std::exception & ) {
            return true;
        }
        return false;
    }

    bool onDevice( Call & c, RunFunction run )
    {
        struct Back
        {
            Call & c;
            void operator()()
            {
                for ( Slot & slot : c.in )
                    slot.img = download( slot.img );
                for ( Slot & slot : c.out )
                    slot.img = download( slot.img );
            }
        } back{ c };
        for ( Slot & slot : c.in ) {
            Image image = upload( slot.img );
            slot.img.swap( image );
        }
        for ( Slot & slot : c.out ) {
            Image image = upload( slot.img );
            slot.img.swap( image );
        }
        const uint8_t type = ImageCuda().type();
        bool done = false;
        try {
            done = run( c );
        }
        catch ( ... ) {
            back();
            throw;
        }
        for ( const Slot & slot : c.out )
            PBT_CHECK( slot.img.type() == type, "the output is not on the device" );
        back();
        return done;
    }

    bool runDevice( Call & c )
    {
        return onDevice( c, runCuda );
    }
    bool runDeviceGeneric( Call & c )
    {
        return onDevice( c, runGeneric );
    }

    // The functions of the device which refuse colour images
    bool grayOnly( const Call & c )
    {
        return ( c.op == GammaCorrection || c.op == Histogram || c.op == Fill ) && c.in[0].img.colorCount() != 1;
    }

    bool checkDeviceCall( Call & c, RunFunction run )
    {
        const bool mayRefuse = grayOnly( c );
        const Before b = before( c );
        try {
            if ( !run( c ) )
                return false;
        }
        catch ( const penguinVException & e ) {
            if ( !mayRefuse )
                throw;
            for ( size_t i = 0; i < c.in.size(); ++i )
                PBT_CHECK( snap( c.in[i].img ) == b.in[i], "a refused call changed image " << i );
            for ( size_t i = 0; i < b.out.size() && c.alias < 0 && !c.returns(); ++i )
                PBT_CHECK( snap( c.out[i].img ) == b.out[i], "a refused call changed output " << i );
            return true;
        }
        Expected e;
        reference( c, b, e );
        verify( c, b, e, VALUES | FRAME );
        return true;
    }

    const std::vector<Op> & deviceOps()
    {
        static const std::vector<Op> v{ AbsoluteDifference, BitwiseAnd, BitwiseOr,    BitwiseXor, Maximum,           Minimum,        Subtract, Invert, Threshold, Threshold2, LookupTable,
                                        GammaCorrection,    Copy,         Fill,       SetPixel,          SetPixel2,      Flip,     IsEqual, ConvertToGrayScale, ConvertToRgb,
                                        ExtractChannel,     Histogram,  ProjectionProfile };
        return v;
    }
    // the functions which the generic interface finds on the device
    const std::vector<Op> & tableOps()
    {
        static const std::vector<Op> v{ AbsoluteDifference, BitwiseAnd, BitwiseOr, BitwiseXor, Maximum, Minimum, Subtract, Invert, Threshold, Threshold2, LookupTable, GammaCorrection,
                                        Copy, Fill, SetPixel, ConvertToGrayScale, ConvertToRgb, ExtractChannel, Histogram, ProjectionProfile };
        return v;
    }

    GenOptions deviceOptions( Src & s )
    {
        GenOptions o;
        o.area = pbt::thorough() ? 20000 : 4000;
        o.limit = s.chance( 128 ) ? 6000 : 1200; // rarely more than 16 bits of coordinates
        return o;
    }

    void note( Ctx & ctx, const Call & c )
    {
        ctx.label( std::string( "op:" ) + opName( c.op ) );
        ctx.nontrivial = nontrivialCall( c );
        PBT_NOTE( ctx, describe( c ) );
    }

    pbt::Register p33( "P33", "functions", 6, RULE, onCuda( []( Src & s, Ctx & ctx ) {
        Call c;
        genCall( s, c, s.pickFrom( deviceOps() ), deviceOptions( s ) );
        note( ctx, c );
        if ( !checkDeviceCall( c, runDevice ) )
            throw pbt::Discard();
    } ) );

    pbt::Register p33b( "P33", "generic functions", 2, RULE, onCuda( []( Src & s, Ctx & ctx ) {
        Call c;
        genCall( s, c, s.pickFrom( tableOps() ), deviceOptions( s ) );
        note( ctx, c );
        if ( !checkDeviceCall( c, runDeviceGeneric ) )
            throw pbt::Discard();
    } ) );

    pbt::Register p33c( "P33", "transfers", 3, "images of any alignment to the device and back in every form, sizes and channels which differ; non-trivial: more than one pixel", onCuda( []( Src & s, Ctx & ctx ) {
        uint32_t w, h;
        genSize( s, w, h, 4000, 1200 );
        if ( s.chance( 1 ) && s.chance( 64 ) ) {
            w = 65530 + static_cast<uint32_t>( s.upto( 20 ) );
            h = 1 + static_cast<uint32_t>( s.upto( 1 ) );
            if ( s.flag() )
                std::swap( w, h );
        }
        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } );
        const Image image = genImage( s, w, h, cc, genAlignment( s ) );
        const Snap was = snap( image );
        ctx.nontrivial = w > 1 && h > 1;
        PBT_NOTE( ctx, show( was ) );
        Image device;
        if ( s.flag() ) {
            Image made = Image_Function_Cuda::ConvertToCuda( image );
            device.swap( made );
        }
        else {
            const Image stale = genImage( s, w, h, cc, genAlignment( s ) );
            Image made = upload( stale );
            device.swap( made );
            PBT_NOTE( ctx, " to alignment " << int( device.alignment() ) );
            Image_Function_Cuda::ConvertToCuda( image, device );
        }
        PBT_CHECK( snap( image ) == was, "upload changed the image" );
        PBT_CHECK( device.width() == w && device.height() == h && device.colorCount() == cc && device.type() == ImageCuda().type(), "the image on the device has another geometry" );
        auto same = [&]( const Snap & got, const std::string & what ) {
            PBT_CHECK( got.w == w && got.h == h && got.cc == cc, what << " has another size" );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t i = 0; i < w * cc; ++i )
                    PBT_CHECK( got.d[static_cast<size_t>( y ) * got.row + i] == was.d[static_cast<size_t>( y ) * was.row + i], what << " differs at row " << y << ", byte " << i );
        };
        const Snap onCard = deviceSnap( device );
        same( onCard, "the image on the device" );
        if ( s.flag() ) {
            same( snap( Image_Function_Cuda::ConvertFromCuda( device ) ), "the downloaded image" );
        }
        else {
            Image out = genImage( s, w, h, cc, genAlignment( s ) );
            PBT_NOTE( ctx, " back to alignment " << int( out.alignment() ) );
            const Snap before = snap( out );
            Image_Function_Cuda::ConvertFromCuda( device, out );
            const Snap after = snap( out );
            same( after, "the downloaded image" );
            PBT_CHECK( after.row == before.row && after.al == before.al, "download changed the geometry" );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t i = w * cc; i < before.row; ++i )
                    PBT_CHECK( after.d[static_cast<size_t>( y ) * before.row + i] == before.d[static_cast<size_t>( y ) * before.row + i], "download changed bytes behind a row" );
        }
        PBT_CHECK( deviceSnap( device ) == onCard, "download changed the image on the device" );
        // other sizes
        const uint32_t wrong = static_cast<uint32_t>( s.upto( 3 ) );
        Image other( wrong == 0 ? w + 1 : w, wrong == 1 ? h + 1 : h, wrong == 2 ? ( cc == 1 ? 3 : 1 ) : cc );
        if ( wrong == 3 )
            other.clear();
        Image otherDevice = upload( Snap( snap( other ) ) );
        PBT_CHECK( refused( [&] { Image_Function_Cuda::ConvertToCuda( image, otherDevice ); } ), "upload to another size is not refused" );
        PBT_CHECK( refused( [&] { Image_Function_Cuda::ConvertFromCuda( device, other ); } ), "download to another size is not refused" );
        PBT_CHECK( deviceSnap( device ) == onCard, "a refused transfer changed the image on the device" );
    } ) );

    pbt::Register p33d( "P33", "refusals", 2, "a valid generated call made invalid in one respect; non-trivial: every call that is invalid", onCuda( []( Src & s, Ctx & ctx ) {
        GenOptions o = deviceOptions( s );
        o.area = 1500;
        o.limit = 300;
        Call c;
        genCall( s, c, s.pickFrom( deviceOps() ), o );
        std::string wrong;
        for ( int i = 0; i < 4 && wrong.empty(); ++i )
            wrong = breakCall( s, c );
        if ( wrong.empty() || wrong == "no points" || ( c.op == Copy && c.form == 2 ) ) // no points are set by SetPixel of the device
            throw pbt::Discard();
        ctx.label( "wrong:" + wrong.substr( 0, wrong.find_first_of( "0123456789" ) ) );
        note( ctx, c );
        ctx.nontrivial = true;
        PBT_NOTE( ctx, "; invalid: " << wrong );
        const Before b = before( c );
        bool refused = false;
        try {
            if ( !runDevice( c ) )
                throw pbt::Discard();
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        PBT_CHECK( refused, "an invalid call was accepted: " << wrong );
        for ( size_t i = 0; i < c.in.size(); ++i )
            PBT_CHECK( snap( c.in[i].img ) == b.in[i], "a refused call changed image " << i << ": " << wrong );
        if ( c.alias < 0 && !c.returns() ) {
            for ( size_t i = 0; i < b.out.size(); ++i )
                PBT_CHECK( snap( c.out[i].img ) == b.out[i], "a refused call changed output " << i << ": " << wrong );
        }
    } ) );

    // calls with images on the processor and on the device ------------------------------------------------------------

    pbt::Register p33e( "P33", "mixed types", 2, "generic calls of all operations, some images on the device, conversion of types enabled; non-trivial: more than one pixel", onCuda( []( Src & s, Ctx & ctx ) {
        static const std::vector<Op> ops{ AbsoluteDifference, BitwiseAnd, BitwiseOr, BitwiseXor, Maximum, Minimum, Subtract, Invert, Threshold, Threshold2, LookupTable,
                                          GammaCorrection, Normalize, Copy, Fill, SetPixel, SetPixel2, GetPixel, ConvertToGrayScale, ConvertToRgb, RgbToBgr, Merge, Split,
                                          ExtractChannel, Sum, Histogram, ProjectionProfile, Accumulate, IsEqual, Flip, Transpose, Resize };
        GenOptions o = deviceOptions( s );
        o.alias = false;
        Call c;
        genCall( s, c, s.pickFrom( ops ), o );
        if ( ( c.op == Copy || c.op == Fill ) && c.form == 2 )
            throw pbt::Discard();
        note( ctx, c );
        const uint32_t which = 1 + static_cast<uint32_t>( s.upto( 14 ) );
        PBT_NOTE( ctx, "; on the device: mask " << which );
        const uint8_t type = ImageCuda().type();
        const bool mayRefuse = grayOnly( c );
        const Before b = before( c );
        uint32_t bit = 0;
        std::vector<uint8_t> types;
        auto move = [&]( Slot & slot ) {
            if ( which & ( 1u << bit ) ) {
                Image image = upload( slot.img );
                slot.img.swap( image );
            }
            ++bit;
        };
        for ( Slot & slot : c.in )
            move( slot );
        if ( c.alias < 0 && !c.returns() ) {
            for ( Slot & slot : c.out ) {
                move( slot );
                types.push_back( slot.img.type() );
            }
        }
        auto back = [&]() {
            for ( std::vector<Slot> * v : { &c.in, &c.out } )
                for ( Slot & slot : *v )
                    if ( slot.img.type() == type )
                        slot.img = download( slot.img );
        };
        ImageTypeManager::instance().enableIntertypeConversion( true );
        try {
            if ( !runGeneric( c ) )
                throw pbt::Discard();
        }
        catch ( const penguinVException & ) {
            ImageTypeManager::instance().enableIntertypeConversion( false );
            if ( !mayRefuse )
                throw;
            return;
        }
        ImageTypeManager::instance().enableIntertypeConversion( false );
        for ( size_t i = 0; i < types.size(); ++i )
            PBT_CHECK( c.out[i].img.type() == types[i], "output " << i << " has another type" );
        back();
        Expected e;
        reference( c, b, e );
        verify( c, b, e, VALUES | FRAME );
    } ) );

    // histories of images on the device --------------------------------------------------------------------------------

    template <typename T, typename TImage, bool PINNED>
    void imageHistory( Src & s, Ctx & ctx )
    {
        typedef penguinV::ImageTemplate<T> Base;
        manager();
        struct Model
        {
            bool device = false, known = true;
            uint32_t w = 0, h = 0, row = 0;
            uint8_t cc = 1, al = 1;
            std::vector<T> d;
        };
        // the type of image lives in the object: slots 0 - 2 are images of the device, slots 3 - 4 are plain images
        const size_t slots = 5;
        {
            std::vector<Base> image( slots );
            std::vector<Model> model( slots );
            for ( size_t i = 0; i < 3; ++i ) {
                TImage made;
                image[i].swap( made );
                model[i].device = true;
            }
            auto check = [&]( size_t i ) {
                const Model & m = model[i];
                const Base & im = image[i];
                PBT_CHECK( im.width() == m.w && im.height() == m.h && im.colorCount() == m.cc && im.alignment() == m.al,
                           "image " << i << " is " << im.width() << 'x' << im.height() << 'x' << int( im.colorCount() ) << " alignment " << int( im.alignment() ) << " instead of " << m.w << 'x'
                                    << m.h << 'x' << int( m.cc ) << " alignment " << int( m.al ) );
                PBT_CHECK( im.empty() == ( m.w == 0 ), "image " << i << " is wrongly empty or not" );
                PBT_CHECK( ( im.type() == TImage().type() ) == m.device, "image " << i << " has another type" );
                PBT_CHECK( im.rowSize() == m.row, "image " << i << " has rows of " << im.rowSize() << " instead of " << m.row );
                if ( m.w == 0 || !m.known )
                    return;
                std::vector<T> got( static_cast<size_t>( m.row ) * m.h );
                if ( m.device && !PINNED )
                    cudaEmulator::peek( got.data(), im.data(), got.size() * sizeof( T ) );
                else
                    std::copy( im.data(), im.data() + got.size(), got.data() );
                for ( size_t k = 0; k < got.size(); ++k )
                    PBT_CHECK( got[k] == m.d[k], "image " << i << ": element " << k % m.row << " of row " << k / m.row << " is " << int( got[k] ) << " instead of " << int( m.d[k] ) );
            };
            auto resized = [&]( Model & m, uint32_t w, uint32_t h ) {
                m.w = w;
                m.h = h;
                const uint32_t bytes = w * m.cc;
                m.row = w == 0 ? 0 : ( bytes + m.al - 1 ) / m.al * m.al;
                m.known = false;
                m.d.assign( static_cast<size_t>( m.row ) * h, 0 );
            };
            const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 14 ) );
            for ( uint32_t step = 0; step < steps; ++step ) {
                const size_t i = s.upto( slots - 1 ), j = s.upto( slots - 1 );
                Model & m = model[i];
                switch ( s.upto( 8 ) ) {
                case 0: { // another image of the device
                    uint32_t w, h;
                    genSize( s, w, h, 2000, 300 );
                    const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } ), al = genAlignment( s );
                    PBT_NOTE( ctx, i << " = new " << w << 'x' << h << 'x' << int( cc ) << " al " << int( al ) << "; " );
                    TImage made( w, h, cc, al );
                    if ( s.flag() )
                        image[i].swap( made );
                    else {
                        TImage taken( std::move( made ) );
                        image[i] = std::move( static_cast<Base &>( taken ) );
                    }
                    m.device = true;
                    m.cc = cc;
                    m.al = al;
                    resized( m, w, h );
                    break;
                }
                case 1: {
                    uint32_t w, h;
                    genSize( s, w, h, 2000, 300 );
                    PBT_NOTE( ctx, i << ".resize " << w << 'x' << h << "; " );
                    const bool same = m.w == w && m.h == h;
                    image[i].resize( w, h );
                    if ( !same )
                        resized( m, w, h );
                    break;
                }
                case 2:
                case 3: {
                    const T value = static_cast<T>( s.raw( sizeof( T ) ) );
                    if ( m.w == 0 || ( ( !m.device || PINNED ) && sizeof( T ) > 1 ) )
                        break;
                    PBT_NOTE( ctx, i << ".fill " << int( value ) << "; " );
                    image[i].fill( value );
                    std::fill( m.d.begin(), m.d.end(), value );
                    m.known = true;
                    break;
                }
                case 4: {
                    if ( m.w == 0 )
                        break;
                    PBT_NOTE( ctx, "write " << i << "; " );
                    pbt::Stream r( s.raw( 3 ) );
                    for ( T & v : m.d )
                        v = static_cast<T>( r.next() );
                    if ( m.device && !PINNED )
                        cudaEmulator::poke( image[i].data(), m.d.data(), m.d.size() * sizeof( T ) );
                    else
                        std::copy( m.d.begin(), m.d.end(), image[i].data() );
                    m.known = true;
                    break;
                }
                case 5:
                    PBT_NOTE( ctx, i << " = " << j << "; " );
                    if ( m.device != model[j].device ) {
                        const bool ok = refused( [&] { image[i] = image[j]; } );
                        PBT_CHECK( ok, "an image of the device is assigned to a plain image or the other way" );
                        break;
                    }
                    image[i] = image[j];
                    if ( i != j )
                        m = Model( model[j] );
                    break;
                case 6: {
                    PBT_NOTE( ctx, "swap " << i << ' ' << j << "; " );
                    image[i].swap( image[j] );
                    std::swap( model[i], model[j] );
                    break;
                }
                case 7: {
                    PBT_NOTE( ctx, i << " = copy " << j << "; " );
                    Base copy( image[j] );
                    image[i] = std::move( copy );
                    if ( i != j )
                        m = Model( model[j] );
                    break;
                }
                default: {
                    if ( s.flag() ) {
                        PBT_NOTE( ctx, "clear " << i << "; " );
                        image[i].clear();
                        m.w = m.h = m.row = 0;
                        m.d.clear();
                        m.known = true;
                    }
                    else {
                        uint32_t w, h;
                        genSize( s, w, h, 2000, 300 );
                        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } );
                        PBT_NOTE( ctx, i << " = " << j << ".generate " << w << 'x' << h << 'x' << int( cc ) << "; " );
                        image[i] = image[j].generate( w, h, cc );
                        const bool device = model[j].device;
                        m.device = device;
                        m.cc = cc;
                        m.al = 1;
                        resized( m, w, h );
                    }
                    break;
                }
                }
                ctx.nontrivial = ctx.nontrivial || step > 3;
                check( i );
                check( j );
            }
            for ( size_t i = 0; i < slots; ++i )
                check( i );
        }
    }

    pbt::Register p33f( "P33", "image histories", 2, "2 to 16 operations on 3 images of the device (or in pinned memory) and 2 plain images; non-trivial: more than 4 steps", onCuda( []( Src & s, Ctx & ctx ) {
        if ( s.chance( 60 ) ) {
            PBT_NOTE( ctx, "pinned; " );
            imageHistory<uint8_t, penguinV::ImageCudaPinned, true>( s, ctx );
        }
        else if ( s.chance( 40 ) ) {
            PBT_NOTE( ctx, "16 bit; " );
            imageHistory<uint16_t, penguinV::ImageTemplateCuda<uint16_t>, false>( s, ctx );
        }
        else
            imageHistory<uint8_t, ImageCuda, false>( s, ctx );
    } ) );

    // rotation ---------------------------------------------------------------------------------------------------------

    pbt::Register p33g( "P33", "rotate", 1, "images of equal size, centers and angles of all kinds; non-trivial: more than one pixel, at least one pixel of the output is inside", onCuda( []( Src & s, Ctx & ctx ) {
        uint32_t w, h;
        genSize( s, w, h, 3000, 200 );
        const Image in = genImage( s, w, h, 1, genAlignment( s ) ), stale = genImage( s, w, h, 1, genAlignment( s ) );
        auto coordinate = [&s]( uint32_t size ) -> float {
            switch ( s.upto( 4 ) ) {
            case 0:
                return static_cast<float>( s.upto( size ) );
            case 1:
                return static_cast<float>( size ) / 2;
            case 2:
                return static_cast<float>( size - 1 ) / 2;
            case 3:
                return static_cast<float>( s.upto( 8 * size ) ) / 8.0f;
            default:
                return static_cast<float>( s.upto( 3 * size ) ) - static_cast<float>( size ) + static_cast<float>( s.unit() );
            }
        };
        const float cx = coordinate( w ), cy = coordinate( h );
        const bool same = s.flag();
        const float ox = same ? cx : coordinate( w ), oy = same ? cy : coordinate( h );
        const float angle = s.chance( 100 ) ? static_cast<float>( static_cast<double>( s.upto( 8 ) ) * M_PI / 4 - M_PI ) : static_cast<float>( s.unit() * 14 - 7 );
        PBT_NOTE( ctx, show( snap( in ) ) << " around (" << cx << ", " << cy << ") to (" << ox << ", " << oy << ") by " << angle );
        const Image deviceIn = upload( in );
        Image deviceOut = upload( stale );
        const Snap a = snap( in ), before = snap( stale );
        if ( s.chance( 20 ) ) {
            Image other = upload( genImage( s, w + 1, h, 1, 1 ) ), colour = upload( genImage( s, w, h, 3, 1 ) );
            PBT_CHECK( refused( [&] { Image_Function_Cuda::Rotate( deviceIn, cx, cy, other, ox, oy, angle ); } ), "rotation to an image of another size is not refused" );
            PBT_CHECK( refused( [&] { Image_Function_Cuda::Rotate( colour, cx, cy, colour, ox, oy, angle ); } ), "rotation of a colour image is not refused" );
        }
        Image_Function_Cuda::Rotate( deviceIn, cx, cy, deviceOut, ox, oy, angle );
        PBT_CHECK( deviceSnap( deviceIn ) == a, "rotation changed the input" );
        const Snap out = deviceSnap( deviceOut );
        PBT_CHECK( out.row == before.row && out.al == before.al && out.w == w && out.h == h, "rotation changed the geometry" );
        const double cosA = std::cos( static_cast<double>( angle ) ), sinA = std::sin( static_cast<double>( angle ) );
        const double eps = 6e-7 * ( 4 + std::fabs( cx ) + std::fabs( cy ) + std::fabs( ox ) + std::fabs( oy ) + w + h );
        const double slack = 2e-3 + 600 * eps; // a position may move to a neighbour cell
        bool any = false;
        for ( uint32_t y = 0; y < h; ++y ) {
            for ( uint32_t x = 0; x < w; ++x ) {
                const double dx = x - static_cast<double>( ox ), dy = y - static_cast<double>( oy );
                const double px = cosA * dx + sinA * dy + cx, py = -sinA * dx + cosA * dy + cy;
                int inside = 0;
                double lowest = 1e9, highest = -1;
                for ( int corner = 0; corner < 4; ++corner ) {
                    const double qx = px + ( corner & 1 ? eps : -eps ), qy = py + ( corner & 2 ? eps : -eps );
                    if ( qx < 0 || qy < 0 || std::floor( qx ) >= w - 1.0 || std::floor( qy ) >= h - 1.0 )
                        continue;
                    ++inside;
                    const uint32_t ix = static_cast<uint32_t>( qx ), iy = static_cast<uint32_t>( qy );
                    const double ax = qx - ix, ay = qy - iy;
                    const double v = ( a.at( ix, iy ) * ( 1 - ax ) + a.at( ix + 1, iy ) * ax ) * ( 1 - ay ) + ( a.at( ix, iy + 1 ) * ( 1 - ax ) + a.at( ix + 1, iy + 1 ) * ax ) * ay;
                    lowest = std::min( lowest, v );
                    highest = std::max( highest, v );
                }
                const int got = out.at( x, y );
                any = any || inside == 4;
                if ( inside == 0 )
                    PBT_CHECK( got == 0, "pixel (" << x << ", " << y << ") is " << got << " although (" << px << ", " << py << ") is outside" );
                else
                    PBT_CHECK( ( got >= std::floor( lowest + 0.5 - slack ) && got <= std::floor( highest + 0.5 + slack ) ) || ( inside < 4 && got == 0 ),
                               "pixel (" << x << ", " << y << ") is " << got << " instead of " << lowest << " to " << highest << " at (" << px << ", " << py << ")" );
            }
            for ( uint32_t i = w; i < out.row; ++i )
                PBT_CHECK( out.d[static_cast<size_t>( y ) * out.row + i] == before.d[static_cast<size_t>( y ) * out.row + i], "rotation changed bytes behind a row" );
        }
        ctx.nontrivial = any;
    } ) );

    // transforms -------------------------------------------------------------------------------------------------------

    std::vector<cufftComplex> contents( const FFT_Cuda::ComplexData & data )
    {
        std::vector<cufftComplex> v( static_cast<size_t>( data.width() ) * data.height() );
        if ( !v.empty() )
            cudaEmulator::peek( v.data(), data.data(), v.size() * sizeof( cufftComplex ) );
        return v;
    }

    typedef std::complex<double> Complex;
    std::vector<Complex> transformed( const std::vector<Complex> & in, uint32_t w, uint32_t h, int direction )
    {
        std::vector<Complex> rows( in.size() ), out( in.size() );
        auto root = [direction]( uint64_t k, uint32_t n ) { return std::polar( 1.0, direction * 2 * M_PI * static_cast<double>( k % n ) / n ); };
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t k = 0; k < w; ++k )
                for ( uint32_t x = 0; x < w; ++x )
                    rows[y * w + k] += in[y * w + x] * root( static_cast<uint64_t>( k ) * x, w );
        for ( uint32_t x = 0; x < w; ++x )
            for ( uint32_t k = 0; k < h; ++k )
                for ( uint32_t y = 0; y < h; ++y )
                    out[k * w + x] += rows[y * w + x] * root( static_cast<uint64_t>( k ) * y, h );
        return out;
    }

    void same( const std::vector<cufftComplex> & got, const std::vector<Complex> & wanted, const char * what )
    {
        double norm = 1;
        for ( const Complex & v : wanted )
            norm += std::norm( v );
        const double tolerance = 1e-5 * std::sqrt( norm );
        PBT_CHECK( got.size() == wanted.size(), what << " has " << got.size() << " values instead of " << wanted.size() );
        for ( size_t i = 0; i < got.size(); ++i )
            PBT_CHECK( std::fabs( got[i].x - wanted[i].real() ) <= tolerance && std::fabs( got[i].y - wanted[i].imag() ) <= tolerance,
                       what << ": value " << i << " is (" << got[i].x << ", " << got[i].y << ") instead of (" << wanted[i].real() << ", " << wanted[i].imag() << ")" );
    }

    // assignment of complex data is declared for its base
    template <typename T>
    void assign( FFT_Cuda::ComplexData & to, T && from )
    {
        typedef FFT::BaseComplexData<cufftComplex> Base;
        static_cast<Base &>( to ) = static_cast<typename std::conditional<std::is_lvalue_reference<T>::value, const Base &, Base &&>::type>( from );
    }

    double biggest( const std::vector<Complex> & values )
    {
        double value = 0;
        for ( const Complex & v : values )
            value = std::max( value, std::abs( v ) );
        return value;
    }

    pbt::Register p33h( "P33", "transforms", 2, "complex data from images of any alignment and from arrays, direct and inverse transforms and products in any aliasing; non-trivial: more than one row and column", onCuda( []( Src & s, Ctx & ctx ) {
        auto size = [&s]() { return 1 + static_cast<uint32_t>( s.upto( s.flag() ? 7 : 20 ) ); };
        const uint32_t w = size(), h = s.chance( 60 ) ? w : size();
        ctx.nontrivial = w > 1 && h > 1;
        PBT_NOTE( ctx, w << 'x' << h << "; " );
        const size_t count = static_cast<size_t>( w ) * h;
        FFT_Cuda::ComplexData data[3];
        std::vector<Complex> model[3];
        const bool other = s.flag();
        FFT_Cuda::FFTExecutor executor( other ? size() : w, other ? size() : h );
        executor.initialize( w, h );
        PBT_CHECK( executor.width() == w && executor.height() == h, "the executor has another size" );
        bool isImage[3] = {};
        Snap image[3];
        auto check = [&]( const char * what ) {
            for ( int i = 0; i < 3; ++i ) {
                PBT_CHECK( data[i].empty() == model[i].empty() && ( model[i].empty() || ( data[i].width() == w && data[i].height() == h ) ), what << ": data " << i << " has another size" );
                const std::vector<cufftComplex> got = contents( data[i] );
                same( got, model[i], what );
                for ( size_t p = 0; p < got.size(); ++p )
                    model[i][p] = Complex( got[p].x, got[p].y );
            }
        };
        const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 6 ) );
        for ( uint32_t step = 0; step < steps; ++step ) {
            const uint32_t i = static_cast<uint32_t>( s.upto( 2 ) ), j = static_cast<uint32_t>( s.upto( 2 ) ), k = static_cast<uint32_t>( s.upto( 2 ) );
            switch ( step == 0 ? s.upto( 1 ) : s.upto( 8 ) ) {
            case 0: {
                const Image source = genImage( s, w, h, 1, genAlignment( s ) );
                PBT_NOTE( ctx, i << " = image of alignment " << int( source.alignment() ) << "; " );
                image[i] = snap( source );
                const Image device = upload( source );
                if ( s.flag() )
                    data[i].set( device );
                else
                    assign( data[i], FFT_Cuda::ComplexData( device ) );
                PBT_CHECK( deviceSnap( device ) == image[i], "the image is changed" );
                isImage[i] = true;
                model[i].resize( count );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x )
                        model[i][y * w + x] = image[i].at( x, y );
                break;
            }
            case 1: {
                PBT_NOTE( ctx, i << " = array; " );
                std::vector<float> values( count );
                pbt::Stream r( s.raw( 3 ) );
                for ( float & v : values )
                    v = static_cast<float>( r.next() % 2001 ) / 10.0f - 100.0f;
                const multiCuda::Array<float> array( values );
                data[i].resize( w, h );
                data[i].set( array );
                isImage[i] = false;
                model[i].assign( values.begin(), values.end() );
                break;
            }
            case 2:
            case 3: {
                const bool direct = s.flag();
                if ( model[i].empty() || biggest( model[i] ) > 1e25 )
                    break;
                PBT_NOTE( ctx, ( direct ? "direct " : "inverse " ) << i << " to " << j << "; " );
                if ( i == j && s.flag() )
                    direct ? executor.directTransform( data[i] ) : executor.inverseTransform( data[i] );
                else {
                    data[j].resize( w, h );
                    direct ? executor.directTransform( data[i], data[j] ) : executor.inverseTransform( data[i], data[j] );
                }
                model[j] = transformed( model[i], w, h, direct ? -1 : 1 );
                isImage[j] = false;
                break;
            }
            case 4: {
                if ( model[i].empty() || model[j].empty() || biggest( model[i] ) * biggest( model[j] ) > 1e25 )
                    break;
                PBT_NOTE( ctx, k << " = " << i << " * " << j << "; " );
                data[k].resize( w, h );
                if ( s.flag() ) { // any executor can do this
                    const FFT_Cuda::FFTExecutor other( s.flag() ? w + 3 : size(), size() );
                    other.complexMultiplication( data[i], data[j], data[k] );
                }
                else
                    executor.complexMultiplication( data[i], data[j], data[k] );
                std::vector<Complex> product( count );
                for ( size_t p = 0; p < count; ++p )
                    product[p] = model[i][p] * model[j][p];
                model[k] = product;
                isImage[k] = false;
                break;
            }
            case 5: {
                PBT_NOTE( ctx, i << " = copy of " << j << "; " );
                if ( s.flag() )
                    assign( data[i], data[j] );
                else {
                    FFT_Cuda::ComplexData copy( data[j] );
                    assign( data[i], std::move( copy ) );
                }
                model[i] = std::vector<Complex>( model[j] );
                isImage[i] = isImage[j];
                image[i] = Snap( image[j] );
                break;
            }
            case 6: {
                if ( !isImage[i] )
                    break;
                PBT_NOTE( ctx, "image of " << i << " by transforms; " );
                executor.directTransform( data[i] );
                executor.inverseTransform( data[i] );
                const Image back = data[i].get();
                PBT_CHECK( back.type() == ImageCuda().type(), "the image is not on the device" );
                const Snap got = deviceSnap( back );
                PBT_CHECK( got.w == w && got.h == h && got.cc == 1, "the image has another size" );
                for ( uint32_t y = 0; y < h; ++y )
                    for ( uint32_t x = 0; x < w; ++x ) {
                        const uint32_t ox = ( x + w - w / 2 ) % w, oy = ( y + h - h / 2 ) % h;
                        PBT_CHECK( got.at( ox, oy ) == image[i].at( x, y ), "pixel (" << ox << ", " << oy << ") is " << int( got.at( ox, oy ) ) << " instead of " << int( image[i].at( x, y ) ) );
                    }
                for ( Complex & v : model[i] )
                    v *= static_cast<double>( count );
                isImage[i] = false;
                break;
            }
            case 7: {
                PBT_NOTE( ctx, "refusals; " );
                FFT_Cuda::FFTExecutor other( w + 1, h );
                FFT_Cuda::ComplexData wrong, empty;
                wrong.resize( w, h + 1 );
                if ( !model[i].empty() ) {
                    PBT_CHECK( refused( [&] { other.directTransform( data[i] ); } ) && refused( [&] { other.inverseTransform( data[i] ); } ), "a transform of another size is not refused" );
                    PBT_CHECK( refused( [&] { executor.directTransform( data[i], wrong ); } ) && refused( [&] { executor.inverseTransform( data[i], wrong ); } ), "an output of another size is not refused" );
                    PBT_CHECK( refused( [&] { executor.complexMultiplication( data[i], wrong, data[i] ); } ) && refused( [&] { executor.complexMultiplication( data[i], data[i], wrong ); } ),
                               "a product of other sizes is not refused" );
                    PBT_CHECK( refused( [&] { data[i].set( multiCuda::Array<float>( count + 1 ) ); } ), "an array of another size is not refused" );
                }
                PBT_CHECK( refused( [&] { executor.directTransform( empty ); } ), "a transform of nothing is not refused" );
                PBT_CHECK( refused( [&] { executor.complexMultiplication( empty, empty, empty ); } ), "a product of nothing is not refused" );
                PBT_CHECK( refused( [&] { data[i].set( Image() ); } ), "an empty image is not refused" );
                const Image colour = upload( Image( w, h, 3 ) );
                PBT_CHECK( refused( [&] { data[i].set( colour ); } ), "a colour image is not refused" );
                PBT_CHECK( empty.get().empty(), "the image of nothing is not empty" );
                break;
            }
            default: {
                PBT_NOTE( ctx, i << " moved to " << j << "; " );
                if ( i == j )
                    break;
                assign( data[j], FFT_Cuda::ComplexData( std::move( data[i] ) ) );
                model[j] = std::vector<Complex>( model[i] );
                isImage[j] = isImage[i];
                image[j] = Snap( image[i] );
                assign( data[i], FFT_Cuda::ComplexData() );
                model[i].clear();
                isImage[i] = false;
                break;
            }
            }
            check( "after a step" );
        }
    } ) );

    pbt::Register p33i( "P33", "gaussian", 1, "images of any size and alignment, kernels and deviations; differential with a convolution in place; non-trivial: more than one row and column", onCuda( []( Src & s, Ctx & ctx ) {
        auto size = [&s]() { return 1 + static_cast<uint32_t>( s.upto( s.flag() ? 8 : 30 ) ); };
        const uint32_t w = size(), h = s.chance( 60 ) ? w : size();
        const Image in = genImage( s, w, h, 1, genAlignment( s ) );
        const Snap was = snap( in );
        const uint32_t kernel = static_cast<uint32_t>( s.upto( std::max( w, h ) + 2 ) );
        const float sigma = s.chance( 20 ) ? -1.0f : static_cast<float>( s.upto( 40 ) ) / 8.0f;
        PBT_NOTE( ctx, show( was ) << ", kernel " << kernel << ", sigma " << sigma );
        ctx.nontrivial = w > 1 && h > 1;
        const Image device = upload( in );
        Image got;
        const bool form = s.flag();
        if ( s.chance( 20 ) ) { // nothing to filter or an output of another size
            const Image empty = ImageCuda();
            Image other = upload( genImage( s, w + ( s.flag() ? 1 : 0 ), h + 1, 1, genAlignment( s ) ) );
            const Snap old = deviceSnap( other );
            ctx.label( "refused" );
            PBT_CHECK( refused( [&] { Image_Function_Cuda::Gaussian( empty, 1, 1.0f ); } ), "an empty image is accepted" );
            PBT_CHECK( refused( [&] { Image_Function_Cuda::Gaussian( empty, other, 1, 1.0f ); } ), "an empty image is accepted" );
            PBT_CHECK( refused( [&] { Image_Function_Cuda::Gaussian( device, other, 1, 1.0f ); } ), "an output of another size is accepted" );
            PBT_CHECK( deviceSnap( other ) == old, "a refused call changed the output" );
            return;
        }
        Image stale = upload( genImage( s, w, h, 1, genAlignment( s ) ) );
        std::vector<float> filter;
        const bool refusedHere = refused( [&] { Image_Function::GetGaussianKernel( filter, w, h, kernel, sigma ); } );
        const bool refusedThere = refused( [&] {
            if ( form ) {
                Image made = Image_Function_Cuda::Gaussian( device, kernel, sigma );
                got.swap( made );
            }
            else {
                got.swap( stale );
                Image_Function_Cuda::Gaussian( device, got, kernel, sigma );
            }
        } );
        PBT_CHECK( deviceSnap( device ) == was, "the filter changed the input" );
        PBT_CHECK( refusedHere == refusedThere, "the filter is " << ( refusedThere ? "" : "not " ) << "refused" );
        if ( refusedHere )
            return;
        PBT_CHECK( got.type() == ImageCuda().type() && got.width() == w && got.height() == h && got.colorCount() == 1, "the filtered image has another geometry" );
        const Snap a = deviceSnap( got );
        for ( uint32_t y = 0; y < h; ++y )
            for ( uint32_t x = 0; x < w; ++x )
            {
                double value = 0; // the middle of the kernel is at (w / 2, h / 2)
                for ( uint32_t ky = 0; ky < h; ++ky )
                    for ( uint32_t kx = 0; kx < w; ++kx )
                        if ( filter[ky * w + kx] != 0 )
                            value += static_cast<double>( filter[ky * w + kx] ) * was.at( ( x + w - kx + w / 2 ) % w, ( y + h - ky + h / 2 ) % h );
                PBT_CHECK( std::fabs( a.at( x, y ) - value ) <= 0.55, "pixel (" << x << ", " << y << ") is " << int( a.at( x, y ) ) << " instead of " << value );
            }
    } ) );

    // device memory ----------------------------------------------------------------------------------------------------

    template <typename T>
    void arrayHistory( Src & s, Ctx & ctx )
    {
        struct Live
        {
            std::unique_ptr<multiCuda::Array<T>> array;
            std::vector<T> d;
            bool known = true;
        };
        std::vector<Live> live( 3 );
        for ( Live & l : live )
            l.array.reset( new multiCuda::Array<T>() );
        auto gen = [&s]( size_t n ) {
            pbt::Stream r( s.raw( 3 ) );
            std::vector<T> v( n );
            for ( T & x : v )
                x = static_cast<T>( r.next() );
            return v;
        };
        const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 10 ) );
        for ( uint32_t step = 0; step < steps; ++step ) {
            Live & l = live[s.upto( 2 )];
            const size_t n = s.chance( 20 ) ? 0 : 1 + s.upto( s.flag() ? 10 : 3000 );
            switch ( s.upto( 6 ) ) {
            case 0:
                PBT_NOTE( ctx, "new array of " << n << "; " );
                l.d = gen( n );
                l.array.reset( new multiCuda::Array<T>( l.d ) );
                l.known = true;
                break;
            case 1:
                PBT_NOTE( ctx, "assign " << n << "; " );
                l.d = gen( n );
                *l.array = l.d;
                l.known = true;
                break;
            case 2:
                PBT_NOTE( ctx, "resize " << n << "; " );
                l.known = l.known && l.d.size() == n;
                l.array->resize( n );
                l.d.resize( n );
                break;
            case 3: {
                Live & o = live[s.upto( 2 )];
                PBT_NOTE( ctx, "move; " );
                if ( &o == &l )
                    break;
                l.array.reset( new multiCuda::Array<T>( std::move( *o.array ) ) );
                l.d.swap( o.d );
                o.d.clear();
                std::swap( l.known, o.known );
                o.known = true;
                break;
            }
            case 4: {
                Live & o = live[s.upto( 2 )];
                PBT_NOTE( ctx, "copy; " );
                if ( &o == &l )
                    break;
                if ( s.flag() )
                    l.array.reset( new multiCuda::Array<T>( *o.array ) );
                else
                    *l.array = *o.array;
                l.d = o.d;
                l.known = o.known;
                break;
            }
            case 5: { // more than any device has
                PBT_NOTE( ctx, "too big; " );
                const bool ok = refused( [&] { l.array->resize( ( static_cast<size_t>( 1 ) << 40 ) + n ); } );
                PBT_CHECK( ok, "an array of 2^40 elements is not refused" );
                cudaGetLastError();
                PBT_CHECK( l.array->empty() == ( l.array->size() == 0 ), "an array without memory has " << l.array->size() << " elements" );
                l.d.resize( l.array->size() );
                l.known = l.d.empty();
                break;
            }
            default: {
                const T value = static_cast<T>( s.raw( 8 ) ), other = static_cast<T>( s.raw( 8 ) );
                PBT_NOTE( ctx, "single values; " );
                multiCuda::Type<T> a( value ), b;
                b = other;
                PBT_CHECK( a.get() == value && b.get() == other, "a single value is changed" );
                a = std::move( b );
                PBT_CHECK( a.get() == other, "a moved value is changed" );
                multiCuda::Type<T> c( std::move( a ) );
                PBT_CHECK( c.get() == other, "a moved value is changed" );
                const multiCuda::Type<T> d( c );
                c = value;
                PBT_CHECK( c.get() == value && d.get() == other, "a copied value is changed" );
                c = d;
                PBT_CHECK( c.get() == other && d.get() == other, "a copied value is changed" );
                break;
            }
            }
            ctx.nontrivial = ctx.nontrivial || step > 2;
            for ( const Live & x : live ) {
                PBT_CHECK( x.array->size() == x.d.size() && x.array->empty() == x.d.empty(), "an array has " << x.array->size() << " elements instead of " << x.d.size() );
                if ( x.known )
                    PBT_CHECK( x.array->get() == x.d, "contents of an array are changed" );
            }
        }
    }

    void allocatorHistory( Src & s, Ctx & ctx )
    {
        multiCuda::MemoryAllocator & memory = multiCuda::MemoryManager::memory();
        struct Chunk
        {
            uint8_t * m;
            std::vector<uint8_t> d;
            bool inside;
        };
        std::vector<Chunk> chunks;
        struct Release
        {
            std::vector<Chunk> & chunks;
            multiCuda::MemoryAllocator & memory;
            ~Release()
            {
                for ( Chunk & c : chunks )
                    memory.free( c.m );
            }
        };
        size_t reserved = 0;
        {
            Release release{ chunks, memory };
            if ( s.flag() ) {
                reserved = s.pick<size_t>( { 1 << 14, 1 << 15, 40000, 100000, 1 << 16 } ) + ( s.flag() ? s.upto( 300 ) : 0 );
                memory.reserve( reserved );
                PBT_NOTE( ctx, "reserve " << reserved << "; " );
                PBT_CHECK( refused( [&] { memory.reserve( memory.availableSize() + 1 ); } ), "more memory than there is can be reserved" );
            }
            const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 18 ) );
            for ( uint32_t step = 0; step < steps; ++step ) {
                if ( !chunks.empty() && s.chance( 100 ) ) {
                    const size_t i = s.upto( chunks.size() - 1 );
                    PBT_NOTE( ctx, "free " << i << "; " );
                    uint8_t * m = chunks[i].m;
                    chunks.erase( chunks.begin() + static_cast<long>( i ) );
                    memory.free( m );
                }
                else if ( !chunks.empty() && s.chance( 20 ) && reserved > 0 ) {
                    bool inside = false;
                    for ( const Chunk & c : chunks )
                        inside = inside || c.inside;
                    if ( inside ) {
                        PBT_NOTE( ctx, "reserve while in use; " );
                        const bool ok = refused( [&] { memory.reserve( reserved + 1 ); } );
                        PBT_CHECK( ok, "memory in use is replaced" );
                    }
                }
                else {
                    const size_t n = 1 + s.upto( s.pick<size_t>( { 100, 1000, 5000, 20000 } ) );
                    const uint32_t kind = static_cast<uint32_t>( s.upto( 2 ) );
                    Chunk c;
                    const size_t blocks = cudaEmulator::liveAllocations();
                    c.m = kind == 0 ? memory.allocate<uint8_t>( n ) : kind == 1 ? reinterpret_cast<uint8_t *>( memory.allocate<uint16_t>( n ) ) : reinterpret_cast<uint8_t *>( memory.allocate<double>( n ) );
                    c.inside = cudaEmulator::liveAllocations() == blocks;
                    const size_t bytes = n * ( kind == 0 ? 1 : kind == 1 ? 2 : 8 );
                    PBT_NOTE( ctx, "allocate " << bytes << ( c.inside ? " inside; " : " outside; " ) );
                    PBT_CHECK( reinterpret_cast<uintptr_t>( c.m ) % ( kind == 0 ? 1 : kind == 1 ? 2 : 8 ) == 0, "memory is not aligned" );
                    PBT_CHECK( cudaEmulator::onDevice( c.m, bytes, cudaEmulator::activeDevice() ), "memory is not on the active device" );
                    pbt::Stream r( s.raw( 2 ) + 77 * step );
                    c.d.resize( bytes );
                    for ( uint8_t & v : c.d )
                        v = static_cast<uint8_t>( r.next() );
                    chunks.push_back( c );
                    cudaEmulator::poke( c.m, c.d.data(), bytes );
                }
                ctx.nontrivial = ctx.nontrivial || chunks.size() > 2;
                for ( size_t i = 0; i < chunks.size(); ++i ) {
                    std::vector<uint8_t> got( chunks[i].d.size() );
                    cudaEmulator::peek( got.data(), chunks[i].m, got.size() );
                    PBT_CHECK( got == chunks[i].d, "contents of memory " << i << " are changed" );
                }
            }
        }
        chunks.clear();
        if ( reserved > 0 ) {
            // the biggest possible part is available again
            size_t biggest = 1;
            while ( biggest * 2 <= reserved )
                biggest *= 2;
            if ( biggest == reserved )
                biggest /= 2;
            const size_t blocks = cudaEmulator::liveAllocations();
            uint8_t * m = memory.allocate<uint8_t>( biggest );
            const bool inside = cudaEmulator::liveAllocations() == blocks;
            memory.free( m );
            PBT_CHECK( inside, "preallocated memory is not used again after everything is released" );
            memory.reserve( reserved + 512 );
        }
    }

    pbt::Register p33j( "P33", "device memory", 2, "histories of allocations, arrays and single values, with and without preallocated memory; non-trivial: more than 3 steps", []( Src & s, Ctx & ctx ) {
        manager();
        multiCuda::MemoryManager::memory( 0 ).reserve( 4096 ); // one preallocated block is always there
        Device device( s, ctx );
        switch ( s.upto( 4 ) ) {
        case 0:
            arrayHistory<uint8_t>( s, ctx );
            break;
        case 1:
            arrayHistory<uint32_t>( s, ctx );
            break;
        case 2:
            arrayHistory<uint64_t>( s, ctx );
            break;
        default:
            allocatorHistory( s, ctx );
            break;
        }
        device.end();
    } );

    // not enough memory ------------------------------------------------------------------------------------------------

    pbt::Register p33k( "P33", "no memory", 1, "generated calls while one of the first allocations fails; non-trivial: the call failed", []( Src & s, Ctx & ctx ) {
        GenOptions o = deviceOptions( s );
        o.area = 1500;
        o.limit = 300;
        manager();
        Call c;
        genCall( s, c, s.pickFrom( deviceOps() ), o );
        PBT_NOTE( ctx, describe( c ) );
        Device device( s, ctx );
        const Before b = before( c );
        {
            struct Move
            {
                Call & c;
                std::vector<Image> in, out;
            } move{ c, {}, {} };
            for ( Slot & slot : c.in ) {
                Image image = upload( slot.img );
                slot.img.swap( image );
            }
            for ( Slot & slot : c.out ) {
                Image image = upload( slot.img );
                slot.img.swap( image );
            }
            bool done = true, failed = false;
            cudaEmulator::settings.failAllocation = static_cast<long>( s.upto( 3 ) );
            const bool gaussian = s.chance( 40 );
            try {
                if ( gaussian )
                    Image_Function_Cuda::Gaussian( c.in[0].img, 3, 1.5f );
                else
                    done = runCuda( c );
            }
            catch ( const std::exception & ) {
                failed = true;
            }
            cudaEmulator::settings.failAllocation = -1;
            cudaGetLastError();
            if ( !done )
                throw pbt::Discard();
            ctx.nontrivial = failed;
            for ( size_t i = 0; i < c.in.size(); ++i ) {
                if ( failed && ( c.alias < 0 || static_cast<size_t>( c.alias ) != i ) && c.op != Fill && c.op != SetPixel && c.op != SetPixel2 )
                    PBT_CHECK( deviceSnap( c.in[i].img ) == b.in[i], "a call without memory changed image " << i );
            }
            c.in.clear();
            c.out.clear();
        }
        device.end();
    } );

    // devices ----------------------------------------------------------------------------------------------------------

    pbt::Register p33l( "P33", "devices", 1, "histories of closing, initialising and choosing several devices, their streams and sizes of blocks with work in between; non-trivial: two devices were used", []( Src & s, Ctx & ctx ) {
        multiCuda::CudaDeviceManager & m = manager();
        const int count = m.supportedDeviceCount();
        PBT_CHECK( count == cudaEmulator::settings.devices, count << " devices instead of " << cudaEmulator::settings.devices );
        PBT_CHECK( multiCuda::isCudaSupported(), "CUDA is not supported" );
        struct Restore
        {
            ~Restore()
            {
                multiCuda::CudaDeviceManager & manager_ = manager();
                manager_.closeDevices();
                manager_.initializeDevices();
                manager_.setActiveDevice( 0 );
                cudaGetLastError();
            }
        } restore;
        struct Model
        {
            bool open = true;
            size_t streams = 0, current = 0;
            uint32_t threads = 0;
        };
        m.closeDevices();
        m.initializeDevices();
        m.setActiveDevice( 0 );
        std::vector<Model> model( static_cast<size_t>( count ) );
        const uint32_t maximum = m.device( 0 ).maximumThreadsPerBlock();
        for ( Model & d : model )
            d.threads = maximum;
        int active = 0;
        uint32_t used = 0;
        const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 10 ) );
        for ( uint32_t step = 0; step < steps; ++step ) {
            const int id = static_cast<int>( s.upto( static_cast<uint64_t>( count ) - 1 ) );
            Model & d = model[static_cast<size_t>( id )];
            const int wrong = s.flag() ? count + static_cast<int>( s.upto( 3 ) ) : -1 - static_cast<int>( s.upto( 3 ) );
            switch ( s.upto( 8 ) ) {
            case 0:
                PBT_NOTE( ctx, "close " << id << "; " );
                m.closeDevice( id );
                d = Model();
                d.open = false;
                d.threads = maximum;
                break;
            case 1:
                PBT_NOTE( ctx, "initialize " << id << "; " );
                m.initializeDevice( id );
                d.open = true;
                break;
            case 2:
                PBT_NOTE( ctx, "initialize all; " );
                m.initializeDevices();
                for ( Model & x : model )
                    x.open = true;
                break;
            case 3:
            case 4:
                PBT_NOTE( ctx, "activate " << id << "; " );
                PBT_CHECK( refused( [&] { m.setActiveDevice( id ); } ) == !d.open, "activation of device " << id << " which is " << ( d.open ? "open is refused" : "closed is not refused" ) );
                if ( d.open )
                    active = id;
                break;
            case 5:
                PBT_NOTE( ctx, "wrong id " << wrong << "; " );
                PBT_CHECK( refused( [&] { m.initializeDevice( wrong ); } ), "initialisation of device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { m.closeDevice( wrong ); } ), "closing of device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { m.device( wrong ); } ), "device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { m.setActiveDevice( wrong ); } ), "activation of device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { multiCuda::MemoryManager::memory( wrong ); } ), "memory of device " << wrong << " is not refused" );
                break;
            case 6:
                if ( d.open ) {
                    d.streams = s.upto( 3 );
                    PBT_NOTE( ctx, d.streams << " streams of " << id << "; " );
                    m.device( id ).setStreamCount( d.streams );
                    if ( d.current >= d.streams )
                        d.current = 0;
                }
                break;
            case 7:
                if ( d.open ) {
                    const size_t stream = s.upto( 3 );
                    PBT_NOTE( ctx, "stream " << stream << " of " << id << "; " );
                    m.device( id ).setCurrentStreamId( stream );
                    if ( stream < d.streams )
                        d.current = stream;
                }
                break;
            default:
                if ( d.open ) {
                    const uint32_t threads = s.flag() ? 32 * ( 1 + static_cast<uint32_t>( s.upto( 40 ) ) ) : static_cast<uint32_t>( s.upto( 70 ) );
                    PBT_NOTE( ctx, threads << " threads of " << id << "; " );
                    const bool valid = threads > 0 && threads % 32 == 0;
                    PBT_CHECK( refused( [&] { m.device( id ).setThreadsPerBlock( threads ); } ) == !valid, threads << " threads per block are " << ( valid ? "refused" : "not refused" ) );
                    if ( valid && threads <= maximum )
                        d.threads = threads;
                    m.device( id ).synchronize();
                }
                break;
            }
            int open = 0;
            for ( int i = 0; i < count; ++i ) {
                const Model & x = model[static_cast<size_t>( i )];
                open += x.open ? 1 : 0;
                PBT_CHECK( refused( [&] { m.device( i ); } ) == !x.open, "device " << i << " is " << ( x.open ? "refused" : "given although it is closed" ) );
                if ( !x.open )
                    continue;
                const multiCuda::CudaDevice & device = m.device( i );
                PBT_CHECK( device.deviceId() == i, "device " << i << " has ID " << device.deviceId() );
                PBT_CHECK( device.streamCount() == x.streams, device.streamCount() << " streams instead of " << x.streams );
                PBT_CHECK( device.currentStreamId() == x.current, "current stream " << device.currentStreamId() << " instead of " << x.current );
                PBT_CHECK( device.threadsPerBlock() == x.threads && device.maximumThreadsPerBlock() == maximum, device.threadsPerBlock() << " threads per block instead of " << x.threads );
            }
            PBT_CHECK( m.deviceCount() == open, m.deviceCount() << " devices are open instead of " << open );
            const bool usable = model[static_cast<size_t>( active )].open;
            PBT_CHECK( refused( [&] { m.device(); } ) == !usable, "the active device is " << ( usable ? "refused" : "given although it is closed" ) );
            if ( usable ) {
                PBT_CHECK( m.device().deviceId() == active, "the active device is " << m.device().deviceId() << " instead of " << active );
                // work
                Image image = ImageCuda( 5, 3 );
                PBT_CHECK( cudaEmulator::onDevice( image.data(), 15, active ), "memory is on another device" );
                image.fill( static_cast<uint8_t>( step + 10 ) );
                const Image inverted = Image_Function_Cuda::Invert( image );
                const Snap got = deviceSnap( inverted );
                for ( uint8_t v : got.d )
                    PBT_CHECK( v == 255 - ( step + 10 ), "inverted pixel is " << int( v ) << " instead of " << 255 - ( step + 10 ) );
                used |= 1u << active;
                ctx.nontrivial = ctx.nontrivial || ( used & ( used - 1 ) ) != 0;
            }
        }
    } );
}
