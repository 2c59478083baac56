// P30: OpenCL image functions against the reference of the CPU functions, transfers, device memory, devices
#include "image_function.h"
#include "image_function_helper.h"
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include "opencl/opencl_types.h"
#include "ops.h"
#include <fstream>
#include <memory>
#include <unistd.h>

using namespace hv;
using penguinV::ImageOpenCL;

namespace
{
    const char * RULE = "operation, call form, sizes, margins, alignment, channels and contents drawn from the tape, the same data on the device; "
                        "non-trivial: the processed rectangle has more than one pixel";

    multiCL::OpenCLDeviceManager & manager()
    {
        static bool ready = false;
        if ( !ready ) {
            multiCL::enableDeviceSupport( true, true );
            multiCL::OpenCLDeviceManager::instance().resetSupportedDevice();
            multiCL::OpenCLDeviceManager::instance().initializeDevices();
            ready = true;
        }
        return multiCL::OpenCLDeviceManager::instance();
    }

    cl_mem memory( const Image & image )
    {
        return reinterpret_cast<cl_mem>( const_cast<uint8_t *>( image.data() ) );
    }

    // The same image on the device, every byte
    Image upload( const Snap & s )
    {
        Image image = ImageOpenCL( s.w, s.h, s.cc, s.al );
        PBT_CHECK( image.rowSize() == s.row && image.type() != Image().type(), "an image on the device has another geometry" );
        if ( !s.d.empty() )
            multiCL::writeBuffer( memory( image ), s.d.size(), s.d.data() );
        return image;
    }
    Image upload( const Image & image )
    {
        return upload( snap( image ) );
    }

    // The same image in the memory of CPU, every byte
    Snap deviceSnap( const Image & image )
    {
        Snap s;
        s.w = image.width();
        s.h = image.height();
        s.row = image.rowSize();
        s.cc = image.colorCount();
        s.al = image.alignment();
        s.d.resize( static_cast<size_t>( s.row ) * s.h );
        if ( !s.d.empty() )
            multiCL::readBuffer( memory( image ), s.d.size(), s.d.data() );
        return s;
    }
    Image download( const Image & image )
    {
        const Snap s = deviceSnap( image );
        Image out( s.w, s.h, s.cc, s.al );
        PBT_CHECK( out.rowSize() == s.row, "an image on the device has another size of rows" );
        std::copy( s.d.begin(), s.d.end(), out.data() );
        return out;
    }

    bool refused( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const std::exception & ) {
            return true;
        }
        return false;
    }

    // Sequence of preallocated and separate memory
    void genReserve( Src & s, Ctx & ctx )
    {
        manager();
        if ( s.chance( 8 ) ) {
            const size_t size = s.pick<size_t>( { 0, 1024, 65536, 1 << 20, 300000 } );
            if ( size == 0 )
                return;
            PBT_NOTE( ctx, "reserve " << size << "; " );
            multiCL::MemoryManager::memory().reserve( size );
        }
    }

    bool onDevice( Call & c, RunFunction run )
    {
        struct Back
        {
            Call & c;
            void operator()()
            {
                for ( Slot & slot : c.in )
                    slot.img = download( slot.img );
                for ( Slot & slot : c.out )
                    slot.img = download( slot.img );
            }
        } back{ c };
        for ( Slot & slot : c.in ) {
            Image image = upload( slot.img );
            slot.img.swap( image );
        }
        for ( Slot & slot : c.out ) {
            Image image = upload( slot.img );
            slot.img.swap( image );
        }
        const uint8_t type = ImageOpenCL().type();
        bool done = false;
        try {
            done = run( c );
        }
        catch ( ... ) {
            back();
            throw;
        }
        for ( const Slot & slot : c.out )
            PBT_CHECK( slot.img.type() == type, "the output is not on the device" );
        back();
        return done;
    }

    bool runDevice( Call & c )
    {
        return onDevice( c, runOpenCL );
    }
    bool runDeviceGeneric( Call & c )
    {
        return onDevice( c, runGeneric );
    }

    // The functions of the device which refuse colour images
    bool grayOnly( const Call & c )
    {
        return ( c.op == GammaCorrection || c.op == Histogram || c.op == Fill ) && c.in[0].img.colorCount() != 1;
    }

    bool checkDeviceCall( Call & c, RunFunction run )
    {
        const bool mayRefuse = grayOnly( c );
        const Before b = before( c );
        try {
            if ( !run( c ) )
                return false;
        }
        catch ( const penguinVException & e ) {
            if ( !mayRefuse )
                throw;
            for ( size_t i = 0; i < c.in.size(); ++i )
                PBT_CHECK( snap( c.in[i].img ) == b.in[i], "a refused call changed image " << i );
            for ( size_t i = 0; i < b.out.size() && c.alias < 0 && !c.returns(); ++i )
                PBT_CHECK( snap( c.out[i].img ) == b.out[i], "a refused call changed output " << i );
            return true;
        }
        Expected e;
        reference( c, b, e );
        verify( c, b, e, VALUES | FRAME );
        return true;
    }

    const std::vector<Op> & deviceOps()
    {
        static const std::vector<Op> v{ AbsoluteDifference, BitwiseAnd, BitwiseOr,    BitwiseXor, Maximum,           Minimum,        Subtract, Invert, Threshold, Threshold2, LookupTable,
                                        GammaCorrection,    Normalize,  Copy,         Fill,       SetPixel,          SetPixel2,      Flip,     IsEqual, ConvertToGrayScale, ConvertToRgb,
                                        ExtractChannel,     Histogram,  ProjectionProfile };
        return v;
    }
    // the functions which the generic interface finds on the device
    const std::vector<Op> & tableOps()
    {
        static const std::vector<Op> v{ AbsoluteDifference, BitwiseAnd, BitwiseOr, BitwiseXor, Maximum, Minimum, Subtract, Invert, Threshold, Threshold2, LookupTable, GammaCorrection,
                                        Copy, Fill, SetPixel, IsEqual, ConvertToGrayScale, ConvertToRgb, ExtractChannel, Histogram, ProjectionProfile };
        return v;
    }

    GenOptions deviceOptions( Src & s )
    {
        GenOptions o;
        o.area = pbt::thorough() ? 20000 : 4000;
        o.limit = s.chance( 160 ) ? 6000 : 1200; // rarely more than 16 bits of coordinates
        return o;
    }

    void note( Ctx & ctx, const Call & c )
    {
        ctx.label( std::string( "op:" ) + opName( c.op ) );
        ctx.nontrivial = nontrivialCall( c );
        PBT_NOTE( ctx, describe( c ) );
    }

    pbt::Register p30( "P30", "functions", 6, RULE, []( Src & s, Ctx & ctx ) {
        genReserve( s, ctx );
        Call c;
        genCall( s, c, s.pickFrom( deviceOps() ), deviceOptions( s ) );
        note( ctx, c );
        if ( !checkDeviceCall( c, runDevice ) )
            throw pbt::Discard();
    }, 120 );

    pbt::Register p30b( "P30", "generic functions", 2, RULE, []( Src & s, Ctx & ctx ) {
        genReserve( s, ctx );
        Call c;
        genCall( s, c, s.pickFrom( tableOps() ), deviceOptions( s ) );
        note( ctx, c );
        if ( !checkDeviceCall( c, runDeviceGeneric ) )
            throw pbt::Discard();
    }, 120 );

    pbt::Register p30c( "P30", "transfers", 3, "images of any alignment to the device and back in every form, sizes and channels which differ; non-trivial: more than one pixel", []( Src & s, Ctx & ctx ) {
        genReserve( s, ctx );
        uint32_t w, h;
        genSize( s, w, h, 4000, 1200 );
        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } );
        const Image image = genImage( s, w, h, cc, genAlignment( s ) );
        const Snap was = snap( image );
        ctx.nontrivial = w > 1 && h > 1;
        PBT_NOTE( ctx, show( was ) );
        Image device;
        if ( s.flag() ) {
            Image made = Image_Function_OpenCL::ConvertToOpenCL( image );
            device.swap( made );
        }
        else {
            const Image stale = genImage( s, w, h, cc, genAlignment( s ) );
            Image made = upload( stale );
            device.swap( made );
            PBT_NOTE( ctx, " to alignment " << int( device.alignment() ) );
            Image_Function_OpenCL::ConvertToOpenCL( image, device );
        }
        PBT_CHECK( snap( image ) == was, "upload changed the image" );
        PBT_CHECK( device.width() == w && device.height() == h && device.colorCount() == cc && device.type() == ImageOpenCL().type(), "the image on the device has another geometry" );
        auto same = [&]( const Snap & got, const std::string & what ) {
            PBT_CHECK( got.w == w && got.h == h && got.cc == cc, what << " has another size" );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t i = 0; i < w * cc; ++i )
                    PBT_CHECK( got.d[static_cast<size_t>( y ) * got.row + i] == was.d[static_cast<size_t>( y ) * was.row + i], what << " differs at row " << y << ", byte " << i );
        };
        const Snap onCard = deviceSnap( device );
        same( onCard, "the image on the device" );
        if ( s.flag() ) {
            same( snap( Image_Function_OpenCL::ConvertFromOpenCL( device ) ), "the downloaded image" );
        }
        else {
            Image out = genImage( s, w, h, cc, genAlignment( s ) );
            PBT_NOTE( ctx, " back to alignment " << int( out.alignment() ) );
            const Snap before = snap( out );
            Image_Function_OpenCL::ConvertFromOpenCL( device, out );
            const Snap after = snap( out );
            same( after, "the downloaded image" );
            PBT_CHECK( after.row == before.row && after.al == before.al, "download changed the geometry" );
            for ( uint32_t y = 0; y < h; ++y )
                for ( uint32_t i = w * cc; i < before.row; ++i )
                    PBT_CHECK( after.d[static_cast<size_t>( y ) * before.row + i] == before.d[static_cast<size_t>( y ) * before.row + i], "download changed bytes behind a row" );
        }
        PBT_CHECK( deviceSnap( device ) == onCard, "download changed the image on the device" );
        // other sizes
        const uint32_t wrong = static_cast<uint32_t>( s.upto( 3 ) );
        Image other( wrong == 0 ? w + 1 : w, wrong == 1 ? h + 1 : h, wrong == 2 ? ( cc == 1 ? 3 : 1 ) : cc );
        if ( wrong == 3 )
            other.clear();
        Image otherDevice = upload( Snap( snap( other ) ) );
        PBT_CHECK( refused( [&] { Image_Function_OpenCL::ConvertToOpenCL( image, otherDevice ); } ), "upload to another size is not refused" );
        PBT_CHECK( refused( [&] { Image_Function_OpenCL::ConvertFromOpenCL( device, other ); } ), "download to another size is not refused" );
        PBT_CHECK( deviceSnap( device ) == onCard, "a refused transfer changed the image on the device" );
    }, 120 );

    pbt::Register p30d( "P30", "refusals", 2, "a valid generated call made invalid in one respect; non-trivial: every call that is invalid", []( Src & s, Ctx & ctx ) {
        genReserve( s, ctx );
        GenOptions o = deviceOptions( s );
        o.area = 1500;
        o.limit = 300;
        Call c;
        genCall( s, c, s.pickFrom( deviceOps() ), o );
        std::string wrong;
        for ( int i = 0; i < 4 && wrong.empty(); ++i )
            wrong = breakCall( s, c );
        if ( wrong.empty() || ( c.op == Copy && c.form == 2 ) )
            throw pbt::Discard();
        ctx.label( "wrong:" + wrong.substr( 0, wrong.find_first_of( "0123456789" ) ) );
        note( ctx, c );
        ctx.nontrivial = true;
        PBT_NOTE( ctx, "; invalid: " << wrong );
        const Before b = before( c );
        bool refused = false;
        try {
            if ( !runDevice( c ) )
                throw pbt::Discard();
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        PBT_CHECK( refused, "an invalid call was accepted: " << wrong );
        for ( size_t i = 0; i < c.in.size(); ++i )
            PBT_CHECK( snap( c.in[i].img ) == b.in[i], "a refused call changed image " << i << ": " << wrong );
        if ( c.alias < 0 && !c.returns() ) {
            for ( size_t i = 0; i < b.out.size(); ++i )
                PBT_CHECK( snap( c.out[i].img ) == b.out[i], "a refused call changed output " << i << ": " << wrong );
        }
    }, 120 );

    // calls with images on the processor and on the device ------------------------------------------------------------

    pbt::Register p30e( "P30", "mixed types", 2, "generic calls of all operations, some images on the device, conversion of types enabled; non-trivial: more than one pixel", []( Src & s, Ctx & ctx ) {
        static const std::vector<Op> ops{ AbsoluteDifference, BitwiseAnd, BitwiseOr, BitwiseXor, Maximum, Minimum, Subtract, Invert, Threshold, Threshold2, LookupTable,
                                          GammaCorrection, Normalize, Copy, Fill, SetPixel, SetPixel2, GetPixel, ConvertToGrayScale, ConvertToRgb, RgbToBgr, Merge, Split,
                                          ExtractChannel, Sum, Histogram, ProjectionProfile, Accumulate, IsEqual, Flip, Transpose, Resize };
        genReserve( s, ctx );
        GenOptions o = deviceOptions( s );
        o.alias = false;
        Call c;
        genCall( s, c, s.pickFrom( ops ), o );
        if ( ( c.op == Copy || c.op == Fill ) && c.form == 2 )
            throw pbt::Discard();
        note( ctx, c );
        const uint32_t which = 1 + static_cast<uint32_t>( s.upto( 14 ) );
        PBT_NOTE( ctx, "; on the device: mask " << which );
        const uint8_t type = ImageOpenCL().type();
        const bool mayRefuse = grayOnly( c );
        const Before b = before( c );
        uint32_t bit = 0;
        std::vector<uint8_t> types;
        auto move = [&]( Slot & slot ) {
            if ( which & ( 1u << bit ) ) {
                Image image = upload( slot.img );
                slot.img.swap( image );
            }
            ++bit;
        };
        for ( Slot & slot : c.in )
            move( slot );
        if ( c.alias < 0 && !c.returns() ) {
            for ( Slot & slot : c.out ) {
                move( slot );
                types.push_back( slot.img.type() );
            }
        }
        auto back = [&]() {
            for ( std::vector<Slot> * v : { &c.in, &c.out } )
                for ( Slot & slot : *v )
                    if ( slot.img.type() == type )
                        slot.img = download( slot.img );
        };
        ImageTypeManager::instance().enableIntertypeConversion( true );
        try {
            if ( !runGeneric( c ) )
                throw pbt::Discard();
        }
        catch ( const penguinVException & ) {
            ImageTypeManager::instance().enableIntertypeConversion( false );
            if ( !mayRefuse )
                throw;
            return;
        }
        ImageTypeManager::instance().enableIntertypeConversion( false );
        for ( size_t i = 0; i < types.size(); ++i )
            PBT_CHECK( c.out[i].img.type() == types[i], "output " << i << " has another type" );
        back();
        Expected e;
        reference( c, b, e );
        verify( c, b, e, VALUES | FRAME );
    }, 120 );

    // histories of images on the device --------------------------------------------------------------------------------

    template <typename T, typename TImage>
    void imageHistory( Src & s, Ctx & ctx )
    {
        typedef penguinV::ImageTemplate<T> Base;
        manager();
        struct Model
        {
            bool device = false, known = true;
            uint32_t w = 0, h = 0, row = 0;
            uint8_t cc = 1, al = 1;
            std::vector<T> d;
        };
        // the type of image lives in the object: slots 0 - 2 are images of the device, slots 3 - 4 are plain images
        const size_t slots = 5;
        {
            std::vector<Base> image( slots );
            std::vector<Model> model( slots );
            for ( size_t i = 0; i < 3; ++i ) {
                TImage made;
                image[i].swap( made );
                model[i].device = true;
            }
            auto check = [&]( size_t i ) {
                const Model & m = model[i];
                const Base & im = image[i];
                PBT_CHECK( im.width() == m.w && im.height() == m.h && im.colorCount() == m.cc && im.alignment() == m.al,
                           "image " << i << " is " << im.width() << 'x' << im.height() << 'x' << int( im.colorCount() ) << " alignment " << int( im.alignment() ) << " instead of " << m.w << 'x'
                                    << m.h << 'x' << int( m.cc ) << " alignment " << int( m.al ) );
                PBT_CHECK( im.empty() == ( m.w == 0 ), "image " << i << " is wrongly empty or not" );
                PBT_CHECK( ( im.type() == TImage().type() ) == m.device, "image " << i << " has another type" );
                PBT_CHECK( im.rowSize() == m.row, "image " << i << " has rows of " << im.rowSize() << " instead of " << m.row );
                if ( m.w == 0 || !m.known )
                    return;
                std::vector<T> got( static_cast<size_t>( m.row ) * m.h );
                if ( m.device )
                    multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<T *>( im.data() ) ), got.size() * sizeof( T ), got.data() );
                else
                    std::copy( im.data(), im.data() + got.size(), got.data() );
                for ( size_t k = 0; k < got.size(); ++k )
                    PBT_CHECK( got[k] == m.d[k], "image " << i << ": element " << k % m.row << " of row " << k / m.row << " is " << int( got[k] ) << " instead of " << int( m.d[k] ) );
            };
            auto resized = [&]( Model & m, uint32_t w, uint32_t h ) {
                m.w = w;
                m.h = h;
                const uint32_t bytes = w * m.cc;
                m.row = w == 0 ? 0 : ( bytes + m.al - 1 ) / m.al * m.al;
                m.known = false;
                m.d.assign( static_cast<size_t>( m.row ) * h, 0 );
            };
            const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 14 ) );
            for ( uint32_t step = 0; step < steps; ++step ) {
                const size_t i = s.upto( slots - 1 ), j = s.upto( slots - 1 );
                Model & m = model[i];
                switch ( s.upto( 8 ) ) {
                case 0: { // another image of the device
                    uint32_t w, h;
                    genSize( s, w, h, 2000, 300 );
                    const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } ), al = genAlignment( s );
                    PBT_NOTE( ctx, i << " = new " << w << 'x' << h << 'x' << int( cc ) << " al " << int( al ) << "; " );
                    TImage made( w, h, cc, al );
                    if ( s.flag() )
                        image[i].swap( made );
                    else {
                        TImage taken( std::move( made ) );
                        image[i] = std::move( static_cast<Base &>( taken ) );
                    }
                    m.device = true;
                    m.cc = cc;
                    m.al = al;
                    resized( m, w, h );
                    break;
                }
                case 1: {
                    uint32_t w, h;
                    genSize( s, w, h, 2000, 300 );
                    PBT_NOTE( ctx, i << ".resize " << w << 'x' << h << "; " );
                    const bool same = m.w == w && m.h == h;
                    image[i].resize( w, h );
                    if ( !same )
                        resized( m, w, h );
                    break;
                }
                case 2:
                case 3: {
                    const T value = static_cast<T>( s.raw( sizeof( T ) ) );
                    if ( m.w == 0 || ( !m.device && sizeof( T ) > 1 ) )
                        break;
                    PBT_NOTE( ctx, i << ".fill " << int( value ) << "; " );
                    image[i].fill( value );
                    std::fill( m.d.begin(), m.d.end(), value );
                    m.known = true;
                    break;
                }
                case 4: {
                    if ( m.w == 0 )
                        break;
                    PBT_NOTE( ctx, "write " << i << "; " );
                    pbt::Stream r( s.raw( 3 ) );
                    for ( T & v : m.d )
                        v = static_cast<T>( r.next() );
                    if ( m.device )
                        multiCL::writeBuffer( reinterpret_cast<cl_mem>( image[i].data() ), m.d.size() * sizeof( T ), m.d.data() );
                    else
                        std::copy( m.d.begin(), m.d.end(), image[i].data() );
                    m.known = true;
                    break;
                }
                case 5:
                    PBT_NOTE( ctx, i << " = " << j << "; " );
                    if ( m.device != model[j].device ) {
                        const bool ok = refused( [&] { image[i] = image[j]; } );
                        PBT_CHECK( ok, "an image of the device is assigned to a plain image or the other way" );
                        break;
                    }
                    image[i] = image[j];
                    if ( i != j )
                        m = Model( model[j] );
                    break;
                case 6: {
                    PBT_NOTE( ctx, "swap " << i << ' ' << j << "; " );
                    image[i].swap( image[j] );
                    std::swap( model[i], model[j] );
                    break;
                }
                case 7: {
                    PBT_NOTE( ctx, i << " = copy " << j << "; " );
                    Base copy( image[j] );
                    image[i] = std::move( copy );
                    if ( i != j )
                        m = Model( model[j] );
                    break;
                }
                default: {
                    if ( s.flag() ) {
                        PBT_NOTE( ctx, "clear " << i << "; " );
                        image[i].clear();
                        m.w = m.h = m.row = 0;
                        m.d.clear();
                        m.known = true;
                    }
                    else {
                        uint32_t w, h;
                        genSize( s, w, h, 2000, 300 );
                        const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } );
                        PBT_NOTE( ctx, i << " = " << j << ".generate " << w << 'x' << h << 'x' << int( cc ) << "; " );
                        image[i] = image[j].generate( w, h, cc );
                        const bool device = model[j].device;
                        m.device = device;
                        m.cc = cc;
                        m.al = 1;
                        resized( m, w, h );
                    }
                    break;
                }
                }
                ctx.nontrivial = ctx.nontrivial || step > 3;
                check( i );
                check( j );
            }
            for ( size_t i = 0; i < slots; ++i )
                check( i );
        }
    }

    void historyReserve( Src & s, Ctx & ctx )
    {
        manager();
        if ( s.chance( 60 ) ) {
            const size_t size = s.pick<size_t>( { 4096, 65536, 1 << 20, 300000, 5000 } );
            PBT_NOTE( ctx, "reserve " << size << "; " );
            multiCL::MemoryManager::memory().reserve( size );
        }
    }

    pbt::Register p30f( "P30", "image histories", 2, "2 to 16 operations on 3 images of the device and 2 plain images, with and without preallocated memory; non-trivial: more than 4 steps", []( Src & s, Ctx & ctx ) {
        historyReserve( s, ctx );
        if ( s.chance( 40 ) ) {
            PBT_NOTE( ctx, "16 bit; " );
            imageHistory<uint16_t, penguinV::ImageTemplateOpenCL<uint16_t>>( s, ctx );
        }
        else
            imageHistory<uint8_t, ImageOpenCL>( s, ctx );
        // everything is released: another size can be reserved
        if ( s.chance( 60 ) )
            multiCL::MemoryManager::memory().reserve( 7000 + s.upto( 100 ) );
    }, 120 );

    // device memory ----------------------------------------------------------------------------------------------------

    bool preallocated( cl_mem memory )
    {
        cl_mem parent = NULL;
        multiCL::openCLCheck( clGetMemObjectInfo( memory, CL_MEM_ASSOCIATED_MEMOBJECT, sizeof( parent ), &parent, NULL ) );
        return parent != NULL;
    }

    template <typename T>
    void arrayHistory( Src & s, Ctx & ctx )
    {
        struct Live
        {
            std::unique_ptr<multiCL::Array<T>> array;
            std::vector<T> d;
            bool known = true;
        };
        std::vector<Live> live( 3 );
        for ( Live & l : live )
            l.array.reset( new multiCL::Array<T>() );
        auto gen = [&s]( size_t n ) {
            pbt::Stream r( s.raw( 3 ) );
            std::vector<T> v( n );
            for ( T & x : v )
                x = static_cast<T>( r.next() );
            return v;
        };
        const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 10 ) );
        for ( uint32_t step = 0; step < steps; ++step ) {
            Live & l = live[s.upto( 2 )];
            const size_t n = s.chance( 20 ) ? 0 : 1 + s.upto( s.flag() ? 10 : 3000 );
            switch ( s.upto( 6 ) ) {
            case 0:
                PBT_NOTE( ctx, "new array of " << n << "; " );
                l.d = gen( n );
                l.array.reset( new multiCL::Array<T>( l.d ) );
                l.known = true;
                break;
            case 1:
                PBT_NOTE( ctx, "assign " << n << "; " );
                l.d = gen( n );
                *l.array = l.d;
                l.known = true;
                break;
            case 2:
                PBT_NOTE( ctx, "resize " << n << "; " );
                l.known = l.known && l.d.size() == n;
                l.array->resize( n );
                l.d.resize( n );
                break;
            case 3: {
                Live & o = live[s.upto( 2 )];
                PBT_NOTE( ctx, "move; " );
                if ( &o == &l )
                    break;
                l.array.reset( new multiCL::Array<T>( std::move( *o.array ) ) );
                l.d.swap( o.d );
                o.d.clear();
                std::swap( l.known, o.known );
                o.known = true;
                break;
            }
            case 4: { // set bytes
                if ( l.d.empty() )
                    break;
                const size_t bytes = l.d.size() * sizeof( T );
                size_t unit = s.pick<size_t>( { 1, 2, 4 } );
                if ( unit > sizeof( T ) )
                    unit = 1;
                size_t offset = s.upto( bytes / unit - 1 ) * unit, size = ( 1 + s.upto( ( bytes - offset ) / unit - 1 ) ) * unit;
                const uint32_t pattern = static_cast<uint32_t>( s.raw( 4 ) );
                PBT_NOTE( ctx, "set " << size << " bytes at " << offset << " of " << bytes << " by patterns of " << unit << "; " );
                multiCL::MemoryManager::memorySet( l.array->data(), &pattern, unit, offset, size );
                uint8_t * d = reinterpret_cast<uint8_t *>( l.d.data() );
                for ( size_t k = 0; k < size; ++k )
                    d[offset + k] = reinterpret_cast<const uint8_t *>( &pattern )[k % unit];
                break;
            }
            case 5: { // more than any device has
                PBT_NOTE( ctx, "too big; " );
                const bool ok = refused( [&] { l.array->resize( ( static_cast<size_t>( 1 ) << 60 ) + n ); } );
                PBT_CHECK( ok, "an array of 2^60 elements is not refused" );
                PBT_CHECK( l.array->empty() == ( l.array->size() == 0 ), "an array without memory has " << l.array->size() << " elements" );
                l.d.resize( l.array->size() );
                l.known = l.d.empty();
                break;
            }
            default: {
                const T value = static_cast<T>( s.raw( 8 ) ), other = static_cast<T>( s.raw( 8 ) );
                PBT_NOTE( ctx, "single values; " );
                multiCL::Type<T> a( value ), b;
                b = other;
                PBT_CHECK( a.get() == value && b.get() == other, "a single value is changed" );
                a = std::move( b );
                PBT_CHECK( a.get() == other, "a moved value is changed" );
                multiCL::Type<T> c( std::move( a ) );
                PBT_CHECK( c.get() == other, "a moved value is changed" );
                break;
            }
            }
            ctx.nontrivial = ctx.nontrivial || step > 2;
            for ( const Live & x : live ) {
                PBT_CHECK( x.array->size() == x.d.size() && x.array->empty() == x.d.empty(), "an array has " << x.array->size() << " elements instead of " << x.d.size() );
                if ( x.known )
                    PBT_CHECK( x.array->get() == x.d, "contents of an array are changed" );
            }
        }
    }

    void allocatorHistory( Src & s, Ctx & ctx )
    {
        multiCL::MemoryAllocator & memory = multiCL::MemoryManager::memory();
        struct Chunk
        {
            cl_mem m;
            std::vector<uint8_t> d;
        };
        std::vector<Chunk> chunks;
        struct Release
        {
            std::vector<Chunk> & chunks;
            multiCL::MemoryAllocator & memory;
            ~Release()
            {
                for ( Chunk & c : chunks )
                    memory.free( c.m );
            }
        };
        size_t reserved = 0;
        {
            Release release{ chunks, memory };
            if ( s.flag() ) {
                reserved = s.pick<size_t>( { 1 << 14, 1 << 15, 40000, 100000, 1 << 16 } ) + ( s.flag() ? s.upto( 300 ) : 0 );
                memory.reserve( reserved );
                PBT_NOTE( ctx, "reserve " << reserved << "; " );
            }
            const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 18 ) );
            for ( uint32_t step = 0; step < steps; ++step ) {
                if ( !chunks.empty() && s.chance( 100 ) ) {
                    const size_t i = s.upto( chunks.size() - 1 );
                    PBT_NOTE( ctx, "free " << i << "; " );
                    const cl_mem m = chunks[i].m;
                    chunks.erase( chunks.begin() + static_cast<long>( i ) );
                    memory.free( m );
                }
                else if ( !chunks.empty() && s.chance( 20 ) && reserved > 0 ) {
                    bool inside = false;
                    for ( const Chunk & c : chunks )
                        inside = inside || preallocated( c.m );
                    if ( inside ) {
                        PBT_NOTE( ctx, "reserve while in use; " );
                        const bool ok = refused( [&] { memory.reserve( reserved + 1 ); } );
                        PBT_CHECK( ok, "memory in use is replaced" );
                    }
                }
                else {
                    const size_t n = 1 + s.upto( s.pick<size_t>( { 100, 1000, 5000, 20000 } ) );
                    const uint32_t kind = static_cast<uint32_t>( s.upto( 2 ) );
                    Chunk c;
                    c.m = kind == 0 ? memory.allocate<uint8_t>( n ) : kind == 1 ? memory.allocate<uint16_t>( n ) : memory.allocate<double>( n );
                    const size_t bytes = n * ( kind == 0 ? 1 : kind == 1 ? 2 : 8 );
                    PBT_NOTE( ctx, "allocate " << bytes << ( preallocated( c.m ) ? " inside; " : " outside; " ) );
                    pbt::Stream r( s.raw( 2 ) + 77 * step );
                    c.d.resize( bytes );
                    for ( uint8_t & v : c.d )
                        v = static_cast<uint8_t>( r.next() );
                    chunks.push_back( c );
                    size_t size = 0;
                    multiCL::openCLCheck( clGetMemObjectInfo( c.m, CL_MEM_SIZE, sizeof( size ), &size, NULL ) );
                    PBT_CHECK( size >= bytes, "allocated memory has " << size << " bytes instead of " << bytes );
                    multiCL::writeBuffer( c.m, bytes, c.d.data() );
                }
                ctx.nontrivial = ctx.nontrivial || chunks.size() > 2;
                for ( size_t i = 0; i < chunks.size(); ++i ) {
                    std::vector<uint8_t> got( chunks[i].d.size() );
                    multiCL::readBuffer( chunks[i].m, got.size(), got.data() );
                    PBT_CHECK( got == chunks[i].d, "contents of memory " << i << " are changed" );
                }
            }
        }
        chunks.clear();
        if ( reserved > 0 ) {
            // the biggest possible part is available again
            size_t biggest = 1;
            while ( biggest * 2 <= reserved )
                biggest *= 2;
            if ( biggest == reserved )
                biggest /= 2;
            const cl_mem m = memory.allocate<uint8_t>( biggest );
            const bool inside = preallocated( m );
            memory.free( m );
            PBT_CHECK( inside, "preallocated memory is not used again after everything is released" );
            memory.reserve( reserved + 512 );
        }
    }

    pbt::Register p30g( "P30", "device memory", 2, "histories of allocations, arrays and single values, with and without preallocated memory; non-trivial: more than 3 steps", []( Src & s, Ctx & ctx ) {
        historyReserve( s, ctx );
        switch ( s.upto( 4 ) ) {
        case 0:
            arrayHistory<uint8_t>( s, ctx );
            break;
        case 1:
            arrayHistory<uint32_t>( s, ctx );
            break;
        case 2:
            arrayHistory<uint64_t>( s, ctx );
            break;
        default:
            allocatorHistory( s, ctx );
            break;
        }
    }, 120 );

    // devices ----------------------------------------------------------------------------------------------------------

    pbt::Register p30h( "P30", "devices", 1, "histories of closing, initialising and choosing devices and queues with work in between, programs from files; non-trivial: a device was closed and used again", []( Src & s, Ctx & ctx ) {
        multiCL::OpenCLDeviceManager & m = manager();
        const uint32_t count = m.supportedDeviceCount();
        PBT_CHECK( count > 0, "no devices" );
        bool open = true;
        struct Restore
        {
            ~Restore()
            {
                manager().initializeDevices();
                manager().device().setCurrentQueueId( 0 );
                manager().device().setQueueCount( 1 );
            }
        } restore;
        m.initializeDevices();
        size_t queues = 1, current = 0;
        auto closed = [&]() {
            open = false;
            queues = 1;
            current = 0;
        };
        const uint32_t steps = 2 + static_cast<uint32_t>( s.upto( 8 ) );
        bool wasClosed = false;
        for ( uint32_t step = 0; step < steps; ++step ) {
            const uint32_t wrong = count + static_cast<uint32_t>( s.flag() ? s.upto( 3 ) : s.raw( 4 ) % 0xFFFFFFF0u );
            switch ( s.upto( 9 ) ) {
            case 0:
                PBT_NOTE( ctx, "close; " );
                s.flag() ? m.closeDevices() : m.closeDevice( 0 );
                wasClosed = true;
                closed();
                break;
            case 1:
                PBT_NOTE( ctx, "reset; " );
                m.resetSupportedDevice();
                PBT_CHECK( m.supportedDeviceCount() == count, "reset changes the number of supported devices" );
                wasClosed = true;
                closed();
                break;
            case 2:
            case 3:
                PBT_NOTE( ctx, "initialize; " );
                s.flag() ? m.initializeDevices() : m.initializeDevice( 0 );
                open = true;
                break;
            case 4:
                PBT_NOTE( ctx, "wrong id " << wrong << "; " );
                PBT_CHECK( refused( [&] { m.initializeDevice( wrong ); } ), "initialisation of device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { m.closeDevice( wrong ); } ), "closing of device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { m.device( wrong ); } ), "device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { static_cast<const multiCL::OpenCLDeviceManager &>( m ).device( wrong ); } ), "device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { m.setActiveDevice( wrong ); } ), "activation of device " << wrong << " is not refused" );
                PBT_CHECK( refused( [&] { multiCL::MemoryManager::memory( wrong ); } ), "memory of device " << wrong << " is not refused" );
                break;
            case 5:
                PBT_NOTE( ctx, "activate; " );
                PBT_CHECK( refused( [&] { m.setActiveDevice( 0 ); } ) == !open, "activation of a device which is " << ( open ? "open is refused" : "closed is not refused" ) );
                break;
            case 6:
                if ( open ) {
                    queues = 1 + s.upto( s.flag() ? 3 : 300 );
                    PBT_NOTE( ctx, queues << " queues; " );
                    m.device().setQueueCount( queues );
                    queues = std::min<size_t>( queues, 255 );
                    if ( current >= queues )
                        current = 0;
                }
                break;
            case 7:
                if ( open ) {
                    const size_t q = s.upto( s.flag() ? 3 : 300 );
                    PBT_NOTE( ctx, "queue " << q << "; " );
                    m.device().setCurrentQueueId( q );
                    if ( q < queues )
                        current = q;
                }
                break;
            case 8:
                if ( open ) { // a program from a file
                    const uint32_t value = 1 + s.byte();
                    const std::string name = pbt::scratchDirectory() + "/p30_" + std::to_string( getpid() ) + ".cl";
                    std::string code = "__kernel void set( __global uchar * data, uint size )\n{\n    const size_t x = get_global_id( 0 );\n    if ( x < size )\n        data[x] = " + std::to_string( value )
                                       + ";\n}";
                    if ( s.flag() )
                        code.append( 1 + s.upto( 40 ), ' ' );
                    {
                        std::ofstream( name, std::ios::binary ) << code;
                    }
                    PBT_NOTE( ctx, "program of " << code.size() << " bytes; " );
                    const multiCL::OpenCLProgram program = multiCL::CreateProgramFromFile( name );
                    multiCL::OpenCLKernel kernel( program, "set" );
                    multiCL::Array<uint8_t> data( std::vector<uint8_t>( 77, 0 ) );
                    kernel.setArgument( data.data(), static_cast<uint32_t>( 50 ) );
                    multiCL::launchKernel1D( kernel, 50 );
                    const std::vector<uint8_t> got = data.get();
                    for ( size_t i = 0; i < 77; ++i )
                        PBT_CHECK( got[i] == ( i < 50 ? static_cast<uint8_t>( value ) : 0 ), "element " << i << " after a program from a file is " << int( got[i] ) );
                }
                break;
            default:
                if ( open && s.flag() )
                    m.device().synchronize();
                break;
            }
            PBT_CHECK( m.deviceCount() == ( open ? count : 0 ), m.deviceCount() << " devices are open" );
            PBT_CHECK( refused( [&] { m.device(); } ) == !open, "the device is " << ( open ? "refused" : "given although it is closed" ) );
            if ( open ) {
                PBT_CHECK( m.device().queueCount() == queues, m.device().queueCount() << " queues instead of " << queues );
                PBT_CHECK( m.device().currentQueueId() == current, "current queue " << m.device().currentQueueId() << " instead of " << current );
                ctx.nontrivial = ctx.nontrivial || wasClosed;
                // work
                Image image = ImageOpenCL( 5, 3 );
                image.fill( static_cast<uint8_t>( step + 10 ) );
                const Image inverted = Image_Function_OpenCL::Invert( image );
                const Snap got = deviceSnap( inverted );
                for ( uint8_t v : got.d )
                    PBT_CHECK( v == 255 - ( step + 10 ), "inverted pixel is " << int( v ) << " instead of " << 255 - ( step + 10 ) );
            }
        }
    }, 120 );
}
