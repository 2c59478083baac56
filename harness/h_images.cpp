// P01 - P10: image functions against the reference, each other and their refusals
#include "image_function_helper.h"
#include "ops.h"
#include "thread_pool.h"

using namespace hv;

namespace
{
    const char * RULE = "operation, call form, sizes (mostly small or around vector lengths, up to 5000 long), margins, alignment, channels and contents drawn from the tape; "
                        "non-trivial: the processed rectangle has more than one pixel";

    GenOptions quickOptions()
    {
        GenOptions o;
        o.area = pbt::thorough() ? 60000 : 12000;
        return o;
    }

    void note( Ctx & ctx, const Call & c )
    {
        ctx.label( std::string( "op:" ) + opName( c.op ) );
        ctx.nontrivial = nontrivialCall( c );
        PBT_NOTE( ctx, describe( c ) );
    }

    pbt::PropertyFunction valueCheck( const std::vector<Op> & ( *list )() )
    {
        return [list]( Src & s, Ctx & ctx ) {
            const Op op = s.pickFrom( list() );
            Call c;
            genCall( s, c, op, quickOptions() );
            note( ctx, c );
            if ( !checkCall( c, runCpu ) )
                throw pbt::Discard();
        };
    }

    pbt::Register p01( "P01", "pointwise", 1, RULE, valueCheck( pointwiseOps ) );
    pbt::Register p02( "P02", "colour", 3, RULE, valueCheck( colourOps ) );
    pbt::Register p03( "P03", "reduction", 1, RULE, valueCheck( reductionOps ) );
    pbt::Register p04( "P04", "geometry", 3, RULE, valueCheck( geometryOps ) );
    pbt::Register p05( "P05", "morphology", 1, RULE, valueCheck( morphologyOps ) );

    // 8 -> 16 -> 8 bits, split -> merge, add -> remove alpha, swap twice give the original
    pbt::Register p02b( "P02", "round trips", 1, "conversion there and back of a generated image; non-trivial: more than one pixel", []( Src & s, Ctx & ctx ) {
        GenOptions o = quickOptions();
        o.forms = 1;
        const Op ops[] = { ConvertTo16Bit, RgbToRgba, RgbToBgr, Split };
        const Op op = ops[s.upto( 3 )];
        Call c;
        if ( op == Split )
            o.forms = 2;
        genCall( s, c, op, o );
        note( ctx, c );
        const Snap original = snap( c.in[0].img );
        if ( !runCpu( c ) )
            throw pbt::Discard();
        Call back;
        back.w = back.wo = c.w;
        back.h = back.ho = c.h;
        back.form = 1;
        if ( op == ConvertTo16Bit ) {
            back.op = ConvertTo8Bit;
            back.wide = c.wide;
        }
        else if ( op == Split ) {
            back.op = Merge;
            back.in = c.out;
        }
        else {
            back.op = op == RgbToRgba ? RgbaToRgb : RgbToBgr;
            back.in = c.out;
        }
        runCpu( back );
        const Snap now = snap( back.out[0].img );
        PBT_CHECK( now.w == original.w && now.h == original.h && now.cc == original.cc, "the way back changed the size" );
        for ( uint32_t y = 0; y < now.h; ++y )
            for ( uint32_t x = 0; x < now.w; ++x )
                for ( uint32_t k = 0; k < now.cc; ++k )
                    PBT_CHECK( now.at( x, y, k ) == original.at( x, y, k ),
                               "pixel (" << x << ", " << y << ") channel " << k << " is " << int( now.at( x, y, k ) ) << " instead of " << int( original.at( x, y, k ) ) );
    } );

    // involutions and identities
    pbt::Register p04b( "P04", "involutions", 1, "flip twice, transpose twice, shift by zero of a generated image; non-trivial: more than one pixel", []( Src & s, Ctx & ctx ) {
        GenOptions o = quickOptions();
        o.forms = 1;
        const Op ops[] = { Flip, Transpose, Shift };
        const Op op = ops[s.upto( 2 )];
        Call c;
        genCall( s, c, op, o );
        if ( op == Shift )
            c.d1 = c.d2 = 0;
        note( ctx, c );
        const Snap original = snap( c.in[0].img );
        runCpu( c );
        if ( op != Shift ) {
            Call again = c;
            again.in = c.out;
            std::swap( again.w, again.wo );
            std::swap( again.h, again.ho );
            runCpu( again );
            c = again;
        }
        const Snap now = snap( c.out[0].img );
        PBT_CHECK( now.w == original.w && now.h == original.h, "the size changed" );
        for ( uint32_t y = 0; y < now.h; ++y )
            for ( uint32_t x = 0; x < now.w; ++x )
                PBT_CHECK( now.at( x, y ) == original.at( x, y ),
                           "pixel (" << x << ", " << y << ") is " << int( now.at( x, y ) ) << " instead of " << int( original.at( x, y ) ) );
    } );

    // back ends -----------------------------------------------------------------------------------------------------

    void setLevel( uint32_t level ) // bits: AVX512, AVX, SSE, NEON
    {
        simd::EnableAvx512( ( level & 1 ) == 0 );
        simd::EnableAvx( ( level & 2 ) == 0 );
        simd::EnableSse( ( level & 4 ) == 0 );
        simd::EnableNeon( ( level & 8 ) == 0 );
    }

    uint32_t genLevelSwitch( Src & s )
    {
        switch ( s.upto( 6 ) ) {
        case 0:
            return 0;
        case 1:
        case 2:
            return 1; // up to AVX
        case 3:
        case 4:
            return 3; // up to SSE
        case 5:
            return 15; // scalar
        default:
            return static_cast<uint32_t>( s.upto( 15 ) );
        }
    }

    const char * levelName()
    {
        switch ( simd::actualSimdType() ) {
        case simd::avx512_function:
            return "avx512";
        case simd::avx_function:
            return "avx";
        case simd::sse_function:
            return "sse";
        case simd::neon_function:
            return "neon";
        default:
            return "scalar";
        }
    }

    void setThreads( size_t n )
    {
        ThreadPool & pool = ThreadPoolMonoid::instance();
        if ( pool.threadCount() != n )
            pool.resize( n );
    }

    const std::vector<Op> & opsOf( RunFunction run )
    {
        // operations every back end has, by its binding
        static const std::vector<Op> simdOps{ AbsoluteDifference, BitwiseAnd, BitwiseOr,  BitwiseXor, Maximum,        Minimum,        Subtract, Invert,           Threshold, Threshold2,
                                              ConvertToRgb,       RgbToBgr,   ConvertTo16Bit, ConvertTo8Bit,  Sum,      ProjectionProfile, Accumulate, Flip };
        static const std::vector<Op> poolOps{ AbsoluteDifference, BitwiseAnd, BitwiseOr,          BitwiseXor,   Maximum,  Minimum, Subtract,       Invert, Threshold,
                                              Threshold2,         LookupTable, GammaCorrection,    Normalize,    ConvertToGrayScale, ConvertToRgb, RgbToBgr, Merge,   Split,
                                              ExtractChannel,     Sum,        Histogram,          ProjectionProfile, IsEqual, Flip,    Transpose,      Resize };
        static const std::vector<Op> genericOps{ AbsoluteDifference, BitwiseAnd, BitwiseOr, BitwiseXor, Maximum, Minimum, Subtract, Invert, Threshold, Threshold2, LookupTable,
                                                 GammaCorrection, Normalize, Copy, Fill, SetPixel, SetPixel2, GetPixel, ConvertToGrayScale, ConvertToRgb, RgbToBgr, Merge, Split,
                                                 ExtractChannel, Sum, Histogram, ProjectionProfile, Accumulate, IsEqual, Flip, Transpose, Resize };
        if ( run == runSimd )
            return simdOps;
        if ( run == runPool )
            return poolOps;
        if ( run == runGeneric )
            return genericOps;
        return allOps();
    }

    RunFunction genBackEnd( Src & s, Ctx & ctx )
    {
#if defined( PBT_BUILDS )
        const uint64_t backEnd = 3 + s.upto( 4 );
#else
        const uint64_t backEnd = s.upto( 7 );
#endif
        switch ( backEnd ) {
        case 0:
        case 1:
        case 2:
            ctx.label( "backend:cpu" );
            PBT_NOTE( ctx, "cpu " );
            return runCpu;
        case 3:
        case 4:
        case 5:
            setLevel( genLevelSwitch( s ) );
            ctx.label( std::string( "backend:simd " ) + levelName() );
            PBT_NOTE( ctx, "simd " << levelName() << ' ' );
            return runSimd;
        case 6:
            setThreads( 1 + s.upto( 7 ) );
            ctx.label( "backend:pool" );
            PBT_NOTE( ctx, "pool of " << ThreadPoolMonoid::instance().threadCount() << " threads " );
            return runPool;
        default:
            setLevel( genLevelSwitch( s ) );
            ctx.label( "backend:generic" );
            PBT_NOTE( ctx, "generic " );
            return runGeneric;
        }
    }

    // Built for other processors everything about back ends belongs to one property.
#if defined( PBT_BUILDS )
#define BACK_END( id ) "P35"
#else
#define BACK_END( id ) id
#endif

    pbt::Register p06( BACK_END( "P06" ), "frame", 1, RULE, []( Src & s, Ctx & ctx ) {
        const RunFunction run = genBackEnd( s, ctx );
        Call c;
        genCall( s, c, s.pickFrom( opsOf( run ) ), quickOptions() );
        note( ctx, c );
        if ( !checkCall( c, run, FRAME ) )
            throw pbt::Discard();
    } );

    // refusals --------------------------------------------------------------------------------------------------------

    pbt::Register p07( BACK_END( "P07" ), "refusals", 1, "a valid generated call made invalid in one respect; non-trivial: every call that is invalid", []( Src & s, Ctx & ctx ) {
        const RunFunction run = genBackEnd( s, ctx );
        GenOptions o = quickOptions();
        o.area = 1500;
        o.limit = 300;
        Call c;
        genCall( s, c, s.pickFrom( opsOf( run ) ), o );
        std::string wrong;
        for ( int i = 0; i < 4 && wrong.empty(); ++i )
            wrong = breakCall( s, c );
        if ( wrong.empty() )
            throw pbt::Discard();
        // the generic whole-image copy replaces its output completely
        if ( run == runGeneric && c.op == Copy && c.form == 2 )
            throw pbt::Discard();
        ctx.label( "wrong:" + wrong.substr( 0, wrong.find_first_of( "0123456789" ) ) );
        note( ctx, c );
        ctx.nontrivial = true;
        PBT_NOTE( ctx, "; invalid: " << wrong );
        const Before b = before( c );
        bool refused = false;
        try {
            if ( !run( c ) )
                throw pbt::Discard();
        }
        catch ( const std::exception & ) {
            refused = true;
        }
        PBT_CHECK( refused, "an invalid call was accepted: " << wrong );
        for ( size_t i = 0; i < c.in.size(); ++i )
            PBT_CHECK( snap( c.in[i].img ) == b.in[i], "a refused call changed image " << i << ": " << wrong );
        if ( c.alias < 0 && !c.returns() ) {
            for ( size_t i = 0; i < b.out.size(); ++i )
                PBT_CHECK( snap( c.out[i].img ) == b.out[i], "a refused call changed output " << i << ": " << wrong );
        }
        PBT_CHECK( snap( c.wide ) == b.wide, "a refused call changed the 16-bit image: " << wrong );
    } );

    // SIMD -----------------------------------------------------------------------------------------------------------

    pbt::Register p08( BACK_END( "P08" ), "levels", 4, "one to three vectorised operations with the instruction set switched in between; non-trivial: more than one pixel", []( Src & s, Ctx & ctx ) {
        const uint32_t n = 1 + static_cast<uint32_t>( s.upto( 2 ) );
        for ( uint32_t i = 0; i < n; ++i ) {
            setLevel( genLevelSwitch( s ) );
            Call c;
            GenOptions o = quickOptions();
            if ( s.chance( 8 ) )
                o.area *= 12;
            genCall( s, c, s.pickFrom( opsOf( runSimd ) ), o );
            note( ctx, c );
            ctx.label( std::string( "level:" ) + levelName() );
            PBT_NOTE( ctx, " at " << levelName() << "; " );
            if ( !checkCall( c, runSimd ) )
                throw pbt::Discard();
        }
        setLevel( 0 );
    } );

#if defined( PBT_BUILDS )
    pbt::Register p35( "P35", "instruction set", 1, "the best enabled instruction set of the build is used; non-trivial: some set is enabled", []( Src & s, Ctx & ctx ) {
        const char * broken = std::getenv( "PBT_BROKEN_BUILDS" );
        PBT_CHECK( broken == nullptr || broken[0] == '\0', "the library does not compile for: " << broken );
        const char * variant = std::getenv( "PBT_VARIANT" );
        const std::string name = variant == nullptr ? "" : variant;
        const uint32_t level = genLevelSwitch( s );
        setLevel( level );
        PBT_NOTE( ctx, "level " << level );
        const bool avx = name == "AVX2" && __builtin_cpu_supports( "avx2" ) && ( level & 2 ) == 0;
        const bool sse = ( name == "SSE2" || name == "SSSE3" || name == "AVX2" ) && ( level & 4 ) == 0;
        const bool neon = name == "NEON" && ( level & 8 ) == 0;
        ctx.nontrivial = avx || sse || neon;
        const simd::SIMDType expected = avx ? simd::avx_function : sse ? simd::sse_function : neon ? simd::neon_function : simd::cpu_function;
        const simd::SIMDType actual = simd::actualSimdType();
        PBT_CHECK( actual == expected, "the instruction set is " << levelName() << " (" << int( expected ) << " expected)" );
        setLevel( 0 );
    } );
#endif

    // thread pool ----------------------------------------------------------------------------------------------------

    void compareCalls( const Call & a, const Call & b )
    {
        PBT_CHECK( a.num == b.num, "result " << a.num << " instead of " << b.num );
        PBT_CHECK( a.vec.size() == b.vec.size(), "result has " << a.vec.size() << " elements instead of " << b.vec.size() );
        for ( size_t i = 0; i < a.vec.size(); ++i )
            PBT_CHECK( a.vec[i] == b.vec[i], "element " << i << " is " << a.vec[i] << " instead of " << b.vec[i] );
        const size_t outputs = a.alias >= 0 ? 1 : a.out.size();
        PBT_CHECK( a.alias >= 0 || a.out.size() == b.out.size(), "different number of outputs" );
        for ( size_t i = 0; i < outputs; ++i ) {
            const Image & x = a.alias >= 0 ? a.in[static_cast<size_t>( a.alias )].img : a.out[i].img;
            const Image & y = b.alias >= 0 ? b.in[static_cast<size_t>( b.alias )].img : b.out[i].img;
            const Snap l = snap( x ), r = snap( y );
            PBT_CHECK( l.w == r.w && l.h == r.h && l.cc == r.cc, "output " << i << " has another size or channel count: " << show( l, 0 ) << " instead of " << show( r, 0 ) );
            const uint32_t x0 = a.returns() ? 0 : a.out[i].x, y0 = a.returns() ? 0 : a.out[i].y;
            for ( uint32_t py = 0; py < a.ho; ++py )
                for ( uint32_t px = 0; px < a.wo; ++px )
                    for ( uint32_t k = 0; k < l.cc; ++k )
                        PBT_CHECK( l.at( x0 + px, y0 + py, k ) == r.at( x0 + px, y0 + py, k ),
                                   "pixel (" << px << ", " << py << ") channel " << k << " is " << int( l.at( x0 + px, y0 + py, k ) ) << " instead of "
                                             << int( r.at( x0 + px, y0 + py, k ) ) );
        }
    }

    pbt::Register p09(
        "P09", "pool", 1, "one to three operations on pools of 1 to 12 threads compared with the single-threaded call; non-trivial: more than one pixel",
        []( Src & s, Ctx & ctx ) {
            const uint32_t n = 1 + static_cast<uint32_t>( s.upto( 2 ) );
            for ( uint32_t i = 0; i < n; ++i ) {
                if ( i == 0 || s.flag() )
                    setThreads( 1 + ( s.flag() ? s.upto( 3 ) : s.upto( 11 ) ) );
                Call c;
                genCall( s, c, s.pickFrom( opsOf( runPool ) ), quickOptions() );
                note( ctx, c );
                PBT_NOTE( ctx, " on " << ThreadPoolMonoid::instance().threadCount() << " threads; " );
                Call single = c;
                if ( !runCpu( single ) )
                    throw pbt::Discard();
                if ( !runPool( c ) )
                    throw pbt::Discard();
                compareCalls( c, single );
            }
        },
        20, true );

    // generic entry points -------------------------------------------------------------------------------------------

    pbt::Register p10( BACK_END( "P10" ), "generic", 2, RULE, []( Src & s, Ctx & ctx ) {
        setLevel( genLevelSwitch( s ) );
        ImageTypeManager::instance().enableIntertypeConversion( s.flag() );
        Call c;
        genCall( s, c, s.pickFrom( opsOf( runGeneric ) ), quickOptions() );
        note( ctx, c );
        PBT_NOTE( ctx, " at " << levelName() );
        Call scalar = c;
        if ( !runCpu( scalar ) && c.op != Copy )
            throw pbt::Discard();
        if ( c.op == Copy && c.form == 2 ) {
            runGeneric( c );
            const Snap a = snap( c.out[0].img ), b = snap( c.in[0].img );
            PBT_CHECK( a.w == b.w && a.h == b.h && a.cc == b.cc, "copy has another size" );
            for ( uint32_t y = 0; y < a.h; ++y )
                for ( uint32_t x = 0; x < a.w * a.cc; ++x )
                    PBT_CHECK( a.at( 0, y, x ) == b.at( 0, y, x ), "copy differs at row " << y << " byte " << x );
            return;
        }
        if ( !runGeneric( c ) )
            throw pbt::Discard();
        compareCalls( c, scalar );
    } );

    // A second image type which stores its pixels inverted in memory of its own
    class OtherImage : public Image
    {
    public:
        explicit OtherImage( uint32_t w = 0, uint32_t h = 0, uint8_t cc = 1 )
            : Image( 0, 0, cc )
        {
            _setType( 77, allocate, deallocate, copyMemory, setMemory );
            setColorCount( cc );
            resize( w, h );
        }

    private:
        static uint8_t * allocate( size_t size )
        {
            return new uint8_t[size];
        }
        static void deallocate( uint8_t * data )
        {
            delete[] data;
        }
        static void copyMemory( uint8_t * out, uint8_t * in, size_t size )
        {
            std::copy( in, in + size, out );
        }
        static void setMemory( uint8_t * data, uint8_t value, size_t size )
        {
            std::fill( data, data + size, static_cast<uint8_t>( ~value ) );
        }
    };

    void convert( const Image & in, Image & out )
    {
        if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
            throw penguinVException( "sizes differ" );
        const size_t bytes = static_cast<size_t>( in.width() ) * in.colorCount();
        for ( uint32_t y = 0; y < in.height(); ++y )
            for ( size_t i = 0; i < bytes; ++i )
                out.data()[static_cast<size_t>( y ) * out.rowSize() + i] = static_cast<uint8_t>( ~in.data()[static_cast<size_t>( y ) * in.rowSize() + i] );
    }

    Image toOther( const Image & in )
    {
        Image out = OtherImage().generate( in.width(), in.height(), in.colorCount() );
        convert( in, out );
        return out;
    }

    Image fromOther( const Image & in )
    {
        Image out( in.width(), in.height(), in.colorCount() );
        convert( in, out );
        return out;
    }

    pbt::RegisterInit registerOther( []() {
        ImageTypeManager & manager = ImageTypeManager::instance();
        Image_Function_Helper::FunctionTableHolder table; // no functions: everything has to be converted
        manager.setFunctionTable( 77, table );
        manager.setConvertFunction( convert, Image(), OtherImage() );
        manager.setConvertFunction( convert, OtherImage(), Image() );
        manager.enableIntertypeConversion( false );
    } );

    pbt::Register p10b( "P10", "image types", 1,
                        "generated calls in which some or all images are of another registered type, with conversion enabled or disabled; non-trivial: more than one pixel",
                        []( Src & s, Ctx & ctx ) {
                            setLevel( 0 );
                            GenOptions o = quickOptions();
                            o.area = 2000;
                            o.alias = false;
                            Call c;
                            genCall( s, c, s.pickFrom( opsOf( runGeneric ) ), o );
                            if ( ( c.op == Copy || c.op == Fill ) && c.form == 2 )
                                throw pbt::Discard();
                            note( ctx, c );
                            const bool enabled = s.chance( 200 );
                            ImageTypeManager::instance().enableIntertypeConversion( enabled );
                            Call scalar = c;
                            runCpu( scalar );
                            // which images are of the other type; without conversion only refusals of calls with a foreign first image are specified
                            uint32_t which = 1 + static_cast<uint32_t>( s.upto( 14 ) );
                            if ( !enabled )
                                which |= 1;
                            PBT_NOTE( ctx, "; other type: mask " << which << ( enabled ? " conversion on" : " conversion off" ) );
                            size_t bit = 0;
                            for ( Slot & slot : c.in ) {
                                if ( which & ( 1u << bit ) )
                                    slot.img = toOther( slot.img );
                                ++bit;
                            }
                            if ( c.alias < 0 && !c.returns() ) {
                                for ( Slot & slot : c.out ) {
                                    if ( which & ( 1u << bit ) )
                                        slot.img = toOther( slot.img );
                                    ++bit;
                                }
                            }
                            if ( !enabled ) {
                                bool refused = false;
                                try {
                                    runGeneric( c );
                                }
                                catch ( const std::exception & ) {
                                    refused = true;
                                }
                                PBT_CHECK( refused, "a call that needs type conversion was accepted although it is disabled" );
                                return;
                            }
                            runGeneric( c );
                            for ( Slot & slot : c.in ) {
                                if ( slot.img.type() == 77 )
                                    slot.img = fromOther( slot.img );
                            }
                            for ( Slot & slot : c.out ) {
                                if ( slot.img.type() == 77 )
                                    slot.img = fromOther( slot.img );
                            }
                            compareCalls( c, scalar );
                        } );
}
