// P32: independent calls from several threads, under a race detector
#include "blob_detection.h"
#include "edge_detection.h"
#include "fft.h"
#include "file/bmp_image.h"
#include "file/raw_image.h"
#include "filtering.h"
#include "image_function_helper.h"
#include "function_pool.h"
#include "image_function.h"
#include "image_function_simd.h"
#include "math/hough_transform.h"
#include "penguinv/penguinv.h"
#include "ops.h"
#include "perturb.h"
#include "thread_pool.h"
#include <atomic>
#include <memory>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace hv;

namespace
{
    // Another image type: its memory functions are registered when the first image of the type is made
    class OtherImage : public Image
    {
    public:
        explicit OtherImage( uint32_t w = 0, uint32_t h = 0, uint8_t cc = 1 )
            : Image( 0, 0, cc )
        {
            _setType( 77, allocate, deallocate, copyMemory, setMemory );
            setColorCount( cc );
            resize( w, h );
        }

    private:
        static uint8_t * allocate( size_t size )
        {
            return new uint8_t[size];
        }
        static void deallocate( uint8_t * data )
        {
            delete[] data;
        }
        static void copyMemory( uint8_t * out, uint8_t * in, size_t size )
        {
            std::copy( in, in + size, out );
        }
        static void setMemory( uint8_t * data, uint8_t value, size_t size )
        {
            std::fill( data, data + size, static_cast<uint8_t>( ~value ) );
        }
    };

    void convert( const Image & in, Image & out )
    {
        if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
            throw penguinVException( "sizes differ" );
        const size_t bytes = static_cast<size_t>( in.width() ) * in.colorCount();
        for ( uint32_t y = 0; y < in.height(); ++y )
            for ( size_t i = 0; i < bytes; ++i )
                out.data()[static_cast<size_t>( y ) * out.rowSize() + i] = static_cast<uint8_t>( ~in.data()[static_cast<size_t>( y ) * in.rowSize() + i] );
    }

    typedef std::vector<double> Digest;

    void add( Digest & d, const Image & image )
    {
        d.push_back( image.width() );
        d.push_back( image.height() );
        d.push_back( image.colorCount() );
        const size_t bytes = static_cast<size_t>( image.width() ) * image.colorCount();
        for ( uint32_t y = 0; y < image.height(); ++y )
            for ( size_t i = 0; i < bytes; ++i )
                d.push_back( image.data()[static_cast<size_t>( y ) * image.rowSize() + i] );
    }

    template <typename T>
    void add( Digest & d, const std::vector<T> & v )
    {
        d.push_back( static_cast<double>( v.size() ) );
        for ( const T & x : v )
            d.push_back( static_cast<double>( x ) );
    }

    enum Task
    {
        Life,
        Types,
        Wide,
        Bitmap,
        RawFile,
        Blobs,
        Edges,
        Filters,
        Fourier,
        Levels,
        Lines,
        Reads,
        PoolReads,
        Refused,
        Mixed,
        TaskCount
    };
    const char * const taskName[] = { "life", "types", "wide", "bitmap", "raw file", "blobs", "edges", "filters", "fourier", "levels", "lines", "reads", "pool reads", "refused", "mixed" };

    // Work of a user on data of its own; [in] is only read and may be shared. The digest depends on the arguments only.
    Digest work( Task task, const Image & in, uint64_t seed, const std::string & path )
    {
        Digest d;
        pbt::Stream r( seed );
        const uint32_t w = in.width(), h = in.height();
        switch ( task ) {
        case Life: {
            std::vector<Image> images( 3 );
            for ( int i = 0; i < 12; ++i ) {
                Image & a = images[r.below( 3 )];
                Image & b = images[r.below( 3 )];
                switch ( r.below( 6 ) ) {
                case 0:
                    a = Image( 1 + r.below( 40 ), 1 + r.below( 30 ), r.below( 2 ) ? 3 : 1, static_cast<uint8_t>( 1 + r.below( 16 ) ) );
                    a.fill( static_cast<uint8_t>( r.next() ) );
                    break;
                case 1:
                    a = b;
                    break;
                case 2:
                    a = in;
                    break;
                case 3:
                    a.resize( 1 + r.below( 20 ), 1 + r.below( 20 ) );
                    a.fill( static_cast<uint8_t>( r.next() ) );
                    break;
                case 4:
                    a.swap( b );
                    break;
                default: {
                    Image c( in );
                    b = std::move( c );
                }
                }
            }
            for ( const Image & i : images )
                add( d, i );
            break;
        }
        case Types: {
            Image a = OtherImage( w, h, in.colorCount() );
            Image b = OtherImage().generate( w, h, in.colorCount() );
            convert( in, b );
            a = b;
            Image c = a;
            a.fill( static_cast<uint8_t>( r.next() ) );
            Image e( w, h, in.colorCount() );
            convert( c, e );
            add( d, e );
            convert( a, e );
            add( d, e );
            break;
        }
        case Wide: {
            Image16Bit a( w, h, in.colorCount() );
            Image_Function::ConvertTo16Bit( in, 0, 0, a, 0, 0, w, h );
            Image16Bit b = a;
            ImageTemplate<uint32_t> other( 1 + r.below( 9 ), 1 + r.below( 9 ) );
            other.fill( static_cast<uint32_t>( r.next() ) );
            ImageTemplate<uint32_t> copy = other;
            d.push_back( copy.data()[0] );
            Image c( w, h, in.colorCount() );
            Image_Function::ConvertTo8Bit( b, 0, 0, c, 0, 0, w, h );
            add( d, c );
            break;
        }
        case Bitmap: {
            Bitmap_Operation::Save( path, in );
            const Image a = Bitmap_Operation::Load( path );
            add( d, a );
            break;
        }
        case RawFile: {
            Raw_Operation::Save( path, in );
            add( d, Raw_Operation::Load<uint8_t>( path, w, h, in.colorCount() ) );
            break;
        }
        case Blobs: {
            if ( in.colorCount() != 1 )
                break;
            Blob_Detection::BlobDetection detection;
            Blob_Detection::BlobParameters parameters;
            parameters.circularity.setMinimum( 0 );
            parameters.size.setMinimum( 1 );
            const std::vector<Blob_Detection::BlobInfo> & found = detection.find( in, parameters, static_cast<uint8_t>( 1 + r.below( 255 ) ) );
            d.push_back( static_cast<double>( found.size() ) );
            for ( const Blob_Detection::BlobInfo & blob : found ) {
                add( d, blob.pointX() );
                add( d, blob.pointY() );
                add( d, blob.contourX() );
                d.push_back( static_cast<double>( blob.size() ) );
            }
            break;
        }
        case Edges: {
            if ( in.colorCount() != 1 )
                break;
            EdgeParameter parameter;
            parameter.direction = static_cast<EdgeParameter::DirectionType>( r.below( 4 ) );
            parameter.gradient = EdgeParameter::GradientType::ANY;
            parameter.minimumContrast = static_cast<uint8_t>( 1 + r.below( 60 ) );
            EdgeDetection edges;
            edges.find( in, parameter );
            for ( const auto * list : { &edges.positiveEdge(), &edges.negativeEdge() } ) {
                d.push_back( static_cast<double>( list->size() ) );
                for ( const auto & p : *list ) {
                    d.push_back( p.x );
                    d.push_back( p.y );
                }
            }
            break;
        }
        case Filters: {
            if ( in.colorCount() != 1 || w < 4 || h < 4 )
                break;
            add( d, Image_Function::Median( in, 3 ) );
            add( d, Image_Function::Sobel( in ) );
            add( d, Image_Function::Prewitt( in ) );
            std::vector<float> kernel;
            Image_Function::GetGaussianKernel( kernel, w, h, 1, static_cast<float>( 1 + r.below( 5 ) ) );
            add( d, kernel );
            break;
        }
        case Fourier: {
            if ( in.colorCount() != 1 )
                break;
            FFT::ComplexData a( in ), b;
            FFT::FFTExecutor executor( w, h );
            b.resize( w, h );
            executor.directTransform( a, b );
            executor.complexMultiplication( a, b, b );
            for ( size_t i = 0; i < static_cast<size_t>( w ) * h; ++i ) {
                d.push_back( b.data()[i].r );
                d.push_back( b.data()[i].i );
            }
            break;
        }
        case Levels: {
            if ( in.colorCount() != 1 )
                break;
            const std::vector<uint32_t> histogram = Image_Function::Histogram( in );
            add( d, histogram );
            d.push_back( Image_Function::GetThreshold( histogram ) );
            add( d, Image_Function::LookupTable( in, std::vector<uint8_t>( 256, static_cast<uint8_t>( r.next() ) ) ) );
            break;
        }
        case Lines: {
            std::vector<PointBase2D<double>> points, on, off;
            for ( int i = 0; i < 12; ++i )
                points.push_back( PointBase2D<double>( r.below( 50 ), r.below( 50 ) ) );
            d.push_back( Image_Function::HoughTransform( points, 0.3, 0.2, 0.1, 2.0, on, off ) );
            d.push_back( static_cast<double>( on.size() ) );
            break;
        }
        case Reads: {
            d.push_back( Image_Function::IsEqual( in, in ) );
            add( d, Image_Function::Invert( in ) );
            if ( in.colorCount() == 1 ) {
                d.push_back( Image_Function_Simd::Sum( in ) );
                add( d, Image_Function::ProjectionProfile( in, r.below( 2 ) == 0 ) );
                add( d, Image_Function_Simd::Flip( in, r.below( 2 ) == 0, r.below( 2 ) == 0 ) );
                add( d, Image_Function::Transpose( in ) );
                add( d, penguinV::Threshold( in, static_cast<uint8_t>( r.next() ) ) );
            }
            add( d, penguinV::Maximum( in, in ) );
            add( d, Image_Function_Simd::Subtract( in, in ) );
            break;
        }
        case PoolReads: {
            add( d, Function_Pool::Invert( in ) );
            if ( in.colorCount() == 1 ) {
                d.push_back( Function_Pool::Sum( in, 0, 0, w, h ) );
                add( d, Function_Pool::Histogram( in ) );
                add( d, Function_Pool::Resize( in, 1 + r.below( 40 ), 1 + r.below( 40 ) ) );
            }
            break;
        }
        case Refused: { // exceptions in several threads
            Image other( w + 1, h, in.colorCount() );
            for ( int i = 0; i < 3; ++i ) {
                try {
                    switch ( i ) {
                    case 0:
                        Image_Function::Maximum( in, other );
                        break;
                    case 1:
                        Function_Pool::Maximum( in, other );
                        break;
                    default:
                        Bitmap_Operation::Load( path + ".missing" );
                    }
                    d.push_back( 0 );
                }
                catch ( const penguinVException & e ) {
                    d.push_back( static_cast<double>( std::string( e.what() ).size() > 0 ) );
                }
            }
            break;
        }
        default: { // images of another type, converted there and back
            Image a = OtherImage().generate( w, h, in.colorCount() );
            convert( in, a );
            const Image b = penguinV::Invert( a );
            d.push_back( b.type() );
            Image c( w, h, in.colorCount() );
            convert( b, c );
            add( d, c );
        }
        }
        return d;
    }

    struct Job
    {
        int task = -1; // -1: a call of an image function
        size_t image = 0;
        uint64_t seed = 0;
        std::string path;
        Digest result;
        std::string error;

        Call call;
        RunFunction run = nullptr;
        const char * runName = "";
        bool done = false;
        Before start;
    };

    const std::vector<Op> & sharedOps()
    {
        static const std::vector<Op> list{ AbsoluteDifference, BitwiseAnd, BitwiseOr, BitwiseXor, Maximum, Minimum, Subtract, Invert, Threshold, Threshold2, ConvertToRgb, RgbToBgr, Sum, ProjectionProfile, Flip };
        return list;
    }

    struct Scene
    {
        std::vector<Image> images; // read by several threads
        std::vector<std::vector<Job>> threads;
    };

    // Uses the library for nothing but images
    void genScene( Src & s, Ctx & ctx, Scene & scene, bool inRow, const std::string & directory )
    {
        const size_t imageCount = 1 + s.upto( 2 );
        for ( size_t i = 0; i < imageCount; ++i ) {
            uint32_t w, h;
            genSize( s, w, h, 1500, 300 );
            scene.images.push_back( genImage( s, w, h, s.chance( 64 ) ? 3 : 1, genAlignment( s ) ) );
        }
        scene.threads.resize( 2 + s.upto( inRow ? 6 : 4 ) );
        int number = 0;
        const bool same = s.chance( 110 ); // all threads do the same kind of work
        const int common = s.chance( 110 ) ? -1 : static_cast<int>( s.upto( TaskCount ) ) - 1;
        // then image functions are one and the same function, too
        const size_t commonKind = s.upto( 3 );
        const Op commonOp = s.pickFrom( commonKind == 0 ? allOps() : sharedOps() );
        for ( std::vector<Job> & jobs : scene.threads ) {
            jobs.resize( 1 + s.upto( 3 ) );
            PBT_NOTE( ctx, "thread:" );
            for ( Job & job : jobs ) {
                job.task = same ? common : s.flag() ? -1 : static_cast<int>( s.upto( TaskCount - 1 ) );
                if ( job.task >= 0 ) {
                    job.image = s.upto( imageCount - 1 );
                    job.seed = s.raw( 3 );
                    job.path = directory + "/c" + std::to_string( number++ );
                    ctx.label( std::string( "task:" ) + taskName[job.task] );
                    PBT_NOTE( ctx, ' ' << taskName[job.task] << '(' << job.image << ')' );
                    continue;
                }
                GenOptions o;
                o.area = 1500;
                o.limit = 400;
                const size_t kind = same ? commonKind : s.upto( 3 );
                const Op op = same ? commonOp : s.pickFrom( kind == 0 ? allOps() : sharedOps() );
                switch ( kind ) {
                case 0:
                    job.run = runCpu;
                    job.runName = "cpu";
                    genCall( s, job.call, op, o );
                    break;
                case 1:
                    job.run = runSimd;
                    job.runName = "simd";
                    genCall( s, job.call, op, o );
                    break;
                case 2:
                    job.run = runPool;
                    job.runName = "pool";
                    genCall( s, job.call, op, o );
                    break;
                default:
                    job.run = runGeneric;
                    job.runName = "generic";
                    genCall( s, job.call, op, o );
                }
                job.start = before( job.call );
                ctx.label( std::string( "call:" ) + job.runName );
                PBT_NOTE( ctx, ' ' << job.runName << ' ' << opName( job.call.op ) );
            }
            PBT_NOTE( ctx, "; " );
        }
    }

    void runScene( Scene & scene )
    {
        std::atomic<size_t> waiting( scene.threads.size() );
        std::vector<std::thread> threads;
        for ( std::vector<Job> & jobs : scene.threads ) {
            threads.emplace_back( [&scene, &jobs, &waiting]() {
                --waiting;
                while ( waiting != 0 )
                    std::this_thread::yield();
                for ( Job & job : jobs ) {
                    try {
                        if ( job.task < 0 )
                            job.done = job.run( job.call );
                        else
                            job.result = work( static_cast<Task>( job.task ), scene.images[job.image], job.seed, job.path );
                    }
                    catch ( const std::exception & e ) {
                        job.error = std::string( "an exception: " ) + e.what();
                    }
                }
            } );
        }
        for ( std::thread & t : threads )
            t.join();
    }

    void verifyScene( Scene & scene, const std::vector<Snap> & images )
    {
        for ( size_t i = 0; i < images.size(); ++i )
            PBT_CHECK( snap( scene.images[i] ) == images[i], "an image that is only read has changed" );
        for ( size_t t = 0; t < scene.threads.size(); ++t )
            for ( size_t j = 0; j < scene.threads[t].size(); ++j ) {
                Job & job = scene.threads[t][j];
                const std::string name = "job " + std::to_string( j ) + " of thread " + std::to_string( t ) + " (" + ( job.task < 0 ? std::string( job.runName ) + ' ' + opName( job.call.op ) : taskName[job.task] ) + ')';
                PBT_CHECK( job.error.empty(), name << " ended with " << job.error );
                if ( job.task < 0 ) {
                    if ( !job.done )
                        continue;
                    Expected e;
                    reference( job.call, job.start, e );
                    try {
                        verify( job.call, job.start, e, VALUES | FRAME );
                    }
                    catch ( pbt::Failure & f ) {
                        pbt::fail( name + ": " + f.message );
                    }
                    continue;
                }
                const Digest alone = work( static_cast<Task>( job.task ), scene.images[job.image], job.seed, job.path );
                PBT_CHECK( alone.size() == job.result.size(), name << " gave " << job.result.size() << " values, alone " << alone.size() );
                for ( size_t i = 0; i < alone.size(); ++i )
                    PBT_CHECK( alone[i] == job.result[i] || ( alone[i] != alone[i] && job.result[i] != job.result[i] ),
                               name << ": value " << i << " is " << job.result[i] << ", alone " << alone[i] );
            }
    }

    bool severalThreads( const Scene & scene )
    {
        size_t jobs = 0;
        for ( const auto & t : scene.threads )
            jobs += t.size();
        return scene.threads.size() > 1 && jobs > 2;
    }

    void prepareTypes()
    {
        ImageTypeManager & manager = ImageTypeManager::instance();
        Image_Function_Helper::FunctionTableHolder table; // no functions: everything has to be converted
        manager.setFunctionTable( 77, table );
        manager.setConvertFunction( convert, Image(), OtherImage() );
        manager.setConvertFunction( convert, OtherImage(), Image() );
        manager.enableIntertypeConversion( true );
    }

    // The first use of everything: a process which never used the library is kept aside in each worker and copied for
    // each case
    int toZygote = -1, fromZygote = -1;

    int firstUse( const std::vector<uint8_t> & tape )
    {
        Src s( tape.data(), tape.size() );
        Ctx ctx;
        Scene scene;
        try {
            genScene( s, ctx, scene, true, pbt::scratchDirectory() );
            const bool types = s.flag();
            ThreadPoolMonoid::instance().resize( 1 + s.upto( 3 ) );
            if ( s.flag() )
                cpu_Memory::MemoryAllocator::instance().reserve( 1 << 14 );
            if ( types )
                prepareTypes();
            else
                for ( auto & jobs : scene.threads )
                    for ( Job & job : jobs )
                        if ( job.task == Mixed )
                            job.task = Types;
            std::vector<Snap> images;
            for ( const Image & image : scene.images )
                images.push_back( snap( image ) );
            runScene( scene );
            verifyScene( scene, images );
        }
        catch ( pbt::Failure & f ) {
            fprintf( stderr, "first use: %s\n", f.message.c_str() );
            return 9;
        }
        return 0;
    }

    bool readAll( int fd, void * data, size_t size )
    {
        char * p = static_cast<char *>( data );
        while ( size > 0 ) {
            const ssize_t n = read( fd, p, size );
            if ( n <= 0 )
                return false;
            p += n;
            size -= static_cast<size_t>( n );
        }
        return true;
    }

    bool writeAll( int fd, const void * data, size_t size )
    {
        const char * p = static_cast<const char *>( data );
        while ( size > 0 ) {
            const ssize_t n = write( fd, p, size );
            if ( n <= 0 )
                return false;
            p += n;
            size -= static_cast<size_t>( n );
        }
        return true;
    }

    pbt::RegisterInit startZygote( []() {
        int a[2], b[2];
        if ( pipe( a ) != 0 || pipe( b ) != 0 )
            _exit( 4 );
        const pid_t pid = fork();
        if ( pid < 0 )
            _exit( 4 );
        if ( pid == 0 ) {
            prctl( PR_SET_PDEATHSIG, SIGKILL );
            close( a[1] );
            close( b[0] );
            uint32_t size = 0;
            while ( readAll( a[0], &size, sizeof size ) ) {
                std::vector<uint8_t> tape( size );
                if ( size > 0 && !readAll( a[0], tape.data(), size ) )
                    break;
                const pid_t child = fork();
                if ( child == 0 ) {
                    prctl( PR_SET_PDEATHSIG, SIGKILL );
                    const int code = firstUse( tape );
                    _exit( code );
                }
                int status = 0;
                waitpid( child, &status, 0 );
                if ( !writeAll( b[1], &status, sizeof status ) )
                    break;
            }
            _exit( 0 );
        }
        close( a[0] );
        close( b[1] );
        toZygote = a[1];
        fromZygote = b[0];
        prepareTypes();
        cpu_Memory::MemoryAllocator::instance().reserve( 1 << 16 );
    } );

    pbt::Register p32a(
        "P32", "concurrent calls", 3,
        "two to six threads with up to four generated calls or pieces of work each, on images of their own or images that all of them only read; non-trivial: more than two pieces of work",
        []( Src & s, Ctx & ctx ) {
            ThreadPool & pool = ThreadPoolMonoid::instance();
            const size_t n = 1 + s.upto( 3 );
            if ( pool.threadCount() != n )
                pool.resize( n );
            Scene scene;
            genScene( s, ctx, scene, false, pbt::scratchDirectory() );
            ctx.nontrivial = severalThreads( scene );
            std::vector<Snap> images;
            for ( const Image & image : scene.images )
                images.push_back( snap( image ) );
            const uint32_t chance = s.pick<uint32_t>( { 0, 0, 300, 3000 } );
            perturb::Scope scope( chance, s.raw( 2 ) );
            runScene( scene );
            perturb::mode = 0;
            verifyScene( scene, images );
        },
        20, true );

    pbt::Register p32c(
        "P32", "one function", 3, "two threads which call the same image function at the same time, on small images of their own; non-trivial: every case",
        []( Src & s, Ctx & ctx ) {
            ctx.nontrivial = true;
            if ( ThreadPoolMonoid::instance().threadCount() != 1 )
                ThreadPoolMonoid::instance().resize( 1 );
            const size_t kind = s.pick<size_t>( { 0, 0, 1, 2, 3 } );
            const Op op = s.pickFrom( kind == 0 ? allOps() : sharedOps() );
            Scene scene;
            scene.threads.resize( 2 );
            for ( std::vector<Job> & jobs : scene.threads ) {
                jobs.resize( 1 );
                Job & job = jobs[0];
                job.run = kind == 0 ? runCpu : kind == 1 ? runSimd : kind == 2 ? runPool : runGeneric;
                job.runName = kind == 0 ? "cpu" : kind == 1 ? "simd" : kind == 2 ? "pool" : "generic";
                GenOptions o;
                o.area = 100;
                o.limit = 20;
                genCall( s, job.call, op, o );
                job.start = before( job.call );
            }
            ctx.label( std::string( "function:" ) + opName( op ) );
            PBT_NOTE( ctx, "two threads: " << scene.threads[0][0].runName << ' ' << opName( op ) );
            runScene( scene );
            verifyScene( scene, {} );
        },
        20, true );

    pbt::Register p32b(
        "P32", "first use", 2, "the same in a process which has not used the library before; non-trivial: every case",
        []( Src & s, Ctx & ctx ) {
            ctx.nontrivial = true;
            std::vector<uint8_t> tape( 3000 );
            {
                // the tape of the other process is made of the bytes this one reads
                Scene scene;
                const size_t from = s.used();
                genScene( s, ctx, scene, true, pbt::scratchDirectory() );
                s.raw( 3 );
                tape.assign( s.tape() + from, s.tape() + std::max( from, s.used() ) );
            }
            const uint32_t size = static_cast<uint32_t>( tape.size() );
            int status = 0;
            if ( !writeAll( toZygote, &size, sizeof size ) || !writeAll( toZygote, tape.data(), size ) || !readAll( fromZygote, &status, sizeof status ) )
                pbt::fail( "the process kept for first uses has ended" );
            PBT_CHECK( WIFEXITED( status ), "the process died of signal " << WTERMSIG( status ) );
            PBT_CHECK( WEXITSTATUS( status ) != 68, "data race in a process which used the library for the first time (see the report of the sanitizer)" );
            PBT_CHECK( WEXITSTATUS( status ) == 0, "the process ended with status " << WEXITSTATUS( status ) );
        },
        20, true );
}
