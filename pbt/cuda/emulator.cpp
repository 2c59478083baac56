#include "cuda_runtime.h"
#include "cufft.h"
#include <cmath>
#include <complex>
#include <map>
#include <set>
#include <vector>
#if defined( __SANITIZE_ADDRESS__ )
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION( a, s ) ( (void)( a ), (void)( s ) )
#define ASAN_UNPOISON_MEMORY_REGION( a, s ) ( (void)( a ), (void)( s ) )
#endif

__thread uint3 threadIdx, blockIdx, blockDim, gridDim;

struct CUstream_st
{
    int device;
};

namespace cudaEmulator
{
    Settings settings = { 2, 1, false, -1, 1024, 2147483647u };
}

namespace
{
    using cudaEmulator::settings;
    const size_t TOTAL = static_cast<size_t>( 1 ) << 30;
    const int DEVICES = 8;

    struct Allocation
    {
        size_t size;
        int device;
    };
    struct Plan
    {
        int rows, columns, device;
    };
    struct State
    {
        std::map<char *, Allocation> memory;
        std::set<void *> host;
        std::set<cudaStream_t> streams;
        std::map<int, Plan> plans;
        int nextPlan = 1;
        size_t used[DEVICES] = {};
        int active = 0;
        cudaError_t last = cudaSuccess;
        size_t launches = 0;
    };
    State & state()
    {
        static State * s = new State; // never destroyed: devices are closed at exit
        return *s;
    }

    cudaError_t report( cudaError_t error )
    {
        if ( error != cudaSuccess )
            state().last = error;
        return error;
    }

    // the allocation which has this address inside
    const std::pair<char * const, Allocation> * find( const void * address )
    {
        char * p = static_cast<char *>( const_cast<void *>( address ) );
        std::map<char *, Allocation> & m = state().memory;
        std::map<char *, Allocation>::iterator i = m.upper_bound( p );
        if ( i == m.begin() )
            return 0;
        --i;
        return p < i->first + i->second.size ? &*i : 0;
    }

    bool rangeIsValid( const void * address, size_t size, bool device )
    {
        if ( device )
            return cudaEmulator::onDevice( address, size, -1 );
        return find( address ) == 0;
    }

    struct Access
    {
        Access( const void * a, size_t size )
            : block( size > 0 ? find( a ) : 0 )
        {
            if ( block )
                ASAN_UNPOISON_MEMORY_REGION( block->first, block->second.size );
        }
        ~Access()
        {
            if ( block )
                ASAN_POISON_MEMORY_REGION( block->first, block->second.size );
        }
        const std::pair<char * const, Allocation> * block;
    };
}

namespace cudaEmulator
{
    size_t liveAllocations()
    {
        return state().memory.size();
    }
    size_t liveHostAllocations()
    {
        return state().host.size();
    }
    size_t liveStreams()
    {
        return state().streams.size();
    }
    size_t livePlans()
    {
        return state().plans.size();
    }
    size_t launches()
    {
        return state().launches;
    }
    int activeDevice()
    {
        return state().active;
    }

    bool onDevice( const void * address, size_t size, int device )
    {
        const std::pair<char * const, Allocation> * a = find( address );
        return a && static_cast<const char *>( address ) + size <= a->first + a->second.size && ( device < 0 || a->second.device == device );
    }

    cudaError_t allocate( void ** address, size_t size )
    {
        State & s = state();
        if ( size == 0 ) {
            *address = 0;
            return cudaSuccess;
        }
        if ( settings.failAllocation >= 0 && settings.failAllocation-- == 0 )
            return report( cudaErrorMemoryAllocation );
        if ( size > TOTAL - s.used[s.active] )
            return report( cudaErrorMemoryAllocation );
        void * p = 0;
        if ( posix_memalign( &p, 256, size ) != 0 )
            return report( cudaErrorMemoryAllocation );
        memset( p, 0xA5, size );
        ASAN_POISON_MEMORY_REGION( p, size );
        s.memory[static_cast<char *>( p )] = { size, s.active };
        s.used[s.active] += size;
        *address = p;
        return cudaSuccess;
    }

    cudaError_t allocateHost( void ** address, size_t size )
    {
        void * p = size ? malloc( size ) : 0;
        if ( size && !p )
            return report( cudaErrorMemoryAllocation );
        if ( p )
            state().host.insert( p );
        *address = p;
        return cudaSuccess;
    }

    void unpoison()
    {
        for ( const auto & a : state().memory )
            if ( a.second.device == state().active )
                ASAN_UNPOISON_MEMORY_REGION( a.first, a.second.size );
    }
    void poison()
    {
        for ( const auto & a : state().memory )
            ASAN_POISON_MEMORY_REGION( a.first, a.second.size );
    }

    void peek( void * out, const void * device, size_t size )
    {
        Access a( device, size );
        memcpy( out, device, size );
    }
    void poke( void * device, const void * in, size_t size )
    {
        Access a( device, size );
        memcpy( device, in, size );
    }

    Launch::Launch( const dim3 & grid, const dim3 & block, size_t shared, cudaStream_t stream )
        : _grid( grid )
        , _block( block )
        , _count( 0 )
        , _done( 0 )
        , _at( 0 )
        , _step( 1 )
        , _valid( false )
    {
        cudaDeviceProp p;
        cudaGetDeviceProperties( &p, state().active );
        const uint64_t threads = static_cast<uint64_t>( block.x ) * block.y * block.z;
        if ( threads == 0 || grid.x == 0 || grid.y == 0 || grid.z == 0 || threads > static_cast<uint64_t>( p.maxThreadsPerBlock ) || block.x > static_cast<unsigned>( p.maxThreadsDim[0] )
             || block.y > static_cast<unsigned>( p.maxThreadsDim[1] ) || block.z > static_cast<unsigned>( p.maxThreadsDim[2] ) || grid.x > static_cast<unsigned>( p.maxGridSize[0] )
             || grid.y > static_cast<unsigned>( p.maxGridSize[1] ) || grid.z > static_cast<unsigned>( p.maxGridSize[2] ) || shared > p.sharedMemPerBlock ) {
            report( cudaErrorInvalidConfiguration );
            return;
        }
        if ( stream != 0 && ( state().streams.count( stream ) == 0 || stream->device != state().active ) ) {
            report( cudaErrorInvalidResourceHandle );
            return;
        }
        ++state().launches;
        _count = threads * grid.x * grid.y * grid.z;
        _step = settings.step % _count;
        auto gcd = []( uint64_t a, uint64_t b ) {
            while ( b ) {
                const uint64_t t = a % b;
                a = b;
                b = t;
            }
            return a;
        };
        while ( _step == 0 || gcd( _step, _count ) != 1 )
            ++_step;
        _valid = true;
        blockDim = { block.x, block.y, block.z };
        gridDim = { grid.x, grid.y, grid.z };
        unpoison();
    }

    Launch::~Launch()
    {
        if ( _valid )
            poison();
    }

    bool Launch::next()
    {
        if ( _done >= _count )
            return false;
        uint64_t i = settings.backward ? _count - 1 - _at : _at;
        ++_done;
        _at += _step;
        if ( _at >= _count )
            _at -= _count;
        const uint64_t threads = static_cast<uint64_t>( _block.x ) * _block.y * _block.z;
        uint64_t b = i / threads;
        uint32_t t = static_cast<uint32_t>( i % threads );
        threadIdx.x = t % _block.x;
        t /= _block.x;
        threadIdx.y = t % _block.y;
        threadIdx.z = t / _block.y;
        blockIdx.x = static_cast<uint32_t>( b % _grid.x );
        b /= _grid.x;
        blockIdx.y = static_cast<uint32_t>( b % _grid.y );
        blockIdx.z = static_cast<uint32_t>( b / _grid.y );
        return true;
    }
}

cudaError_t cudaGetLastError()
{
    const cudaError_t e = state().last;
    state().last = cudaSuccess;
    return e;
}
cudaError_t cudaPeekAtLastError()
{
    return state().last;
}
const char * cudaGetErrorString( cudaError_t error )
{
    return error == cudaSuccess ? "no error" : "error";
}
cudaError_t cudaGetDeviceCount( int * count )
{
    *count = settings.devices;
    return cudaSuccess;
}
cudaError_t cudaGetDevice( int * device )
{
    *device = state().active;
    return cudaSuccess;
}
cudaError_t cudaSetDevice( int device )
{
    if ( device < 0 || device >= settings.devices )
        return report( cudaErrorInvalidDevice );
    state().active = device;
    return cudaSuccess;
}
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * p, int device )
{
    if ( device < 0 || device >= settings.devices )
        return report( cudaErrorInvalidDevice );
    memset( p, 0, sizeof( *p ) );
    snprintf( p->name, sizeof( p->name ), "Emulated device %d", device );
    p->totalGlobalMem = TOTAL;
    p->sharedMemPerBlock = 49152;
    p->warpSize = 32;
    p->maxThreadsPerBlock = settings.maxThreads;
    p->maxThreadsDim[0] = p->maxThreadsDim[1] = settings.maxThreads;
    p->maxThreadsDim[2] = 64;
    p->maxGridSize[0] = static_cast<int>( settings.gridX );
    p->maxGridSize[1] = p->maxGridSize[2] = 65535;
    p->major = 7;
    p->minor = 5;
    p->asyncEngineCount = 2;
    p->multiProcessorCount = 20;
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize()
{
    return cudaSuccess;
}
cudaError_t cudaMemGetInfo( size_t * available, size_t * total )
{
    *total = TOTAL;
    *available = TOTAL - state().used[state().active];
    return cudaSuccess;
}
cudaError_t cudaFree( void * address )
{
    if ( address == 0 )
        return cudaSuccess;
    State & s = state();
    std::map<char *, Allocation>::iterator i = s.memory.find( static_cast<char *>( address ) );
    if ( i == s.memory.end() )
        return report( cudaErrorInvalidValue );
    s.used[i->second.device] -= i->second.size;
    ASAN_UNPOISON_MEMORY_REGION( i->first, i->second.size );
    free( i->first );
    s.memory.erase( i );
    return cudaSuccess;
}
cudaError_t cudaFreeHost( void * address )
{
    if ( address == 0 )
        return cudaSuccess;
    if ( state().host.erase( address ) == 0 )
        return report( cudaErrorInvalidValue );
    free( address );
    return cudaSuccess;
}
cudaError_t cudaMemcpy( void * out, const void * in, size_t size, cudaMemcpyKind kind )
{
    return cudaMemcpy2D( out, size, in, size, size, size > 0 ? 1 : 0, kind );
}
cudaError_t cudaMemcpyAsync( void * out, const void * in, size_t size, cudaMemcpyKind kind, cudaStream_t )
{
    return cudaMemcpy( out, in, size, kind );
}
cudaError_t cudaMemcpy2D( void * out, size_t outPitch, const void * in, size_t inPitch, size_t width, size_t height, cudaMemcpyKind kind )
{
    if ( width == 0 || height == 0 )
        return cudaSuccess;
    if ( outPitch < width || inPitch < width )
        return report( cudaErrorInvalidValue );
    const bool anyKind = kind == cudaMemcpyDefault;
    const bool fromDevice = anyKind ? find( in ) != 0 : kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
    const bool toDevice = anyKind ? find( out ) != 0 : kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice;
    if ( !rangeIsValid( out, outPitch * ( height - 1 ) + width, toDevice ) || !rangeIsValid( in, inPitch * ( height - 1 ) + width, fromDevice ) )
        return report( cudaErrorInvalidValue );
    Access a( out, width ), b( in, width );
    for ( size_t y = 0; y < height; ++y )
        memmove( static_cast<char *>( out ) + y * outPitch, static_cast<const char *>( in ) + y * inPitch, width );
    return cudaSuccess;
}
cudaError_t cudaMemset( void * data, int value, size_t size )
{
    if ( size == 0 )
        return cudaSuccess;
    if ( !rangeIsValid( data, size, true ) )
        return report( cudaErrorInvalidValue );
    Access a( data, size );
    memset( data, value, size );
    return cudaSuccess;
}
cudaError_t cudaMemset2D( void * data, size_t pitch, int value, size_t width, size_t height )
{
    if ( width == 0 || height == 0 )
        return cudaSuccess;
    if ( pitch < width || !rangeIsValid( data, pitch * ( height - 1 ) + width, true ) )
        return report( cudaErrorInvalidValue );
    Access a( data, width );
    for ( size_t y = 0; y < height; ++y )
        memset( static_cast<char *>( data ) + y * pitch, value, width );
    return cudaSuccess;
}
cudaError_t cudaStreamCreate( cudaStream_t * stream )
{
    return cudaStreamCreateWithFlags( stream, 0 );
}
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int )
{
    *stream = new CUstream_st{ state().active };
    state().streams.insert( *stream );
    return cudaSuccess;
}
cudaError_t cudaStreamDestroy( cudaStream_t stream )
{
    if ( state().streams.erase( stream ) == 0 )
        return report( cudaErrorInvalidResourceHandle );
    delete stream;
    return cudaSuccess;
}
cudaError_t cudaStreamSynchronize( cudaStream_t stream )
{
    return stream == 0 || state().streams.count( stream ) ? cudaSuccess : report( cudaErrorInvalidResourceHandle );
}
cudaError_t cudaStreamQuery( cudaStream_t stream )
{
    return cudaStreamSynchronize( stream );
}
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * userData, unsigned int )
{
    const cudaError_t e = cudaStreamSynchronize( stream );
    if ( e == cudaSuccess )
        callback( stream, cudaSuccess, userData );
    return e;
}

cufftResult cufftPlan2d( cufftHandle * plan, int nx, int ny, cufftType type )
{
    if ( type != CUFFT_C2C )
        return CUFFT_INVALID_VALUE;
    if ( nx < 1 || ny < 1 )
        return CUFFT_INVALID_SIZE;
    if ( settings.failAllocation >= 0 && settings.failAllocation-- == 0 )
        return CUFFT_ALLOC_FAILED;
    *plan = state().nextPlan++;
    state().plans[*plan] = { nx, ny, state().active };
    return CUFFT_SUCCESS;
}
cufftResult cufftDestroy( cufftHandle plan )
{
    return state().plans.erase( plan ) ? CUFFT_SUCCESS : CUFFT_INVALID_PLAN;
}
cufftResult cufftSetStream( cufftHandle plan, cudaStream_t )
{
    return state().plans.count( plan ) ? CUFFT_SUCCESS : CUFFT_INVALID_PLAN;
}

namespace
{
    typedef std::complex<double> Complex;
    // one dimension, any size; the plain definition
    void transform( std::vector<Complex> & v, const std::vector<Complex> & roots )
    {
        const size_t n = v.size();
        std::vector<Complex> out( n );
        for ( size_t k = 0; k < n; ++k ) {
            Complex sum = 0;
            size_t at = 0;
            for ( size_t i = 0; i < n; ++i ) {
                sum += v[i] * roots[at];
                at += k;
                if ( at >= n )
                    at -= n;
            }
            out[k] = sum;
        }
        v.swap( out );
    }
    std::vector<Complex> rootsOf( size_t n, int direction )
    {
        std::vector<Complex> r( n );
        for ( size_t i = 0; i < n; ++i )
            r[i] = std::polar( 1.0, direction * 2 * M_PI * static_cast<double>( i ) / static_cast<double>( n ) );
        return r;
    }
}

cufftResult cufftExecC2C( cufftHandle plan, cufftComplex * in, cufftComplex * out, int direction )
{
    if ( state().plans.count( plan ) == 0 )
        return CUFFT_INVALID_PLAN;
    const Plan p = state().plans[plan];
    const size_t rows = static_cast<size_t>( p.rows ), columns = static_cast<size_t>( p.columns ), bytes = rows * columns * sizeof( cufftComplex );
    if ( !cudaEmulator::onDevice( in, bytes, p.device ) || !cudaEmulator::onDevice( out, bytes, p.device ) )
        return CUFFT_EXEC_FAILED;
    std::vector<cufftComplex> raw( rows * columns );
    cudaEmulator::peek( raw.data(), in, bytes );
    std::vector<Complex> data( rows * columns );
    for ( size_t i = 0; i < data.size(); ++i )
        data[i] = Complex( raw[i].x, raw[i].y );
    std::vector<Complex> line, roots = rootsOf( columns, direction );
    for ( size_t y = 0; y < rows; ++y ) {
        line.assign( data.begin() + y * columns, data.begin() + ( y + 1 ) * columns );
        transform( line, roots );
        std::copy( line.begin(), line.end(), data.begin() + y * columns );
    }
    roots = rootsOf( rows, direction );
    line.resize( rows );
    for ( size_t x = 0; x < columns; ++x ) {
        for ( size_t y = 0; y < rows; ++y )
            line[y] = data[y * columns + x];
        transform( line, roots );
        for ( size_t y = 0; y < rows; ++y )
            data[y * columns + x] = line[y];
    }
    for ( size_t i = 0; i < data.size(); ++i )
        raw[i] = { static_cast<float>( data[i].real() ), static_cast<float>( data[i].imag() ) };
    cudaEmulator::poke( out, raw.data(), bytes );
    return CUFFT_SUCCESS;
}
