// Emulation of the part of CUDA runtime which /repo uses: kernels are executed on the processor, thread by thread,
// in an order chosen by the check. Memory of a device is poisoned for everything except kernels and copies.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <utility>

#define __global__
#define __device__
#define __host__
#define __constant__
#define __forceinline__ inline

struct uint3
{
    unsigned int x, y, z;
};
struct dim3
{
    unsigned int x, y, z;
    dim3( unsigned int x_ = 1, unsigned int y_ = 1, unsigned int z_ = 1 )
        : x( x_ )
        , y( y_ )
        , z( z_ )
    {}
};
struct float2
{
    float x, y;
};

extern __thread uint3 threadIdx, blockIdx, blockDim, gridDim;

enum cudaError
{
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidConfiguration = 9,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidResourceHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorIllegalAddress = 700
};
typedef cudaError cudaError_t;

enum cudaMemcpyKind
{
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};

struct CUstream_st;
typedef CUstream_st * cudaStream_t;
typedef void ( *cudaStreamCallback_t )( cudaStream_t stream, cudaError_t status, void * userData );
enum
{
    cudaStreamDefault = 0,
    cudaStreamNonBlocking = 1
};

struct cudaDeviceProp
{
    char name[256];
    size_t totalGlobalMem;
    size_t sharedMemPerBlock;
    int warpSize;
    int maxThreadsPerBlock;
    int maxThreadsDim[3];
    int maxGridSize[3];
    int major, minor;
    int asyncEngineCount;
    int multiProcessorCount;
};

cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char * cudaGetErrorString( cudaError_t error );
cudaError_t cudaGetDeviceCount( int * count );
cudaError_t cudaGetDevice( int * device );
cudaError_t cudaSetDevice( int device );
cudaError_t cudaGetDeviceProperties( cudaDeviceProp * properties, int device );
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaMemGetInfo( size_t * available, size_t * total );
cudaError_t cudaFree( void * address );
cudaError_t cudaFreeHost( void * address );
cudaError_t cudaMemcpy( void * out, const void * in, size_t size, cudaMemcpyKind kind );
cudaError_t cudaMemcpyAsync( void * out, const void * in, size_t size, cudaMemcpyKind kind, cudaStream_t stream = 0 );
cudaError_t cudaMemcpy2D( void * out, size_t outPitch, const void * in, size_t inPitch, size_t width, size_t height, cudaMemcpyKind kind );
cudaError_t cudaMemset( void * data, int value, size_t size );
cudaError_t cudaMemset2D( void * data, size_t pitch, int value, size_t width, size_t height );
cudaError_t cudaStreamCreate( cudaStream_t * stream );
cudaError_t cudaStreamCreateWithFlags( cudaStream_t * stream, unsigned int flags );
cudaError_t cudaStreamDestroy( cudaStream_t stream );
cudaError_t cudaStreamSynchronize( cudaStream_t stream );
cudaError_t cudaStreamQuery( cudaStream_t stream );
cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * userData, unsigned int flags );

namespace cudaEmulator
{
    cudaError_t allocate( void ** address, size_t size );
    cudaError_t allocateHost( void ** address, size_t size );

    // One kernel: for ( Launch l( ... ); l.next(); ) kernel( ... );
    class Launch
    {
    public:
        Launch( const dim3 & grid, const dim3 & block, size_t shared = 0, cudaStream_t stream = 0 );
        ~Launch();
        bool next();

    private:
        Launch( const Launch & );
        Launch & operator=( const Launch & );
        dim3 _grid, _block;
        uint64_t _count, _done, _at, _step;
        bool _valid;
    };

    // for the checks
    struct Settings
    {
        int devices; // in the system
        uint64_t step; // between threads which are executed one after another
        bool backward;
        long failAllocation; // number of the allocation which fails, -1 if none
        int maxThreads; // of a block
        uint32_t gridX;
    };
    extern Settings settings;
    size_t liveAllocations();
    size_t liveHostAllocations();
    size_t liveStreams();
    size_t livePlans();
    size_t launches();
    int activeDevice();
    void unpoison(); // memory of the active device
    void poison();
    void addPlan( int change );
    bool onDevice( const void * address, size_t size, int device ); // the range is inside one allocation of this device (-1: any)
    // reads and writes of the checks themselves
    void peek( void * out, const void * device, size_t size );
    void poke( void * device, const void * in, size_t size );
}

template <typename T>
cudaError_t cudaMalloc( T ** address, size_t size )
{
    void * p = 0;
    const cudaError_t error = cudaEmulator::allocate( &p, size );
    if ( error == cudaSuccess )
        *address = static_cast<T *>( p );
    return error;
}
template <typename T>
cudaError_t cudaMallocHost( T ** address, size_t size )
{
    void * p = 0;
    const cudaError_t error = cudaEmulator::allocateHost( &p, size );
    if ( error == cudaSuccess )
        *address = static_cast<T *>( p );
    return error;
}

template <typename T>
T cudaEmulatorAtomic( T * address, T value )
{
    const T old = *address;
    *address = value;
    return old;
}
inline uint32_t atomicAdd( uint32_t * a, uint32_t v )
{
    return cudaEmulatorAtomic<uint32_t>( a, *a + v );
}
inline int atomicAdd( int * a, int v )
{
    return cudaEmulatorAtomic<int>( a, *a + v );
}
inline unsigned long long atomicAdd( unsigned long long * a, unsigned long long v )
{
    return cudaEmulatorAtomic<unsigned long long>( a, *a + v );
}
inline float atomicAdd( float * a, float v )
{
    return cudaEmulatorAtomic<float>( a, *a + v );
}
#define CUDA_EMULATOR_ATOMIC( NAME, EXPRESSION )                  \
    inline uint32_t NAME( uint32_t * a, uint32_t v )              \
    {                                                             \
        return cudaEmulatorAtomic<uint32_t>( a, ( EXPRESSION ) ); \
    }                                                             \
    inline int NAME( int * a, int v )                             \
    {                                                             \
        return cudaEmulatorAtomic<int>( a, ( EXPRESSION ) );      \
    }
CUDA_EMULATOR_ATOMIC( atomicSub, *a - v )
CUDA_EMULATOR_ATOMIC( atomicAnd, *a & v )
CUDA_EMULATOR_ATOMIC( atomicOr, *a | v )
CUDA_EMULATOR_ATOMIC( atomicXor, *a ^ v )
CUDA_EMULATOR_ATOMIC( atomicExch, v )
CUDA_EMULATOR_ATOMIC( atomicMin, *a < v ? *a : v )
CUDA_EMULATOR_ATOMIC( atomicMax, *a > v ? *a : v )
inline uint32_t atomicCAS( uint32_t * a, uint32_t compare, uint32_t v )
{
    return cudaEmulatorAtomic<uint32_t>( a, *a == compare ? v : *a );
}
