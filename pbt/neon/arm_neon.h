// Stand-in for the header of ARM NEON intrinsics on another processor: the integer instructions on vectors of 8 and 16 bytes.
#pragma once

#include <cstdint>
#include <cstring>
#include <type_traits>

#pragma GCC diagnostic ignored "-Wpsabi"

namespace neonEmulator
{
    template <class T, unsigned N>
    struct VectorOf
    {
        typedef T type __attribute__( ( vector_size( sizeof( T ) * N ) ) );
    };

    template <class V>
    struct Traits
    {
        typedef typename std::decay<decltype( std::declval<V &>()[0] )>::type Element;
        enum : unsigned
        {
            count = sizeof( V ) / sizeof( Element )
        };
    };

    template <class V, class T>
    V load( const T * p ) // memory is accessed element by element: a sanitizer sees each of them
    {
        V v{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            v[i] = p[i];
        return v;
    }

    template <class V, class T>
    void store( T * p, V v )
    {
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            p[i] = v[i];
    }

    template <class V, class T>
    V duplicate( T value )
    {
        V v{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            v[i] = value;
        return v;
    }

    template <class R, class V>
    R convert( V v )
    {
        R r{};
        for ( unsigned i = 0; i < Traits<R>::count; ++i )
            r[i] = static_cast<typename Traits<R>::Element>( v[i] );
        return r;
    }

    template <class R, class V>
    R half( V v, unsigned from )
    {
        R r{};
        for ( unsigned i = 0; i < Traits<R>::count; ++i )
            r[i] = v[from + i];
        return r;
    }

    template <class R, class V>
    R combine( V low, V high )
    {
        R r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i ) {
            r[i] = low[i];
            r[i + Traits<V>::count] = high[i];
        }
        return r;
    }

    template <class V>
    V minimum( V a, V b )
    {
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = a[i] < b[i] ? a[i] : b[i];
        return r;
    }

    template <class V>
    V maximum( V a, V b )
    {
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = a[i] < b[i] ? b[i] : a[i];
        return r;
    }

    template <class V>
    V difference( V a, V b )
    {
        return maximum( a, b ) - minimum( a, b );
    }

    template <class V>
    V clampTo( const int64_t ( &value )[Traits<V>::count] )
    {
        typedef typename Traits<V>::Element T;
        const int64_t low = std::is_signed<T>::value ? -( int64_t( 1 ) << ( sizeof( T ) * 8 - 1 ) ) : 0;
        const int64_t high = std::is_signed<T>::value ? -low - 1 : ( int64_t( 1 ) << ( sizeof( T ) * 8 ) ) - 1;
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = static_cast<T>( value[i] < low ? low : ( value[i] > high ? high : value[i] ) );
        return r;
    }

    template <class V>
    V saturatedAdd( V a, V b )
    {
        int64_t value[Traits<V>::count];
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            value[i] = static_cast<int64_t>( a[i] ) + static_cast<int64_t>( b[i] );
        return clampTo<V>( value );
    }

    template <class V>
    V saturatedSubtract( V a, V b )
    {
        int64_t value[Traits<V>::count];
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            value[i] = static_cast<int64_t>( a[i] ) - static_cast<int64_t>( b[i] );
        return clampTo<V>( value );
    }

    template <class R, class V>
    R saturatedNarrow( V v )
    {
        int64_t value[Traits<V>::count];
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            value[i] = static_cast<int64_t>( v[i] );
        return clampTo<R>( value );
    }

    template <class V>
    V select( V mask, V a, V b )
    {
        return ( mask & a ) | ( ~mask & b );
    }

    template <class V>
    V halvingAdd( V a, V b, int64_t rounding )
    {
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = static_cast<typename Traits<V>::Element>( ( static_cast<int64_t>( a[i] ) + static_cast<int64_t>( b[i] ) + rounding ) >> 1 );
        return r;
    }

    template <class V>
    V pairwise( V a, V b, int kind )
    {
        const unsigned n = Traits<V>::count;
        V r{};
        for ( unsigned i = 0; i < n; ++i ) {
            const unsigned k = 2 * i;
            const auto x = k < n ? a[k] : b[k - n];
            const auto y = k < n ? a[k + 1] : b[k + 1 - n];
            r[i] = static_cast<typename Traits<V>::Element>( kind == 0 ? x + y : ( kind == 1 ? ( x < y ? x : y ) : ( x < y ? y : x ) ) );
        }
        return r;
    }

    template <class R, class V>
    R pairwiseLong( V v )
    {
        R r{};
        for ( unsigned i = 0; i < Traits<R>::count; ++i )
            r[i] = static_cast<typename Traits<R>::Element>( static_cast<typename Traits<R>::Element>( v[2 * i] ) + static_cast<typename Traits<R>::Element>( v[2 * i + 1] ) );
        return r;
    }

    template <class V>
    V reverse( V v, unsigned group )
    {
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = v[i / group * group + ( group - 1 - i % group )];
        return r;
    }

    template <class V>
    V extract( V a, V b, unsigned n )
    {
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = i + n < Traits<V>::count ? a[i + n] : b[i + n - Traits<V>::count];
        return r;
    }

    template <class V>
    V zip( V a, V b, bool high )
    {
        V r{};
        const unsigned from = high ? Traits<V>::count / 2 : 0;
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = ( i & 1 ) ? b[from + i / 2] : a[from + i / 2];
        return r;
    }

    template <class V>
    V unzip( V a, V b, unsigned odd )
    {
        const unsigned n = Traits<V>::count;
        V r{};
        for ( unsigned i = 0; i < n; ++i )
            r[i] = 2 * i + odd < n ? a[2 * i + odd] : b[2 * i + odd - n];
        return r;
    }

    template <class V>
    uint64_t sumOf( V v )
    {
        uint64_t sum = 0;
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            sum += static_cast<uint64_t>( v[i] );
        return sum;
    }

    template <class V>
    typename Traits<V>::Element extremeOf( V v, bool maximal )
    {
        typename Traits<V>::Element r = v[0];
        for ( unsigned i = 1; i < Traits<V>::count; ++i )
            if ( maximal ? r < v[i] : v[i] < r )
                r = v[i];
        return r;
    }

    template <class V, class Table>
    V look( Table table, V index )
    {
        V r{};
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            r[i] = index[i] < Traits<Table>::count ? table[index[i]] : 0;
        return r;
    }

    template <class A, class V>
    A loadGroups( const typename Traits<V>::Element * p )
    {
        const unsigned n = sizeof( A ) / sizeof( V );
        A r;
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            for ( unsigned k = 0; k < n; ++k )
                r.val[k][i] = p[i * n + k];
        return r;
    }

    template <class V, class A>
    void storeGroups( typename Traits<V>::Element * p, const A & a )
    {
        const unsigned n = sizeof( A ) / sizeof( V );
        for ( unsigned i = 0; i < Traits<V>::count; ++i )
            for ( unsigned k = 0; k < n; ++k )
                p[i * n + k] = a.val[k][i];
    }
}

#define NEON_TYPES( T, S, N, M )                                                                                                                                         \
    typedef neonEmulator::VectorOf<T, N>::type S##x##N##_t;                                                                                                              \
    typedef neonEmulator::VectorOf<T, M>::type S##x##M##_t;                                                                                                              \
    struct S##x##N##x2_t { S##x##N##_t val[2]; };                                                                                                                        \
    struct S##x##N##x3_t { S##x##N##_t val[3]; };                                                                                                                        \
    struct S##x##N##x4_t { S##x##N##_t val[4]; };                                                                                                                        \
    struct S##x##M##x2_t { S##x##M##_t val[2]; };                                                                                                                        \
    struct S##x##M##x3_t { S##x##M##_t val[3]; };                                                                                                                        \
    struct S##x##M##x4_t { S##x##M##_t val[4]; };

NEON_TYPES( uint8_t, uint8, 8, 16 )
NEON_TYPES( int8_t, int8, 8, 16 )
NEON_TYPES( uint16_t, uint16, 4, 8 )
NEON_TYPES( int16_t, int16, 4, 8 )
NEON_TYPES( uint32_t, uint32, 2, 4 )
NEON_TYPES( int32_t, int32, 2, 4 )
NEON_TYPES( uint64_t, uint64, 1, 2 )
NEON_TYPES( int64_t, int64, 1, 2 )

// T: element, V: vector, U: vector of unsigned elements of the same size, s: suffix, q: empty or q
#define NEON_COMMON( T, V, U, q, s )                                                                                                                                     \
    inline V vld1##q##_##s( const T * p ) { return neonEmulator::load<V>( p ); }                                                                                         \
    inline V vld1##q##_dup_##s( const T * p ) { return neonEmulator::duplicate<V>( *p ); }                                                                               \
    inline void vst1##q##_##s( T * p, V v ) { neonEmulator::store( p, v ); }                                                                                             \
    inline V vdup##q##_n_##s( T value ) { return neonEmulator::duplicate<V>( value ); }                                                                                  \
    inline V vmov##q##_n_##s( T value ) { return neonEmulator::duplicate<V>( value ); }                                                                                  \
    inline T vget##q##_lane_##s( V v, int i ) { return v[i]; }                                                                                                           \
    inline V vset##q##_lane_##s( T value, V v, int i )                                                                                                                   \
    {                                                                                                                                                                    \
        v[i] = value;                                                                                                                                                    \
        return v;                                                                                                                                                        \
    }                                                                                                                                                                    \
    inline V vadd##q##_##s( V a, V b ) { return reinterpret_cast<V>( reinterpret_cast<U>( a ) + reinterpret_cast<U>( b ) ); }                                            \
    inline V vsub##q##_##s( V a, V b ) { return reinterpret_cast<V>( reinterpret_cast<U>( a ) - reinterpret_cast<U>( b ) ); }                                            \
    inline V vand##q##_##s( V a, V b ) { return a & b; }                                                                                                                 \
    inline V vorr##q##_##s( V a, V b ) { return a | b; }                                                                                                                 \
    inline V veor##q##_##s( V a, V b ) { return a ^ b; }                                                                                                                 \
    inline V vbic##q##_##s( V a, V b ) { return a & ~b; }                                                                                                                \
    inline V vorn##q##_##s( V a, V b ) { return a | ~b; }                                                                                                                \
    inline V vbsl##q##_##s( U mask, V a, V b ) { return neonEmulator::select( reinterpret_cast<V>( mask ), a, b ); }                                                     \
    inline V vext##q##_##s( V a, V b, int n ) { return neonEmulator::extract( a, b, static_cast<unsigned>( n ) ); }                                                      \
    inline V vshl##q##_n_##s( V a, int n ) { return reinterpret_cast<V>( reinterpret_cast<U>( a ) << n ); }                                                              \
    inline V vshr##q##_n_##s( V a, int n ) { return n >= static_cast<int>( sizeof( T ) * 8 ) ? ( a >> ( n - 1 ) ) >> 1 : a >> n; }

#define NEON_SMALL( T, V, U, q, s )                                                                                                                                      \
    inline V vmul##q##_##s( V a, V b ) { return reinterpret_cast<V>( reinterpret_cast<U>( a ) * reinterpret_cast<U>( b ) ); }                                            \
    inline V vmla##q##_##s( V a, V b, V c ) { return vadd##q##_##s( a, vmul##q##_##s( b, c ) ); }                                                                        \
    inline V vmls##q##_##s( V a, V b, V c ) { return vsub##q##_##s( a, vmul##q##_##s( b, c ) ); }                                                                        \
    inline V vmvn##q##_##s( V a ) { return ~a; }                                                                                                                         \
    inline V vmin##q##_##s( V a, V b ) { return neonEmulator::minimum( a, b ); }                                                                                         \
    inline V vmax##q##_##s( V a, V b ) { return neonEmulator::maximum( a, b ); }                                                                                         \
    inline V vabd##q##_##s( V a, V b ) { return neonEmulator::difference( a, b ); }                                                                                      \
    inline V vqadd##q##_##s( V a, V b ) { return neonEmulator::saturatedAdd( a, b ); }                                                                                   \
    inline V vqsub##q##_##s( V a, V b ) { return neonEmulator::saturatedSubtract( a, b ); }                                                                              \
    inline V vhadd##q##_##s( V a, V b ) { return neonEmulator::halvingAdd( a, b, 0 ); }                                                                                  \
    inline V vrhadd##q##_##s( V a, V b ) { return neonEmulator::halvingAdd( a, b, 1 ); }                                                                                 \
    inline U vceq##q##_##s( V a, V b ) { return reinterpret_cast<U>( a == b ); }                                                                                         \
    inline U vcge##q##_##s( V a, V b ) { return reinterpret_cast<U>( a >= b ); }                                                                                         \
    inline U vcgt##q##_##s( V a, V b ) { return reinterpret_cast<U>( a > b ); }                                                                                          \
    inline U vcle##q##_##s( V a, V b ) { return reinterpret_cast<U>( a <= b ); }                                                                                         \
    inline U vclt##q##_##s( V a, V b ) { return reinterpret_cast<U>( a < b ); }                                                                                          \
    inline U vtst##q##_##s( V a, V b ) { return reinterpret_cast<U>( ( a & b ) != neonEmulator::duplicate<V>( T( 0 ) ) ); }                                              \
    inline V vzip1##q##_##s( V a, V b ) { return neonEmulator::zip( a, b, false ); }                                                                                     \
    inline V vzip2##q##_##s( V a, V b ) { return neonEmulator::zip( a, b, true ); }                                                                                      \
    inline V vuzp1##q##_##s( V a, V b ) { return neonEmulator::unzip( a, b, 0 ); }                                                                                       \
    inline V vuzp2##q##_##s( V a, V b ) { return neonEmulator::unzip( a, b, 1 ); }                                                                                       \
    inline V vpadd##q##_##s( V a, V b ) { return neonEmulator::pairwise( a, b, 0 ); }                                                                                    \
    inline V vpmin##q##_##s( V a, V b ) { return neonEmulator::pairwise( a, b, 1 ); }                                                                                    \
    inline V vpmax##q##_##s( V a, V b ) { return neonEmulator::pairwise( a, b, 2 ); }                                                                                    \
    inline T vaddv##q##_##s( V a ) { return static_cast<T>( neonEmulator::sumOf( a ) ); }                                                                                \
    inline T vminv##q##_##s( V a ) { return neonEmulator::extremeOf( a, false ); }                                                                                       \
    inline T vmaxv##q##_##s( V a ) { return neonEmulator::extremeOf( a, true ); }

#define NEON_GROUPS( T, S, q, s )                                                                                                                                        \
    inline S##x2_t vld2##q##_##s( const T * p ) { return neonEmulator::loadGroups<S##x2_t, S##_t>( p ); }                                                                \
    inline S##x3_t vld3##q##_##s( const T * p ) { return neonEmulator::loadGroups<S##x3_t, S##_t>( p ); }                                                                \
    inline S##x4_t vld4##q##_##s( const T * p ) { return neonEmulator::loadGroups<S##x4_t, S##_t>( p ); }                                                                \
    inline void vst2##q##_##s( T * p, S##x2_t v ) { neonEmulator::storeGroups<S##_t>( p, v ); }                                                                          \
    inline void vst3##q##_##s( T * p, S##x3_t v ) { neonEmulator::storeGroups<S##_t>( p, v ); }                                                                          \
    inline void vst4##q##_##s( T * p, S##x4_t v ) { neonEmulator::storeGroups<S##_t>( p, v ); }                                                                          \
    inline S##x2_t vzip##q##_##s( S##_t a, S##_t b ) { return S##x2_t{ { neonEmulator::zip( a, b, false ), neonEmulator::zip( a, b, true ) } }; }                         \
    inline S##x2_t vuzp##q##_##s( S##_t a, S##_t b ) { return S##x2_t{ { neonEmulator::unzip( a, b, 0 ), neonEmulator::unzip( a, b, 1 ) } }; }

// halves of a full vector: S and N for the half, M for the full one
#define NEON_HALVES( S, N, M, s )                                                                                                                                        \
    inline S##x##N##_t vget_low_##s( S##x##M##_t v ) { return neonEmulator::half<S##x##N##_t>( v, 0 ); }                                                                 \
    inline S##x##N##_t vget_high_##s( S##x##M##_t v ) { return neonEmulator::half<S##x##N##_t>( v, N ); }                                                                \
    inline S##x##M##_t vcombine_##s( S##x##N##_t low, S##x##N##_t high ) { return neonEmulator::combine<S##x##M##_t>( low, high ); }

// narrow half vector H, narrow full vector F, wide half vector G, wide full vector W
#define NEON_WIDE( H, F, G, W, n, w )                                                                                                                                    \
    inline W vmovl_##n( H v ) { return neonEmulator::convert<W>( v ); }                                                                                                  \
    inline W vmovl_high_##n( F v ) { return vmovl_##n( vget_high_##n( v ) ); }                                                                                           \
    inline H vmovn_##w( W v ) { return neonEmulator::convert<H>( v ); }                                                                                                  \
    inline H vqmovn_##w( W v ) { return neonEmulator::saturatedNarrow<H>( v ); }                                                                                         \
    inline W vaddl_##n( H a, H b ) { return vmovl_##n( a ) + vmovl_##n( b ); }                                                                                           \
    inline W vaddl_high_##n( F a, F b ) { return vaddl_##n( vget_high_##n( a ), vget_high_##n( b ) ); }                                                                  \
    inline W vsubl_##n( H a, H b ) { return vsubq_##w( vmovl_##n( a ), vmovl_##n( b ) ); }                                                                             \
    inline W vaddw_##n( W a, H b ) { return vaddq_##w( a, vmovl_##n( b ) ); }                                                                                          \
    inline W vaddw_high_##n( W a, F b ) { return vaddw_##n( a, vget_high_##n( b ) ); }                                                                                   \
    inline W vsubw_##n( W a, H b ) { return vsubq_##w( a, vmovl_##n( b ) ); }                                                                                          \
    inline W vshll_n_##n( H v, int k ) { return vshlq_n_##w( vmovl_##n( v ), k ); }                                                                                    \
    inline H vshrn_n_##w( W v, int k ) { return neonEmulator::convert<H>( vshrq_n_##w( v, k ) ); }                                                                     \
    inline H vaddhn_##w( W a, W b ) { return vshrn_n_##w( vaddq_##w( a, b ), sizeof( a[0] ) * 4 ); }                                                                   \
    inline G vpaddl_##n( H v ) { return neonEmulator::pairwiseLong<G>( v ); }                                                                                            \
    inline W vpaddlq_##n( F v ) { return neonEmulator::pairwiseLong<W>( v ); }                                                                                         \
    inline G vpadal_##n( G a, H v ) { return a + vpaddl_##n( v ); }                                                                                                      \
    inline W vpadalq_##n( W a, F v ) { return a + vpaddlq_##n( v ); }

NEON_COMMON( uint8_t, uint8x8_t, uint8x8_t, , u8 )
NEON_COMMON( uint8_t, uint8x16_t, uint8x16_t, q, u8 )
NEON_COMMON( int8_t, int8x8_t, uint8x8_t, , s8 )
NEON_COMMON( int8_t, int8x16_t, uint8x16_t, q, s8 )
NEON_COMMON( uint16_t, uint16x4_t, uint16x4_t, , u16 )
NEON_COMMON( uint16_t, uint16x8_t, uint16x8_t, q, u16 )
NEON_COMMON( int16_t, int16x4_t, uint16x4_t, , s16 )
NEON_COMMON( int16_t, int16x8_t, uint16x8_t, q, s16 )
NEON_COMMON( uint32_t, uint32x2_t, uint32x2_t, , u32 )
NEON_COMMON( uint32_t, uint32x4_t, uint32x4_t, q, u32 )
NEON_COMMON( int32_t, int32x2_t, uint32x2_t, , s32 )
NEON_COMMON( int32_t, int32x4_t, uint32x4_t, q, s32 )
NEON_COMMON( uint64_t, uint64x1_t, uint64x1_t, , u64 )
NEON_COMMON( uint64_t, uint64x2_t, uint64x2_t, q, u64 )
NEON_COMMON( int64_t, int64x1_t, uint64x1_t, , s64 )
NEON_COMMON( int64_t, int64x2_t, uint64x2_t, q, s64 )

NEON_SMALL( uint8_t, uint8x8_t, uint8x8_t, , u8 )
NEON_SMALL( uint8_t, uint8x16_t, uint8x16_t, q, u8 )
NEON_SMALL( int8_t, int8x8_t, uint8x8_t, , s8 )
NEON_SMALL( int8_t, int8x16_t, uint8x16_t, q, s8 )
NEON_SMALL( uint16_t, uint16x4_t, uint16x4_t, , u16 )
NEON_SMALL( uint16_t, uint16x8_t, uint16x8_t, q, u16 )
NEON_SMALL( int16_t, int16x4_t, uint16x4_t, , s16 )
NEON_SMALL( int16_t, int16x8_t, uint16x8_t, q, s16 )
NEON_SMALL( uint32_t, uint32x2_t, uint32x2_t, , u32 )
NEON_SMALL( uint32_t, uint32x4_t, uint32x4_t, q, u32 )
NEON_SMALL( int32_t, int32x2_t, uint32x2_t, , s32 )
NEON_SMALL( int32_t, int32x4_t, uint32x4_t, q, s32 )

NEON_GROUPS( uint8_t, uint8x8, , u8 )
NEON_GROUPS( uint8_t, uint8x16, q, u8 )
NEON_GROUPS( uint16_t, uint16x4, , u16 )
NEON_GROUPS( uint16_t, uint16x8, q, u16 )
NEON_GROUPS( uint32_t, uint32x2, , u32 )
NEON_GROUPS( uint32_t, uint32x4, q, u32 )

NEON_HALVES( uint8, 8, 16, u8 )
NEON_HALVES( int8, 8, 16, s8 )
NEON_HALVES( uint16, 4, 8, u16 )
NEON_HALVES( int16, 4, 8, s16 )
NEON_HALVES( uint32, 2, 4, u32 )
NEON_HALVES( int32, 2, 4, s32 )
NEON_HALVES( uint64, 1, 2, u64 )
NEON_HALVES( int64, 1, 2, s64 )

NEON_WIDE( uint8x8_t, uint8x16_t, uint16x4_t, uint16x8_t, u8, u16 )
NEON_WIDE( int8x8_t, int8x16_t, int16x4_t, int16x8_t, s8, s16 )
NEON_WIDE( uint16x4_t, uint16x8_t, uint32x2_t, uint32x4_t, u16, u32 )
NEON_WIDE( int16x4_t, int16x8_t, int32x2_t, int32x4_t, s16, s32 )
NEON_WIDE( uint32x2_t, uint32x4_t, uint64x1_t, uint64x2_t, u32, u64 )
NEON_WIDE( int32x2_t, int32x4_t, int64x1_t, int64x2_t, s32, s64 )

#define NEON_PRODUCT( H, W, n )                                                                                                                                          \
    inline W vmull_##n( H a, H b ) { return vmovl_##n( a ) * vmovl_##n( b ); }                                                                                           \
    inline W vmlal_##n( W r, H a, H b ) { return r + vmull_##n( a, b ); }                                                                                                \
    inline W vabdl_##n( H a, H b ) { return vmovl_##n( vabd_##n( a, b ) ); }                                                                                             \
    inline W vabal_##n( W r, H a, H b ) { return r + vabdl_##n( a, b ); }
NEON_PRODUCT( uint8x8_t, uint16x8_t, u8 )
NEON_PRODUCT( uint16x4_t, uint32x4_t, u16 )

inline uint16_t vaddlv_u8( uint8x8_t v ) { return static_cast<uint16_t>( neonEmulator::sumOf( v ) ); }
inline uint16_t vaddlvq_u8( uint8x16_t v ) { return static_cast<uint16_t>( neonEmulator::sumOf( v ) ); }
inline uint32_t vaddlv_u16( uint16x4_t v ) { return static_cast<uint32_t>( neonEmulator::sumOf( v ) ); }
inline uint32_t vaddlvq_u16( uint16x8_t v ) { return static_cast<uint32_t>( neonEmulator::sumOf( v ) ); }
inline uint64_t vaddlvq_u32( uint32x4_t v ) { return neonEmulator::sumOf( v ); }
inline uint64_t vaddvq_u64( uint64x2_t v ) { return neonEmulator::sumOf( v ); }

inline uint8x8_t vrev64_u8( uint8x8_t v ) { return neonEmulator::reverse( v, 8 ); }
inline uint8x16_t vrev64q_u8( uint8x16_t v ) { return neonEmulator::reverse( v, 8 ); }
inline uint8x8_t vrev32_u8( uint8x8_t v ) { return neonEmulator::reverse( v, 4 ); }
inline uint8x16_t vrev32q_u8( uint8x16_t v ) { return neonEmulator::reverse( v, 4 ); }
inline uint8x8_t vrev16_u8( uint8x8_t v ) { return neonEmulator::reverse( v, 2 ); }
inline uint8x16_t vrev16q_u8( uint8x16_t v ) { return neonEmulator::reverse( v, 2 ); }
inline uint16x4_t vrev64_u16( uint16x4_t v ) { return neonEmulator::reverse( v, 4 ); }
inline uint16x8_t vrev64q_u16( uint16x8_t v ) { return neonEmulator::reverse( v, 4 ); }
inline uint32x2_t vrev64_u32( uint32x2_t v ) { return neonEmulator::reverse( v, 2 ); }
inline uint32x4_t vrev64q_u32( uint32x4_t v ) { return neonEmulator::reverse( v, 2 ); }

inline uint8x8_t vtbl1_u8( uint8x8_t table, uint8x8_t index ) { return neonEmulator::look( table, index ); }
inline uint8x8_t vtbl2_u8( uint8x8x2_t table, uint8x8_t index ) { return neonEmulator::look( vcombine_u8( table.val[0], table.val[1] ), index ); }
inline uint8x8_t vqtbl1_u8( uint8x16_t table, uint8x8_t index ) { return neonEmulator::look( table, index ); }
inline uint8x16_t vqtbl1q_u8( uint8x16_t table, uint8x16_t index ) { return neonEmulator::look( table, index ); }
