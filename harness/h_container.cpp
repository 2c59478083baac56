// P13: histories of the image container against a model. P14: histories of the memory allocator.
#include "img.h"
#include "perturb.h"
#include "memory/cpu_memory.h"

#include <cstdlib>
#include <map>
#include <memory>
#include <new>
#include <sanitizer/asan_interface.h>
#include <set>
#include <thread>

using pbt::Ctx;
using pbt::Src;

// Heap: malloc keeps the sanitizer's checks; reservations of the allocator are observed, and impossible sizes refused
namespace
{
    std::atomic<bool> watchHeap( false );
    const size_t MAX_WATCHED = 16;
    uint8_t * watchedBlock[MAX_WATCHED];
    size_t watchedSize[MAX_WATCHED];
    std::atomic<size_t> watchedCount( 0 );

    void * heap( size_t size )
    {
        if ( size > ( static_cast<size_t>( 1 ) << 30 ) )
            throw std::bad_alloc();
        void * p = malloc( size == 0 ? 1 : size );
        if ( p == nullptr )
            throw std::bad_alloc();
        return p;
    }

    // The sanitizer gives memory on 32 byte boundaries, other heaps do not: some watched blocks start in the middle of such a piece
    const size_t SHIFT = 16;
    std::atomic<void *> shifted[64];

    void * shiftedHeap( size_t size )
    {
        for ( std::atomic<void *> & slot : shifted ) {
            void * none = nullptr;
            if ( slot.compare_exchange_strong( none, &slot ) ) {
                uint8_t * p;
                try {
                    p = static_cast<uint8_t *>( heap( size + SHIFT ) );
                }
                catch ( ... ) {
                    slot = nullptr;
                    throw;
                }
                ASAN_POISON_MEMORY_REGION( p, SHIFT );
                slot = p + SHIFT;
                return p + SHIFT;
            }
        }
        return heap( size );
    }

    void release( void * p )
    {
        if ( p != nullptr ) {
            for ( std::atomic<void *> & slot : shifted ) {
                void * same = p;
                if ( slot.load( std::memory_order_relaxed ) == p && slot.compare_exchange_strong( same, nullptr ) ) {
                    p = static_cast<uint8_t *>( p ) - SHIFT;
                    ASAN_UNPOISON_MEMORY_REGION( p, SHIFT );
                    break;
                }
            }
        }
        free( p );
    }
}

void * operator new[]( size_t size )
{
    void * p = watchHeap && size / 3 % 2 == 1 ? shiftedHeap( size ) : heap( size );
    if ( watchHeap && watchedCount < MAX_WATCHED ) {
        watchedBlock[watchedCount] = static_cast<uint8_t *>( p );
        watchedSize[watchedCount] = size;
        ++watchedCount;
    }
    return p;
}
void * operator new[]( size_t size, const std::nothrow_t & ) noexcept
{
    try {
        return operator new[]( size );
    }
    catch ( ... ) {
        return nullptr;
    }
}
void operator delete[]( void * p, const std::nothrow_t & ) noexcept
{
    release( p );
}
void operator delete[]( void * p ) noexcept
{
    release( p );
}
void operator delete[]( void * p, size_t ) noexcept
{
    release( p );
}
void * operator new( size_t size )
{
    return heap( size );
}
void * operator new( size_t size, const std::nothrow_t & ) noexcept
{
    try {
        return heap( size );
    }
    catch ( ... ) {
        return nullptr;
    }
}
void operator delete( void * p, const std::nothrow_t & ) noexcept
{
    free( p );
}
void operator delete( void * p ) noexcept
{
    free( p );
}
void operator delete( void * p, size_t ) noexcept
{
    free( p );
}

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__( ( weak ) );

namespace
{
    // P13 --------------------------------------------------------------------------------------------------------------

    // Memory of the second image type: every block is tracked, freed blocks must never be seen again
    struct Tracker
    {
        std::map<void *, size_t> live;
        int failAfter = -1; // allocations until one fails
        std::string error;
    };
    Tracker tracker;

    template <typename T>
    class Tracked : public penguinV::ImageTemplate<T>
    {
    public:
        static const uint8_t TYPE = 50;
        Tracked()
        {
            this->_setType( TYPE, allocate, deallocate, copyMemory, setMemory );
        }

    private:
        static T * allocate( size_t size )
        {
            if ( tracker.failAfter == 0 ) {
                tracker.failAfter = -1;
                throw std::bad_alloc();
            }
            if ( tracker.failAfter > 0 )
                --tracker.failAfter;
            if ( size > ( 1u << 26 ) )
                throw std::bad_alloc();
            T * p = static_cast<T *>( malloc( size * sizeof( T ) ) );
            tracker.live[p] = size * sizeof( T );
            return p;
        }
        static void deallocate( T * data )
        {
            if ( tracker.live.erase( data ) == 0 )
                tracker.error = "memory which is not live was freed";
            else
                free( data );
        }
        static bool inside( const void * data, size_t bytes )
        {
            auto i = tracker.live.find( const_cast<void *>( data ) );
            return i != tracker.live.end() && i->second >= bytes;
        }
        static void copyMemory( T * out, T * in, size_t size )
        {
            if ( !inside( out, size ) || !inside( in, size ) )
                tracker.error = "copying of memory which is not live or too small";
            else
                memcpy( out, in, size );
        }
        static void setMemory( T * data, T value, size_t size )
        {
            if ( !inside( data, size ) )
                tracker.error = "filling of memory which is not live or too small";
            else
                std::fill( data, data + size / sizeof( T ), value );
        }
    };

    template <typename T>
    struct ContainerModel
    {
        uint32_t w = 0, h = 0;
        uint8_t cc = 1, al = 1, type = 0;
        std::vector<T> data;

        uint32_t row() const
        {
            return w == 0 ? 0 : static_cast<uint32_t>( ( static_cast<uint64_t>( w ) * cc + al - 1 ) / al * al );
        }
        std::string text() const
        {
            std::ostringstream o;
            o << w << 'x' << h << 'c' << int( cc ) << 'a' << int( al );
            return o.str();
        }
    };

    template <typename T>
    struct Cell
    {
        std::unique_ptr<penguinV::ImageTemplate<T>> image;
        ContainerModel<T> model;
    };

    template <typename T>
    void compare( const Cell<T> & c, const char * what )
    {
        const penguinV::ImageTemplate<T> & i = *c.image;
        const ContainerModel<T> & m = c.model;
        PBT_CHECK( tracker.error.empty(), what << ": " << tracker.error );
        PBT_CHECK( i.type() == m.type, what << ": type " << int( i.type() ) << " instead of " << int( m.type ) );
        PBT_CHECK( i.width() == m.w && i.height() == m.h && i.colorCount() == m.cc && i.alignment() == m.al,
                   what << ": " << i.width() << 'x' << i.height() << 'c' << int( i.colorCount() ) << 'a' << int( i.alignment() ) << " instead of " << m.text() );
        PBT_CHECK( i.rowSize() == m.row(), what << ": row size " << i.rowSize() << " instead of " << m.row() << " for " << m.text() );
        const size_t n = static_cast<size_t>( m.row() ) * m.h;
        PBT_CHECK( i.empty() == ( i.data() == nullptr ), what << ": empty() disagrees with data()" );
        PBT_CHECK( i.empty() == ( n == 0 ), what << ": the image is " << ( i.empty() ? "empty" : "not empty" ) << " but has size " << m.text() );
        for ( size_t k = 0; k < n; ++k )
            PBT_CHECK( i.data()[k] == m.data[k], what << ": element " << k << " is " << uint64_t( i.data()[k] ) << " instead of " << uint64_t( m.data[k] ) );
    }

    template <typename T>
    void refill( Cell<T> & c, uint64_t seed )
    {
        const size_t n = static_cast<size_t>( c.model.row() ) * c.model.h;
        c.model.data.assign( n, 0 );
        pbt::Stream r( seed );
        for ( size_t i = 0; i < n; ++i )
            c.model.data[i] = static_cast<T>( r.next() );
        for ( size_t i = 0; i < n; ++i )
            c.image->data()[i] = c.model.data[i];
    }

    template <typename T>
    void adopt( Cell<T> & c, const char * what ) // the contents are not specified but must be consistent and accessible
    {
        const penguinV::ImageTemplate<T> & i = *c.image;
        c.model.w = i.width();
        c.model.h = i.height();
        c.model.cc = i.colorCount();
        c.model.al = i.alignment();
        c.model.type = i.type();
        const size_t n = static_cast<size_t>( c.model.row() ) * c.model.h;
        PBT_CHECK( ( i.data() == nullptr ) == ( n == 0 ), what << ": an image of size " << c.model.text() << ( n ? " has no data" : " has data" ) );
        c.model.data.assign( n, 0 );
        for ( size_t k = 0; k < n; ++k )
            c.model.data[k] = i.data()[k];
        compare( c, what );
    }

    uint32_t dim( Src & s )
    {
        if ( s.chance( 200 ) )
            return static_cast<uint32_t>( s.upto( 12 ) );
        return 1 + static_cast<uint32_t>( s.upto( 70 ) );
    }
    uint8_t channels( Src & s )
    {
        return s.chance( 24 ) ? static_cast<uint8_t>( s.upto( 255 ) ) : s.pick<uint8_t>( { 1, 3, 4, 2, 0 } );
    }
    uint8_t align( Src & s )
    {
        return s.chance( 24 ) ? static_cast<uint8_t>( s.upto( 255 ) ) : s.pick<uint8_t>( { 1, 4, 8, 16, 3, 64, 0 } );
    }

    // Sizes whose products equal the ones of another image: memory must not be taken for suitable because of its size
    template <typename T>
    void relatedSize( Src & s, const ContainerModel<T> & m, uint32_t & w, uint32_t & h )
    {
        switch ( s.upto( 4 ) ) {
        case 0:
            w = m.h;
            h = m.w;
            break;
        case 1:
            w = m.w * 2;
            h = m.h / 2;
            break;
        case 2:
            w = m.w / 2;
            h = m.h * 2;
            break;
        case 3:
            w = m.row();
            h = m.h;
            break;
        default:
            w = m.w;
            h = m.h;
        }
        if ( w > 600 || h > 600 ) {
            w = m.w;
            h = m.h;
        }
    }

    template <typename T>
    void containerHistory( Src & s, Ctx & ctx )
    {
        typedef penguinV::ImageTemplate<T> Img;
        tracker.failAfter = -1;
        tracker.error.clear();
        static const Img generator = Tracked<T>().generate();
        std::vector<Cell<T>> cells( 3 );
        for ( Cell<T> & c : cells )
            c.image.reset( new Img );
        const size_t steps = 2 + s.upto( 14 );
        size_t changes = 0, fulls = 0;
        bool reserved = false;
        for ( size_t step = 0; step < steps; ++step ) {
            const size_t index = s.upto( 2 ), other = s.upto( 2 );
            Cell<T> & c = cells[index];
            Cell<T> & o = cells[other];
            ContainerModel<T> & m = c.model;
            const char * name = "";
            PBT_NOTE( ctx, "image " << index << ' ' );
            switch ( s.upto( 19 ) ) {
            case 0:
            case 1: { // construct
                uint32_t w = dim( s ), h = dim( s );
                uint8_t cc = channels( s ), al = align( s );
                bool tracked = s.flag();
                if ( s.chance( 80 ) ) {
                    relatedSize( s, o.model, w, h );
                    if ( !s.chance( 60 ) )
                        cc = o.model.cc;
                    if ( !s.chance( 60 ) )
                        al = o.model.al;
                    if ( !s.chance( 60 ) )
                        tracked = o.model.type == Tracked<T>::TYPE;
                }
                const uint64_t form = s.chance( 60 ) ? 1 + s.upto( 3 ) : 0; // how many of last arguments are left to their defaults
                if ( s.chance( 1 ) ) { // more than 16 bits
                    ( s.flag() ? w : h ) = 65530 + static_cast<uint32_t>( s.upto( 12 ) );
                    ( w > 1000 ? h : w ) = 1 + static_cast<uint32_t>( s.upto( 1 ) );
                    cc = al = 1;
                }
                if ( form >= 1 )
                    al = 1;
                if ( form >= 2 )
                    cc = 1;
                if ( form >= 3 )
                    w = h = 0;
                PBT_NOTE( ctx, "= new " << w << 'x' << h << 'c' << int( cc ) << 'a' << int( al ) << " by " << 4 - form - ( form == 3 ) << " arguments" << ( tracked ? " tracked; " : "; " ) );
                name = "construction";
                if ( tracked )
                    c.image.reset( new Img( form == 0 ? generator.generate( w, h, cc, al ) : form == 1 ? generator.generate( w, h, cc ) : form == 2 ? generator.generate( w, h ) : generator.generate() ) );
                else
                    c.image.reset( form == 0 ? new Img( w, h, cc, al ) : form == 1 ? new Img( w, h, cc ) : form == 2 ? new Img( w, h ) : new Img() );
                m = ContainerModel<T>();
                m.type = tracked ? Tracked<T>::TYPE : 0;
                m.cc = cc ? cc : 1;
                m.al = al ? al : 1;
                if ( w > 0 && h > 0 ) {
                    m.w = w;
                    m.h = h;
                }
                refill( c, step * 7 + index );
                break;
            }
            case 2:
            case 3:
            case 4: { // resize
                const bool same = s.chance( 40 );
                uint32_t w = same ? m.w : dim( s ), h = same ? m.h : dim( s );
                if ( !same && s.chance( 80 ) )
                    relatedSize( s, s.flag() ? o.model : m, w, h );
                PBT_NOTE( ctx, "resize " << w << 'x' << h << "; " );
                name = "resize";
                c.image->resize( w, h );
                if ( w > 0 && h > 0 && ( w != m.w || h != m.h ) ) {
                    m.w = w;
                    m.h = h;
                    m.data.clear();
                    PBT_CHECK( c.image->data() != nullptr, "no memory after resize" );
                    PBT_CHECK( c.image->rowSize() == m.row(), "row size " << c.image->rowSize() << " instead of " << m.row() << " after resize to " << m.text() );
                    refill( c, step * 7 + index );
                }
                break;
            }
            case 5:
                PBT_NOTE( ctx, "clear; " );
                name = "clear";
                c.image->clear();
                m.w = m.h = 0;
                m.data.clear();
                break;
            case 6: { // color count
                const uint8_t cc = channels( s );
                PBT_NOTE( ctx, "setColorCount " << int( cc ) << "; " );
                name = "setColorCount";
                c.image->setColorCount( cc );
                if ( cc > 0 && cc != m.cc ) {
                    m.cc = cc;
                    m.w = m.h = 0;
                    m.data.clear();
                }
                break;
            }
            case 7: {
                const uint8_t al = align( s );
                PBT_NOTE( ctx, "setAlignment " << int( al ) << "; " );
                name = "setAlignment";
                c.image->setAlignment( al );
                if ( al > 0 && al != m.al ) {
                    m.al = al;
                    m.w = m.h = 0;
                    m.data.clear();
                }
                break;
            }
            case 8:
            case 9:
            case 10: { // copy
                const bool method = s.flag();
                PBT_NOTE( ctx, ( method ? "copy() of " : "= copy of " ) << other << "; " );
                name = "copy";
                bool refused = false;
                try {
                    if ( method )
                        c.image->copy( *o.image );
                    else
                        *c.image = *o.image;
                }
                catch ( const penguinVException & ) {
                    refused = true;
                }
                PBT_CHECK( refused == ( m.type != o.model.type ), ( refused ? "a copy was refused" : "a copy between different types was not refused" ) );
                if ( !refused && &c != &o ) {
                    m = o.model;
                    PBT_CHECK( m.data.empty() || c.image->data() != o.image->data(), "a copy shares its memory with the original" );
                }
                break;
            }
            case 11: { // copy constructor
                PBT_NOTE( ctx, "= new copy of " << other << "; " );
                name = "copy construction";
                std::unique_ptr<Img> copy( new Img( *o.image ) );
                PBT_CHECK( o.model.data.empty() || copy->data() != o.image->data(), "a copy shares its memory with the original" );
                const ContainerModel<T> model = o.model;
                c.image = std::move( copy );
                m = model;
                break;
            }
            case 12: { // move
                PBT_NOTE( ctx, "= move of " << other << "; " );
                name = "move";
                if ( &c == &o ) {
                    Img & same = *o.image;
                    *c.image = std::move( same );
                    adopt( c, "self move" );
                }
                else {
                    *c.image = std::move( *o.image );
                    m = o.model;
                    adopt( o, "moved image" );
                }
                break;
            }
            case 13: { // move constructor
                PBT_NOTE( ctx, "= new by move of " << other << "; " );
                name = "move construction";
                std::unique_ptr<Img> moved( new Img( std::move( *o.image ) ) );
                const ContainerModel<T> model = o.model;
                adopt( o, "moved image" );
                c.image = std::move( moved );
                m = model;
                break;
            }
            case 14: {
                PBT_NOTE( ctx, "swap with " << other << "; " );
                name = "swap";
                if ( s.flag() )
                    c.image->swap( *o.image );
                else if ( &c != &o )
                    std::swap( *c.image, *o.image );
                std::swap( c.model, o.model );
                break;
            }
            case 15: {
                const T value = static_cast<T>( s.raw( sizeof( T ) ) );
                PBT_NOTE( ctx, "fill " << uint64_t( value ) << "; " );
                name = "fill";
                c.image->fill( value );
                std::fill( m.data.begin(), m.data.end(), value );
                break;
            }
            case 16:
            case 17: { // mutate, often into something of the same size
                uint32_t w = dim( s ), h = dim( s );
                uint8_t cc = channels( s ), al = align( s );
                if ( m.w > 0 && s.chance( 180 ) ) {
                    const uint64_t size = static_cast<uint64_t>( m.row() ) * m.h;
                    switch ( s.upto( 3 ) ) {
                    case 0:
                        cc = 1;
                        al = 1;
                        w = m.row();
                        h = m.h;
                        break;
                    case 1:
                        w = static_cast<uint32_t>( size );
                        h = 1;
                        cc = 1;
                        al = 1;
                        break;
                    case 2:
                        w = m.h;
                        h = m.row();
                        cc = 1;
                        al = 1;
                        break;
                    default:
                        al = 1;
                        cc = size % 3 == 0 ? 3 : 1;
                        w = 1;
                        h = static_cast<uint32_t>( size / cc );
                    }
                }
                PBT_NOTE( ctx, "mutate " << w << 'x' << h << 'c' << int( cc ) << 'a' << int( al ) << "; " );
                name = "mutate";
                const uint64_t row = cc && al ? ( static_cast<uint64_t>( w ) * cc + al - 1 ) / al * al : 0;
                const bool expected = cc > 0 && al > 0 && row * h == static_cast<uint64_t>( m.row() ) * m.h && ( w == 0 ) == ( h == 0 );
                const bool done = c.image->mutate( w, h, cc, al );
                PBT_CHECK( done == expected, "mutate of " << m.text() << " into " << w << 'x' << h << 'c' << int( cc ) << 'a' << int( al ) << " returned " << done );
                if ( done ) {
                    m.w = w;
                    m.h = h;
                    m.cc = cc;
                    m.al = al;
                }
                break;
            }
            case 18: { // wrap
                uint32_t w = dim( s ), h = dim( s );
                const uint8_t cc = channels( s ), al = align( s );
                if ( s.chance( 16 ) ) { // more than 16 bits
                    w = 20000 + static_cast<uint32_t>( s.upto( 50000 ) );
                    h = static_cast<uint32_t>( s.upto( 2 ) );
                }
                PBT_NOTE( ctx, "assign " << w << 'x' << h << 'c' << int( cc ) << 'a' << int( al ) << "; " );
                name = "assign";
                const size_t row = cc && al ? ( static_cast<size_t>( w ) * cc + al - 1 ) / al * al : 0;
                if ( row * h == 0 ) {
                    T dummy = 0;
                    bool refused = false;
                    try {
                        c.image->assign( &dummy, w, h, cc, al );
                    }
                    catch ( const penguinVException & ) {
                        refused = true;
                    }
                    PBT_CHECK( refused, "an invalid assignment was accepted" );
                    break;
                }
                T * memory;
                if ( m.type == 0 )
                    memory = new T[row * h];
                else {
                    memory = static_cast<T *>( malloc( row * h * sizeof( T ) ) );
                    tracker.live[memory] = row * h * sizeof( T );
                }
                c.image->assign( memory, w, h, cc, al );
                PBT_CHECK( c.image->data() == memory, "the image does not use the given memory" );
                m.w = w;
                m.h = h;
                m.cc = cc;
                m.al = al;
                refill( c, step * 7 + index );
                break;
            }
            default: { // refused sizes and failing allocations
                name = "failing allocation";
                const bool tracked = m.type == Tracked<T>::TYPE;
                const ContainerModel<T> before = m;
                bool thrown = false;
                const uint64_t kind = s.upto( 2 );
                if ( kind == 0 && tracked ) { // size beyond memory
                    const uint32_t w = 0xFFFFFFFFu - static_cast<uint32_t>( s.upto( 300 ) ), h = 1 + dim( s );
                    PBT_NOTE( ctx, "resize " << w << 'x' << h << "; " );
                    try {
                        if ( s.flag() )
                            c.image->resize( w, h );
                        else
                            c.image->resize( h, w );
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    PBT_CHECK( thrown, "an image of 4 GB was created from memory of 64 MB" );
                }
                else if ( tracked ) {
                    tracker.failAfter = 0;
                    PBT_NOTE( ctx, ( kind == 1 ? "failing resize; " : "failing copy; " ) );
                    const uint32_t w = m.w + 1, h = m.h + 1;
                    try {
                        if ( kind == 1 )
                            c.image->resize( w, h );
                        else
                            c.image->copy( *o.image );
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    const bool pending = tracker.failAfter == 0;
                    tracker.failAfter = -1;
                    PBT_CHECK( pending || thrown, "the exception of the memory allocation was lost" );
                }
                adopt( c, "image after a refused operation" );
                ++fulls;
                break;
            }
            }
            ++changes;
            PBT_CHECK( tracker.error.empty(), name << ": " << tracker.error );
            for ( const Cell<T> & cell : cells )
                compare( cell, name );
            PBT_CHECK( *c.image == *c.image, name << ": the image is not equal to itself" );
            if ( c.model.w != o.model.w || c.model.h != o.model.h || c.model.cc != o.model.cc )
                PBT_CHECK( !( *c.image == *o.image ), name << ": images of different size are equal" );
        }
        ctx.nontrivial = changes > 2;
        (void)reserved;
        (void)fulls;
        cells.clear();
        PBT_CHECK( tracker.error.empty(), "destruction: " << tracker.error );
        PBT_CHECK( tracker.live.empty(), tracker.live.size() << " blocks of image memory leaked" );
    }

    template <typename T>
    void containerCase( Src & s, Ctx & ctx )
    {
        // the same history twice: the first time warms up everything static; the second must return all memory
        if ( s.chance( 60 ) && __sanitizer_get_current_allocated_bytes ) {
            const size_t used = s.used();
            std::vector<uint8_t> tape;
            {
                containerHistory<T>( s, ctx );
                tape.assign( s.tape() + used, s.tape() + s.used() );
            }
            ctx.label( "leak check" );
            Ctx * quiet = new Ctx;
            Src * replay = new Src( tape.data(), tape.size() );
            const size_t before = __sanitizer_get_current_allocated_bytes();
            containerHistory<T>( *replay, *quiet );
            const size_t after = __sanitizer_get_current_allocated_bytes();
            delete quiet;
            delete replay;
            PBT_CHECK( after <= before, "a history leaks " << after - before << " bytes" );
        }
        else
            containerHistory<T>( s, ctx );
    }

    const char * CONTAINER = "histories of up to 16 steps over three images of two types (one with tracked memory and injected allocation failures), all images compared with the model after every step; "
                             "non-trivial: more than two steps";
    pbt::Register p13a( "P13", "8 bit", 3, CONTAINER, containerCase<uint8_t>, 20 );
    pbt::Register p13b( "P13", "16 bit", 2, CONTAINER, containerCase<uint16_t>, 20 );
    pbt::Register p13c( "P13", "32 bit", 1, CONTAINER, containerCase<uint32_t>, 20 );

    pbt::Register p13d(
        "P13", "pool memory", 2, "8-bit histories with image memory taken from a reserved block", []( Src & s, Ctx & ctx ) {
            cpu_Memory::MemoryAllocator::instance().reserve( static_cast<size_t>( 1 ) << ( 10 + s.upto( 8 ) ) );
            containerHistory<uint8_t>( s, ctx );
            // everything was returned, otherwise this is refused
            cpu_Memory::MemoryAllocator::instance().reserve( 100 );
        },
        20 );

    // P14 --------------------------------------------------------------------------------------------------------------

    struct Wide
    {
        double a[3];
    };
    struct alignas( 16 ) Sixteen
    {
        uint8_t a[16];
    };

    struct Piece
    {
        uint8_t * address = nullptr;
        size_t bytes = 0;
        int kind = 0;
        uint8_t value = 0;
    };

    const size_t ALIGNMENT[] = { 1, alignof( uint16_t ), alignof( uint32_t ), alignof( uint64_t ), alignof( double ), alignof( Wide ), alignof( Sixteen ) };
    const size_t SIZE[] = { 1, 2, 4, 8, 8, sizeof( Wide ), sizeof( Sixteen ) };
    const int KINDS = 7;

    uint8_t * take( cpu_Memory::MemoryAllocator & a, int kind, size_t n )
    {
        switch ( kind ) {
        case 0:
            return a.allocate<uint8_t>( n );
        case 1:
            return reinterpret_cast<uint8_t *>( a.allocate<uint16_t>( n ) );
        case 2:
            return reinterpret_cast<uint8_t *>( a.allocate<uint32_t>( n ) );
        case 3:
            return reinterpret_cast<uint8_t *>( a.allocate<uint64_t>( n ) );
        case 4:
            return reinterpret_cast<uint8_t *>( a.allocate<double>( n ) );
        case 5:
            return reinterpret_cast<uint8_t *>( a.allocate<Wide>( n ) );
        default:
            return reinterpret_cast<uint8_t *>( a.allocate<Sixteen>( n ) );
        }
    }

    void give( cpu_Memory::MemoryAllocator & a, const Piece & p )
    {
        switch ( p.kind ) {
        case 0:
            return a.free( p.address );
        case 1:
            return a.free( reinterpret_cast<uint16_t *>( p.address ) );
        case 2:
            return a.free( reinterpret_cast<uint32_t *>( p.address ) );
        case 3:
            return a.free( reinterpret_cast<uint64_t *>( p.address ) );
        case 4:
            return a.free( reinterpret_cast<double *>( p.address ) );
        case 5:
            return a.free( reinterpret_cast<Wide *>( p.address ) );
        default:
            return a.free( reinterpret_cast<Sixteen *>( p.address ) );
        }
    }

    bool intact( const Piece & p )
    {
        for ( size_t i = 0; i < p.bytes; ++i )
            if ( p.address[i] != static_cast<uint8_t>( p.value + i ) )
                return false;
        return true;
    }

    void write( const Piece & p )
    {
        for ( size_t i = 0; i < p.bytes; ++i )
            p.address[i] = static_cast<uint8_t>( p.value + i );
    }

    size_t genBlock( Src & s )
    {
        const size_t power = static_cast<size_t>( 1 ) << s.upto( 13 );
        switch ( s.upto( 3 ) ) {
        case 0:
            return power;
        case 1:
            return power + s.upto( 3 );
        case 2:
            return power > 3 ? power - 1 - s.upto( 2 ) : power;
        default:
            return 1 + s.upto( 9000 );
        }
    }

    size_t genCount( Src & s, size_t unit, size_t block )
    {
        const size_t power = static_cast<size_t>( 1 ) << s.upto( 12 );
        size_t bytes;
        switch ( s.upto( 5 ) ) {
        case 0:
            bytes = s.upto( 40 );
            break;
        case 1:
            bytes = power;
            break;
        case 2:
            bytes = power + 1;
            break;
        case 3:
            bytes = power - 1;
            break;
        case 4:
            bytes = block / 2 + s.upto( 2 );
            break;
        default:
            bytes = block + s.upto( 2 ) - ( block > 0 ? 1 : 0 );
        }
        return bytes / unit;
    }

    const size_t BOUNDARY = 32; // of the reserved block, for vectors of AVX

    struct Block
    {
        uint8_t * start = nullptr;
        size_t size = 0; // as reserved
        bool contains( const Piece & p ) const
        {
            return start != nullptr && p.address >= start && p.address + p.bytes <= start + size + 64;
        }
    };

    // Where the block is, is seen from what is taken from the heap. An allocator which takes it in another way is fine:
    // then nothing is said about what is inside the block.
    void reserveWatched( cpu_Memory::MemoryAllocator & a, size_t size, Block & block )
    {
        watchHeap = true;
        watchedCount = 0;
        try {
            a.reserve( size );
        }
        catch ( ... ) {
            watchHeap = false;
            throw;
        }
        watchHeap = false;
        if ( watchedCount == 0 ) {
            if ( size != block.size ) { // the same size keeps the block
                block.start = nullptr;
                block.size = size;
            }
            return;
        }
        std::vector<uint8_t *> candidates;
        for ( size_t i = 0; i < watchedCount; ++i )
            if ( watchedSize[i] >= size )
                candidates.push_back( watchedBlock[i] );
        block.start = candidates.size() == 1 ? candidates[0] : nullptr;
        block.size = size;
        if ( candidates.size() > 1 ) { // which one are pieces taken from?
            Piece p;
            p.bytes = 1;
            p.address = take( a, 0, 1 );
            Block b = block;
            for ( uint8_t * c : candidates ) {
                b.start = c;
                if ( b.contains( p ) )
                    block.start = c;
            }
            give( a, p );
        }
    }

    void add( std::vector<Piece> & live, Piece p, const Block & block )
    {
        PBT_CHECK( p.bytes < BOUNDARY || !block.contains( p ) || reinterpret_cast<uintptr_t>( p.address ) % BOUNDARY == 0,
                   p.bytes << " bytes of the reserved block do not start on a boundary of " << BOUNDARY << " bytes" );
        PBT_CHECK( p.address != nullptr, "the allocator returned no memory" );
        PBT_CHECK( p.bytes == 0 || reinterpret_cast<uintptr_t>( p.address ) % ALIGNMENT[p.kind] == 0, "memory of type " << p.kind << " is not aligned to " << ALIGNMENT[p.kind] << " bytes" );
        for ( const Piece & q : live )
            PBT_CHECK( p.address + p.bytes <= q.address || q.address + q.bytes <= p.address || p.bytes == 0 || q.bytes == 0,
                       "memory of " << p.bytes << " bytes overlaps live memory of " << q.bytes << " bytes" );
        for ( const Piece & q : live )
            PBT_CHECK( p.address != q.address, "the address of live memory was returned again" );
        write( p ); // the sanitizer knows when it is not writable
        live.push_back( p );
    }

    // Everything was freed: parts which together make up the whole block must come out of it again
    void wholeBlock( cpu_Memory::MemoryAllocator & a, const Block & block )
    {
        if ( block.size < 2 )
            return;
        std::vector<size_t> parts;
        for ( int b = 40; b >= 0; --b )
            if ( block.size & ( static_cast<size_t>( 1 ) << b ) )
                parts.push_back( static_cast<size_t>( 1 ) << b );
        if ( parts.size() == 1 )
            parts.assign( 2, block.size / 2 );
        std::vector<Piece> live;
        for ( size_t n : parts ) {
            Piece p;
            p.bytes = n;
            p.value = static_cast<uint8_t>( n );
            watchedCount = 0;
            watchHeap = true;
            p.address = take( a, 0, n );
            watchHeap = false;
            for ( size_t i = 0; i < watchedCount; ++i )
                PBT_CHECK( watchedSize[i] < n, "after everything is freed " << n << " of the reserved " << block.size << " bytes are taken from the heap" );
            if ( block.start == nullptr ) {
                add( live, p, block );
                continue;
            }
            PBT_CHECK( block.contains( p ), "after everything is freed " << n << " of the reserved " << block.size << " bytes are not handed out again" );
            add( live, p, block );
        }
        for ( const Piece & p : live )
            PBT_CHECK( intact( p ), "memory lost its contents" );
        for ( const Piece & p : live )
            give( a, p );
    }

    void allocatorHistory( Src & s, Ctx & ctx )
    {
        std::unique_ptr<cpu_Memory::MemoryAllocator> a( new cpu_Memory::MemoryAllocator );
        Block block;
        std::vector<Piece> live;
        const size_t steps = 3 + s.upto( 40 );
        size_t fromBlock = 0, freed = 0;
        bool unknown = false; // it is not known which pieces are in the block
        if ( s.chance( 230 ) || !s.flag() ) {
            const size_t size = genBlock( s );
            PBT_NOTE( ctx, "reserve " << size << "; " );
            reserveWatched( *a, size, block );
            unknown = block.start == nullptr;
        }
        for ( size_t step = 0; step < steps; ++step ) {
            const uint64_t what = s.upto( 15 );
            if ( what < 8 ) {
                Piece p;
                p.kind = static_cast<int>( s.upto( KINDS - 1 ) );
                const size_t n = genCount( s, SIZE[p.kind], block.size );
                p.bytes = n * SIZE[p.kind];
                p.value = static_cast<uint8_t>( step * 17 + 1 );
                PBT_NOTE( ctx, "allocate " << n << " of type " << p.kind << "; " );
                if ( n == 1 && p.kind == 3 && s.flag() )
                    p.address = reinterpret_cast<uint8_t *>( a->allocate<uint64_t>() );
                else if ( n == 1 && p.kind == 0 && s.flag() )
                    p.address = a->allocate();
                else
                    p.address = take( *a, p.kind, n );
                fromBlock += block.contains( p );
                add( live, p, block );
            }
            else if ( what < 13 ) {
                if ( live.empty() )
                    continue;
                const size_t i = s.upto( live.size() - 1 );
                PBT_NOTE( ctx, "free " << i << "; " );
                PBT_CHECK( intact( live[i] ), "memory lost its contents before it was freed" );
                freed += block.contains( live[i] );
                give( *a, live[i] );
                live.erase( live.begin() + static_cast<std::ptrdiff_t>( i ) );
            }
            else if ( what == 13 ) { // again
                const uint64_t kind = s.upto( 3 );
                bool anyInBlock = false;
                for ( const Piece & p : live )
                    anyInBlock = anyInBlock || block.contains( p );
                if ( kind == 0 ) {
                    PBT_NOTE( ctx, "reserve nothing; " );
                    bool thrown = false;
                    try {
                        a->reserve( 0 );
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    PBT_CHECK( thrown, "reservation of nothing was accepted" );
                }
                else if ( kind == 1 ) {
                    const size_t size = s.flag() ? ~static_cast<size_t>( 0 ) - s.upto( 40 ) : static_cast<size_t>( 1 ) << ( 40 + s.upto( 23 ) );
                    PBT_NOTE( ctx, "reserve " << size << "; " );
                    bool thrown = false;
                    try {
                        a->reserve( size );
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    PBT_CHECK( thrown, "an impossible reservation was accepted" );
                    if ( !anyInBlock )
                        block = Block(); // the old block may be gone
                }
                else {
                    const size_t oldSize = block.size, size = oldSize > 0 && s.chance( 60 ) ? oldSize : genBlock( s );
                    PBT_NOTE( ctx, "reserve " << size << "; " );
                    bool thrown = false;
                    try {
                        reserveWatched( *a, size, block );
                        unknown = unknown || block.start == nullptr;
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    PBT_CHECK( !thrown || anyInBlock || ( unknown && !live.empty() ), "a reservation was refused although nothing of the old one is in use" );
                    PBT_CHECK( !thrown || size != oldSize || unknown, "a reservation of the size which is reserved already was refused" );
                    PBT_CHECK( thrown || !anyInBlock || size == oldSize, "a reservation was accepted although memory of the old one is in use" );
                }
            }
            else if ( what == 14 ) { // impossible request
                PBT_NOTE( ctx, "allocate too much; " );
                bool thrown = false;
                try {
                    take( *a, static_cast<int>( s.upto( KINDS - 1 ) ), ~static_cast<size_t>( 0 ) >> s.upto( 20 ) );
                }
                catch ( const std::exception & ) {
                    thrown = true;
                }
                PBT_CHECK( thrown, "an impossible request was served" );
            }
            else {
                a->free<uint8_t>( nullptr );
            }
        }
        ctx.nontrivial = fromBlock > 1 && freed > 0;
        for ( const Piece & p : live )
            PBT_CHECK( intact( p ), "live memory lost its contents" );
        while ( !live.empty() ) {
            const size_t i = s.upto( live.size() - 1 );
            give( *a, live[i] );
            live.erase( live.begin() + static_cast<std::ptrdiff_t>( i ) );
        }
        PBT_NOTE( ctx, "free all; " );
        wholeBlock( *a, block );
        wholeBlock( *a, block );
    }

    // As for images: the second time must return all memory
    void allocatorCase( Src & s, Ctx & ctx )
    {
        if ( s.chance( 80 ) && __sanitizer_get_current_allocated_bytes ) {
            const size_t used = s.used();
            std::vector<uint8_t> tape;
            allocatorHistory( s, ctx );
            tape.assign( s.tape() + used, s.tape() + s.used() );
            ctx.label( "leak check" );
            Ctx * quiet = new Ctx;
            Src * replay = new Src( tape.data(), tape.size() );
            const size_t before = __sanitizer_get_current_allocated_bytes();
            allocatorHistory( *replay, *quiet );
            const size_t after = __sanitizer_get_current_allocated_bytes();
            delete quiet;
            delete replay;
            PBT_CHECK( after <= before, "a history of the allocator leaks " << after - before << " bytes" );
        }
        else
            allocatorHistory( s, ctx );
    }

    pbt::Register p14a(
        "P14", "history", 3, "histories of reserve, allocate (seven element types, sizes around powers of two and the block), free and impossible requests; a third of them twice to see that all memory is released; non-trivial: two pieces of the block were in use and one was freed",
        allocatorCase, 10 );

    pbt::Register p14b(
        "P14", "threads", 1, "two to four threads allocate, write, verify and free pieces of one block with a perturbed schedule, then the whole block must be available; non-trivial: always",
        []( Src & s, Ctx & ctx ) {
            perturb::Scope perturbation( s.pick<uint32_t>( { 0, 200, 1000, 4000 } ), s.raw( 2 ) );
            cpu_Memory::MemoryAllocator a;
            Block block;
            const size_t size = 64 + genBlock( s );
            reserveWatched( a, size, block );
            struct Client
            {
                std::vector<uint32_t> plan;
                std::string failure;
            };
            std::vector<Client> clients( 2 + s.upto( 2 ) );
            for ( Client & c : clients ) {
                const size_t n = 4 + s.upto( 40 );
                pbt::Stream r( s.raw( 2 ) );
                for ( size_t i = 0; i < n; ++i )
                    c.plan.push_back( static_cast<uint32_t>( r.next() ) );
            }
            PBT_NOTE( ctx, "block of " << size << ", " << clients.size() << " threads; " );
            ctx.nontrivial = true;
            std::vector<std::thread> threads;
            for ( size_t number = 0; number < clients.size(); ++number ) {
                Client & c = clients[number];
                threads.emplace_back( [&a, &c, &block, number]() {
                    std::vector<Piece> live;
                    try {
                        for ( uint32_t p : c.plan ) {
                            if ( p % 8 < 5 || live.empty() ) {
                                Piece piece;
                                piece.kind = static_cast<int>( p / 8 % KINDS );
                                const size_t n = ( p >> 8 ) % ( 1u << ( ( p >> 16 ) % 11 ) );
                                piece.bytes = n * SIZE[piece.kind];
                                piece.value = static_cast<uint8_t>( p >> 24 );
                                piece.address = take( a, piece.kind, n );
                                add( live, piece, block );
                            }
                            else {
                                const size_t i = ( p >> 8 ) % live.size();
                                PBT_CHECK( intact( live[i] ), "memory of thread " << number << " lost its contents" );
                                give( a, live[i] );
                                live.erase( live.begin() + static_cast<std::ptrdiff_t>( i ) );
                            }
                        }
                        for ( const Piece & p : live )
                            PBT_CHECK( intact( p ), "memory of thread " << number << " lost its contents" );
                    }
                    catch ( const pbt::Failure & f ) {
                        c.failure = f.message;
                    }
                    catch ( const std::exception & e ) {
                        c.failure = e.what();
                    }
                    for ( const Piece & p : live )
                        give( a, p );
                } );
            }
            for ( std::thread & t : threads )
                t.join();
            for ( const Client & c : clients )
                PBT_CHECK( c.failure.empty(), c.failure );
            wholeBlock( a, block );
        },
        10, true );
}
