#include "perturb.h"

#define HIDDEN __attribute__( ( no_instrument_function ) )

namespace perturb
{
    std::atomic<uint32_t> mode( 0 );
    std::atomic<uint64_t> seed( 0 );
    static std::atomic<uint64_t> threads( 0 );
    static thread_local uint64_t state = 0;
    static thread_local uint64_t stateSeed = 0;
    static thread_local bool inside = false;

    HIDDEN static void step()
    {
        const uint32_t chance = mode.load( std::memory_order_relaxed );
        if ( chance == 0 || inside )
            return;
        inside = true;
        const uint64_t s = seed.load( std::memory_order_relaxed );
        if ( state == 0 || stateSeed != s ) {
            stateSeed = s;
            state = ( s ^ ( ++threads * 0x9E3779B97F4A7C15ull ) ) | 1;
        }
        state ^= state << 13;
        state ^= state >> 7;
        state ^= state << 17;
        if ( ( state & 0xFFFF ) < chance ) {
            const uint32_t kind = ( state >> 20 ) & 15;
            if ( kind < 8 )
                sched_yield();
            else if ( kind < 12 ) {
                for ( volatile uint32_t i = 0; i < ( ( state >> 24 ) & 1023 ); ++i )
                    ;
            }
            else
                usleep( static_cast<useconds_t>( ( state >> 24 ) & 127 ) );
        }
        inside = false;
    }
}

extern "C" HIDDEN void __cyg_profile_func_enter( void *, void * )
{
    perturb::step();
}

extern "C" HIDDEN void __cyg_profile_func_exit( void *, void * )
{
    perturb::step();
}
