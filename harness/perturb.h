// Schedule perturbation: files compiled with -finstrument-functions call the hooks below at every function entry and
// exit (inlined atomic, mutex and container operations included), where a thread sometimes yields, spins or sleeps.
#pragma once
#include <atomic>
#include <cstdint>
#include <sched.h>
#include <unistd.h>

namespace perturb
{
    extern std::atomic<uint32_t> mode; // 0 off, otherwise the chance in 1/65536 per hook
    extern std::atomic<uint64_t> seed;

    struct Scope
    {
        Scope( uint32_t chance, uint64_t value )
        {
            seed = value;
            mode = chance;
        }
        ~Scope()
        {
            mode = 0;
        }
    };
}
