// A stand-in for the X server: keeps windows, their pixels and events; what is not allowed is recorded as a fault
#pragma once
#include <cstdint>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <X11/Xlib.h>
#include <X11/Xutil.h>

namespace xserver
{
    struct WindowState
    {
        uint32_t w = 0, h = 0;
        bool mapped = false;
        long events = 0;
        std::string title;
        std::vector<Atom> protocols;
        std::vector<uint32_t> pixels; // red << 16 | green << 8 | blue
    };

    struct State
    {
        bool unavailable = false;               // XOpenDisplay fails
        std::map<Window, WindowState> windows;
        std::deque<XEvent> events;
        size_t displays = 0, images = 0, contexts = 0, puts = 0, waits = 0;
        std::vector<std::string> faults;
        // when the program waits for an event and there is none
        bool exhausted = false;
    };

    State & state();
    void reset();
    Atom deleteWindow();

    struct Exhausted
    {};
}
