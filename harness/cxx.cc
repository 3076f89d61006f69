// C++ side of the driver: every form of operator new and delete, new-handlers that follow a script.
#include <new>
#include <cstddef>
#include <cstring>
#include <exception>
extern "C" {
#include "rt.h"
}
struct derived : std::bad_alloc {};
static const char *script; static int pos, avail_at, avail, calls;
static void h1(), h2();
static int installed() { auto h = std::get_new_handler(); return h == h1 ? 1 : h == h2 ? 2 : 0; }
static void common(int i) {
    obs++;
    calls++;
    char a = script[pos] && script[pos] != '-' ? script[pos++] : 'o';
    if (calls > 12) a = 'x';
    if (avail_at && calls == avail_at) { avail = 1; fault_set(0, 0, 0, 0); }
    if (a == 's') std::set_new_handler(installed() == 1 ? h2 : h1);
    if (a == 'o') std::set_new_handler(nullptr);
    lg("{\"e\":\"hnd\",\"i\":%d,\"cur\":%d,\"avail\":%d,\"thrown\":%d}\n", i, installed(), avail, a == 'b' || a == 'd' ? 1 : a == 'x' ? 2 : 0);
    obs--;
    if (a == 'b') throw std::bad_alloc();
    if (a == 'd') throw derived();
    if (a == 'x') throw 42;
}
static void h1() { common(1); }
static void h2() { common(2); }

extern "C" void *cxx_new(int form, size_t size, size_t al, int handler, int at, const char *sc, int never, int *out) {
    // form: 1 nothrow, 2 array, 4 aligned; at: handler call that makes memory available, -1 at once, 0 never
    script = sc; pos = 0; calls = 0; avail_at = at > 0 && !never ? at : 0; avail = at < 0 && !never;
    std::set_new_handler(handler == 1 ? h1 : handler == 2 ? h2 : nullptr);
    lg("{\"e\":\"nwb\",\"nothrow\":%d,\"cur\":%d,\"avail\":%d}\n", form & 1, handler, avail);
    if (!avail && !never) fault_set(63, 0, -1, 12);
    void *p = nullptr;
    std::align_val_t av = (std::align_val_t)al;
    *out = 0;
    op_begin_step();
    try {
        switch (form & 7) {
        case 0: p = ::operator new(size); break;
        case 1: p = ::operator new(size, std::nothrow); break;
        case 2: p = ::operator new[](size); break;
        case 3: p = ::operator new[](size, std::nothrow); break;
        case 4: p = ::operator new(size, av); break;
        case 5: p = ::operator new(size, av, std::nothrow); break;
        case 6: p = ::operator new[](size, av); break;
        case 7: p = ::operator new[](size, av, std::nothrow); break;
        }
        *out = p ? 0 : 1;
    } catch (const std::bad_alloc &) { *out = 2; }
    catch (...) { *out = 3; }
    op_end_step();
    fault_set(0, 0, 0, 0);
    std::set_new_handler(nullptr);
    return p;
}
extern "C" void cxx_delete(int form, void *p, size_t size, size_t al) {
    // form: 0 plain, 1 nothrow, 2 sized; 4 array; 8 aligned
    std::align_val_t av = (std::align_val_t)al;
    switch (form) {
    case 0: ::operator delete(p); break;
    case 1: ::operator delete(p, std::nothrow); break;
    case 2: ::operator delete(p, size); break;
    case 4: ::operator delete[](p); break;
    case 5: ::operator delete[](p, std::nothrow); break;
    case 6: ::operator delete[](p, size); break;
    case 8: ::operator delete(p, av); break;
    case 9: ::operator delete(p, av, std::nothrow); break;
    case 10: ::operator delete(p, size, av); break;
    case 12: ::operator delete[](p, av); break;
    case 13: ::operator delete[](p, av, std::nothrow); break;
    case 14: ::operator delete[](p, size, av); break;
    }
}
