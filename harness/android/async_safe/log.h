// Stand-in for bionic's header: the fatal error is reported as in the other builds.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define async_safe_fatal(fmt, s) do { const char *p_ = "fatal allocator error: "; \
    if (write(2, p_, strlen(p_)) < 0 || write(2, (s), strlen(s)) < 0 || write(2, "\n", 1) < 0) {} abort(); } while (0)
