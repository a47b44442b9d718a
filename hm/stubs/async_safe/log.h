/* declaration-only stand-in for bionic's header (see async_safe_fatal there) */
#pragma once
#include <stdlib.h>
void async_safe_fatal_no_abort(const char *fmt, ...);
#define async_safe_fatal(...) do { async_safe_fatal_no_abort(__VA_ARGS__); abort(); } while (0)
