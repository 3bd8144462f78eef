// force-included when /repo's sources are compiled for a harness:
// exit() becomes an exception, so a rejected input does not end the harness
#pragma once
#include <cstdlib>
#include <stdlib.h>
#include <stdexcept>
#include <string>
#include <array>
#include <algorithm>
namespace vt { struct Exit { int code; }; }
[[noreturn]] inline void vt_exit(int c) { throw vt::Exit{c}; }
namespace std { [[noreturn]] inline void vt_exit(int c) { throw vt::Exit{c}; } }
#define exit(x) vt_exit(x)
