// The other implementation of the stack traces, under another name.
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <obake/stack_trace.hpp>

#define stack_trace_impl vf_backtrace_impl
#include "../src/libbacktrace_stack_trace.cpp"
#undef stack_trace_impl
