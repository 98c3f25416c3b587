// assert() as a monitor: a failed assertion is thrown to the driver, which reports it
#include <stdexcept>
#include <string>
#ifndef MINI_ASSERT_H
#define MINI_ASSERT_H
struct MiniAssert : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] inline void mini_assert_fail(const char* x, const char* f, int l) { throw MiniAssert(std::string("assertion ") + x + " fails at " + f + ":" + std::to_string(l)); }
#endif
#undef assert
#define assert(x) ((x) ? (void)0 : mini_assert_fail(#x, __FILE__, __LINE__))
