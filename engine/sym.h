// Harness-side API.  The same harness source is compiled three ways:
//  - instrumented (SYM_ENGINE): symbolic exploration
//  - replay (plain build of /repo's sources, optionally ASan): inputs come from a file
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <map>
#include <string>
extern "C" {
void symrt_input(void* p, size_t n);
void symrt_assume(int c);
void symrt_check(int c, const char* msg);
uint64_t symrt_enum(uint64_t v, int cap);
void symrt_reach(const char* name);
void symrt_pause(int on);
void symrt_fail(const char* msg);
int symrt_active();
int symrt_is_symbolic(const void*, size_t);
int symrt_main(int, char**, void (*)(), void (*)(const char*));
}
namespace sym {
template <class T> inline T any() { T v; symrt_input(&v, sizeof v); return v; }
inline void bytes(void* p, size_t n) { symrt_input(p, n); }
inline void assume(bool c) { symrt_assume(c); }
inline void check(bool c, const char* msg) { symrt_check(c, msg); }
inline void reach(const char* n) { symrt_reach(n); }
inline void fail(const char* m) { symrt_fail(m); }
// a value in [lo,hi], explored for every value (concrete on each path)
inline int choice(int lo, int hi) {
    uint8_t b = any<uint8_t>();
    assume(b <= (unsigned)(hi - lo));
    return lo + (int)symrt_enum(b, 300);
}
inline bool flag() { return choice(0, 1) != 0; }
struct Case {
    using Fn = void (*)();
    static std::map<std::string, Fn>& all() { static std::map<std::string, Fn> m; return m; }
    Case(const char* n, Fn f) { all()[n] = f; }
};
}
#define SYM_CASE(name) static void name(); static sym::Case case_##name(#name, name); static void name()
