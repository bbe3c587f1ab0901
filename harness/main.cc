#include <cstdio>
#include <cstdlib>
#include <exception>
#include <unistd.h>
#include "sym.h"
#include "eckit/runtime/Main.h"
#include "eckit/exception/Exceptions.h"
#include "common.h"

namespace hs { void warmup() __attribute__((weak)); }

static void init() {
    setenv("ECKIT_EXCEPTION_DUMPS_BACKTRACE", "0", 1);
    setenv("ECKIT_ASSERT_ABORTS", "0", 1);
    setenv("TERM", "dumb", 1);
    static const char* av[] = {"odc-verif", 0};
    if (!eckit::Main::ready()) eckit::Main::initialise(1, const_cast<char**>(av));
    if (&hs::warmup) hs::warmup();
}

static void run(const char* name) {
    auto it = sym::Case::all().find(name);
    if (it == sym::Case::all().end()) { fprintf(stderr, "no case %s\n", name); _exit(2); }
    try {
        it->second();
    }
    catch (std::exception& e) {
        static std::string m;
        m = std::string("unexpected exception escaped: ") + e.what();
        sym::fail(m.c_str());
    }
    catch (...) {
        sym::fail("unexpected non-standard exception escaped");
    }
}

int main(int argc, char** argv) { return symrt_main(argc, argv, init, run); }
