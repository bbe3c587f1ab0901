// Concrete counterparts of the engine primitives: the inputs come from a replay file.
//   exe --case NAME --input HEX
// exit 0: property held, 1: violated (line "REPLAY-VIOLATION <msg>"), 3: an assumption is not met by this input,
// 4: more input requested than supplied.  A crash or sanitizer report shows as a signal / exit 66.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <vector>
static std::vector<uint8_t> in_;
static size_t pos_ = 0;
extern "C" {
void symrt_input(void* p, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = pos_ < in_.size() ? in_[pos_++] : 0;
}
static void out(const char* a, const char* b) { fflush(0); fprintf(stderr, "%s %s\n", a, b); fflush(stderr); }
void symrt_assume(int c) { if (!c) { out("REPLAY-ASSUME", "assumption not met"); _exit(3); } }
void symrt_check(int c, const char* m) { if (!c) { out("REPLAY-VIOLATION", m); _exit(1); } }
void symrt_fail(const char* m) { symrt_check(0, m); }
uint64_t symrt_enum(uint64_t v, int) { return v; }
void symrt_reach(const char* n) { out("REPLAY-REACH", n); }
void symrt_pause(int) {}
int symrt_active() { return 0; }
int symrt_is_symbolic(const void*, size_t) { return 0; }
int symrt_main(int argc, char** argv, void (*init)(), void (*run)(const char*)) {
    std::string name, hex;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--case") name = argv[i + 1];
        if (a == "--input") hex = argv[i + 1];
    }
    for (size_t i = 0; i + 1 < hex.size(); i += 2) in_.push_back((uint8_t)strtoul(hex.substr(i, 2).c_str(), 0, 16));
    init();
    pos_ = 0;
    alarm(60);
    run(name.c_str());
    out("REPLAY-OK", name.c_str());
    fflush(0);
    _exit(0);
}
}
