#include "oracle.h"
#include <gul14/bit_manip.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
template <class T> static void ck(uint64_t v64, unsigned b, const char* n) {
    using U = std::make_unsigned_t<T>; T v = static_cast<T>(v64); U u = static_cast<U>(v);
    if (b >= sizeof(T) * 8) return;
    std::string s = std::string("<") + n + "> v=" + std::to_string(v64) + " bit=" + std::to_string(b);
    U one = static_cast<U>(U(1) << b);
    expect(static_cast<U>(gul14::bit_set<T>(b)) == one, "bit_set(bit)" + s);
    expect(static_cast<U>(gul14::bit_set(v, b)) == static_cast<U>(u | one), "bit_set" + s);
    expect(static_cast<U>(gul14::bit_reset(v, b)) == static_cast<U>(u & static_cast<U>(~one)), "bit_reset" + s);
    expect(static_cast<U>(gul14::bit_flip(v, b)) == static_cast<U>(u ^ one), "bit_flip" + s);
    expect(gul14::bit_test(v, b) == (((u >> b) & 1) == 1), "bit_test" + s);
}
template <class F> static bool aborts(F f) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { signal(SIGABRT, SIG_DFL); close(1); close(2); volatile auto x = f(); (void)x; _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
static void out_of_range() {
    static bool done = false; if (done) return; done = true;
#define A(T) { unsigned bs[] = {8 * sizeof(T), 8 * sizeof(T) + 1, 128, 0x80000000u, 0xffffffffu}; for (unsigned b : bs) { if (b < 8 * sizeof(T)) continue; \
    std::string s = std::string(" does not abort for <" #T "> bit=") + std::to_string(b); \
    expect(aborts([&] { return gul14::bit_set<T>(b); }), "bit_set(bit)" + s); expect(aborts([&] { return gul14::bit_set(T(1), b); }), "bit_set" + s); \
    expect(aborts([&] { return gul14::bit_reset(T(1), b); }), "bit_reset" + s); expect(aborts([&] { return gul14::bit_flip(T(1), b); }), "bit_flip" + s); \
    expect(aborts([&] { return gul14::bit_test(T(1), b); }), "bit_test" + s); } }
    A(int8_t) A(int16_t) A(int32_t) A(int64_t) A(uint8_t) A(uint16_t) A(uint32_t) A(uint64_t)
}
void one(Src& r) {
    if (r.en) out_of_range();
    uint64_t v = r.num64(); unsigned b = r.pick(64);
    ck<int8_t>(v, b, "int8_t"); ck<int16_t>(v, b, "int16_t"); ck<int32_t>(v, b, "int32_t"); ck<int64_t>(v, b, "int64_t");
    ck<uint8_t>(v, b, "uint8_t"); ck<uint16_t>(v, b, "uint16_t"); ck<uint32_t>(v, b, "uint32_t"); ck<uint64_t>(v, b, "uint64_t");
    expect(gul14::is_little_endian() && !gul14::is_big_endian(), "endianness");
}
