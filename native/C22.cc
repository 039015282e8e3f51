// LINK: Trigger.cc
#include "oracle.h"
#include <thread>
#include <atomic>
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
using namespace std::chrono;
void one(Src& r) {
    gul14::Trigger t; bool s = false; expect(!t, "new trigger is low");
    size_t n = r.en ? 3 : r.pick(8); std::string h;
    for (size_t i = 0; i < n; ++i) {
        size_t op = r.pick(8); h += std::to_string(op); case_is("ops=" + h);
        switch (op) {
            case 0: t.trigger(); s = true; break;
            case 1: t.reset(); s = false; break;
            case 2: { auto& q = (t = true); s = true; expect(&q == &t, "= returns *this"); break; }
            case 3: t = false; s = false; break;
            case 4: expect_eq(t.wait_for(nanoseconds(r.pick(3))), s, "wait_for"); break;
            case 5: expect_eq(t.wait_until(system_clock::now() - seconds(1)), s, "wait_until"); break;
            case 6: expect_eq(gul14::sleep(nanoseconds(10), t), !s, "sleep"); if (s) { expect(!gul14::sleep(1000.0, t), "sleep returns at once"); t.wait(); } break;
            default: if (r.en ? i == 2 : r.pick(4) == 0) {
                t.reset(); std::atomic<int> done{0}; std::thread a([&] { t.wait(); ++done; }), b([&] { if (t.wait_for(seconds(1000))) ++done; }), c([&] { if (t.wait_until(steady_clock::now() + seconds(1000))) ++done; });
                std::this_thread::sleep_for(microseconds(100)); expect(done == 0, "wait returned although the trigger is low");
                if (r.flag()) t.trigger(); else t = true;
                s = true; a.join(); b.join(); c.join(); expect(done == 3, "a waiting thread was not told the trigger is high");
            }
        }
        expect_eq(static_cast<bool>(t), s, "state");
    }
    if (r.pick(32) == 0) { auto t0 = steady_clock::now(); t.reset(); expect(!t.wait_for(milliseconds(2)), "wait_for low"); expect(steady_clock::now() - t0 >= milliseconds(2), "wait_for gave up early"); }
}
