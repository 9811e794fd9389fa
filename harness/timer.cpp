/* Timer: elapsed time over start/stop/continue/reset histories. */
#include <softlib/Timer.h>
#include <string>
#include "sym.h"
/* The clock: every reading is a symbolic, nondecreasing number of ns; the
 * harness sees the last reading through vclock_last. */
extern "C" long vclock_last();
extern "C" unsigned long vclock_reads();
#ifdef VERIF_NATIVE
#include <chrono>
static long last_ = 0; static unsigned long reads_ = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    reads_++; last_ = sym_i64("now");
    return system_clock::time_point(system_clock::duration(last_)); }
steady_clock::time_point steady_clock::now() noexcept {
    reads_++; last_ = sym_i64("now");
    return steady_clock::time_point(steady_clock::duration(last_)); }
} } }
extern "C" long vclock_last() { return last_; }
extern "C" unsigned long vclock_reads() { return reads_; }
#endif
#ifndef OPS
#define OPS 4
#endif

/* Any history of Stop / Continue / Reset / query: elapsed time is what the
 * clock says has passed while running. */
extern "C" void h_history() {
    Timer t;
    long acc = 0, start = vclock_last();
    bool running = true;
    for (int i = 0; i < OPS; i++) {
        unsigned op = sym_choice("op", 4);
        if (op == 0) {            /* stop: only meaningful while running */
            if (!running) return;
            t.Stop();
            acc += vclock_last() - start;
            running = false;
        } else if (op == 1) {     /* continue a stopped timer */
            if (running) return;
            t.Continue();
            start = vclock_last();
            running = true;
        } else if (op == 2) {
            t.Reset();
            acc = 0; start = vclock_last(); running = true;
        } else {
            struct Timer::time s = t.GetTimeStruct();
            long want = acc + (running ? vclock_last() - start : 0);
            SYM_ASSERT(s.tp.count() == want / 1000, "elapsed microseconds equal the time spent running");
        }
    }
    struct Timer::time s = t.GetTimeStruct();
    long want = acc + (running ? vclock_last() - start : 0);
    SYM_ASSERT(s.tp.count() >= 0, "elapsed time is never negative");
    SYM_ASSERT(s.tp.count() == want / 1000, "elapsed microseconds equal the time spent running");
    sym_reach("end");
}

/* A stopped timer keeps its reading whatever the clock does. */
extern "C" void h_stopped() {
    Timer t;
    t.Stop();
    double a = t.GetMicroseconds();
    unsigned long r = vclock_reads();
    double b = t.GetMicroseconds();
    double ms = t.GetMilliseconds();
    (void)r;
    SYM_EQ(a, b, "a stopped timer does not advance");
    long us = t.GetTimeStruct().tp.count();
    SYM_EQ(a, (double)us, "GetMicroseconds is the elapsed microseconds");
    SYM_EQ(ms, (double)(us / 1000), "GetMilliseconds is the elapsed whole milliseconds");
    sym_reach("end");
}

extern "C" void h_components() {
    Timer t;
    bool again = sym_choice("again", 2);
    t.Stop();
    if (again) { t.Continue(); t.Stop(); }
    struct Timer::time s = t.GetTimeStruct();
    long us = s.tp.count();
    SYM_ASSERT(us >= 0, "elapsed time is never negative");
    SYM_ASSERT(s.days.count() >= 0, "days not negative");
    SYM_ASSERT(s.hours.count() >= 0 && s.hours.count() < 24, "hours below a day");
    SYM_ASSERT(s.minutes.count() >= 0 && s.minutes.count() < 60, "minutes below an hour");
    SYM_ASSERT(s.seconds.count() >= 0 && s.seconds.count() < 60, "seconds below a minute");
    SYM_ASSERT(s.milliseconds.count() >= 0 && s.milliseconds.count() < 1000, "milliseconds below a second");
    SYM_ASSERT(s.microseconds.count() >= 0 && s.microseconds.count() < 1000, "microseconds below a millisecond");
    long sum = ((((s.days.count() * 24 + s.hours.count()) * 60 + s.minutes.count()) * 60 + s.seconds.count()) * 1000
                + s.milliseconds.count()) * 1000 + s.microseconds.count();
    SYM_ASSERT(sum == us, "components add up to the elapsed time");
    sym_reach("end");
}

/* The text names exactly the components that are positive, in order. */
static std::string num(long v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }
extern "C" void h_text() {
    long v[6] = {0, 23, 7, 59, 120, 5};
    for (int i = 0; i < 6; i++) if (sym_choice("zero", 2)) v[i] = 0;
    if (sym_choice("big", 2)) v[0] = 12;
    struct Timer::time s;
    s.days = std::chrono::hours(v[0]); s.hours = std::chrono::hours(v[1]); s.minutes = std::chrono::minutes(v[2]);
    s.seconds = std::chrono::seconds(v[3]); s.milliseconds = std::chrono::milliseconds(v[4]);
    s.microseconds = std::chrono::microseconds(v[5]);
    std::string out = Timer::ToString(s), want;
    const char *nm[] = {" days, ", " hours, ", " minutes, ", " seconds, ", " milliseconds, "};
    for (int i = 0; i < 5; i++) if (v[i] > 0) want += num(v[i]) + nm[i];
    want += num(v[5]) + " microseconds";
    SYM_ASSERT(out == want, "text lists the positive components");
    sym_reach("end");
}
