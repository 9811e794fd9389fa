/* The clock: every reading is a symbolic, nondecreasing number of ns. */
extern "C" long vclock_last();
extern "C" unsigned long vclock_reads();
extern "C" void vclock_hold(int); /* the clock stands still */
#ifdef VERIF_NATIVE
#include <chrono>
static bool held_ = false; extern "C" void vclock_hold(int h) { held_ = h; }
static long last_ = 0; static unsigned long reads_ = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    if (!held_) { reads_++; last_ = sym_i64("now"); }
    return system_clock::time_point(system_clock::duration(last_)); }
steady_clock::time_point steady_clock::now() noexcept {
    if (!held_) { reads_++; last_ = sym_i64("now"); }
    return steady_clock::time_point(steady_clock::duration(last_)); }
} } }
extern "C" long vclock_last() { return last_; }
extern "C" unsigned long vclock_reads() { return reads_; }
#endif
