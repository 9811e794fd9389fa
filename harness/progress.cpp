/* Progress reports: when they are printed and what they say. */
#include <softlib/ProgressTracker.h>
#include <string>
#include <chrono>
#include <sstream>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include "sym.h"
#include "clock.h"
#ifndef TOTAL
#define TOTAL 6
#endif
extern "C" long sym_stdout(char *buf, long n);
#ifdef VERIF_NATIVE
static char *mbuf = nullptr; static size_t mlen = 0; static FILE *real_out = nullptr;
extern "C" long sym_stdout(char *buf, long n) {
    fflush(stdout);
    long k = (long)mlen < n - 1 ? (long)mlen : n - 1;
    if (mbuf && k > 0) memcpy(buf, mbuf, k); else k = 0;
    buf[k] = 0;
    if (stdout != real_out) { fclose(stdout); free(mbuf); }
    stdout = real_out;
    return k;
}
static void capture() { real_out = stdout; mbuf = nullptr; mlen = 0; stdout = open_memstream(&mbuf, &mlen); }
#else
static void capture() {}
#endif

static std::string dec(long v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }

/* n steps reported one by one: exactly k lines, numbered in order, spread evenly, the last at the end */
extern "C" void h_schedule() {
    unsigned n = 1 + sym_choice("n", TOTAL), k = 1 + sym_choice("k", TOTAL);
    if (k > n) return;
    bool col = sym_choice("colors", 2);
    ProgressTracker p(n, k, ProgressTracker::PROGRESS_LINES, col, false);
    unsigned lines = 0;
    for (unsigned i = 1; i <= n; i++) {
        char buf[256];
        capture();
        p.PrintProgress(i);
        long len = sym_stdout(buf, sizeof(buf));
        if (len > 0) {
            lines++;
            std::string want = col ? "\x1B[1;32mPROGRESS\x1B[0m (" : "PROGRESS (";
            want += dec(lines) + "/" + dec(k) + ") :: ";
            SYM_ASSERT(std::string(buf).compare(0, want.size(), want) == 0, "reports are numbered in order");
            SYM_ASSERT(std::string(buf).find('\n') == (size_t)len - 1, "one line per report");
        }
        /* report number j is due once j of k equal parts (the first ones rounded up) are done */
        unsigned d = n / k, m = n % k, due;
        if (i >= m * (d + 1)) due = m + (i - m * (d + 1)) / d; else due = i / (d + 1);
        SYM_ASSERT(lines == due, "reports are spread evenly over the steps");
    }
    SYM_ASSERT(lines == k, "the requested number of reports is printed, the last one at the end");
    sym_reach("end");
}

/* the duration in text: components that add up to the duration */
static void text(long long lo, long long hi) {
    ProgressTracker p(1, 1, ProgressTracker::PROGRESS_LINES);
    long ms = sym_zint("ms", lo, hi);
    unsigned tu = 1 + sym_choice("unit", 4);
    std::string s = p.TimeString(ms, false, (ProgressTracker::TimeUnit)tu);
    /* read it back */
    long total = 0; size_t i = 0; int rank = 9; long res = 1;
    while (i < s.size()) {
        /* (a number with a symbolic value is one token: byte 1 and two more) */
        long v = 0; unsigned width = 0;
        while (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 1 || (s[i + 1] >= '0' && s[i + 1] <= '9'))) { width++; i++; }
        SYM_ASSERT(s[i] == 1 || (s[i] >= '0' && s[i] <= '9'), "every unit has a number");
        std::istringstream is(s.substr(i)); is >> v;
        if (s[i] == 1) i += 3; else while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
        width += v < 10 ? 1 : v < 100 ? 2 : 3;
        long f; int r;
        if (s.compare(i, 2, "ms") == 0) { f = 1; r = 1; i += 2; }
        else { SYM_ASSERT(i < s.size() && (s[i] == 'd' || s[i] == 'h' || s[i] == 'm' || s[i] == 's'), "units are d, h, m, s, ms");
            char c = s[i]; i++;
            if (c == 'd') { f = 86400000; r = 5; } else if (c == 'h') { f = 3600000; r = 4; }
            else if (c == 'm') { f = 60000; r = 3; } else { f = 1000; r = 2; } }
        SYM_ASSERT(r < rank, "units come in decreasing order");
        SYM_ASSERT(6 - r >= (int)tu, "no unit is larger than the largest one allowed");
        if (rank < 9) SYM_ASSERT(width == (r == 1 ? 3u : 2u), "smaller units are padded with zeroes");
        rank = r; res = f; total += v * f;
    }
    SYM_ASSERT(res == 1 || res == 1000, "durations are given to the second at least");
    if (res == 1000) SYM_ASSERT(ms >= 10000, "short durations are given to the millisecond");
    SYM_ASSERT(total <= ms && ms - total < res, "the text adds up to the duration");
    sym_reach("end");
}
extern "C" void h_text0() { text(0, 12000); }
extern "C" void h_text1() { text(12000, 400000000); }

/* estimates; the clock stands still while the tracker works and moves in between */
static long tick() { return (long)std::chrono::high_resolution_clock::now().time_since_epoch().count(); }
static void still(long t) { sym_assume(vclock_last() == t); }
extern "C" void h_estimate() {
    long k = 1 + (long)sym_choice("k", 5), i = 1 + (long)sym_choice("i", 5);
    if (i > k) return;
    long t0 = tick();
    ProgressTracker p(20, k, ProgressTracker::PROGRESS_LINES);
    still(t0);
    long t1 = tick(), d1 = (t1 - t0) / 1000000;
    { long v = p.TotalPassedTime(); still(t1); SYM_ASSERT(v == d1, "the total is the time since the start"); }
    { long v = p.DiffPassedTime(); still(t1); SYM_ASSERT(v == d1, "before the first report, the part is the time since the start"); }
    { long v = p.EstimateRemainingTimeAverage(i); still(t1); SYM_ASSERT(v == (k - i) * d1 / i, "the average estimate continues at the mean pace"); }
    { long v = p.EstimateRemainingTimeDeterministic(1); still(t1); SYM_ASSERT(v == (k - 1) * d1, "the first estimate continues at the pace of the first part"); }
    long t2 = tick(), d2 = (t2 - t0) / 1000000;
    if (i >= 2) {
        long r = k - i, w = r * d2;
        if (d2 > d1) w += r * (r + 1) / 2 * (d2 - d1);
        { long v = p.EstimateRemainingTimeDeterministic(i); still(t2); SYM_ASSERT(v == w, "later estimates continue a growing pace"); }
    }
    sym_reach("end");
}

extern "C" void h_parts() {
    long t0 = tick();
    ProgressTracker p(20, 2, ProgressTracker::PROGRESS_LINES, false, sym_choice("estimate", 2));
    still(t0);
    long t2 = tick();
    capture();
    p.PrintProgress(20);
    char buf[512]; long n = sym_stdout(buf, sizeof(buf)); still(t2);
    SYM_ASSERT(n > 0, "the last step reports");
    long t3 = tick();
    { long v = p.DiffPassedTime(); still(t3); SYM_ASSERT(v == (t3 - t2) / 1000000, "a report starts the next part"); }
    { long v = p.TotalPassedTime(); still(t3); SYM_ASSERT(v == (t3 - t0) / 1000000, "a report does not restart the total"); }
    sym_reach("end");
}

/* what a report says: the time passed in all and since the last report and, if asked for, the remaining and the total time */
static std::string plain(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1B') { while (i < s.size() && s[i] != 'm') i++; } else r += s[i]; } return r; }
static bool lit(const std::string &s, size_t &i, const char *t) { size_t n = strlen(t); if (s.compare(i, n, t) != 0) return false; i += n; return true; }
static void duration(const std::string &s, size_t &i, long want, const char *) {
    long total = 0, res = 0;
    while (i < s.size() && (s[i] == 1 || (s[i] >= '0' && s[i] <= '9'))) {
        while (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 1 || (s[i + 1] >= '0' && s[i + 1] <= '9'))) i++;
        long v = 0; std::istringstream is(s.substr(i)); is >> v;
        if (s[i] == 1) i += 3; else while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
        if (lit(s, i, "ms")) { total += v; res = 1; }
        else { bool sec = lit(s, i, "s"); SYM_ASSERT(sec, "short durations are in seconds and milliseconds"); total += 1000 * v; res = 1000; }
    }
    SYM_ASSERT(res > 0, "a report has a duration in each place");
    SYM_ASSERT((total <= want) & (want - total < res), "a report shows the passed, the remaining and the total time in their places");
}
static void report(ProgressTracker &p, unsigned step, unsigned no, unsigned k, bool est, long all, long part, long rest) {
    capture();
    p.PrintProgress(step);
    char buf[512]; long n = sym_stdout(buf, sizeof(buf));
    std::string s = plain(std::string(buf, n)); size_t i = 0;
    SYM_ASSERT(lit(s, i, ("PROGRESS (" + dec(no) + "/" + dec(k) + ") :: ").c_str()), "reports are numbered in order");
    duration(s, i, all, "all"); SYM_ASSERT(lit(s, i, " / "), "a report shows two passed times");
    duration(s, i, part, "part"); SYM_ASSERT(lit(s, i, " passed"), "a report shows two passed times");
    if (est) {
        SYM_ASSERT(lit(s, i, ", "), "a report shows the estimates asked for");
        duration(s, i, rest, "rest"); SYM_ASSERT(lit(s, i, " remaining ("), "a report shows the estimates asked for");
        duration(s, i, rest + all, "total"); SYM_ASSERT(lit(s, i, " total)"), "a report shows the estimates asked for");
    }
    SYM_ASSERT(s.substr(i) == "\n", "a report ends with its line");
}
extern "C" void h_line() {
    bool col = sym_choice("colors", 2), est = sym_choice("estimate", 2);
    long t0 = tick(); sym_assume(t0 == 0); vclock_hold(1);
    ProgressTracker p(3, 3, ProgressTracker::PROGRESS_LINES, col, est);
    vclock_hold(0); long t1 = tick(); vclock_hold(1); long d1 = 1000 + (long)sym_choice("d1", 3) * 251; sym_assume(t1 == d1 * 1000000);
    report(p, 1, 1, 3, est, d1, d1, 2 * d1);
    vclock_hold(0); long t2 = tick(); vclock_hold(1); long d2 = 1100 + (long)sym_choice("d2", 2) * 1400; sym_assume(t2 == (d1 + d2) * 1000000);
    report(p, 2, 2, 3, est, d1 + d2, d2, d2 > d1 ? 2 * d2 - d1 : d2);
    vclock_hold(0);
    sym_reach("end");
}

/* Two threads: at either edge of the critical section the other thread may run a complete call. */
static ProgressTracker *TP = nullptr; static int depth = 0; static long cnt = 0; static long limit = 0; static int switches = 0;
static void other() {
    if (!TP || depth || switches >= 2 || cnt >= limit) return;
    if (!sym_choice("switch", 2)) return;
    switches++;
    depth = 1;
    TP->PrintProgress(++cnt);
    depth = 0;
}
#ifdef VERIF_NATIVE
extern "C" void GOMP_critical_name_start(void **) { other(); }
extern "C" void GOMP_critical_name_end(void **) { other(); }
#else
extern "C" void __kmpc_critical(void *, int, void *) { other(); }
extern "C" void __kmpc_end_critical(void *, int, void *) { other(); }
#endif
extern "C" void h_threads() {
    unsigned n = 3 + sym_choice("n", 3), k = 2 + sym_choice("k", 3);
    if (k > n) return;
    ProgressTracker p(n, k, ProgressTracker::PROGRESS_LINES);
    TP = &p; cnt = 0; switches = 0; limit = n;
    capture();
    while (cnt < (long)n) p.PrintProgress(++cnt);
    TP = nullptr;
    static char buf[4096]; long len = sym_stdout(buf, sizeof(buf));
    bool seen[8] = {false}; unsigned lines = 0;
    std::string all(buf, len);
    size_t q = 0;
    while ((q = all.find("PROGRESS (", q)) != std::string::npos) {
        char c = all[q + 10];
        SYM_ASSERT(c >= '1' && c <= (char)('0' + k), "report numbers are from 1 to the number of reports");
        SYM_ASSERT(!seen[c - '0'], "no report number is printed twice");
        seen[c - '0'] = true; lines++; q++;
    }
    for (unsigned i = 1; i <= lines; i++) SYM_ASSERT(seen[i], "no report number is left out");
    sym_reach("end");
}
