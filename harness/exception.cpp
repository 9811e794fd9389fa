/* Error messages: the formatted text arrives whole whatever its length. */
#include <cstdio>
#include <cstdlib>
#include <string>
#include <cstring>
#include <softlib/SOFTLibException.h>
#include <softlib/SFileException.h>
#include <softlib/ConfigurationException.h>
#include "sym.h"

static const unsigned LEN[] = {0, 1, 7, 500, 997, 998, 999, 1000, 1001, 1002, 1500, 2600};
#define NLEN (sizeof(LEN) / sizeof(*LEN))

/* text of n bytes of which several are symbolic (never 0) */
static std::string text(unsigned n) {
    std::string s(n, 'x');
    unsigned at[] = {0, 1, 496, 996, 997, 998, 999, 1000, n - 2, n - 1};
    for (unsigned k : at) if (k < n) {
        char c = (char)sym_u8("c");
        sym_assume(c != 0);
        s[k] = c;
    }
    return s;
}
static void same(const char *w, const std::string &ws, const std::string &want, const char *lab) {
    SYM_ASSERT(ws.size() == want.size(), lab);
    SYM_ASSERT(memcmp(ws.c_str(), want.c_str(), want.size() + 1) == 0, lab);
    SYM_ASSERT(strlen(w) == want.size() && memcmp(w, want.c_str(), want.size()) == 0, lab);
}

extern "C" void h_format() {
    unsigned n = LEN[sym_choice("len", NLEN)];
    std::string s = text(n);
    unsigned kind = sym_choice("kind", 3);
    unsigned long before = sym_live_heap();
    if (kind == 0) {
        SOFTLibException e("%s", s.c_str());
        same(e.what(), e.whats(), s, "formatted message is complete");
    } else if (kind == 1) {
        SFileException e("a%d%s!%.3f", -42, s.c_str(), 1.5);
        same(e.what(), e.whats(), "a-42" + s + "!1.500", "formatted message is complete");
    } else {
        ConfigurationException e((size_t)12, (size_t)7, std::string("f.cfg"), std::string("bad %s%d"), s.c_str(), 3);
        same(e.what(), e.whats(), "f.cfg:12:7: bad " + s + "3", "message carries file, line and column");
        SYM_ASSERT(e.GetLine() == 12 && e.GetCharpos() == 7, "line and column are kept");
    }
    SYM_ASSERT(sym_live_heap() == before, "no memory stays behind");
    sym_reach("end");
}
extern "C" void h_plain() {
    unsigned n = LEN[sym_choice("len", NLEN)];
    std::string s = text(n);           /* may contain % */
    SOFTLibException e(s), d;
    same(e.what(), e.whats(), s, "plain message is kept verbatim");
    SYM_ASSERT(d.whats().empty(), "default message is empty");
    SOFTLibException c(e);
    same(c.what(), c.whats(), s, "copied exception keeps its message");
    try { throw SOFTLibException(s); }
    catch (std::exception &x) { SYM_ASSERT(strlen(x.what()) == n, "message is visible through std::exception"); sym_reach("caught"); }
    sym_reach("end");
}
