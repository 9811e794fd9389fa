/* Configuration scripts: reading, robustness, the block tree, typed access. */
#include <cstdint>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/SOFTLibException.h>
#include "sym.h"
#ifndef NB
#define NB 3
#endif
#ifndef NPOST
#define NPOST 3
#endif
#ifndef LEN
#define LEN 3
#endif
using std::string; using std::vector;
#ifdef VERIF_SYMBOLIC
static void put_file(const char *name, const string &text) { *std::verif_file(name) = text; }
static void put_stdin(string *text) { std::cin.v_buf.s = text; std::cin.v_buf.gpos = 0; std::cin.clear(); }
#else
static void put_file(const char *name, const string &text) { std::ofstream f(name); f << text; }
static void put_stdin(string *text) { static std::stringbuf b; b.str(*text); std::cin.rdbuf(&b); std::cin.clear(); }
#endif

/* ------------------------------------------------ pieces of documents */
static bool special(unsigned char c) {
    switch (c) { case 0: case '#': case '\n': case ' ': case '\t': case '"': case '<': case '>': case '=': case '(': case ')': case '{': case '}': case ';': case ',': return true; }
    return false;
}
/* a byte that may stand in a bare word */
static char wordc(const char *n) { unsigned char c = sym_u8(n); sym_assume(!special(c)); return (char)c; }
/* a byte that may stand in quotes */
static char quotc(const char *n) { unsigned char c = sym_u8(n); sym_assume(c != 0 && c != '"'); return (char)c; }
static string word(const char *n, unsigned l) { string s; for (unsigned i = 0; i < l; i++) s += wordc(n); return s; }
static string quoted(const char *n, unsigned l) { string s; for (unsigned i = 0; i < l; i++) s += quotc(n); return s; }
/* gaps between tokens: white space or a comment */
static string gap(unsigned kind) {
    if (kind == 0) return " ";
    if (kind == 1) return "";
    string s;
    if (kind == 2) for (int i = 0; i < 2; i++) { unsigned char c = sym_u8("ws"); sym_assume(c == ' ' || c == '\t' || c == '\n'); s += (char)c; }
    else { s = "#"; for (int i = 0; i < 2; i++) { unsigned char c = sym_u8("cmt"); sym_assume(c != 0 && c != '\n'); s += (char)c; } s += "\n"; }
    return s;
}
struct Conf : public ConfigurationScript {
    confblock_t T, U;
    Conf() { T = RegisterBlockType("T"); U = RegisterBlockType("U"); }
};
/* not the name of a block type */
static void plain(const string &s) { if (s.size() == 1) sym_assume(s[0] != 'T' && s[0] != 'U'); }

/* every block below b has its parent above it, and the root has none */
static void sound(ConfigBlock *b, ConfigBlock *parent) {
    SYM_ASSERT(b->GetParent() == parent, "every block knows the block that contains it");
    vector<ConfigBlock*> s = b->GetAllSubBlocks();
    SYM_ASSERT(b->HasSubBlocks() == (s.size() > 0), "sub-blocks are reported when there are any");
    for (ConfigBlock *c : s) sound(c, b);
}
static Setting *only(ConfigBlock *b) {
    SYM_ASSERT(b != nullptr, "reading gives a root block");
    vector<Setting*> v = b->GetAllSettings();
    SYM_ASSERT(v.size() == 1, "a statement gives one setting");
    return v[0];
}
static void has(Setting *s, const string &name, const vector<string> &vals) {
    SYM_ASSERT(s->GetName() == name && s->HasName(name), "the setting has the name in the document");
    SYM_ASSERT(s->GetNumberOfValues() == vals.size(), "the setting has as many values as the document");
    vector<string> t = s->GetTextVector();
    SYM_ASSERT(t.size() == vals.size(), "the setting has as many values as the document");
    for (unsigned i = 0; i < vals.size(); i++) {
        SYM_ASSERT(t[i] == vals[i], "values read back exactly as written");
        SYM_ASSERT(s->GetString(i) == vals[i], "values read back exactly as written");
    }
}

/* ------------------------------------------------ P01 */
/* one statement: any name, any values, bare or quoted, any spacing */
extern "C" void h_setting() {
    string name = word("name", 1 + sym_choice("nl", 2)); plain(name);
    unsigned n = 1 + sym_choice("nv", 2);
    vector<string> vals; vector<string> text;
    for (unsigned i = 0; i < n; i++) {
        unsigned q = sym_choice("quote", 2);
        unsigned l = (q ? 0 : 1) + sym_choice("vl", 2);
        string v = q ? quoted("q", l) : word("v", l);
        vals.push_back(v); text.push_back(q ? "\"" + v + "\"" : v);
    }
    unsigned sep = sym_choice("sep", 3);
    string d = name + " = " + text[0];
    for (unsigned i = 1; i < n; i++) d += (sep == 0 ? " " : sep == 1 ? "," : " , ") + text[i];
    d += ";";
    Conf c; ConfigBlock *r = c.FromString(d);
    SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
    SYM_ASSERT(r == c.GetRootBlock(), "the result is the root block");
    has(only(r), name, vals);
    sound(r, nullptr);
    sym_reach("end");
}
/* white space and comments between tokens do not matter */
extern "C" void h_gaps() {
    unsigned at = sym_choice("at", 9), kind = 1 + sym_choice("kind", 3);
    /* a word needs something between itself and the next one */
    bool words[9] = {false, false, false, true, false, false, true, false, false};
    sym_assume(!(kind == 1 && words[at]));
    string g[9]; for (unsigned i = 0; i < 9; i++) g[i] = i == at ? gap(kind) : string(" ");
    /* a comment ends with its line, so it separates words too */
    string d = g[0] + "n" + g[1] + "=" + g[2] + "v" + g[3] + "w" + g[4] + ";" + g[5] + "T" + g[6] + "b" + g[7] + "{ m = x; }" + g[8];
    Conf c; ConfigBlock *r = c.FromString(d);
    SYM_ASSERT(!c.HasError(), "white space and comments are accepted between tokens");
    has(only(r), "n", {"v", "w"});
    SYM_ASSERT(r->GetAllSubBlocks().size() == 1 && r->HasSubBlock(c.T, "b"), "white space and comments do not change the blocks");
    has(only(r->GetConfigBlock(c.T, "b")), "m", {"x"});
    sym_reach("end");
}
/* comment on the last line, without a newline */
extern "C" void h_lastcomment() {
    string d = "a = 1;#"; unsigned n = sym_choice("n", 3);
    for (unsigned i = 0; i < n; i++) { unsigned char c = sym_u8("c"); sym_assume(c != 0 && c != '\n'); d += (char)c; }
    Conf c; ConfigBlock *r = c.FromString(d);
    SYM_ASSERT(!c.HasError(), "a comment may end the document");
    has(only(r), "a", {"1"});
    sym_reach("end");
}
/* a reference tree */
struct Ref { confblock_t t; string name, sec; vector<std::pair<string,string>> set; vector<Ref*> sub; };
static void rset(Ref *b, const string &n, const string &v) { for (auto &p : b->set) if (p.first == n) { p.second = v; return; } b->set.push_back({n, v}); }
static Ref *rsub(Ref *b, confblock_t t, const string &n, const string &sec) {
    for (Ref *s : b->sub) if (s->t == t && s->name == n) return s;
    Ref *r = new Ref(); r->t = t; r->name = n; r->sec = sec; b->sub.push_back(r); return r;
}
static void same(ConfigBlock *b, Ref *r) {
    vector<Setting*> s = b->GetAllSettings(); vector<ConfigBlock*> k = b->GetAllSubBlocks();
    SYM_ASSERT(s.size() == r->set.size(), "each block has exactly the settings of the document");
    SYM_ASSERT(k.size() == r->sub.size(), "each block has exactly the blocks of the document");
    for (unsigned i = 0; i < s.size(); i++) { SYM_ASSERT(s[i]->GetName() == r->set[i].first, "settings keep their order and names"); SYM_ASSERT(s[i]->GetNumberOfValues() == 1 && s[i]->GetString() == r->set[i].second, "the last assignment to a name counts"); }
    for (unsigned i = 0; i < k.size(); i++) {
        SYM_ASSERT(k[i]->GetType() == r->sub[i]->t && k[i]->GetName() == r->sub[i]->name, "blocks keep their type, name and order");
        SYM_ASSERT(k[i]->GetSecondaryType() == (r->sub[i]->sec.empty() ? r->sub[i]->name : r->sub[i]->sec), "blocks keep their secondary type");
        same(k[i], r->sub[i]);
    }
}
static string letter(const char *n) { unsigned char c = sym_u8(n); sym_assume((c >= 'a') & (c <= 'z')); return string(1, (char)c); }
/* one block: any name, any secondary type, bare or quoted */
extern "C" void h_blockname() {
    bool q = sym_choice("quote", 2), sec = sym_choice("secondary", 2);
    string n = q ? quoted("n", sym_choice("nl", 2)) : word("n", 1 + sym_choice("nl", 2)), k = sec ? word("k", 1) : string(); plain(k);
    Conf c; ConfigBlock *r = c.FromString(string("T ") + (q ? string("\"") + n + "\"" : n) + (sec ? string(" (") + k + ")" : string()) + " {m=x;} z=1;");
    SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
    vector<ConfigBlock*> v = r->GetAllSubBlocks();
    SYM_ASSERT(v.size() == 1 && r->HasSubBlock(c.T, n) && r->GetConfigBlock(c.T, n) == v[0], "a block may have any name");
    SYM_ASSERT(v[0]->GetType() == c.T && v[0]->GetName() == n, "blocks keep their type and name");
    SYM_ASSERT(v[0]->GetSecondaryType() == (sec ? k : n), "blocks keep their secondary type");
    has(only(v[0]), "m", {"x"}); has(only(r), "z", {"1"}); sound(r, nullptr);
    sym_reach("end");
}
/* nested and reopened blocks, repeated names: every coincidence of names */
extern "C" void h_tree() {
    string s[4], b[3];
    /* (letters, whose coincidences matter here; other bytes: h_setting, h_blockname) */
    for (auto &x : s) x = letter("s");
    for (auto &x : b) x = letter("b");
    bool second = sym_choice("secondary", 2), ty = sym_choice("type", 2);
    Conf c;
    string k = second ? " (kk) " : " ", tt = ty ? "T" : "U";
    string d = s[0] + "=1; T " + b[0] + k + "{" + s[1] + "=2; U " + b[1] + "{" + s[1] + "=3;}" + s[2] + "=4;} " + tt + " " + b[2] + "{" + s[2] + "=5;" + s[3] + "=6;} " + s[3] + "=7;";
    ConfigBlock *r = c.FromString(d, "file");
    SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
    Ref *R = new Ref(), *p;
    rset(R, s[0], "1"); p = rsub(R, c.T, b[0], second ? "kk" : ""); rset(p, s[1], "2"); rset(rsub(p, c.U, b[1], ""), s[1], "3"); rset(p, s[2], "4");
    p = rsub(R, ty ? c.T : c.U, b[2], ""); rset(p, s[2], "5"); rset(p, s[3], "6"); rset(R, s[3], "7");
    same(r, R); sound(r, nullptr);
    SYM_ASSERT((*r)[s[3]] == "7", "the value of a setting can be looked up by name");
    sym_reach("end");
}
/* a value that looks like a block type, a name or a number is still a value */
extern "C" void h_valuelike() {
    unsigned k = sym_choice("k", 4); static const char *V[4] = {"T", "a", "/root", "1"};
    Conf c; ConfigBlock *r = c.FromString(string("a = ") + V[k] + " U " + V[k] + "; T " + V[k] + " { b = 2; }");
    SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
    has(only(r), "a", {V[k], "U", V[k]});
    SYM_ASSERT(r->HasSubBlock(c.T, V[k]), "a block may have any name");
    sym_reach("end");
}
/* quoted words may hold anything, also what is punctuation outside quotes */
extern "C" void h_quoted() {
    unsigned l = sym_choice("l", 3); string v = quoted("q", l);
    bool name = sym_choice("name", 2);
    Conf c; ConfigBlock *r;
    if (name) { sym_assume(l > 0 && !(l == 1 && (v[0] == 'T' || v[0] == 'U'))); r = c.FromString("\"" + v + "\"=z;"); }
    else r = c.FromString("a=\"" + v + "\";");
    SYM_ASSERT(!c.HasError(), "quoted text may contain anything");
    if (name) has(only(r), v, {"z"}); else has(only(r), "a", {v});
    sym_reach("end");
}
/* included files stand where they are included */
extern "C" void h_include() {
    string x = word("x", 1), y = word("y", 1); plain(x); plain(y);
    unsigned where = sym_choice("where", 3);
    string inc = x + "=2;" + (sym_choice("nl", 2) ? "\n" : "");
    put_file("inc.cfg", inc);
    Conf c; ConfigBlock *r = c.FromString(where == 0 ? "<inc.cfg> " + y + "=1;" : where == 1 ? y + "=1; <inc.cfg>" : "T b { <inc.cfg> } " + y + "=1;");
    SYM_ASSERT(!c.HasError(), "files can be included");
    { /* what follows the included file is still read, however short the latter is */
        Conf d; ConfigBlock *m = d.FromString("first=1 2;<inc.cfg>" + y + "=\"a longer text than the one included\"; last = 7;"); SYM_ASSERT(!d.HasError(), "files can be included");
        SYM_ASSERT(m->GetSetting(y)->GetString() == "a longer text than the one included" && m->GetSetting("first")->GetNumberOfValues() == 2, "what surrounds an included file is read");
        SYM_ASSERT(m->HasSetting("last") && m->GetSetting("last")->GetString() == "7", "what follows an included file is read");
    }
    Ref *R = new Ref();
    if (where == 0) { rset(R, x, "2"); rset(R, y, "1"); }
    else if (where == 1) { rset(R, y, "1"); rset(R, x, "2"); }
    else { rset(rsub(R, c.T, "b", ""), x, "2"); rset(R, y, "1"); }
    same(r, R); sound(r, nullptr);
    bool refused = false;
    Conf e; try { e.FromString("a=1; <nosuchfile.cfg> b=2;"); } catch (ConfigurationException &) { refused = true; }
    SYM_ASSERT(refused || e.HasError(), "an included file that does not exist is an error");
    sym_reach("end");
}
/* reading from a file or from standard input is reading its contents */
extern "C" void h_file() {
    string v = word("v", 2);
    put_file("doc.cfg", "a=" + v + ";\n");
    Conf c; c.FromFile("doc.cfg");
    SYM_ASSERT(!c.HasError(), "files are read");
    has(only(c.GetRootBlock()), "a", {v});
    SYM_ASSERT(c.GetFilename() == "doc.cfg", "the name of the file is kept");
    bool again = false, missing = false;
    try { c.FromFile("doc.cfg"); } catch (ConfigurationException &) { again = true; }
    SYM_ASSERT(again, "a second file is refused");
    Conf e; try { e.FromFile("nosuchfile.cfg"); } catch (ConfigurationException &) { missing = true; }
    SYM_ASSERT(missing, "a missing file is refused");
    sym_reach("end");
}
extern "C" void h_stdin() {
    static const unsigned L[5] = {5, 999, 1000, 1001, 2000};
    unsigned len = L[sym_choice("len", 5)];
    string v = word("v", 2), d = "a=" + v + ";";
    while (d.size() < len - 4) d += ' ';
    if (len > 10) { d.resize(len - 4); d += "b=2;"; }
    put_stdin(&d);
    Conf c; c.FromStdin();
    SYM_ASSERT(!c.HasError(), "standard input is read");
    ConfigBlock *r = c.GetRootBlock();
    SYM_ASSERT((*r)["a"] == v, "standard input is read whole");
    if (len > 10) SYM_ASSERT((*r)["b"] == "2", "standard input is read whole");
    sym_reach("end");
}

/* ------------------------------------------------ P02 */
static const char *PRE[6] = {"", "a=1;", "a=", "T b {", "a", "T b { c=1;"};
static const char *POST[3] = {"", ";", "}"};
static void bytes(unsigned pre, const char *post) {
    string d = PRE[pre];
    for (unsigned i = 0; i < NB; i++) d += (char)sym_u8("c");
    d += post;
    Conf c; ConfigBlock *r = nullptr;
    try { r = c.FromString(d); } catch (ConfigurationException &) { sym_reach("refused"); return; }
    SYM_ASSERT(r != nullptr, "reading gives a root block or an exception");
    sound(r, nullptr);
    if (pre == 1 || (pre == 0 && !c.HasError())) sym_reach("read");
    if (pre == 1 && !c.HasError()) {
        /* the statement read before anything else is there, unless assigned anew */
        Setting *s = r->GetSetting("a");
        SYM_ASSERT(s != nullptr, "earlier statements stay");
    }
}
extern "C" void h_bytes() { bytes(sym_choice("pre", 6), POST[sym_choice("post", NPOST)]); }
/* one token left out */
extern "C" void h_malformed() {
    unsigned k = sym_choice("k", 12), last = sym_choice("last", 2);
    static const char *BAD[12] = {"x 1;", "x = ;", "x = 1", "= 1;", "}", "T { y=1; }", "T b y=1; }", "T b ( ) { }", "T b (k { }", "x = 1; ;", "x = = 1;", "T b { y=1;"};
    string v = word("v", 1);
    string d = "a=" + v + "; " + BAD[k];
    if (!last) d += " z=" + v + ";";
    Conf c; ConfigBlock *r = nullptr; bool refused = false;
    try { r = c.FromString(d); } catch (ConfigurationException &) { refused = true; }
    SYM_ASSERT(refused || c.HasError(), "a malformed document is flagged");
    if (!refused) {
        SYM_ASSERT(r->HasSetting("a") && (*r)["a"] == v, "statements before the error are kept");
        if (!last && k != 2 && k != 6 && k != 8 && k != 11) SYM_ASSERT(r->HasSetting("z") && (*r)["z"] == v, "statements after the error are kept");
        sound(r, nullptr);
    }
    sym_reach("end");
}

/* ------------------------------------------------ P03 */
static ConfigBlock *mk(confblock_t t, const string &n, Ref **ref, const string &sec = "") { ConfigBlock *b = new ConfigBlock(t, n, sec); *ref = new Ref(); (*ref)->t = t; (*ref)->name = n; (*ref)->sec = sec; return b; }
static void add(ConfigBlock *b, Ref *r, const string &n, const string &v) { Setting *s = b->AddSetting(new SettingScript(n, v)); rset(r, n, v); SYM_ASSERT(s->GetName() == n && s->GetString() == v, "adding a setting returns it"); }
static void rmerge(Ref *a, Ref *b, bool allow, vector<string> &unknown) {
    vector<string> sub;
    for (auto &p : b->set) { bool found = false; for (auto &q : a->set) if (q.first == p.first) { q.second = p.second; found = true; break; } if (!found) { if (allow) a->set.push_back(p); else unknown.push_back(p.first); } }
    for (Ref *s : b->sub) {
        Ref *t = nullptr; for (Ref *x : a->sub) if (x->t == s->t && x->name == s->name) { t = x; break; }
        if (t) rmerge(t, s, allow, unknown);
        else if (allow) { Ref *n = rsub(a, s->t, s->name, s->sec); vector<string> u; rmerge(n, s, true, u); }
        else unknown.push_back(s->name);
    }
}
static Ref *rcopy(Ref *r) { Ref *n = new Ref(*r); for (auto &s : n->sub) s = rcopy(s); return n; }
/* look-up, repeated names and typed look-up for any names */
extern "C" void h_block() {
    Ref *R; ConfigBlock *b = mk(1, "blk", &R);
    string n[3], q = word("q", 1); for (unsigned i = 0; i < 3; i++) { n[i] = word("n", 1); add(b, R, n[i], string(1, (char)('0' + i))); }
    SYM_ASSERT(!b->HasParent() && b->GetName() == "blk" && b->GetType() == 1 && b->HasType(1) && !b->HasType(2) && b->HasTypeAndName(1, "blk"), "a block has its type and name");
    vector<Setting*> u = b->GetUntouchedSettings();
    SYM_ASSERT(b->HasUntouchedSettings() && u.size() == R->set.size(), "settings that nobody looked up are untouched");
    string want; bool in = false; for (auto &p : R->set) if (p.first == q) { in = true; want = p.second; }
    SYM_ASSERT(b->HasSetting(q) == in, "a setting exists exactly when it was added");
    SYM_ASSERT(b->GetUntouchedSettings().size() == R->set.size(), "asking whether a setting exists does not touch it");
    Setting *s = b->GetSetting(q);
    SYM_ASSERT((s != nullptr) == in, "looking up a setting finds it exactly when it was added");
    if (in) {
        SYM_ASSERT(s->GetString() == want && s->GetName() == q, "looking up a setting gives its last value");
        SYM_ASSERT(s->Touched(), "looking up a setting touches it");
        u = b->GetUntouchedSettings();
        SYM_ASSERT(u.size() == R->set.size() - 1, "looking up a setting touches only that one");
        for (Setting *x : u) SYM_ASSERT(x != s, "touched settings are not listed as untouched");
        SYM_ASSERT(b->HasUntouchedSettings() == (R->set.size() > 1), "untouched settings are reported when there are any");
        SYM_ASSERT((*b)[q] == want, "indexing gives the value");
        sym_reach("found");
    } else {
        bool threw = false; try { (*b)[q]; } catch (SOFTLibException &) { threw = true; }
        SYM_ASSERT(threw, "indexing a missing setting is refused");
        SYM_ASSERT(b->GetUntouchedSettings().size() == R->set.size(), "a failed look-up touches nothing");
        sym_reach("missing");
    }
    same(b, R);
    delete b;
}
/* sub-blocks by type and name */
extern "C" void h_subblocks() {
    Ref *R; ConfigBlock *b = mk(0, "top", &R);
    unsigned t[3]; string n[3];
    for (unsigned i = 0; i < 3; i++) {
        t[i] = sym_choice("t", 2) + 1; n[i] = word("n", 1);
        ConfigBlock *s = b->AddSubBlock(t[i], n[i], i == 1 ? "sec" : "");
        bool fresh = true; for (unsigned j = 0; j < i; j++) if (t[j] == t[i] && n[j] == n[i]) fresh = false;
        Ref *r = rsub(R, t[i], n[i], i == 1 ? "sec" : "");
        SYM_ASSERT(s->HasTypeAndName(t[i], n[i]), "adding a sub-block returns the block of that type and name");
        (void)fresh; (void)r;
    }
    same(b, R); sound(b, nullptr);
    unsigned qt = sym_choice("qt", 3) + 1; string qn = word("q", 1);
    unsigned cnt = 0; bool in = false; for (Ref *r : R->sub) { if (r->t == qt) cnt++; if (r->t == qt && r->name == qn) in = true; }
    SYM_ASSERT(b->HasSubBlocks(qt) == (cnt > 0), "sub-blocks of a type are reported when there are any");
    vector<ConfigBlock*> v = b->GetAllSubBlocksOfType(qt);
    SYM_ASSERT(v.size() == cnt, "all sub-blocks of a type, and only those, are listed");
    for (ConfigBlock *x : v) SYM_ASSERT(x->HasType(qt), "all sub-blocks of a type, and only those, are listed");
    SYM_ASSERT(b->HasSubBlock(qt, qn) == in && (b->GetConfigBlock(qt, qn) != nullptr) == in, "a sub-block is found exactly when it was added");
    if (in) SYM_ASSERT(*b->GetConfigBlock(qt, qn) == ConfigBlock(qt, qn), "blocks are equal when type and name are");
    delete b;
    sym_reach("end");
}
static ConfigBlock *build(const char *tag, Ref **R) {
    ConfigBlock *b = mk(0, "top", R);
    add(b, *R, word("s", 1), string(tag) + "0"); add(b, *R, word("s", 1), string(tag) + "1");
    string n = word("b", 1);
    ConfigBlock *s = b->AddSubBlock(1, n); Ref *r = rsub(*R, 1, n, "");
    add(s, r, word("s", 1), string(tag) + "2");
    ConfigBlock *z = s->AddSubBlock(2, "deep", "kind"); Ref *rz = rsub(r, 2, "deep", "kind");
    add(z, rz, word("s", 1), string(tag) + "3");
    return b;
}
extern "C" void h_merge() {
    Ref *A, *B; ConfigBlock *a = build("a", &A), *b = build("b", &B);
    bool allow = sym_choice("allow", 2);
    vector<string> want; rmerge(A, B, allow, want);
    vector<string> *u = a->Merge(b, allow);
    SYM_ASSERT((u != nullptr) == (want.size() > 0), "merging lists unknown settings exactly when there are some");
    if (u) { SYM_ASSERT(u->size() == want.size(), "every unknown setting or block is listed once"); for (unsigned i = 0; i < want.size(); i++) SYM_ASSERT((*u)[i] == want[i], "unknown settings are listed by name"); delete u; sym_reach("unknown"); }
    same(a, A); sound(a, nullptr);
    same(b, B); sound(b, nullptr);
    /* the two are independent of each other */
    add(b->GetAllSubBlocks()[0], B->sub[0], "later", "x");
    for (auto &p : B->set) p.second = "new";
    for (Setting *s : b->GetAllSettings()) { SettingScript n(s->GetName(), "new"); s->OverwriteValues(&n); }
    same(a, A); same(b, B);
    delete b;
    same(a, A);
    delete a;
    sym_reach("end");
}
extern "C" void h_copy() {
    Ref *A; ConfigBlock *a = build("a", &A);
    ConfigBlock *c = new ConfigBlock(a); Ref *C = rcopy(A);
    same(c, C); sound(c, nullptr);
    add(c, C, word("x", 1), "new"); add(c->GetAllSubBlocks()[0], C->sub[0], word("x", 1), "new");
    same(c, C); same(a, A);
    delete a;
    same(c, C);
    delete c;
    sym_reach("end");
}
/* the same through whole configurations */
extern "C" void h_confmerge() {
    string x = word("x", 1), y = word("y", 1), z = word("z", 1); plain(x); plain(y); plain(z);
    bool allow = sym_choice("allow", 2);
    Conf a, b; a.FromString(x + "=1; T b { " + y + "=2; }"); b.FromString(z + "=3; T b { " + z + "=4; }");
    Conf keep(a);
    Ref *A = new Ref(), *B = new Ref(), *K; rset(A, x, "1"); rset(rsub(A, a.T, "b", ""), y, "2"); rset(B, z, "3"); rset(rsub(B, a.T, "b", ""), z, "4"); K = rcopy(A);
    vector<string> want; rmerge(A, B, allow, want);
    vector<string> *u = a.Merge(b, allow);
    SYM_ASSERT((u ? u->size() : 0) == want.size(), "every unknown setting or block is listed once");
    same(a.GetRootBlock(), A); same(b.GetRootBlock(), B); same(keep.GetRootBlock(), K); sound(keep.GetRootBlock(), nullptr);
    SYM_ASSERT(keep.IsBlockType("T") && keep.StringToBlockType("U") == a.U && !keep.HasError(), "a copied configuration knows the block types");
    sym_reach("end");
}
/* block types */
extern "C" void h_types_reg() {
    Conf c; string n = word("n", 1 + sym_choice("l", 2));
    bool known = n == "T" || n == "U";
    SYM_ASSERT(c.IsBlockType(n) == known, "a name is a block type exactly when it was registered");
    bool refused = false; confblock_t id = 0;
    try { id = c.RegisterBlockType(n); } catch (SOFTLibException &) { refused = true; }
    SYM_ASSERT(refused == known, "registering a block type twice is refused");
    if (!known) { SYM_ASSERT(id != c.T && id != c.U && c.StringToBlockType(n) == id && c.IsBlockType(n), "each block type has its own number"); sym_reach("new"); }
    SYM_ASSERT(c.StringToBlockType("T") == c.T && c.StringToBlockType("U") == c.U && c.T != c.U, "each block type has its own number");
    sym_reach("end");
}

/* ------------------------------------------------ P04 */
static bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dg(unsigned char c) { return c >= '0' && c <= '9'; }
/* is s the text of an integer; if so its sign and magnitude (64 bit, with a flag when larger) */
static bool integer(const string &s, bool *neg, unsigned long *u, bool *big) {
    unsigned i = 0; while (i < s.size() && sp(s[i])) i++;
    *neg = false; *u = 0; *big = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) { *neg = s[i] == '-'; i++; }
    if (i == s.size()) return false;
    for (; i < s.size(); i++) { if (!dg(s[i])) return false; unsigned d = s[i] - '0'; if (*u > (~0ul - d) / 10) *big = true; else *u = *u * 10 + d; }
    return true;
}
static void integers(const string &v) {
    SettingScript s("n", v);
    bool neg, big; unsigned long u; bool ok = integer(v, &neg, &u, &big);
    bool i64 = ok && !big && (neg ? u <= 9223372036854775808ul : u <= 9223372036854775807ul), i32 = i64 && (neg ? u <= 2147483648ul : u <= 2147483647ul);
    bool u64 = ok && !big && !(neg && u > 0), u32 = u64 && u <= 4294967295ul;
    SYM_ASSERT(s.IsInteger64() == i64 && s.IsInteger64(0) == i64, "text is a 64-bit integer exactly when it is one in range");
    SYM_ASSERT(s.IsInteger() == i64, "text is an integer exactly when it is one in range");
    SYM_ASSERT(s.IsInteger32() == i32 && s.IsInteger32(0) == i32, "text is a 32-bit integer exactly when it is one in range");
    if (!(ok && neg && u == 0)) {       /* (minus zero may be either) */
        SYM_ASSERT(s.IsUnsignedInteger64() == u64 && s.IsUnsignedInteger64(0) == u64, "text is an unsigned 64-bit integer exactly when it is one in range");
        SYM_ASSERT(s.IsUnsignedInteger32() == u32 && s.IsUnsignedInteger32(0) == u32, "text is an unsigned 32-bit integer exactly when it is one in range");
    }
    long w = neg ? (long)(0ul - u) : (long)u;
    if (i64) { SYM_ASSERT(s.GetInteger64() == w && s.GetInteger() == w, "an integer is read as its value"); sym_reach("i64"); }
    if (i32) SYM_ASSERT(s.GetInteger32() == (int)w, "an integer is read as its value");
    if (u64) { SYM_ASSERT(s.GetUnsignedInteger64() == u, "an unsigned integer is read as its value"); }
    if (u32) SYM_ASSERT(s.GetUnsignedInteger32() == (unsigned)u, "an unsigned integer is read as its value");
    if (!ok) sym_reach("notint");
}
/* any short text */
extern "C" void h_int() {
    unsigned l = sym_choice("l", LEN + 1); string v; for (unsigned i = 0; i < l; i++) { unsigned char c = sym_u8("c"); sym_assume(c != 0); v += (char)c; }
    integers(v);
}
/* around the limits */
extern "C" void h_limits() {
    static const char *P[6] = {"214748364", "429496729", "922337203685477580", "1844674407370955161", "999999999999999999999", "-000000000000000000000"};
    string v = sym_choice("neg", 2) ? "-" : ""; unsigned k = sym_choice("k", 6); v += P[k];
    unsigned char c = sym_u8("c"); sym_assume(c >= '0' && c <= '9'); v += (char)c;
    integers(v);
}
/* real numbers */
static bool scalar(const string &s, double *v) {
    unsigned i = 0, n = s.size(); while (i < n && sp(s[i])) i++;
    bool neg = false, any = false; if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
    double x = 0, p = 1;
    while (i < n && dg(s[i])) { x = x * 10 + (s[i] - '0'); any = true; i++; }
    if (i < n && s[i] == '.') { i++; while (i < n && dg(s[i])) { p = p / 10; x = x + p * (s[i] - '0'); any = true; i++; } }
    if (!any) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        i++; bool en = false; if (i < n && (s[i] == '-' || s[i] == '+')) { en = s[i] == '-'; i++; }
        if (i == n) return false;
        int e = 0; for (; i < n; i++) { if (!dg(s[i])) return false; e = e * 10 + (s[i] - '0'); }
        for (int j = 0; j < e; j++) x = en ? x / 10 : x * 10;
    }
    *v = neg ? -x : x;
    return i == n;
}
extern "C" void h_scalar() {
    unsigned l = sym_choice("l", LEN + 1); string v;
    static const char *PAT[4] = {"", "1", "-.", "2e"};
    unsigned k = sym_choice("k", 4); v = PAT[k]; if (k) sym_assume(l < LEN); if (k == 3) sym_assume(l < LEN - 1);
    for (unsigned i = 0; i < l; i++) {
        unsigned char c = sym_u8("c");
        /* (words such as inf and nan, and hexadecimal numbers, are left open) */
        sym_assume(c != 0 && c != 'x' && c != 'X' && c != 'i' && c != 'I' && c != 'n' && c != 'N');
        v += (char)c;
    }
    double x = 0; bool ok = scalar(v, &x);
    SettingScript s("n", v);
    SYM_ASSERT(s.IsScalar() == ok && s.IsScalar(0) == ok, "text is a number exactly when all of it is one");
    SYM_ASSERT(s.IsNumericVector() == ok && s.IsNumericVector(1) == ok && !s.IsNumericVector(2), "one number is a vector of one element");
    if (ok) {
        SYM_EQ(s.GetScalar(), x, "a number is read as its value");
        vector<double> w = s.GetNumericVector();
        SYM_ASSERT(w.size() == 1, "one number is a vector of one element"); SYM_EQ(w[0], x, "a number is read as its value");
        sym_reach("number");
    } else sym_reach("text");
}
/* numbers that do not fit a double are not numbers, and do not make the test fail */
extern "C" void h_huge() {
    unsigned k = sym_choice("k", 3); static const char *V[3] = {"1e999", "-3.5e4000", "1e308"};
    SettingScript s("n", V[k]); bool ok = k == 2;
    SYM_ASSERT(s.IsScalar() == ok && s.IsScalar(0) == ok, "a number too large is no scalar");
    SYM_ASSERT(s.IsNumericVector() == ok && s.IsNumericVector(1) == ok, "a number too large is no scalar");
    sym_reach("end");
}
/* several values */
extern "C" void h_vector() {
    unsigned n = 1 + sym_choice("n", 3); vector<string> v; bool num = true;
    for (unsigned i = 0; i < n; i++) { unsigned char c = sym_u8("c"); sym_assume(c != 0); v.push_back(string(1, (char)c)); if (!dg(c)) num = false; }
    SettingScript s("n", v);
    SYM_ASSERT(s.GetNumberOfValues() == n, "as many values as were given");
    SYM_ASSERT(s.IsNumericVector() == num, "a vector is numeric when all its elements are");
    for (unsigned m = 1; m <= 3; m++) SYM_ASSERT(s.IsNumericVector(m) == (num && m == n), "a vector has its own length only");
    bool one = n == 1 && num;
    SYM_ASSERT(s.IsScalar() == one && s.IsInteger() == one && s.IsInteger32() == one && s.IsInteger64() == one && s.IsUnsignedInteger32() == one && s.IsUnsignedInteger64() == one, "several values are no single number");
    if (n > 1) SYM_ASSERT(!s.IsBool(), "several values are no single truth value");
    for (unsigned i = 0; i < n; i++) SYM_ASSERT(s.IsScalar(i) == dg(v[i][0]) && s.IsInteger(i) == dg(v[i][0]), "each value has its own type");
    if (num) { vector<double> x = s.GetNumericVector(); SYM_ASSERT(x.size() == n, "a numeric vector has all its elements"); for (unsigned i = 0; i < n; i++) { SYM_EQ(x[i], v[i][0] - '0', "a numeric vector has its elements in order"); SYM_EQ(s.GetScalar(i), v[i][0] - '0', "each value is read on its own"); SYM_ASSERT(s.GetInteger(i) == v[i][0] - '0', "each value is read on its own"); } sym_reach("numeric"); }
    SettingScript t("m", "old"); t.OverwriteValues(&s);
    SYM_ASSERT(t.GetTextVector() == v && t.GetName() == "m", "overwriting replaces all values and keeps the name");
    Setting *c = s.Copy(); SYM_ASSERT(c->GetTextVector() == v && c->GetName() == "n", "a copy has the same name and values"); delete c;
    bool oob = false; try { s.GetString(n); } catch (std::exception &) { oob = true; }
    SYM_ASSERT(oob, "a value that does not exist is refused");
    sym_reach("end");
}
/* truth values */
extern "C" void h_bool() {
    unsigned l = sym_choice("l", 7); string v; for (unsigned i = 0; i < l; i++) v += (char)sym_u8("c");
    static const char *Y[6] = {"yes", "Yes", "YES", "true", "True", "TRUE"}, *N[6] = {"no", "No", "NO", "false", "False", "FALSE"};
    bool yes = false, no = false; for (int i = 0; i < 6; i++) { if (v == Y[i]) yes = true; if (v == N[i]) no = true; }
    SettingScript s("n", v);
    SYM_ASSERT(s.IsBool() == (yes || no) && s.IsBool(0) == (yes || no), "yes, no, true and false are truth values");
    bool threw = false, b = false; try { b = s.GetBool(); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw == !(yes || no), "reading anything else as a truth value is refused");
    if (yes) { SYM_ASSERT(b, "yes is true"); sym_reach("yes"); }
    if (no) { SYM_ASSERT(!b, "no is false"); sym_reach("no"); }
}

/* ------------------------------------------------ large documents */
static string num(unsigned i) { string s; do { s.insert(s.begin(), (char)('0' + i % 10)); i /= 10; } while (i); return s; }
static string longword(unsigned l, char c) { string s; for (unsigned i = 0; i < l; i++) s += (char)('a' + i % 26); s[l / 2] = c; s[l - 1] = c; return s; }
/* long names and values, many values, many settings, deep nesting, long comments and gaps */
extern "C" void h_longdoc() {
    static const unsigned L[4] = {40, 130, 270, 1030}, K[3] = {9, 33, 70};
    char x = wordc("x"), y = quotc("y");
    unsigned kind = sym_choice("kind", 5);
    Conf c; ConfigBlock *r; string d;
    if (kind == 0) {
        unsigned l = L[sym_choice("length", 4)];
        string name = longword(l, x), val = longword(l, x), q = longword(l, y);
        r = c.FromString(name + " = " + val + " \"" + q + "\";");
        SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
        has(only(r), name, {val, q});
        SYM_ASSERT(r->HasSetting(name) && r->GetSetting(name)->GetString() == val, "a setting with a long name is found");
    } else if (kind == 1) {
        unsigned n = K[sym_choice("number", 3)]; vector<string> v; d = "n =";
        for (unsigned i = 0; i < n; i++) { v.push_back(i == n - 1 ? string(1, x) : num(i)); d += " " + v[i]; }
        r = c.FromString(d + ";");
        SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
        has(only(r), "n", v);
    } else if (kind == 2) {
        unsigned n = K[sym_choice("number", 3)];
        for (unsigned i = 0; i < n; i++) d += "s" + num(i) + " = " + num(7 * i) + string(1, x) + ";\nT b" + num(i) + " { k = " + num(i) + "; }\n";
        r = c.FromString(d);
        SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
        SYM_ASSERT(r->GetAllSettings().size() == n && r->GetAllSubBlocks().size() == n, "each block has exactly the settings of the document");
        for (unsigned i = 0; i < n; i++) {
            SYM_ASSERT(r->HasSetting("s" + num(i)) && r->GetSetting("s" + num(i))->GetString() == num(7 * i) + string(1, x), "each of many settings is found");
            SYM_ASSERT(r->HasSubBlock(c.T, "b" + num(i)) && (*r->GetConfigBlock(c.T, "b" + num(i)))["k"] == num(i), "each of many blocks is found");
        }
    } else if (kind == 3) {
        const unsigned n = 12; string e;
        for (unsigned i = 0; i < n; i++) { d += "T b { u = " + num(i) + "; "; e += "w = " + num(i) + string(1, x) + "; } "; }
        r = c.FromString(d + e + "last = 1;");
        SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
        has(only(r), "last", {"1"});
        ConfigBlock *b = r;
        for (unsigned i = 0; i < n; i++) {
            SYM_ASSERT(b->HasSubBlock(c.T, "b") && b->GetAllSubBlocks().size() == 1, "blocks nest to any depth");
            b = b->GetConfigBlock(c.T, "b");
            SYM_ASSERT((*b)["u"] == num(i) && (*b)["w"] == num(n - 1 - i) + string(1, x), "settings after a nested block belong to the outer one");
        }
        sound(r, nullptr);
    } else {
        unsigned l = L[sym_choice("length", 3)]; string sp(l, ' '), nl(l, '\n'), cm = "#" + longword(l, x) + "\n";
        r = c.FromString("a" + sp + "= 1" + nl + "2;" + cm + cm + "b = 3;" + cm);
        SYM_ASSERT(!c.HasError(), "well-formed documents are accepted");
        SYM_ASSERT(r->GetAllSettings().size() == 2, "comments hide nothing");
        has(r->GetAllSettings()[0], "a", {"1", "2"}); has(r->GetAllSettings()[1], "b", {"3"});
    }
    sym_reach("end");
}
/* many settings and blocks, added, copied and merged */
extern "C" void h_manyblocks() {
    const unsigned n = 40; string W(1, wordc("w"));
    auto make = [&](const string &v) {
        ConfigBlock *r = new ConfigBlock((confblock_t)0, "root");
        for (unsigned i = 0; i < n; i++) {
            r->AddSetting(new SettingScript("s" + num(i), v + num(i)));
            ConfigBlock *b = r->AddSubBlock(5 + i % 3, "b" + num(i / 3));
            b->AddSetting(new SettingScript("t", v + num(i)));
        }
        return r;
    };
    auto is = [&](ConfigBlock *r, const string &v) { for (unsigned i = 0; i < n; i++) {
        SYM_ASSERT(r->HasSetting("s" + num(i)) && r->GetSetting("s" + num(i))->GetString() == v + num(i), "each of many settings is found");
        SYM_ASSERT(r->HasSubBlock(5 + i % 3, "b" + num(i / 3)) && (*r->GetConfigBlock(5 + i % 3, "b" + num(i / 3)))["t"] == v + num(i), "each of many blocks is found");
        SYM_ASSERT(r->GetConfigBlock(5 + i % 3, "b" + num(i / 3))->GetParent() == r, "every block knows the block that contains it");
    } };
    ConfigBlock *a = make("x");
    SYM_ASSERT(a->GetAllSettings().size() == n && a->GetAllSubBlocks().size() == n, "every setting and block is there");
    is(a, "x");
    SYM_ASSERT(a->GetAllSubBlocksOfType(5).size() == (n + 2) / 3, "blocks of one type are listed");
    ConfigBlock *k = new ConfigBlock(a), *b = make(W);
    SYM_ASSERT(k->GetAllSettings().size() == n && k->GetAllSubBlocks().size() == n, "a copy has every setting and block");
    is(k, "x");
    vector<string> *u = k->Merge(b);
    SYM_ASSERT(u == nullptr && k->GetAllSettings().size() == n && k->GetAllSubBlocks().size() == n, "merging the same names adds nothing");
    is(k, W); is(a, "x");
    ConfigBlock e((confblock_t)0, "root");
    u = e.Merge(b, true);
    SYM_ASSERT(u == nullptr && e.GetAllSettings().size() == n && e.GetAllSubBlocks().size() == n, "merging into an empty block adds everything");
    is(&e, W);
    ConfigBlock f((confblock_t)0, "root");
    u = f.Merge(b);
    SYM_ASSERT(u != nullptr && u->size() == 2 * n, "every unknown setting or block is listed once");
    sym_reach("end");
}
