#include <H5Cpp.h>
using namespace H5; using namespace vh5; using namespace std;
namespace vh5 {
static File *tab[16]; static unsigned ntab;
File *find(const string &n) { for (unsigned i = 0; i < ntab; i++) if (tab[i]->name == n) return tab[i]; return nullptr; }
File *create(const string &n) {
    File *f = find(n);
    if (f) { f->objs.clear(); f->userblock = 0; f->hdf = true; return f; }
    f = new File; f->name = n; tab[ntab++] = f; return f;
}
string norm(const string &p) {
    string r; bool slash = true;
    for (size_t i = 0; i < p.size(); i++) { if (p[i] == '/') { if (!slash) slash = true; continue; } if (slash && !r.empty()) r += '/'; slash = false; r += p[i]; }
    return r;
}
Obj *lookup(File *f, const string &p) { string n = norm(p); if (n.empty()) return nullptr; for (Obj *o : f->objs) if (o->path == n) return o; return nullptr; }
template<typename F> static void put(F v, unsigned char *to, int tk) {
    switch (tk) {
        case I8: *(int8_t *)to = (int8_t)v; break; case U8: *(uint8_t *)to = (uint8_t)v; break;
        case I16: *(int16_t *)to = (int16_t)v; break; case U16: *(uint16_t *)to = (uint16_t)v; break;
        case I32: *(int32_t *)to = (int32_t)v; break; case U32: *(uint32_t *)to = (uint32_t)v; break;
        case I64: *(int64_t *)to = (int64_t)v; break; case U64: *(uint64_t *)to = (uint64_t)v; break;
        case F32: *(float *)to = (float)v; break; case F64: *(double *)to = (double)v; break;
    }
}
static double lo_(int k) { static const double t[] = {-128., 0, -32768., 0, -2147483648., 0, -9223372036854775808., 0}; return t[k]; }
/* HDF5 clips values that the destination integer cannot hold */
static void puti(bool sg, int64_t s, uint64_t u, unsigned char *to, int tk) {
    if (tk >= F32) { if (sg) put(s, to, tk); else put(u, to, tk); return; }
    unsigned bits = ksize(tk) * 8; bool tsg = (tk & 1) == 0;
    uint64_t hi = tsg ? ((uint64_t)1 << (bits - 1)) - 1 : bits == 64 ? ~(uint64_t)0 : ((uint64_t)1 << bits) - 1;
    if (sg && s < 0) { if (!tsg) { put((uint64_t)0, to, tk); return; } int64_t lo = -(int64_t)hi - 1; put(s < lo ? lo : s, to, tk); return; }
    uint64_t v = sg ? (uint64_t)s : u; put(v > hi ? hi : v, to, tk);
}
bool convert(const unsigned char *from, int fk, unsigned fs, unsigned char *to, int tk, unsigned ts, hsize_t n) {
    if ((fk == STR) != (tk == STR)) return false;
    if (fk == tk && fs == ts) {
        switch (fk) {
            case F64: for (hsize_t i = 0; i < n; i++) ((double *)to)[i] = ((const double *)from)[i]; break;
            case I32: case U32: for (hsize_t i = 0; i < n; i++) ((uint32_t *)to)[i] = ((const uint32_t *)from)[i]; break;
            case I64: case U64: for (hsize_t i = 0; i < n; i++) ((uint64_t *)to)[i] = ((const uint64_t *)from)[i]; break;
            case I16: case U16: for (hsize_t i = 0; i < n; i++) ((uint16_t *)to)[i] = ((const uint16_t *)from)[i]; break;
            case F32: for (hsize_t i = 0; i < n; i++) ((float *)to)[i] = ((const float *)from)[i]; break;
            default: for (hsize_t i = 0; i < n * fs; i++) to[i] = from[i];
        }
        return true;
    }
    if (fk == STR) { for (hsize_t i = 0; i < n; i++) for (unsigned j = 0; j < ts; j++) to[i * ts + j] = j < fs ? from[i * fs + j] : 0; return true; }
    for (hsize_t i = 0; i < n; i++) {
        const unsigned char *p = from + i * fs; unsigned char *q = to + i * ts;
        switch (fk) {
            case I8: puti(true, *(int8_t *)p, 0, q, tk); break; case U8: puti(false, 0, *(uint8_t *)p, q, tk); break;
            case I16: puti(true, *(int16_t *)p, 0, q, tk); break; case U16: puti(false, 0, *(uint16_t *)p, q, tk); break;
            case I32: puti(true, *(int32_t *)p, 0, q, tk); break; case U32: puti(false, 0, *(uint32_t *)p, q, tk); break;
            case I64: puti(true, *(int64_t *)p, 0, q, tk); break; case U64: puti(false, 0, *(uint64_t *)p, q, tk); break;
            default: {
                double v = fk == F32 ? (double)*(float *)p : *(double *)p;
                if (tk >= F32) { put(v, q, tk); break; }
                unsigned bits = ksize(tk) * 8; bool tsg = (tk & 1) == 0;
                double lo = lo_(tk), hi = 1; for (unsigned b = 0; b < bits - (tsg ? 1 : 0); b++) hi *= 2;
                if (v != v) { put((uint64_t)0, q, tk); break; }
                if (v <= lo) { if (tsg) put(-(int64_t)(((uint64_t)1 << (bits - 1)) - 1) - 1, q, tk); else put((uint64_t)0, q, tk); break; }
                if (v >= hi) { put(tsg ? ((uint64_t)1 << (bits - 1)) - 1 : bits == 64 ? ~(uint64_t)0 : ((uint64_t)1 << bits) - 1, q, tk); break; }
                if (tsg) put((int64_t)v, q, tk); else put((uint64_t)v, q, tk);
            }
        }
    }
    return true;
}
}
namespace H5 {
const PropList PropList::DEFAULT; const FileCreatPropList FileCreatPropList::DEFAULT; const FileAccPropList FileAccPropList::DEFAULT;
const DSetCreatPropList DSetCreatPropList::DEFAULT; const DSetMemXferPropList DSetMemXferPropList::DEFAULT;
static DataSpace mkall() { DataSpace s; s.all = true; return s; }
const DataSpace DataSpace::ALL = mkall();
#define T(N, K, S) constexpr PredType PredType::N(K, S);
T(STD_I8LE, I8, 1) T(STD_U8LE, U8, 1) T(STD_I16LE, I16, 2) T(STD_U16LE, U16, 2) T(STD_I32LE, I32, 4) T(STD_U32LE, U32, 4) T(STD_I64LE, I64, 8) T(STD_U64LE, U64, 8)
T(IEEE_F32LE, F32, 4) T(IEEE_F64LE, F64, 8) T(C_S1, STR, 1)
T(NATIVE_CHAR, I8, 1) T(NATIVE_SCHAR, I8, 1) T(NATIVE_UCHAR, U8, 1) T(NATIVE_SHORT, I16, 2) T(NATIVE_USHORT, U16, 2) T(NATIVE_INT, I32, 4) T(NATIVE_UINT, U32, 4)
T(NATIVE_LONG, I64, 8) T(NATIVE_ULONG, U64, 8) T(NATIVE_LLONG, I64, 8) T(NATIVE_ULLONG, U64, 8)
T(NATIVE_INT8, I8, 1) T(NATIVE_UINT8, U8, 1) T(NATIVE_INT16, I16, 2) T(NATIVE_UINT16, U16, 2) T(NATIVE_INT32, I32, 4) T(NATIVE_UINT32, U32, 4)
T(NATIVE_INT64, I64, 8) T(NATIVE_UINT64, U64, 8) T(NATIVE_FLOAT, F32, 4) T(NATIVE_DOUBLE, F64, 8)
void v_alloc(Blob &b, const DataType &t, const DataSpace &s) {
    b.kind = t.kind; b.size = t.size; b.rank = s.rank; b.n = 1;
    for (int i = 0; i < s.rank; i++) { b.dims[i] = s.d[i]; b.n *= s.d[i]; }
    b.data = (unsigned char *)calloc(b.n * b.size + 1, 1);
}
bool v_write(Blob &b, const void *p, const DataType &t) { return convert((const unsigned char *)p, t.kind, t.size, b.data, b.kind, b.size, b.n); }
bool v_read(const Blob &b, void *p, const DataType &t) { return convert(b.data, b.kind, b.size, (unsigned char *)p, t.kind, t.size, b.n); }
string v_readstr(const Blob &b, bool &ok, const string &old) {
    if (b.n * b.size == 0) return old;
    char *t = new char[b.n * b.size + 1];
    for (hsize_t i = 0; i < b.n * b.size; i++) t[i] = (char)b.data[i];
    t[b.n * b.size] = 0; string r(t); delete[] t; ok = true; return r;
}
Attribute H5Object::createAttribute(const string &n, const DataType &t, const DataSpace &s, const PropList &) const {
    if (ro || !o || attrExists(n)) throw AttributeIException("H5Object::createAttribute", "H5Acreate2 failed");
    Attr *a = new Attr; a->name = n; v_alloc(a->b, t, s); o->attrs.push_back(a); Attribute r; r.a = a; return r;
}
bool H5Object::attrExists(const string &n) const { for (Attr *a : o->attrs) if (a->name == n) return true; return false; }
Attribute H5Object::openAttribute(const string &n) const {
    for (Attr *a : o->attrs) if (a->name == n) { Attribute r; r.a = a; return r; }
    throw AttributeIException("H5Object::openAttribute", "H5Aopen failed");
}
static bool spaces(const Blob &b, const DataSpace &m, const DataSpace &f) {
    if (!m.all && (hsize_t)m.getSimpleExtentNpoints() != b.n) return false;
    return f.all || (hsize_t)f.getSimpleExtentNpoints() == b.n;
}
void DataSet::write(const void *p, const DataType &t, const DataSpace &m, const DataSpace &fs, const PropList &) const {
    if (ro || !o || !spaces(o->b, m, fs) || !v_write(o->b, p, t)) throw DataSetIException("DataSet::write", "H5Dwrite failed");
}
void DataSet::read(void *p, const DataType &t, const DataSpace &m, const DataSpace &fs, const PropList &) const {
    if (!o || !spaces(o->b, m, fs) || !v_read(o->b, p, t)) throw DataSetIException("DataSet::read", "H5Dread failed");
}
void DataSet::read(string &s, const DataType &t, const DataSpace &m, const DataSpace &fs, const PropList &) const {
    bool ok = o != nullptr && spaces(o->b, m, fs); if (ok) s = v_readstr(o->b, ok, s); if (!ok) throw DataSetIException("DataSet::read", "H5Dread failed");
}
static bool parent_ok(File *f, const string &n) {
    size_t i = n.rfind('/'); if (i == string::npos) return true;
    Obj *p = lookup(f, n.substr(0, i)); return p && p->group;
}
static Obj *mk(File *f, const string &n, bool group) { Obj *o = new Obj; o->path = n; o->group = group; f->objs.push_back(o); return o; }
DataSet Group::createDataSet(const string &nm, const DataType &t, const DataSpace &s, const PropList &) const {
    string n = norm(full(nm)); DataSet d;
    if (!f || ro || n.empty() || lookup(f, n) || !parent_ok(f, n)) { fail("createDataSet", "H5Dcreate2 failed"); return d; }
    d.f = f; d.o = mk(f, n, false); v_alloc(d.o->b, t, s); return d;
}
DataSet Group::openDataSet(const string &nm, const PropList &) const {
    DataSet d; Obj *x = f ? lookup(f, full(nm)) : nullptr;
    if (!x || x->group) { fail("openDataSet", "H5Dopen2 failed"); return d; }
    d.f = f; d.o = x; d.ro = ro; return d;
}
Group Group::createGroup(const string &nm, size_t) const {
    string n = norm(full(nm)); Group g;
    if (!f || ro || n.empty() || lookup(f, n) || !parent_ok(f, n)) { fail("createGroup", "H5Gcreate2 failed"); return g; }
    g.f = f; g.o = mk(f, n, true); return g;
}
Group Group::openGroup(const string &nm) const {
    Group g; Obj *x = f ? lookup(f, full(nm)) : nullptr;
    if (!x || !x->group) { fail("openGroup", "H5Gopen2 failed"); return g; }
    g.f = f; g.o = x; g.ro = ro; return g;
}
bool Group::nameExists(const string &nm, const PropList &) const { return f && lookup(f, full(nm)) != nullptr; }
void H5File::start(const string &n, unsigned flags, const FileCreatPropList &c) {
    if (flags & (H5F_ACC_TRUNC | H5F_ACC_EXCL)) {
        File *x = find(n);
        if (x && ((flags & H5F_ACC_EXCL) || x->open)) throw FileIException("H5File constructor", "H5Fcreate failed");
        f = vh5::create(n); f->userblock = c.ub;
    } else {
        f = find(n);
        if (!f || !f->hdf) { f = nullptr; throw FileIException("H5File constructor", "H5Fopen failed"); }
        ro = !(flags & H5F_ACC_RDWR);
    }
    f->open++;
}
}
/* the user block of a file, for stdio and streams */
unsigned char *verif_block(const char *n, unsigned long *cap) {
    vh5::File *f = vh5::find(n);
    if (!f) return nullptr;
    *cap = f->userblock;
    return f->head;
}
void verif_block_spoil(const char *n) { vh5::File *f = vh5::find(n); if (f) f->hdf = false; }
