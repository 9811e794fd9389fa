/* In-memory model of the part of the HDF5 C++ interface softlib uses (and its near neighbours).
 * Files live in a table; exceptions are the ones HDF5 1.10 throws (recorded from the real library). */
#ifndef VERIF_H5CPP_H
#define VERIF_H5CPP_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
typedef unsigned long long hsize_t;
typedef long long hssize_t;
typedef long long hid_t;
typedef int herr_t;
typedef int H5F_scope_t;
#define H5F_SCOPE_LOCAL 0
#define H5F_SCOPE_GLOBAL 1
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5T_VARIABLE ((size_t)-1)
enum H5S_class_t { H5S_NO_CLASS = -1, H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 };
enum H5T_class_t { H5T_NO_CLASS = -1, H5T_INTEGER = 0, H5T_FLOAT = 1, H5T_TIME = 2, H5T_STRING = 3 };
#define H5S_ALL 0
typedef std::string H5std_string;

namespace vh5 {
enum Kind { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, STR };
inline unsigned ksize(int k) { return k <= U8 ? 1 : k <= U16 ? 2 : k <= U32 ? 4 : k == F32 ? 4 : 8; }
struct Blob { int kind; unsigned size; int rank; hsize_t dims[8]; hsize_t n; unsigned char *data; };
struct Attr { std::string name; Blob b; };
struct Obj { std::string path; bool group; Blob b; std::vector<Attr*> attrs; };
struct File { std::string name; std::vector<Obj*> objs; unsigned userblock = 0; unsigned char head[1024]; int open = 0; bool hdf = true; };
File *find(const std::string &name);
File *create(const std::string &name);
std::string norm(const std::string &p);
Obj *lookup(File *f, const std::string &p);
bool convert(const unsigned char *from, int fk, unsigned fs, unsigned char *to, int tk, unsigned ts, hsize_t n);
}

namespace H5 {
class Exception {
    std::string f, m;
public:
    Exception() {}
    Exception(const std::string &a, const std::string &b) : f(a), m(b) {}
    virtual ~Exception() {}
    std::string getDetailMsg() const { return m; }
    const char *getCDetailMsg() const { return m.c_str(); }
    std::string getFuncName() const { return f; }
    const char *getCFuncName() const { return f.c_str(); }
    static void dontPrint() {}
    static void printErrorStack() {}
};
#define VH5_EXC(N) class N : public Exception { public: N() {} N(const std::string &a, const std::string &b) : Exception(a, b) {} };
VH5_EXC(FileIException) VH5_EXC(GroupIException) VH5_EXC(DataSetIException) VH5_EXC(DataSpaceIException)
VH5_EXC(DataTypeIException) VH5_EXC(AttributeIException) VH5_EXC(PropListIException) VH5_EXC(LocationException) VH5_EXC(ReferenceException)

class PropList { public: static const PropList DEFAULT; };
class FileCreatPropList : public PropList { public: static const FileCreatPropList DEFAULT; unsigned ub = 0; FileCreatPropList() {} void setUserblock(hsize_t n) { ub = (unsigned)n; } };
class FileAccPropList : public PropList { public: static const FileAccPropList DEFAULT; };
class DSetCreatPropList : public PropList { public: static const DSetCreatPropList DEFAULT; };
class DSetMemXferPropList : public PropList { public: static const DSetMemXferPropList DEFAULT; };

class DataType {
public:
    int kind; unsigned size;
    constexpr DataType() : kind(-1), size(0) {}
    constexpr DataType(int k, unsigned s) : kind(k), size(s) {}
    bool operator==(const DataType &o) const { return kind == o.kind && size == o.size; }
    bool operator!=(const DataType &o) const { return !(*this == o); }
    H5T_class_t getClass() const { return kind == vh5::STR ? H5T_STRING : kind >= vh5::F32 ? H5T_FLOAT : H5T_INTEGER; }
    size_t getSize() const { return size; }
    bool isVariableStr() const { return false; }
    void close() {}
};
class AtomType : public DataType { public: using DataType::DataType; constexpr AtomType() {} };
class PredType : public AtomType {
public:
    constexpr PredType(int k, unsigned s) : AtomType(k, s) {}
    static const PredType STD_I8LE, STD_U8LE, STD_I16LE, STD_U16LE, STD_I32LE, STD_U32LE, STD_I64LE, STD_U64LE, IEEE_F32LE, IEEE_F64LE, C_S1,
        NATIVE_CHAR, NATIVE_SCHAR, NATIVE_UCHAR, NATIVE_SHORT, NATIVE_USHORT, NATIVE_INT, NATIVE_UINT, NATIVE_LONG, NATIVE_ULONG, NATIVE_LLONG, NATIVE_ULLONG,
        NATIVE_INT8, NATIVE_UINT8, NATIVE_INT16, NATIVE_UINT16, NATIVE_INT32, NATIVE_UINT32, NATIVE_INT64, NATIVE_UINT64, NATIVE_FLOAT, NATIVE_DOUBLE;
};
class StrType : public AtomType {
public:
    StrType(const PredType &, const size_t &n) : AtomType(vh5::STR, (unsigned)n) {}
    StrType(const PredType &, int n) : AtomType(vh5::STR, (unsigned)n) {}
    StrType(int, const size_t &n) : AtomType(vh5::STR, (unsigned)n) {}
};
class DataSpace {
public:
    bool all = false; int rank = 0; hsize_t d[8];
    static const DataSpace ALL;
    DataSpace(H5S_class_t t = H5S_SCALAR) { (void)t; }
    DataSpace(int r, const hsize_t *dd, const hsize_t * = nullptr) : rank(r) {
        if (r < 0 || r > 8) throw DataSpaceIException("DataSpace constructor", "H5Screate_simple failed");
        for (int i = 0; i < r; i++) d[i] = dd[i];
    }
    int getSimpleExtentNdims() const { return rank; }
    int getSimpleExtentDims(hsize_t *o, hsize_t * = nullptr) const { if (o) for (int i = 0; i < rank; i++) o[i] = d[i]; return rank; }
    hssize_t getSimpleExtentNpoints() const { hsize_t n = 1; for (int i = 0; i < rank; i++) n *= d[i]; return (hssize_t)n; }
    hssize_t getSelectNpoints() const { return getSimpleExtentNpoints(); }
    H5S_class_t getSimpleExtentType() const { return rank ? H5S_SIMPLE : H5S_SCALAR; }
    bool isSimple() const { return true; }
    void close() {}
};

void v_alloc(vh5::Blob &b, const DataType &t, const DataSpace &s);
bool v_write(vh5::Blob &b, const void *p, const DataType &t);
bool v_read(const vh5::Blob &b, void *p, const DataType &t);
std::string v_readstr(const vh5::Blob &b, bool &ok, const std::string &old);

class Attribute {
public:
    vh5::Attr *a = nullptr;
    void write(const DataType &t, const void *p) { if (!a || !v_write(a->b, p, t)) throw AttributeIException("Attribute::write", "H5Awrite failed"); }
    void write(const DataType &t, const std::string &s) { if (!a || !v_write(a->b, s.c_str(), t)) throw AttributeIException("Attribute::write", "H5Awrite failed"); }
    void read(const DataType &t, void *p) const { if (!a || !v_read(a->b, p, t)) throw AttributeIException("Attribute::read", "H5Aread failed"); }
    void read(const DataType &t, std::string &s) const { bool ok = a != nullptr; if (ok) s = v_readstr(a->b, ok, s); if (!ok) throw AttributeIException("Attribute::read", "H5Aread failed"); }
    DataType getDataType() const { return DataType(a->b.kind, a->b.size); }
    H5T_class_t getTypeClass() const { return getDataType().getClass(); }
    DataSpace getSpace() const { return DataSpace(a->b.rank, a->b.dims); }
    size_t getInMemDataSize() const { return a->b.n * a->b.size; }
    hsize_t getStorageSize() const { return a->b.n * a->b.size; }
    std::string getName() const { return a->name; }
    void close() {}
};
class H5Object {
public:
    vh5::File *f = nullptr; vh5::Obj *o = nullptr; bool ro = false;
    virtual ~H5Object() {}
    Attribute createAttribute(const char *n, const DataType &t, const DataSpace &s, const PropList & = PropList::DEFAULT) const { return createAttribute(std::string(n), t, s); }
    Attribute createAttribute(const std::string &n, const DataType &t, const DataSpace &s, const PropList & = PropList::DEFAULT) const;
    Attribute openAttribute(const std::string &n) const;
    Attribute openAttribute(const char *n) const { return openAttribute(std::string(n)); }
    bool attrExists(const std::string &n) const;
    bool attrExists(const char *n) const { return attrExists(std::string(n)); }
    int getNumAttrs() const { return (int)o->attrs.size(); }
};
class DataSet : public H5Object {
public:
    void write(const void *p, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &fs = DataSpace::ALL, const PropList & = PropList::DEFAULT) const;
    void write(const std::string &s, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &fs = DataSpace::ALL, const PropList & = PropList::DEFAULT) const { write((const void *)s.c_str(), t, m, fs); }
    void read(void *p, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &fs = DataSpace::ALL, const PropList & = PropList::DEFAULT) const;
    void read(std::string &s, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &fs = DataSpace::ALL, const PropList & = PropList::DEFAULT) const;
    DataType getDataType() const { return DataType(o->b.kind, o->b.size); }
    H5T_class_t getTypeClass() const { return getDataType().getClass(); }
    DataSpace getSpace() const { return DataSpace(o->b.rank, o->b.dims); }
    size_t getInMemDataSize() const { return o->b.n * o->b.size; }
    hsize_t getStorageSize() const { return o->b.n * o->b.size; }
    void close() {}
};
class Group : public H5Object {
public:
    virtual ~Group() {}
    virtual void fail(const char *fn, const char *m) const { throw GroupIException(std::string("Group::") + fn, m); }
    std::string full(const std::string &n) const { return (o && !(n.size() && n[0] == '/')) ? o->path + "/" + n : n; }
    DataSet createDataSet(const std::string &n, const DataType &t, const DataSpace &s, const PropList & = PropList::DEFAULT) const;
    DataSet openDataSet(const std::string &n, const PropList & = PropList::DEFAULT) const;
    Group createGroup(const std::string &n, size_t = 0) const;
    Group openGroup(const std::string &n) const;
    bool nameExists(const std::string &n, const PropList & = PropList::DEFAULT) const;
    bool exists(const std::string &n, const PropList & = PropList::DEFAULT) const { return nameExists(n); }
    DataSet createDataSet(const char *n, const DataType &t, const DataSpace &s, const PropList & = PropList::DEFAULT) const { return createDataSet(std::string(n), t, s); }
    DataSet openDataSet(const char *n, const PropList & = PropList::DEFAULT) const { return openDataSet(std::string(n)); }
    Group createGroup(const char *n, size_t = 0) const { return createGroup(std::string(n)); }
    Group openGroup(const char *n) const { return openGroup(std::string(n)); }
    bool nameExists(const char *n) const { return nameExists(std::string(n)); }
    void flush(H5F_scope_t) const { if (!f) throw Exception("H5File::flush", "H5Fflush failed"); }
    virtual void close() {}
};
class H5File : public Group {
public:
    H5File() {}
    H5File(const std::string &n, unsigned flags, const FileCreatPropList &c = FileCreatPropList::DEFAULT, const FileAccPropList & = FileAccPropList::DEFAULT) { start(n, flags, c); }
    H5File(const char *n, unsigned flags, const FileCreatPropList &c = FileCreatPropList::DEFAULT, const FileAccPropList & = FileAccPropList::DEFAULT) { start(std::string(n), flags, c); }
    void start(const std::string &n, unsigned flags, const FileCreatPropList &c);
    void openFile(const std::string &n, unsigned flags) { start(n, flags, FileCreatPropList::DEFAULT); }
    void fail(const char *fn, const char *m) const override { throw FileIException(std::string("H5File::") + fn, m); }
    std::string getFileName() const { return f->name; }
    static bool isHdf5(const std::string &n) { vh5::File *f = vh5::find(n); if (!f) throw FileIException("H5File::isHdf5", "H5Fis_hdf5 returned negative value"); return f->hdf; }
    void close() override { if (f) { f->open--; f = nullptr; } }
    ~H5File() override { close(); }
};
}
#endif
