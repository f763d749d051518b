#include "mexrt.hpp"
#include <set>
#include <mutex>
#include <stdarg.h>

namespace mx {
Callback callback;
std::string printed; static std::mutex printing;

static std::set<Arr *> live;              // every array there is
static std::set<Arr *> owned;             // made by the running call
static std::set<void *> blocks;           // memory taken by the running call

static size_t unit(int cls) {
    switch (cls) {
    case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8;
    case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
    case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
    case mxINT8_CLASS: case mxUINT8_CLASS: case mxCHAR_CLASS: case mxLOGICAL_CLASS: return 1;
    default: return 0;
    }
}
static Arr *make(int cls, std::vector<mwSize> dims, int fields = 0) {
    for (mwSize d : dims) if (d < 0 || d > (1 << 28)) pbt::bail("array of an impossible size requested", pbt::cat(d));
    while (dims.size() < 2) dims.push_back(1);
    while (dims.size() > 2 && dims.back() == 1) dims.pop_back();
    Arr *a; { a = new Arr; a->cls = cls; a->dims = dims; }
    a->bytes = a->count() * unit(cls);
    if (unit(cls)) a->data = (char *) calloc(a->bytes ? a->bytes : 1, 1);
    if (cls == mxCELL_CLASS) a->cells.assign(a->count(), nullptr);
    if (cls == mxSTRUCT_CLASS) a->cells.assign(a->count() * (size_t) fields, nullptr);
    live.insert(a);
    return a;
}
static Arr *mine(Arr *a) { owned.insert(a); return a; }
void drop(Arr *a) {
    if (!a) return;
    for (Arr *c : a->cells) drop(c);
    live.erase(a); owned.erase(a); free(a->data); delete a;
}
Arr *copy(const Arr *a) {
    if (!a) return nullptr;
    Arr *b = make(a->cls, a->dims, (int) a->fields.size());
    b->fields = a->fields;
    if (a->bytes) memcpy(b->data, a->data, a->bytes);
    for (size_t i = 0; i < a->cells.size(); i++) if ((b->cells[i] = copy(a->cells[i]))) b->cells[i]->parent = b;
    return b;
}
template <class F> static void put(Arr *a, F f) { for (size_t i = 0; i < a->count(); i++) f(i); }
static void store(Arr *a, size_t i, double v) {
    switch (a->cls) {
    case mxDOUBLE_CLASS: ((double *) a->data)[i] = v; break;
    case mxSINGLE_CLASS: ((float *) a->data)[i] = (float) v; break;
    case mxINT8_CLASS: ((int8_t *) a->data)[i] = (int8_t) v; break;
    case mxUINT8_CLASS: ((uint8_t *) a->data)[i] = (uint8_t) v; break;
    case mxINT16_CLASS: ((int16_t *) a->data)[i] = (int16_t) v; break;
    case mxUINT16_CLASS: ((uint16_t *) a->data)[i] = (uint16_t) v; break;
    case mxINT32_CLASS: ((int32_t *) a->data)[i] = (int32_t) v; break;
    case mxUINT32_CLASS: ((uint32_t *) a->data)[i] = (uint32_t) v; break;
    case mxINT64_CLASS: ((int64_t *) a->data)[i] = (int64_t) v; break;
    case mxUINT64_CLASS: ((uint64_t *) a->data)[i] = (uint64_t) v; break;
    case mxLOGICAL_CLASS: a->data[i] = v != 0; break;
    case mxCHAR_CLASS: a->data[i] = (char) v; break;
    default: pbt::bail("number stored in an array that holds none", "");
    }
}
double value(const Arr *a, size_t i) {
    if (i >= a->count()) return 0;
    switch (a->cls) {
    case mxDOUBLE_CLASS: return ((double *) a->data)[i];
    case mxSINGLE_CLASS: return ((float *) a->data)[i];
    case mxINT8_CLASS: return ((int8_t *) a->data)[i];
    case mxUINT8_CLASS: case mxCHAR_CLASS: case mxLOGICAL_CLASS: return ((uint8_t *) a->data)[i];
    case mxINT16_CLASS: return ((int16_t *) a->data)[i];
    case mxUINT16_CLASS: return ((uint16_t *) a->data)[i];
    case mxINT32_CLASS: return ((int32_t *) a->data)[i];
    case mxUINT32_CLASS: return ((uint32_t *) a->data)[i];
    case mxINT64_CLASS: return (double) ((int64_t *) a->data)[i];
    case mxUINT64_CLASS: return (double) ((uint64_t *) a->data)[i];
    default: return 0;
    }
}
Arr *number(double v, int cls) { Arr *a = make(cls, {1, 1}); store(a, 0, v); return a; }
Arr *array(int cls, std::vector<mwSize> dims, const void *data) { Arr *a = make(cls, dims); if (data && a->bytes) memcpy(a->data, data, a->bytes); return a; }
Arr *str(const std::string &s, bool square_empty) { return array(mxCHAR_CLASS, {s.empty() && square_empty ? 0 : 1, (mwSize) s.size()}, s.data()); }
Arr *cell(std::vector<mwSize> dims, const std::vector<Arr *> &e) {
    Arr *a = make(mxCELL_CLASS, dims);
    for (size_t i = 0; i < e.size() && i < a->cells.size(); i++) { a->cells[i] = e[i]; e[i]->parent = a; }
    return a;
}
Arr *record(const std::vector<std::pair<std::string, Arr *>> &f) {
    Arr *a = make(mxSTRUCT_CLASS, {1, 1}, (int) f.size());
    for (size_t i = 0; i < f.size(); i++) { a->fields.push_back(f[i].first); a->cells[i] = f[i].second; f[i].second->parent = a; }
    return a;
}
Arr *empty() { return make(mxDOUBLE_CLASS, {0, 0}); }
Arr *function() { return make(mxFUNCTION_CLASS, {1, 1}); }
static bool nothing(const Arr *a) { return !a || (a->cls == mxDOUBLE_CLASS && a->count() == 0); }
bool equal(const Arr *a, const Arr *b) {
    if (nothing(a) || nothing(b)) return nothing(a) && nothing(b);
    if (a->cls != b->cls || a->dims != b->dims || a->fields != b->fields || a->cells.size() != b->cells.size()) return false;
    if (a->bytes && memcmp(a->data, b->data, a->bytes)) return false;
    for (size_t i = 0; i < a->cells.size(); i++) if (!equal(a->cells[i], b->cells[i])) return false;
    return true;
}
static const char *class_name(int c) {
    switch (c) {
    case mxCELL_CLASS: return "cell"; case mxSTRUCT_CLASS: return "struct"; case mxLOGICAL_CLASS: return "logical"; case mxCHAR_CLASS: return "char";
    case mxDOUBLE_CLASS: return "double"; case mxSINGLE_CLASS: return "single"; case mxINT8_CLASS: return "int8"; case mxUINT8_CLASS: return "uint8";
    case mxINT16_CLASS: return "int16"; case mxUINT16_CLASS: return "uint16"; case mxINT32_CLASS: return "int32"; case mxUINT32_CLASS: return "uint32";
    case mxINT64_CLASS: return "int64"; case mxUINT64_CLASS: return "uint64"; case mxFUNCTION_CLASS: return "function_handle"; default: return "unknown";
    }
}
std::string show(const Arr *a, int depth) {
    if (!a) return "[]";
    std::string s = class_name(a->cls);
    for (size_t i = 0; i < a->dims.size(); i++) s += pbt::cat(i ? "x" : " ", a->dims[i]);
    if (a->cls == mxCHAR_CLASS) return s + " " + pbt::quote(std::string(a->data, a->bytes), 80);
    if (depth > 3) return s;
    s += " (";
    if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) {
        for (size_t i = 0; i < a->cells.size() && i < 6; i++) s += (i ? ", " : "") + (i < a->fields.size() ? a->fields[i] + ": " : std::string()) + show(a->cells[i], depth + 1);
    } else for (size_t i = 0; i < a->count() && i < 12; i++) s += pbt::cat(i ? " " : "", value(a, i));
    return s + ")";
}
bool is_row(const Arr *a) { return a->dims.size() == 2 && a->dims[0] == 1; }
std::string text(const Arr *a, const char *what) {
    if (!a || a->cls != mxCHAR_CLASS) pbt::fail(pbt::cat(what, " is not a string"), show(a));
    if (a->count() && !is_row(a)) pbt::fail(pbt::cat(what, " is not a string in one row"), show(a));
    return std::string(a->data, a->bytes);
}

Result call(Entry f, int nlhs, const std::vector<Arr *> &in) {
    Result r;
    printed.clear();
    int slots = nlhs > 0 ? nlhs : 1;
    mxArray **lhs = (mxArray **) calloc((size_t) slots, sizeof(mxArray *));
    const mxArray **rhs = (const mxArray **) malloc(in.size() * sizeof(mxArray *));
    std::vector<Arr *> before; std::set<Arr *> mark;
    std::function<void(Arr *)> set = [&](Arr *a) { if (a) { a->input = true; for (Arr *c : a->cells) set(c); } };
    for (size_t i = 0; i < in.size(); i++) { set(in[i]); rhs[i] = in[i]; before.push_back(copy(in[i])); }
    owned.clear(); blocks.clear();
    try { f(nlhs, lhs, (int) in.size(), rhs); }
    catch (const Error &e) { r.error = true; r.message = e.what(); }
    catch (const pbt::Failure &) { throw; }
    catch (const pbt::Discard &) { throw; }
    catch (const std::exception &e) { pbt::fail("the function ended with an exception of its own", e.what()); }
    for (size_t i = 0; i < in.size(); i++) {
        if (!equal(in[i], before[i])) pbt::fail("the function changed its input", pbt::cat("argument ", i, " was ", show(before[i]), ", is ", show(in[i])));
        drop(before[i]);
    }
    if (!r.error) for (int i = 0; i < nlhs; i++) {
        Arr *a = (Arr *) lhs[i];
        if (!a) pbt::fail("the function gave no value for an output", pbt::cat("output ", i));
        if (!live.count(a)) pbt::fail("the function gave back an array that no longer exists", pbt::cat("output ", i));
        r.out.push_back(copy(a));
    }
    std::vector<Arr *> roots; for (Arr *a : owned) if (!a->parent) roots.push_back(a);
    for (Arr *a : roots) if (live.count(a)) drop(a);
    owned.clear();
    for (void *p : blocks) free(p);
    blocks.clear();
    for (Arr *a : in) drop(a);
    free(lhs); free(rhs);
    return r;
}
static Arr *get(const mxArray *p, const char *what) {
    if (!p) pbt::bail("an array function was given no array", what);
    if (!live.count((Arr *) p)) pbt::bail("an array was used after it was destroyed", what);
    return (Arr *) p;
}
static void adopt(Arr *parent, Arr **slot, mxArray *v) {
    if (parent->input) pbt::bail("the function changed its input", "");
    Arr *a = v ? get(v, "element") : nullptr;
    if (a && (a->parent || a->input)) pbt::bail("an array was made part of two others", "");
    if (*slot) (*slot)->parent = nullptr;
    *slot = a; if (a) a->parent = parent;
}
[[noreturn]] static void error(const char *fmt, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, fmt, ap); throw Error(b); }
}

using namespace mx;
#define A(p) get(p, __func__)
extern "C" {
const char *mexFunctionName(void) { return "trax"; }
void mexErrMsgTxt(const char *s) { throw Error(s && *s ? s : "unspecified error"); }
void mexErrMsgIdAndTxt(const char *, const char *s, ...) { va_list ap; va_start(ap, s); error(s, ap); }
void mexWarnMsgTxt(const char *) {}
void mexWarnMsgIdAndTxt(const char *, const char *, ...) {}
int mexPrintf(const char *f, ...) { char *b = NULL; va_list ap; va_start(ap, f); int n = vasprintf(&b, f, ap); va_end(ap); { std::lock_guard<std::mutex> g(printing); if (n > 0) printed.append(b, (size_t) n); } free(b); return n; }
void mexSetTrapFlag(int) {}
int mexAtExit(void (*)(void)) { return 0; }
void mexLock(void) {}
void mexUnlock(void) {}
int mexIsLocked(void) { return 0; }
void mexMakeArrayPersistent(mxArray *p) { owned.erase(A(p)); }
void mexMakeMemoryPersistent(void *p) { blocks.erase(p); }
int mexCallMATLAB(int nargout, mxArray *out[], int nargin, mxArray *in[], const char *name) {
    std::vector<const Arr *> args;
    for (int i = 0; i < nargin; i++) args.push_back(A(in[i]));
    if (!callback) pbt::bail("a function called back unexpectedly", name ? name : "");
    std::vector<Arr *> r = callback(nargout, args, name ? name : "");
    for (int i = 0; i < nargout; i++) out[i] = i < (int) r.size() ? mine(r[(size_t) i]) : nullptr;
    return 0;
}
mxArray *mexCallMATLABWithTrap(int nargout, mxArray *out[], int nargin, mxArray *in[], const char *name) {
    try { mexCallMATLAB(nargout, out, nargin, in, name); return NULL; }
    catch (const Error &e) { return mine(record({{"message", str(e.what())}})); }
}
bool mxIsFinite(double v) { return std::isfinite(v); }
bool mxIsInf(double v) { return std::isinf(v); }
bool mxIsNaN(double v) { return std::isnan(v); }
double mxGetEps(void) { return 2.220446049250313e-16; }
double mxGetInf(void) { return INFINITY; }
double mxGetNaN(void) { return NAN; }
void *mxCalloc(size_t n, size_t m) { void *p = calloc(n ? n : 1, m ? m : 1); blocks.insert(p); return p; }
void *mxMalloc(size_t n) { void *p = malloc(n ? n : 1); blocks.insert(p); return p; }
void *mxRealloc(void *q, size_t n) { if (q && !blocks.erase(q)) pbt::bail("memory reallocated that was not allocated", ""); void *p = realloc(q, n ? n : 1); blocks.insert(p); return p; }
void mxFree(void *p) { if (!p) return; if (!blocks.erase(p)) pbt::bail("memory released that was not allocated", ""); free(p); }
mxArray *mxCreateCellArray(mwSize n, const mwSize *d) { return mine(make(mxCELL_CLASS, std::vector<mwSize>(d, d + n))); }
mxArray *mxCreateCellMatrix(mwSize m, mwSize n) { return mine(make(mxCELL_CLASS, {m, n})); }
mxArray *mxCreateCharArray(mwSize n, const mwSize *d) { return mine(make(mxCHAR_CLASS, std::vector<mwSize>(d, d + n))); }
mxArray *mxCreateCharMatrixFromStrings(mwSize m, const char **s) {
    size_t w = 0; for (mwSize i = 0; i < m; i++) w = std::max(w, strlen(s[i]));
    Arr *a = make(mxCHAR_CLASS, {m, (mwSize) w});
    for (mwSize i = 0; i < m; i++) { size_t l = strlen(s[i]); for (size_t j = 0; j < w; j++) a->data[j * (size_t) m + (size_t) i] = j < l ? s[i][j] : 0; }
    return mine(a);
}
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return mine(make(mxDOUBLE_CLASS, {m, n})); }
mxArray *mxCreateDoubleScalar(double v) { return mine(number(v)); }
mxArray *mxCreateLogicalArray(mwSize n, const mwSize *d) { return mine(make(mxLOGICAL_CLASS, std::vector<mwSize>(d, d + n))); }
mxArray *mxCreateLogicalMatrix(mwSize m, mwSize n) { return mine(make(mxLOGICAL_CLASS, {m, n})); }
mxArray *mxCreateLogicalScalar(mxLogical v) { return mine(number(v, mxLOGICAL_CLASS)); }
mxArray *mxCreateNumericArray(mwSize n, const mwSize *d, mxClassID c, mxComplexity) { return mine(make(c, std::vector<mwSize>(d, d + n))); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { return mine(make(c, {m, n})); }
mxArray *mxCreateUninitNumericArray(mwSize n, const mwSize *d, mxClassID c, mxComplexity) { Arr *a = make(c, std::vector<mwSize>(d, d + n)); memset(a->data, 0xAA, a->bytes); return mine(a); }
mxArray *mxCreateUninitNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { Arr *a = make(c, {m, n}); memset(a->data, 0xAA, a->bytes); return mine(a); }
mxArray *mxCreateString(const char *s) { return mine(str(s ? s : "")); }
mxArray *mxCreateStructArray(mwSize n, const mwSize *d, int k, const char **keys) { Arr *a = make(mxSTRUCT_CLASS, std::vector<mwSize>(d, d + n), k); for (int i = 0; i < k; i++) a->fields.push_back(keys[i]); return mine(a); }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int k, const char **keys) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, k, keys); }
mxArray *mxDuplicateArray(const mxArray *p) { return mine(copy(A(p))); }
void mxDestroyArray(mxArray *p) {
    if (!p) return;
    Arr *a = A(p);
    if (a->input) pbt::bail("the function destroyed its input", "");
    if (a->parent) pbt::bail("an array was destroyed while it was part of another", "");
    drop(a);
}
bool mxIsCell(const mxArray *p) { return A(p)->cls == mxCELL_CLASS; }
bool mxIsChar(const mxArray *p) { return A(p)->cls == mxCHAR_CLASS; }
bool mxIsClass(const mxArray *p, const char *n) { return !strcmp(class_name(A(p)->cls), n); }
bool mxIsComplex(const mxArray *) { return false; }
bool mxIsDouble(const mxArray *p) { return A(p)->cls == mxDOUBLE_CLASS; }
bool mxIsFunctionHandle(const mxArray *p) { return A(p)->cls == mxFUNCTION_CLASS; }
bool mxIsInt16(const mxArray *p) { return A(p)->cls == mxINT16_CLASS; }
bool mxIsInt32(const mxArray *p) { return A(p)->cls == mxINT32_CLASS; }
bool mxIsInt64(const mxArray *p) { return A(p)->cls == mxINT64_CLASS; }
bool mxIsInt8(const mxArray *p) { return A(p)->cls == mxINT8_CLASS; }
bool mxIsLogical(const mxArray *p) { return A(p)->cls == mxLOGICAL_CLASS; }
bool mxIsNumeric(const mxArray *p) { int c = A(p)->cls; return c >= mxDOUBLE_CLASS && c <= mxUINT64_CLASS; }
bool mxIsSingle(const mxArray *p) { return A(p)->cls == mxSINGLE_CLASS; }
bool mxIsSparse(const mxArray *) { return false; }
bool mxIsStruct(const mxArray *p) { return A(p)->cls == mxSTRUCT_CLASS; }
bool mxIsUint16(const mxArray *p) { return A(p)->cls == mxUINT16_CLASS; }
bool mxIsUint32(const mxArray *p) { return A(p)->cls == mxUINT32_CLASS; }
bool mxIsUint64(const mxArray *p) { return A(p)->cls == mxUINT64_CLASS; }
bool mxIsUint8(const mxArray *p) { return A(p)->cls == mxUINT8_CLASS; }
bool mxIsLogicalScalar(const mxArray *p) { return mxIsLogical(p) && A(p)->count() == 1; }
bool mxIsLogicalScalarTrue(const mxArray *p) { return mxIsLogicalScalar(p) && A(p)->data[0]; }
bool mxIsEmpty(const mxArray *p) { return A(p)->count() == 0; }
bool mxIsScalar(const mxArray *p) { return A(p)->count() == 1; }
bool mxIsFromGlobalWS(const mxArray *) { return false; }
size_t mxGetM(const mxArray *p) { return (size_t) A(p)->dims[0]; }
size_t mxGetN(const mxArray *p) { return A(p)->cols(); }
const mwSize *mxGetDimensions(const mxArray *p) { return A(p)->dims.data(); }
mwSize mxGetNumberOfDimensions(const mxArray *p) { return (mwSize) A(p)->dims.size(); }
size_t mxGetNumberOfElements(const mxArray *p) { return A(p)->count(); }
double *mxGetPr(const mxArray *p) { return (double *) A(p)->data; }
void *mxGetData(const mxArray *p) { return A(p)->data; }
mxChar *mxGetChars(const mxArray *p) { return mxIsChar(p) ? (mxChar *) A(p)->data : NULL; }
mxLogical *mxGetLogicals(const mxArray *p) { return mxIsLogical(p) ? (mxLogical *) A(p)->data : NULL; }
double mxGetScalar(const mxArray *p) {
    Arr *a = A(p);
    if (!a->data) throw Error("not a number");
    if (!a->count()) pbt::bail("the value of an empty array was read as a number", "");
    return value(a, 0);
}
mxClassID mxGetClassID(const mxArray *p) { return (mxClassID) A(p)->cls; }
const char *mxGetClassName(const mxArray *p) { return class_name(A(p)->cls); }
static Arr *part(const Arr *a, size_t i) {
    if (i >= a->cells.size()) { if (a->cells.empty()) return nullptr; pbt::bail("element outside an array read", pbt::cat(i, " of ", a->cells.size())); }
    return a->cells[i];
}
mxArray *mxGetCell(const mxArray *p, mwIndex i) { Arr *a = A(p); if (a->cls != mxCELL_CLASS) pbt::bail("element of an array that is no cell array read", ""); return i < 0 ? nullptr : part(a, (size_t) i); }
void mxSetCell(mxArray *p, mwIndex i, mxArray *v) { Arr *a = A(p); if (i < 0 || (size_t) i >= a->cells.size()) pbt::bail("element outside a cell array set", ""); adopt(a, &a->cells[(size_t) i], v); }
int mxGetNumberOfFields(const mxArray *p) { return (int) A(p)->fields.size(); }
const char *mxGetFieldNameByNumber(const mxArray *p, int k) { Arr *a = A(p); return k >= 0 && k < (int) a->fields.size() ? a->fields[(size_t) k].c_str() : NULL; }
int mxGetFieldNumber(const mxArray *p, const char *key) { Arr *a = A(p); for (size_t i = 0; i < a->fields.size(); i++) if (a->fields[i] == key) return (int) i; return -1; }
mxArray *mxGetFieldByNumber(const mxArray *p, mwIndex i, int k) { Arr *a = A(p); return k < 0 || k >= (int) a->fields.size() ? nullptr : part(a, (size_t) i * a->fields.size() + (size_t) k); }
mxArray *mxGetField(const mxArray *p, mwIndex i, const char *key) { return mxGetFieldByNumber(p, i, mxGetFieldNumber(p, key)); }
void mxSetFieldByNumber(mxArray *p, mwIndex i, int k, mxArray *v) {
    Arr *a = A(p);
    if (i < 0 || k < 0 || k >= (int) a->fields.size() || (size_t) i >= a->count()) pbt::bail("field outside a structure set", "");
    adopt(a, &a->cells[(size_t) i * a->fields.size() + (size_t) k], v);
}
void mxSetField(mxArray *p, mwIndex i, const char *key, mxArray *v) { int k = mxGetFieldNumber(p, key); if (k >= 0) mxSetFieldByNumber(p, i, k, v); }
int mxAddField(mxArray *p, const char *key) {
    Arr *a = A(p); size_t n = a->count(), k = a->fields.size(); std::vector<Arr *> c(n * (k + 1), nullptr);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k; j++) c[i * (k + 1) + j] = a->cells[i * k + j];
    a->cells = c; a->fields.push_back(key); return (int) k;
}
int mxGetString(const mxArray *p, char *buf, mwSize n) {
    Arr *a = A(p);
    if (a->cls != mxCHAR_CLASS || n <= 0) return 1;
    size_t k = std::min(a->bytes, (size_t) n - 1);
    memcpy(buf, a->data, k); buf[k] = 0;
    return a->bytes > k;
}
char *mxArrayToString(const mxArray *p) { Arr *a = A(p); if (a->cls != mxCHAR_CLASS) return NULL; char *b = (char *) mxMalloc(a->bytes + 1); memcpy(b, a->data, a->bytes); b[a->bytes] = 0; return b; }
mwIndex mxCalcSingleSubscript(const mxArray *p, mwSize n, mwIndex *s) { Arr *a = A(p); mwIndex r = 0, f = 1; for (mwSize i = 0; i < n; i++) { r += f * s[i]; if ((size_t) i < a->dims.size()) f *= a->dims[(size_t) i]; } return r; }
size_t mxGetElementSize(const mxArray *p) { size_t u = unit(A(p)->cls); return u ? u : sizeof(void *); }
void mxSetM(mxArray *p, mwSize m) { Arr *a = A(p); a->dims[0] = m; }
void mxSetN(mxArray *p, mwSize n) { Arr *a = A(p); a->dims = {a->dims[0], n}; }
int mxSetDimensions(mxArray *p, const mwSize *d, mwSize n) { Arr *a = A(p); a->dims.assign(d, d + n); while (a->dims.size() < 2) a->dims.push_back(1); while (a->dims.size() > 2 && a->dims.back() == 1) a->dims.pop_back(); return 0; }
}
