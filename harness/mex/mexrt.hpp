// The side of the MEX interface that Octave or MATLAB normally provides, small and strict.
//
// The functions under test see arrays through the usual mx* functions.  Array contents live in heap
// blocks of their exact size and the argument lists are allocated exactly as long as promised, so a
// sanitizer sees every access beyond them.  Arrays made during a call belong to that call and are
// released when it ends, as in Octave; destroying one twice, or one that belongs to the caller, is a
// failure of the case.
#pragma once
#include "pbt.hpp"
#include <functional>
#include "mex.h"

namespace mx {

struct Arr {                              // what an mxArray is
    int cls = mxDOUBLE_CLASS;
    std::vector<mwSize> dims{0, 0};
    char *data = nullptr; size_t bytes = 0;
    std::vector<Arr *> cells;             // elements of a cell array, or of a struct array (field number fastest)
    std::vector<std::string> fields;
    Arr *parent = nullptr;
    bool input = false;                   // belongs to the caller
    size_t count() const { size_t n = 1; for (mwSize d : dims) n *= (size_t) d; return n; }
    size_t cols() const { size_t n = 1; for (size_t i = 1; i < dims.size(); i++) n *= (size_t) dims[i]; return n; }
};

struct Error : std::runtime_error { using std::runtime_error::runtime_error; };

// making values, for the caller's side
Arr *number(double v, int cls = mxDOUBLE_CLASS);
Arr *array(int cls, std::vector<mwSize> dims, const void *data = nullptr);
Arr *str(const std::string &s, bool square_empty = true);
Arr *cell(std::vector<mwSize> dims, const std::vector<Arr *> &elements);
Arr *record(const std::vector<std::pair<std::string, Arr *>> &fields);
Arr *empty();
Arr *function();                          // a function handle
Arr *copy(const Arr *a);
void drop(Arr *a);
bool equal(const Arr *a, const Arr *b);   // same class, shape and content
std::string show(const Arr *a, int depth = 0);

// reading them
inline bool is_empty(const Arr *a) { return a->count() == 0; }
bool is_row(const Arr *a);
std::string text(const Arr *a, const char *what);      // a char row (or nothing) as a string
double value(const Arr *a, size_t i);

struct Result {
    bool error = false; std::string message;
    std::vector<Arr *> out;               // nlhs of them
    Result() {}
    Result(Result &&) = default;
    Result(const Result &) = delete;
    ~Result() { for (Arr *a : out) drop(a); }
};
typedef void (*Entry)(int, mxArray **, int, const mxArray **);
Result call(Entry f, int nlhs, const std::vector<Arr *> &in);    // takes the arguments

// answers calls back into the interpreter: gets copies of the arguments, gives the results
typedef std::function<std::vector<Arr *>(int nlhs, const std::vector<const Arr *> &in, const std::string &name)> Callback;
extern Callback callback;
extern std::string printed;               // what the function printed
}
