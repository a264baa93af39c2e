// A stand-in for the parts of R, Rcpp and Armadillo that C++ code embedded in
// an R script needs: vectors with R's reference semantics and coercions, lists,
// data frames, attributes, and column-major matrices and cubes.  R itself is
// not installed here; this is enough to run the embedded code.
#ifndef RSTUB_H
#define RSTUB_H
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

enum { NILSXP = 0, LGLSXP = 10, INTSXP = 13, REALSXP = 14, STRSXP = 16, VECSXP = 19 };
typedef std::ptrdiff_t R_xlen_t;
struct SEXPREC {
    int type = NILSXP;
    std::vector<double> d; std::vector<int> i; std::vector<std::string> s; std::vector<SEXPREC *> l;
    std::map<std::string, SEXPREC *> attr;
};
typedef SEXPREC *SEXP;
namespace rstub {
inline std::vector<std::unique_ptr<SEXPREC> > &arena() { static std::vector<std::unique_ptr<SEXPREC> > a; return a; }
inline SEXP alloc(int type) { arena().emplace_back(new SEXPREC()); arena().back()->type = type; return arena().back().get(); }
inline void reset() { arena().clear(); }
inline SEXP nil() { static SEXPREC n; return &n; }
}
#define R_NilValue (rstub::nil())
static const double NA_REAL = std::numeric_limits<double>::quiet_NaN(), R_NaN = NA_REAL, R_NaReal = NA_REAL;
static const double R_PosInf = std::numeric_limits<double>::infinity(), R_NegInf = -R_PosInf;
static const int NA_INTEGER = std::numeric_limits<int>::min(), R_NaInt = NA_INTEGER, NA_LOGICAL = NA_INTEGER;
inline int TYPEOF(SEXP x) { return x->type; }
inline R_xlen_t Rf_xlength(SEXP x) { return x->type == REALSXP ? x->d.size() : x->type == INTSXP || x->type == LGLSXP ? x->i.size() : x->type == STRSXP ? x->s.size() : x->l.size(); }
inline int Rf_length(SEXP x) { return (int)Rf_xlength(x); }
inline int LENGTH(SEXP x) { return (int)Rf_xlength(x); }
inline R_xlen_t XLENGTH(SEXP x) { return Rf_xlength(x); }
inline double *REAL(SEXP x) { return x->d.data(); }
inline int *INTEGER(SEXP x) { return x->i.data(); }
inline int *LOGICAL(SEXP x) { return x->i.data(); }
inline bool Rf_isNull(SEXP x) { return x->type == NILSXP; }
inline bool Rf_isReal(SEXP x) { return x->type == REALSXP; }
inline bool Rf_isInteger(SEXP x) { return x->type == INTSXP; }
inline bool Rf_isNumeric(SEXP x) { return x->type == REALSXP || x->type == INTSXP || x->type == LGLSXP; }
inline SEXP PROTECT(SEXP x) { return x; }
inline void UNPROTECT(int) {}
inline void R_CheckUserInterrupt() {}
inline double Rf_asReal(SEXP x) {
    if (x->type == REALSXP && !x->d.empty()) { return x->d[0]; }
    if ((x->type == INTSXP || x->type == LGLSXP) && !x->i.empty()) { return x->i[0] == NA_INTEGER ? NA_REAL : x->i[0]; }
    return NA_REAL;
}
inline int Rf_asInteger(SEXP x) { double v = Rf_asReal(x); return std::isnan(v) ? NA_INTEGER : (int)v; }
inline SEXP Rf_ScalarReal(double v) { SEXP x = rstub::alloc(REALSXP); x->d.push_back(v); return x; }
inline SEXP Rf_ScalarInteger(int v) { SEXP x = rstub::alloc(INTSXP); x->i.push_back(v); return x; }
inline SEXP Rf_ScalarLogical(int v) { SEXP x = rstub::alloc(LGLSXP); x->i.push_back(v); return x; }
inline SEXP Rf_allocVector(int type, R_xlen_t n) {
    SEXP x = rstub::alloc(type);
    if (type == REALSXP) { x->d.resize(n); } else if (type == STRSXP) { x->s.resize(n); } else if (type == VECSXP) { x->l.assign(n, R_NilValue); } else { x->i.resize(n); }
    return x;
}
inline SEXP Rf_install(const char *n) { SEXP x = rstub::alloc(STRSXP); x->s.push_back(n); return x; }
inline SEXP Rf_mkString(const char *n) { return Rf_install(n); }
#define R_DimSymbol Rf_install("dim")
#define R_NamesSymbol Rf_install("names")
inline SEXP Rf_getAttrib(SEXP x, SEXP n) { auto it = x->attr.find(n->s.at(0)); return it == x->attr.end() ? R_NilValue : it->second; }
inline SEXP Rf_setAttrib(SEXP x, SEXP n, SEXP v) { x->attr[n->s.at(0)] = v; return v; }
inline SEXP VECTOR_ELT(SEXP x, R_xlen_t i) { return x->l.at(i); }
inline SEXP SET_VECTOR_ELT(SEXP x, R_xlen_t i, SEXP v) { return x->l.at(i) = v; }
inline SEXP Rf_coerceVector(SEXP x, int type) {      // keeps the attributes, as R does
    if (x->type == type) { return x; }
    SEXP y = rstub::alloc(type); y->attr = x->attr;
    auto bad = [] { throw std::runtime_error("Not compatible with requested type"); };
    if (type == REALSXP && (x->type == INTSXP || x->type == LGLSXP)) { for (int v : x->i) { y->d.push_back(v == NA_INTEGER ? NA_REAL : v); } }
    else if ((type == INTSXP || type == LGLSXP) && x->type == REALSXP) { for (double v : x->d) { y->i.push_back(std::isnan(v) ? NA_INTEGER : type == LGLSXP ? v != 0 : (int)v); } }
    else if ((type == INTSXP || type == LGLSXP) && (x->type == INTSXP || x->type == LGLSXP)) { y->i = x->i; }
    else if (type == VECSXP) {
        for (double v : x->d) { y->l.push_back(Rf_ScalarReal(v)); }
        for (int v : x->i) { y->l.push_back(x->type == LGLSXP ? Rf_ScalarLogical(v) : Rf_ScalarInteger(v)); }
        for (auto &v : x->s) { y->l.push_back(Rf_mkString(v.c_str())); }
    } else { bad(); }
    return y;
}

namespace Rcpp {
typedef std::string String;
static std::ostream &Rcout = std::cerr;
static std::ostream &Rcerr = std::cerr;
inline void checkUserInterrupt() {}
class exception : public std::runtime_error { public: exception(const char *m, bool = true) : std::runtime_error(m) {} };
class not_compatible : public std::runtime_error { public: not_compatible(const std::string &m) : std::runtime_error(m) {} };
inline void stop(const std::string &m) { throw std::runtime_error(m); }
template<class... A> void stop(const char *f, A...) { throw std::runtime_error(f); }
template<class... A> void warning(const A &...) {}

template<int RT> struct storage;
template<> struct storage<REALSXP> { typedef double type; static std::vector<double> &of(SEXP x) { return x->d; } };
template<> struct storage<INTSXP> { typedef int type; static std::vector<int> &of(SEXP x) { return x->i; } };
template<> struct storage<LGLSXP> { typedef int type; static std::vector<int> &of(SEXP x) { return x->i; } };
template<> struct storage<STRSXP> { typedef std::string type; static std::vector<std::string> &of(SEXP x) { return x->s; } };

template<class T> T as(SEXP x);
template<class T> SEXP wrap(const T &v);

// what attr("..") and a list element give: readable as anything, assignable
class Proxy {
public:
    std::function<SEXP()> get; std::function<void(SEXP)> set;
    template<class T> Proxy &operator=(const T &v) { set(wrap(v)); return *this; }
    Proxy &operator=(const Proxy &o) { set(o.get()); return *this; }
    Proxy(std::function<SEXP()> g, std::function<void(SEXP)> s) : get(g), set(s) {}
    Proxy(const Proxy &) = default;
    template<class T> operator T() const { return as<T>(get()); }
    operator SEXP() const { return get(); }
};
class Dimension {
public:
    std::vector<int> d;
    Dimension(size_t a) : d{(int)a} {}
    Dimension(size_t a, size_t b) : d{(int)a, (int)b} {}
    Dimension(size_t a, size_t b, size_t c) : d{(int)a, (int)b, (int)c} {}
    Dimension(SEXP x) : d(Rf_coerceVector(x, INTSXP)->i) {}
    size_t size() const { return d.size(); }
    int operator[](int i) const { return d.at(i); }
    int prod() const { int p = 1; for (int x : d) { p *= x; } return p; }
    operator SEXP() const { SEXP x = rstub::alloc(INTSXP); x->i = d; return x; }
};
class Object {
protected:
    SEXP x_ = R_NilValue;
public:
    operator SEXP() const { return x_; }
    SEXP get__() const { return x_; }
    Proxy attr(const std::string &n) const {
        SEXP x = x_;
        return Proxy([x, n] { auto it = x->attr.find(n); return it == x->attr.end() ? R_NilValue : it->second; }, [x, n](SEXP v) { x->attr[n] = v; });
    }
    bool hasAttribute(const std::string &n) const { return x_->attr.count(n) > 0; }
    Proxy names() const { return attr("names"); }
    bool isNULL() const { return x_->type == NILSXP; }
    void check(R_xlen_t i, size_t n) const { if (i < 0 || (size_t)i >= n) { throw std::out_of_range("subscript out of bounds"); } }
};
typedef Object RObject;

template<int RT> class Vector : public Object {
    typedef storage<RT> S;
public:
    typedef typename S::type stored_type, value_type;
    typedef stored_type &reference; typedef const stored_type &const_reference;
    typedef stored_type *iterator; typedef const stored_type *const_iterator;
    Vector() { x_ = rstub::alloc(RT); }
    Vector(SEXP x) { x_ = Rf_coerceVector(x, RT); }
    Vector(const Vector &o) : Object() { x_ = o.x_; }
    Vector(const Proxy &p) { x_ = Rf_coerceVector(p.get(), RT); }
    Vector(const Object &o) { x_ = Rf_coerceVector((SEXP)o, RT); }
    template<class N, class = typename std::enable_if<std::is_arithmetic<N>::value>::type> Vector(N n) { x_ = Rf_allocVector(RT, (R_xlen_t)n); }
    template<class N, class V, class = typename std::enable_if<std::is_arithmetic<N>::value && std::is_convertible<V, stored_type>::value>::type>
    Vector(N n, const V &v) { x_ = rstub::alloc(RT); S::of(x_).assign((size_t)n, (stored_type)v); }
    template<class I, class = typename std::enable_if<!std::is_arithmetic<I>::value>::type, class = typename std::iterator_traits<I>::reference>
    Vector(I a, I b) { x_ = rstub::alloc(RT); for (; a != b; ++a) { S::of(x_).push_back((stored_type)*a); } }
    Vector(std::initializer_list<stored_type> v) { x_ = rstub::alloc(RT); S::of(x_) = v; }
    Vector(const Dimension &d) { x_ = Rf_allocVector(RT, d.prod()); x_->attr["dim"] = d; }
    template<class T> Vector(const std::vector<T> &v) { x_ = rstub::alloc(RT); S::of(x_).assign(v.begin(), v.end()); }
    Vector &operator=(const Vector &o) { x_ = o.x_; return *this; }
    template<class T> Vector &operator=(const T &v) { x_ = Rf_coerceVector(wrap(v), RT); return *this; }
    template<class... A> static Vector create(const A &... a) { Vector v; (void)std::initializer_list<int>{(v.push_back(a), 0)...}; return v; }
    R_xlen_t size() const { return (R_xlen_t)S::of(x_).size(); }
    R_xlen_t length() const { return size(); }
    int nrow() const { return Rf_coerceVector(x_->attr.at("dim"), INTSXP)->i.at(0); }
    int ncol() const { return Rf_coerceVector(x_->attr.at("dim"), INTSXP)->i.at(1); }
    // R's own check of bounds is only a warning; here an access outside is an error
    stored_type &operator[](R_xlen_t i) const { check(i, S::of(x_).size()); return S::of(x_)[i]; }
    stored_type &operator()(R_xlen_t i) const { return (*this)[i]; }
    stored_type &operator()(int i, int j) const { return (*this)[i + (R_xlen_t)nrow() * j]; }
    stored_type &at(R_xlen_t i) const { return (*this)[i]; }
    iterator begin() const { return S::of(x_).data(); }
    iterator end() const { return S::of(x_).data() + size(); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    void push_back(const stored_type &v) { S::of(x_).push_back(v); }
    void push_front(const stored_type &v) { S::of(x_).insert(S::of(x_).begin(), v); }
    void fill(const stored_type &v) { std::fill(begin(), end(), v); }
    static bool is_na(stored_type) { return false; }
};
typedef Vector<REALSXP> NumericVector;
typedef NumericVector DoubleVector;
typedef Vector<INTSXP> IntegerVector;
typedef Vector<LGLSXP> LogicalVector;
typedef Vector<STRSXP> CharacterVector;
typedef CharacterVector StringVector;
template<int RT> class Matrix : public Vector<RT> {
public:
    Matrix(int r = 0, int c = 0) : Vector<RT>(Dimension(r, c)) {}
    Matrix(SEXP x) : Vector<RT>(x) {}
    int rows() const { return this->nrow(); }
    int cols() const { return this->ncol(); }
};
typedef Matrix<REALSXP> NumericMatrix;
typedef Matrix<INTSXP> IntegerMatrix;
template<class V> V clone(const V &v) { SEXP y = rstub::alloc(((SEXP)v)->type); *y = *(SEXP)v; return V(y); }

struct NamedValue { std::string name; SEXP value; operator SEXP() const { return value; } };
struct Named_ {
    std::string name;
    template<class T> NamedValue operator=(const T &v) const { return NamedValue{name, wrap(v)}; }
};
inline Named_ Named(const std::string &n) { return Named_{n}; }
template<class T> NamedValue Named(const std::string &n, const T &v) { return NamedValue{n, wrap(v)}; }
struct Placeholder { Named_ operator[](const std::string &n) const { return Named_{n}; } };
static const Placeholder _ = Placeholder();

class List : public Object {
protected:
    std::vector<std::string> &names_() const {
        SEXP &n = x_->attr["names"];
        if (!n) { n = rstub::alloc(STRSXP); }
        n->s.resize(x_->l.size());
        return n->s;
    }
    int find(const std::string &n) const { auto &v = names_(); for (size_t i = 0; i < v.size(); i++) { if (v[i] == n) { return (int)i; } } return -1; }
public:
    List() { x_ = rstub::alloc(VECSXP); }
    List(SEXP x) { x_ = x->type == NILSXP ? rstub::alloc(VECSXP) : Rf_coerceVector(x, VECSXP); }
    List(const Proxy &p) { x_ = Rf_coerceVector(p.get(), VECSXP); }
    List(const List &o) : Object() { x_ = o.x_; }
    template<class N, class = typename std::enable_if<std::is_arithmetic<N>::value>::type> List(N n) { x_ = Rf_allocVector(VECSXP, (R_xlen_t)n); }
    List &operator=(const List &o) { x_ = o.x_; return *this; }
    R_xlen_t size() const { return (R_xlen_t)x_->l.size(); }
    R_xlen_t length() const { return size(); }
    void push_back(const NamedValue &v) { x_->l.push_back(v.value); names_().back() = v.name; }
    template<class T> void push_back(const T &v) { x_->l.push_back(wrap(v)); }
    template<class T> void push_back(const T &v, const std::string &n) { x_->l.push_back(wrap(v)); names_().back() = n; }
    bool containsElementNamed(const char *n) const { return find(n) >= 0; }
    Proxy operator[](int i) const { SEXP x = x_; return Proxy([x, i] { return x->l.at(i); }, [x, i](SEXP v) { x->l.at(i) = v; }); }
    Proxy operator[](const std::string &n) const {
        List me(*this);
        return Proxy([me, n] { int i = me.find(n); if (i < 0) { throw std::out_of_range("no element " + n); } return me.x_->l[i]; },
                     [me, n](SEXP v) { List m(me); int i = m.find(n); if (i < 0) { m.push_back(NamedValue{n, v}); } else { m.x_->l[i] = v; } });
    }
    Proxy operator[](const char *n) const { return (*this)[std::string(n)]; }
    template<class... A> static List create(const A &... a) { List v; (void)std::initializer_list<int>{(v.push_back(a), 0)...}; return v; }
};
typedef List GenericVector;
class DataFrame : public List {
public:
    DataFrame() {}
    DataFrame(SEXP x) : List(x) {}
    DataFrame(const List &l) : List(l) {}
    DataFrame(const Proxy &p) : List(p) {}
    template<class... A> static DataFrame create(const A &... a) {
        DataFrame d(List::create(a...));
        size_t n = 0;
        SEXP x = d;
        for (SEXP c : x->l) { n = std::max<size_t>(n, Rf_xlength(c)); }
        for (SEXP c : x->l) { size_t m = Rf_xlength(c); if (m != n && (m == 0 || n % m)) { throw std::runtime_error("arguments imply differing number of rows"); } }
        return d;
    }
    int nrows() const { return x_->l.empty() ? 0 : (int)Rf_xlength(x_->l[0]); }
    int nrow() const { return nrows(); }
};
}

namespace arma {
typedef std::size_t uword;
typedef std::ptrdiff_t sword;
template<class T> class Mat {
public:
    std::vector<T> own; T *m = nullptr; uword n_rows = 0, n_cols = 0, n_elem = 0;
    Mat() {}
    Mat(uword r, uword c = 1) : own(r * c), n_rows(r), n_cols(c), n_elem(r * c) { m = own.data(); }
    Mat(T *p, uword r, uword c, bool copy = true, bool = false) : n_rows(r), n_cols(c), n_elem(r * c) { if (copy) { own.assign(p, p + n_elem); m = own.data(); } else { m = p; } }
    Mat(const Mat &o) : own(o.m, o.m + o.n_elem), n_rows(o.n_rows), n_cols(o.n_cols), n_elem(o.n_elem) { m = own.data(); }
    Mat &operator=(const Mat &o) { own.assign(o.m, o.m + o.n_elem); m = own.data(); n_rows = o.n_rows; n_cols = o.n_cols; n_elem = o.n_elem; return *this; }
    T &operator()(uword i) const { if (i >= n_elem) { throw std::logic_error("Mat: index out of bounds"); } return m[i]; }
    T &operator()(uword i, uword j) const { if (i >= n_rows || j >= n_cols) { throw std::logic_error("Mat: index out of bounds"); } return m[i + n_rows * j]; }
    T &operator[](uword i) const { return (*this)(i); }
    T &at(uword i, uword j) const { return (*this)(i, j); }
    T *memptr() const { return m; }
    T *begin() const { return m; }
    T *end() const { return m + n_elem; }
    uword size() const { return n_elem; }
};
template<class T> class Cube {
public:
    std::vector<T> own; T *m = nullptr; uword n_rows = 0, n_cols = 0, n_slices = 0, n_elem = 0, n_elem_slice = 0;
    Cube() {}
    Cube(uword r, uword c, uword s) : own(r * c * s) { shape(r, c, s); m = own.data(); }
    Cube(T *p, uword r, uword c, uword s, bool copy = true, bool = false) { shape(r, c, s); if (copy) { own.assign(p, p + n_elem); m = own.data(); } else { m = p; } }
    Cube(const Cube &o) { *this = o; }
    Cube &operator=(const Cube &o) { own.assign(o.m, o.m + o.n_elem); shape(o.n_rows, o.n_cols, o.n_slices); m = own.data(); return *this; }
    T &operator()(uword i) const { if (i >= n_elem) { throw std::logic_error("Cube: index out of bounds"); } return m[i]; }
    T &operator()(uword i, uword j, uword k) const {
        if (i >= n_rows || j >= n_cols || k >= n_slices) { throw std::logic_error("Cube: index out of bounds"); }
        return m[i + n_rows * (j + n_cols * k)];
    }
    T &operator[](uword i) const { return (*this)(i); }
    T &at(uword i, uword j, uword k) const { return (*this)(i, j, k); }
    Mat<T> slice(uword k) const { if (k >= n_slices) { throw std::logic_error("Cube: slice out of bounds"); } return Mat<T>(m + n_elem_slice * k, n_rows, n_cols, false); }
    T *memptr() const { return m; }
    T *slice_memptr(uword k) const { return m + n_elem_slice * k; }
    T *begin() const { return m; }
    T *end() const { return m + n_elem; }
    uword size() const { return n_elem; }
    void fill(T v) { std::fill(begin(), end(), v); }
    void zeros() { fill(T()); }
private:
    void shape(uword r, uword c, uword s) { n_rows = r; n_cols = c; n_slices = s; n_elem_slice = r * c; n_elem = r * c * s; }
};
typedef Mat<double> mat; typedef Mat<double> vec; typedef Mat<double> colvec; typedef Mat<double> rowvec; typedef Mat<int> imat; typedef Mat<int> ivec;
typedef Cube<double> cube; typedef Cube<int> icube;
}

namespace rstub {
using namespace Rcpp;
template<class T, class = void> struct To { static T get(SEXP x) { return T(x); } };
template<class T> struct To<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
    static T get(SEXP x) {
        if (Rf_xlength(x) != 1) { throw Rcpp::not_compatible("Expecting a single value"); }
        return x->type == REALSXP && std::is_same<T, int>::value ? (T)Rf_asInteger(x) : (T)Rf_asReal(x);
    }
};
template<> struct To<SEXP> { static SEXP get(SEXP x) { return x; } };
template<> struct To<std::string> { static std::string get(SEXP x) { return x->s.at(0); } };
template<class T> struct Seq { static T get(SEXP x) { T r; if (x->type == REALSXP) { r.assign(x->d.begin(), x->d.end()); } else { r.assign(x->i.begin(), x->i.end()); } return r; } };
template<class T> struct To<std::vector<T>, typename std::enable_if<std::is_arithmetic<T>::value>::type> : Seq<std::vector<T> > {};
template<class T> struct To<std::list<T>, typename std::enable_if<std::is_arithmetic<T>::value>::type> : Seq<std::list<T> > {};
template<> struct To<std::vector<std::string> > { static std::vector<std::string> get(SEXP x) { return x->s; } };
template<> struct To<arma::cube> { static arma::cube get(SEXP x) {
    SEXP y = Rf_coerceVector(x, REALSXP), d = Rf_coerceVector(x->attr.at("dim"), INTSXP); return arma::cube(y->d.data(), d->i.at(0), d->i.at(1), d->i.at(2)); } };
template<> struct To<arma::mat> { static arma::mat get(SEXP x) {
    SEXP y = Rf_coerceVector(x, REALSXP); auto it = x->attr.find("dim");
    if (it == x->attr.end()) { return arma::mat(y->d.data(), y->d.size(), 1); }
    SEXP d = Rf_coerceVector(it->second, INTSXP); return arma::mat(y->d.data(), d->i.at(0), d->i.at(1)); } };

inline SEXP from(SEXP x) { return x; }
inline SEXP from(const Object &o) { return o; }
inline SEXP from(const Proxy &p) { return p.get(); }
inline SEXP from(const Dimension &p) { return p; }
inline SEXP from(const NamedValue &p) { return p.value; }
inline SEXP from(const std::string &s) { return Rf_mkString(s.c_str()); }
inline SEXP from(const char *s) { return Rf_mkString(s); }
inline SEXP from(bool b) { return Rf_ScalarLogical(b); }
template<class T> typename std::enable_if<std::is_floating_point<T>::value, SEXP>::type from(T v) { return Rf_ScalarReal((double)v); }
// as Rcpp: only types that fit R's integers become integers
template<class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, SEXP>::type from(T v) {
    return sizeof(T) < sizeof(int) || std::is_same<T, int>::value ? Rf_ScalarInteger((int)v) : Rf_ScalarReal((double)v);
}
template<class C> SEXP range(const C &c, std::string) { SEXP x = alloc(STRSXP); for (auto &v : c) { x->s.push_back(v); } return x; }
template<class C, class T> typename std::enable_if<std::is_arithmetic<T>::value, SEXP>::type range(const C &c, T) {
    bool whole = std::is_same<T, int>::value || (std::is_integral<T>::value && sizeof(T) < sizeof(int));
    SEXP x = alloc(std::is_same<T, bool>::value ? (int)LGLSXP : whole ? (int)INTSXP : (int)REALSXP);
    for (auto v : c) { if (x->type == REALSXP) { x->d.push_back((double)v); } else { x->i.push_back((int)v); } }
    return x;
}
template<class C, class T> typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_same<T, std::string>::value, SEXP>::type range(const C &c, const T &) {
    SEXP x = alloc(VECSXP); for (auto &v : c) { x->l.push_back(Rcpp::wrap(v)); } return x;
}
template<class T> SEXP from(const std::vector<T> &c) { return range(c, T()); }
template<class T> SEXP from(const std::list<T> &c) { return range(c, T()); }
}
namespace Rcpp {
template<class T> T as(SEXP x) { return rstub::To<typename std::remove_cv<typename std::remove_reference<T>::type>::type>::get(x); }
template<class T> SEXP wrap(const T &v) { return rstub::from(v); }
}

// What the generated wrapper of an exported function does: converts each
// argument to the type of the parameter, and wraps the result.
namespace rstub {
template<class P> typename std::remove_cv<typename std::remove_reference<P>::type>::type in(SEXP x) { return Rcpp::as<P>(x); }
template<class R, class A, class B> SEXP invoke(R (*f)(A, B), SEXP a, SEXP b) {
    typename std::remove_cv<typename std::remove_reference<A>::type>::type x = in<A>(a);
    typename std::remove_cv<typename std::remove_reference<B>::type>::type y = in<B>(b);
    return Rcpp::wrap(f(x, y));
}
template<class R, class A, class B, class C> SEXP invoke(R (*f)(A, B, C), SEXP a, SEXP b, SEXP c) {
    typename std::remove_cv<typename std::remove_reference<A>::type>::type x = in<A>(a);
    typename std::remove_cv<typename std::remove_reference<B>::type>::type y = in<B>(b);
    typename std::remove_cv<typename std::remove_reference<C>::type>::type z = in<C>(c);
    return Rcpp::wrap(f(x, y, z));
}
}
#endif
