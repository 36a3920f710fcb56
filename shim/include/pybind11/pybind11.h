/* Minimal stand-in for the part of pybind11 that ckald/pyBBN's extension modules use.
 *
 * The real pybind11 is a git submodule of the repository that is not available offline.
 * This header implements the documented behaviour of the API subset below on top of the
 * CPython C API: module/function definition with keyword and default arguments, overloads,
 * lambdas, enum_, class_ with init/def/readwrite, STL conversions and array_t/vectorize.
 * C++ exceptions become Python exceptions (std::runtime_error -> RuntimeError, ...).
 */
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <algorithm>
#include <array>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

typedef Py_ssize_t ssize_t;

struct error_already_set : public std::exception {
    const char *what() const noexcept override { return "python error"; }
};
struct cast_error : public std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : public std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : public std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : public std::runtime_error { using std::runtime_error::runtime_error; };

struct gil_scoped_release {
    PyThreadState *s;
    gil_scoped_release() : s(PyEval_SaveThread()) {}
    ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
struct gil_scoped_acquire {
    PyGILState_STATE s;
    gil_scoped_acquire() : s(PyGILState_Ensure()) {}
    ~gil_scoped_acquire() { PyGILState_Release(s); }
};
template <class... G> struct call_guard {};

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move,
                                 reference, reference_internal };
template <int N, int M> struct keep_alive {};

class handle {
public:
    PyObject *m_ptr = nullptr;
    handle() {}
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    explicit operator bool() const { return m_ptr != nullptr; }
    bool is_none() const { return m_ptr == Py_None; }
    template <class T> T cast() const;
};

class object : public handle {
public:
    object() {}
    object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    object &operator=(const object &o) {
        Py_XINCREF(o.m_ptr); Py_XDECREF(m_ptr); m_ptr = o.m_ptr; return *this;
    }
    object &operator=(object &&o) noexcept { std::swap(m_ptr, o.m_ptr); return *this; }
    ~object() { Py_XDECREF(m_ptr); }
    static object steal(PyObject *p) { object o; o.m_ptr = p; return o; }
    static object borrow(PyObject *p) { Py_XINCREF(p); return steal(p); }
    PyObject *release() { PyObject *p = m_ptr; m_ptr = nullptr; return p; }
};
inline object none() { return object::borrow(Py_None); }

namespace detail {

/* ------------------------------------------------------------------ class registry */
struct instance { PyObject_HEAD void *value; };

typedef std::function<PyObject *(PyObject *, PyObject *, bool convert)> impl_t;
inline PyObject *try_next() { return reinterpret_cast<PyObject *>(1); }

struct class_record {
    PyTypeObject *type = nullptr;
    std::string name;
    std::vector<impl_t> inits;
    void (*dealloc)(void *) = nullptr;
    void *(*copy)(const void *) = nullptr;
};
inline std::unordered_map<std::type_index, class_record *> &types() {
    static std::unordered_map<std::type_index, class_record *> t; return t;
}
inline std::unordered_map<PyTypeObject *, class_record *> &by_type() {
    static std::unordered_map<PyTypeObject *, class_record *> t; return t;
}
struct enum_record { PyObject *type = nullptr; };
inline std::unordered_map<std::type_index, enum_record> &enums() {
    static std::unordered_map<std::type_index, enum_record> t; return t;
}
inline class_record *find_record(PyTypeObject *t) {
    for (; t; t = t->tp_base) {
        auto it = by_type().find(t);
        if (it != by_type().end()) return it->second;
    }
    return nullptr;
}

template <class T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

/* ------------------------------------------------------------------ casters */
template <class T, class Enable = void> struct caster {
    // registered class type: held by pointer
    static bool load(PyObject *o, T *&out, bool) {
        auto it = types().find(std::type_index(typeid(T)));
        if (it == types().end()) return false;
        if (!PyObject_TypeCheck(o, it->second->type)) return false;
        out = static_cast<T *>(reinterpret_cast<instance *>(o)->value);
        return out != nullptr;
    }
    static PyObject *cast(const T &v) {
        auto it = types().find(std::type_index(typeid(T)));
        if (it == types().end()) {
            PyErr_SetString(PyExc_TypeError, "Unable to convert return value: unregistered type");
            return nullptr;
        }
        instance *i = reinterpret_cast<instance *>(it->second->type->tp_alloc(it->second->type, 0));
        if (!i) return nullptr;
        i->value = new T(v);
        return reinterpret_cast<PyObject *>(i);
    }
};

template <class T> struct is_class_type : std::true_type {};
#define PB_VALUE_TYPE(...) template <> struct is_class_type<__VA_ARGS__> : std::false_type {};

/* holder<T>: storage for one converted argument */
template <class T, bool ByPtr> struct holder_impl;
template <class T> struct holder_impl<T, false> {
    T v{};
    bool load(PyObject *o, bool convert) { return caster<T>::load(o, v, convert); }
    T &get() { return v; }
};
template <class T> struct holder_impl<T, true> {
    T *v = nullptr;
    bool load(PyObject *o, bool convert) { return caster<T>::load(o, v, convert); }
    T &get() { return *v; }
};

template <class T> struct by_pointer : std::integral_constant<bool,
    std::is_class<T>::value && is_class_type<T>::value> {};

template <class T> struct holder : holder_impl<bare<T>, by_pointer<bare<T>>::value> {};

/* integers */
template <class T>
struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static bool load(PyObject *o, T &out, bool convert) {
        if (PyFloat_Check(o)) return false;
        object num;
        if (!PyLong_Check(o)) {
            if (PyIndex_Check(o)) num = object::steal(PyNumber_Index(o));
            else if (convert && PyNumber_Check(o)) num = object::steal(PyNumber_Long(o));
            else return false;
            if (!num.ptr()) { PyErr_Clear(); return false; }
            o = num.ptr();
        }
        if (std::is_unsigned<T>::value) {
            unsigned long long v = PyLong_AsUnsignedLongLong(o);
            if (PyErr_Occurred()) { PyErr_Clear(); return false; }
            out = (T) v; return (unsigned long long) out == v;
        }
        long long v = PyLong_AsLongLong(o);
        if (PyErr_Occurred()) { PyErr_Clear(); return false; }
        out = (T) v; return (long long) out == v;
    }
    static PyObject *cast(T v) {
        return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong((unsigned long long) v)
                                          : PyLong_FromLongLong((long long) v);
    }
};
template <> struct caster<bool, void> {
    static bool load(PyObject *o, bool &out, bool convert) {
        if (o == Py_True) { out = true; return true; }
        if (o == Py_False) { out = false; return true; }
        if (convert || std::strcmp(Py_TYPE(o)->tp_name, "numpy.bool_") == 0
            || std::strcmp(Py_TYPE(o)->tp_name, "numpy.bool") == 0) {
            int r = PyObject_IsTrue(o);
            if (r < 0) { PyErr_Clear(); return false; }
            out = r; return true;
        }
        return false;
    }
    static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};
template <class T>
struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static bool load(PyObject *o, T &out, bool convert) {
        if (!convert && !PyFloat_Check(o)) return false;
        double v = PyFloat_AsDouble(o);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            if (!convert || !PyNumber_Check(o)) return false;
            object f = object::steal(PyNumber_Float(o));
            if (!f.ptr()) { PyErr_Clear(); return false; }
            v = PyFloat_AsDouble(f.ptr());
        }
        out = (T) v; return true;
    }
    static PyObject *cast(T v) { return PyFloat_FromDouble((double) v); }
};
template <class T>
struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static bool load(PyObject *o, T &out, bool) {
        auto it = enums().find(std::type_index(typeid(T)));
        if (it == enums().end() || !PyObject_IsInstance(o, it->second.type)) return false;
        object v = object::steal(PyNumber_Long(o));
        if (!v.ptr()) { PyErr_Clear(); return false; }
        out = static_cast<T>(PyLong_AsLongLong(v.ptr())); return true;
    }
    static PyObject *cast(T v) {
        auto it = enums().find(std::type_index(typeid(T)));
        if (it == enums().end()) { PyErr_SetString(PyExc_TypeError, "unregistered enum"); return nullptr; }
        return PyObject_CallFunction(it->second.type, "L", (long long) v);
    }
};
PB_VALUE_TYPE(std::string)
template <> struct caster<std::string, void> {
    static bool load(PyObject *o, std::string &out, bool) {
        if (!PyUnicode_Check(o)) return false;
        Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n);
        if (!s) { PyErr_Clear(); return false; }
        out.assign(s, n); return true;
    }
    static PyObject *cast(const std::string &v) { return PyUnicode_FromStringAndSize(v.data(), v.size()); }
};
template <> struct caster<const char *, void> {
    static PyObject *cast(const char *v) { return PyUnicode_FromString(v); }
};
PB_VALUE_TYPE(object)
PB_VALUE_TYPE(handle)
template <> struct caster<object, void> {
    static bool load(PyObject *o, object &out, bool) { out = object::borrow(o); return true; }
    static PyObject *cast(const object &v) { Py_XINCREF(v.ptr()); return v.ptr(); }
};
template <> struct caster<handle, void> {
    static bool load(PyObject *o, handle &out, bool) { out = handle(o); return true; }
    static PyObject *cast(const handle &v) { Py_XINCREF(v.ptr()); return v.ptr(); }
};

/* element loading helper: returns by value */
template <class T> bool load_value(PyObject *o, T &dst, bool convert);

template <class T, bool P> struct value_loader {
    static bool load(PyObject *o, T &dst, bool convert) { return caster<T>::load(o, dst, convert); }
};
template <class T> struct value_loader<T, true> {
    static bool load(PyObject *o, T &dst, bool convert) {
        T *p = nullptr;
        if (!caster<T>::load(o, p, convert)) return false;
        dst = *p; return true;
    }
};
template <class T> bool load_value(PyObject *o, T &dst, bool convert) {
    return value_loader<T, by_pointer<T>::value>::load(o, dst, convert);
}

inline bool is_seq(PyObject *o) {
    return PySequence_Check(o) && !PyUnicode_Check(o) && !PyBytes_Check(o);
}

/* STL: vector, list, array, pair, tuple, map */
template <class T, class A> struct is_class_type<std::vector<T, A>> : std::false_type {};
template <class T, class A> struct caster<std::vector<T, A>, void> {
    template <class U, bool P> struct push {
        static bool go(PyObject *it, std::vector<T, A> &out, bool convert) {
            U v{}; if (!caster<U>::load(it, v, convert)) return false;
            out.push_back(std::move(v)); return true;
        }
    };
    template <class U> struct push<U, true> {
        static bool go(PyObject *it, std::vector<T, A> &out, bool convert) {
            U *p = nullptr; if (!caster<U>::load(it, p, convert)) return false;
            out.push_back(*p); return true;
        }
    };
    static bool load(PyObject *o, std::vector<T, A> &out, bool convert) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        if (n < 0) { PyErr_Clear(); return false; }
        out.clear(); out.reserve(n);
        for (Py_ssize_t i = 0; i < n; ++i) {
            object it = object::steal(PySequence_GetItem(o, i));
            if (!it.ptr()) { PyErr_Clear(); return false; }
            if (!push<T, by_pointer<T>::value>::go(it.ptr(), out, convert)) return false;
        }
        return true;
    }
    static PyObject *cast(const std::vector<T, A> &v) {
        PyObject *l = PyList_New(v.size());
        for (size_t i = 0; i < v.size(); ++i) {
            PyObject *x = caster<T>::cast(v[i]);
            if (!x) { Py_DECREF(l); return nullptr; }
            PyList_SET_ITEM(l, i, x);
        }
        return l;
    }
};
template <class T, size_t N> struct is_class_type<std::array<T, N>> : std::false_type {};
template <class T, size_t N> struct caster<std::array<T, N>, void> {
    static bool load(PyObject *o, std::array<T, N> &out, bool convert) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        if (n < 0) { PyErr_Clear(); return false; }
        if ((size_t) n != N) return false;
        for (Py_ssize_t i = 0; i < n; ++i) {
            object it = object::steal(PySequence_GetItem(o, i));
            if (!it.ptr()) { PyErr_Clear(); return false; }
            if (!load_value<T>(it.ptr(), out[i], convert)) return false;
        }
        return true;
    }
    static PyObject *cast(const std::array<T, N> &v) {
        PyObject *l = PyList_New(N);
        for (size_t i = 0; i < N; ++i) {
            PyObject *x = caster<T>::cast(v[i]);
            if (!x) { Py_DECREF(l); return nullptr; }
            PyList_SET_ITEM(l, i, x);
        }
        return l;
    }
};
template <class A, class B> struct is_class_type<std::pair<A, B>> : std::false_type {};
template <class A, class B> struct caster<std::pair<A, B>, void> {
    static bool load(PyObject *o, std::pair<A, B> &out, bool convert) {
        if (!is_seq(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
        object a = object::steal(PySequence_GetItem(o, 0)), b = object::steal(PySequence_GetItem(o, 1));
        return load_value<A>(a.ptr(), out.first, convert) && load_value<B>(b.ptr(), out.second, convert);
    }
    static PyObject *cast(const std::pair<A, B> &v) {
        PyObject *a = caster<A>::cast(v.first), *b = caster<B>::cast(v.second);
        if (!a || !b) { Py_XDECREF(a); Py_XDECREF(b); return nullptr; }
        PyObject *t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, a); PyTuple_SET_ITEM(t, 1, b);
        return t;
    }
};
template <class... A> struct is_class_type<std::tuple<A...>> : std::false_type {};
template <class... A> struct caster<std::tuple<A...>, void> {
    template <size_t... I> static bool load_i(PyObject *o, std::tuple<A...> &out, bool c, std::index_sequence<I...>) {
        bool ok = true;
        (void) std::initializer_list<int>{(ok = ok && load_value(object::steal(PySequence_GetItem(o, I)).ptr(),
                                                                std::get<I>(out), c), 0)...};
        return ok;
    }
    static bool load(PyObject *o, std::tuple<A...> &out, bool convert) {
        if (!is_seq(o) || PySequence_Size(o) != (Py_ssize_t) sizeof...(A)) { PyErr_Clear(); return false; }
        return load_i(o, out, convert, std::index_sequence_for<A...>{});
    }
    template <size_t... I> static PyObject *cast_i(const std::tuple<A...> &v, std::index_sequence<I...>) {
        PyObject *t = PyTuple_New(sizeof...(A));
        (void) std::initializer_list<int>{(PyTuple_SET_ITEM(t, I, caster<bare<A>>::cast(std::get<I>(v))), 0)...};
        return t;
    }
    static PyObject *cast(const std::tuple<A...> &v) { return cast_i(v, std::index_sequence_for<A...>{}); }
};

} // namespace detail

template <class T> T handle::cast() const {
    T v{};
    if (!detail::load_value<T>(m_ptr, v, true)) throw cast_error("Unable to cast Python instance");
    return v;
}

/* ------------------------------------------------------------------ arguments */
struct arg_v;
struct arg {
    const char *name; bool conv = true;
    constexpr explicit arg(const char *n) : name(n) {}
    arg &noconvert(bool f = true) { conv = !f; return *this; }
    template <class T> arg_v operator=(T &&v) const;
};
struct arg_v : arg {
    object value;
    arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
};
template <class T> arg_v arg::operator=(T &&v) const {
    return arg_v(*this, object::steal(detail::caster<typename std::decay<T>::type>::cast(v)));
}
inline namespace literals {
    inline arg operator"" _a(const char *n, size_t) { return arg(n); }
}

namespace detail {

struct argrec { std::string name; object dflt; bool conv = true; };
struct fnrec {
    std::string name; std::string doc;
    std::vector<argrec> args;
    void add(const arg &a) { argrec r; r.name = a.name; r.conv = a.conv; args.push_back(r); }
    void add(const arg_v &a) { argrec r; r.name = a.name; r.dflt = a.value; r.conv = a.conv; args.push_back(r); }
    void add(const char *d) { doc = d; }
    template <class T> void add(const T &) {}
};
inline void add_all(fnrec &) {}
template <class E, class... R> void add_all(fnrec &f, const E &e, const R &...r) { f.add(e); add_all(f, r...); }

/* Match Python args/kwargs to nargs positional slots. first: implicit leading args (self) */
inline bool match(const fnrec &rec, size_t nargs, size_t lead, PyObject *args, PyObject *kwargs,
                  std::vector<PyObject *> &slots) {
    size_t given = PyTuple_GET_SIZE(args);
    if (given > nargs) return false;
    slots.assign(nargs, nullptr);
    for (size_t i = 0; i < given; ++i) slots[i] = PyTuple_GET_ITEM(args, i);
    size_t used = 0;
    for (size_t i = 0; i < nargs; ++i) {
        if (i < lead) continue;
        size_t k = i - lead;
        if (k < rec.args.size()) {
            PyObject *v = kwargs ? PyDict_GetItemString(kwargs, rec.args[k].name.c_str()) : nullptr;
            if (v) {
                if (slots[i]) return false;
                slots[i] = v; ++used;
            }
            if (!slots[i] && rec.args[k].dflt.ptr()) slots[i] = rec.args[k].dflt.ptr();
        }
        if (!slots[i]) return false;
    }
    if (lead && nargs && !slots[0]) return false;
    return !kwargs || (size_t) PyDict_Size(kwargs) == used;
}

inline void translate() {
    try { throw; }
    catch (const error_already_set &) {}
    catch (const value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (const std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (const std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}

template <class R> struct invoke_cast {
    template <class F> static PyObject *go(F &&f) {
        return caster<bare<R>>::cast(f());
    }
};
template <> struct invoke_cast<void> {
    template <class F> static PyObject *go(F &&f) { f(); Py_RETURN_NONE; }
};

template <class F, class R, class... A> struct binder {
    F f; fnrec rec; size_t lead;
    template <size_t... I>
    PyObject *call(std::vector<PyObject *> &s, bool convert, std::index_sequence<I...>) {
        std::tuple<holder<A>...> h;
        bool ok = true;
        (void) std::initializer_list<int>{0, (ok = ok && std::get<I>(h).load(s[I], convert), 0)...};
        if (!ok) { PyErr_Clear(); return try_next(); }
        return invoke_cast<R>::go([&]() -> R { return f(static_cast<A>(std::get<I>(h).get())...); });
    }
    PyObject *operator()(PyObject *args, PyObject *kwargs, bool convert) {
        std::vector<PyObject *> slots;
        if (!match(rec, sizeof...(A), lead, args, kwargs, slots)) return try_next();
        return call(slots, convert, std::index_sequence_for<A...>{});
    }
};

template <class F> struct lambda_sig : lambda_sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct lambda_sig<R (C::*)(A...) const> {
    template <class F> static impl_t bind(F f, const fnrec &r, size_t lead) { return binder<F, R, A...>{std::move(f), r, lead}; }
};
template <class C, class R, class... A> struct lambda_sig<R (C::*)(A...)> {
    template <class F> static impl_t bind(F f, const fnrec &r, size_t lead) { return binder<F, R, A...>{std::move(f), r, lead}; }
};
template <class R, class... A> impl_t make_impl(R (*f)(A...), const fnrec &r, size_t lead) {
    return binder<R (*)(A...), R, A...>{f, r, lead};
}
template <class C, class R, class... A> impl_t make_impl(R (C::*f)(A...), const fnrec &r, size_t lead) {
    auto g = [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    return binder<decltype(g), R, C &, A...>{g, r, lead};
}
template <class C, class R, class... A> impl_t make_impl(R (C::*f)(A...) const, const fnrec &r, size_t lead) {
    auto g = [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    return binder<decltype(g), R, const C &, A...>{g, r, lead};
}
template <class F, class = decltype(&F::operator())> impl_t make_impl(F f, const fnrec &r, size_t lead) {
    return lambda_sig<F>::bind(std::move(f), r, lead);
}

inline PyObject *run(std::vector<impl_t> &impls, const std::string &name, PyObject *args, PyObject *kwargs) {
    try {
        for (int pass = 0; pass < 2; ++pass)
            for (auto &i : impls) {
                PyObject *r = i(args, kwargs, pass == 1);
                if (r != try_next()) return r;
            }
    } catch (...) { translate(); return nullptr; }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", name.c_str());
    return nullptr;
}

struct fobj { std::string name; std::vector<impl_t> impls; PyMethodDef def; std::string doc; };
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs) {
    fobj *f = static_cast<fobj *>(PyCapsule_GetPointer(self, "pb.fobj"));
    return f ? run(f->impls, f->name, args, kwargs) : nullptr;
}
inline PyObject *make_function(const std::string &name, const std::string &doc, impl_t impl) {
    fobj *f = new fobj; f->name = name; f->doc = doc; f->impls.push_back(std::move(impl));
    f->def.ml_name = f->name.c_str();
    f->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch));
    f->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    f->def.ml_doc = f->doc.c_str();
    PyObject *cap = PyCapsule_New(f, "pb.fobj", nullptr);
    PyObject *r = PyCFunction_New(&f->def, cap);
    Py_DECREF(cap);
    return r;
}
inline fobj *existing(PyObject *scope, const char *name) {
    PyObject *o = PyObject_HasAttrString(scope, name) ? PyObject_GetAttrString(scope, name) : nullptr;
    if (!o) return nullptr;
    PyObject *fn = PyInstanceMethod_Check(o) ? PyInstanceMethod_Function(o) : o;
    fobj *f = nullptr;
    if (PyCFunction_Check(fn)) {
        PyObject *self = PyCFunction_GetSelf(fn);
        if (self && PyCapsule_IsValid(self, "pb.fobj"))
            f = static_cast<fobj *>(PyCapsule_GetPointer(self, "pb.fobj"));
    }
    Py_DECREF(o);
    return f;
}

} // namespace detail

struct attr_setter {
    PyObject *o; const char *n;
    template <class T> void operator=(T &&v) {
        PyObject *x = detail::caster<typename std::decay<T>::type>::cast(v);
        PyObject_SetAttrString(o, n, x); Py_XDECREF(x);
    }
};

class module_ : public object {
public:
    module_() {}
    explicit module_(PyObject *m) { m_ptr = m; Py_XINCREF(m); }
    template <class F, class... E> module_ &def(const char *name, F &&f, const E &...extra) {
        detail::fnrec r; r.name = name; detail::add_all(r, extra...);
        detail::impl_t i = detail::make_impl(typename std::decay<F>::type(std::forward<F>(f)), r, 0);
        if (detail::fobj *fo = detail::existing(m_ptr, name)) { fo->impls.push_back(std::move(i)); return *this; }
        PyObject *fn = detail::make_function(name, r.doc, std::move(i));
        PyModule_AddObject(m_ptr, name, fn);
        return *this;
    }
    attr_setter attr(const char *n) { return attr_setter{m_ptr, n}; }
    attr_setter doc() { return attr_setter{m_ptr, "__doc__"}; }
};
typedef module_ module;

template <class... A> struct init {};

template <class T, class... Opts> class class_ {
public:
    detail::class_record *rec;
    PyObject *m_type;
    static void dealloc(PyObject *self) {
        detail::instance *i = reinterpret_cast<detail::instance *>(self);
        delete static_cast<T *>(i->value);
        PyTypeObject *t = Py_TYPE(self);
        t->tp_free(self);
        Py_DECREF(t);
    }
    static int tp_init(PyObject *self, PyObject *args, PyObject *kwargs) {
        detail::class_record *r = detail::find_record(Py_TYPE(self));
        Py_ssize_t n = PyTuple_GET_SIZE(args);
        PyObject *full = PyTuple_New(n + 1);
        Py_INCREF(self); PyTuple_SET_ITEM(full, 0, self);
        for (Py_ssize_t k = 0; k < n; ++k) {
            PyObject *x = PyTuple_GET_ITEM(args, k); Py_INCREF(x); PyTuple_SET_ITEM(full, k + 1, x);
        }
        PyObject *res = detail::run(r->inits, r->name + ".__init__", full, kwargs);
        Py_DECREF(full);
        if (!res) return -1;
        Py_DECREF(res);
        return 0;
    }
    template <class... E> class_(handle scope, const char *name, const E &...) {
        rec = new detail::class_record; rec->name = name;
        PyObject *modname = PyObject_GetAttrString(scope.ptr(), "__name__");
        std::string full = std::string(PyUnicode_AsUTF8(modname)) + "." + name;
        Py_DECREF(modname);
        char *stable = strdup(full.c_str());
        PyType_Slot slots[] = {
            {Py_tp_dealloc, (void *) &class_::dealloc},
            {Py_tp_init, (void *) &class_::tp_init},
            {Py_tp_new, (void *) PyType_GenericNew},
            {0, nullptr}};
        PyType_Spec spec = {stable, (int) sizeof(detail::instance), 0,
                            (unsigned) (Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE), slots};
        m_type = PyType_FromSpec(&spec);
        rec->type = reinterpret_cast<PyTypeObject *>(m_type);
        detail::types()[std::type_index(typeid(T))] = rec;
        detail::by_type()[rec->type] = rec;
        Py_INCREF(m_type);
        PyObject_SetAttrString(scope.ptr(), name, m_type);
    }
    template <class... A, class... E> class_ &def(const init<A...> &, const E &...extra) {
        detail::fnrec r; r.name = "__init__"; detail::add_all(r, extra...);
        auto f = [](handle self, A... a) {
            detail::instance *i = reinterpret_cast<detail::instance *>(self.ptr());
            T *fresh = new T(std::forward<A>(a)...);
            delete static_cast<T *>(i->value);
            i->value = fresh;
        };
        rec->inits.push_back(detail::binder<decltype(f), void, handle, A...>{f, r, 1});
        return *this;
    }
    template <class F, class... E> class_ &def(const char *name, F &&f, const E &...extra) {
        detail::fnrec r; r.name = name; detail::add_all(r, extra...);
        detail::impl_t i = detail::make_impl(typename std::decay<F>::type(std::forward<F>(f)), r, 1);
        if (detail::fobj *fo = detail::existing(m_type, name)) { fo->impls.push_back(std::move(i)); return *this; }
        PyObject *fn = detail::make_function(name, r.doc, std::move(i));
        PyObject *im = PyInstanceMethod_New(fn);
        PyObject_SetAttrString(m_type, name, im);
        Py_DECREF(fn); Py_DECREF(im);
        return *this;
    }
    void property(const char *name, PyObject *get, PyObject *set) {
        PyObject *p = PyObject_CallFunctionObjArgs((PyObject *) &PyProperty_Type, get, set, nullptr);
        PyObject_SetAttrString(m_type, name, p);
        Py_XDECREF(p);
    }
    template <class C, class D, class... E> class_ &def_readwrite(const char *name, D C::*pm, const E &...) {
        detail::fnrec r; r.name = name;
        PyObject *g = detail::make_function(name, "", detail::make_impl([pm](const T &t) -> D { return t.*pm; }, r, 1));
        PyObject *s = detail::make_function(name, "", detail::make_impl([pm](T &t, const D &v) { t.*pm = v; }, r, 2));
        property(name, g, s);
        return *this;
    }
    template <class C, class D, class... E> class_ &def_readonly(const char *name, D C::*pm, const E &...) {
        detail::fnrec r; r.name = name;
        property(name, detail::make_function(name, "", detail::make_impl([pm](const T &t) -> D { return t.*pm; }, r, 1)), Py_None);
        return *this;
    }
    template <class F, class... E> class_ &def_property_readonly(const char *name, F &&f, const E &...) {
        detail::fnrec r; r.name = name;
        property(name, detail::make_function(name, "", detail::make_impl(typename std::decay<F>::type(f), r, 1)), Py_None);
        return *this;
    }
};

struct arithmetic {};

template <class T> class enum_ {
    object type_; PyObject *scope;
    std::vector<std::string> names;
public:
    template <class... E> enum_(handle sc, const char *name, const E &...) : scope(sc.ptr()) {
        static const char *src =
            "def make(name, module):\n"
            "    class E(object):\n"
            "        __members__ = {}\n"
            "        def __init__(self, value):\n"
            "            if isinstance(value, E): value = int(value)\n"
            "            self._v = int(value)\n"
            "        def __int__(self): return self._v\n"
            "        __index__ = __int__\n"
            "        @property\n"
            "        def value(self): return self._v\n"
            "        @property\n"
            "        def name(self):\n"
            "            for k, v in type(self).__members__.items():\n"
            "                if v._v == self._v: return k\n"
            "            return '???'\n"
            "        def __eq__(self, o): return type(o) is type(self) and o._v == self._v\n"
            "        def __ne__(self, o): return not self == o\n"
            "        def __hash__(self): return hash(self._v)\n"
            "        def __repr__(self): return type(self).__name__ + '.' + self.name\n"
            "        __str__ = __repr__\n"
            "        def __getstate__(self): return self._v\n"
            "        def __setstate__(self, v): self._v = v\n"
            "    E.__name__ = E.__qualname__ = name\n"
            "    E.__module__ = module\n"
            "    return E\n";
        object g = object::steal(PyDict_New());
        PyDict_SetItemString(g.ptr(), "__builtins__", PyEval_GetBuiltins());
        object r = object::steal(PyRun_String(src, Py_file_input, g.ptr(), g.ptr()));
        object mod = object::steal(PyObject_GetAttrString(scope, "__name__"));
        type_ = object::steal(PyObject_CallFunction(PyDict_GetItemString(g.ptr(), "make"), "sO", name, mod.ptr()));
        Py_INCREF(type_.ptr());
        detail::enums()[std::type_index(typeid(T))].type = type_.ptr();
        PyObject_SetAttrString(scope, name, type_.ptr());
    }
    template <class... E> enum_ &value(const char *name, T v, const E &...) {
        object o = object::steal(PyObject_CallFunction(type_.ptr(), "L", (long long) v));
        object members = object::steal(PyObject_GetAttrString(type_.ptr(), "__members__"));
        PyDict_SetItemString(members.ptr(), name, o.ptr());
        PyObject_SetAttrString(type_.ptr(), name, o.ptr());
        names.push_back(name);
        return *this;
    }
    enum_ &export_values() {
        for (auto &n : names) {
            object o = object::steal(PyObject_GetAttrString(type_.ptr(), n.c_str()));
            PyObject_SetAttrString(scope, n.c_str(), o.ptr());
        }
        return *this;
    }
};

} // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                       \
    static void pybind11_init_##name(::pybind11::module_ &);                                  \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {             \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr,         \
                                  nullptr, nullptr, nullptr, nullptr};                        \
        PyObject *pm = PyModule_Create(&def);                                                 \
        if (!pm) return nullptr;                                                              \
        ::pybind11::module_ m(pm);                                                            \
        try { pybind11_init_##name(m); }                                                      \
        catch (...) { ::pybind11::detail::translate(); Py_DECREF(pm); return nullptr; }       \
        return pm;                                                                            \
    }                                                                                         \
    void pybind11_init_##name(::pybind11::module_ &variable)
