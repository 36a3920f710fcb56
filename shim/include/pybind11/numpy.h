/* array_t<double> and vectorize, through Python's own numpy and the buffer protocol. */
#pragma once
#include "pybind11.h"

namespace pybind11 {

struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };

template <class T, int Flags = array::forcecast> class array_t : public object {
public:
    array_t() {}
    explicit array_t(object o) : object(std::move(o)) {}
    static object ensure(PyObject *o) {
        object np = object::steal(PyImport_ImportModule("numpy"));
        if (!np.ptr()) throw error_already_set();
        object f = object::steal(PyObject_GetAttrString(np.ptr(), "array"));
        object args = object::steal(Py_BuildValue("(O)", o));
        object kw = object::steal(Py_BuildValue("{s:s,s:s}", "dtype",
                                                std::is_same<T, double>::value ? "float64"
                                                : std::is_same<T, float>::value ? "float32" : "int64",
                                                "order", "C"));
        return object::steal(PyObject_Call(f.ptr(), args.ptr(), kw.ptr()));
    }
    Py_ssize_t ndim() const {
        object n = object::steal(PyObject_GetAttrString(m_ptr, "ndim")); return PyLong_AsSsize_t(n.ptr());
    }
    Py_ssize_t size() const {
        object n = object::steal(PyObject_GetAttrString(m_ptr, "size")); return PyLong_AsSsize_t(n.ptr());
    }
    T *raw() const {
        Py_buffer b;
        if (PyObject_GetBuffer(m_ptr, &b, PyBUF_C_CONTIGUOUS | PyBUF_WRITABLE)) throw error_already_set();
        T *p = static_cast<T *>(b.buf);
        PyBuffer_Release(&b);
        return p;
    }
    const T *data() const { return raw(); }
    T *mutable_data() { return raw(); }
};

namespace detail {
template <class T, int F> struct is_class_type<array_t<T, F>> : std::false_type {};
template <class T, int F> struct caster<array_t<T, F>, void> {
    static bool load(PyObject *o, array_t<T, F> &out, bool) {
        object a = array_t<T, F>::ensure(o);
        if (!a.ptr()) { PyErr_Clear(); return false; }
        out = array_t<T, F>(a); return true;
    }
    static PyObject *cast(const array_t<T, F> &v) { Py_XINCREF(v.ptr()); return v.ptr(); }
};

template <class F> struct vectorized {
    F f;
    template <int Fl> object operator()(const array_t<double, Fl> &x) const {
        typedef decltype(f(0.)) R;
        static_assert(std::is_same<R, double>::value, "shim: vectorize supports double -> double");
        if (x.ndim() == 0) return object::steal(PyFloat_FromDouble(f(*x.data())));
        array_t<double> out(array_t<double>::ensure(x.ptr()));   // numpy.array copies
        const double *src = x.data(); double *dst = out.mutable_data();
        Py_ssize_t n = x.size();
        for (Py_ssize_t i = 0; i < n; ++i) dst[i] = f(src[i]);
        return out;
    }
};
} // namespace detail

template <class F> detail::vectorized<typename std::decay<F>::type> vectorize(F &&f) {
    return detail::vectorized<typename std::decay<F>::type>{f};
}

} // namespace pybind11
