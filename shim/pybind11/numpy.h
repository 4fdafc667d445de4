#ifndef VERIF_SHIM_PYBIND11_NUMPY_H
#define VERIF_SHIM_PYBIND11_NUMPY_H
#include "pybind11/pybind11.h"
namespace pybind11 {
template <typename T> struct npy_code;
#define VERIF_NPY(T, C) template <> struct npy_code<T> { static constexpr int value = C; };
VERIF_NPY(bool, NPY_BOOL) VERIF_NPY(int8_t, NPY_INT8) VERIF_NPY(uint8_t, NPY_UINT8) VERIF_NPY(int16_t, NPY_INT16) VERIF_NPY(uint16_t, NPY_UINT16)
VERIF_NPY(int32_t, NPY_INT32) VERIF_NPY(uint32_t, NPY_UINT32) VERIF_NPY(int64_t, NPY_INT64) VERIF_NPY(uint64_t, NPY_UINT64)
VERIF_NPY(float, NPY_FLOAT) VERIF_NPY(double, NPY_DOUBLE)

struct buffer_info {
    void *ptr = nullptr;
    ssize_t itemsize = 0, size = 0, ndim = 0;
    std::vector<ssize_t> shape, strides;
};
class array : public object {
   public:
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    array() = default;
    PyArrayObject *a() const { return (PyArrayObject *)m_ptr; }
    ssize_t size() const { return (ssize_t)PyArray_SIZE(a()); }
    ssize_t ndim() const { return PyArray_NDIM(a()); }
    ssize_t shape(ssize_t k) const { if (k >= ndim()) throw index_error("invalid axis"); return PyArray_DIM(a(), (int)k); }
    const ssize_t *shape() const { return (const ssize_t *)PyArray_DIMS(a()); }
    ssize_t strides(ssize_t k) const { if (k >= ndim()) throw index_error("invalid axis"); return PyArray_STRIDE(a(), (int)k); }
    ssize_t itemsize() const { return (ssize_t)PyArray_ITEMSIZE(a()); }
    ssize_t nbytes() const { return size() * itemsize(); }
    bool writeable() const { return PyArray_ISWRITEABLE(a()); }
    buffer_info request(bool = false) {
        buffer_info b;
        b.ptr = PyArray_DATA(a());
        b.itemsize = itemsize();
        b.size = size();
        b.ndim = ndim();
        for (ssize_t k = 0; k < b.ndim; k++) { b.shape.push_back(shape(k)); b.strides.push_back(strides(k)); }
        return b;
    }
    void resize(std::vector<ssize_t> dims, bool refcheck = true) {
        PyArray_Dims d{(npy_intp *)dims.data(), (int)dims.size()};
        object r = steal(PyArray_Resize(a(), &d, refcheck, NPY_ANYORDER));
    }
    array reshape_shim(std::vector<ssize_t> dims) const {
        PyArray_Dims d{(npy_intp *)dims.data(), (int)dims.size()};
        object r = steal(PyArray_Newshape(a(), &d, NPY_CORDER));
        array x;
        static_cast<object &>(x) = r;
        return x;
    }
};
template <typename T, ssize_t Dims>
struct unchecked_ref {
    const char *p;
    ssize_t sh[Dims > 0 ? Dims : 1], st[Dims > 0 ? Dims : 1], n;
    explicit unchecked_ref(const array &a) {
        if (a.ndim() != Dims)
            throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(a.ndim()) + "; expected " + std::to_string(Dims));
        p = (const char *)PyArray_DATA(a.a());
        n = a.size();
        for (ssize_t k = 0; k < Dims; k++) { sh[k] = a.shape(k); st[k] = a.strides(k); }
    }
    template <typename... I> const T &operator()(I... i) const {
        static_assert(sizeof...(I) == Dims);
        ssize_t off = 0, k = 0;
        ((bound(k, (ssize_t)i), off += (ssize_t)i * st[k++]), ...);
        return *(const T *)(p + off);
    }
    const T &operator[](ssize_t i) const { return (*this)(i); }
    void bound(ssize_t k, ssize_t i) const {
        // Real pybind11 does not check here; reading outside is undefined there and fatal here.
        if (i < 0 || i >= sh[k]) { fprintf(stderr, "out-of-bounds array access: index %zd of axis %zd with size %zd\n", i, k, sh[k]); abort(); }
    }
    ssize_t shape(ssize_t k) const { return sh[k]; }
    ssize_t size() const { return n; }
    ssize_t ndim() const { return Dims; }
    ssize_t nbytes() const { return n * (ssize_t)sizeof(T); }
    const T *data(ssize_t i = 0) const { return (const T *)(p + i * st[0]); }
};
template <typename T, ssize_t Dims>
struct mutable_ref : unchecked_ref<T, Dims> {
    using unchecked_ref<T, Dims>::unchecked_ref;
    template <typename... I> T &operator()(I... i) { return const_cast<T &>(static_cast<unchecked_ref<T, Dims> &>(*this)(i...)); }
    T &operator[](ssize_t i) { return (*this)(i); }
    T *mutable_data(ssize_t i = 0) { return const_cast<T *>(this->data(i)); }
};
template <typename T, int Flags = array::forcecast>
class array_t : public array {
   public:
    array_t() : array_t((size_t)0) {}
    array_t(const object &o) {
        PyObject *r = raw(o.ptr());
        if (!r) throw error_already_set();
        m_ptr = r;
    }
    array_t(const array_t &) = default;
    array_t(array_t &&) = default;
    array_t &operator=(const array_t &) = default;
    array_t &operator=(array_t &&) = default;
    template <typename N, typename = std::enable_if_t<std::is_integral_v<N>>>
    explicit array_t(N n) { npy_intp d = (npy_intp)n; m_ptr = check(PyArray_SimpleNew(1, &d, npy_code<T>::value)); }
    explicit array_t(std::vector<ssize_t> shape) { m_ptr = check(PyArray_SimpleNew((int)shape.size(), (npy_intp *)shape.data(), npy_code<T>::value)); }
    array_t(std::initializer_list<ssize_t> shape) : array_t(std::vector<ssize_t>(shape)) {}
    template <typename N, typename = std::enable_if_t<std::is_integral_v<N>>>
    array_t(N n, const T *p, handle base = handle()) : array_t(std::vector<ssize_t>{(ssize_t)n}, p, base) {}
    array_t(std::vector<ssize_t> shape, const T *p, handle base = handle()) {
        if (!p) {
            // As pybind11 does for a null pointer: a fresh array that owns its memory.
            m_ptr = check(PyArray_SimpleNew((int)shape.size(), (npy_intp *)shape.data(), npy_code<T>::value));
            return;
        }
        m_ptr = check(PyArray_SimpleNewFromData((int)shape.size(), (npy_intp *)shape.data(), npy_code<T>::value, (void *)p));
        if (base) {
            base.inc_ref();
            if (PyArray_SetBaseObject(a(), base.ptr()) != 0) throw error_already_set();
        } else {
            PyObject *c = check((PyObject *)PyArray_NewCopy(a(), NPY_ANYORDER));
            Py_DECREF(m_ptr);
            m_ptr = c;
        }
    }
    static PyObject *raw(PyObject *o) {
        if (!o) { PyErr_SetString(PyExc_ValueError, "cannot create a pybind11::array_t from a nullptr"); return nullptr; }
        int f = NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST;
        if (Flags & array::c_style) f |= NPY_ARRAY_C_CONTIGUOUS;
        if (Flags & array::f_style) f |= NPY_ARRAY_F_CONTIGUOUS;
        return PyArray_FromAny(o, PyArray_DescrFromType(npy_code<T>::value), 0, 0, f, nullptr);
    }
    static array_t shim_load(handle h) {
        PyObject *r = raw(h.ptr());
        if (!r) { PyErr_Clear(); throw load_failed{}; }
        object o(handle(r), false);
        array_t x;
        static_cast<object &>(x) = std::move(o);
        return x;
    }
    static array_t ensure(handle h) {
        array_t x;
        PyObject *r = raw(h.ptr());
        if (!r) PyErr_Clear();
        static_cast<object &>(x) = object(handle(r), false);
        return x;
    }
    template <typename... I> const T *data(I... i) const {
        const char *p = (const char *)PyArray_DATA(a());
        ssize_t k = 0;
        ((p += (ssize_t)i * strides(k++)), ...);
        return (const T *)p;
    }
    template <typename... I> T *mutable_data(I... i) { return const_cast<T *>(data(i...)); }
    template <typename... I> const T &at(I... i) const { if ((ssize_t)sizeof...(I) != ndim()) throw index_error("index dimension mismatch"); return *data(i...); }
    template <typename... I> T &mutable_at(I... i) { return const_cast<T &>(at(i...)); }
    template <ssize_t D> unchecked_ref<T, D> unchecked() const { return unchecked_ref<T, D>(*this); }
    template <ssize_t D> mutable_ref<T, D> mutable_unchecked() { return mutable_ref<T, D>(*this); }
    array_t reshape(std::vector<ssize_t> dims) const { return array_t((const object &)reshape_shim(dims)); }
};
}  // namespace pybind11
#endif
