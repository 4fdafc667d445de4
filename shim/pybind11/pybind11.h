// A small stand-in for pybind11 (not available offline): enough of its API, with pybind11's conversion and
// exception rules, to compile PyMatching's bindings unchanged on top of the CPython and NumPy C APIs.
#ifndef VERIF_SHIM_PYBIND11_H
#define VERIF_SHIM_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL verif_pybind_shim_ARRAY_API
#ifndef VERIF_PYBIND_SHIM_MAIN
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>

#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pybind11 {
typedef Py_ssize_t ssize_t;
void shim_import_numpy();

class object;
class handle;
template <typename T> struct caster;
struct arg_v;

// ------------------------------------------------------------------ errors
class error_already_set : public std::exception {
   public:
    PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
    error_already_set() { PyErr_Fetch(&t, &v, &tb); }
    error_already_set(const error_already_set &o) : t(o.t), v(o.v), tb(o.tb) { Py_XINCREF(t); Py_XINCREF(v); Py_XINCREF(tb); }
    ~error_already_set() override { Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb); }
    void restore() { PyErr_Restore(t, v, tb); t = v = tb = nullptr; }
    const char *what() const noexcept override { return "python error"; }
};
class cast_error : public std::runtime_error { public: using runtime_error::runtime_error; };
struct py_error : std::runtime_error { PyObject *kind; py_error(PyObject *k, const std::string &m) : runtime_error(m), kind(k) {} };
struct value_error : py_error { explicit value_error(const std::string &m = "") : py_error(PyExc_ValueError, m) {} };
struct type_error : py_error { explicit type_error(const std::string &m = "") : py_error(PyExc_TypeError, m) {} };
struct index_error : py_error { explicit index_error(const std::string &m = "") : py_error(PyExc_IndexError, m) {} };
struct key_error : py_error { explicit key_error(const std::string &m = "") : py_error(PyExc_KeyError, m) {} };
inline PyObject *check(PyObject *p) { if (!p) throw error_already_set(); return p; }

// ------------------------------------------------------------------ objects
class handle {
   public:
    PyObject *m_ptr = nullptr;
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    bool is(handle o) const { return m_ptr == o.m_ptr; }
    bool is_none() const { return m_ptr == Py_None; }
    explicit operator bool() const { return m_ptr != nullptr; }
    inline object attr(const char *name) const;
    template <typename T> T cast() const;
    template <typename... A> object operator()(A &&...a) const;
    const handle &inc_ref() const { Py_XINCREF(m_ptr); return *this; }
    const handle &dec_ref() const { Py_XDECREF(m_ptr); return *this; }
    template <typename K> struct accessor;
    template <typename K> accessor<K> operator[](K k) const;
};
class object : public handle {
   public:
    object() = default;
    object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    object(handle h, bool borrowed) : handle(h) { if (borrowed) Py_XINCREF(m_ptr); }
    ~object() { Py_XDECREF(m_ptr); }
    object &operator=(const object &o) { Py_XINCREF(o.m_ptr); PyObject *old = m_ptr; m_ptr = o.m_ptr; Py_XDECREF(old); return *this; }
    object &operator=(object &&o) noexcept { std::swap(m_ptr, o.m_ptr); return *this; }
    handle release() { handle h(m_ptr); m_ptr = nullptr; return h; }
};
inline object steal(PyObject *p) { return object(handle(check(p)), false); }
inline object borrow(PyObject *p) { return object(handle(p), true); }
template <typename T> T reinterpret_borrow(handle h) { T t; static_cast<object &>(t) = object(h, true); return t; }
template <typename T> T reinterpret_steal(handle h) { T t; static_cast<object &>(t) = object(h, false); return t; }
inline object handle::attr(const char *name) const { return steal(PyObject_GetAttrString(m_ptr, name)); }

template <typename T> object cast(T &&v);

template <typename K>
struct handle::accessor : object {
    object base;
    object key;
    accessor(handle b, object k) : base(b, true), key(std::move(k)) {
        m_ptr = PyObject_GetItem(b.ptr(), key.ptr());
        if (!m_ptr) PyErr_Clear();
    }
    template <typename T> void operator=(T &&v) {
        object o = pybind11::cast(std::forward<T>(v));
        if (PyObject_SetItem(base.ptr(), key.ptr(), o.ptr()) != 0) throw error_already_set();
    }
    void operator=(const accessor &o) { if (PyObject_SetItem(base.ptr(), key.ptr(), o.m_ptr) != 0) throw error_already_set(); }
    template <typename T> T cast() const {
        if (!m_ptr) throw index_error("no such item");
        return handle::cast<T>();
    }
};
template <typename K>
handle::accessor<K> handle::operator[](K k) const { return accessor<K>(*this, pybind11::cast(k)); }

#define VERIF_PY_OBJ(name, conv)                                                            \
    name(const object &o) : object() { static_cast<object &>(*this) = conv; }               \
    name(const name &) = default;                                                           \
    name(name &&) = default;                                                                \
    name &operator=(const name &) = default;                                                \
    name &operator=(name &&) = default;

class none : public object { public: none() : object(handle(Py_None), true) {} VERIF_PY_OBJ(none, o) };
class ellipsis : public object { public: ellipsis() : object(handle(Py_Ellipsis), true) {} };
class str : public object {
   public:
    str() : object(handle(PyUnicode_FromString("")), false) {}
    str(const char *s) : object(handle(check(PyUnicode_FromString(s))), false) {}
    str(const std::string &s) : object(handle(check(PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size()))), false) {}
    VERIF_PY_OBJ(str, steal(PyObject_Str(o.ptr())))
    operator std::string() const { return cast<std::string>(); }
};
class int_ : public object { public: int_() : object(handle(PyLong_FromLong(0)), false) {} template <typename T, typename = std::enable_if_t<std::is_integral<T>::value>> int_(T v) : object(pybind11::cast(v)) {} VERIF_PY_OBJ(int_, steal(PyNumber_Long(o.ptr()))) };
class float_ : public object { public: float_(double v = 0) : object(handle(check(PyFloat_FromDouble(v))), false) {} VERIF_PY_OBJ(float_, steal(PyNumber_Float(o.ptr()))) };
class bool_ : public object { public: bool_(bool v = false) : object(handle(v ? Py_True : Py_False), true) {} };
class tuple : public object {
   public:
    explicit tuple(size_t n = 0) : object(handle(check(PyTuple_New((Py_ssize_t)n))), false) {}
    VERIF_PY_OBJ(tuple, (PyTuple_Check(o.ptr()) ? o : steal(PySequence_Tuple(o.ptr()))))
    size_t size() const { return (size_t)PyTuple_GET_SIZE(m_ptr); }
    bool empty() const { return size() == 0; }
};
class list : public object {
   public:
    explicit list(size_t n = 0) : object(handle(check(PyList_New((Py_ssize_t)n))), false) {
        for (size_t k = 0; k < n; k++) { Py_INCREF(Py_None); PyList_SET_ITEM(m_ptr, (Py_ssize_t)k, Py_None); }
    }
    VERIF_PY_OBJ(list, (PyList_Check(o.ptr()) ? o : steal(PySequence_List(o.ptr()))))
    template <typename T> void append(T &&v) {
        object o = pybind11::cast(std::forward<T>(v));
        if (PyList_Append(m_ptr, o.ptr()) != 0) throw error_already_set();
    }
    size_t size() const { return (size_t)PyList_GET_SIZE(m_ptr); }
    bool empty() const { return size() == 0; }
};
class set : public object {
   public:
    set() : object(handle(check(PySet_New(nullptr))), false) {}
    template <typename T> bool add(T &&v) { object o = pybind11::cast(std::forward<T>(v)); return PySet_Add(m_ptr, o.ptr()) == 0; }
    size_t size() const { return (size_t)PySet_Size(m_ptr); }
};
class iterable : public object { public: iterable() = default; VERIF_PY_OBJ(iterable, o) };
class sequence : public object { public: sequence() = default; VERIF_PY_OBJ(sequence, o) size_t size() const { return (size_t)PySequence_Size(m_ptr); } };
class function : public object { public: function() = default; VERIF_PY_OBJ(function, o) };
class capsule : public object {
   public:
    capsule() = default;
    struct Holder { void *p; void (*d)(void *); };
    capsule(const void *p, void (*d)(void *)) {
        auto *h = new Holder{const_cast<void *>(p), d};
        m_ptr = check(PyCapsule_New(h, nullptr, [](PyObject *o) {
            auto *h = (Holder *)PyCapsule_GetPointer(o, nullptr);
            h->d(h->p);
            delete h;
        }));
    }
};

// ------------------------------------------------------------------ arguments
struct arg_v;
struct arg {
    const char *name;
    bool noconv = false;
    explicit arg(const char *n = nullptr) : name(n) {}
    template <typename T> arg_v operator=(T &&v) const;
    arg &noconvert(bool f = true) { noconv = f; return *this; }
};
struct arg_v {
    const char *name;
    object value;
};
template <typename T> arg_v arg::operator=(T &&v) const { return arg_v{name, pybind11::cast(std::forward<T>(v))}; }
inline namespace literals {
inline arg operator""_a(const char *n, size_t) { return arg(n); }
}
struct kw_only {};
struct pos_only {};
enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <typename... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <size_t, size_t> struct keep_alive {};

class dict : public object {
   public:
    dict() : object(handle(check(PyDict_New())), false) {}
    template <typename... A, typename = std::enable_if_t<(sizeof...(A) > 0) && (std::is_same_v<std::decay_t<A>, arg_v> && ...)>>
    explicit dict(A &&...a) : dict() {
        (void)std::initializer_list<int>{(PyDict_SetItemString(m_ptr, a.name, a.value.ptr()), 0)...};
    }
    dict(const dict &) = default;
    dict(dict &&) = default;
    dict &operator=(const dict &) = default;
    dict &operator=(dict &&) = default;
    size_t size() const { return (size_t)PyDict_Size(m_ptr); }
    template <typename T> bool contains(T &&k) const { object o = pybind11::cast(std::forward<T>(k)); return PyDict_Contains(m_ptr, o.ptr()) == 1; }
};

// ------------------------------------------------------------------ casters: load from Python, convert to Python
template <typename T> struct registered { static inline PyTypeObject *type = nullptr; };
template <typename T> struct instance { PyObject_HEAD T *value; };

struct load_failed {};

template <typename T, typename = void> struct caster_impl;

template <typename T>
struct caster_impl<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> {
    static T load(handle h) {
        if (!h || PyFloat_Check(h.ptr())) throw load_failed{};
        object idx(handle(PyNumber_Index(h.ptr())), false);
        if (!idx) {
            PyErr_Clear();
            // Like pybind11 with conversions on: anything with __int__ that is not a float.
            if (!PyNumber_Check(h.ptr())) throw load_failed{};
            idx = object(handle(PyNumber_Long(h.ptr())), false);
            if (!idx) { PyErr_Clear(); throw load_failed{}; }
        }
        if (std::is_unsigned<T>::value) {
            unsigned long long v = PyLong_AsUnsignedLongLong(idx.ptr());
            if (PyErr_Occurred() || v > (unsigned long long)std::numeric_limits<T>::max()) { PyErr_Clear(); throw load_failed{}; }
            return (T)v;
        }
        long long v = PyLong_AsLongLong(idx.ptr());
        if (PyErr_Occurred() || v > (long long)std::numeric_limits<T>::max() || v < (long long)std::numeric_limits<T>::min()) { PyErr_Clear(); throw load_failed{}; }
        return (T)v;
    }
    static object conv(T v) { return std::is_unsigned<T>::value ? steal(PyLong_FromUnsignedLongLong((unsigned long long)v)) : steal(PyLong_FromLongLong((long long)v)); }
};
template <> struct caster_impl<bool> {
    static bool load(handle h) {
        if (!h) throw load_failed{};
        if (h.is(Py_True)) return true;
        if (h.is(Py_False) || h.is_none()) return false;
        auto *nb = Py_TYPE(h.ptr())->tp_as_number;
        if (nb && nb->nb_bool) {
            int r = nb->nb_bool(h.ptr());
            if (r >= 0) return r;
        }
        PyErr_Clear();
        throw load_failed{};
    }
    static object conv(bool v) { return borrow(v ? Py_True : Py_False); }
};
template <typename T>
struct caster_impl<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static T load(handle h) {
        if (!h) throw load_failed{};
        double d = PyFloat_AsDouble(h.ptr());
        if (d == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            if (!PyNumber_Check(h.ptr())) throw load_failed{};
            object f(handle(PyNumber_Float(h.ptr())), false);
            if (!f) { PyErr_Clear(); throw load_failed{}; }
            return (T)PyFloat_AsDouble(f.ptr());
        }
        return (T)d;
    }
    static object conv(T v) { return steal(PyFloat_FromDouble((double)v)); }
};
template <> struct caster_impl<std::string> {
    static std::string load(handle h) {
        if (h && PyUnicode_Check(h.ptr())) {
            Py_ssize_t n;
            const char *p = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
            if (p) return std::string(p, (size_t)n);
            PyErr_Clear();
        } else if (h && PyBytes_Check(h.ptr())) {
            return std::string(PyBytes_AS_STRING(h.ptr()), (size_t)PyBytes_GET_SIZE(h.ptr()));
        }
        throw load_failed{};
    }
    static object conv(const std::string &v) { return steal(PyUnicode_FromStringAndSize(v.data(), (Py_ssize_t)v.size())); }
};
template <> struct caster_impl<std::string_view> {
    static object conv(std::string_view v) { return steal(PyUnicode_FromStringAndSize(v.data(), (Py_ssize_t)v.size())); }
};
template <> struct caster_impl<const char *> {
    static const char *load(handle h) {
        if (h && PyUnicode_Check(h.ptr())) {
            const char *p = PyUnicode_AsUTF8(h.ptr());
            if (p) return p;
            PyErr_Clear();
        }
        throw load_failed{};
    }
    static object conv(const char *v) { return v ? steal(PyUnicode_FromString(v)) : borrow(Py_None); }
};
template <size_t N> struct caster_impl<char[N]> : caster_impl<const char *> {};
template <> struct caster_impl<char *> : caster_impl<const char *> {};
template <> struct caster_impl<std::nullptr_t> { static object conv(std::nullptr_t) { return borrow(Py_None); } };

template <typename T>
struct caster_impl<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
    static T load(handle h) {
        if (!h) throw load_failed{};
        if constexpr (std::is_same_v<T, object> || std::is_same_v<T, handle>) return T(object(h, true));
        else if constexpr (std::is_same_v<T, dict>) { if (!PyDict_Check(h.ptr())) throw load_failed{}; return reinterpret_borrow<dict>(h); }
        else if constexpr (std::is_same_v<T, list>) { if (!PyList_Check(h.ptr())) throw load_failed{}; return list(object(h, true)); }
        else if constexpr (std::is_same_v<T, tuple>) { if (!PyTuple_Check(h.ptr())) throw load_failed{}; return tuple(object(h, true)); }
        else return T::shim_load(h);
    }
    static object conv(const T &v) { return object(v, true); }
};

template <typename S>
struct set_caster {
    static S load(handle h) {
        if (!h || !PyAnySet_Check(h.ptr())) throw load_failed{};
        S s;
        object it = steal(PyObject_GetIter(h.ptr()));
        while (PyObject *x = PyIter_Next(it.ptr())) {
            object o(handle(x), false);
            s.insert(caster_impl<typename S::value_type>::load(o));
        }
        return s;
    }
    static object conv(const S &s) {
        object r = steal(PySet_New(nullptr));
        for (auto &x : s) { object o = caster_impl<typename S::value_type>::conv(x); if (PySet_Add(r.ptr(), o.ptr()) != 0) throw error_already_set(); }
        return r;
    }
};
template <typename T> struct caster_impl<std::set<T>> : set_caster<std::set<T>> {};
template <typename T> struct caster_impl<std::unordered_set<T>> : set_caster<std::unordered_set<T>> {};
template <typename T>
struct caster_impl<std::vector<T>> {
    static std::vector<T> load(handle h) {
        if (!h || !PySequence_Check(h.ptr()) || PyUnicode_Check(h.ptr()) || PyBytes_Check(h.ptr())) throw load_failed{};
        std::vector<T> v;
        Py_ssize_t n = PySequence_Size(h.ptr());
        for (Py_ssize_t k = 0; k < n; k++) { object o = steal(PySequence_GetItem(h.ptr(), k)); v.push_back(caster_impl<T>::load(o)); }
        return v;
    }
    static object conv(const std::vector<T> &v) {
        object r = steal(PyList_New(0));
        for (auto &&x : v) { object o = caster_impl<T>::conv(x); if (PyList_Append(r.ptr(), o.ptr()) != 0) throw error_already_set(); }
        return r;
    }
};
template <typename A, typename B>
struct caster_impl<std::pair<A, B>> {
    static std::pair<A, B> load(handle h) {
        if (!h || !PySequence_Check(h.ptr()) || PySequence_Size(h.ptr()) != 2) { PyErr_Clear(); throw load_failed{}; }
        object a = steal(PySequence_GetItem(h.ptr(), 0)), b = steal(PySequence_GetItem(h.ptr(), 1));
        return {caster_impl<A>::load(a), caster_impl<B>::load(b)};
    }
    static object conv(const std::pair<A, B> &p) {
        object a = caster_impl<std::decay_t<A>>::conv(p.first), b = caster_impl<std::decay_t<B>>::conv(p.second);
        return steal(PyTuple_Pack(2, a.ptr(), b.ptr()));
    }
};
template <typename... T>
struct caster_impl<std::tuple<T...>> {
    static object conv(const std::tuple<T...> &t) {
        object r = steal(PyTuple_New(sizeof...(T)));
        Py_ssize_t k = 0;
        std::apply([&](auto &...x) { (PyTuple_SET_ITEM(r.ptr(), k++, caster_impl<std::decay_t<decltype(x)>>::conv(x).release().ptr()), ...); }, t);
        return r;
    }
};
template <typename K, typename V>
struct caster_impl<std::map<K, V>> {
    static object conv(const std::map<K, V> &m) {
        object r = steal(PyDict_New());
        for (auto &e : m) { object a = caster_impl<K>::conv(e.first), b = caster_impl<V>::conv(e.second); PyDict_SetItem(r.ptr(), a.ptr(), b.ptr()); }
        return r;
    }
};

template <typename T, typename = void> struct has_caster : std::false_type {};
template <typename T> struct has_caster<T, std::void_t<decltype(sizeof(caster_impl<T>))>> : std::true_type {};

/// Registered C++ classes: references to the held value in, moved values out.
template <typename T>
struct class_caster {
    static T &ref(handle h) {
        if (!h || !registered<T>::type || !PyObject_TypeCheck(h.ptr(), registered<T>::type)) throw load_failed{};
        T *p = ((instance<T> *)h.ptr())->value;
        if (!p) throw load_failed{};
        return *p;
    }
    static object conv(T &&v) {
        if (!registered<T>::type) throw cast_error("type not registered");
        object o = steal(registered<T>::type->tp_alloc(registered<T>::type, 0));
        ((instance<T> *)o.ptr())->value = new T(std::move(v));
        return o;
    }
};

template <typename T>
object cast(T &&v) {
    using D = std::decay_t<T>;
    if constexpr (std::is_array_v<std::remove_reference_t<T>> || std::is_same_v<D, const char *> || std::is_same_v<D, char *>) return caster_impl<const char *>::conv(v);
    else if constexpr (std::is_base_of_v<handle, D>) return object(handle(v.ptr()), true);
    else if constexpr (has_caster<D>::value) return caster_impl<D>::conv(v);
    else return class_caster<D>::conv(std::forward<T>(v));
}
template <typename T> T cast(handle h) { return h.cast<T>(); }
template <typename T> T handle::cast() const {
    try {
        if constexpr (has_caster<T>::value) return caster_impl<T>::load(*this);
        else return class_caster<T>::ref(*this);
    } catch (load_failed &) {
        throw cast_error("Unable to cast Python instance to C++ type");
    }
}

template <typename... A> tuple make_tuple(A &&...a) {
    tuple t(sizeof...(A));
    Py_ssize_t k = 0;
    (PyTuple_SET_ITEM(t.ptr(), k++, cast(std::forward<A>(a)).release().ptr()), ...);
    return t;
}

template <typename... A> object handle::operator()(A &&...a) const {
    std::vector<object> pos;
    object kw = steal(PyDict_New());
    auto one = [&](auto &&x) {
        using D = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<D, arg_v>) PyDict_SetItemString(kw.ptr(), x.name, x.value.ptr());
        else pos.push_back(pybind11::cast(std::forward<decltype(x)>(x)));
    };
    (one(std::forward<A>(a)), ...);
    object t = steal(PyTuple_New((Py_ssize_t)pos.size()));
    for (size_t k = 0; k < pos.size(); k++) PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)k, pos[k].release().ptr());
    return steal(PyObject_Call(m_ptr, t.ptr(), kw.ptr()));
}
inline bool isinstance(handle o, handle type) {
    int r = PyObject_IsInstance(o.ptr(), type.ptr());
    if (r < 0) throw error_already_set();
    return r;
}
template <typename T> bool isinstance(handle o) {
    try { (void)caster_impl<T>::load(o); return true; } catch (load_failed &) { return false; }
}
inline size_t len(handle h) { Py_ssize_t n = PyObject_Size(h.ptr()); if (n < 0) throw error_already_set(); return (size_t)n; }
inline bool hasattr(handle h, const char *n) { return PyObject_HasAttrString(h.ptr(), n); }

// ------------------------------------------------------------------ functions
struct Param { std::string name; object def; bool kwonly = false; };
struct Overload {
    std::vector<Param> params;  // self included for methods
    std::function<object(std::vector<object> &)> call;  // throws load_failed if an argument does not convert
    bool raw_self = false;      // constructors get the instance itself
};
struct FunctionRecord {
    std::string name;
    std::vector<Overload> overloads;
    PyMethodDef def;
};

inline PyObject *translate() {
    try {
        throw;
    } catch (error_already_set &e) { e.restore();
    } catch (py_error &e) { PyErr_SetString(e.kind, e.what());
    } catch (const cast_error &e) { PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (const std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
    return nullptr;
}

inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw) {
    auto *rec = (FunctionRecord *)PyCapsule_GetPointer(self, "verif.function");
    if (!rec) return nullptr;
    size_t na = (size_t)PyTuple_GET_SIZE(args);
    for (auto &o : rec->overloads) {
        std::vector<object> v(o.params.size());
        bool ok = true;
        size_t npos = 0;
        for (auto &p : o.params) npos += !p.kwonly;
        if (na > npos) continue;
        size_t used_kw = 0;
        for (size_t k = 0; k < v.size() && ok; k++) {
            auto &p = o.params[k];
            PyObject *byname = kw && !p.name.empty() ? PyDict_GetItemString(kw, p.name.c_str()) : nullptr;
            if (k < na && !p.kwonly) {
                if (byname) { ok = false; break; }
                v[k] = borrow(PyTuple_GET_ITEM(args, (Py_ssize_t)k));
            } else if (byname) {
                v[k] = borrow(byname);
                used_kw++;
            } else if (p.def) v[k] = p.def;
            else ok = false;
        }
        if (!ok || (kw && (size_t)PyDict_Size(kw) != used_kw)) continue;
        try {
            return o.call(v).release().ptr();
        } catch (load_failed &) {
            PyErr_Clear();
            continue;
        } catch (...) {
            return translate();
        }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", rec->name.c_str());
    return nullptr;
}

inline FunctionRecord *make_function(const std::string &name, PyObject **out) {
    auto *rec = new FunctionRecord;  // lives as long as the module
    rec->name = name;
    rec->def = PyMethodDef{rec->name.c_str(), (PyCFunction)(void *)(PyCFunctionWithKeywords)dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
    object cap = steal(PyCapsule_New(rec, "verif.function", nullptr));
    *out = check(PyCFunction_NewEx(&rec->def, cap.ptr(), nullptr));
    return rec;
}

/// How one C++ parameter type receives its argument.
template <typename P>
struct holder {
    using D = std::remove_cv_t<std::remove_reference_t<P>>;
    static constexpr bool cls = !has_caster<D>::value;
    std::conditional_t<cls, D *, std::conditional_t<cls, int, D>> v;
    explicit holder(object &o) : v(get(o)) {}
    static auto get(object &o) {
        if constexpr (cls) return &class_caster<D>::ref(o);
        else return caster_impl<D>::load(o);
    }
    P pass() {
        if constexpr (cls) return static_cast<P>(*v);
        else if constexpr (std::is_lvalue_reference_v<P>) return v;
        else return std::forward<D>(v);
    }
};

template <typename R, typename F, typename... A, size_t... I>
object invoke_impl(F &f, std::vector<object> &v, std::index_sequence<I...>) {
    std::tuple<holder<A>...> h{holder<A>(v[I])...};
    if constexpr (std::is_void_v<R>) {
        f(std::get<I>(h).pass()...);
        return borrow(Py_None);
    } else {
        return pybind11::cast(f(std::get<I>(h).pass()...));
    }
}
template <typename R, typename F, typename... A>
std::function<object(std::vector<object> &)> make_call(F f) {
    return [f](std::vector<object> &v) mutable { return invoke_impl<R, F, A...>(f, v, std::index_sequence_for<A...>{}); };
}
template <typename... E>
void add_params(Overload &o, size_t arity, size_t skip, const E &...extra) {
    for (size_t k = 0; k < skip; k++) o.params.push_back({"", object()});
    bool kwonly = false;
    auto one = [&](const auto &e) {
        using D = std::decay_t<decltype(e)>;
        if constexpr (std::is_same_v<D, arg>) o.params.push_back({e.name ? e.name : "", object(), kwonly});
        else if constexpr (std::is_same_v<D, arg_v>) o.params.push_back({e.name, e.value, kwonly});
        else if constexpr (std::is_same_v<D, kw_only>) kwonly = true;
    };
    (one(extra), ...);
    while (o.params.size() < arity) o.params.push_back({"", object()});
}
template <typename F> struct sig : sig<decltype(&F::operator())> {};
template <typename R, typename... A> struct sig<R (*)(A...)> { template <typename F> static std::function<object(std::vector<object> &)> mk(F f) { return make_call<R, F, A...>(f); } static constexpr size_t n = sizeof...(A); };
template <typename R, typename C, typename... A> struct sig<R (C::*)(A...) const> { template <typename F> static std::function<object(std::vector<object> &)> mk(F f) { return make_call<R, F, A...>(f); } static constexpr size_t n = sizeof...(A); };
template <typename R, typename C, typename... A> struct sig<R (C::*)(A...)> { template <typename F> static std::function<object(std::vector<object> &)> mk(F f) { return make_call<R, F, A...>(f); } static constexpr size_t n = sizeof...(A); };

template <typename T, typename F, typename... E>
Overload make_overload(F f, size_t skip, const E &...extra) {
    Overload o;
    if constexpr (std::is_member_function_pointer_v<F>) {
        return make_method<T>(f, skip, extra...);
    } else {
        using S = sig<std::decay_t<F>>;
        o.call = S::mk(f);
        add_params(o, S::n, skip, extra...);
        return o;
    }
}
template <typename T, typename R, typename C, typename... A, typename... E>
Overload make_method(R (C::*f)(A...), size_t skip, const E &...extra) {
    Overload o;
    auto g = [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
    o.call = make_call<R, decltype(g), T &, A...>(g);
    add_params(o, sizeof...(A) + 1, skip, extra...);
    return o;
}
template <typename T, typename R, typename C, typename... A, typename... E>
Overload make_method(R (C::*f)(A...) const, size_t skip, const E &...extra) {
    Overload o;
    auto g = [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
    o.call = make_call<R, decltype(g), T &, A...>(g);
    add_params(o, sizeof...(A) + 1, skip, extra...);
    return o;
}

// ------------------------------------------------------------------ modules and classes
class module_ : public object {
   public:
    module_() = default;
    module_(const object &o) : object(o) {}
    std::shared_ptr<std::map<std::string, FunctionRecord *>> fns = std::make_shared<std::map<std::string, FunctionRecord *>>();
    static module_ import(const char *name) { return module_(steal(PyImport_ImportModule(name))); }
    template <typename F, typename... E>
    module_ &def(const char *name, F &&f, const E &...extra) {
        Overload o = make_overload<void>(std::decay_t<F>(f), 0, extra...);
        auto it = fns->find(name);
        if (it == fns->end()) {
            PyObject *fn;
            auto *rec = make_function(name, &fn);
            PyObject_SetAttrString(m_ptr, name, fn);
            Py_DECREF(fn);
            it = fns->emplace(name, rec).first;
        }
        it->second->overloads.push_back(std::move(o));
        return *this;
    }
    template <typename T> module_ &add_object(const char *name, T &&v) { object o = pybind11::cast(std::forward<T>(v)); PyObject_SetAttrString(m_ptr, name, o.ptr()); return *this; }
};
using module = module_;

template <typename... A> struct init_t {};
template <typename... A> init_t<A...> init() { return {}; }

template <typename T, typename... Opts>
class class_ : public object {
   public:
    std::shared_ptr<std::map<std::string, FunctionRecord *>> fns = std::make_shared<std::map<std::string, FunctionRecord *>>();
    template <typename... E>
    class_(handle scope, const char *name, const E &...) {
        static PyType_Slot slots[] = {{Py_tp_dealloc, (void *)dealloc}, {Py_tp_new, (void *)create}, {0, nullptr}};
        static PyType_Spec spec = {nullptr, sizeof(instance<T>), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        static std::string full = std::string("pymatching._cpp_pymatching.") + name;
        spec.name = full.c_str();
        m_ptr = check(PyType_FromSpec(&spec));
        registered<T>::type = (PyTypeObject *)m_ptr;
        Py_INCREF(m_ptr);
        PyObject_SetAttrString(scope.ptr(), name, m_ptr);
    }
    static void dealloc(PyObject *o) {
        delete ((instance<T> *)o)->value;
        PyTypeObject *t = Py_TYPE(o);
        t->tp_free(o);
        Py_DECREF(t);
    }
    static PyObject *create(PyTypeObject *t, PyObject *, PyObject *) { return t->tp_alloc(t, 0); }
    void put(const char *name, Overload o) {
        auto it = fns->find(name);
        if (it == fns->end()) {
            PyObject *fn;
            auto *rec = make_function(name, &fn);
            PyObject *m = check(PyInstanceMethod_New(fn));
            Py_DECREF(fn);
            if (PyObject_SetAttrString(m_ptr, name, m) != 0) throw error_already_set();
            Py_DECREF(m);
            it = fns->emplace(name, rec).first;
        }
        it->second->overloads.push_back(std::move(o));
    }
    template <typename F, typename... E>
    class_ &def(const char *name, F &&f, const E &...extra) {
        if constexpr (std::is_member_function_pointer_v<std::decay_t<F>>) put(name, make_method<T>(f, 1, extra...));
        else put(name, make_overload<T>(std::decay_t<F>(f), 1, extra...));
        return *this;
    }
    template <typename F> class_ &def_property_readonly(const char *name, F &&f) {
        FunctionRecord *rec;
        PyObject *fn;
        rec = make_function(name, &fn);
        if constexpr (std::is_member_function_pointer_v<std::decay_t<F>>) rec->overloads.push_back(make_method<T>(f, 1));
        else rec->overloads.push_back(make_overload<T>(std::decay_t<F>(f), 1));
        object prop = steal(PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, fn, nullptr));
        Py_DECREF(fn);
        PyObject_SetAttrString(m_ptr, name, prop.ptr());
        return *this;
    }
    template <typename... A, typename... E>
    class_ &def(init_t<A...>, const E &...extra) {
        Overload o;
        o.call = [](std::vector<object> &v) { return construct<A...>(v, std::index_sequence_for<A...>{}); };
        add_params(o, sizeof...(A) + 1, 1, extra...);
        put("__init__", std::move(o));
        return *this;
    }
    template <typename... A, size_t... I>
    static object construct(std::vector<object> &v, std::index_sequence<I...>) {
        std::tuple<holder<A>...> h{holder<A>(v[I + 1])...};
        auto *in = (instance<T> *)v[0].ptr();
        T *p = new T(std::get<I>(h).pass()...);
        delete in->value;
        in->value = p;
        return borrow(Py_None);
    }
};
}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                   \
    static void verif_pybind_init_##name(::pybind11::module_ &);                          \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {         \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};    \
        try {                                                                             \
            ::pybind11::shim_import_numpy();                                              \
            ::pybind11::module_ m(::pybind11::steal(PyModule_Create(&def)));              \
            verif_pybind_init_##name(m);                                                  \
            return m.release().ptr();                                                     \
        } catch (...) {                                                                   \
            return ::pybind11::translate();                                               \
        }                                                                                 \
    }                                                                                     \
    void verif_pybind_init_##name(::pybind11::module_ &variable)
#endif
