/* A small stand-in for pybind11 (not installed here): enough to compile extension modules made
 * of m.def(name, &function, doc/args...) with STL conversions. Same observable conversions as
 * pybind11: overload-free functions, TypeError on bad arguments, C++ exceptions mapped to
 * RuntimeError / ValueError / IndexError, containers copied both ways. */
#ifndef PCTSP_SHIM_PYBIND11_H
#define PCTSP_SHIM_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <climits>
#include <filesystem>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {
struct error_already_set : public std::runtime_error { error_already_set() : std::runtime_error("python error") {} };
struct cast_error : public std::runtime_error { using std::runtime_error::runtime_error; };

class object;
class handle {
protected: PyObject* p_ = nullptr;
public:
  handle() {}
  handle(PyObject* p) : p_(p) {}
  PyObject* ptr() const { return p_; }
  bool is_none() const { return p_ == Py_None; }
  explicit operator bool() const { return p_ != nullptr; }
  inline object attr(const char* name) const;
  template <typename... A> inline object operator()(A&&... a) const;
};
class object : public handle {
public:
  object() {}
  struct steal_t {}; struct borrow_t {};
  object(PyObject* p, steal_t) : handle(p) {}
  object(PyObject* p, borrow_t) : handle(p) { Py_XINCREF(p_); }
  object(const object& o) : handle(o.p_) { Py_XINCREF(p_); }
  object(object&& o) noexcept : handle(o.p_) { o.p_ = nullptr; }
  object& operator=(object o) { std::swap(p_, o.p_); return *this; }
  ~object() { Py_XDECREF(p_); }
};
template <typename T> T reinterpret_borrow(handle h) { T t; static_cast<object&>(t) = object(h.ptr(), object::borrow_t{}); return t; }
template <typename T> T reinterpret_steal(handle h) { T t; static_cast<object&>(t) = object(h.ptr(), object::steal_t{}); return t; }
inline object handle::attr(const char* name) const {
  PyObject* r = PyObject_GetAttrString(p_, name); if (!r) throw error_already_set(); return object(r, object::steal_t{});
}
class bool_ : public object { public: bool_() {} bool_(bool b) : object(b ? Py_True : Py_False, object::borrow_t{}) {} };
class none : public object { public: none() : object(Py_None, object::borrow_t{}) {} };
class dict : public object { public: dict() : object(PyDict_New(), object::steal_t{}) {} };
class list : public object { public: list() : object(PyList_New(0), object::steal_t{}) {} };
class tuple : public object { public: tuple() {} };
class str : public object { public: str() {} str(const std::string& s) : object(PyUnicode_FromStringAndSize(s.data(), s.size()), object::steal_t{}) {} };

namespace detail {
template <typename T, typename Enable = void> struct caster;   /* static PyObject* to(const T&); static bool from(PyObject*, T&) */

template <> struct caster<bool> {
  static PyObject* to(bool v) { return PyBool_FromLong(v); }
  static bool from(PyObject* o, bool& v) {
    if (o == Py_True) { v = true; return true; }
    if (o == Py_False) { v = false; return true; }
    if (PyNumber_Check(o) && !PyUnicode_Check(o)) { int r = PyObject_IsTrue(o); if (r < 0) { PyErr_Clear(); return false; } v = r; return true; }
    if (o == Py_None) { v = false; return true; }
    return false; }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static PyObject* to(T v) { if (std::is_signed<T>::value) return PyLong_FromLongLong((long long) v); return PyLong_FromUnsignedLongLong((unsigned long long) v); }
  static bool from(PyObject* o, T& v) {
    if (PyFloat_Check(o)) return false;
    PyObject* idx = PyNumber_Index(o);
    if (!idx) { PyErr_Clear(); if (!PyNumber_Check(o)) return false; idx = PyNumber_Long(o); if (!idx) { PyErr_Clear(); return false; } }
    bool ok = true;
    if (std::is_signed<T>::value) {
      long long x = PyLong_AsLongLong(idx);
      if (x == -1 && PyErr_Occurred()) { PyErr_Clear(); ok = false; } else { v = (T) x; ok = ((long long) v == x); }
    } else {
      unsigned long long x = PyLong_AsUnsignedLongLong(idx);
      if (x == (unsigned long long) -1 && PyErr_Occurred()) { PyErr_Clear(); ok = false; } else { v = (T) x; ok = ((unsigned long long) v == x); }
    }
    Py_DECREF(idx); return ok; }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static PyObject* to(T v) { return PyFloat_FromDouble((double) v); }
  static bool from(PyObject* o, T& v) { if (PyUnicode_Check(o)) return false; double x = PyFloat_AsDouble(o); if (x == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; } v = (T) x; return true; }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_enum<T>::value>> {
  typedef std::underlying_type_t<T> U;
  static PyObject* to(T v) { return caster<U>::to((U) v); }
  static bool from(PyObject* o, T& v) { U u; if (!caster<U>::from(o, u)) return false; v = (T) u; return true; }
};
template <> struct caster<std::string> {
  static PyObject* to(const std::string& s) { return PyUnicode_DecodeUTF8(s.data(), s.size(), "surrogateescape"); }
  static bool from(PyObject* o, std::string& v) {
    if (PyUnicode_Check(o)) { Py_ssize_t n; const char* c = PyUnicode_AsUTF8AndSize(o, &n); if (!c) { PyErr_Clear(); return false; } v.assign(c, n); return true; }
    if (PyBytes_Check(o)) { v.assign(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)); return true; }
    return false; }
};
template <> struct caster<std::filesystem::path> {
  static PyObject* to(const std::filesystem::path& p) {
    PyObject* m = PyImport_ImportModule("pathlib"); if (!m) return nullptr;
    PyObject* r = PyObject_CallMethod(m, "Path", "s", p.c_str()); Py_DECREF(m); return r; }
  static bool from(PyObject* o, std::filesystem::path& v) {
    PyObject* f = PyOS_FSPath(o); if (!f) { PyErr_Clear(); return false; }
    std::string s; bool ok = caster<std::string>::from(f, s); Py_DECREF(f); if (ok) v = s; return ok; }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_base_of<object, T>::value>> {
  static PyObject* to(const T& o) { PyObject* p = o.ptr(); if (!p) p = Py_None; Py_INCREF(p); return p; }
  static bool from(PyObject* o, T& v) { static_cast<object&>(v) = object(o, object::borrow_t{}); return true; }
};
template <typename A, typename B> struct caster<std::pair<A, B>> {
  static PyObject* to(const std::pair<A, B>& v) {
    PyObject* a = caster<std::decay_t<A>>::to(v.first); PyObject* b = caster<std::decay_t<B>>::to(v.second);
    if (!a || !b) { Py_XDECREF(a); Py_XDECREF(b); return nullptr; }
    PyObject* t = PyTuple_New(2); PyTuple_SET_ITEM(t, 0, a); PyTuple_SET_ITEM(t, 1, b); return t; }
  static bool from(PyObject* o, std::pair<A, B>& v) {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
    PyObject* a = PySequence_GetItem(o, 0); PyObject* b = PySequence_GetItem(o, 1);
    bool ok = a && b && caster<A>::from(a, v.first) && caster<B>::from(b, v.second);
    Py_XDECREF(a); Py_XDECREF(b); return ok; }
};
template <typename... Ts> struct caster<std::tuple<Ts...>> {
  typedef std::tuple<Ts...> T;
  template <size_t... I> static PyObject* to_(const T& v, std::index_sequence<I...>) {
    PyObject* t = PyTuple_New(sizeof...(Ts)); bool ok = true;
    (void) std::initializer_list<int>{ ([&]{ PyObject* x = caster<std::decay_t<std::tuple_element_t<I, T>>>::to(std::get<I>(v)); if (!x) ok = false; PyTuple_SET_ITEM(t, I, x); }(), 0)... };
    if (!ok) { Py_DECREF(t); return nullptr; } return t; }
  static PyObject* to(const T& v) { return to_(v, std::index_sequence_for<Ts...>{}); }
  template <size_t... I> static bool from_(PyObject* o, T& v, std::index_sequence<I...>) {
    bool ok = true;
    (void) std::initializer_list<int>{ ([&]{ PyObject* x = PySequence_GetItem(o, I); if (!x || !caster<std::tuple_element_t<I, T>>::from(x, std::get<I>(v))) ok = false; Py_XDECREF(x); }(), 0)... };
    return ok; }
  static bool from(PyObject* o, T& v) { if (!PySequence_Check(o) || PySequence_Size(o) != (Py_ssize_t) sizeof...(Ts)) { PyErr_Clear(); return false; } return from_(o, v, std::index_sequence_for<Ts...>{}); }
};
template <typename T> struct caster<std::optional<T>> {
  static PyObject* to(const std::optional<T>& v) { if (!v) Py_RETURN_NONE; return caster<T>::to(*v); }
  static bool from(PyObject* o, std::optional<T>& v) { if (o == Py_None) { v.reset(); return true; } T t; if (!caster<T>::from(o, t)) return false; v = t; return true; }
};
template <typename Seq> struct seq_caster {
  typedef typename Seq::value_type V;
  static PyObject* to(const Seq& s) {
    PyObject* l = PyList_New(0);
    for (auto it = s.begin(); it != s.end(); ++it) { V tmp = *it; PyObject* x = caster<V>::to(tmp); if (!x) { Py_DECREF(l); return nullptr; } PyList_Append(l, x); Py_DECREF(x); }
    return l; }
  static bool from(PyObject* o, Seq& s) {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o)) return false;
    s.clear(); Py_ssize_t n = PySequence_Size(o); if (n < 0) { PyErr_Clear(); return false; }
    for (Py_ssize_t i = 0; i < n; i++) { PyObject* x = PySequence_GetItem(o, i); if (!x) { PyErr_Clear(); return false; } V v{}; bool ok = caster<V>::from(x, v); Py_DECREF(x); if (!ok) return false; s.push_back(v); }
    return true; }
};
template <typename T> struct caster<std::vector<T>> : seq_caster<std::vector<T>> {};
template <typename T> struct caster<std::list<T>> : seq_caster<std::list<T>> {};
template <typename T> struct caster<std::set<T>> {
  static PyObject* to(const std::set<T>& s) { PyObject* r = PySet_New(nullptr); for (auto& v : s) { PyObject* x = caster<T>::to(v); PySet_Add(r, x); Py_DECREF(x); } return r; }
  static bool from(PyObject* o, std::set<T>& s) { if (!PyAnySet_Check(o)) return false; PyObject* it = PyObject_GetIter(o); bool ok = true; while (PyObject* x = PyIter_Next(it)) { T v{}; if (!caster<T>::from(x, v)) ok = false; else s.insert(v); Py_DECREF(x); } Py_DECREF(it); return ok; }
};
template <typename M> struct map_caster {
  typedef typename M::key_type K; typedef typename M::mapped_type V;
  static PyObject* to(const M& m) { PyObject* d = PyDict_New(); for (auto& kv : m) { PyObject* k = caster<K>::to(kv.first); PyObject* v = caster<V>::to(kv.second); if (!k || !v) { Py_XDECREF(k); Py_XDECREF(v); Py_DECREF(d); return nullptr; } PyDict_SetItem(d, k, v); Py_DECREF(k); Py_DECREF(v); } return d; }
  static bool from(PyObject* o, M& m) {
    if (!PyDict_Check(o)) return false;
    m.clear(); PyObject *k, *v; Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &v)) { K kk{}; V vv{}; if (!caster<K>::from(k, kk) || !caster<V>::from(v, vv)) return false; m.emplace(kk, vv); }
    return true; }
};
template <typename K, typename V> struct caster<std::map<K, V>> : map_caster<std::map<K, V>> {};
template <typename K, typename V> struct caster<std::unordered_map<K, V>> : map_caster<std::unordered_map<K, V>> {};

inline void translate() {
  try { throw; }
  catch (const error_already_set&) { }
  catch (const std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (const std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const std::range_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}
}  // namespace detail

template <typename T> object cast(const T& v) { PyObject* p = detail::caster<std::decay_t<T>>::to(v); if (!p) throw error_already_set(); return object(p, object::steal_t{}); }
template <typename T> T cast(const handle& h) { T t{}; if (!detail::caster<T>::from(h.ptr(), t)) throw cast_error("Unable to cast Python instance to C++ type"); return t; }
template <typename... A> inline object handle::operator()(A&&... a) const {
  PyObject* t = PyTuple_New(sizeof...(A)); size_t i = 0;
  (void) std::initializer_list<int>{ 0, (PyTuple_SET_ITEM(t, i++, detail::caster<std::decay_t<A>>::to(a)), 0)... };
  PyObject* r = PyObject_CallObject(p_, t); Py_DECREF(t); if (!r) throw error_already_set(); return object(r, object::steal_t{});
}
template <typename... A> tuple make_tuple(A&&... a) {
  PyObject* t = PyTuple_New(sizeof...(A)); size_t i = 0;
  (void) std::initializer_list<int>{ 0, (PyTuple_SET_ITEM(t, i++, detail::caster<std::decay_t<A>>::to(a)), 0)... };
  return reinterpret_steal<tuple>(handle(t));
}

struct arg_v { std::string name; object value; };
struct arg { std::string name; explicit arg(const char* n) : name(n) {} template <typename T> arg_v operator=(const T& v) const { return arg_v{name, cast(v)}; } };
enum class return_value_policy { automatic, copy, move, reference, take_ownership };
template <typename... T> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};

struct function_record { std::string name, doc; std::vector<std::string> argnames; std::vector<object> defaults; size_t nargs = 0; std::function<PyObject*(std::vector<PyObject*>&)> impl; PyMethodDef def; };
namespace detail {
inline PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kwargs) {
  function_record* r = (function_record*) PyCapsule_GetPointer(self, "shim_function_record");
  size_t n = PyTuple_GET_SIZE(args);
  std::vector<PyObject*> a(r->nargs, nullptr);
  if (n > r->nargs) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; }
  for (size_t i = 0; i < n; i++) a[i] = PyTuple_GET_ITEM(args, i);
  if (kwargs) { PyObject *k, *v; Py_ssize_t pos = 0; while (PyDict_Next(kwargs, &pos, &k, &v)) { const char* kn = PyUnicode_AsUTF8(k); bool f = false; for (size_t i = 0; i < r->argnames.size() && i < r->nargs; i++) if (r->argnames[i] == kn && !a[i]) { a[i] = v; f = true; } if (!f) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; } } }
  for (size_t i = 0; i < r->nargs; i++) { if (!a[i] && i < r->defaults.size() && r->defaults[i].ptr()) a[i] = r->defaults[i].ptr(); if (!a[i]) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; } }
  try { return r->impl(a); } catch (...) { translate(); return nullptr; }
}
template <typename R, typename... A, size_t... I> std::function<PyObject*(std::vector<PyObject*>&)> wrap(std::function<R(A...)> f, std::string name, std::index_sequence<I...>) {
  return [f, name](std::vector<PyObject*>& args) -> PyObject* {
    std::tuple<std::decay_t<A>...> vals; bool ok = true;
    (void) args;
    (void) std::initializer_list<int>{ 0, ((ok = ok && caster<std::decay_t<A>>::from(args[I], std::get<I>(vals))), 0)... };
    if (!ok) { if (!PyErr_Occurred()) PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", name.c_str()); return nullptr; }
    if constexpr (std::is_void<R>::value) { f(static_cast<A>(std::get<I>(vals))...); Py_RETURN_NONE; }
    else { return caster<std::decay_t<R>>::to(f(static_cast<A>(std::get<I>(vals))...)); }
  };
}
inline void extra(function_record* r, const char* d) { r->doc = d; }
inline void extra(function_record* r, const arg& a) { r->argnames.push_back(a.name); r->defaults.resize(r->argnames.size()); }
inline void extra(function_record* r, const arg_v& a) { r->argnames.push_back(a.name); r->defaults.resize(r->argnames.size()); r->defaults.back() = a.value; }
inline void extra(function_record*, return_value_policy) {}
template <typename... T> void extra(function_record*, call_guard<T...>) {}
template <typename F> struct fsig : fsig<decltype(&F::operator())> {};
template <typename R, typename... A> struct fsig<R (*)(A...)> { typedef std::function<R(A...)> type; static constexpr size_t n = sizeof...(A); };
template <typename R, typename C, typename... A> struct fsig<R (C::*)(A...) const> { typedef std::function<R(A...)> type; static constexpr size_t n = sizeof...(A); };
template <typename R, typename C, typename... A> struct fsig<R (C::*)(A...)> { typedef std::function<R(A...)> type; static constexpr size_t n = sizeof...(A); };
}
class module_ : public object {
public:
  module_() {}
  static module_ import(const char* name) { PyObject* m = PyImport_ImportModule(name); if (!m) throw error_already_set(); return reinterpret_steal<module_>(handle(m)); }
  template <typename F, typename... X> module_& def(const char* name, F f, const X&... x) {
    typedef detail::fsig<std::decay_t<F>> S;
    auto* r = new function_record; r->name = name; r->nargs = S::n;
    r->impl = detail::wrap(typename S::type(f), r->name, std::make_index_sequence<S::n>{});
    (void) std::initializer_list<int>{ 0, (detail::extra(r, x), 0)... };
    r->def = PyMethodDef{ r->name.c_str(), (PyCFunction)(void*) detail::dispatch, METH_VARARGS | METH_KEYWORDS, r->doc.c_str() };
    PyObject* cap = PyCapsule_New(r, "shim_function_record", nullptr);
    PyObject* fn = PyCFunction_NewEx(&r->def, cap, nullptr);
    PyObject_SetAttrString(p_, name, fn); Py_DECREF(fn); Py_DECREF(cap); return *this; }
  module_& doc() { return *this; }
};
using module = module_;
}  // namespace pybind11
#define PYBIND11_MODULE(name, variable) \
  static void shim_pybind11_init_##name(::pybind11::module_&); \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() { \
    static PyModuleDef def = { PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr }; \
    PyObject* m = PyModule_Create(&def); if (!m) return nullptr; \
    ::pybind11::module_ mod = ::pybind11::reinterpret_borrow<::pybind11::module_>(::pybind11::handle(m)); \
    try { shim_pybind11_init_##name(mod); } catch (...) { ::pybind11::detail::translate(); return nullptr; } \
    return m; } \
  void shim_pybind11_init_##name(::pybind11::module_& variable)
#endif
