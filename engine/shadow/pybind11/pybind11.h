// Stands in for pybind11 in the encoded build: a registry of what bindings.cpp declares, callable with the values Python would pass,
// converted by pybind11's rules. The harness looks names up as Python would.
#ifndef SX_PYBIND11
#define SX_PYBIND11
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace pybind11 {
namespace sx {
enum Kind { NONE, BOOL, INT, FLOAT, STR, LIST, OBJECT };
template <class T> struct Tag { static char t; };
template <class T> char Tag<T>::t;
struct Val {
    Kind kind = NONE;
    bool b = false;
    int64_t i = 0;
    std::shared_ptr<double> d; // apart, so that it is only ever copied as a double
    std::shared_ptr<std::string> s; // likewise
    std::vector<Val> l;
    std::shared_ptr<void> p;
    const void *tag = nullptr;
};
inline Val none() { return {}; }
inline Val boolean(bool b) { Val v; v.kind = BOOL; v.b = b; return v; }
inline Val integer(int64_t i) { Val v; v.kind = INT; v.i = i; return v; }
inline Val number(double d) { Val v; v.kind = FLOAT; v.d = std::make_shared<double>(d); return v; }
inline Val text(std::string s) { Val v; v.kind = STR; v.s = std::make_shared<std::string>(std::move(s)); return v; }
inline Val list(std::vector<Val> l) { Val v; v.kind = LIST; v.l = std::move(l); return v; }
template <class T> Val object(std::shared_ptr<T> p) { Val v; v.kind = OBJECT; v.p = std::const_pointer_cast<std::remove_const_t<T>>(p); v.tag = &Tag<std::remove_const_t<T>>::t; return v; }
template <class T> T &the(const Val &v) { return *(T *)v.p.get(); }

// Python -> C++
template <class T, class = void> struct Cast {
    T *p = nullptr;
    bool load(const Val &v, bool) { if (v.kind != OBJECT || v.tag != &Tag<T>::t) return false; p = (T *)v.p.get(); return true; }
    T &get() { return *p; }
};
template <> struct Cast<bool> {
    bool v = false;
    bool load(const Val &x, bool convert) {
        if (x.kind == BOOL) { v = x.b; return true; }
        if (!convert) return false;
        if (x.kind == NONE) { v = false; return true; }
        if (x.kind == INT) { v = x.i != 0; return true; }
        if (x.kind == FLOAT) { v = *x.d != 0; return true; }
        return false;
    }
    bool &get() { return v; }
};
template <class T> struct Cast<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    T v = 0;
    bool load(const Val &x, bool) {
        int64_t i;
        if (x.kind == INT) i = x.i; else if (x.kind == BOOL) i = x.b; else return false;
        if (std::is_unsigned_v<T> ? i < 0 || (sizeof(T) < 8 && i > (int64_t)(sizeof(T) < 8 ? (uint64_t)(T)~(T)0 : 0)) : sizeof(T) < 8 && (i < -((int64_t)1 << (sizeof(T) < 8 ? 8 * sizeof(T) - 1 : 0)) || i >= ((int64_t)1 << (sizeof(T) < 8 ? 8 * sizeof(T) - 1 : 0)))) return false;
        v = (T)i;
        return true;
    }
    T &get() { return v; }
};
template <class T> struct Cast<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    T v = 0;
    bool load(const Val &x, bool convert) {
        if (x.kind == FLOAT) { v = (T)*x.d; return true; }
        if (!convert) return false;
        if (x.kind == INT) { v = (T)x.i; return true; }
        if (x.kind == BOOL) { v = x.b; return true; }
        return false;
    }
    T &get() { return v; }
};
template <> struct Cast<std::string> {
    std::string v;
    bool load(const Val &x, bool) { if (x.kind != STR) return false; v = *x.s; return true; }
    std::string &get() { return v; }
};
template <class T> struct Cast<std::vector<T>> {
    std::vector<T> v;
    bool load(const Val &x, bool convert) {
        if (x.kind != LIST) return false;
        for (auto &e : x.l) { Cast<T> c; if (!c.load(e, convert)) return false; v.push_back(c.get()); }
        return true;
    }
    std::vector<T> &get() { return v; }
};
template <class A, class B> struct Cast<std::pair<A, B>> {
    std::optional<std::pair<A, B>> v;
    bool load(const Val &x, bool convert) {
        if (x.kind != LIST || x.l.size() != 2) return false;
        Cast<A> a; Cast<B> b;
        if (!a.load(x.l[0], convert) || !b.load(x.l[1], convert)) return false;
        v.emplace(a.get(), b.get());
        return true;
    }
    std::pair<A, B> &get() { return *v; }
};
template <class T> struct Cast<std::optional<T>> {
    std::optional<T> v;
    bool load(const Val &x, bool convert) {
        if (x.kind == NONE) return true;
        Cast<T> c;
        if (!c.load(x, convert)) return false;
        v = c.get();
        return true;
    }
    std::optional<T> &get() { return v; }
};
template <class T> struct Cast<std::shared_ptr<T>> {
    std::shared_ptr<T> v;
    bool load(const Val &x, bool) {
        if (x.kind == NONE) { v = nullptr; return true; }
        if (x.kind != OBJECT || x.tag != &Tag<std::remove_const_t<T>>::t) return false;
        v = std::shared_ptr<T>(x.p, (T *)x.p.get());
        return true;
    }
    std::shared_ptr<T> &get() { return v; }
};
// C++ -> Python
inline Val out(bool b) { return boolean(b); }
template <class T, class = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> Val out(T i) { return integer((int64_t)i); }
inline Val out(double d) { return number(d); }
inline Val out(float d) { return number(d); }
inline Val out(const std::string &s) { return text(s); }
inline Val out(const char *s) { return text(s); }
template <class T> Val out(const std::vector<T> &v);
template <class A, class B> Val out(const std::pair<A, B> &v);
template <class T> Val out(const std::optional<T> &v);
template <class T> Val out(const std::shared_ptr<T> &v) { return v ? object(v) : none(); }
template <class T, class = std::enable_if_t<std::is_class_v<T>>, class = void> Val out(const T &v) { return object(std::make_shared<T>(v)); }
template <class T> Val out(const std::vector<T> &v) { std::vector<Val> l; for (const auto &x : v) l.push_back(out(x)); return list(l); }
template <class A, class B> Val out(const std::pair<A, B> &v) { return list({out(v.first), out(v.second)}); }
template <class T> Val out(const std::optional<T> &v) { return v ? out(*v) : none(); }

struct Param { std::string name; bool given = false; Val value; };
struct Func {
    size_t arity = 0;
    bool method = false;
    std::vector<Param> params; // the named ones, the last of the arguments
    std::function<bool(const std::vector<Val> &, bool, Val &)> call;
};
typedef std::unordered_map<std::string, std::vector<Func>> Names;
struct Class { Names methods, getters, setters; };
struct Registry { Names functions; std::unordered_map<std::string, Class> classes; };
inline Registry &registry() { static Registry r; return r; }

template <class A> A &&pass(Cast<std::remove_cv_t<std::remove_reference_t<A>>> &c) { return static_cast<A &&>(c.get()); }
template <class R, class... A, class F, size_t... I> Func make(F f, std::index_sequence<I...>) {
    Func r;
    r.arity = sizeof...(A);
    r.call = [f](const std::vector<Val> &v, bool convert, Val &res) -> bool {
        if (v.size() != sizeof...(A)) return false;
        std::tuple<Cast<std::remove_cv_t<std::remove_reference_t<A>>>...> c;
        if (!(true && ... && std::get<I>(c).load(v[I], convert))) return false;
        if constexpr (std::is_void_v<R>) { const_cast<F &>(f)(pass<A>(std::get<I>(c))...); res = none(); }
        else res = out(const_cast<F &>(f)(pass<A>(std::get<I>(c))...));
        return true;
    };
    return r;
}
template <class A> struct Arg { typedef A type; };
template <class F, class R, class... A> Func ofSig(F f, R (*)(A...)) { return make<R, A...>(f, std::index_sequence_for<A...>{}); }
template <class C, class R, class... A> auto sigOf(R (C::*)(A...)) -> R (*)(A...);
template <class C, class R, class... A> auto sigOf(R (C::*)(A...) const) -> R (*)(A...);
template <class C, class R, class... A> auto sigOf(R (C::*)(A...) noexcept) -> R (*)(A...);
template <class C, class R, class... A> auto sigOf(R (C::*)(A...) const noexcept) -> R (*)(A...);
template <class T, class R, class... A> Func wrap(R (*f)(A...)) { return ofSig(f, f); }
template <class T, class C, class R, class... A> Func wrap(R (C::*f)(A...)) { return ofSig([f](T &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }, (R(*)(T &, A...)) nullptr); }
template <class T, class C, class R, class... A> Func wrap(R (C::*f)(A...) const) { return ofSig([f](const T &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }, (R(*)(const T &, A...)) nullptr); }
template <class T, class F, class = std::enable_if_t<std::is_class_v<std::remove_reference_t<F>>>> Func wrap(F f) { return ofSig(f, (decltype(sigOf(&F::operator()))) nullptr); }
} // namespace sx

struct arg_v;
struct arg {
    std::string name;
    explicit arg(const char *n) : name(n) {}
    template <class V> arg_v operator=(V &&v) const;
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
};
struct arg_v : arg {
    sx::Val value;
    arg_v(const arg &a, sx::Val v) : arg(a), value(std::move(v)) {}
};
template <class V> arg_v arg::operator=(V &&v) const { return arg_v(*this, sx::out(v)); }
inline namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }
struct none { none() {} };
namespace sx { inline Val out(const pybind11::none &) { return Val{}; } }
template <class... G> struct call_guard {};
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
struct is_operator {}; struct kw_only {}; struct pos_only {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} };
struct doc { const char *v; doc(const char *s) : v(s) {} };
template <size_t A, size_t B> struct keep_alive {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace sx {
inline void extra(Func &f, const arg_v &a) { f.params.push_back({a.name, true, a.value}); }
inline void extra(Func &f, const arg &a) { f.params.push_back({a.name, false, {}}); }
template <class X> void extra(Func &, const X &) {}
template <class... X> Func with(Func f, const X &... x) { (extra(f, x), ...); return f; }
template <class... A> struct Init {};
template <class F> struct Factory { F f; };
} // namespace sx
template <class... A> sx::Init<A...> init() { return {}; }
template <class F> sx::Factory<F> init(F f) { return {f}; }

struct module_ {
    std::string _doc;
    struct Doc { template <class T> Doc &operator=(const T &) { return *this; } };
    Doc doc() { return {}; }
    Doc attr(const char *) { return {}; }
    template <class F, class... X> module_ &def(const char *name, F f, const X &... x) {
        sx::registry().functions[name].push_back(sx::with(sx::wrap<int>(f), x...));
        return *this;
    }
};
typedef module_ module;

namespace sx {
template <class... O> struct HolderOf { template <class T> static std::shared_ptr<T> hold(T *t) { return std::shared_ptr<T>(t); } };
struct Self {};
template <class T> struct Is { typedef T type; };
struct Op { }; // see operators.h
} // namespace sx

template <class T, class... Options> class class_ {
    std::string _name;
    sx::Class &cls() { return sx::registry().classes[_name]; }
  public:
    template <class... X> class_(module_ &, const char *name, const X &...) : _name(name) { cls(); }
    template <class F, class... X> class_ &def(const char *name, F f, const X &... x) {
        auto w = sx::wrap<T>(f);
        w.method = true;
        cls().methods[name].push_back(sx::with(std::move(w), x...));
        return *this;
    }
    template <class... A, class... X> class_ &def(const sx::Init<A...> &, const X &... x) {
        cls().methods["__init__"].push_back(sx::with(sx::ofSig([](A... a) { return std::make_shared<T>(std::forward<A>(a)...); }, (std::shared_ptr<T>(*)(A...)) nullptr), x...));
        return *this;
    }
    template <class F, class... X> class_ &def(const sx::Factory<F> &i, const X &... x) {
        cls().methods["__init__"].push_back(sx::with(sx::wrap<T>(i.f), x...));
        return *this;
    }
    template <class O, class... X, class = decltype(O::isOp)> class_ &def(const O &, const X &... x) {
        auto w = O::template func<T>();
        w.method = true;
        cls().methods[O::template name<T>()].push_back(std::move(w));
        return *this;
    }
    template <class F, class... X> class_ &def_static(const char *name, F f, const X &... x) {
        cls().methods[name].push_back(sx::with(sx::wrap<T>(f), x...));
        return *this;
    }
    template <class D, class C, class... X> class_ &def_readonly(const char *name, D C::*m, const X &...) {
        cls().getters[name].push_back(sx::ofSig([m](const T &s) -> const D & { return s.*m; }, (const D &(*)(const T &)) nullptr));
        return *this;
    }
    template <class D, class C, class... X> class_ &def_readwrite(const char *name, D C::*m, const X &... x) {
        def_readonly(name, m);
        cls().setters[name].push_back(sx::ofSig([m](T &s, const D &v) { s.*m = v; }, (void (*)(T &, const D &)) nullptr));
        return *this;
    }
    template <class F, class... X> class_ &def_property_readonly(const char *name, F f, const X &...) {
        cls().getters[name].push_back(sx::wrap<T>(f));
        return *this;
    }
    template <class F, class G, class... X> class_ &def_property(const char *name, F f, G g, const X &...) {
        cls().getters[name].push_back(sx::wrap<T>(f));
        cls().setters[name].push_back(sx::wrap<T>(g));
        return *this;
    }
};
} // namespace pybind11
#define PYBIND11_MODULE(name, variable, ...) extern "C" void sx_bind_##name(pybind11::module_ &variable)
#endif
