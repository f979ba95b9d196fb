// Stand-in for pybind11 in the symbolic build of wicked/api/*.cc: every binding is recorded in a table under
// "Class.method" or "function" with its C++ callable and its default arguments; harnesses call them from there the way the
// Python interpreter would (arguments by value of the declared types, defaults for those left out).
#pragma once
#include <any>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_MODULE(name, m) void pybind11_init_##name(pybind11::module_ &m)
namespace pybind11 {
template <class S> struct Tag { static inline char id = 0; };
struct arg_v { std::string name; const void *tag = nullptr; std::shared_ptr<void> value; };
struct arg { std::string name; explicit arg(const char *n) : name(n) {}
  template <class T> arg_v operator=(T &&v) const { using D = std::decay_t<T>; using E = std::conditional_t<std::is_array_v<std::remove_reference_t<T>>, std::string, D>; return arg_v{name, &Tag<E>::id, std::make_shared<E>(std::forward<T>(v))}; } };
namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }
struct is_operator {}; template <size_t, size_t> struct keep_alive {}; template <class...> struct call_guard {};
struct scoped_ostream_redirect {}; struct scoped_estream_redirect {};
struct object { const void *tag = nullptr; void *p = nullptr; };
using handle = object;
template <class T> T cast(const object &o) { using D = std::decay_t<T>; if (o.tag != &Tag<D>::id) throw std::runtime_error("wrong type"); return *(D *)o.p; }
struct args : std::vector<object> {};
template <class T> object ref(T &x) { return object{&Tag<std::decay_t<T>>::id, (void *)&x}; }
template <class It> struct items : std::vector<typename std::iterator_traits<It>::value_type> {};
// what iterating visits: addresses of the elements
struct iterator { std::vector<const void *> seen; };
template <class It> iterator make_iterator(It a, It b) { iterator r; for (; a != b; ++a) r.seen.push_back(&*a); return r; }
struct Binding { const void *tag; std::shared_ptr<void> fn; std::vector<arg_v> defaults; bool returns_ref = false; };
struct Table { std::map<std::string, std::vector<Binding>> f; std::map<std::string, std::vector<std::pair<std::string, long>>> enums; };
inline Table &table() { static Table t; return t; }
template <class R, class... A> using Fun = std::function<R(std::decay_t<A> &...)>; // arguments as lvalues, converted as needed
template <class X> inline void extra(Binding &, const X &) {}
inline void extra(Binding &b, const arg_v &v) { b.defaults.push_back(v); }
template <class R, class... A, class F, class... X> void put(const std::string &name, F f, const X &...x) {
  using D = std::decay_t<R>; Binding b{&Tag<D(std::decay_t<A>...)>::id, std::make_shared<Fun<D, A...>>([f](std::decay_t<A> &...a) mutable -> D {
    if constexpr (std::is_void_v<D>) f(static_cast<A>(a)...); else return f(static_cast<A>(a)...); }), {}, std::is_lvalue_reference_v<R>};
  (extra(b, x), ...); table().f[name].push_back(b);
}
template <class F> struct sig : sig<decltype(&F::operator())> {};
template <class R, class... A> struct sig<R (*)(A...)> { template <class F, class... X> static void add(const std::string &n, F f, const X &...x) { put<R, A...>(n, f, x...); } };
template <class C, class R, class... A> struct sig<R (C::*)(A...) const> { template <class F, class... X> static void add(const std::string &n, F f, const X &...x) { put<R, A...>(n, f, x...); } };
template <class C, class R, class... A> struct sig<R (C::*)(A...)> { template <class F, class... X> static void add(const std::string &n, F f, const X &...x) { put<R, A...>(n, f, x...); } };
// a member function of class T or of a base of it
template <class T, class C, class R, class... A, class... X> void add_member(const std::string &n, R (C::*f)(A...) const, const X &...x) { put<R, const T &, A...>(n, [f](const T &c, A... a) -> R { return (c.*f)(static_cast<A>(a)...); }, x...); }
template <class T, class C, class R, class... A, class... X> void add_member(const std::string &n, R (C::*f)(A...), const X &...x) { put<R, T &, A...>(n, [f](T &c, A... a) -> R { return (c.*f)(static_cast<A>(a)...); }, x...); }
template <class... A> struct init {};
template <class... A> struct overload_cast_t {
  template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
  template <class C, class R> constexpr auto operator()(R (C::*f)(A...)) const { return f; }
  template <class C, class R> constexpr auto operator()(R (C::*f)(A...) const) const { return f; } };
template <class... A> constexpr overload_cast_t<A...> overload_cast{};
struct module_ {
  struct Doc { template <class T> Doc &operator=(const T &) { return *this; } }; Doc doc() { return Doc(); }
  template <class F, class... X> module_ &def(const char *n, F f, const X &...x) { sig<F>::add(std::string(n), f, x...); return *this; } };
using module = module_;
template <class T, class... H> struct class_ {
  std::string name; class_(module_ &, const char *n) : name(n) {}
  template <class... A, class... X> class_ &def(init<A...>, const X &...x) { put<T, A...>(name, [](A... a) { return T(static_cast<A>(a)...); }, x...); return *this; }
  template <class F, class... X> class_ &def(const char *n, F f, const X &...x) {
    if constexpr (std::is_member_function_pointer_v<F>) add_member<T>(name + "." + n, f, x...); else sig<F>::add(name + "." + n, f, x...);
    return *this; } };
template <class T> struct enum_ { std::string name; enum_(module_ &, const char *n) : name(n) {}
  enum_ &value(const char *n, T v) { table().enums[name].push_back({n, (long)v}); return *this; } };
// --- harness side
inline bool missing = false;
template <class S> struct Caller;
template <class R, class... A> struct Caller<R(A...)> {
  const Binding *b; std::string name;
  template <class T> static T &def(const Binding &b, size_t back) { // back: 1 = last parameter
    if (b.defaults.size() < back) throw std::runtime_error("an argument has no default"); const arg_v &v = b.defaults[b.defaults.size() - back];
    if (v.tag != &Tag<T>::id) throw std::runtime_error("a default has another type"); return *(T *)v.value.get(); }
  template <size_t I, class Tup> static auto &pick(const Binding &b, Tup &t) { using T = std::tuple_element_t<I, std::tuple<A...>>;
    if constexpr (I < std::tuple_size_v<Tup>) return static_cast<T &>(std::get<I>(t)); else return def<T>(b, sizeof...(A) - I); }
  template <class Tup, size_t... I> R go(Tup t, std::index_sequence<I...>) { return (*(Fun<R, A...> *)b->fn.get())(pick<I>(*b, t)...); }
  template <class... G> R operator()(G &...g) { return go(std::tuple<G &...>(g...), std::index_sequence_for<A...>()); }
};
// the overload of that name taking exactly these types
template <class S> bool has(const std::string &n) { auto it = table().f.find(n); if (it == table().f.end()) return false; for (auto &b : it->second) if (b.tag == &Tag<S>::id) return true; return false; }
template <class S> Caller<S> call(const std::string &n) { auto it = table().f.find(n); if (it != table().f.end()) for (auto &b : it->second) if (b.tag == &Tag<S>::id) return Caller<S>{&b, n}; throw std::runtime_error("no binding " + n); }
} // namespace pybind11
