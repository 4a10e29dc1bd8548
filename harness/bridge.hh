// Moves values between the generated classes and the reference model. Uses only the documented interface.
// Each message class has, in a generated bridge file, an overload  visit(Message&, F)  that applies F to
// (index, member) for its members in the order of its descriptor, and  desc_of(const Message*).
#ifndef BRIDGE_HH
#define BRIDGE_HH
#include "refjson.hh"
#include <vector>
#include <list>
#include <type_traits>

#ifndef PG
#define PG protogen_3_0_0
#endif

namespace br {

using ref::Val; using ref::FieldD; using ref::MsgD;

template<typename T> struct is_field : std::false_type {};
template<typename T> struct is_list : std::false_type {};
template<typename T, typename A> struct is_list<std::vector<T, A>> : std::true_type {};
template<typename T, typename A> struct is_list<std::list<T, A>> : std::true_type {};
template<typename A> struct is_list<std::vector<uint8_t, A>> : std::false_type {};
template<typename T> struct is_bytes : std::is_same<T, std::vector<uint8_t>> {};
template<typename T, typename = void> struct is_msg : std::false_type {};
template<typename T> struct is_msg<T, typename std::enable_if<std::is_class<T>::value && std::is_same<decltype(desc_of((const T*) nullptr)), const ref::MsgD&>::value>::type> : std::true_type {};

template<typename T> void get_number(Val &v, T x)
{
    if (std::is_floating_point<T>::value) v.d = (double) x;
    else if (std::is_same<T, bool>::value || std::is_signed<T>::value) v.i = (int64_t) x;
    else v.u = (uint64_t) x;
}
template<typename T> T make_number(const Val &v)
{
    if (std::is_floating_point<T>::value) return (T) v.d;
    if (std::is_same<T, bool>::value) return (T) (v.i != 0);
    if (std::is_signed<T>::value) return (T) v.i;
    return (T) v.u;
}

template<typename M> typename std::enable_if<is_msg<M>::value>::type get(const M &m, Val &v);
template<typename M> typename std::enable_if<is_msg<M>::value>::type set(M &m, const Val &v);

// elements and bytes
template<typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type get(const T &x, Val &v) { v.present = true; get_number<T>(v, x); }
template<typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type set(T &x, const Val &v) { x = make_number<T>(v); }
inline void get(const std::vector<uint8_t> &x, Val &v) { v.s.assign(x.begin(), x.end()); v.present = true; }
inline void set(std::vector<uint8_t> &x, const Val &v) { x.assign(v.s.begin(), v.s.end()); }
inline void get(const std::string &x, Val &v) { v.s = x; v.present = true; }
inline void set(std::string &x, const Val &v) { x = v.s; }

// field<T> and string_field (recognised by what they offer)
template<typename T> auto get(const T &x, Val &v) -> typename std::enable_if<std::is_arithmetic<typename T::value_type>::value && !is_list<T>::value && !is_bytes<T>::value>::type
{
    v.present = !x.empty();
    if (v.present) get_number<typename T::value_type>(v, (typename T::value_type) x);
}
template<typename T> auto set(T &x, const Val &v) -> typename std::enable_if<std::is_arithmetic<typename T::value_type>::value && !is_list<T>::value && !is_bytes<T>::value>::type
{
    if (v.present) x = make_number<typename T::value_type>(v); else x.clear();
}
template<typename T> auto get(const T &x, Val &v) -> typename std::enable_if<std::is_same<typename T::value_type, std::string>::value && !is_list<T>::value>::type
{
    v.present = !x.empty();
    if (v.present) v.s = *x;
}
template<typename T> auto set(T &x, const Val &v) -> typename std::enable_if<std::is_same<typename T::value_type, std::string>::value && !is_list<T>::value>::type
{
    if (v.present) x = v.s; else x.clear();
}

// lists
template<typename T> typename std::enable_if<is_list<T>::value>::type get(const T &x, Val &v)
{
    v.items.clear();
    for (auto it = x.begin(); it != x.end(); ++it) { v.items.emplace_back(); const typename T::value_type &e = *it; get(e, v.items.back()); }
    v.present = !v.items.empty();
}
template<typename T> typename std::enable_if<is_list<T>::value>::type set(T &x, const Val &v)
{
    x.clear();
    for (auto &i : v.items) { typename T::value_type e{}; set(e, i); x.push_back(e); }
}

// messages
struct Getter { Val &v; template<typename T> void operator()(size_t i, const T &x) { get(x, v.items[i]); } };
struct Setter { const Val &v; template<typename T> void operator()(size_t i, T &x) { set(x, v.items[i]); } };

template<typename M> typename std::enable_if<is_msg<M>::value>::type get(const M &m, Val &v)
{
    v = ref::empty_msg(desc_of((const M*) nullptr));
    visit(const_cast<M&>(m), Getter{v});
}
template<typename M> typename std::enable_if<is_msg<M>::value>::type set(M &m, const Val &v) { visit(m, Setter{v}); }

template<typename M> Val value_of(const M &m) { Val v; get(m, v); ref::fix_msg(desc_of((const M*) nullptr), v); return v; }

} // namespace br
#endif
