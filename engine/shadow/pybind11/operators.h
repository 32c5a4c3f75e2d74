#ifndef SX_PYBIND11_OPERATORS
#define SX_PYBIND11_OPERATORS
#include <pybind11/pybind11.h>
namespace pybind11 {
struct SelfT {};
namespace sx {
template <class A, class T> using Side = std::conditional_t<std::is_same_v<A, SelfT>, T, A>;
} // namespace sx
static const SelfT self = SelfT();
// py::self op py::self, py::self op value, value op py::self
#define SX_OP2(OP, ID, NAME, RNAME) \
    namespace sx { template <class L, class R> struct op_##ID { \
        static constexpr bool isOp = true; \
        template <class T> static const char *name() { return std::is_same_v<L, SelfT> ? "__" NAME "__" : "__" RNAME "__"; } \
        template <class T> static Func func() { \
            typedef Side<L, T> A; typedef Side<R, T> B; \
            if constexpr (std::is_same_v<L, SelfT>) return ofSig([](const A &a, const B &b) { return a OP b; }, (decltype(std::declval<const A &>() OP std::declval<const B &>())(*)(const A &, const B &)) nullptr); \
            else return ofSig([](const B &b, const A &a) { return a OP b; }, (decltype(std::declval<const A &>() OP std::declval<const B &>())(*)(const B &, const A &)) nullptr); \
        } \
    }; } \
    inline sx::op_##ID<SelfT, SelfT> operator OP(const SelfT &, const SelfT &) { return {}; } \
    template <class T, class = std::enable_if_t<!std::is_same_v<T, SelfT>>> sx::op_##ID<SelfT, T> operator OP(const SelfT &, const T &) { return {}; } \
    template <class T, class = std::enable_if_t<!std::is_same_v<T, SelfT>>> sx::op_##ID<T, SelfT> operator OP(const T &, const SelfT &) { return {}; }
SX_OP2(+, add, "add", "radd")
SX_OP2(-, sub, "sub", "rsub")
SX_OP2(*, mul, "mul", "rmul")
SX_OP2(/, truediv, "truediv", "rtruediv")
SX_OP2(%, mod, "mod", "rmod")
SX_OP2(==, eq, "eq", "eq")
SX_OP2(!=, ne, "ne", "ne")
SX_OP2(<, lt, "lt", "gt")
SX_OP2(>, gt, "gt", "lt")
SX_OP2(<=, le, "le", "ge")
SX_OP2(>=, ge, "ge", "le")
#undef SX_OP2
namespace sx {
struct op_neg {
    static constexpr bool isOp = true;
    template <class T> static const char *name() { return "__neg__"; }
    template <class T> static Func func() { return ofSig([](const T &a) { return -a; }, (decltype(-std::declval<const T &>())(*)(const T &)) nullptr); }
};
struct op_hash {
    static constexpr bool isOp = true;
    template <class T> static const char *name() { return "__hash__"; }
    template <class T> static Func func() { return ofSig([](const T &a) { return std::hash<T>()(a); }, (size_t(*)(const T &)) nullptr); }
};
} // namespace sx
inline sx::op_neg operator-(const SelfT &) { return {}; }
inline sx::op_hash hash(const SelfT &) { return {}; }
} // namespace pybind11
#endif
