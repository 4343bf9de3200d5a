#ifndef VERIF_MPPP_TYPE_NAME_HPP
#define VERIF_MPPP_TYPE_NAME_HPP

#include <string>
#include <type_traits>
#include <typeinfo>

#include <boost/core/demangle.hpp>

#include <mp++/config.hpp>

namespace mppp
{

// Note: typeid() drops references and top-level cv, add them back.
template <typename T>
inline std::string type_name()
{
    using unref = std::remove_reference_t<T>;
    std::string ret = boost::core::demangle(typeid(std::remove_cv_t<unref>).name());
    if constexpr (std::is_const_v<unref>) {
        ret += " const";
    }
    if constexpr (std::is_volatile_v<unref>) {
        ret += " volatile";
    }
    if constexpr (std::is_lvalue_reference_v<T>) {
        ret += "&";
    } else if constexpr (std::is_rvalue_reference_v<T>) {
        ret += "&&";
    }
    return ret;
}

} // namespace mppp

#endif
