#ifndef VERIF_MPPP_MPPP_HPP
#define VERIF_MPPP_MPPP_HPP

#include <mp++/config.hpp>
#include <mp++/exceptions.hpp>
#include <mp++/integer.hpp>
#include <mp++/rational.hpp>
#include <mp++/type_name.hpp>

#endif
