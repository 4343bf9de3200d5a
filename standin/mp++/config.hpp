// Stand-in for the parts of the mp++ multiprecision library that obake uses
// (mp++ itself is not installed in this sandbox). Backed by GMP.
#ifndef VERIF_MPPP_CONFIG_HPP
#define VERIF_MPPP_CONFIG_HPP

#define MPPP_VERSION_STRING "1.0.3-standin"
#define MPPP_VERSION_MAJOR 1
#define MPPP_VERSION_MINOR 0
#define MPPP_VERSION_PATCH 3

#if defined(__SIZEOF_INT128__)
#define MPPP_HAVE_GCC_INT128
#endif

#define MPPP_WITH_FMT
#define MPPP_WITH_BOOST_S11N

#endif
