// The assertions of HyperHDG without formatting the message of those that hold (costly in the
// monitors of the local solvers, which execute billions of them).
#pragma once
#include_next <HyperHDG/hy_assert.hxx>
#include <cstdlib>
#include <iostream>
#include <sstream>
#ifndef NDEBUG
#undef hy_assert
#define hy_assert(Expr, Msg)                                                 \
  {                                                                          \
    const bool __hy_assertion_value = static_cast<bool>(Expr);               \
    if (!__hy_assertion_value)                                               \
    {                                                                        \
      std::stringstream __hy_assertion_text;                                 \
      __hy_assertion_text << Msg;                                            \
      std::cerr << "Assert failed: " << __hy_assertion_text.str() << std::endl \
                << "Expected: " << #Expr << " (" << __FILE__ << ", line "     \
                << __LINE__ << ")" << std::endl;                              \
      abort();                                                               \
    }                                                                        \
  }                                                                          \
  static_assert(true, "")
#endif
