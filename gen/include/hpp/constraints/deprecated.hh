/*
 * This file has been automatically generated by the jrl-cmakemodules.
 * Please see https://github.com/jrl-umi3218/jrl-cmakemodules/blob/master/deprecated.hh.cmake for details.
*/

#ifndef HPP_CONSTRAINTS_DEPRECATED_HH
# define HPP_CONSTRAINTS_DEPRECATED_HH

// Define a suffix which can be used to tag a type, a function or a a
// variable as deprecated (i.e. it will emit a warning when using it).
//
// Tagging a function as deprecated:
//  void foo () HPP_CONSTRAINTS_DEPRECATED;
//
// Tagging a type as deprecated:
//  class Foo {};
//  typedef Foo Bar HPP_CONSTRAINTS_DEPRECATED;
//
// Tagging a variable as deprecated:
//  int a HPP_CONSTRAINTS_DEPRECATED = 0;
//
// The use of a macro is required as this is /not/ a standardized
// feature of C++ language or preprocessor, even if most of the
// compilers support it.
# if defined(__cplusplus) && (__cplusplus >= 201402L)
#  define HPP_CONSTRAINTS_DEPRECATED [[deprecated]]
#  define HPP_CONSTRAINTS_DEPRECATED_MESSAGE(message) [[deprecated(#message)]]
# elif defined(__GNUC__) || defined(__clang__)
#  define HPP_CONSTRAINTS_DEPRECATED __attribute__ ((deprecated))
#  define HPP_CONSTRAINTS_DEPRECATED_MESSAGE(message) __attribute__ (( deprecated(#message) ))
# else
#  if defined(_MSC_VER) && !defined(__INTEL_COMPILER)
#   define HPP_CONSTRAINTS_DEPRECATED __declspec (deprecated)
#   define HPP_CONSTRAINTS_DEPRECATED_MESSAGE(message) __declspec ( deprecated(#message) )
#  else
// If the compiler is not recognized, drop the feature.
#   define HPP_CONSTRAINTS_DEPRECATED /* nothing */
#   define HPP_CONSTRAINTS_DEPRECATED_MESSAGE(message)
#  endif // __MSVC__
# endif // __cplusplus

# if defined(__GNUC__) || defined(__clang__)
#  ifndef HPP_CONSTRAINTS_PRAGMA
#   define HPP_CONSTRAINTS_PRAGMA(X) _Pragma(#X)
#  endif
#  define HPP_CONSTRAINTS_DEPRECATED_HEADER(MSG) HPP_CONSTRAINTS_PRAGMA(GCC warning MSG)
# elif defined(_MSC_VER) && !defined(__INTEL_COMPILER)
#  define HPP_CONSTRAINTS_STRINGIZE_(MSG) #MSG
#  define HPP_CONSTRAINTS_STRINGIZE(MSG) HPP_CONSTRAINTS_STRINGIZE_(MSG)
#  define HPP_CONSTRAINTS_DEPRECATED_HEADER(MSG) \
    __pragma(message(__FILE__ "(" HPP_CONSTRAINTS_STRINGIZE(__LINE__) ") : Warning: " MSG))
# else
#  define HPP_CONSTRAINTS_DEPRECATED_HEADER(MSG)
# endif

#endif //! HPP_CONSTRAINTS_DEPRECATED_HH
