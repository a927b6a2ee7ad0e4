// Analysis stand-in for the loguru submodule (absent from the tree): declarations only.
#pragma once
#include <string>
#include <sstream>
#include <type_traits>
#include <iostream>
namespace loguru {
  typedef int Verbosity;
  enum { Verbosity_OFF=-9, Verbosity_FATAL=-3, Verbosity_ERROR=-2, Verbosity_WARNING=-1, Verbosity_INFO=0, Verbosity_0=0, Verbosity_1=1, Verbosity_9=9, Verbosity_MAX=9 };
  enum FileMode { Truncate, Append };
  struct SignalOptions { bool unsafe_signal_handler, sigabrt, sigbus, sigfpe, sigill, sigint, sigsegv, sigterm; SignalOptions(); };
  struct Options { const char *verbosity_flag; const char *main_thread_name; SignalOptions signals; Options(); };
  extern bool g_preamble_header, g_preamble_date, g_preamble_time, g_preamble_uptime, g_preamble_thread, g_preamble_file, g_preamble_verbose, g_preamble;
  extern Verbosity g_stderr_verbosity;
  void init(int &argc, char *argv[], const Options &options = Options());
  bool add_file(const char *path, FileMode mode, Verbosity verbosity);
  void shutdown();
  struct StreamLogger { StreamLogger(Verbosity) noexcept; ~StreamLogger() noexcept;
    template <class T, typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_enum<T>::value, int>::type = 0> StreamLogger &operator<<(const T &) noexcept;
    template <class T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, int>::type = 0> StreamLogger &operator<<(T) noexcept;
    StreamLogger &operator<<(std::ostream &(*)(std::ostream &)) noexcept; };
  struct AbortLogger { AbortLogger() noexcept; [[noreturn]] ~AbortLogger() noexcept;
    template <class T, typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_enum<T>::value, int>::type = 0> AbortLogger &operator<<(const T &) noexcept;
    template <class T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, int>::type = 0> AbortLogger &operator<<(T) noexcept;
    AbortLogger &operator<<(std::ostream &(*)(std::ostream &)) noexcept; };
}
#define VERIF_LOG_FATAL loguru::AbortLogger()
#define VERIF_LOG_ERROR loguru::StreamLogger(-2)
#define VERIF_LOG_WARNING loguru::StreamLogger(-1)
#define VERIF_LOG_INFO loguru::StreamLogger(0)
#define VERIF_LOG_MAX loguru::StreamLogger(9)
#define VERIF_LOG_0 loguru::StreamLogger(0)
#define VERIF_LOG_1 loguru::StreamLogger(1)
#define VERIF_LOG_2 loguru::StreamLogger(2)
#define VERIF_LOG_9 loguru::StreamLogger(9)
#define LOG_S(v) VERIF_LOG_##v
#define LOG_IF_S(v,c) if (c) VERIF_LOG_##v
#define CHECK_S(c) if (!(c)) loguru::AbortLogger()
