// no-op stand-in for the loguru submodule (absent from the tree)
#pragma once
#include <cstdlib>
#include <cstdio>
#include <string>
#include <sstream>
#include <iostream>
namespace loguru {
  typedef int Verbosity;
  enum { Verbosity_OFF=-9, Verbosity_FATAL=-3, Verbosity_ERROR=-2, Verbosity_WARNING=-1, Verbosity_INFO=0, Verbosity_0=0, Verbosity_1=1, Verbosity_9=9, Verbosity_MAX=9 };
  enum FileMode { Truncate, Append };
  struct SignalOptions { bool unsafe_signal_handler, sigabrt, sigbus, sigfpe, sigill, sigint, sigsegv, sigterm; };
  struct Options { const char *verbosity_flag; const char *main_thread_name; SignalOptions signals; };
  static bool g_preamble_header, g_preamble_date, g_preamble_time, g_preamble_uptime, g_preamble_thread, g_preamble_file, g_preamble_verbose, g_preamble;
  static Verbosity g_stderr_verbosity;
  inline void init(int &, char **, const Options &o = Options()) {}
  inline bool add_file(const char *, FileMode, Verbosity) { return true; }
  inline void shutdown() {}
  struct Quiet { template <class T> Quiet &operator<<(const T &) { return *this; } Quiet &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } };
  struct Abort { template <class T> Abort &operator<<(const T &) { return *this; } Abort &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } ~Abort() { fprintf(stderr, "fatal log message\n"); _Exit(3); } };
}
#define DEMO_LOG_FATAL loguru::Abort()
#define DEMO_LOG_ERROR loguru::Quiet()
#define DEMO_LOG_WARNING loguru::Quiet()
#define DEMO_LOG_INFO loguru::Quiet()
#define DEMO_LOG_MAX loguru::Quiet()
#define DEMO_LOG_0 loguru::Quiet()
#define DEMO_LOG_1 loguru::Quiet()
#define DEMO_LOG_2 loguru::Quiet()
#define DEMO_LOG_9 loguru::Quiet()
#define LOG_S(v) DEMO_LOG_##v
#define LOG_IF_S(v,c) if (c) DEMO_LOG_##v
#define CHECK_S(c) if (!(c)) loguru::Abort()
