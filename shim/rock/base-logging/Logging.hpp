#pragma once
namespace sx_log { struct Sink { template <class T> const Sink& operator<<(const T&) const { return *this; } }; }
#define LOG_DEBUG_S sx_log::Sink()
#define LOG_INFO_S sx_log::Sink()
#define LOG_WARN_S sx_log::Sink()
#define LOG_ERROR_S sx_log::Sink()
#define LOG_FATAL_S sx_log::Sink()
#define LOG_DEBUG(...)
#define LOG_INFO(...)
#define LOG_WARN(...)
#define LOG_ERROR(...)
