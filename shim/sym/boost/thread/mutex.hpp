#pragma once
// Stand-in for the symbolic build: one thread; taking a held lock again is a failure.
extern "C" void sx_assert(int, const char*);
namespace boost { class mutex { bool h_ = false; public: void lock() { sx_assert(!h_, "a lock is not taken twice by its holder"); h_ = true; } void unlock() { h_ = false; } bool try_lock() { if (h_) return false; h_ = true; return true; } };
template <class M> class lock_guard { M& m_; public: explicit lock_guard(M& m) : m_(m) { m_.lock(); } ~lock_guard() { m_.unlock(); } }; }
