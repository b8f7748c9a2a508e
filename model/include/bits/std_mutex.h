#pragma once
#include "sx_rt.h"
namespace std { struct defer_lock_t { explicit defer_lock_t()=default; }; struct adopt_lock_t { explicit adopt_lock_t()=default; }; struct try_to_lock_t { explicit try_to_lock_t()=default; }; inline constexpr defer_lock_t defer_lock{}; inline constexpr adopt_lock_t adopt_lock{}; inline constexpr try_to_lock_t try_to_lock{};
class mutex { public: constexpr mutex() noexcept {} mutex(const mutex&)=delete; void lock() { sx_lock(this); } void unlock() { sx_unlock(this); } bool try_lock() { sx_lock(this); return true; } char c_=0; }; class recursive_mutex : public mutex {};
template<class M> class lock_guard { M& m_; public: typedef M mutex_type; explicit lock_guard(M& m) : m_(m) { m.lock(); } lock_guard(M& m, adopt_lock_t) : m_(m) {} lock_guard(const lock_guard&)=delete; ~lock_guard() { m_.unlock(); } };
template<class M> class unique_lock { M* m_=nullptr; bool o_=false; public: unique_lock() {} explicit unique_lock(M& m) : m_(&m), o_(true) { m.lock(); } unique_lock(M& m, defer_lock_t) : m_(&m) {} unique_lock(unique_lock&& o) : m_(o.m_), o_(o.o_) { o.o_=false; } ~unique_lock() { if (o_) m_->unlock(); } void lock() { m_->lock(); o_=true; } void unlock() { m_->unlock(); o_=false; } bool owns_lock() const { return o_; } };
template<class... M> class scoped_lock { void* p_; public: explicit scoped_lock(M&...) {} }; template<class M> class scoped_lock<M> { M& m_; public: explicit scoped_lock(M& m) : m_(m) { m.lock(); } ~scoped_lock() { m_.unlock(); } }; template<class M> scoped_lock(M&) -> scoped_lock<M>;
struct once_flag { bool d=false; }; template<class F, class... A> void call_once(once_flag& o, F&& f, A&&... a) { sx_quiet(1); if (!o.d) { o.d=true; f(static_cast<A&&>(a)...); } sx_quiet(-1); } }
