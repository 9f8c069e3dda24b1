// Instantiates every operation of the thread pool; the bodies are analysed, nothing is run.
#include <new>
#include <pluto/thread_pool.hpp>
typedef pluto::thread_pool P;
typedef std::function<void()> F;
extern "C" {
void e_ctor(void* m, std::size_t n) { ::new (m) P(n); }
void e_dtor(P& p) { p.~P(); }
void e_run_async(P& p, const F& f, signed char prio) { p.run_async(f, prio); }
void e_run_async_default(P& p, const F& f) { p.run_async(f); }
void e_run_async_enum(P& p, const F& f, P::priority prio) { p.run_async(f, prio); }
void e_run_sync(P& p, const F& f, signed char prio) { p.run_sync(f, prio); }
void e_run_sync_enum(P& p, const F& f, P::priority prio) { p.run_sync(f, prio); }
void e_run_at(P& p, const P::clock_type::time_point& t, const F& f, signed char prio) { p.run_at(t, f, prio); }
void e_run_at_default(P& p, const P::clock_type::time_point& t, const F& f) { p.run_at(t, f); }
void e_run_at_enum(P& p, const P::clock_type::time_point& t, const F& f, P::priority prio) { p.run_at(t, f, prio); }
void e_run_after(P& p, const P::clock_type::duration& t, const F& f, signed char prio) { p.run_after(t, f, prio); }
void e_run_after_enum(P& p, const P::clock_type::duration& t, const F& f, P::priority prio) { p.run_after(t, f, prio); }
std::size_t e_workers_size(const P& p) { return p.workers_size(); }
std::size_t e_target_workers_size(const P& p) { return p.target_workers_size(); }
std::size_t e_active_workers_size(const P& p) { return p.active_workers_size(); }
std::size_t e_waiting_workers_size(const P& p) { return p.waiting_workers_size(); }
std::size_t e_tasks_size(const P& p) { return p.tasks_size(); }
std::size_t e_active_tasks_size(const P& p) { return p.active_tasks_size(); }
std::size_t e_waiting_tasks_size(const P& p) { return p.waiting_tasks_size(); }
std::size_t e_scheduled_tasks_size(const P& p) { return p.scheduled_tasks_size(); }
P::action e_on_stop(const P& p) { return p.on_stop(); }
void e_set_target(P& p, std::size_t n) { p.target_workers_size(n); }
void e_set_on_stop(P& p, P::action a) { p.on_stop(a); }
void e_wait_waiting(P& p) { p.wait_until_no_tasks_waiting(); }
void e_wait_complete(P& p) { p.wait_until_all_tasks_complete(); }
}
extern "C" {
extern const int v_join_all, v_complete_tasks, v_normal, v_high;
const int v_join_all = static_cast<int>(P::action::join_all);
const int v_complete_tasks = static_cast<int>(P::action::complete_tasks);
const int v_normal = PLUTO_THREAD_POOL_PRIORITY_NORMAL;
const int v_high = PLUTO_THREAD_POOL_PRIORITY_HIGH;
}
