// Uses the public interface of every header, so that templates are instantiated in every configuration.
#include <chrono>
#ifdef WITH_WRITERS
#include <ostream>
namespace pluto { struct log_entry; }
inline void my_log_writer(std::ostream&, const pluto::log_entry&) {}
inline void my_header_writer(std::ostream&) {}
#endif
#include <pluto.hpp>
#include <list>
#include <map>
#include <string>
#include <vector>
#include <pluto/compare.hpp>
#include <pluto/container.hpp>
#include <pluto/filesystem.hpp>
#include <pluto/iterator.hpp>
#include <pluto/locale.hpp>
#include <pluto/logger.hpp>
#include <pluto/lru_cache.hpp>
#include <pluto/platform.hpp>
#include <pluto/range.hpp>
#include <pluto/safe_lru_cache.hpp>
#include <pluto/scope.hpp>
#include <pluto/stopwatch.hpp>
#include <pluto/string.hpp>
#include <pluto/thread_pool.hpp>
#include <pluto/unicode.hpp>
#include <pluto/value.hpp>
#include <pluto/version.hpp>
#ifndef TU
#define TU one
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define V(e) static_cast<void>(e)
namespace {
template<class I, class J> void iterators(I b, I e, J c, J d)
{
    typedef typename std::iterator_traits<I>::value_type T;
    V(pluto::equals_same_size(b, e, c)); V(pluto::equals(b, e, c, d)); V(pluto::starts_with(b, e, c, d)); V(pluto::ends_with(b, e, c, d));
    V(pluto::find(b, e, T{})); V(pluto::rfind(b, e, T{})); V(pluto::find(b, e, c, d)); V(pluto::contains(b, e, T{})); V(pluto::contains(b, e, c, d));
    auto p = [](const T& v) { return v == T{}; };
    V(pluto::find_if(b, e, p)); V(pluto::rfind_if(b, e, p)); V(pluto::find_if_not(b, e, p)); V(pluto::rfind_if_not(b, e, p));
#if __cplusplus >= 201703L
    V(pluto::rfind(b, e, c, d));
#endif
}
template<class C> void containers(C& a, const C& b)
{
    typedef typename C::value_type T;
    V(pluto::equals(a, b)); V(pluto::starts_with(a, b)); V(pluto::ends_with(a, b)); V(pluto::find_elem(a, T{})); V(pluto::rfind_elem(a, T{}));
    V(pluto::find_sequence(a, b)); V(pluto::contains_elem(a, T{})); V(pluto::contains_sequence(a, b));
#if __cplusplus >= 201703L
    V(pluto::rfind_sequence(a, b));
#endif
    auto p = [](const T& v) { return v == T{}; };
    V(pluto::find_if(b, p)); V(pluto::rfind_if(b, p)); V(pluto::find_if_not(b, p)); V(pluto::rfind_if_not(b, p));
    V(pluto::reverse(a)); V(pluto::filter(a, p)); V(pluto::for_each(a, [](T&) {})); V(pluto::slice(a, 1, -1)); V(pluto::slice(a, 2)); V(pluto::len(a));
    V(pluto::any(a)); V(pluto::all(a)); V(pluto::any(a, p)); V(pluto::all(a, p)); V(pluto::count(a, T{})); V(pluto::count_if(a, p)); V(pluto::sum(a));
    V((pluto::min)(a)); V((pluto::max)(a)); V((pluto::min)(a, pluto::is_greater{})); V((pluto::max)(a, pluto::is_less{}));
    C d{}; V(pluto::map(a, d, [](const T& v) { return v; })); V(pluto::map<C>(a, [](const T& v) { return v; })); V(pluto::map(a, [](const T& v) { return v; }));
}
template<class S> void strings(S s, const S& t)
{
    typedef typename S::value_type C;
    const auto& l = pluto::default_locale();
    pluto::lower(s); pluto::upper(s); pluto::lower(&s[0], s.size(), l); pluto::upper(&s[0], s.size(), l); V(pluto::lower(C{})); V(pluto::upper(C{}));
    V(pluto::is_lower(s)); V(pluto::is_upper(s)); V(pluto::is_lower(C{})); V(pluto::is_upper(C{})); V(pluto::is_lower(s.data(), s.size())); V(pluto::is_upper(s.data(), s.size()));
    V(pluto::equals(s, t)); V(pluto::iequals(s, t)); V(pluto::starts_with(s, t)); V(pluto::istarts_with(s, t)); V(pluto::ends_with(s, t)); V(pluto::iends_with(s, t));
    V(pluto::find(s, t)); V(pluto::ifind(s, t)); V(pluto::contains(s, t)); V(pluto::icontains(s, t));
    const C* p = s.data(); std::size_t n = s.size();
    V(pluto::equals(p, n, p, n)); V(pluto::iequals(p, n, p, n)); V(pluto::starts_with(p, n, p, n)); V(pluto::istarts_with(p, n, p, n));
    V(pluto::ends_with(p, n, p, n)); V(pluto::iends_with(p, n, p, n)); V(pluto::find(p, n, p, n)); V(pluto::ifind(p, n, p, n)); V(pluto::contains(p, n, p, n)); V(pluto::icontains(p, n, p, n));
#if __cplusplus >= 201703L
    V(pluto::rfind(s, t)); V(pluto::irfind(s, t)); V(pluto::rfind(p, n, p, n)); V(pluto::irfind(p, n, p, n));
#endif
    V(pluto::split(s)); V(pluto::split(s, t)); V(pluto::split_any_of(s, t));
    std::vector<S> v{ s, t };
    V(pluto::join(v, t)); V(pluto::join(v.begin(), v.end(), t)); V(pluto::map_join(v, t, [](const S& x) { return x; })); V(pluto::map_join(v.begin(), v.end(), t, [](const S& x) { return x; }));
    pluto::replace(s, t, t); pluto::replace_any_of(s, t, t); pluto::lstrip(s); pluto::rstrip(s); pluto::strip(s);
    V(pluto::slice(s, 1, 2));
}
template<class C> void comparators()
{
    V(pluto::is_iequal<C>{}(C{}, C{})); V(pluto::is_not_iequal<C>{}(C{}, C{})); V(pluto::is_iless<C>{}(C{}, C{})); V(pluto::is_igreater<C>{}(C{}, C{}));
    V(pluto::is_iless_equal<C>{}(C{}, C{})); V(pluto::is_igreater_equal<C>{}(C{}, C{}));
}
}
int CAT(use_, TU)()
{
    std::vector<int> v{ 1, 2 }; std::list<int> l{ 1, 2 }; const int a[2] = { 1, 2 };
    iterators(v.begin(), v.end(), v.cbegin(), v.cend()); iterators(l.begin(), l.end(), v.begin(), v.end()); iterators(a, a + 2, a, a + 1);
    containers(v, v); containers(l, l); V(pluto::sort(v)); pluto::sort(v.begin(), v.end()); pluto::reverse(v.begin(), v.end());
    strings(std::string{}, std::string{}); strings(std::wstring{}, std::wstring{});
    comparators<char>(); comparators<wchar_t>();
    V(pluto::is_true{}(1)); V(pluto::is_false{}(1)); V(pluto::c_locale()); V(pluto::system_locale());
    V(pluto::str(1)); V(pluto::wstr(1)); V(pluto::str_to<int>("1")); V(pluto::wstr_to<int>(L"1")); V(pluto::str("a", 1)); V(pluto::wstr(L"a", 1)); V(pluto::u16str(u"a", 1)); V(pluto::u32str(U"a", 1));
    V(pluto::bin(1)); V(pluto::oct(1ULL)); V(pluto::hex(static_cast<signed char>(1)));
    V(pluto::abs(1)); V(pluto::abs(1.0)); V(pluto::copy(v)); V((pluto::min)(1, 2)); V((pluto::max)(1, 2)); V(pluto::pow(2, 3)); V(pluto::pow(2.0f, 3.0f)); V(pluto::round(1.5));
    V(pluto::range<int>(1, 2) < pluto::range<int>(2, 3)); V(pluto::range<int>(1, 2).size());
    { pluto::on_scope_exit e{}; e.add([] {}); pluto::on_scope_exit f{ [] {} }; }
    { pluto::on_scope_success e{}; e.add([] {}); pluto::on_scope_success f{ [] {} }; }
    { pluto::on_scope_fail e{}; e.add([] {}); pluto::on_scope_fail f{ [] {} }; }
    { pluto::stopwatch w{ true }; w.stop(); w.start(); w.reset(); w.restart(); V(w.in_hours()); V(w.hours_part()); V(w.nanoseconds_part()); V(w.stop_and_time()); V(w.is_running()); }
    { pluto::lru_cache<int, std::string> c(2); std::string o; c.insert(1, "a"); c.insert_or_assign(1, "b"); V(c.contains(1)); V(c.size()); V(c.capacity()); V(c.empty()); c.get(1, o); c.remove(1); c.capacity(3); c.clear(); auto d = c; d = c; d = std::move(c); }
    { pluto::safe_lru_cache<int, std::string> c(2); std::string o; c.insert(1, "a"); c.insert_or_assign(1, "b"); V(c.contains(1)); V(c.size()); V(c.capacity()); V(c.empty()); c.get(1, o); c.remove(1); c.capacity(3); c.clear(); }
    {
        pluto::thread_pool p(1); typedef pluto::thread_pool::clock_type clock;
        p.run_async([] {}); p.run_async([] {}, pluto::thread_pool::priority::high); p.run_sync([] {}); p.run_sync([] {}, pluto::thread_pool::priority::low);
        p.run_at(clock::now(), [] {}); p.run_at(clock::now(), [] {}, pluto::thread_pool::priority::lowest); p.run_after(std::chrono::milliseconds{ 1 }, [] {}); p.run_after(std::chrono::milliseconds{ 1 }, [] {}, pluto::thread_pool::priority::highest);
        V(p.workers_size()); V(p.target_workers_size()); p.target_workers_size(2); p.on_stop(pluto::thread_pool::action::complete_tasks); V(p.on_stop()); V(p.active_workers_size()); V(p.waiting_workers_size());
        V(p.tasks_size()); V(p.active_tasks_size()); V(p.waiting_tasks_size()); V(p.scheduled_tasks_size());
        p.wait_until_no_tasks_waiting(); p.wait_until_all_tasks_complete();
    }
    V(pluto::thread_id()); V(pluto::process_id()); V(pluto::file_name("a/b")); V(pluto::local_time(0)); V(pluto::gm_time(0));
    V(pluto::filesystem::path{ "a" });
    {
        std::string s8; std::u16string s16; std::u32string s32; std::wstring sw;
        pluto::utf8_to_utf16(s8.data(), s8.size(), s16); pluto::utf8_to_utf16(s8, s16); pluto::utf16_to_utf8(s16.data(), s16.size(), s8); pluto::utf16_to_utf8(s16, s8);
        pluto::utf8_to_utf32(s8.data(), s8.size(), s32); pluto::utf8_to_utf32(s8, s32); pluto::utf32_to_utf8(s32.data(), s32.size(), s8); pluto::utf32_to_utf8(s32, s8);
        pluto::utf16_to_utf32(s16.data(), s16.size(), s32); pluto::utf16_to_utf32(s16, s32); pluto::utf32_to_utf16(s32.data(), s32.size(), s16); pluto::utf32_to_utf16(s32, s16);
        V(pluto::str(sw)); V(pluto::str(s16)); V(pluto::str(s32)); V(pluto::wstr(s8)); V(pluto::wstr(s16)); V(pluto::wstr(s32));
        V(pluto::u16str(s8)); V(pluto::u16str(sw)); V(pluto::u16str(s32)); V(pluto::u32str(s8)); V(pluto::u32str(sw)); V(pluto::u32str(s16));
        V(pluto::str(sw.data(), sw.size())); V(pluto::str(s16.data(), s16.size())); V(pluto::str(s32.data(), s32.size()));
        V(pluto::wstr(s8.data(), s8.size())); V(pluto::wstr(s16.data(), s16.size())); V(pluto::wstr(s32.data(), s32.size()));
#if defined(__cpp_char8_t)
        std::u8string t8;
        V(pluto::str(t8)); V(pluto::wstr(t8)); V(pluto::u16str(t8)); V(pluto::u32str(t8)); V(pluto::u8str(s8)); V(pluto::u8str(sw)); V(pluto::u8str(s16)); V(pluto::u8str(s32));
#endif
    }
    {
        auto& g = pluto::logger::instance(); const auto& cg = g;
        V(cg.is_logging()); V(cg.level()); V(cg.create_dirs()); V(cg.write_header()); V(cg.buffer_max_size()); V(cg.buffer_flush_size()); V(cg.file_rotation_size());
        V(cg.file_rotation_limit()); V(cg.num_discarded_logs()); V(cg.log_writer()); V(cg.header_writer()); V(cg.should_log(pluto::log_level::info));
        g.level(pluto::log_level::warn).create_dirs(true).write_header(true).buffer_max_size(0).buffer_flush_size(1).file_rotation_size(0).file_rotation_limit(0).reset_num_discarded_logs()
            .log_writer(pluto::logger::default_log_writer).header_writer(pluto::logger::default_header_writer);
        pluto::logger other{};
        PLUTO_LOG_WRITE_WITH(other, "f", info, "m"); PLUTO_LOG_WRITEF_WITH(other, "f", info, "m %s", "x"); PLUTO_LOG_STREAM_WITH(other, "f", info, "m" << 1);
#if PLUTO_UTILS_HAS_FORMAT
        PLUTO_LOG_FORMAT_WITH(other, "f", info, "{}", 1);
#endif
        other.write("f", pluto::log_level::info, { "a", 1, "b" }, "m"); other.writef("f", pluto::log_level::info, { "a", 1, "b" }, "%d", 1);
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
        V(other.stream("f", pluto::log_level::info));
#if PLUTO_UTILS_HAS_FORMAT
        other.format("f", pluto::log_level::info, "{}", 1);
#endif
        other.write("f", pluto::log_level::info, "m"); other.writef("f", pluto::log_level::info, "%d", 1);
#endif
    }
    PLUTO_LOG_WRITE("f", info, "m"); PLUTO_LOG_WRITEF("f", info, "%d", 1); PLUTO_LOG_STREAM("f", info, 1 << "m");
#if PLUTO_UTILS_HAS_FORMAT
    PLUTO_LOG_FORMAT("f", info, "{}", 1);
#endif
    V(pluto::log_level_to_c_str(pluto::log_level::info)); V(pluto::log_level_to_title(pluto::log_level::info)); V(pluto::log_level_to_shortened(pluto::log_level::info)); V(pluto::log_level_to_char(pluto::log_level::info));
    return 0;
}
