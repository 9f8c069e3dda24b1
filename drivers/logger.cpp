// Instantiates every operation of the logger; the bodies are analysed, nothing is run.
#include <new>
#include <pluto/logger.hpp>
typedef pluto::logger L;
typedef std::function<void(std::ostream&, const pluto::log_entry&)> LW;
typedef std::function<void(std::ostream&)> HW;
using pluto::log_level; using pluto::source_info;
extern "C" {
int mark(int);      // a message argument with a visible evaluation
void e_ctor(void* m) { ::new (m) L(); }
void e_dtor(L& l) { l.~L(); }
bool g_is_logging(const L& l) { return l.is_logging(); }
log_level g_level(const L& l) { return l.level(); }
bool g_create_dirs(const L& l) { return l.create_dirs(); }
bool g_write_header(const L& l) { return l.write_header(); }
std::size_t g_buffer_max_size(const L& l) { return l.buffer_max_size(); }
std::size_t g_buffer_flush_size(const L& l) { return l.buffer_flush_size(); }
std::size_t g_file_rotation_size(const L& l) { return l.file_rotation_size(); }
std::size_t g_file_rotation_limit(const L& l) { return l.file_rotation_limit(); }
std::size_t g_num_discarded_logs(const L& l) { return l.num_discarded_logs(); }
void g_log_writer(void* m, const L& l) { ::new (m) LW(l.log_writer()); }
void g_header_writer(void* m, const L& l) { ::new (m) HW(l.header_writer()); }
void s_level(L& l, log_level v) { l.level(v); }
void s_create_dirs(L& l, bool v) { l.create_dirs(v); }
void s_write_header(L& l, bool v) { l.write_header(v); }
void s_buffer_max_size(L& l, std::size_t v) { l.buffer_max_size(v); }
void s_buffer_flush_size(L& l, std::size_t v) { l.buffer_flush_size(v); }
void s_file_rotation_size(L& l, std::size_t v) { l.file_rotation_size(v); }
void s_file_rotation_limit(L& l, std::size_t v) { l.file_rotation_limit(v); }
void s_reset(L& l) { l.reset_num_discarded_logs(); }
void s_log_writer(L& l, const LW& w) { l.log_writer(w); }
void s_header_writer(L& l, const HW& w) { l.header_writer(w); }
bool e_should_log(const L& l, log_level v) { return l.should_log(v); }
void e_write(L& l, const std::string& f, log_level v, const char* file, int line, const char* fn, const std::string& msg) { l.write(f, v, source_info(file, line, fn), msg); }
void e_writef(L& l, const std::string& f, log_level v, const char* file, int line, const char* fn, const char* scheme, int a) { l.writef(f, v, source_info(file, line, fn), scheme, a); }
void e_stream(L& l, const std::string& f, log_level v, const char* file, int line, const char* fn, int a)
{
    auto s = l.stream(f, v, source_info(file, line, fn));
    s << a;
}
void e_stream_end(L& l, const std::string& f, log_level v, const char* file, int line, const char* fn, int a)
{
    auto s = l.stream(f, v, source_info(file, line, fn));
    s << a;
    s.end();
}
#if PLUTO_UTILS_HAS_FORMAT
void e_format(L& l, const std::string& f, log_level v, const char* file, int line, const char* fn, int a) { l.format(f, v, source_info(file, line, fn), "{}", a); }
void m_format(L& l, const std::string& f) { PLUTO_LOG_FORMAT_WITH(l, f, info, "{}", mark(1)); }
#endif
void m_write(L& l, const std::string& f) { PLUTO_LOG_WRITE_WITH(l, f, info, std::string(mark(1) ? "a" : "b")); }
void m_writef(L& l, const std::string& f) { PLUTO_LOG_WRITEF_WITH(l, f, info, "%d", mark(1)); }
void m_stream(L& l, const std::string& f) { PLUTO_LOG_STREAM_WITH(l, f, info, mark(1)); }
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
void h_write(L& l, const std::string& f, log_level v, const std::string& msg) { l.write(f, v, msg); }
void h_writef(L& l, const std::string& f, log_level v, const char* scheme, int a) { l.writef(f, v, scheme, a); }
void h_stream(L& l, const std::string& f, log_level v, int a) { auto s = l.stream(f, v); s << a; }
#if PLUTO_UTILS_HAS_FORMAT
void h_format(L& l, const std::string& f, log_level v, int a) { l.format(f, v, "{}", a); }
#endif
#endif
void w_row(std::ostream& s, const pluto::log_entry& e) { L::default_log_writer(s, e); }
void w_header(std::ostream& s) { L::default_header_writer(s); }
const char* t_c_str(log_level v) { return pluto::log_level_to_c_str(v); }
const char* t_title(log_level v) { return pluto::log_level_to_title(v); }
const char* t_short(log_level v) { return pluto::log_level_to_shortened(v); }
char t_char(log_level v) { return pluto::log_level_to_char(v); }
#define X(n) extern const int lv_##n; const int lv_##n = static_cast<int>(log_level::n);
X(off) X(fatal) X(critical) X(error) X(warning) X(notice) X(info) X(debug) X(trace) X(verbose) X(header)
X(crit) X(warn) X(note) X(verb) X(ftl) X(crt) X(err) X(wrn) X(ntc) X(inf) X(dbg) X(trc) X(vrb)
}
