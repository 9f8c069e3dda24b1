// Instantiates every conversion of unicode.hpp; the bodies are analysed, nothing is run.
#include <string>
#include <pluto/unicode.hpp>
typedef std::size_t N;
#define CONV(f, X, Y, EX, EY) \
    void p_##f##_##X##_##Y(const EX* p, N n, std::basic_string<EY>& o) { pluto::f(p, n, o); } \
    void s_##f##_##X##_##Y(const std::basic_string<EX>& s, std::basic_string<EY>& o) { pluto::f(s, o); }
#if PLUTO_UTILS_HAS_32_BIT_WCHAR
#define W32(...) __VA_ARGS__
#define W16(...)
#else
#define W32(...)
#define W16(...) __VA_ARGS__
#endif
#if PLUTO_UTILS_HAS_CXX_20
#define C8(...) __VA_ARGS__
#else
#define C8(...)
#endif
#define PS(f, R, X, EX) \
    void wp_##f##_##X(void* m, const EX* p, N n) { ::new (m) R(pluto::f(p, n)); } \
    void ws_##f##_##X(void* m, const std::basic_string<EX>& s) { ::new (m) R(pluto::f(s)); }
#include <new>
extern "C" {
CONV(utf8_to_utf16, c, c16, char, char16_t)
CONV(utf8_to_utf32, c, c32, char, char32_t)
CONV(utf16_to_utf8, c16, c, char16_t, char)
CONV(utf16_to_utf32, c16, c32, char16_t, char32_t)
CONV(utf32_to_utf8, c32, c, char32_t, char)
CONV(utf32_to_utf16, c32, c16, char32_t, char16_t)
C8(CONV(utf8_to_utf16, c8, c16, char8_t, char16_t))
C8(CONV(utf8_to_utf32, c8, c32, char8_t, char32_t))
C8(CONV(utf16_to_utf8, c16, c8, char16_t, char8_t))
C8(CONV(utf32_to_utf8, c32, c8, char32_t, char8_t))
W32(CONV(utf8_to_utf32, c, w, char, wchar_t))
W32(CONV(utf32_to_utf8, w, c, wchar_t, char))
W32(CONV(utf16_to_utf32, c16, w, char16_t, wchar_t))
W32(CONV(utf32_to_utf16, w, c16, wchar_t, char16_t))
W16(CONV(utf8_to_utf16, c, w, char, wchar_t))
W16(CONV(utf16_to_utf8, w, c, wchar_t, char))
W16(CONV(utf16_to_utf32, w, c32, wchar_t, char32_t))
W16(CONV(utf32_to_utf16, c32, w, char32_t, wchar_t))
PS(str, std::string, w, wchar_t)
PS(str, std::string, c16, char16_t)
PS(str, std::string, c32, char32_t)
PS(wstr, std::wstring, c, char)
PS(wstr, std::wstring, c16, char16_t)
PS(wstr, std::wstring, c32, char32_t)
PS(u16str, std::u16string, c, char)
PS(u16str, std::u16string, w, wchar_t)
PS(u16str, std::u16string, c32, char32_t)
PS(u32str, std::u32string, c, char)
PS(u32str, std::u32string, w, wchar_t)
PS(u32str, std::u32string, c16, char16_t)
C8(PS(str, std::string, c8, char8_t))
C8(PS(wstr, std::wstring, c8, char8_t))
C8(PS(u16str, std::u16string, c8, char8_t))
C8(PS(u32str, std::u32string, c8, char8_t))
C8(PS(u8str, std::u8string, c, char))
C8(PS(u8str, std::u8string, w, wchar_t))
C8(PS(u8str, std::u8string, c16, char16_t))
C8(PS(u8str, std::u8string, c32, char32_t))
}
