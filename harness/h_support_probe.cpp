// The parts of P38 that would fail to compile rather than to run.
#include <libunicode/support.h>

#include <functional>
#include <string>
#include <utility>

unicode::out<int> outOfReference(std::reference_wrapper<int> x) { return unicode::out<int>(x); }
unicode::out<std::string> outOfReference(std::reference_wrapper<std::string> x) { return unicode::out<std::string>(x); }
unicode::out<char32_t> outOfReference(std::reference_wrapper<char32_t> x) { return unicode::out<char32_t>(x); }

std::pair<int*, int*> endsOf(unicode::fs_array<int, 4>& a) { return { &a.front(), &a.back() }; }
std::pair<std::string*, std::string*> endsOf(unicode::fs_array<std::string, 4>& a) { return { &a.front(), &a.back() }; }
