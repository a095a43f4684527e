// Replaces std::basic_ios<char>::init in the symbolic bitcode: a stream without a locale.
#define private public
#define protected public
#include <ios>
void ios_init(std::basic_ios<char> *s, std::basic_streambuf<char> *sb) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void ios_init(std::basic_ios<char> *s, std::basic_streambuf<char> *sb) {
    s->_M_ctype = nullptr; s->_M_num_put = nullptr; s->_M_num_get = nullptr; s->_M_fill = ' '; s->_M_fill_init = true;
    s->_M_tie = nullptr; s->_M_exception = std::ios_base::goodbit; s->_M_streambuf = sb; s->_M_streambuf_state = sb ? std::ios_base::goodbit : std::ios_base::badbit;
}
