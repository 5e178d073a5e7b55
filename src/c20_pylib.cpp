// The native library of the Python interface for C20: everything is in PyCentaurus.cpp and the library; here only the page size.
#include "CodeGenEM64T.hpp"

#include <stdint.h>

static int64_t page_size = 8 * 1024 * 1024;
#if defined(CENTAURUS_MODEL_CHECKING)
namespace Centaurus {
template<> const int64_t& ParserEM64T<char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<unsigned char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<wchar_t>::AST_BUF_SIZE = page_size;
}
extern "C" void mc_set_page(long n) { page_size = n; }
#endif
