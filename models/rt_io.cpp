// The parts of libstdc++'s iostreams that live in the shared library, for the "C" locale and char streams.
// The formatting itself (num_put, ostream inserters, stringbuf) is the real header code.
#include <ostream>
#include <istream>
#include <sstream>
#include <locale>
#include <new>
#include <cstring>
#include "sym.h"
namespace std {
const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
locale::id ctype<char>::id;
locale::id ctype<wchar_t>::id;
locale::facet::~facet() {}
static size_t gNextId;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++gNextId; return _M_index; }

// ctype<char>
static ctype_base::mask classic[256];
static const ctype_base::mask *fill() {
  if (!classic['a']) for (int c = 0; c < 128; ++c) {
    bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9', x = d || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'), sp = c == ' ' || (c >= 9 && c <= 13), g = c > ' ' && c < 127; ctype_base::mask m = 0;
    if (u) m |= ctype_base::upper; if (l) m |= ctype_base::lower; if (u || l) m |= ctype_base::alpha; if (d) m |= ctype_base::digit; if (x) m |= ctype_base::xdigit; if (sp) m |= ctype_base::space;
    if (c == ' ' || c == 9) m |= ctype_base::blank; if (g || c == ' ') m |= ctype_base::print; if (g) m |= ctype_base::graph & ~(ctype_base::alnum | ctype_base::punct); if (g && (u || l || d)) m |= ctype_base::alnum; if (g && !(u || l || d)) m |= ctype_base::punct; if (c < 32 || c == 127) m |= ctype_base::cntrl; classic[c] = m;
  }
  return classic;
}
ctype<char>::ctype(const mask *, bool, size_t refs) : facet(refs), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(fill()), _M_widen_ok(1), _M_narrow_ok(1) {
  for (int i = 0; i < 256; ++i) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; }
}
ctype<char>::~ctype() {}
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char ctype<char>::do_toupper(char c) const { return up(c); }
const char *ctype<char>::do_toupper(char *l, const char *h) const { while (l < h) { *l = up(*l); ++l; } return h; }
char ctype<char>::do_tolower(char c) const { return lo(c); }
const char *ctype<char>::do_tolower(char *l, const char *h) const { while (l < h) { *l = lo(*l); ++l; } return h; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
const ctype_base::mask *ctype<char>::classic_table() throw() { return fill(); }

template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {}
template <> numpunct<char>::~numpunct() {}

struct Store {
  alignas(16) char impl[sizeof(locale::_Impl)], ct[sizeof(ctype<char>)], np[sizeof(num_put<char>)], ng[sizeof(num_get<char>)], npt[sizeof(numpunct<char>)], cache[sizeof(__numpunct_cache<char>)];
  const locale::facet *facets[64], *caches[64];
  locale::_Impl *p;
};
static Store S;
static locale::_Impl *impl() {
  if (S.p) return S.p;
  auto *i = (locale::_Impl *)S.impl;
  i->_M_refcount = 1 << 20; i->_M_facets = S.facets; i->_M_facets_size = 64; i->_M_caches = S.caches; i->_M_names = nullptr;
  S.facets[ctype<char>::id._M_id()] = new (S.ct) ctype<char>(nullptr, false, 1);
  S.facets[num_put<char>::id._M_id()] = new (S.np) num_put<char>(1);
  S.facets[num_get<char>::id._M_id()] = new (S.ng) num_get<char>(1);
  auto *c = new (S.cache) __numpunct_cache<char>(1);
  c->_M_grouping = ""; c->_M_truename = "true"; c->_M_truename_size = 4; c->_M_falsename = "false"; c->_M_falsename_size = 5;
  c->_M_decimal_point = '.'; c->_M_thousands_sep = ',';
  for (int k = 0; k < __num_base::_S_oend; ++k) c->_M_atoms_out[k] = __num_base::_S_atoms_out[k];
  for (int k = 0; k < __num_base::_S_iend; ++k) c->_M_atoms_in[k] = __num_base::_S_atoms_in[k];
  S.facets[numpunct<char>::id._M_id()] = new (S.npt) numpunct<char>(c, 1);
  S.caches[numpunct<char>::id._M_id()] = c;
  return S.p = i;
}
locale::locale() throw() : _M_impl(impl()) {}
locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale &o) const throw() { return true; }
const locale &locale::classic() { static char l[sizeof(locale)]; *(locale::_Impl **)l = impl(); return *(const locale *)l; }
void locale::_Impl::_M_install_cache(const facet *f, size_t i) { _M_caches[i] = f; }

ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void __throw_ios_failure(const char *) { throw runtime_error("ios_failure"); }
void __throw_ios_failure(const char *, int) { throw runtime_error("ios_failure"); }
// the specialization in the library
template <> istream &operator>>(istream &in, string &str) {
  istream::sentry ok(in, false); ios_base::iostate err = ios_base::goodbit; size_t got = 0;
  if (ok) {
    str.erase(); streamsize w = in.width(); size_t most = w > 0 ? (size_t)w : str.max_size(); streambuf *b = in.rdbuf(); int c = b->sgetc();
    while (got < most && c != EOF && !(c == ' ' || (c >= 9 && c <= 13))) { str += (char)c; ++got; c = b->snextc(); }
    if (got < most && c == EOF) err |= ios_base::eofbit; in.width(0);
  }
  if (!got) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
}
template class std::basic_ostream<char>;
template class std::basic_ios<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istream<char>;
template class std::basic_istringstream<char>;
template std::ostream &std::__ostream_insert(std::ostream &, const char *, std::streamsize);
template class std::num_put<char>;
template class std::num_get<char>;
template std::ostream &std::ostream::_M_insert(long);
template std::ostream &std::ostream::_M_insert(unsigned long);
template std::ostream &std::ostream::_M_insert(long long);
template std::ostream &std::ostream::_M_insert(unsigned long long);
template std::ostream &std::ostream::_M_insert(bool);
template std::ostream &std::ostream::_M_insert(const void *);
template std::ostream &std::ostream::_M_insert(double);
template std::ostream &std::endl(std::ostream &);
template std::ostream &std::flush(std::ostream &);
template std::ostream &std::operator<<(std::ostream &, const char *);
template std::ostream &std::operator<<(std::ostream &, char);
template std::ostream &std::operator<<(std::ostream &, const std::string &);
template std::istream &std::operator>>(std::istream &, char &);
template std::istream &std::ws(std::istream &);
