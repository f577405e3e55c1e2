// value transport between the checker and the code under test
#include <iostream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <algorithm>
#include <boost/smart_ptr/shared_ptr.hpp>
#include <boost/smart_ptr/weak_ptr.hpp>
namespace drv {
struct End {};
inline std::string tok() { std::string s; if (!(std::cin >> s)) throw End(); return s; }
inline void rd(int &x) { x = atoi(tok().c_str()); }
inline void rd(unsigned &x) { x = (unsigned)atoll(tok().c_str()); }
inline void rd(long &x) { x = atol(tok().c_str()); }
inline void rd(unsigned long &x) { x = strtoul(tok().c_str(),0,10); }
inline void rd(short &x) { x = (short)atoi(tok().c_str()); }
inline void rd(char &x) { x = (char)atoi(tok().c_str()); }
inline void rd(bool &x) { x = atoi(tok().c_str()) != 0; }
inline void rd(double &x) { x = strtod(tok().c_str(), 0); }
inline void rd(float &x) { x = (float)strtod(tok().c_str(), 0); }
inline void rd(std::complex<double> &x) { double a, b; rd(a); rd(b); x = std::complex<double>(a, b); }
inline int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
inline void rd(std::string &x) { std::string h = tok(); x.clear(); for (size_t i = 1; i + 1 < h.size(); i += 2) x += (char)(hexv(h[i]) * 16 + hexv(h[i + 1])); }
template <class E> typename std::enable_if<std::is_enum<E>::value>::type rd(E &x) { int i; rd(i); x = (E)i; }
template <class T> void rd(std::vector<T> &v);
template <class A, class B> void rd(std::pair<A, B> &p);
template <class A, class B> void rd(std::map<A, B> &p);
template <class A> void rd(std::set<A> &p);
template <class T, size_t N> void rd(T (&a)[N]) { for (size_t i = 0; i < N; i++) rd(a[i]); }
template <size_t N> void rd(char (&a)[N]) { std::string s; rd(s); strncpy(a, s.c_str(), N - 1); a[N - 1] = 0; }
inline void rd(std::vector<bool> &v) { int n; rd(n); v.resize(n); for (int i = 0; i < n; i++) { bool b; rd(b); v[i] = b; } }
template <class T> void rd(std::vector<T> &v) { int n; rd(n); v.clear(); v.resize(n); for (int i = 0; i < n; i++) rd(v[i]); }
template <class A, class B> void rd(std::pair<A, B> &p) { rd(p.first); rd(p.second); }
template <class A, class B> void rd(std::map<A, B> &m) { int n; rd(n); m.clear(); for (int i = 0; i < n; i++) { A a; rd(a); rd(m[a]); } }
template <class A> void rd(std::set<A> &m) { int n; rd(n); m.clear(); for (int i = 0; i < n; i++) { A a; rd(a); m.insert(a); } }
template <class T> T get() { T x; rd(x); return x; }
// a plain pointer to n cells (null if n < 0)
template <class T> void rdp(T *&p) { int n; rd(n); if (n < 0) { p = 0; return; } p = new T[n > 0 ? n : 1]; for (int i = 0; i < n; i++) rd(p[i]); }

inline std::string &out() { static std::string s; return s; }
inline void put(const std::string &s) { out() += ' '; out() += s; }
inline void wr(double x) { char b[64]; snprintf(b, 64, "%.17g", x); put(b); }
inline void wr(float x) { wr((double)x); }
inline void wr(int x) { put(std::to_string(x)); }
inline void wr(unsigned x) { put(std::to_string(x)); }
inline void wr(long x) { put(std::to_string(x)); }
inline void wr(unsigned long x) { put(std::to_string(x)); }
inline void wr(bool x) { put(x ? "1" : "0"); }
inline void wr(char x) { put(std::to_string((int)x)); }
inline void wr(const std::complex<double> &x) { wr(x.real()); wr(x.imag()); }
inline void wr(const std::string &s) { std::string h = "x"; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); h += b; } put(h); }
inline void wr(const char *s) { wr(std::string(s)); }
template <class E> typename std::enable_if<std::is_enum<E>::value>::type wr(E x) { wr((int)x); }
inline void wr(const std::vector<bool> &v) { wr((int)v.size()); for (size_t i = 0; i < v.size(); i++) wr((bool)v[i]); }
template <class A, class B> void wr(const std::pair<A, B> &p) { wr(p.first); wr(p.second); }
template <class T> void wr(const std::vector<T> &v) { wr((int)v.size()); for (size_t i = 0; i < v.size(); i++) wr(v[i]); }
template <class A, class B> void wr(const std::map<A, B> &m) { wr((int)m.size()); for (auto &p : m) wr(p); }
template <class A> void wr(const std::set<A> &m) { wr((int)m.size()); for (auto &p : m) wr(p); }
template <class T, size_t N> void wr(const T (&a)[N]) { for (size_t i = 0; i < N; i++) wr(a[i]); }
template <class T> void wrn(const T *p, int n) { wr(n); for (int i = 0; i < n; i++) wr(p[i]); }
template <class T> boost::shared_ptr<T> keep(T *p) { static std::vector<boost::shared_ptr<void> > k; boost::shared_ptr<T> s(p); k.push_back(s); return s; }
}
