// Minimal JSON reader/writer for the drivers.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace mj
{
struct V
{
   enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
   double n = 0;
   std::string s;
   std::vector<V> a;
   std::map<std::string, V> o;
   bool has(const std::string& k) const { return t == OBJ && o.count(k) > 0; }
   const V& operator[](const std::string& k) const
   {
      auto p = o.find(k);
      if( p == o.end() ) throw std::runtime_error("missing json key " + k);
      return p->second;
   }
   const V& operator[](size_t i) const { return a.at(i); }
   size_t size() const { return a.size(); }
   // numbers may be given as strings ("1e-8", "Infinity")
   double d() const { return t == STR ? (s == "Infinity" || s == "inf" ? INFINITY : s == "-Infinity" || s == "-inf" ? -INFINITY : s == "NaN" || s == "nan" ? NAN : strtod(s.c_str(), 0)) : n; }
   int i() const { return (int) d(); }
   bool b() const { return t == BOOL ? n != 0 : t == NUM ? n != 0 : !s.empty(); }
   const std::string& str() const { return s; }
   double num(const std::string& k, double def) const { return has(k) ? (*this)[k].d() : def; }
   int integer(const std::string& k, int def) const { return has(k) ? (*this)[k].i() : def; }
   std::string string(const std::string& k, const std::string& def) const { return has(k) ? (*this)[k].s : def; }
   bool boolean(const std::string& k, bool def) const { return has(k) ? (*this)[k].b() : def; }
   std::vector<double> vec() const { std::vector<double> r; for( auto& x : a ) r.push_back(x.d()); return r; }
   std::vector<int> ivec() const { std::vector<int> r; for( auto& x : a ) r.push_back(x.i()); return r; }
};
struct P
{
   const char* p;
   void ws() { while( *p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' ) ++p; }
   std::string qs()
   {
      std::string r;
      ++p;
      while( *p && *p != '"' )
      {
         if( *p == '\\' )
         {
            ++p;
            switch( *p ) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
               case 'u': { r += (char) strtol(std::string(p + 1, 4).c_str(), 0, 16); p += 4; break; }
               default: r += *p; }
            ++p;
         }
         else r += *p++;
      }
      if( *p ) ++p;
      return r;
   }
   V val()
   {
      ws();
      V v;
      if( *p == '{' )
      {
         v.t = V::OBJ; ++p; ws();
         while( *p && *p != '}' ) { ws(); std::string k = qs(); ws(); ++p; v.o[k] = val(); ws(); if( *p == ',' ) ++p; }
         if( *p ) ++p;
      }
      else if( *p == '[' )
      {
         v.t = V::ARR; ++p; ws();
         while( *p && *p != ']' ) { v.a.push_back(val()); ws(); if( *p == ',' ) ++p; ws(); }
         if( *p ) ++p;
      }
      else if( *p == '"' ) { v.t = V::STR; v.s = qs(); }
      else if( *p == 't' ) { v.t = V::BOOL; v.n = 1; p += 4; }
      else if( *p == 'f' ) { v.t = V::BOOL; v.n = 0; p += 5; }
      else if( *p == 'n' ) { p += 4; }
      else { char* e; v.t = V::NUM; v.n = strtod(p, &e); if( e == p ) throw std::runtime_error(std::string("bad json near ") + std::string(p).substr(0, 40)); p = e; }
      return v;
   }
};
inline V parse(const std::string& s) { P q; q.p = s.c_str(); return q.val(); }
inline std::string esc(const std::string& s)
{
   std::string r = "\"";
   for( unsigned char c : s )
   {
      if( c == '"' || c == '\\' ) { r += '\\'; r += c; }
      else if( c == '\n' ) r += "\\n";
      else if( c == '\t' ) r += "\\t";
      else if( c < 32 || c > 126 ) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
   }
   return r + "\"";
}
// doubles are written as strings: exact and safe for TLC
inline std::string num(double x)
{
   if( std::isnan(x) ) return "\"NaN\"";
   if( std::isinf(x) ) return x > 0 ? "\"Infinity\"" : "\"-Infinity\"";
   char b[40];
   snprintf(b, 40, "\"%.17g\"", x);
   return b;
}
inline std::string num(const double* x, int n)
{
   std::string r = "[";
   for( int i = 0; i < n; ++i ) { if( i ) r += ","; r += num(x[i]); }
   return r + "]";
}
inline std::string num(const std::vector<double>& x) { return num(x.data(), (int) x.size()); }
inline std::string ints(const std::vector<int>& x)
{
   std::string r = "[";
   for( size_t i = 0; i < x.size(); ++i ) { if( i ) r += ","; r += std::to_string(x[i]); }
   return r + "]";
}
inline std::string strs(const std::vector<std::string>& x)
{
   std::string r = "[";
   for( size_t i = 0; i < x.size(); ++i ) { if( i ) r += ","; r += esc(x[i]); }
   return r + "]";
}
struct Obj
{
   std::string r = "{";
   Obj& raw(const std::string& k, const std::string& v) { if( r.size() > 1 ) r += ","; r += esc(k) + ":" + v; return *this; }
   Obj& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
   Obj& s(const std::string& k, const std::string& v) { return raw(k, esc(v)); }
   Obj& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
   Obj& d(const std::string& k, double v) { return raw(k, num(v)); }
   std::string done() const { return r + "}"; }
};
}
