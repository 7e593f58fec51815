#pragma once
#include "folly/dynamic.h"
namespace folly {
namespace jsonimpl {
inline void esc(std::string& o, const std::string& s) {
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}
inline void dump(std::string& o, const dynamic& d) {
  if (d.isNull()) o += "null";
  else if (d.isBool()) o += d.asBool() ? "true" : "false";
  else if (d.isInt()) o += std::to_string(d.asInt());
  else if (d.isDouble()) o += std::to_string(d.asDouble());
  else if (d.isString()) esc(o, d.getString());
  else if (d.isArray()) { o += '['; bool f = true; for (auto& x : d.arr()) { if (!f) o += ','; f = false; dump(o, x); } o += ']'; }
  else { o += '{'; bool f = true; for (auto& [k, v] : d.obj()) { if (!f) o += ','; f = false; esc(o, k.getString()); o += ':'; dump(o, v); } o += '}'; }
}
struct P {
  const std::string& s; size_t p = 0;
  [[noreturn]] void bad() { throw std::runtime_error("json parse error at " + std::to_string(p)); }
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
  char c() { ws(); if (p >= s.size()) bad(); return s[p]; }
  std::string str() {
    std::string o; p++;
    while (true) {
      if (p >= s.size()) bad();
      char x = s[p++];
      if (x == '"') return o;
      if (x == '\\') {
        char y = s[p++];
        if (y == 'n') o += '\n'; else if (y == 't') o += '\t'; else if (y == 'r') o += '\r';
        else if (y == 'b') o += '\b'; else if (y == 'f') o += '\f';
        else if (y == 'u') { unsigned v = std::stoul(s.substr(p, 4), nullptr, 16); p += 4;
          if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); }
          else { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); } }
        else o += y;
      } else o += x;
    }
  }
  dynamic val() {
    switch (c()) {
      case '{': { p++; dynamic::Object o; if (c() == '}') { p++; return dynamic(o); }
        while (true) { if (c() != '"') bad(); auto k = str(); if (c() != ':') bad(); p++; o[k] = val(); if (c() == ',') { p++; continue; } if (c() == '}') { p++; return dynamic(o); } bad(); } }
      case '[': { p++; dynamic::Array a; if (c() == ']') { p++; return dynamic(a); }
        while (true) { a.push_back(val()); if (c() == ',') { p++; continue; } if (c() == ']') { p++; return dynamic(a); } bad(); } }
      case '"': return dynamic(str());
      case 't': p += 4; return dynamic(true);
      case 'f': p += 5; return dynamic(false);
      case 'n': p += 4; return dynamic(nullptr);
      default: { size_t q = p; while (q < s.size() && (isdigit((unsigned char)s[q]) || strchr("+-.eE", s[q]))) q++;
        auto t = s.substr(p, q - p); if (t.empty()) bad(); p = q;
        if (t.find_first_of(".eE") != std::string::npos) return dynamic(std::stod(t)); return dynamic((int64_t)std::stoll(t)); }
    }
  }
};
}
inline std::string toJson(const dynamic& d) { std::string o; jsonimpl::dump(o, d); return o; }
inline std::string toPrettyJson(const dynamic& d) { return toJson(d); }
inline dynamic parseJson(const std::string& s) { jsonimpl::P p{s}; auto v = p.val(); p.ws(); if (p.p != s.size()) p.bad(); return v; }
inline std::ostream& operator<<(std::ostream& o, const dynamic& d) { return o << toJson(d); }
}
