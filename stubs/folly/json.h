#pragma once
#include <cctype>
#include <cstdio>
#include <stdexcept>
#include <cstring>
#include <string>
#include "dynamic.h"
namespace folly {
inline void jsonTo(const dynamic& d, std::string& o) {
  switch (d.type()) {
    case dynamic::NULLT: o += "null"; break;
    case dynamic::BOOL: o += d.asInt() ? "true" : "false"; break;
    case dynamic::INT64: o += std::to_string(d.asInt()); break;
    case dynamic::DOUBLE: { char b[40]; snprintf(b, sizeof b, "%.17g", d.asDouble()); o += b; break; }
    case dynamic::STRING: {
      o += '"';
      for (unsigned char c : d.asString()) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
      }
      o += '"';
      break;
    }
    case dynamic::ARRAY:
      o += '[';
      for (size_t i = 0; i < d.size(); i++) { if (i) o += ','; jsonTo(d[(int64_t)i], o); }
      o += ']';
      break;
    case dynamic::OBJECT: {
      o += '{';
      bool f = true;
      for (auto& p : d.items()) { if (!f) o += ','; f = false; jsonTo(p.first, o); o += ':'; jsonTo(p.second, o); }
      o += '}';
    }
  }
}
inline std::string toJson(const dynamic& d) { std::string o; jsonTo(d, o); return o; }
inline std::string toPrettyJson(const dynamic& d) { return toJson(d); }
struct JsonP {
  const std::string& s;
  size_t i = 0;
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
  [[noreturn]] void bad() { throw std::runtime_error("json parse error"); }
  dynamic val() {
    ws();
    if (i >= s.size()) bad();
    char c = s[i];
    if (c == '{') {
      dynamic d = dynamic::object;
      i++; ws();
      if (s[i] == '}') { i++; return d; }
      for (;;) { ws(); dynamic k = str(); ws(); if (s[i++] != ':') bad(); d.insert(k, val()); ws(); if (s[i] == ',') { i++; continue; } if (s[i++] == '}') return d; bad(); }
    }
    if (c == '[') {
      dynamic d = dynamic::array_range(std::vector<int>{});
      i++; ws();
      if (s[i] == ']') { i++; return d; }
      for (;;) { d.push_back(val()); ws(); if (s[i] == ',') { i++; continue; } if (s[i++] == ']') return d; bad(); }
    }
    if (c == '"') return str();
    if (!s.compare(i, 4, "true")) { i += 4; return dynamic(true); }
    if (!s.compare(i, 5, "false")) { i += 5; return dynamic(false); }
    if (!s.compare(i, 4, "null")) { i += 4; return dynamic(); }
    size_t b = i; bool dbl = false;
    while (i < s.size() && (isdigit((unsigned char)s[i]) || strchr("+-.eE", s[i]))) { if (strchr(".eE", s[i])) dbl = true; i++; }
    if (b == i) bad();
    return dbl ? dynamic(std::stod(s.substr(b, i - b))) : dynamic((int64_t)std::stoll(s.substr(b, i - b)));
  }
  dynamic str() {
    std::string o; i++;
    while (i < s.size() && s[i] != '"') {
      if (s[i] == '\\') { i++; if (s[i] == 'u') { o += (char)std::stoi(s.substr(i + 1, 4), nullptr, 16); i += 5; continue; }
        char e = s[i++]; o += e == 'n' ? '\n' : e == 't' ? '\t' : e; continue; }
      o += s[i++];
    }
    if (i >= s.size()) bad();
    i++;
    return dynamic(o);
  }
};
inline dynamic parseJson(const std::string& s) { JsonP p{s}; auto d = p.val(); p.ws(); return d; }
} // namespace folly
