// A reader of the dot language (what the analysis tools can use of it).
#pragma once
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace {
struct Dot {
  std::vector<std::pair<std::string, std::string>> nodes;  // name, label
  std::vector<std::pair<std::string, std::string>> edges;
  std::string err;
};
Dot read_dot(const std::string &s) {
  Dot d;
  std::vector<std::pair<int, std::string>> t;  // 0 punctuation, 1 identifier
  for (size_t i = 0; i < s.size();) {
    char ch = s[i];
    if (isspace((unsigned char)ch)) { i++; continue; }
    if (ch == '"') {
      std::string v;
      for (i++; i < s.size() && s[i] != '"'; i++) {
        if (s[i] == '\\' && i + 1 < s.size()) {
          i++;
          if (s[i] == 'n' || s[i] == 'l' || s[i] == 'r') v += '\n';
          else v += s[i];
        } else
          v += s[i];
      }
      if (i >= s.size()) { d.err = "unterminated string"; return d; }
      i++;
      t.push_back({1, v});
    } else if (ch == '/' && i + 1 < s.size() && s[i + 1] == '/') {
      while (i < s.size() && s[i] != '\n') i++;
    } else if (ch == '-' && i + 1 < s.size() && s[i + 1] == '>') {
      t.push_back({0, "->"});
      i += 2;
    } else if (isalnum((unsigned char)ch) || ch == '_' || ch == '.' || ch == '-') {
      size_t b = i;
      while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '.' || (s[i] == '-' && i == b))) i++;
      t.push_back({1, s.substr(b, i - b)});
    } else {
      t.push_back({0, std::string(1, ch)});
      i++;
    }
  }
  int brace = 0;
  size_t i = 0;
  auto P = [&](const char *p) { return i < t.size() && t[i].first == 0 && t[i].second == p; };
  while (i < t.size()) {
    if (P("{")) { brace++; i++; continue; }
    if (P("}")) { brace--; i++; continue; }
    if (P(";") || P(",")) { i++; continue; }
    if (t[i].first != 1) { d.err = "unexpected '" + t[i].second + "'"; return d; }
    std::string a = t[i].second;
    if (a == "digraph" || a == "subgraph" || a == "strict") {
      i++;
      if (i < t.size() && t[i].first == 1 && i + 1 < t.size() && t[i + 1].second == "{") i++;
      continue;
    }
    i++;
    std::vector<std::string> chain{a};
    if (P("=")) { i += 2; continue; }  // an attribute of the graph
    while (P("->")) {
      i++;
      if (i >= t.size() || t[i].first != 1) { d.err = "edge without a target"; return d; }
      chain.push_back(t[i++].second);
    }
    std::string label = a;
    bool attrs = false;
    while (P("[")) {
      attrs = true;
      i++;
      while (i < t.size() && !P("]")) {
        if (P(",") || P(";")) { i++; continue; }
        std::string k = t[i++].second;
        if (P("=")) {
          i++;
          if (i < t.size() && k == "label") label = t[i].second;
          i++;
        }
      }
      i++;
    }
    if (chain.size() > 1)
      for (size_t q = 0; q + 1 < chain.size(); q++) d.edges.push_back({chain[q], chain[q + 1]});
    else if (a != "graph" && a != "node" && a != "edge")
      d.nodes.push_back({a, label});
  }
  if (brace != 0) d.err = "unbalanced braces";
  return d;
}

// The value shown for a key in a label.
bool field(const std::string &label, const std::string &key, std::string &v) {
  std::istringstream i(label);
  std::string l;
  while (std::getline(i, l)) {
    size_t p = l.find(key);
    if (p == std::string::npos || (p > 0 && (isalnum((unsigned char)l[p - 1]) || l[p - 1] == '_'))) continue;
    p += key.size();
    if (p >= l.size() || (l[p] != ':' && l[p] != '=' && l[p] != ' ')) continue;
    v = l.substr(p + 1);
    while (!v.empty() && (v.back() == ',' || isspace((unsigned char)v.back()))) v.pop_back();
    while (!v.empty() && (isspace((unsigned char)v[0]) || v[0] == '\'')) v.erase(0, 1);
    return true;
  }
  return false;
}

}  // namespace
