// Shared by the harnesses: reading cases, writing '@{json}' records, and a scripted constraint.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <Eigen/Dense>

namespace vh {

using Eigen::MatrixXd;
using Eigen::VectorXd;

// The library prints to stdout; records go through this stream (a dup of the original stdout).
inline FILE*& Out() {
  static FILE* f = stdout;
  return f;
}

class Json {
 public:
  std::string s;
  static std::string I(double v, double scale = 1) {
    double w = v * scale;
    if (!(std::fabs(w) < 1e9)) return w < 0 ? "-1000000000" : "1000000000";  // NaN, inf, huge
    char buf[32];
    snprintf(buf, sizeof buf, "%lld", static_cast<long long>(std::llround(w)));
    return buf;
  }
  Json& raw(const std::string& key, const std::string& v) {
    s += (s.empty() ? "" : ",") + std::string("\"") + key + "\":" + v;
    return *this;
  }
  Json& i(const std::string& key, double v, double scale = 1) { return raw(key, I(v, scale)); }
  Json& b(const std::string& key, bool v) { return raw(key, v ? "true" : "false"); }
  Json& str(const std::string& key, const std::string& v) {
    std::string t;
    for (char c : v) {
      if (c == '"' || c == '\\') t += '\\';
      if (static_cast<unsigned char>(c) >= 32) t += c;
    }
    return raw(key, "\"" + t + "\"");
  }
  template <typename V>
  static std::string Vec(const V& v, size_t n, double scale = 1) {
    std::string t = "[";
    for (size_t j = 0; j < n; j++) t += (j ? "," : "") + I(v[j], scale);
    return t + "]";
  }
  Json& ints(const std::string& key, const std::vector<int>& v) { return raw(key, Vec(v, v.size())); }
  Json& vec(const std::string& key, const VectorXd& v, double scale = 1) {
    return raw(key, Vec(v, v.size(), scale));
  }
  Json& dvec(const std::string& key, const std::vector<double>& v, double scale = 1) {
    return raw(key, Vec(v, v.size(), scale));
  }
  static std::string Mat(const MatrixXd& m, double scale = 1) {
    std::string t = "[";
    for (int r = 0; r < m.rows(); r++) {
      VectorXd row = m.row(r).transpose();
      t += (r ? "," : "") + Vec(row, row.size(), scale);
    }
    return t + "]";
  }
  Json& mat(const std::string& key, const MatrixXd& m, double scale = 1) { return raw(key, Mat(m, scale)); }
  Json& vv(const std::string& key, const std::vector<std::vector<int>>& v) {
    std::string t = "[";
    for (size_t j = 0; j < v.size(); j++) t += (j ? "," : "") + Vec(v[j], v[j].size());
    return raw(key, t + "]");
  }
};

inline int& CurrentCase() {
  static int c = -1;
  return c;
}

inline void Emit(const std::string& kind, const Json& j) {
  fprintf(Out(), "@{\"k\":\"%s\",\"case\":%d%s%s}\n", kind.c_str(), CurrentCase(), j.s.empty() ? "" : ",",
          j.s.c_str());
  fflush(Out());
}

// Tokens of one line, consumed left to right.
struct Tok {
  std::istringstream in;
  explicit Tok(const std::string& line) : in(line) {}
  std::string s() {
    std::string x;
    in >> x;
    return x;
  }
  int i() { return std::stoi(s()); }
  double d() {
    std::string x = s();
    if (x == "inf") return std::numeric_limits<double>::infinity();
    if (x == "-inf") return -std::numeric_limits<double>::infinity();
    if (x == "nan") return std::nan("");
    return std::stod(x);
  }
  std::vector<int> ints(int n) {
    std::vector<int> v(n);
    for (auto& x : v) x = i();
    return v;
  }
  std::vector<int> list() { return ints(i()); }
  MatrixXd mat(int r, int c) {
    MatrixXd m(r, c);
    for (int a = 0; a < r; a++)
      for (int b = 0; b < c; b++) m(a, b) = d();
    return m;
  }
};

// Runs fn(lines) for every "case N ... end" block of stdin; exceptions become a record.
inline int RunCases(const std::function<void(const std::vector<std::string>&)>& fn) {
  // The library writes progress to std::cout; keep it away from the records.
  static std::ofstream null("/dev/null");
  std::cout.rdbuf(null.rdbuf());
  if (!getenv("VH_STDERR")) std::cerr.rdbuf(null.rdbuf());
  std::string line;
  std::vector<std::string> block;
  while (std::getline(std::cin, line)) {
    if (line.rfind("case ", 0) == 0) {
      CurrentCase() = std::stoi(line.substr(5));
      block.clear();
    } else if (line == "end") {
      try {
        fn(block);
      } catch (const std::exception& e) {
        Emit("exception", Json().str("what", e.what()));
      } catch (const char* e) {
        Emit("exception", Json().str("what", e));
      }
      Emit("done", Json());
    } else {
      block.push_back(line);
    }
  }
  return 0;
}

}  // namespace vh
