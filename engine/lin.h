// Linear expressions over abstract-domain symbols, intervals and a small LP
// (rational relaxation) used as the decision procedure of the linear domain.
#pragma once
#include <vector>
#include <map>
#include <string>
#include <cstdint>
#include <cmath>
#include <algorithm>
#include <cstdio>

typedef __int128 I;
static const I NEG = -(((I)1) << 100), POS = ((I)1) << 100;
static const I BIG = ((I)1) << 42;   // constants above this are left to the interval part

static inline I iabs(I a) { return a < 0 ? -a : a; }
static inline I igcd(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I t = a % b; a = b; b = t; } return a; }
static inline I floordiv(I a, I b) { I q = a / b, r = a % b; if (r != 0 && ((r < 0) != (b < 0))) q--; return q; }
static inline I ceildiv(I a, I b) { return -floordiv(-a, b); }

static inline std::string istr(I a) {
  if (a <= NEG) return "-inf"; if (a >= POS) return "+inf";
  bool n = a < 0; unsigned __int128 u = n ? -(unsigned __int128)a : a; std::string s;
  if (!u) s = "0"; while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (n) s += '-'; std::reverse(s.begin(), s.end()); return s;
}

struct Lin {
  I c = 0;
  std::vector<std::pair<int, I>> t;     // sorted by symbol, coefficient != 0
  Lin() {}
  Lin(I k) : c(k) {}
  static Lin sym(int s, I k = 1) { Lin l; if (k != 0) l.t.push_back({s, k}); return l; }
  bool isConst() const { return t.empty(); }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { if (c != o.c) return c < o.c; return t < o.t; }
  I coef(int s) const { for (auto &p : t) if (p.first == s) return p.second; return 0; }
  bool has(int s) const { for (auto &p : t) if (p.first == s) return true; return false; }
  std::string str() const {
    std::string r; for (auto &p : t) { r += (r.empty() ? "" : " + "); if (p.second != 1) r += istr(p.second) + "*"; r += "s" + std::to_string(p.first); }
    if (c != 0 || r.empty()) r += (r.empty() ? "" : " + ") + istr(c); return r;
  }
};
static inline Lin addmul(const Lin &a, const Lin &b, I k) {
  Lin r; r.c = a.c + b.c * k; size_t i = 0, j = 0; r.t.reserve(a.t.size() + b.t.size());
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { if (k != 0) r.t.push_back({b.t[j].first, b.t[j].second * k}); j++; }
    else { I v = a.t[i].second + b.t[j].second * k; if (v != 0) r.t.push_back({a.t[i].first, v}); i++; j++; }
  }
  return r;
}
static inline Lin operator+(const Lin &a, const Lin &b) { return addmul(a, b, 1); }
static inline Lin operator-(const Lin &a, const Lin &b) { return addmul(a, b, -1); }
static inline Lin scale(const Lin &a, I k) { Lin r; if (k == 0) return r; r = a; r.c *= k; for (auto &p : r.t) p.second *= k; return r; }
static inline Lin neg(const Lin &a) { return scale(a, -1); }
static inline Lin addc(const Lin &a, I k) { Lin r = a; r.c += k; return r; }
// substitute symbol s by e
static inline Lin subst1(const Lin &a, int s, const Lin &e) {
  I k = a.coef(s); if (k == 0) return a;
  Lin r = a; for (size_t i = 0; i < r.t.size(); i++) if (r.t[i].first == s) { r.t.erase(r.t.begin() + i); break; }
  return addmul(r, e, k);
}

struct Itv { I lo = NEG, hi = POS; };

// dense simplex: maximize c.x s.t. A x <= b, x >= 0.  returns 0 optimal, 1 unbounded, 2 infeasible, 3 gave up
struct Simplex {
  int m, n; std::vector<int> N, B; std::vector<std::vector<double>> D;
  static constexpr double EPS = 1e-9;
  int iters = 0;
  Simplex(const std::vector<std::vector<double>> &A, const std::vector<double> &b, const std::vector<double> &c)
    : m(b.size()), n(c.size()), N(n + 1), B(m), D(m + 2, std::vector<double>(n + 2)) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) D[i][j] = A[i][j];
    for (int i = 0; i < m; i++) { B[i] = n + i; D[i][n] = -1; D[i][n + 1] = b[i]; }
    for (int j = 0; j < n; j++) { N[j] = j; D[m][j] = -c[j]; }
    N[n] = -1; D[m + 1][n] = 1;
  }
  void pivot(int r, int s) {
    double inv = 1 / D[r][s];
    for (int i = 0; i < m + 2; i++) if (i != r && std::fabs(D[i][s]) > 1e-13) {
      double f = D[i][s] * inv;
      for (int j = 0; j < n + 2; j++) if (j != s) D[i][j] -= D[r][j] * f;
      D[i][s] = -f;
    } else if (i != r) D[i][s] = 0;
    for (int j = 0; j < n + 2; j++) if (j != s) D[r][j] *= inv;
    D[r][s] = inv; std::swap(B[r], N[s]);
  }
  int run(int phase) {
    int x = phase == 1 ? m + 1 : m;
    while (true) {
      if (++iters > 2000) return 3;
      int s = -1;
      for (int j = 0; j <= n; j++) {
        if (phase == 2 && N[j] == -1) continue;
        if (iters > 200) { if (D[x][j] < -EPS && (s == -1 || N[j] < N[s])) s = j; continue; }
        if (s == -1 || D[x][j] < D[x][s] - 1e-12 || (std::fabs(D[x][j] - D[x][s]) <= 1e-12 && N[j] < N[s])) s = j;
      }
      if (s == -1 || D[x][s] > -EPS) return 0;
      int r = -1;
      for (int i = 0; i < m; i++) {
        if (D[i][s] < EPS) continue;
        double q = D[i][n + 1] / D[i][s];
        if (r == -1) { r = i; continue; }
        double qr = D[r][n + 1] / D[r][s];
        if (q < qr - 1e-12 || (std::fabs(q - qr) <= 1e-12 && B[i] < B[r])) r = i;
      }
      if (r == -1) return 1;
      pivot(r, s);
    }
  }
  int solve(double &val) {
    int r = 0;
    for (int i = 1; i < m; i++) if (D[i][n + 1] < D[r][n + 1]) r = i;
    if (m > 0 && D[r][n + 1] < -EPS) {
      pivot(r, n);
      int k = run(1);
      if (k == 3) return 3;
      if (k != 0 || D[m + 1][n + 1] < -1e-6) return 2;
      for (int i = 0; i < m; i++) if (B[i] == -1) {
        int s = -1;
        for (int j = 0; j <= n; j++) if (s == -1 || std::fabs(D[i][j]) > std::fabs(D[i][s])) s = j;
        if (std::fabs(D[i][s]) > 1e-9) pivot(i, s);
      }
    }
    int k = run(2);
    if (k == 1) return 1; if (k == 3) return 3;
    val = D[m][n + 1]; return 0;
  }
};
