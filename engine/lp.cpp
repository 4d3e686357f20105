// Exact linear feasibility (general simplex over rationals).
// lp_infeasible: are the constraints  sum a_j x_j + c >= 0  unsatisfiable over the rationals?
#include <gmpxx.h>
#include <vector>
#include <map>
#include <set>
#include <cstdlib>
#include <cstring>
#include <string>
typedef mpq_class Q;
struct S {
  int n = 0;                       // all variables (structural + slack)
  std::vector<bool> hasLo, hasHi; std::vector<Q> lo, hi, val;
  std::vector<int> rowOf;          // row index if basic else -1
  std::vector<std::map<int, Q>> rows; std::vector<int> basic;
  std::vector<std::set<int>> colRows;
  int add() { hasLo.push_back(false); hasHi.push_back(false); lo.emplace_back(); hi.emplace_back(); val.emplace_back(); rowOf.push_back(-1); colRows.emplace_back(); return n++; }
  void update(int x, const Q& v) { Q d = v - val[x]; if (d == 0) return; for (int r : colRows[x]) val[basic[r]] += rows[r][x] * d; val[x] = v; }
  void pivot(int r, int xj) {
    int xi = basic[r]; std::map<int, Q> row; row.swap(rows[r]);
    for (auto& p : row) colRows[p.first].erase(r);
    Q a = row[xj]; row.erase(xj); Q inv = 1 / a;
    std::map<int, Q> nr; nr[xi] = inv;
    for (auto& p : row) { Q c = -p.second * inv; nr[p.first] = c; }
    std::vector<int> others(colRows[xj].begin(), colRows[xj].end());
    for (int o : others) {
      auto& R = rows[o]; Q k = R[xj]; R.erase(xj); colRows[xj].erase(o);
      for (auto& p : nr) {
        auto it = R.find(p.first);
        if (it == R.end()) { R.emplace(p.first, k * p.second); colRows[p.first].insert(o); }
        else { it->second += k * p.second; if (it->second == 0) { R.erase(it); colRows[p.first].erase(o); } }
      }
    }
    for (auto& p : nr) colRows[p.first].insert(r);
    rows[r].swap(nr); basic[r] = xj; rowOf[xj] = r; rowOf[xi] = -1;
  }
  // 1 infeasible, 0 feasible, -1 gave up
  int check(int limit) {
    for (int it = 0; it < limit; it++) {
      int bi = -1; bool low = false;
      for (int v = 0; v < n; v++) if (rowOf[v] >= 0) {
        if (hasLo[v] && val[v] < lo[v]) { bi = v; low = true; break; }
        if (hasHi[v] && val[v] > hi[v]) { bi = v; low = false; break; }
      }
      if (bi < 0) return 0;
      int r = rowOf[bi]; int xj = -1;
      for (auto& p : rows[r]) {
        int x = p.first; bool pos = p.second > 0;
        bool inc = low ? pos : !pos;   // must x increase?
        if (inc ? (!hasHi[x] || val[x] < hi[x]) : (!hasLo[x] || val[x] > lo[x])) { xj = x; break; }
      }
      if (xj < 0) return 1;
      Q target = low ? lo[bi] : hi[bi];
      Q a = rows[r][xj]; Q th = (target - val[bi]) / a;
      Q nv = val[xj] + th;
      update(xj, nv);
      pivot(r, xj);
    }
    return -1;
  }
};
extern "C" int lp_infeasible(int nv, int nc, const int* ptr, const int* col, const char* coefs, int limit) {
  // coefs: for each constraint its coefficients then its constant, separated by single spaces
  S s; for (int i = 0; i < nv; i++) s.add();
  const char* p = coefs; std::string tok;
  auto next = [&](Q& q) { const char* e = strchr(p, ' '); size_t len = e ? size_t(e - p) : strlen(p); tok.assign(p, len); q = Q(tok); q.canonicalize(); p = e ? e + 1 : p + len; };
  for (int i = 0; i < nc; i++) {
    int k = ptr[i + 1] - ptr[i]; std::vector<Q> a(k); for (auto& x : a) next(x); Q c; next(c);
    if (k == 0) { if (c < 0) return 1; continue; }
    if (k == 1) {
      int v = col[ptr[i]]; Q b = -c / a[0];
      if (a[0] > 0) { if (!s.hasLo[v] || b > s.lo[v]) { s.hasLo[v] = true; s.lo[v] = b; } }
      else { if (!s.hasHi[v] || b < s.hi[v]) { s.hasHi[v] = true; s.hi[v] = b; } }
      if (s.hasLo[v] && s.hasHi[v] && s.lo[v] > s.hi[v]) return 1;
      continue;
    }
    int sv = s.add(); s.rows.emplace_back(); int r = s.rows.size() - 1; s.basic.push_back(sv); s.rowOf[sv] = r;
    for (int j = 0; j < k; j++) { int v = col[ptr[i] + j]; s.rows[r][v] = a[j]; s.colRows[v].insert(r); }
    s.hasLo[sv] = true; s.lo[sv] = -c;
  }
  for (int v = 0; v < nv; v++) {
    if (s.hasLo[v] && s.val[v] < s.lo[v]) s.update(v, s.lo[v]);
    if (s.hasHi[v] && s.val[v] > s.hi[v]) s.update(v, s.hi[v]);
  }
  return s.check(limit);
}
