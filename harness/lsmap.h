// lsmap.h - life survey maps and the rules of the domain, written down a second time.
#ifndef LSMAP_H_
#define LSMAP_H_
#include "mc.h"
namespace mc {
struct Map {
  int h; vector<string> rows;          // rows[y], y = 0 is the bottom; cell k of row y has x = (y+1)/2+k
  int sx, sy;
  double base, look;
  vector<double> prior;
  double oa[3], op[3];
  bool hasTargets = false;
  std::set<std::pair<int, int>> targets;
  int layout = 0;
  int cell(int x, int y) const {
    if (y < 0 || y >= h) return -1;
    int k = x - (y + 1) / 2;
    if (k < 0 || k >= (int)rows[y].size() || rows[y][k] == ' ') return -1;
    return rows[y][k] - 'a';
  }
  int nreg() const { int m = 0; for (auto &r : rows) for (char c : r) if (c != ' ') m = std::max(m, c - 'a' + 1); return m; }
  bool atExit(int x, int y) const { for (int k = x + 1; k < x + 200; k++) if (cell(k, y) >= 0) return false; return true; }
  string text() const {
    string s;
    bool c = layout & 1;
    if (c) s += "# life survey map\n\n";
    s += fmt("startX %d\nstartY %d\n", sx, sy);
    s += fmt(layout & 2 ? "baseCost\t%.12g\n" : "baseCost %.12g\n", base);
    if (c) s += "# costs\n";
    s += fmt("lookaheadCost %.12g\n", look);
    auto vec = [&](const char *n, const double *v, int k) { s += n; for (int i = 0; i < k; i++) s += fmt(layout & 2 ? "  %.12g" : " %.12g", v[i]); if (layout & 4) s += " "; s += "\n"; };
    vec("regionPriors", &prior[0], prior.size());
    vec("obsDistributionLifeAbsent", oa, 3);
    vec("obsDistributionLifePresent", op, 3);
    s += layout & 1 ? "-\n" : "---\n";
    for (int y = h - 1; y >= 0; y--) {
      if (y & 1) s += " ";
      for (size_t k = 0; k < rows[y].size(); k++) { if (k) s += " "; s += rows[y][k]; }
      if (layout & 4) s += " ";
      if (y || !(layout & 8)) s += "\n";
    }
    return s;
  }
};
static int DX[3] = {1, 1, 0}, DY[3] = {1, 0, -1};      // NE E SE
struct St {
  bool term = false;
  int x, y, last, used, life[3];
  vector<int> lev;
  string key() const { if (term) return "T"; string s = fmt("%d,%d,%d,%d,%d%d%d,", x, y, last, used, life[0], life[1], life[2]); for (int l : lev) s += fmt("%d", l); return s; }
};
inline double gain(int lev) { static double g[] = {0, 5, 20, 50}; return g[lev]; }
inline double lifeProb(const Map &m, int x, int y) {
  int r = m.cell(x, y);
  if (r < 0) return 0;
  if (m.hasTargets) return m.targets.count({x, y}) ? 1 : 0;
  return m.prior[r];
}
inline void arrive(const Map &m, const St &base, const double *fixed, vector<std::pair<double, St>> &out) {
  double p[3];
  for (int d = 0; d < 3; d++) p[d] = fixed[d] >= 0 ? fixed[d] : lifeProb(m, base.x + DX[d], base.y + DY[d]);
  for (int i = 0; i < 8; i++) {
    St n = base;
    double q = 1;
    for (int d = 0; d < 3; d++) { n.life[d] = (i >> d) & 1; q *= n.life[d] ? p[d] : 1 - p[d]; }
    if (q > 0) out.push_back({q, n});
  }
}
inline void initial(const Map &m, vector<std::pair<double, St>> &out) {
  St s;
  s.x = m.sx; s.y = m.sy; s.last = 1; s.used = 0; s.lev.assign(m.nreg(), 0);
  s.lev[m.cell(m.sx, m.sy)] = 1;
  if (m.atExit(s.x, s.y)) { s.term = true; out.push_back({1, s}); return; }
  double f[3] = {-1, -1, -1};
  arrive(m, s, f, out);
}
inline bool illegal(const Map &m, const St &s, int a) {
  if (s.term) return false;
  if (a == 6) return s.used;
  int d = a % 3;
  if (m.cell(s.x + DX[d], s.y + DY[d]) < 0) return true;
  return (s.last == 0 && d == 2) || (s.last == 2 && d == 0);
}
inline double step(const Map &m, const St &s, int a, vector<std::pair<double, St>> &out) {
  out.clear();
  if (s.term) { out.push_back({1, s}); return 0; }
  if (illegal(m, s, a)) { out.push_back({1, s}); return -100; }
  if (a == 6) { St n = s; n.used = 1; out.push_back({1, n}); return -m.base * m.look; }
  int d = a % 3, sample = a / 3;
  St n = s;
  n.x += DX[d]; n.y += DY[d]; n.last = d; n.used = 0;
  int r = m.cell(n.x, n.y), lev = s.life[d] ? sample ? 3 : 2 : 1;
  double rew = std::max(0.0, gain(lev) - gain(s.lev[r])) - (sample ? 5 : 1) * m.base;
  n.lev[r] = std::max(lev, s.lev[r]);
  if (m.atExit(n.x, n.y)) { n.term = true; out.push_back({1, n}); return rew; }
  double f[3] = {-1, -1, -1};
  if (d == 0) f[2] = s.life[1];       // the old E cell is the new SE cell
  if (d == 2) f[0] = s.life[1];       // the old E cell is the new NE cell
  arrive(m, n, f, out);
  return rew;
}
inline bool canEnter(const Map &m, int x, int y, int r) {     // later, from here
  std::set<std::pair<int, int>> seen;
  vector<std::pair<int, int>> q = {{x, y}};
  while (q.size()) {
    auto c = q.back(); q.pop_back();
    for (int d = 0; d < 3; d++) {
      std::pair<int, int> n = {c.first + DX[d], c.second + DY[d]};
      int rr = m.cell(n.first, n.second);
      if (rr < 0 || !seen.insert(n).second) continue;
      if (rr == r) return true;
      q.push_back(n);
    }
  }
  return false;
}
inline void params(Map &m, int i) {
  static double bases[] = {1, 2.5, 0, 1}, looks[] = {5, 1, 0.3, 2};
  static double pr[][4] = {{.1, .5, .3, .7}, {0, 1, .5, .5}, {.5, 0, .2, 1}, {.25, .125, .9, .05}, {1, .4, 0, .3}, {1e-6, .5, .5, .1}, {0, 0, 0, 0}};
  static double ob[][6] = {{42, 7, 9, 2, 1, 19}, {1, 0, 0, 0, 0, 1}, {.2, .3, .5, .2, .3, .5}, {.7, .2, .1, .1, .2, .7}, {0, 1, 3, 1, 0, 2}};
  m.base = bases[i % 4]; m.look = looks[(i / 4 + i) % 4];
  m.prior.assign(pr[i % 7], pr[i % 7] + m.nreg());
  for (int k = 0; k < 3; k++) { m.oa[k] = ob[i % 5][k]; m.op[k] = ob[i % 5][3 + k]; }
  m.layout = i % 16;
}
inline string drawn(const Map &m) {
  string t;
  if (m.hasTargets) { t = "targets"; for (auto &p : m.targets) t += fmt(" (%d,%d)", p.first, p.second); t += "\n"; }
  return m.text() + t;
}
}
#endif
