// policyfile.h - an independent reader of policy files written by zmdp.
#pragma once
#include "mc.h"
#include <fstream>
#include <sstream>
#include <map>
namespace mc {
struct FilePlane { int action; std::map<int, double> e; };
// independent reader of the documented layout
static bool readPolicyFile(const string &fn, vector<FilePlane> &out, string &why) {
  std::ifstream in(fn);
  string l, all;
  while (std::getline(in, l)) { size_t p = l.find_first_not_of(" \t"); if (p == string::npos || l[p] == '#') continue; all += l.substr(p) + "\n"; }
  if (all.find("policyType => \"MaxPlanesLowerBound\"") == string::npos) { why = "no policyType"; return false; }
  int np = -1;
  size_t q = all.find("numPlanes => ");
  if (q == string::npos || sscanf(all.c_str() + q, "numPlanes => %d", &np) != 1) { why = "no numPlanes"; return false; }
  q = 0;
  size_t endp = 0;
  while ((q = all.find("action => ", q)) != string::npos) {
    FilePlane p;
    int ne = -1;
    if (sscanf(all.c_str() + q, "action => %d", &p.action) != 1) { why = "action"; return false; }
    size_t r = all.find("numEntries => ", q);
    if (r == string::npos || sscanf(all.c_str() + r, "numEntries => %d", &ne) != 1) { why = "numEntries"; return false; }
    r = all.find("entries => [", r);
    size_t e = all.find("]", r);
    if (r == string::npos || e == string::npos) { why = "entries"; return false; }
    string body = all.substr(r + 12, e - r - 12);
    for (char &c : body) if (c == ',') c = ' ';
    std::istringstream ss(body);
    int i, n = 0, last = -1; double v;
    while (ss >> i >> v) { if (i <= last) { why = "entries out of order"; return false; } last = i; p.e[i] = v; n++; }
    if (!ss.eof() || n != ne) { why = fmt("numEntries says %d, %d entries found", ne, n); return false; }
    out.push_back(p);
    q = endp = e;
  }
  string rest;
  for (char c : all.substr(endp)) if (!isspace((unsigned char)c)) rest += c;
  if (np > 0 && rest != "]}]}") { why = "the file does not end as it should: '" + rest + "'"; return false; }
  if ((int)out.size() != np) { why = fmt("numPlanes says %d, %zu planes found", np, out.size()); return false; }
  return true;
}
static bool applicable(const FilePlane &p, const Vec &b) { for (size_t i = 0; i < b.size(); i++) if (b[i] != 0 && !p.e.count(i)) return false; return true; }
static double planeVal(const FilePlane &p, const Vec &b) { double s = 0; for (auto &q : p.e) s += q.second * b[q.first]; return s; }
static double fileVal(const vector<FilePlane> &f, const Vec &b) { double m = -1e300; for (auto &p : f) if (applicable(p, b)) m = std::max(m, planeVal(p, b)); return m; }

}  // namespace mc
