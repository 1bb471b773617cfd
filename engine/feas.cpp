// Fourier-Motzkin feasibility of integer linear inequalities (same procedure as num._feas): compiled and loaded by num.py
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <cstdint>
#include <cstring>
using std::vector;
typedef int64_t I;
struct Row { vector<std::pair<int, I>> t; I c; };
struct H { size_t operator()(const vector<std::pair<int, I>> &v) const { size_t h = 1469598103934665603ull; for (auto &p : v) { h = (h ^ (size_t) p.first) * 1099511628211ull; h = (h ^ (size_t) p.second) * 1099511628211ull; } return h; } };
typedef std::unordered_map<vector<std::pair<int, I>>, I, H> M;
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I x = a % b; a = b; b = x; } return a; }
static I fdiv(I a, I b) { I q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
static const I BIG = (I) 1 << 52;
// 1: tautology, 0: false, 2: keep
static int tighten(Row &r) {
    if (r.t.empty()) return r.c >= 0;
    I g = 0; for (auto &p : r.t) { g = gcd(g, p.second); if (g == 1) return 2; }
    if (g > 1) { r.c = fdiv(r.c, g); for (auto &p : r.t) p.second /= g; }
    return 2;
}
static bool put(M &m, Row &r) { int k = tighten(r); if (k == 1) return true; if (k == 0) return false; auto it = m.find(r.t); if (it == m.end()) m.emplace(std::move(r.t), r.c); else if (r.c < it->second) it->second = r.c; return true; }
// n rows of constraints, of which only those connected to the extra rows matter, and m extra rows
static int run(int n, const I *d);
extern "C" int feas2(int n, const I *d, int m, const I *x) {
    vector<const I *> row(n); const I *p = d; for (int i = 0; i < n; i++) { row[i] = p; p += 2 + 2 * p[0]; }
    static std::unordered_map<I, char> in; in.clear();
    vector<I> all; p = x; for (int i = 0; i < m; i++) { for (I j = 0; j < p[0]; j++) in[p[2 + 2 * j]] = 1; p += 2 + 2 * p[0]; }
    all.insert(all.end(), x, p); int cnt = m;
    vector<char> used(n); bool ch = true;
    while (ch) {
        ch = false;
        for (int i = 0; i < n; i++) if (!used[i]) {
            const I *r = row[i]; bool hit = false;
            for (I j = 0; j < r[0] && !hit; j++) hit = in.count(r[2 + 2 * j]);
            if (!hit) continue;
            used[i] = 1; ch = true; cnt++; for (I j = 0; j < r[0]; j++) in[r[2 + 2 * j]] = 1;
            all.insert(all.end(), r, r + 2 + 2 * r[0]);
        }
    }
    return run(cnt, all.data());
}
extern "C" int feas(int n, const I *d) { return run(n, d); }
static int run(int n, const I *d) {
    M best; std::map<I, int> id;
    for (int i = 0; i < n; i++) {
        Row r; I k = *d++; r.c = *d++;
        for (I j = 0; j < k; j++) { I s = *d++, v = *d++; auto it = id.emplace(s, (int) id.size()).first; r.t.push_back({it->second, v}); }
        std::sort(r.t.begin(), r.t.end());
        if (!put(best, r)) return 0;
    }
    int nv = (int) id.size();
    vector<int> pos(nv), neg(nv); vector<char> drop(nv);
    while (!best.empty()) {
        if (best.size() > 600) return 1;
        std::fill(pos.begin(), pos.end(), 0); std::fill(neg.begin(), neg.end(), 0);
        vector<std::pair<int, I>> ng;
        for (auto &e : best) {
            ng = e.first; for (auto &p : ng) p.second = -p.second;
            auto it = best.find(ng); if (it != best.end() && e.second + it->second < 0) return 0;
            for (auto &p : e.first) (p.second > 0 ? pos : neg)[p.first]++;
        }
        bool any = false;
        for (int k = 0; k < nv; k++) { drop[k] = (pos[k] + neg[k]) && (!pos[k] || !neg[k]); any |= drop[k]; }
        if (any) {
            for (auto it = best.begin(); it != best.end(); ) { bool x = false; for (auto &p : it->first) if (drop[p.first]) { x = true; break; } if (x) it = best.erase(it); else ++it; }
            continue;
        }
        int k = -1; long b = 0;
        for (int j = 0; j < nv; j++) if (pos[j]) { long q = (long) pos[j] * neg[j]; if (k < 0 || q < b) { k = j; b = q; } }
        vector<std::pair<I, Row>> lo, hi; M rest;
        for (auto &e : best) {
            I q = 0; for (auto &p : e.first) if (p.first == k) { q = p.second; break; }
            if (q > 0) lo.push_back({q, Row{e.first, e.second}}); else if (q < 0) hi.push_back({-q, Row{e.first, e.second}}); else rest.emplace(e.first, e.second);
        }
        for (auto &x : lo) for (auto &y : hi) {
            I g = gcd(x.first, y.first), m1 = y.first / g, m2 = x.first / g; Row r; r.c = x.second.c * m1 + y.second.c * m2;
            auto &a = x.second.t, &c = y.second.t; size_t i = 0, j = 0;
            while (i < a.size() || j < c.size()) {
                if (j == c.size() || (i < a.size() && a[i].first < c[j].first)) { if (a[i].first != k) r.t.push_back({a[i].first, a[i].second * m1}); i++; }
                else if (i == a.size() || c[j].first < a[i].first) { if (c[j].first != k) r.t.push_back({c[j].first, c[j].second * m2}); j++; }
                else { I v = a[i].second * m1 + c[j].second * m2; if (v && a[i].first != k) r.t.push_back({a[i].first, v}); i++; j++; }
            }
            if (r.c > BIG || r.c < -BIG) return 1;
            for (auto &p : r.t) if (p.second > BIG || p.second < -BIG) return 1;
            if (!put(rest, r)) return 0;
        }
        best.swap(rest);
    }
    return 1;
}
