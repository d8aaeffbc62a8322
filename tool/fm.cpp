// Fourier-Motzkin elimination with integer tightening over a small conjunction of linear inequalities.
// returns 1: infeasible, 0: not shown infeasible
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <vector>
#include <unordered_map>
typedef long long ll;
typedef __int128 i128;
struct Row { ll c; std::vector<ll> k; };
static const ll LIM = (ll)1 << 61;
static ll gcdll(ll a, ll b) { while (b) { ll t = a % b; a = b; b = t; } return a; }
static ll fdiv(ll a, ll b) { ll q = a / b; if ((a % b) && ((a < 0) != (b < 0))) --q; return q; }
struct H { size_t operator()(const std::vector<ll> &v) const { size_t h = 1469598103u; for (ll x : v) h = h * 1099511628211ull + (size_t)x; return h; } };
extern "C" int fm_infeasible(int n, int nv, const ll *consts, const int *start, const int *vars, const ll *coefs, int maxc)
{
    std::unordered_map<std::vector<ll>, ll, H> best;
    auto put = [&](std::unordered_map<std::vector<ll>, ll, H> &m, Row &r) -> int {
        ll g = 0; for (ll x : r.k) if (x) g = gcdll(g, x < 0 ? -x : x);
        if (g == 0) return r.c < 0 ? 1 : 0;
        if (g > 1) { for (ll &x : r.k) x /= g; r.c = fdiv(r.c, g); }
        auto it = m.find(r.k);
        if (it == m.end()) m.emplace(r.k, r.c); else if (r.c < it->second) it->second = r.c;
        return 0;
    };
    for (int i = 0; i < n; ++i) {
        Row r; r.c = consts[i]; r.k.assign(nv, 0);
        for (int j = start[i]; j < start[i + 1]; ++j) r.k[vars[j]] += coefs[j];
        if (put(best, r)) return 1;
    }
    std::vector<char> done(nv, 0);
    for (;;) {
        std::vector<int> P(nv, 0), N(nv, 0);
        for (auto &p : best) {
            for (int v = 0; v < nv; ++v) { if (p.first[v] > 0) ++P[v]; else if (p.first[v] < 0) ++N[v]; }
        }
        for (auto &p : best) {
            std::vector<ll> neg(p.first); for (ll &x : neg) x = -x;
            auto it = best.find(neg);
            if (it != best.end() && it->second + p.second < 0) return 1;
        }
        int bv = -1; ll bs = 0;
        for (int v = 0; v < nv; ++v) if (P[v] + N[v]) { ll s = (ll)P[v] * N[v] - P[v] - N[v]; if (bv < 0 || s < bs) { bv = v; bs = s; } }
        if (bv < 0) return 0;
        if ((ll)P[bv] * N[bv] + (ll)best.size() - P[bv] - N[bv] > maxc) return 0;
        std::unordered_map<std::vector<ll>, ll, H> nxt;
        std::vector<std::pair<const std::vector<ll>*, ll>> ps, ns;
        for (auto &p : best) {
            ll k = p.first[bv];
            if (k > 0) ps.push_back({&p.first, p.second}); else if (k < 0) ns.push_back({&p.first, p.second});
            else nxt.emplace(p.first, p.second);
        }
        for (auto &a : ps) for (auto &b : ns) {
            ll ka = (*a.first)[bv], kb = -(*b.first)[bv];
            ll g = gcdll(ka, kb); ll ma = kb / g, mb = ka / g;
            Row r; r.k.assign(nv, 0); bool ok = true; int nz = 0;
            i128 c = (i128)a.second * ma + (i128)b.second * mb;
            if (c > LIM * (i128)8 || c < -(i128)LIM * 8) {
                // keep the sign information only when hugely positive: drop; hugely negative stays out of range too
                ok = false;
            }
            for (int v = 0; ok && v < nv; ++v) {
                i128 x = (i128)(*a.first)[v] * ma + (i128)(*b.first)[v] * mb;
                if (x > LIM || x < -(i128)LIM) ok = false; else { r.k[v] = (ll)x; if (x) ++nz; }
            }
            if (!ok) continue;
            if (c > LIM * (i128)3 || c < -(i128)LIM * 3) continue;
            r.c = (ll)c;
            if (nz > 12) continue;
            if (put(nxt, r)) return 1;
        }
        best.swap(nxt);
        if (best.empty()) return 0;
        (void)done;
    }
}
