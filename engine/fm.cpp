// Fourier-Motzkin elimination with integer tightening on sparse rows
// sum c_i x_i + k >= 0.  Mirrors fm_eliminate in num.py; returns -2 when a
// number leaves the machine range (the caller then uses the Python version).
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <algorithm>

typedef __int128 i128;
typedef std::pair<int32_t, int64_t> Term;
typedef std::vector<Term> Terms;

struct Hash {
    size_t operator()(const Terms &t) const
    {
        uint64_t h = 1469598103934665603ULL;
        for (auto &x : t) {
            h = (h ^ (uint64_t)(uint32_t)x.first) * 1099511628211ULL;
            h = (h ^ (uint64_t)x.second) * 1099511628211ULL;
            h ^= h >> 29;
        }
        return (size_t)h;
    }
};

struct Set {
    // insertion ordered
    std::vector<Terms> rows;
    std::vector<i128> k;
    std::unordered_map<Terms, int, Hash> idx;
    void put(Terms &&t, i128 v)
    {
        auto it = idx.find(t);
        if (it != idx.end()) {
            if (v < k[it->second])
                k[it->second] = v;
            return;
        }
        idx.emplace(t, (int)rows.size());
        rows.push_back(std::move(t));
        k.push_back(v);
    }
};

static i128 fdiv(i128 a, i128 b)
{
    i128 q = a / b;
    if (a % b != 0 && a < 0)
        --q;
    return q;
}

static int64_t gcd64(int64_t a, int64_t b)
{
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        int64_t t = a % b;
        a = b;
        b = t;
    }
    return a;
}

static const i128 LIM = ((i128)1) << 100;

// eliminates every column that is not kept; 0, -1 (infeasible) or -2
static int fm(Set &cur, int ncols, const std::vector<uint8_t> &keep, int maxcons)
{
    std::vector<int64_t> np(ncols), nn(ncols);
    for (;;) {
        std::fill(np.begin(), np.end(), 0);
        std::fill(nn.begin(), nn.end(), 0);
        for (auto &t : cur.rows)
            for (auto &x : t)
                if (!keep[x.first])
                    (x.second > 0 ? np : nn)[x.first]++;
        int best = -1;
        int64_t bs = 0;
        for (int c = 0; c < ncols; ++c)
            if (np[c] || nn[c]) {
                int64_t s = np[c] * nn[c] - np[c] - nn[c];
                if (best < 0 || s < bs) {
                    best = c;
                    bs = s;
                }
            }
        if (best < 0)
            return 0;
        std::vector<int> pos, neg;
        std::vector<int64_t> cp, cn;
        Set rest;
        for (size_t i = 0; i < cur.rows.size(); ++i) {
            int64_t c = 0;
            for (auto &x : cur.rows[i])
                if (x.first == best) {
                    c = x.second;
                    break;
                }
            if (c > 0) {
                pos.push_back((int)i);
                cp.push_back(c);
            } else if (c < 0) {
                neg.push_back((int)i);
                cn.push_back(-c);
            } else {
                Terms t = cur.rows[i];
                rest.put(std::move(t), cur.k[i]);
            }
        }
        if ((int64_t)pos.size() * (int64_t)neg.size() > maxcons) {
            cur = std::move(rest);
            continue;
        }
        for (size_t p = 0; p < pos.size(); ++p)
            for (size_t q = 0; q < neg.size(); ++q) {
                int64_t g = gcd64(cp[p], cn[q]);
                int64_t a = cn[q] / g, b = cp[p] / g;
                const Terms &tp = cur.rows[pos[p]], &tn = cur.rows[neg[q]];
                Terms d;
                d.reserve(tp.size() + tn.size());
                size_t i = 0, j = 0;
                while (i < tp.size() || j < tn.size()) {
                    int32_t c;
                    i128 v;
                    if (j >= tn.size() || (i < tp.size() && tp[i].first < tn[j].first)) {
                        c = tp[i].first;
                        v = (i128)tp[i].second * a;
                        ++i;
                    } else if (i >= tp.size() || tn[j].first < tp[i].first) {
                        c = tn[j].first;
                        v = (i128)tn[j].second * b;
                        ++j;
                    } else {
                        c = tp[i].first;
                        v = (i128)tp[i].second * a + (i128)tn[j].second * b;
                        ++i;
                        ++j;
                    }
                    if (c == best || v == 0)
                        continue;
                    if (v > INT64_MAX / 4 || v < -(INT64_MAX / 4))
                        return -2;
                    d.push_back(Term(c, (int64_t)v));
                }
                i128 kp = cur.k[pos[p]], kn = cur.k[neg[q]];
                if (kp > LIM || kp < -LIM || kn > LIM || kn < -LIM || a > (1 << 24) || b > (1 << 24))
                    return -2;
                i128 k = kp * a + kn * b;
                if (d.empty()) {
                    if (k < 0)
                        return -1;
                    continue;
                }
                int64_t gg = 0;
                for (auto &x : d) {
                    gg = gcd64(gg, x.second);
                    if (gg == 1)
                        break;
                }
                if (gg > 1) {
                    for (auto &x : d)
                        x.second /= gg;
                    k = fdiv(k, gg);
                }
                rest.put(std::move(d), k);
            }
        if ((int)rest.rows.size() > maxcons) {
            std::vector<int> ord(rest.rows.size());
            std::vector<i128> w(rest.rows.size());
            for (size_t i = 0; i < ord.size(); ++i) {
                ord[i] = (int)i;
                for (auto &x : rest.rows[i])
                    w[i] += x.second < 0 ? -x.second : x.second;
            }
            std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) {
                if (rest.rows[x].size() != rest.rows[y].size())
                    return rest.rows[x].size() < rest.rows[y].size();
                return w[x] < w[y];
            });
            Set cut;
            for (int i = 0; i < maxcons; ++i)
                cut.put(std::move(rest.rows[ord[i]]), rest.k[ord[i]]);
            rest = std::move(cut);
        }
        for (size_t i = 0; i < rest.rows.size(); ++i) {
            if (rest.rows[i].empty() || rest.rows[i][0].second < 0)
                continue;
            Terms n = rest.rows[i];
            for (auto &x : n)
                x.second = -x.second;
            auto it = rest.idx.find(n);
            if (it != rest.idx.end() && rest.k[i] + rest.k[it->second] < 0)
                return -1;
        }
        cur = std::move(rest);
    }
}

static i128 wide(int64_t lo, int64_t hi)
{
    return (i128)(((unsigned __int128)(uint64_t)hi << 64) | (uint64_t)lo);
}

struct St {
    std::vector<Terms> rows;
    std::vector<i128> k;
    // columns are the sorted symbols
    std::vector<int32_t> syms;
    std::vector<std::vector<int>> occ;
    int at(int32_t s) const
    {
        auto it = std::lower_bound(syms.begin(), syms.end(), s);
        return it != syms.end() && *it == s ? (int)(it - syms.begin()) : -1;
    }
    // marks the rows connected to the columns of t
    void component(const std::vector<int> &from, std::vector<uint8_t> &in, int without) const
    {
        std::vector<uint8_t> seen(syms.size());
        std::vector<int> todo(from);
        while (!todo.empty()) {
            int c = todo.back();
            todo.pop_back();
            if (seen[c])
                continue;
            seen[c] = 1;
            for (int r : occ[c])
                if (!in[r] && r != without) {
                    in[r] = 1;
                    for (auto &x : rows[r])
                        if (!seen[x.first])
                            todo.push_back(x.first);
                }
        }
    }
    // satisfiability of the connected rows and an extra one
    int sat(const Terms *t, i128 kk, const std::vector<uint8_t> *alive, int without, int ncols, int maxcons) const
    {
        Set cur;
        std::vector<uint8_t> in(rows.size());
        if (t) {
            std::vector<int> from;
            for (auto &x : *t)
                if (x.first < (int)syms.size())
                    from.push_back(x.first);
            if (alive)
                for (size_t i = 0; i < rows.size(); ++i)
                    if (!(*alive)[i])
                        in[i] = 2;
            component(from, in, without);
        } else
            std::fill(in.begin(), in.end(), 1);
        for (size_t i = 0; i < rows.size(); ++i)
            if (in[i] == 1) {
                Terms c = rows[i];
                cur.put(std::move(c), k[i]);
            }
        if (t) {
            Terms c = *t;
            cur.put(std::move(c), kk);
        }
        std::vector<uint8_t> keep(ncols);
        int r = fm(cur, ncols, keep, maxcons);
        return r == 0 ? 1 : r == -1 ? 0 : -2;
    }
};

extern "C" void *fm_store(int nrows, const int32_t *start, const int32_t *col, const int64_t *coef, const int64_t *klo,
                          const int64_t *khi)
{
    St *s = new St;
    for (int j = 0; j < start[nrows]; ++j)
        s->syms.push_back(col[j]);
    std::sort(s->syms.begin(), s->syms.end());
    s->syms.erase(std::unique(s->syms.begin(), s->syms.end()), s->syms.end());
    s->occ.resize(s->syms.size());
    for (int i = 0; i < nrows; ++i) {
        Terms t;
        for (int j = start[i]; j < start[i + 1]; ++j) {
            int c = s->at(col[j]);
            t.push_back(Term(c, coef[j]));
            s->occ[c].push_back(i);
        }
        s->rows.push_back(std::move(t));
        s->k.push_back(wide(klo[i], khi[i]));
    }
    return s;
}

extern "C" void fm_drop(void *p)
{
    delete (St *)p;
}

// symbols of a row as columns; unknown ones get new columns behind the known
static int columns(const St *s, int nt, const int32_t *col, const int64_t *coef, Terms &t)
{
    int n = (int)s->syms.size();
    for (int i = 0; i < nt; ++i) {
        int c = s->at(col[i]);
        t.push_back(Term(c < 0 ? n++ : c, coef[i]));
    }
    std::sort(t.begin(), t.end());
    return n;
}

extern "C" int fm_check(void *p, int nt, const int32_t *col, const int64_t *coef, int64_t klo, int64_t khi, int maxcons)
{
    St *s = (St *)p;
    if (nt == 0)
        return s->sat(nullptr, 0, nullptr, -1, (int)s->syms.size(), maxcons);
    Terms t;
    int n = columns(s, nt, col, coef, t);
    return s->sat(&t, wide(klo, khi), nullptr, -1, n, maxcons);
}

extern "C" int fm_lower(void *p, int nt, const int32_t *col, const int64_t *coef, int64_t klo, int64_t khi, int maxcons,
                        int64_t *olo, int64_t *ohi)
{
    St *s = (St *)p;
    Terms t;
    int n = columns(s, nt, col, coef, t);
    i128 k = wide(klo, khi);
    int z = n++;
    Set cur;
    std::vector<uint8_t> in(s->rows.size());
    std::vector<int> from;
    for (auto &x : t)
        if (x.first < (int)s->syms.size())
            from.push_back(x.first);
    s->component(from, in, -1);
    for (size_t i = 0; i < s->rows.size(); ++i)
        if (in[i]) {
            Terms c = s->rows[i];
            cur.put(std::move(c), s->k[i]);
        }
    Terms a = t, b = t;
    for (auto &x : b)
        x.second = -x.second;
    a.push_back(Term(z, -1));
    b.push_back(Term(z, 1));
    cur.put(std::move(a), k);
    cur.put(std::move(b), -k);
    std::vector<uint8_t> keep(n);
    keep[z] = 1;
    int r = fm(cur, n, keep, maxcons);
    if (r)
        return r;
    Terms want(1, Term(z, 1));
    auto it = cur.idx.find(want);
    if (it == cur.idx.end())
        return 0;
    i128 v = -cur.k[it->second];
    *olo = (int64_t)(uint64_t)v;
    *ohi = (int64_t)(v >> 64);
    return 1;
}

// drops, in the given order, every row that follows from the others
extern "C" int fm_reduce(void *p, const int32_t *order, uint8_t *alive, int maxcons)
{
    St *s = (St *)p;
    std::vector<uint8_t> live(s->rows.size(), 1);
    for (size_t o = 0; o < s->rows.size(); ++o) {
        int i = order[o];
        Terms t = s->rows[i];
        for (auto &x : t)
            x.second = -x.second;
        int r = s->sat(&t, -s->k[i] - 1, &live, i, (int)s->syms.size(), maxcons);
        if (r == -2)
            return -2;
        if (r == 0)
            live[i] = 0;
    }
    for (size_t i = 0; i < live.size(); ++i)
        alive[i] = live[i];
    return 0;
}

extern "C" int fm_project(void *p, int nkeep, const int32_t *keepsyms, int maxcons, int32_t *ostart, int32_t *ocol,
                          int64_t *ocoef, int64_t *oklo, int64_t *okhi, int ocap_rows, int ocap_terms)
{
    St *s = (St *)p;
    Set cur;
    for (size_t i = 0; i < s->rows.size(); ++i) {
        Terms c = s->rows[i];
        cur.put(std::move(c), s->k[i]);
    }
    std::vector<uint8_t> keep(s->syms.size());
    for (int i = 0; i < nkeep; ++i) {
        int c = s->at(keepsyms[i]);
        if (c >= 0)
            keep[c] = 1;
    }
    int r = fm(cur, (int)s->syms.size(), keep, maxcons);
    if (r)
        return r;
    int nt = 0;
    for (auto &t : cur.rows)
        nt += (int)t.size();
    if ((int)cur.rows.size() > ocap_rows || nt > ocap_terms)
        return -2;
    int o = 0;
    for (size_t i = 0; i < cur.rows.size(); ++i) {
        ostart[i] = o;
        for (auto &x : cur.rows[i]) {
            ocol[o] = s->syms[x.first];
            ocoef[o++] = x.second;
        }
        oklo[i] = (int64_t)(uint64_t)cur.k[i];
        okhi[i] = (int64_t)(cur.k[i] >> 64);
    }
    ostart[cur.rows.size()] = o;
    return (int)cur.rows.size();
}
