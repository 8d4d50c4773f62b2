#include "harness.h"
#include <cstdarg>
#include <cstdlib>

namespace sim {

std::vector<OpInfo>& op_registry()
{
    static std::vector<OpInfo> v;
    return v;
}

// ---------------------------------------------------------------- parameters
// Records a drawn parameter (once) in the shared result.
static void note_param(const char* name, double v, double lo)
{
    static std::map<std::string, int> seen;
    if (seen[name]++) return;
    size_t k = strlen(R->params);
    if (k + 160 < sizeof R->params) snprintf(R->params + k, sizeof R->params - k, "%s=%.17g:%.17g;", name, v, lo);
}
Rng Params::rng(const char* name) const
{
    const std::string own = prefix + name;
    if (!kin.empty() && Rng(hash64(seed, hash_str(("kin." + own).c_str()))).chance(kin_p)) return Rng(hash64(seed, hash_str((kin + name).c_str())));
    return Rng(hash64(seed, hash_str(own.c_str())));
}
double Params::raw(const char* name, double lo, double v)
{
    std::string full = prefix + name;
    if (over)
    {
        auto it = over->find(full);
        if (it != over->end()) v = it->second;
    }
    note_param(full.c_str(), v, lo);
    return v;
}
long Params::i(const char* name, long lo, long hi)
{
    return (long) raw(name, (double) lo, (double) rng(name).range(lo, hi));
}
long Params::size(const char* name, long lo, long hi)
{
    Rng r = rng(name);
    long v = r.range(lo, hi);
    if (r.chance(small ? 0.5 : 0.25)) v = r.range(lo, lo + 3 < hi ? lo + 3 : hi);
    return (long) raw(name, (double) lo, (double) v);
}
double Params::d(const char* name, double lo, double hi)
{
    return raw(name, lo, rng(name).uni(lo, hi));
}
bool Params::b(const char* name, double p)
{
    return raw(name, 0, rng(name).chance(p) ? 1 : 0) != 0;
}
long Params::pick(const char* name, std::initializer_list<long> v)
{
    std::vector<long> a(v);
    long k = (long) raw(name, 0, (double) rng(name).below(a.size()));
    if (k < 0) k = 0;
    if (k >= (long) a.size()) k = (long) a.size() - 1;
    return a[k];
}

// ---------------------------------------------------------------- arrays
static size_t type_size(sdp_MemType t)
{
    switch (t)
    {
    case SDP_MEM_CHAR: return 1;
    case SDP_MEM_INT: return 4;
    case SDP_MEM_FLOAT: return 4;
    case SDP_MEM_DOUBLE: return 8;
    case SDP_MEM_COMPLEX_FLOAT: return 8;
    case SDP_MEM_COMPLEX_DOUBLE: return 16;
    default: return 0;
    }
}
cd Arr::get_at(const char* base, int64_t e) const
{
    const char* p = base + off(e);
    switch (type)
    {
    case SDP_MEM_CHAR: return cd(*(const signed char*) p, 0);
    case SDP_MEM_INT: { int32_t v; memcpy(&v, p, 4); return cd(v, 0); }
    case SDP_MEM_FLOAT: { float v; memcpy(&v, p, 4); return cd(v, 0); }
    case SDP_MEM_DOUBLE: { double v; memcpy(&v, p, 8); return cd(v, 0); }
    case SDP_MEM_COMPLEX_FLOAT: { float v[2]; memcpy(v, p, 8); return cd(v[0], v[1]); }
    case SDP_MEM_COMPLEX_DOUBLE: { double v[2]; memcpy(v, p, 16); return cd(v[0], v[1]); }
    default: return cd();
    }
}
void Arr::set(int64_t e, cd v)
{
    if (shared) return;
    char* p = data + off(e);
    switch (type)
    {
    case SDP_MEM_CHAR: *p = (char) v.real(); break;
    case SDP_MEM_INT: { int32_t x = (int32_t) v.real(); memcpy(p, &x, 4); break; }
    case SDP_MEM_FLOAT: { float x = (float) v.real(); memcpy(p, &x, 4); break; }
    case SDP_MEM_DOUBLE: { double x = v.real(); memcpy(p, &x, 8); break; }
    case SDP_MEM_COMPLEX_FLOAT: { float x[2] = {(float) v.real(), (float) v.imag()}; memcpy(p, x, 8); break; }
    case SDP_MEM_COMPLEX_DOUBLE: { double x[2] = {v.real(), v.imag()}; memcpy(p, x, 16); break; }
    default: break;
    }
}

// Strides and storage for an array of known shape and type.
static void place(Arr* a, int kind, Rng& r)
{
    const std::vector<int64_t>& shape = a->shape;
    a->stride.assign(shape.size(), 0);
    std::vector<int> order;
    for (int d = (int) shape.size() - 1; d >= 0; --d) order.push_back(d); // fastest first
    if (kind == 2) for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
    size_t s = a->esize;
    if (kind == 3) s *= 2;
    for (size_t k = 0; k < order.size(); ++k)
    {
        a->stride[order[k]] = (int64_t) s;
        s *= (size_t) (shape[order[k]] > 0 ? shape[order[k]] : 1);
        if (kind == 1 && k == 0) s += a->esize * (size_t) r.range(1, 3);
    }
    // Exactly up to the end of the last element.
    size_t bytes = a->esize;
    bool empty = false;
    for (size_t d = 0; d < shape.size(); ++d)
    {
        if (shape[d] == 0) empty = true;
        else bytes += (size_t) (shape[d] - 1) * (size_t) a->stride[d];
    }
    if (empty) bytes = 0;
    a->bytes = bytes;
    a->data = (char*) arena_alloc(bytes ? bytes : 1, a->name.c_str());
    arena_mark_external(a->data);
    // Unused gaps hold a recognisable pattern (NaNs for floating point types).
    if (kind) memset(a->data, 0xff, bytes);
}
void Op::relayout(Arr* a, int kind)
{
    Rng r = P.rng("relayout");
    std::vector<int64_t> old = a->stride;
    char* from = a->data;
    std::vector<size_t> at;
    for (int64_t e = 0; e < a->n(); ++e) at.push_back(a->off(e));
    place(a, kind, r);
    for (int64_t e = 0; e < a->n(); ++e) memcpy(a->data + a->off(e), from + at[(size_t) e], a->esize);
}
void Op::misfit(Arr* a, int kind, Rng& r)
{
    Arr* x = new Arr;
    a->alt.reset(x);
    x->name = a->name + "'";
    x->type = a->type; x->shape = a->shape; x->input = a->input;
    size_t d = x->shape.empty() ? 0 : (size_t) r.below(x->shape.size());
    if (kind == 3)
    {
        if (x->shape.size() > 1 && r.chance(0.5)) { x->shape[d ? d - 1 : 0] *= x->shape[d ? d : 1]; x->shape.erase(x->shape.begin() + (long) (d ? d : 1)); }
        else if (x->shape.size() > 1 && r.chance(0.5)) x->shape.erase(x->shape.begin() + (long) d);
        else x->shape.insert(x->shape.begin() + (long) d, r.range(1, 2));
    }
    else if (kind == 2)
    {
        static const sdp_MemType T[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        x->type = T[r.below(6)];
    }
    else if (!x->shape.empty())
    {
        int64_t n = x->shape[d];
        if (kind == 0) n = r.chance(0.6) ? n - 1 : r.range(1, n);
        else n += r.chance(0.6) ? 1 : r.range(1, n + 1);
        x->shape[d] = n < 1 ? 1 : n;
    }
    x->esize = type_size(x->type);
    place(x, 0, r);
    for (int64_t e = 0; e < x->n(); ++e) x->set(e, a->n() ? a->get(e % a->n()) : cd(1));
}

Arr* Op::arr(const char* nm, sdp_MemType t, std::vector<int64_t> shape, bool input, int layout)
{
    if (twin && input && twin->share == share)
    {
        for (auto* a : twin->arrs)
        {
            if (a->name == nm && a->input && a->type == t && a->shape == shape)
            {
                a->shared = true;
                arrs.push_back(a);
                return a;
            }
        }
    }
    std::unique_ptr<Arr> a(new Arr);
    a->name = nm;
    a->type = t;
    a->shape = shape;
    a->esize = type_size(t);
    a->input = input;
    Rng r = P.rng((std::string("layout.") + nm).c_str());
    int kind = 0; // 0 C order, 1 padded rows, 2 permuted axes, 3 gaps between elements
    if (layout == LAYOUT_ANY && shape.size() > 0)
    {
        int pick = r.chance(0.5) ? 0 : (int) r.range(1, 3);
        kind = (int) P.raw((std::string("layout.") + nm).c_str(), 0, pick);
    }
    place(a.get(), kind, r);
    Arr* p = a.get();
    own.push_back(std::move(a));
    arrs.push_back(p);
    return p;
}
void Op::fill(Arr* a, double lo, double hi)
{
    if (a->shared) return;
    Rng r = P.rng((std::string("fill.") + a->name).c_str());
    bool c = (a->type & SDP_MEM_COMPLEX) != 0;
    for (int64_t e = 0, n = a->n(); e < n; ++e)
    {
        double x = r.uni(lo, hi), y = c ? r.uni(lo, hi) : 0;
        a->set(e, cd(x, y));
    }
    // Exact zeros: scattered, all along one hyperplane, or in the imaginary part.
    if (!(lo <= 0 && hi >= 0) || a->n() == 0) return;
    int mode = (int) P.i((std::string("zeros.") + a->name).c_str(), 0, 8);
    if (mode == 0 || mode > 3) return;
    int ax = a->shape.empty() ? 0 : (int) r.below(a->shape.size());
    int64_t at = a->shape.empty() ? 0 : (int64_t) r.below((uint64_t) a->shape[ax]), inner = 1;
    for (size_t d = (size_t) ax + 1; d < a->shape.size(); ++d) inner *= a->shape[d];
    for (int64_t e = 0, n = a->n(); e < n; ++e)
    {
        cd v = a->get(e);
        if (mode == 1) { if (r.chance(0.25)) v.real(0); if (r.chance(0.25)) v.imag(0); }
        else if (mode == 2) { if (a->shape.empty() || e / inner % a->shape[ax] == at) v = 0; }
        else v.imag(0);
        a->set(e, v);
    }
}
void Op::fill_int(Arr* a, long lo, long hi)
{
    if (a->shared) return;
    Rng r = P.rng((std::string("fill.") + a->name).c_str());
    for (int64_t e = 0, n = a->n(); e < n; ++e) a->set(e, cd((double) r.range(lo, hi), 0));
}
void Op::zero(Arr* a)
{
    for (int64_t e = 0, n = a->n(); e < n; ++e) a->set(e, cd());
}
bool Op::fail(const char* fmt, ...)
{
    char b[700];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (why.empty()) why = b;
    return false;
}
bool Op::close(Arr* a, int64_t e, cd want, double tol, const char* what)
{
    cd got = a->get(e);
    double err = std::abs(got - want);
    if (err <= tol) return true; // false for NaN
    // indexes
    std::string ix;
    int64_t k = e;
    for (int d = (int) a->shape.size() - 1; d >= 0; --d)
    {
        ix = std::to_string(k % a->shape[d]) + (ix.empty() ? "" : "," + ix);
        k /= a->shape[d];
    }
    return fail("%s: %s[%s] is (%.9g, %.9g), expected (%.9g, %.9g), error %.3g > %.3g",
            what, a->name.c_str(), ix.c_str(), got.real(), got.imag(), want.real(), want.imag(), err, tol);
}
void Op::make_handles()
{
    for (auto& a : own)
    {
        sdp_Error e = SDP_SUCCESS;
        Arr* p = a.get();
        Arr* w = p->alt ? p->alt.get() : p;
        std::vector<int64_t> sh = w->shape, sr = w->stride;
        lib_call([&] {
            p->mem = sdp_mem_create_wrapper(w->data, w->type, SDP_MEM_CPU, (int32_t) sh.size(),
                    sh.data(), sr.data(), &e);
        }, "sdp_mem_create_wrapper");
        if (e != SDP_SUCCESS || !p->mem)
            fatal_violation("setup", "wrapper", "cannot wrap array %s", p->name.c_str());
    }
}
void Op::free_handles()
{
    for (auto& a : own)
    {
        Arr* p = a.get();
        if (p->mem) lib_call([&] { sdp_mem_free(p->mem); }, "sdp_mem_free");
        p->mem = nullptr;
    }
}
bool Op::check_untouched()
{
    for (auto* a : arrs)
    {
        if (a->bytes == 0) continue;
        if (a->input)
        {
            if (memcmp(a->data, a->snap.data(), a->bytes))
            {
                int64_t n = a->n(), e;
                for (e = 0; e < n; ++e) if (memcmp(a->data + a->off(e), a->snap.data() + a->off(e), a->esize)) break;
                return fail("input array %s modified (element %ld)", a->name.c_str(), (long) e);
            }
            continue;
        }
        std::vector<char> cov(a->bytes, 0);
        int64_t n = a->n();
        for (int64_t e = 0; e < n; ++e)
        {
            size_t o = a->off(e);
            memset(&cov[o], 1, a->esize);
            if (!a->mask.empty() && !a->mask[e] && memcmp(a->data + o, a->snap.data() + o, a->esize))
            {
                cd g = a->get(e), s = a->get_snap(e);
                return fail("element %ld of %s outside the selection was modified: (%.9g, %.9g), was (%.9g, %.9g)",
                        (long) e, a->name.c_str(), g.real(), g.imag(), s.real(), s.imag());
            }
        }
        for (size_t o = 0; o < a->bytes; ++o)
            if (!cov[o] && a->data[o] != a->snap[o])
                return fail("byte %zu of %s, which belongs to no element, was modified", o, a->name.c_str());
    }
    return true;
}
bool Op::outputs_unchanged()
{
    for (auto* a : arrs)
        if (a->bytes && memcmp(a->data, a->snap.data(), a->bytes))
        {
            int64_t n = a->n(), e;
            for (e = 0; e < n; ++e) if (memcmp(a->data + a->off(e), a->snap.data() + a->off(e), a->esize)) break;
            return fail("array %s modified (element %ld)", a->name.c_str(), (long) e);
        }
    return true;
}
uint64_t Op::hash_outputs()
{
    uint64_t h = 1469598103934665603ull;
    for (auto* a : arrs)
    {
        if (a->input) continue;
        int64_t n = a->n();
        for (int64_t e = 0; e < n; ++e)
        {
            const char* p = a->data + a->off(e);
            for (size_t k = 0; k < a->esize; k += 4)
            {
                uint32_t v = 0;
                memcpy(&v, p + k, a->esize - k < 4 ? a->esize - k : 4);
                h = (h ^ v) * 1099511628211ull;
            }
            h ^= h >> 29;
        }
    }
    h = hash64(h, extra_hash());
    return h;
}

// ---------------------------------------------------------------- PSWF
PswfRef::PswfRef(double c_) : c(c_), s0(1)
{
    const int N = 60;
    double c2 = c * c;
    d.assign(N, 1.0);
    if (c == 0) { d.assign(N, 0); d[0] = 1; return; }
    std::vector<double> lo(N, 0), di(N, 0), up(N, 0);
    for (int k = 0; k < N; ++k)
    {
        double r = 2 * k;
        up[k] = (r + 2) * (r + 1) / ((2 * r + 3) * (2 * r + 5)) * c2;
        di[k] = r * (r + 1) + (2 * r * (r + 1) - 1) / ((2 * r - 1) * (2 * r + 3)) * c2;
        lo[k] = r >= 2 ? r * (r - 1) / ((2 * r - 3) * (2 * r - 1)) * c2 : 0;
    }
    for (int it = 0; it < 80; ++it)
    {
        std::vector<double> cp(N), dp(N);
        cp[0] = up[0] / di[0]; dp[0] = d[0] / di[0];
        for (int k = 1; k < N; ++k)
        {
            double m = di[k] - lo[k] * cp[k - 1];
            cp[k] = up[k] / m;
            dp[k] = (d[k] - lo[k] * dp[k - 1]) / m;
        }
        for (int k = N - 2; k >= 0; --k) dp[k] -= cp[k] * dp[k + 1];
        double mx = 0;
        for (double v : dp) if (std::fabs(v) > std::fabs(mx)) mx = v;
        for (int k = 0; k < N; ++k) d[k] = dp[k] / mx;
    }
    s0 = raw(0);
}
double PswfRef::raw(double x) const
{
    double p0 = 1, p1 = x, s = d[0];
    for (int r = 2; r < 2 * (int) d.size(); ++r)
    {
        double p2 = ((2 * r - 1) * x * p1 - (r - 1) * p0) / r;
        if (r % 2 == 0) s += d[r / 2] * p2;
        p0 = p1; p1 = p2;
    }
    return s;
}
} // namespace sim
