// Array handles: random histories against a byte-exact model (C13), and the
// element-wise array utilities (C05).
#include "harness.h"
#include <algorithm>
#include <cstdarg>
using namespace sim;
void sim_set_fail_p(double p);

static const sdp_MemType all_types[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
static size_t esize_of(sdp_MemType t)
{
    switch (t)
    {
    case SDP_MEM_CHAR: return 1;
    case SDP_MEM_INT: case SDP_MEM_FLOAT: return 4;
    case SDP_MEM_DOUBLE: case SDP_MEM_COMPLEX_FLOAT: return 8;
    case SDP_MEM_COMPLEX_DOUBLE: return 16;
    default: return 0;
    }
}

struct Storage
{
    std::vector<char> bytes;   // what the memory must hold
    char* base = nullptr;
    bool lib = false;          // owned by the library (through one handle)
    bool live = true;
};
struct Handle
{
    sdp_Mem* m = nullptr;
    std::shared_ptr<Storage> s;
    int64_t off = 0;           // byte offset of the first element
    sdp_MemType type = SDP_MEM_VOID;
    std::vector<int64_t> shape, stride;
    int refs = 1;
    bool owner = false, ro = false;
    int64_t n() const { int64_t k = 1; for (auto v : shape) k *= v; return k; }
    bool canonical() const
    {
        int64_t e = (int64_t) esize_of(type);
        for (int d = (int) shape.size() - 1; d >= 0; --d) { if (stride[d] != e) return false; e *= shape[d]; }
        return true;
    }
    int64_t elem(int64_t i) const
    {
        int64_t o = off;
        for (int d = (int) shape.size() - 1; d >= 0; --d) { o += (i % shape[d]) * stride[d]; i /= shape[d]; }
        return o;
    }
    bool usable() const { return s && s->live; }
};

struct Caller
{
    std::vector<Handle> h;
    std::vector<std::shared_ptr<Storage>> st;
    std::shared_ptr<Storage> sh; // this caller's view of the shared array
    sdp_Error e = SDP_SUCCESS;
    uint64_t hash = 1;
    std::string trail;
};

struct OpHandles : Op
{
    int ncall; long steps;
    bool creator_keeps, faulty;
    Handle shared;
    std::shared_ptr<Storage> shared_st;
    std::vector<Caller> c;
    explicit OpHandles(bool f = false) : faulty(f) {}
    void gen() override
    {
        ncall = faulty ? 1 : (int) P.i("callers", 1, 3);
        steps = P.size("steps", 1, 60);
        creator_keeps = P.b("creator_keeps", 0.4);
    }
    int callers() override { return ncall; }
    int64_t faults() { return R->st.alloc_faults; }
    bool use_shared = false;
    void reset() override { c.assign(ncall, Caller()); use_shared = false; }
    void bad(Caller& k, const char* fn, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
    {
        char b[500], sg[200];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        snprintf(sg, sizeof sg, "handles|%s", fn);
        violation("handles", sg, "%s: %s (history:%s)", fn, b, k.trail.size() > 300 ? k.trail.c_str() + k.trail.size() - 300 : k.trail.c_str());
    }
    void prepare() override
    {
        c.assign(ncall, Caller());
        Caller tmp;
        Rng r = P.rng("shared");
        shared = Handle();
        if (!create(tmp, shared, r)) return;
        shared_st = shared.s;
        use_shared = true;
        // Contents, written through the handle by its creator.
        for (size_t i = 0; i < shared_st->bytes.size(); ++i) shared_st->bytes[i] = (char) r.below(7);
        if (shared_st->bytes.size()) memcpy(shared_st->base, shared_st->bytes.data(), shared_st->bytes.size());
        int extra = ncall - 1 + (creator_keeps ? 1 : 0);
        for (int k = 0; k < extra; ++k)
            L("sdp_mem_ref_inc", [&] { if (sdp_mem_ref_inc(shared.m) != shared.m) bad(tmp, "sdp_mem_ref_inc", "returned another handle"); });
    }
    static std::vector<int64_t> draw_shape(Rng& r, int maxd, int64_t hi, bool zero)
    {
        std::vector<int64_t> s(r.range(1, maxd));
        for (auto& v : s) v = r.range(1, hi);
        if (zero && r.chance(0.06)) s[r.below(s.size())] = 0;
        return s;
    }
    // Outcome of a call that creates a handle: true if there is one to keep.
    bool created(Caller& k, const char* fn, sdp_Mem* m, int64_t f0, sdp_Error before, bool must_fail)
    {
        bool fault = faults() != f0;
        if (before != SDP_SUCCESS)
        {
            if (k.e != before) bad(k, fn, "changed error status %d to %d", (int) before, (int) k.e);
        }
        else if (must_fail)
        {
            if (k.e == SDP_SUCCESS) bad(k, fn, "accepted an invalid request");
        }
        else if (k.e != SDP_SUCCESS && !fault) bad(k, fn, "failed with status %d on a valid request", (int) k.e);
        else if (k.e == SDP_SUCCESS && !m) bad(k, fn, "reported success without a handle");
        if (k.e == SDP_SUCCESS && !must_fail) return m != nullptr;
        if (m) L("sdp_mem_free", [&] { sdp_mem_free(m); });
        return false;
    }
    bool create(Caller& k, Handle& h, Rng& r)
    {
        sdp_MemType t = all_types[r.below(6)];
        std::vector<int64_t> sh = draw_shape(r, 4, 5, true);
        int64_t f0 = faults();
        sdp_Error before = k.e;
        sdp_Mem* m = nullptr;
        L("sdp_mem_create", [&] { m = sdp_mem_create(t, SDP_MEM_CPU, (int32_t) sh.size(), sh.data(), &k.e); });
        if (!created(k, "sdp_mem_create", m, f0, before, false)) return false;
        h.m = m; h.type = t; h.shape = sh; h.owner = true;
        canonical_strides(h);
        h.s = std::make_shared<Storage>();
        h.s->lib = true;
        h.s->bytes.assign((size_t) h.n() * esize_of(t), 0);
        L("sdp_mem_data", [&] { h.s->base = (char*) sdp_mem_data(m); });
        if (h.s->bytes.size() && (!h.s->base || arena_block_size(h.s->base) < h.s->bytes.size()))
        { bad(k, "sdp_mem_create", "no storage for %zu bytes", h.s->bytes.size()); h.s->live = false; }
        k.st.push_back(h.s);
        return true;
    }
    static void canonical_strides(Handle& h)
    {
        int64_t e = (int64_t) esize_of(h.type);
        h.stride.assign(h.shape.size(), 0);
        for (int d = (int) h.shape.size() - 1; d >= 0; --d) { h.stride[d] = e; e *= h.shape[d]; }
    }
    void wrap(Caller& k, Rng& r)
    {
        Handle h;
        h.type = all_types[r.below(6)];
        h.shape = draw_shape(r, 4, 5, false);
        bool strides = r.chance(0.5);
        canonical_strides(h);
        if (strides && r.chance(0.7))
        {
            std::vector<int> order;
            for (int d = (int) h.shape.size() - 1; d >= 0; --d) order.push_back(d);
            if (r.chance(0.5)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
            int64_t s = (int64_t) esize_of(h.type);
            if (r.chance(0.3)) s *= 2;
            for (size_t i = 0; i < order.size(); ++i)
            {
                h.stride[order[i]] = s;
                s *= h.shape[order[i]];
                if (r.chance(0.3)) s += (int64_t) esize_of(h.type);
            }
        }
        size_t bytes = esize_of(h.type);
        for (size_t d = 0; d < h.shape.size(); ++d) bytes += (size_t) ((h.shape[d] - 1) * h.stride[d]);
        h.s = std::make_shared<Storage>();
        h.s->bytes.resize(bytes);
        for (auto& b : h.s->bytes) b = (char) r.below(7);
        h.s->base = (char*) arena_alloc(bytes, "wrapped");
        arena_mark_external(h.s->base);
        memcpy(h.s->base, h.s->bytes.data(), bytes);
        int64_t f0 = faults();
        sdp_Error before = k.e;
        std::vector<int64_t> sh = h.shape, sr = h.stride;
        L("sdp_mem_create_wrapper", [&] { h.m = sdp_mem_create_wrapper(h.s->base, h.type, SDP_MEM_CPU, (int32_t) sh.size(), sh.data(),
                strides ? sr.data() : nullptr, &k.e); });
        if (!created(k, "sdp_mem_create_wrapper", h.m, f0, before, false)) return;
        k.st.push_back(h.s);
        k.h.push_back(h);
    }
    void slice(Caller& k, const Handle& p, Rng& r)
    {
        if (p.n() == 0 || p.shape.empty()) return;
        Handle h;
        h.type = p.type; h.s = p.s; h.off = p.off;
        int nd = (int) p.shape.size(), ns = (int) r.range(1, nd);
        std::vector<int64_t> of(nd), sh(ns), sr(ns);
        for (int d = 0; d < nd; ++d) { of[d] = r.range(0, p.shape[d] - 1); h.off += of[d] * p.stride[d]; }
        for (int d = 0; d < ns; ++d) { int sd = nd - ns + d; sh[d] = r.range(1, p.shape[sd] - of[sd]); sr[d] = p.stride[sd]; }
        bool bad_req = r.chance(0.25);
        int nsr = ns;
        if (bad_req)
        {
            int kind = (int) r.below(4), d = (int) r.below(nd);
            if (kind == 0) of[d] = p.shape[d] + r.range(0, 2);
            else if (kind == 1) of[d] = -r.range(1, 3);
            else if (kind == 2) { nsr = nd + 1; sh.assign(nsr, 1); }
            else { int e = (int) r.below(ns); sh[e] = p.shape[nd - ns + e] - of[nd - ns + e] + r.range(1, 3); }
        }
        h.shape = sh; h.stride = sr;
        int64_t f0 = faults();
        sdp_Error before = k.e;
        L("sdp_mem_create_wrapper_for_slice", [&] { h.m = sdp_mem_create_wrapper_for_slice(p.m, of.data(), nsr, sh.data(), &k.e); });
        if (!created(k, "sdp_mem_create_wrapper_for_slice", h.m, f0, before, bad_req && before == SDP_SUCCESS)) return;
        k.h.push_back(h);
    }
    void alias(Caller& k, const Handle& p)
    {
        Handle h = p;
        h.refs = 1; h.owner = false; h.ro = false; h.m = nullptr;
        int64_t f0 = faults();
        L("sdp_mem_create_alias", [&] { h.m = sdp_mem_create_alias(p.m); });
        if (!h.m) { if (faults() == f0) bad(k, "sdp_mem_create_alias", "returned no handle"); return; }
        k.h.push_back(h);
    }
    // Copy or conversion: a new owner whose layout the library chooses.
    void adopt(Caller& k, const char* fn, sdp_Mem* m, const Handle& p, sdp_MemType t)
    {
        Handle h;
        h.m = m; h.type = t; h.shape = p.shape; h.owner = true;
        h.stride.assign(h.shape.size(), 0);
        h.s = std::make_shared<Storage>();
        h.s->lib = true;
        size_t need = h.n() ? esize_of(t) : 0;
        L("sdp_mem_stride_bytes_dim", [&] { for (size_t d = 0; d < h.shape.size(); ++d) h.stride[d] = sdp_mem_stride_bytes_dim(m, (int32_t) d);
            h.s->base = (char*) sdp_mem_data(m); });
        for (size_t d = 0; d < h.shape.size(); ++d)
        {
            if (h.stride[d] < 0) { bad(k, fn, "negative stride"); return; }
            if (h.shape[d] > 0) need += h.n() ? (size_t) ((h.shape[d] - 1) * h.stride[d]) : 0;
        }
        if (need && (!h.s->base || !arena_is_live(h.s->base) || arena_block_size(h.s->base) < need))
        { bad(k, fn, "the new array has no storage of its own for %zu bytes", need); return; }
        if (need && p.usable() && h.s->base == p.s->base) { bad(k, fn, "the copy shares the storage of its source"); return; }
        h.s->bytes.assign(need, 0);
        for (int64_t i = 0, n = h.n(); i < n; ++i)
        {
            const char* src = p.s->bytes.data() + p.elem(i);
            char* dst = h.s->bytes.data() + h.elem(i);
            convert(src, p.type, dst, t);
            if (memcmp(h.s->base + h.elem(i), dst, esize_of(t))) { bad(k, fn, "element %ld differs from the source's", (long) i); break; }
        }
        // Bytes between elements may hold anything.
        if (need) memcpy(h.s->bytes.data(), h.s->base, need);
        k.st.push_back(h.s);
        k.h.push_back(h);
    }
    static void convert(const char* s, sdp_MemType a, char* d, sdp_MemType b)
    {
        if (a == b) { memcpy(d, s, esize_of(a)); return; }
        int n = a & SDP_MEM_COMPLEX ? 2 : 1;
        for (int i = 0; i < n; ++i)
        {
            if ((a & 15) == SDP_MEM_FLOAT) { float x; memcpy(&x, s + 4 * i, 4); double y = x; memcpy(d + 8 * i, &y, 8); }
            else { double x; memcpy(&x, s + 8 * i, 8); float y = (float) x; memcpy(d + 4 * i, &y, 4); }
        }
    }
    void verify(Caller& k, const Handle& h)
    {
        struct Q { int32_t nd, cont, fl, cx, cx4, dbl, ro; sdp_MemType t; sdp_MemLocation loc; int64_t n; int64_t sh[6], sb[6], se[6]; char* p; } q;
        memset(&q, 0, sizeof q);
        int nd = (int) h.shape.size();
        L("sdp_mem queries", [&] {
            q.nd = sdp_mem_num_dims(h.m); q.t = sdp_mem_type(h.m); q.loc = sdp_mem_location(h.m); q.n = sdp_mem_num_elements(h.m);
            q.cont = sdp_mem_is_c_contiguous(h.m); q.fl = sdp_mem_is_floating_point(h.m); q.cx = sdp_mem_is_complex(h.m);
            q.cx4 = sdp_mem_is_complex4(h.m); q.dbl = sdp_mem_is_double(h.m); q.ro = sdp_mem_is_read_only(h.m);
            for (int d = 0; d < nd; ++d) { q.sh[d] = sdp_mem_shape_dim(h.m, d); q.sb[d] = sdp_mem_stride_bytes_dim(h.m, d); q.se[d] = sdp_mem_stride_elements_dim(h.m, d); }
            q.p = (char*) sdp_mem_data(h.m);
        });
        const char* fn = "queries";
        if (q.nd != nd) return bad(k, fn, "%d dimensions, expected %d", q.nd, nd);
        if (q.t != h.type) return bad(k, fn, "type %d, expected %d", (int) q.t, (int) h.type);
        if (q.loc != SDP_MEM_CPU) return bad(k, fn, "location %d", (int) q.loc);
        bool big = true;
        for (int d = 0; d < nd; ++d)
        {
            if (q.sh[d] != h.shape[d]) return bad(k, fn, "shape[%d] is %ld, expected %ld", d, (long) q.sh[d], (long) h.shape[d]);
            if (q.sb[d] != h.stride[d]) return bad(k, fn, "stride[%d] is %ld, expected %ld", d, (long) q.sb[d], (long) h.stride[d]);
            if (q.se[d] != h.stride[d] / (int64_t) esize_of(h.type)) return bad(k, fn, "stride[%d] in elements is %ld", d, (long) q.se[d]);
            if (h.shape[d] < 2) big = false;
        }
        if (h.n() == 0) return;
        if (h.s && q.p != h.s->base + h.off) return bad(k, fn, "data pointer is %ld bytes away from the elements it stands for", (long) (q.p - (h.s->base + h.off)));
        if (q.n != h.n()) return bad(k, fn, "%ld elements, expected %ld", (long) q.n, (long) h.n());
        bool c = (h.type & SDP_MEM_COMPLEX) != 0;
        if (q.cx != (c ? 1 : 0)) return bad(k, fn, "is_complex is %d for type %d", q.cx, (int) h.type);
        if (q.dbl != ((h.type & 15) == SDP_MEM_DOUBLE ? 1 : 0)) return bad(k, fn, "is_double is %d for type %d", q.dbl, (int) h.type);
        if (q.fl != (h.type == SDP_MEM_FLOAT || h.type == SDP_MEM_DOUBLE ? 1 : 0)) return bad(k, fn, "is_floating_point is %d for type %d", q.fl, (int) h.type);
        bool c4 = c && ((nd > 1 && h.shape[nd - 1] == 4) || (nd > 2 && h.shape[nd - 1] == 2 && h.shape[nd - 2] == 2));
        if (!!q.cx4 != c4) return bad(k, fn, "is_complex4 is %d", q.cx4);
        if (!!q.cont != h.canonical() && (big || q.cont == 0)) return bad(k, fn, "is_c_contiguous is %d", q.cont);
        if (!!q.ro != h.ro) return bad(k, fn, "is_read_only is %d", q.ro);
        if (!h.usable()) return;
        for (int64_t i = 0, n = h.n(); i < n; ++i)
        {
            const char* w = h.s->bytes.data() + h.elem(i);
            if (memcmp(q.p + (h.elem(i) - h.off), w, esize_of(h.type))) return bad(k, "contents", "element %ld does not hold what was last written to it", (long) i);
            uint64_t v = 0;
            memcpy(&v, w, std::min<size_t>(8, esize_of(h.type)));
            k.hash = hash64(k.hash, v);
        }
    }
    void verify_storages(Caller& k)
    {
        for (auto& s : k.st)
            if (s->live && s->bytes.size() && memcmp(s->base, s->bytes.data(), s->bytes.size()))
            {
                size_t i = 0;
                while (s->base[i] == s->bytes[i]) ++i;
                return bad(k, "contents", "byte %zu of an array of %zu bytes changed", i, s->bytes.size());
            }
    }
    void release(Caller& k, size_t i)
    {
        Handle& h = k.h[i];
        bool dec = h.refs % 2 == 0;
        L("sdp_mem_free", [&] { if (dec) sdp_mem_ref_dec(h.m); else sdp_mem_free(h.m); });
        if (--h.refs > 0)
        {
            if (h.owner && h.s->bytes.size() && h.s->live && !arena_is_live(h.s->base)) bad(k, "sdp_mem_free", "released the data while %d references remain", h.refs);
            return;
        }
        if (k.sh && h.m == shared.m) k.sh->live = false; // others may still hold it; this caller must not rely on that
        if (h.owner)
        {
            h.s->live = false;
            if (h.s->bytes.size() && arena_is_live(h.s->base)) bad(k, "sdp_mem_free", "the last reference is gone, but the data was not released");
        }
        k.h.erase(k.h.begin() + (long) i);
    }
    void run(int id) override
    {
        Caller& k = c[id];
        Rng r = P.rng(("hist" + std::to_string(id)).c_str());
        if (faulty) { static const double ps[] = {0.05, 0.2, 0.5}; sim_set_fail_p(ps[P.i("fail_p", 0, 2)]); alloc_arm(true); }
        if (use_shared)
        {
            k.sh = std::make_shared<Storage>(*shared_st);
            k.h.push_back(shared);
            k.h[0].owner = false;
            k.h[0].s = k.sh;
        }
        for (long step = 0; step < steps; ++step)
        {
            int op = (int) r.below(20);
            if (k.h.empty() && op > 2) op = (int) r.below(3);
            size_t i = k.h.empty() ? 0 : r.below(k.h.size()), j = k.h.empty() ? 0 : r.below(k.h.size());
            uint64_t sub = r.next();
            Rng q(sub);
            if (k.h.size() > 14 && op < 9) op = 9;
            k.trail += " " + std::to_string(op) + "@" + std::to_string(i);
            switch (op)
            {
            case 0: case 1: { Handle h; if (create(k, h, q)) k.h.push_back(h); break; }
            case 2: wrap(k, q); break;
            case 3: case 4: { Handle p = k.h[i]; slice(k, p, q); break; }
            case 5: { Handle p = k.h[i]; alias(k, p); break; }
            case 6: case 7: // copy
            {
                Handle p = k.h[i];
                if (!p.usable()) break;
                int64_t f0 = faults();
                sdp_Error before = k.e;
                sdp_Mem* m = nullptr;
                L("sdp_mem_create_copy", [&] { m = sdp_mem_create_copy(p.m, SDP_MEM_CPU, &k.e); });
                if (created(k, "sdp_mem_create_copy", m, f0, before, false)) adopt(k, "sdp_mem_create_copy", m, p, p.type);
                break;
            }
            case 8: // convert
            {
                Handle p = k.h[i];
                if (!p.usable() || p.n() == 0) break;
                sdp_MemType t = all_types[q.below(6)];
                bool same = t == p.type, okt = same || (p.type >= SDP_MEM_FLOAT && t >= SDP_MEM_FLOAT && ((p.type ^ t) & SDP_MEM_COMPLEX) == 0);
                int64_t f0 = faults();
                sdp_Error before = k.e;
                sdp_Mem* m = nullptr;
                int32_t cont = 0;
                L("sdp_mem_is_c_contiguous", [&] { cont = sdp_mem_is_c_contiguous(p.m); });
                if (!cont && k.e == SDP_SUCCESS)
                {
                    // May be refused, but if accepted must be right.
                    L("sdp_mem_convert_precision", [&] { m = sdp_mem_convert_precision(p.m, t, &k.e); });
                    if (k.e == SDP_SUCCESS && m && okt) adopt(k, "sdp_mem_convert_precision", m, p, t);
                    else if (k.e == SDP_SUCCESS) bad(k, "sdp_mem_convert_precision", "reported success for an unsupported conversion");
                    else if (m) L("sdp_mem_free", [&] { sdp_mem_free(m); });
                    break;
                }
                L("sdp_mem_convert_precision", [&] { m = sdp_mem_convert_precision(p.m, t, &k.e); });
                if (created(k, "sdp_mem_convert_precision", m, f0, before, !okt && before == SDP_SUCCESS)) adopt(k, "sdp_mem_convert_precision", m, p, t);
                break;
            }
            case 9: case 10: case 11: release(k, i); break;
            case 12: // one more reference
                L("sdp_mem_ref_inc", [&] { sdp_mem_ref_inc(k.h[i].m); });
                ++k.h[i].refs;
                break;
            case 13: // write through a handle
            {
                Handle& h = k.h[i];
                if (!h.usable() || h.s == k.sh || h.n() == 0) break;
                for (int w = 0; w < 3; ++w)
                {
                    int64_t e = h.elem(q.range(0, h.n() - 1));
                    for (size_t b = 0; b < esize_of(h.type); ++b) h.s->base[e + b] = h.s->bytes[e + b] = (char) q.below(5);
                }
                break;
            }
            case 14: // clear
            {
                Handle& h = k.h[i];
                if (!h.usable() || h.s == k.sh || h.n() == 0) break;
                sdp_Error before = k.e;
                L("sdp_mem_clear_contents", [&] { sdp_mem_clear_contents(h.m, &k.e); });
                if (before != k.e) bad(k, "sdp_mem_clear_contents", "changed the status from %d to %d", (int) before, (int) k.e);
                if (before == SDP_SUCCESS)
                    for (int64_t e = 0; e < h.n(); ++e) memset(h.s->bytes.data() + h.elem(e), 0, esize_of(h.type));
                break;
            }
            case 15: // copy contents between arrays
            {
                Handle& d = k.h[i]; Handle& s = k.h[j];
                if (!d.usable() || !s.usable() || d.s == s.s || d.s == k.sh || d.type != s.type || !d.canonical() || !s.canonical() || !d.n() || !s.n()) break;
                int64_t n = q.range(0, std::min(d.n(), s.n())), od = q.range(0, d.n() - n), os = q.range(0, s.n() - n);
                sdp_Error before = k.e;
                if ((n + od) & 1) L("sdp_mem_copy_contents_async", [&] { sdp_mem_copy_contents_async(d.m, s.m, od, os, n, nullptr, &k.e); });
                else L("sdp_mem_copy_contents", [&] { sdp_mem_copy_contents(d.m, s.m, od, os, n, &k.e); });
                if (before != k.e) bad(k, "sdp_mem_copy_contents", "changed the status from %d to %d", (int) before, (int) k.e);
                size_t es = esize_of(d.type);
                if (before == SDP_SUCCESS && n) memcpy(d.s->bytes.data() + d.off + od * (int64_t) es, s.s->bytes.data() + s.off + os * (int64_t) es, (size_t) n * es);
                break;
            }
            case 16: // read-only flag and its check
            {
                Handle& h = k.h[i];
                if (h.s == k.sh) break;
                h.ro = q.chance(0.5);
                sdp_Error e = SDP_SUCCESS;
                L("sdp_mem_set_read_only", [&] { sdp_mem_set_read_only(h.m, h.ro); sdp_mem_check_writeable_at(h.m, &e, "mem", "test", "file", 1); });
                if (h.n() > 0 && (e != SDP_SUCCESS) != h.ro) bad(k, "sdp_mem_check_writeable", "status %d for an array that is %s", (int) e, h.ro ? "read only" : "writable");
                break;
            }
            case 17: // an error earlier in the caller's pipeline, or its clearing
                k.e = k.e != SDP_SUCCESS ? SDP_SUCCESS : q.chance(0.3) ? (sdp_Error) q.range(1, 9) : SDP_SUCCESS;
                break;
            case 18: // comparison of two handles
            {
                Handle& a = k.h[i]; Handle& b = k.h[j];
                int32_t m = 0;
                L("sdp_mem_is_matching", [&] { m = sdp_mem_is_matching(a.m, b.m, 1); });
                bool w = a.type == b.type && a.shape == b.shape && a.stride == b.stride;
                if (!!m != w) bad(k, "sdp_mem_is_matching", "is %d", m);
                break;
            }
            case 19: // requests that must be refused
            {
                std::vector<int64_t> s = {2, 3};
                int64_t f0 = faults();
                sdp_Error before = k.e;
                sdp_Mem* m = nullptr;
                bool gpu = q.chance(0.5);
                L("sdp_mem_create", [&] { m = sdp_mem_create(gpu ? SDP_MEM_FLOAT : (sdp_MemType) 3, gpu ? SDP_MEM_GPU : SDP_MEM_CPU, 2, s.data(), &k.e); });
                created(k, "sdp_mem_create", m, f0, before, before == SDP_SUCCESS);
                break;
            }
            }
            if (k.e != SDP_SUCCESS && r.chance(0.6)) k.e = SDP_SUCCESS;
            if (!k.h.empty() && r.chance(0.5)) verify(k, k.h[r.below(k.h.size())]);
            if (r.chance(0.3)) verify_storages(k);
            if (R->n_viol) break;
        }
        if (faulty) { sim_set_fail_p(0); alloc_arm(false); }
        if (R->n_viol) return;
        for (auto& h : k.h) verify(k, h);
        verify_storages(k);
        // Release everything in a random order (each caller its own reference of the shared array).
        while (!k.h.empty() && !R->n_viol) release(k, r.below(k.h.size()));
    }
    void finish() override
    {
        if (R->n_viol || !shared_st) return;
        Caller k;
        if (shared_st->bytes.size())
        {
            bool live = arena_is_live(shared_st->base);
            if (live != creator_keeps) bad(k, "sdp_mem_free", creator_keeps ? "released data the creator still refers to" : "every caller dropped its reference, but the data was not released");
        }
        if (creator_keeps) L("sdp_mem_free", [&] { sdp_mem_free(shared.m); });
        if (shared_st->bytes.size() && arena_is_live(shared_st->base)) bad(k, "sdp_mem_free", "the last reference is gone, but the data was not released");
        shared_st.reset();
    }
    uint64_t extra_hash() override { uint64_t h = 3; for (auto& k : c) h = hash64(h, k.hash); return h; }
};
struct OpHandlesFaults : OpHandles { OpHandlesFaults() : OpHandles(true) {} };
REGISTER_OPW(OpHandles, "mem_handles", "C13 nosticky nofail noagain", 3);
REGISTER_OPW(OpHandlesFaults, "mem_handles_faults", "C13 noconc nofail nosticky norepeat noprogress", 1);

// ---------------------------------------------------------------- element-wise
struct OpMemOps : Op
{
    int kind; Arr *a = nullptr, *b = nullptr; int value; double factor; int64_t od, os, cnt; sdp_MemType t, t2;
    sdp_Mem* made = nullptr;
    std::vector<cd> got;
    bool have = false;
    void gen() override
    {
        kind = (int) P.i("kind", 0, 6);
        static const sdp_MemType ty[] = {SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        t = ty[kind == 1 || kind == 5 ? P.i("type", 1, 4) : P.i("type", 0, 4)];
        t2 = t;
        if (kind == 5 && P.b("other")) t2 = (sdp_MemType) ((t & SDP_MEM_COMPLEX) | ((t & 15) == SDP_MEM_FLOAT ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT));
        int nd = (int) P.i("nd", 1, 3);
        std::vector<int64_t> s;
        for (int d = 0; d < nd; ++d) s.push_back(P.size(("n" + std::to_string(d)).c_str(), d ? 1 : 0, nd == 1 ? 200 : 14));
        bool anyl = kind == 0 || kind == 2 || kind == 6;
        bool inp = kind == 5 || kind == 6;
        a = inp ? in("src", t, s, anyl ? LAYOUT_ANY : LAYOUT_C) : out("mem", t, s, anyl ? LAYOUT_ANY : LAYOUT_C);
        if (t == SDP_MEM_INT) fill_int(a, -1000, 1000); else fill(a, -10, 10);
        value = (int) P.i("value", -5, 5);
        factor = P.d("factor", -3, 3);
        int64_t n = a->n();
        od = P.i("od", 0, n); cnt = P.i("cnt", 0, n - od); os = P.i("os", 0, n);
        if (kind == 4)
        {
            b = in("from", t, {os + cnt + P.i("extra", 0, 5)});
            if (t == SDP_MEM_INT) fill_int(b, -1000, 1000); else fill(b, -10, 10);
        }
        if (kind == 3 || kind == 4)
        {
            a->mask.assign((size_t) n, 0);
            for (int64_t e = od; e < od + cnt; ++e) a->mask[e] = 1;
        }
    }
    void reset() override { have = false; got.clear(); }
    void run(int) override
    {
        switch (kind)
        {
        case 0: L("sdp_mem_set_value", [&] { sdp_mem_set_value(a->mem, value, st); }); break;
        case 1: L("sdp_mem_scale_real", [&] { sdp_mem_scale_real(a->mem, factor, st); }); break;
        case 2: L("sdp_mem_clear_contents", [&] { sdp_mem_clear_contents(a->mem, st); }); break;
        case 3: L("sdp_mem_clear_portion", [&] { sdp_mem_clear_portion(a->mem, od, cnt, st); }); break;
        case 4:
            if ((cnt + os) & 1) L("sdp_mem_copy_contents_async", [&] { sdp_mem_copy_contents_async(a->mem, b->mem, od, os, cnt, nullptr, st); });
            else L("sdp_mem_copy_contents", [&] { sdp_mem_copy_contents(a->mem, b->mem, od, os, cnt, st); });
            break;
        case 5: L("sdp_mem_convert_precision", [&] { made = sdp_mem_convert_precision(a->mem, t2, st); }); break;
        case 6: L("sdp_mem_create_copy", [&] { made = sdp_mem_create_copy(a->mem, SDP_MEM_CPU, st); }); break;
        }
        if (made)
        {
            if (*st == SDP_SUCCESS)
            {
                Arr v;
                v.type = t2; v.shape = a->shape; v.stride.assign(v.shape.size(), 0);
                L("sdp_mem queries", [&] { for (size_t d = 0; d < v.shape.size(); ++d) v.stride[d] = sdp_mem_stride_bytes_dim(made, (int32_t) d); v.data = (char*) sdp_mem_data(made); });
                for (int64_t e = 0, n = a->n(); e < n; ++e) got.push_back(v.get(e));
                have = true;
            }
            L("sdp_mem_free", [&] { sdp_mem_free(made); });
            made = nullptr;
        }
    }
    uint64_t extra_hash() override { uint64_t h = 1; for (auto& v : got) { uint64_t x[2]; memcpy(x, &v, 16); h = hash64(hash64(h, x[0]), x[1]); } return h; }
    bool model() override
    {
        int64_t n = a->n();
        bool f = a->is_float();
        for (int64_t e = 0; e < n; ++e)
        {
            cd w;
            double tol = 0;
            switch (kind)
            {
            case 0: w = value; break;
            case 1: w = a->get_snap(e) * (f ? (double) (float) factor : factor); tol = (f ? 1e-6 : 1e-14) * std::abs(w); break;
            case 2: w = 0; break;
            case 3: w = e >= od && e < od + cnt ? cd() : a->get_snap(e); break;
            case 4: w = e >= od && e < od + cnt ? b->get(os + e - od) : a->get_snap(e); break;
            default:
                if (!have) return fail("no array was returned");
                w = a->get(e);
                if ((t2 & 15) == SDP_MEM_FLOAT && t2 != t) w = cd((float) w.real(), (float) w.imag());
                if (got[e] != w) return fail("element %ld of the new array is (%.9g, %.9g), expected (%.9g, %.9g)", (long) e, got[e].real(), got[e].imag(), w.real(), w.imag());
                continue;
            }
            if (!close(a, e, w, tol, "array utility")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpMemOps, "mem_ops", "C05");

// A new array holds zeros, however its memory was obtained.
struct OpMemCreate : Op
{
    Arr* a; int twice;
    void gen() override
    {
        int nd = (int) P.i("nd", 1, 3);
        std::vector<int64_t> s;
        for (int d = 0; d < nd; ++d) s.push_back(P.size(("n" + std::to_string(d)).c_str(), 1, nd == 1 ? 300 : 14));
        a = out("contents", all_types[P.i("type", 0, 5)], s);
        for (size_t i = 0; i < a->bytes; ++i) a->data[i] = (char) 3;
        twice = P.i("old", 0, 2);
    }
    void run(int) override
    {
        // Some heap history first.
        sdp_Mem* old[2] = {nullptr, nullptr};
        for (int k = 0; k < twice; ++k)
            L("sdp_mem_create", [&] { old[k] = sdp_mem_create(a->type, SDP_MEM_CPU, (int32_t) a->shape.size(), a->shape.data(), st); });
        if (twice && *st == SDP_SUCCESS) L("sdp_mem_set_value", [&] { if (a->type != SDP_MEM_CHAR) sdp_mem_set_value(old[0], 7, st); });
        for (int k = 0; k < twice; ++k) L("sdp_mem_free", [&] { sdp_mem_free(old[k]); });
        sdp_Mem* m = nullptr;
        L("sdp_mem_create", [&] { m = sdp_mem_create(a->type, SDP_MEM_CPU, (int32_t) a->shape.size(), a->shape.data(), st); });
        if (*st == SDP_SUCCESS && m)
        {
            void* p = nullptr;
            L("sdp_mem_data", [&] { p = sdp_mem_data(m); });
            if (p && arena_block_size(p) >= a->bytes) memcpy(a->data, p, a->bytes);
        }
        L("sdp_mem_free", [&] { sdp_mem_free(m); });
    }
    bool model() override
    {
        for (size_t i = 0; i < a->bytes; ++i) if (a->data[i]) return fail("byte %zu of a new array is %d, not 0", i, a->data[i]);
        return true;
    }
};
REGISTER_OPW(OpMemCreate, "mem_create", "", 0.4);

struct OpMemRandom : Op
{
    Arr* a;
    void gen() override
    {
        static const sdp_MemType ty[] = {SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        a = out("mem", ty[P.i("type", 0, 3)], {P.size("n0", 0, 20), P.size("n1", 1, 9)});
        fill(a, 5, 6);
    }
    void run(int) override { L("sdp_mem_random_fill", [&] { sdp_mem_random_fill(a->mem, st); }); }
    bool model() override
    {
        for (int64_t e = 0, n = a->n(); e < n; ++e)
        {
            cd v = a->get(e);
            if (!(v.real() >= 0 && v.real() <= 1 && v.imag() >= 0 && v.imag() <= 1)) return fail("element %ld is (%g, %g), not in [0, 1]", (long) e, v.real(), v.imag());
        }
        return true;
    }
};
REGISTER_OPW(OpMemRandom, "mem_random", "C05 noconc norepeat nofail", 0.3);
