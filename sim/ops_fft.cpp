// FFT plans shared by callers (C06) and the distributed facet/subgrid transform
// between workers exchanging messages (C10).
#include "harness.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include <algorithm>
#include <set>
using namespace sim;

static cd unit(double turns)
{
    turns -= std::floor(turns);
    return cd(std::cos(2 * PI * turns), std::sin(2 * PI * turns));
}
// Direct transform of the last `nd` dimensions.
static std::vector<cd> dft(const std::vector<cd>& x, const std::vector<int64_t>& shape, int nd, int sign)
{
    std::vector<cd> v = x;
    int64_t n = 1;
    for (auto s : shape) n *= s;
    int64_t inner = 1;
    for (int d = (int) shape.size() - 1; d >= (int) shape.size() - nd; --d)
    {
        int64_t len = shape[d];
        std::vector<cd> w(len), t(len);
        for (int64_t k = 0; k < len; ++k) w[k] = unit(sign * (double) k / (double) len);
        for (int64_t b = 0; b < n / len; ++b)
        {
            int64_t lo = b % inner, hi = b / inner;
            for (int64_t k = 0; k < len; ++k)
            {
                cd s = 0;
                for (int64_t j = 0; j < len; ++j) s += v[(hi * len + j) * inner + lo] * w[(j * k) % len];
                t[k] = s;
            }
            for (int64_t k = 0; k < len; ++k) v[(hi * len + k) * inner + lo] = t[k];
        }
        inner *= len;
    }
    return v;
}

struct OpFft : Op
{
    int nd, ncall; bool dbl, batch, inplace, fwd; long reps;
    std::vector<int64_t> shape;
    std::vector<Arr*> src, dst;
    sdp_Fft* plan = nullptr;
    std::vector<std::vector<cd>> start;
    void gen() override
    {
        dbl = P.b("dbl"); fwd = P.b("forward"); inplace = P.b("in_place", 0.4); batch = P.b("batch");
        nd = (int) P.i("fft_dims", 1, 2);
        if (P.b("three", 0.06)) nd = 3;
        ncall = (int) P.i("fft_callers", 1, 4);
        long mx = nd == 1 ? 48 : nd == 2 ? 14 : 6;
        for (int d = 0; d < nd + (batch ? 1 : 0); ++d) shape.push_back(P.size(("n" + std::to_string(d)).c_str(), 1, d == 0 && batch ? 7 : mx));
        for (int k = 0; k < ncall; ++k)
        {
            std::string a = "in" + std::to_string(k), b = "out" + std::to_string(k);
            if (inplace) src.push_back(out(a.c_str(), cplx(dbl), shape));
            else { src.push_back(in(a.c_str(), cplx(dbl), shape)); dst.push_back(out(b.c_str(), cplx(dbl), shape)); }
            fill(src[k], -1, 1);
            if (!inplace) fill(dst[k], -3, 3);
            else dst.push_back(src[k]);
        }
        for (auto* a : src) { std::vector<cd> v; for (int64_t e = 0; e < a->n(); ++e) v.push_back(a->get(e)); start.push_back(v); }
    }
    int callers() override { return ncall; }
    void prepare() override
    {
        L("sdp_fft_create", [&] { plan = sdp_fft_create(src[0]->mem, dst[0]->mem, nd, fwd, st); });
    }
    void run(int k) override
    {
        L("sdp_fft_exec", [&] { sdp_fft_exec(plan, src[k]->mem, dst[k]->mem, st); });
    }
    void finish() override { L("sdp_fft_free", [&] { sdp_fft_free(plan); }); plan = nullptr; }
    bool model() override
    {
        for (int k = 0; k < ncall; ++k)
        {
            std::vector<cd> w = dft(start[k], shape, nd, fwd ? -1 : 1);
            double n = 1;
            for (int d = 0; d < nd; ++d) n *= (double) shape[shape.size() - 1 - d];
            for (int64_t e = 0; e < dst[k]->n(); ++e)
                if (!close(dst[k], e, w[e], (dbl ? 1e-12 : 4e-6) * n, "transform")) return false;
        }
        return true;
    }
};
REGISTER_OPW(OpFft, "fft", "C06 misfit", 1.5);

// The centred transform, and its parts, in place on 2D arrays.
struct OpFftShift : Op
{
    int what, ncall; bool dbl, fwd, norm; int64_t nx, ny;
    std::vector<Arr*> a;
    std::vector<std::vector<cd>> start;
    sdp_Fft* plan = nullptr;
    void gen() override
    {
        what = (int) P.i("what", 0, 2);  // 0 exec_shift, 1 phase, 2 norm
        dbl = P.b("dbl"); fwd = P.b("forward"); norm = P.b("norm"); ncall = (int) P.i("fft_callers", 1, 3);
        nx = P.size("nx", 1, 14); ny = P.size("ny", 1, 14);
        for (int k = 0; k < ncall; ++k)
        {
            Arr* x = out(("data" + std::to_string(k)).c_str(), cplx(dbl), {nx, ny}, what ? LAYOUT_ANY : LAYOUT_C);
            fill(x, -1, 1);
            a.push_back(x);
            std::vector<cd> v;
            for (int64_t e = 0; e < x->n(); ++e) v.push_back(x->get(e));
            start.push_back(v);
        }
    }
    int callers() override { return ncall; }
    void prepare() override { if (!what) L("sdp_fft_create", [&] { plan = sdp_fft_create(a[0]->mem, a[0]->mem, 2, fwd, st); }); }
    void run(int k) override
    {
        if (what == 0) L("sdp_fft_exec_shift", [&] { sdp_fft_exec_shift(plan, a[k]->mem, norm, st); });
        else if (what == 1) L("sdp_fft_phase", [&] { sdp_fft_phase(a[k]->mem, st); });
        else L("sdp_fft_norm", [&] { sdp_fft_norm(a[k]->mem, st); });
    }
    void finish() override { if (!what) L("sdp_fft_free", [&] { sdp_fft_free(plan); }); plan = nullptr; }
    bool model() override
    {
        for (int k = 0; k < ncall; ++k)
        {
            std::vector<cd> v = start[k];
            auto chess = [&] { for (int64_t i = 0; i < nx; ++i) for (int64_t j = 0; j < ny; ++j) if ((i + j) & 1) v[i * ny + j] = -v[i * ny + j]; };
            if (what == 0)
            {
                chess(); v = dft(v, {nx, ny}, 2, fwd ? -1 : 1); chess();
                if (norm) for (auto& x : v) x /= (double) (nx * ny);
            }
            else if (what == 1) chess();
            else for (auto& x : v) x /= (double) (nx * ny);
            double n = what == 0 && !norm ? (double) (nx * ny) : 2;
            for (int64_t e = 0; e < a[k]->n(); ++e)
                if (!close(a[k], e, v[e], (dbl ? 1e-12 : 4e-6) * n, what == 0 ? "centred transform" : what == 1 ? "phase" : "normalisation")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpFftShift, "fft_shift", "C06 misfit");

// ------------------------------------------------------------------ SwiFTly
// Workers own the sources (facets, or subgrids), produce a contribution to each
// destination, and send it over a network that delays, reorders, loses and
// repeats messages; workers crash and start again from their input. The owner
// of a destination accumulates each contribution once, in order of arrival.
struct SwConf { int N, yN, xM; double W; int yB, xA; double tol; };
static const SwConf sw_conf[] = {
    {64, 32, 32, 5.0, 20, 20, 2e-2},
    {96, 32, 24, 4.0, 12, 12, 6e-2},
    {128, 64, 32, 7.0, 40, 16, 2.2e-3},
    {128, 64, 64, 9.0, 40, 44, 1e-4},
    {192, 96, 48, 8.0, 60, 30, 5e-4},
};
struct OpSwiftly : Op
{
    SwConf q; int dims, nsrc, ndst, nw; bool s2f; int m; int restart_worker; long restart_at;
    std::vector<std::vector<long>> src_off, dst_off;
    std::vector<Arr*> src, dst;
    struct Pt { int s; std::vector<long> pos; cd v; };     // position: absolute image pixel or grid cell
    std::vector<Pt> pts;
    sdp_SwiFTly* plan = nullptr;
    std::vector<sdp_Error*> wst;
    // network
    struct Msg { int s, d; std::vector<cd> body; };
    std::vector<std::vector<Msg>> inbox, held;
    std::vector<std::set<int>> got;
    std::map<std::pair<int, int>, std::vector<cd>> first_body;
    int aborted = 0, producing = 0; long sent = 0;
    Rng net{1};
    double p_loss, p_dup, p_hold;
    char box_key[64];

    void gen() override
    {
        int ci = (int) P.i("conf", 0, 4);
        dims = (int) P.i("dims", 1, 2);
        s2f = P.b("to_facets");
        if (dims == 2) ci = std::min(ci, 2);
        q = sw_conf[ci];
        m = q.xM * q.yN / q.N;
        nw = (int) P.i("workers", 1, 4);
        p_loss = P.b("net.loss", 0.5) ? P.d("net.loss_p", 0.02, 0.4) : 0;
        p_dup = P.b("net.dup", 0.5) ? P.d("net.dup_p", 0.02, 0.4) : 0;
        p_hold = P.b("net.hold", 0.4) ? P.d("net.hold_p", 0.05, 0.8) : 0;
        restart_worker = P.b("net.restart", 0.4) ? (int) P.i("net.restart_worker", 0, nw - 1) : -1;
        restart_at = P.i("net.restart_at", 0, 12);
        int nx = q.N / q.yN, ny = q.N / q.xM;
        Rng r = P.rng("offsets");
        // Facets that tile the image, and some subgrids; or the other way round.
        auto tile = [&](int used, int step) {
            std::vector<long> o;
            int sp = used / step * step;
            int n = (q.N + sp - 1) / sp;
            for (int k = 0; k < n; ++k) o.push_back((long) (k - n / 2) * sp);
            return o;
        };
        std::vector<long> st1 = s2f ? tile(q.xA, nx) : tile(q.yB, ny);
        nsrc = (int) st1.size();
        long shift = P.b("far_offsets", 0.3) ? q.N * r.range(-3, 3) : 0;
        for (int a = 0; a < (int) st1.size(); ++a)
        {
            if (dims == 1) { src_off.push_back({st1[a] + shift}); continue; }
            for (int b = 0; b < (int) st1.size(); ++b) src_off.push_back({st1[a] + shift, st1[b]});
        }
        nsrc = (int) src_off.size();
        ndst = (int) P.i("destinations", 1, dims == 1 ? 4 : 2);
        for (int d = 0; d < ndst; ++d)
        {
            std::vector<long> o;
            for (int k = 0; k < dims; ++k)
            {
                long step = s2f ? ny : nx;
                o.push_back(step * r.range(-q.N / step, q.N / step) + (r.chance(0.1) ? q.N * r.range(-3, 3) : 0));
            }
            dst_off.push_back(o);
        }
        long ss = s2f ? q.xA : q.yB, ds = s2f ? q.yB : q.xA;
        bool odd = P.b("odd", 0.3);
        if (odd) { ss -= 1; ds -= 1; }
        // bc: rows the 1D transform is broadcast over
        bc = dims == 1 ? (int) P.size("broadcast", 1, 3) : 0;
        ssz = ss; dsz = ds;
        for (int s = 0; s < nsrc; ++s)
        {
            Arr* a = in(("source" + std::to_string(s)).c_str(), SDP_MEM_COMPLEX_DOUBLE, dims == 1 ? std::vector<int64_t>{bc, ss} : std::vector<int64_t>{ss, ss}, s2f ? LAYOUT_C : LAYOUT_ANY);
            zero(a);
            src.push_back(a);
        }
        Rng v = P.rng("values");
        int npt = (int) v.range(1, dims == 1 ? 20 : 12);
        for (int i = 0; i < npt; ++i)
        {
            Pt p;
            p.s = (int) v.below((uint64_t) nsrc);
            int64_t e = 0;
            // stay inside this source's own share of the tiling
            long own = (s2f ? q.xA / nx * nx : q.yB / ny * ny) - (odd ? 2 : 0);
            for (int k = 0; k < dims; ++k)
            {
                long c = v.range(-(own / 2), own / 2 - 1);
                long ix = c + ss / 2;
                e = k == 0 ? (dims == 1 ? ix : ix * ss) : e + ix;
                p.pos.push_back(c + src_off[p.s][k]);
            }
            p.v = cd(v.uni(-1, 1), v.uni(-1, 1));
            if (dims == 1) for (int b = 0; b < bc; ++b) { Arr* a = src[p.s]; a->set(b * ss + e, a->get(b * ss + e) + p.v * (double) (b + 1)); }
            else src[p.s]->set(e, src[p.s]->get(e) + p.v);
            pts.push_back(p);
        }
        for (int d = 0; d < ndst; ++d)
        {
            Arr* a = out(("dest" + std::to_string(d)).c_str(), SDP_MEM_COMPLEX_DOUBLE, dims == 1 ? std::vector<int64_t>{bc, ds} : std::vector<int64_t>{ds, ds}, LAYOUT_ANY);
            fill(a, -9, 9);
            dst.push_back(a);
        }
        for (int k = 0; k < nw; ++k)
        {
            wst.push_back((sdp_Error*) arena_alloc(4, "status"));
            race_exempt(wst[k], 4);
        }
        clear();
    }
    int bc; long ssz, dsz; uint64_t n_made = 0;
    void clear()
    {
        inbox.assign(nw, {}); held.assign(nw, {}); got.assign(ndst, {}); first_body.clear();
        aborted = 0; producing = nw; sent = 0; net = P.rng("net");
        for (auto* s : wst) *s = SDP_SUCCESS;
    }
    void reset() override { clear(); }
    int callers() override { return nw; }
    void prepare() override { L("sdp_swiftly_create", [&] { plan = sdp_swiftly_create(q.N, q.yN, q.xM, q.W, st); }); }
    void finish() override { L("sdp_swiftly_free", [&] { sdp_swiftly_free(plan); }); plan = nullptr; }

    // A library array and its transposed view.
    struct Buf { sdp_Mem* m = nullptr; sdp_Mem* t = nullptr; };
    Buf make(long a, long b, bool clear_it, sdp_Error* e)
    {
        Buf x;
        int64_t sh[2] = {a, b};
        L("sdp_mem_create", [&] {
            x.m = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 2, sh, e);
            if (clear_it) sdp_mem_clear_contents(x.m, e);
        });
        if (*e || !x.m) return x;
        // A buffer to be overwritten starts with left-overs of earlier work.
        if (!clear_it && P.b("dirty", 0.8))
        {
            Rng g(hash64(P.seed, (uint64_t) a * 131 + (uint64_t) b + 7 * ++n_made));
            cd* p = (cd*) sdp_mem_data(x.m);
            for (long k = 0; k < (long) a * b; ++k) p[k] = cd(g.uni(-9, 9), g.uni(-9, 9));
        }
        int64_t ts[2] = {b, a}, tr[2] = {16, 16 * b};
        L("sdp_mem_create_wrapper", [&] { x.t = sdp_mem_create_wrapper(sdp_mem_data(x.m), SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 2, ts, tr, e); });
        return x;
    }
    void drop(Buf& x) { L("sdp_mem_free", [&] { sdp_mem_free(x.t); sdp_mem_free(x.m); }); x.m = x.t = nullptr; }
    sdp_Mem* transposed(Arr* a, sdp_Error* e)
    {
        sdp_Mem* r = nullptr;
        int64_t ts[2] = {a->shape[1], a->shape[0]}, tr[2] = {a->stride[1], a->stride[0]};
        L("sdp_mem_create_wrapper", [&] { r = sdp_mem_create_wrapper(a->data, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 2, ts, tr, e); });
        return r;
    }
    // The prepared form of a source, ready to extract contributions from.
    Buf prepare_source(int s, sdp_Error* e)
    {
        Buf x;
        std::vector<long>& o = src_off[s];
        if (!s2f && dims == 1)
        {
            x = make(bc, q.yN, false, e);
            L("sdp_swiftly_prepare_facet", [&] { sdp_swiftly_prepare_facet(plan, src[s]->mem, x.m, o[0], e); });
        }
        else if (!s2f)
        {
            Buf y = make(q.yN, ssz, false, e);
            sdp_Mem* tr = transposed(src[s], e);
            x = make(q.yN, q.yN, false, e);
            L("sdp_swiftly_prepare_facet", [&] { sdp_swiftly_prepare_facet(plan, tr, y.t, o[0], e); sdp_swiftly_prepare_facet(plan, y.m, x.m, o[1], e); });
            L("sdp_mem_free", [&] { sdp_mem_free(tr); });
            drop(y);
        }
        else
        {
            // pad around the centre
            x = make(dims == 1 ? bc : q.xM, q.xM, true, e);
            if (*e == SDP_SUCCESS && x.m)
            {
                cd* p = (cd*) sdp_mem_data(x.m);
                long lo = q.xM / 2 - ssz / 2;
                for (int64_t i = 0; i < src[s]->shape[0]; ++i) for (long j = 0; j < ssz; ++j)
                    p[(dims == 1 ? i : i + lo) * q.xM + j + lo] = src[s]->get(i * ssz + j);
            }
            if (dims == 1) L("sdp_swiftly_prepare_subgrid_inplace", [&] { sdp_swiftly_prepare_subgrid_inplace(plan, x.m, o[0], e); });
            else L("sdp_swiftly_prepare_subgrid_inplace_2d", [&] { sdp_swiftly_prepare_subgrid_inplace_2d(plan, x.m, o[0], o[1], e); });
        }
        return x;
    }
    std::vector<cd> extract(Buf& x, int d, sdp_Error* e)
    {
        std::vector<long>& o = dst_off[d];
        Buf c = make(dims == 1 ? bc : m, m, false, e);
        if (!s2f && dims == 1) L("sdp_swiftly_extract_from_facet", [&] { sdp_swiftly_extract_from_facet(plan, x.m, c.m, o[0], e); });
        else if (!s2f)
        {
            Buf y = make(m, q.yN, false, e);
            L("sdp_swiftly_extract_from_facet", [&] { sdp_swiftly_extract_from_facet(plan, x.t, y.t, o[0], e); sdp_swiftly_extract_from_facet(plan, y.m, c.m, o[1], e); });
            drop(y);
        }
        else if (dims == 1) L("sdp_swiftly_extract_from_subgrid", [&] { sdp_swiftly_extract_from_subgrid(plan, x.m, c.m, o[0], e); });
        else if (P.b("two_step", 0.4))
        {
            Buf y = make(m, q.xM, false, e);
            L("sdp_swiftly_extract_from_subgrid", [&] { sdp_swiftly_extract_from_subgrid(plan, x.t, y.t, o[0], e); sdp_swiftly_extract_from_subgrid(plan, y.m, c.m, o[1], e); });
            drop(y);
        }
        else L("sdp_swiftly_extract_from_subgrid_2d", [&] { sdp_swiftly_extract_from_subgrid_2d(plan, x.m, c.m, o[0], o[1], e); });
        std::vector<cd> body;
        if (*e == SDP_SUCCESS && c.m)
        {
            cd* p = (cd*) sdp_mem_data(c.m);
            body.assign(p, p + (dims == 1 ? bc : m) * m);
        }
        drop(c);
        return body;
    }
    void accumulate(Buf& acc, const Msg& msg, sdp_Error* e)
    {
        std::vector<long>& o = src_off[msg.s];
        Buf c = make(dims == 1 ? bc : m, m, false, e);
        if (*e == SDP_SUCCESS && c.m) memcpy(sdp_mem_data(c.m), msg.body.data(), msg.body.size() * sizeof(cd));
        if (!s2f && dims == 1) L("sdp_swiftly_add_to_subgrid", [&] { sdp_swiftly_add_to_subgrid(plan, c.m, acc.m, o[0], e); });
        else if (!s2f) L("sdp_swiftly_add_to_subgrid_2d", [&] { sdp_swiftly_add_to_subgrid_2d(plan, c.m, acc.m, o[0], o[1], e); });
        else if (dims == 1) L("sdp_swiftly_add_to_facet", [&] { sdp_swiftly_add_to_facet(plan, c.m, acc.m, o[0], e); });
        else
        {
            Buf y = make(q.yN, m, true, e);
            L("sdp_swiftly_add_to_facet", [&] { sdp_swiftly_add_to_facet(plan, c.t, y.t, o[0], e); sdp_swiftly_add_to_facet(plan, y.m, acc.m, o[1], e); });
            drop(y);
        }
        if (*e == SDP_SUCCESS && c.m && memcmp(sdp_mem_data(c.m), msg.body.data(), msg.body.size() * sizeof(cd)))
            violation("input", "input|swiftly|contribution", "accumulating a contribution changed it (%s)", s2f ? "to facet" : "to subgrid");
        drop(c);
    }
    void finish_dest(int d, Buf& acc, sdp_Error* e)
    {
        std::vector<long>& o = dst_off[d];
        if (!s2f && dims == 1)
        {
            if (P.b("inplace_finish", 0.3))
            {
                L("sdp_swiftly_finish_subgrid_inplace", [&] { sdp_swiftly_finish_subgrid_inplace(plan, acc.m, o[0], e); });
                if (*e == SDP_SUCCESS && acc.m) copy_mid((cd*) sdp_mem_data(acc.m), bc, d);
            }
            else L("sdp_swiftly_finish_subgrid", [&] { sdp_swiftly_finish_subgrid(plan, acc.m, dst[d]->mem, o[0], e); });
        }
        else if (!s2f && P.b("two_step_finish", 0.4))
        {
            Buf y = make(q.xM, dsz, false, e);
            sdp_Mem* tr = transposed(dst[d], e);
            L("sdp_swiftly_finish_subgrid", [&] { sdp_swiftly_finish_subgrid(plan, acc.m, y.m, o[1], e); sdp_swiftly_finish_subgrid(plan, y.t, tr, o[0], e); });
            L("sdp_mem_free", [&] { sdp_mem_free(tr); });
            drop(y);
        }
        else if (!s2f)
        {
            bool tr = P.b("transposed_finish", 0.3);
            if (tr) // a strided view of the same array, axes exchanged
                L("sdp_swiftly_finish_subgrid_inplace_2d", [&] { sdp_swiftly_finish_subgrid_inplace_2d(plan, acc.t, o[1], o[0], e); });
            else L("sdp_swiftly_finish_subgrid_inplace_2d", [&] { sdp_swiftly_finish_subgrid_inplace_2d(plan, acc.m, o[0], o[1], e); });
            if (*e == SDP_SUCCESS && acc.m) copy_mid((cd*) sdp_mem_data(acc.m), q.xM, d);
        }
        else if (dims == 1) L("sdp_swiftly_finish_facet", [&] { sdp_swiftly_finish_facet(plan, acc.m, dst[d]->mem, o[0], e); });
        else
        {
            Buf y = make(dsz, q.yN, false, e);
            L("sdp_swiftly_finish_facet", [&] { sdp_swiftly_finish_facet(plan, acc.t, y.t, o[0], e); sdp_swiftly_finish_facet(plan, y.m, dst[d]->mem, o[1], e); });
            drop(y);
        }
    }
    void copy_mid(cd* p, long rows, int d)
    {
        long lo = q.xM / 2 - dsz / 2;
        for (int64_t i = 0; i < dst[d]->shape[0]; ++i) for (long j = 0; j < dsz; ++j)
            dst[d]->set(i * dsz + j, p[(rows == q.xM && dims == 2 ? i + lo : i) * q.xM + j + lo]);
    }
    void deliver(int w, const Msg& msg)
    {
        inbox[w].push_back(msg);
        msg_publish(&box_key[w]);
    }
    void send(const Msg& msg)
    {
        int w = msg.d % nw;
        ++sent; ++R->st.net.sent;
        auto key = std::make_pair(msg.s, msg.d);
        auto it = first_body.find(key);
        if (it == first_body.end()) first_body[key] = msg.body;
        else if (it->second.size() != msg.body.size() || memcmp(it->second.data(), msg.body.data(), msg.body.size() * sizeof(cd)))
            violation("result", "result|swiftly|recomputed", "a restarted worker computed a different contribution of source %d to destination %d from the same input", msg.s, msg.d);
        if (net.chance(p_hold)) { held[w].push_back(msg); ++R->st.net.partitioned; return; }
        if (net.chance(p_loss))
        {
            ++R->st.net.lost;                      // sent again after the time-out
            advance_clock(200000000);
            yield_point();
        }
        deliver(w, msg);
        if (net.chance(p_dup)) { ++R->st.net.duplicated; deliver(w, msg); }
    }
    void give_up() { aborted = 1; for (int w = 0; w < nw; ++w) msg_publish(&box_key[w]); }

    void run(int k) override
    {
        sdp_Error* e = wst[k];
        *e = *st;
        bool may_restart = k == restart_worker;
        long done = 0;
        // Produce.
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            bool crashed = false;
            std::vector<Buf> local;
            for (int s = k; s < nsrc && !crashed; s += nw)
            {
                local.push_back(prepare_source(s, e));
                if (*e || aborted) break;
                std::vector<cd> before;
                cd* p = (cd*) sdp_mem_data(local.back().m);
                int64_t n = sdp_mem_num_elements(local.back().m);
                before.assign(p, p + n);
                for (int d = 0; d < ndst; ++d)
                {
                    Msg msg{s, d, extract(local.back(), d, e)};
                    if (*e || aborted) break;
                    send(msg);
                    if (may_restart && ++done > restart_at) { crashed = true; may_restart = false; break; }
                }
                if (!*e && !aborted && memcmp(before.data(), p, before.size() * sizeof(cd)))
                    violation("input", "input|swiftly|prepared", "extracting contributions changed the prepared source %d", s);
                if (*e || aborted) break;
            }
            for (auto& b : local) drop(b);       // local state is lost
            if (!crashed || *e || aborted) break;
            ++R->st.net.restarts;
            advance_clock(1000000000);
            yield_point();
        }
        if (*e) { if (*st == SDP_SUCCESS) *st = *e; give_up(); return; }
        // The partitions heal once every worker has produced.
        if (--producing == 0)
            for (int w = 0; w < nw; ++w)
            {
                while (!held[w].empty())
                {
                    Msg msg = held[w].back();
                    held[w].pop_back();
                    deliver(w, msg);
                }
            }
        // Consume.
        for (int d = k; d < ndst; d += nw)
        {
            Buf acc = !s2f ? make(dims == 1 ? bc : q.xM, q.xM, true, e) : make(dims == 1 ? bc : q.yN, q.yN, true, e);
            while (!aborted && !*e && (int) got[d].size() < nsrc)
            {
                std::vector<size_t> mine;
                for (size_t i = 0; i < inbox[k].size(); ++i) if (inbox[k][i].d == d) mine.push_back(i);
                if (mine.empty()) { msg_wait(&box_key[k]); continue; }
                size_t i = mine[net.below(mine.size())];
                if (i != mine[0]) ++R->st.net.reordered;
                Msg msg = inbox[k][i];
                inbox[k].erase(inbox[k].begin() + (long) i);
                msg_observe(&box_key[k]);
                if (!got[d].insert(msg.s).second) continue;     // repeated
                accumulate(acc, msg, e);
            }
            if (!aborted && !*e) finish_dest(d, acc, e);
            drop(acc);
        }
        if (*e) { if (*st == SDP_SUCCESS) *st = *e; give_up(); }
    }
    bool model() override
    {
        double amp = 0, norm = s2f ? 1 : 1.0 / q.N;
        if (!s2f && dims == 2) norm /= q.N;
        for (auto& p : pts) amp += std::abs(p.v) * (dims == 1 ? bc : 1);
        double worst = 0;
        for (int d = 0; d < ndst; ++d)
        {
            Arr* a = dst[d];
            int64_t rows = a->shape[0];
            for (int64_t i = 0; i < rows; ++i) for (long j = 0; j < dsz; ++j)
            {
                cd want = 0;
                for (auto& p : pts)
                {
                    double ph = 0;
                    if (dims == 1) ph = (double) p.pos[0] * (double) (j - dsz / 2 + dst_off[d][0]);
                    else ph = (double) p.pos[0] * (double) (i - dsz / 2 + dst_off[d][0]) + (double) p.pos[1] * (double) (j - dsz / 2 + dst_off[d][1]);
                    want += p.v * (dims == 1 ? (double) (i + 1) : 1.0) * unit((s2f ? -1 : 1) * ph / q.N);
                }
                double err = std::abs(a->get(i * dsz + j) - want * norm) / (amp * norm);
                if (!(err <= worst)) worst = err;
            }
        }
        double tol = P.raw("tol", 1, 1) * q.tol;
        if (getenv("SIM_CALIB")) fprintf(stderr, "CALIB swiftly conf=%d dims=%d s2f=%d odd=%d err=%g\n", q.N * 1000 + q.xM, dims, s2f, (int) (ssz & 1), worst);
        if (!(worst <= tol)) return fail("%s, %dD, image %d facet %d subgrid %d: error %.3g of the amplitude (limit %.3g)", s2f ? "subgrids to facets" : "facets to subgrids", dims, q.N, q.yN, q.xM, worst, tol);
        return true;
    }
};
REGISTER_OPW(OpSwiftly, "swiftly", "C10 misfit", 0.5);
