// The remaining public functions: exercised by the cross-cutting properties
// (C11-C15, C18-C20); models where a short independent definition exists.
#include "harness.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/utility/sdp_data_model_checks.h"
#include "ska-sdp-func/utility/sdp_logging.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/utility/sdp_thread_support.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
#include <algorithm>
using namespace sim;

static const sdp_Error NO_OBJECT = SDP_ERR_MEM_ALLOC_FAILURE;
static uint64_t hash_d(uint64_t h, double v) { uint64_t x; memcpy(&x, &v, 8); return hash64(h, x); }

// ------------------------------------------------------------- phase rotation
struct OpPhase : Op
{
    bool vis, dbl; long nt, nb, nch, npol; double f0, df, a0, d0, a1, d1; Arr *uvw, *in_, *out_;
    void gen() override
    {
        vis = P.b("vis"); dbl = P.b("dbl");
        nt = P.size("times", 1, 4); nb = P.size("baselines", 1, 12); nch = P.size("nch", 1, 5); npol = P.pick("npol", {1, 4});
        f0 = P.d("f0", 5e7, 3e8); df = P.d("df", 1e4, 1e7);
        a0 = P.d("ra0", 0, 6.2); d0 = P.d("dec0", -1.5, 1.5); a1 = a0 + P.d("dra", -0.2, 0.2); d1 = d0 + P.d("ddec", -0.2, 0.2);
        uvw = in("uvw", real_t(dbl), {nt, nb, 3}); fill(uvw, -100, 100);
        if (vis)
        {
            in_ = in("vis_in", cplx(dbl), {nt, nb, nch, npol}); fill(in_, -1, 1);
            out_ = out("vis_out", cplx(dbl), {nt, nb, nch, npol}); fill(out_, 5, 6);
        }
        else { in_ = uvw; out_ = out("uvw_out", real_t(dbl), {nt, nb, 3}); fill(out_, 5, 6); }
    }
    void run(int) override
    {
        sdp_SkyCoord *c0 = nullptr, *c1 = nullptr;
        L("sdp_sky_coord_create", [&] { c0 = sdp_sky_coord_create("icrs", a0, d0, 0); });
        L("sdp_sky_coord_create", [&] { c1 = sdp_sky_coord_create("icrs", a1, d1, 0); });
        if (!c0 || !c1) { if (*st == SDP_SUCCESS) *st = NO_OBJECT; }
        else
        {
            bool same = true;
            L("sdp_sky_coord queries", [&] { same = !strcmp(sdp_sky_coord_type(c0), "icrs") && sdp_sky_coord_value(c0, 0) == a0 && sdp_sky_coord_value(c1, 1) == d1 && sdp_sky_coord_epoch(c0) == 2000.0; });
            if (!same) violation("result", "sky_coord", "%s: a sky coordinate does not return what it was created with", name.c_str());
            if (vis) L("sdp_phase_rotate_vis", [&] { sdp_phase_rotate_vis(c0, c1, f0, df, uvw->mem, in_->mem, out_->mem, st); });
            else L("sdp_phase_rotate_uvw", [&] { sdp_phase_rotate_uvw(c0, c1, uvw->mem, out_->mem, st); });
        }
        L("sdp_sky_coord_free", [&] { sdp_sky_coord_free(c0); sdp_sky_coord_free(c1); });
    }
    bool model() override
    {
        if (!vis)
        {
            // A rotation: lengths are kept, and the new phase centre is the new w axis.
            for (int64_t i = 0; i < nt * nb; ++i)
            {
                double q = 0, w = 0;
                for (int k = 0; k < 3; ++k) { double x = uvw->re(3 * i + k), y = out_->re(3 * i + k); q += x * x; w += y * y; }
                if (std::fabs(q - w) > (dbl ? 1e-9 : 1e-4) * (q + 1)) return fail("rotation changes the length of baseline %ld from %g to %g", (long) i, std::sqrt(q), std::sqrt(w));
            }
            return true;
        }
        double l = std::cos(d1) * std::sin(a1 - a0), m = std::cos(d0) * std::sin(d1) - std::sin(d0) * std::cos(d1) * std::cos(a1 - a0);
        double n = std::sin(d0) * std::sin(d1) + std::cos(d0) * std::cos(d1) * std::cos(a1 - a0);
        for (int64_t i = 0; i < nt * nb; ++i) for (long c = 0; c < nch; ++c)
        {
            double k = (f0 + c * df) / C0, ph = -2 * PI * k * (uvw->re(3 * i) * l + uvw->re(3 * i + 1) * m + uvw->re(3 * i + 2) * (n - 1));
            for (long p = 0; p < npol; ++p)
            {
                int64_t e = (i * nch + c) * npol + p;
                if (!close(out_, e, in_->get(e) * std::polar(1.0, ph), dbl ? 1e-9 : 1e-2, "phase rotation")) return false;
            }
        }
        return true;
    }
};
REGISTER_OP(OpPhase, "phase_rotate", "-");

// ------------------------------------------------------------------ weighting
struct OpWeight : Op
{
    bool briggs, dbl, outside; long nt, nb, nch, npol, n; double mx, robust; Arr *uvw, *freq, *grid, *wi, *wo; std::vector<long> cell;
    void gen() override
    {
        briggs = P.b("briggs"); dbl = P.b("dbl"); nt = P.size("times", 1, 4); nb = P.size("baselines", 1, 12);
        nch = P.size("nch", 1, 4); npol = P.pick("npol", {1, 4}); n = P.size("grid", 1, 24); robust = P.d("robust", -2, 2);
        uvw = in("uvw", SDP_MEM_DOUBLE, {nt, nb, 3}); fill(uvw, -100, 100);
        freq = in("freq", SDP_MEM_DOUBLE, {nch}); fill(freq, 1e8, 2e8);
        // |uv| is at most 66.8 wavelengths: some limits leave visibilities outside of the grid.
        outside = P.b("outside", 0.3);
        mx = outside ? P.d("max_uv_small", 5, 60) : P.d("max_uv", 67, 120);
        grid = out("grid", real_t(dbl), {n, n, npol}); zero(grid);
        wi = in("weights_in", real_t(dbl), {nt, nb, nch, npol}); fill(wi, 0.5, 2);
        if (P.b("zero", 0.05)) zero(wi);
        wo = out("weights_out", real_t(dbl), {nt, nb, nch, npol}); fill(wo, 5, 6);
        // The cell of each visibility: -1 outside of the grid, -2 too close to an edge to tell.
        wo->mask.assign((size_t) wo->n(), 1);
        for (long t = 0; t < nt * nb; ++t) for (long ch = 0; ch < nch; ++ch)
        {
            double s = freq->re(ch) / C0, x = uvw->re(3 * t) * s / mx * (n / 2), y = uvw->re(3 * t + 1) * s / mx * (n / 2);
            bool edge = n > 1 && (std::fabs(x - std::round(x)) < 1e-9 || std::fabs(y - std::round(y)) < 1e-9);
            long iu = (long) std::floor(x) + n / 2, iv = (long) std::floor(y) + n / 2;
            long c = edge ? -2 : iu < 0 || iv < 0 || iu >= n || iv >= n ? -1 : iu * n + iv;
            if (c == -1) for (long p = 0; p < npol; ++p) wo->mask[cell.size() * (size_t) npol + (size_t) p] = 0;
            cell.push_back(c);
        }
    }
    void run(int) override
    {
        if (briggs) L("sdp_weighting_briggs", [&] { sdp_weighting_briggs(uvw->mem, freq->mem, mx, robust, grid->mem, wi->mem, wo->mem, st); });
        else L("sdp_weighting_uniform", [&] { sdp_weighting_uniform(uvw->mem, freq->mem, mx, grid->mem, wi->mem, wo->mem, st); });
    }
    bool model() override
    {
        // The serial definition, for points that are clear of the edges of the cells.
        const double tol = dbl ? 1e-9 : 1e-4;
        std::vector<double> g((size_t) grid->n(), 0.0);
        for (long t = 0; t < nt * nb; ++t) for (long ch = 0; ch < nch; ++ch)
        {
            long c = cell[(size_t) (t * nch + ch)];
            if (c == -2) return true;
            if (c >= 0) for (long p = 0; p < npol; ++p) g[(size_t) (c * npol + p)] += wi->re((t * nch + ch) * npol + p);
        }
        double s1 = 0, s2 = 0;
        for (long c : cell) if (c >= 0) for (long p = 0; p < npol; ++p) { double w = g[(size_t) (c * npol + p)]; s1 += w; s2 += w * w; }
        for (int64_t e = 0; e < grid->n(); ++e)
            if (!near(grid->re(e), g[(size_t) e], tol)) return fail("cell %ld of the grid of weights is %g, but %g were added to it", (long) e, grid->re(e), g[(size_t) e]);
        double f = std::pow(5 / std::pow(10.0, robust), 2) / (s2 / s1);
        for (size_t k = 0; k < cell.size(); ++k) for (long p = 0; p < npol; ++p)
        {
            int64_t e = (int64_t) k * npol + p;
            if (cell[k] < 0) continue; // unchanged, as checked for every output
            double w = g[(size_t) (cell[k] * npol + p)], want = briggs ? wi->re(e) / (1 + f * w) : 1 / w;
            if (!near(wo->re(e), want, tol)) return fail("output weight %ld is %.12g, not %.12g", (long) e, wo->re(e), want);
        }
        return true;
    }
    static bool near(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol * std::fabs(b); }
};
REGISTER_OP(OpWeight, "weighting", "-");

// ------------------------------------------------------------ tiled functions
struct OpTiled : Op
{
    long nt, nb, nch; int n; int64_t tu, tv; long support; double cell; int nvis; long ntu, ntv, ntiles, spare; bool edge;
    Arr *uvw, *freq, *vis, *wt, *offs, *cnt, *skip, *su, *sv, *sw, *stile, *svis, *ivis; bool sort; uint64_t spare_hash = 0;
    struct Range { bool skipped, bad, tie; long u0, u1, v0, v1; };
    Range range(double x, double y) const
    {
        Range r;
        long c = n / 2, tlu = c - (c / tu) * tu - tu / 2, tlv = c - (c / tv) * tv - tv / 2;
        r.tie = std::fabs(x - std::floor(x) - 0.5) < 1e-6 || std::fabs(y - std::floor(y) - 0.5) < 1e-6;
        long gu = (long) std::round(x) + c, gv = (long) std::round(y) + c;
        r.skipped = !(gu + support < n && gu - support >= 0 && gv + support < n && gv - support >= 0);
        auto fl = [](long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
        r.u0 = fl(gu - tlu - support, tu), r.u1 = fl(gu - tlu + support, tu), r.v0 = fl(gv - tlv - support, tv), r.v1 = fl(gv - tlv + support, tv);
        // The single-precision bounds may round up to one tile more.
        r.bad = !r.skipped && (r.u0 < 0 || r.v0 < 0 || fl(gu - tlu + support + 1, tu) >= ntu || fl(gv - tlv + support + 1, tv) >= ntv);
        return r;
    }
    void gen() override
    {
        nt = P.size("times", 1, 3); nb = P.size("baselines", 1, 10); nch = P.size("nch", 1, 4);
        tu = P.size("tile_u", 2, 12); tv = P.size("tile_v", 2, 12);
        n = (int) (P.size("grid", 8, 64)); support = P.i("support", 0, 3); sort = P.b("bucket");
        cell = 1e-3;
        ntu = (n + tu - 1) / tu, ntv = (n + tv - 1) / tv;
        // Points usually stay clear of the edges, where the tiles shifted by
        // half a tile extend past the last one.
        edge = P.b("edge", 0.15);
        double lim = (n / 2.0 - support) / (n * cell);
        if (lim < 0.1) lim = 0;
        uvw = in("uvw", SDP_MEM_DOUBLE, {nt, nb, 3});
        freq = in("freq", SDP_MEM_DOUBLE, {nch}); fill(freq, 0.5 * C0, C0);
        fill(uvw, -lim, lim);
        vis = in("vis", SDP_MEM_COMPLEX_DOUBLE, {nt, nb, nch, 1}); fill(vis, -1, 1);
        wt = in("weights", SDP_MEM_DOUBLE, {nt, nb, nch, 1}); fill(wt, -1, 1);
        ntiles = ntu * ntv;
        spare = 2 * ntu + 8;
        Range z;
        while (support > 0 && (z = range(0, 0), z.bad)) --support;
        bool any = false;
        for (long i = 0; i < nt * nb; ++i)
        {
            bool bad = false;
            for (long ch = 0; ch < nch; ++ch)
            {
                double s = freq->re(ch) / C0 * (n * cell);
                Range r = range(uvw->re(3 * i) * s, uvw->re(3 * i + 1) * s);
                // Past the last row of tiles is the one way out that stays within the spare elements.
                if (r.bad && edge && r.u0 >= 0 && r.v0 >= 0 && r.u1 < ntu) any = true;
                else bad |= r.bad;
            }
            if (bad) { uvw->set(3 * i, 0); uvw->set(3 * i + 1, 0); }
        }
        edge = any;
        offs = out("tile_offsets", SDP_MEM_INT, {ntiles + spare}); fill_int(offs, 7, 9);
        cnt = out("num_points", SDP_MEM_INT, {ntiles + spare}); fill_int(cnt, 7, 9);
        skip = out("num_skipped", SDP_MEM_INT, {1}); fill_int(skip, 7, 9);
        // Room for every point in every tile.
        long room = nt * nb * nch * ntiles;
        su = out("sorted_uu", SDP_MEM_DOUBLE, {room}); sv = out("sorted_vv", SDP_MEM_DOUBLE, {room});
        sw = out("sorted_weight", SDP_MEM_DOUBLE, {room}); stile = out("sorted_tile", SDP_MEM_INT, {room});
        svis = out("sorted_vis", SDP_MEM_DOUBLE, {room}); ivis = out("sorted_index", SDP_MEM_INT, {room});
        for (Arr* a : {su, sv, sw, svis}) zero(a);
        fill_int(stile, 0, 0); fill_int(ivis, 0, 0);
    }
    void run(int) override
    {
        int nv = 0;
        bool beyond = false;
        auto check = [&](Arr* a, long from) { if (*st == SDP_SUCCESS) for (long k = from; k < ntiles + spare; ++k) beyond |= a->geti(k) != 0; };
        L("sdp_count_and_prefix_sum", [&] { sdp_count_and_prefix_sum(uvw->mem, freq->mem, vis->mem, n, tu, tv, cell, support, &nv, offs->mem, cnt->mem, skip->mem, st); });
        nvis = nv;
        check(cnt, ntiles); check(offs, ntiles + 1);
        if (sort) L("sdp_bucket_sort", [&] { sdp_bucket_sort(uvw->mem, freq->mem, vis->mem, wt->mem, n, tu, tv, cell, support, su->mem, sv->mem, sw->mem, stile->mem, svis->mem, offs->mem, st); });
        else L("sdp_tiled_indexing", [&] { sdp_tiled_indexing(uvw->mem, freq->mem, n, tu, tv, cell, support, nch, nb, nt, stile->mem, su->mem, sv->mem, ivis->mem, offs->mem, st); });
        check(offs, ntiles + 1);
        if (beyond) violation("touch", edge ? "touch|tiled|edge-tile" : "touch|tiled",
            "tiled: a visibility%s was counted beyond the %ld tiles of the grid", edge ? " near the edge of the grid" : "", ntiles);
    }
    uint64_t extra_hash() override { return (uint64_t) nvis; }
    bool model() override
    {
        long sum = 0, nskip = 0;
        for (long t = 0; t < ntiles; ++t) sum += cnt->geti(t);
        if (sum != nvis) return fail("the tiles hold %ld points, but %d were reported", sum, nvis);
        if (edge) return true;
        // Every tile that a visibility touches, and no other (but for one whose edge the point's support just meets).
        std::vector<long> lo((size_t) ntiles, 0), hi((size_t) ntiles, 0);
        for (long i = 0; i < nt * nb; ++i) for (long ch = 0; ch < nch; ++ch)
        {
            double s = freq->re(ch) / C0 * (n * cell);
            double x = uvw->re(3 * i) * s, y = uvw->re(3 * i + 1) * s;
            Range r = range(x, y);
            if (r.tie) return true;
            if (r.skipped) { ++nskip; continue; }
            long c = n / 2, gu = (long) std::round(x) + c, gv = (long) std::round(y) + c;
            long tlu = c - (c / tu) * tu - tu / 2, tlv = c - (c / tv) * tv - tv / 2;
            long u1 = (gu - tlu + support + 1) / tu, v1 = (gv - tlv + support + 1) / tv;
            for (long v = r.v0; v <= v1; ++v) for (long u = r.u0; u <= u1; ++u)
            {
                if (u <= r.u1 && v <= r.v1) ++lo[(size_t) (v * ntu + u)];
                ++hi[(size_t) (v * ntu + u)];
            }
        }
        if (skip->geti(0) != nskip) return fail("%d visibilities skipped, expected %ld", (int) skip->geti(0), nskip);
        for (long t = 0; t < ntiles; ++t)
            if (cnt->geti(t) < lo[(size_t) t] || cnt->geti(t) > hi[(size_t) t]) return fail("tile %ld holds %d points, expected %ld", t, (int) cnt->geti(t), lo[(size_t) t]);
        return true;
    }
};
REGISTER_OPW(OpTiled, "tiled", "-", 0.7);

// ---------------------------------------------------------- custom degridding
struct OpCustom : Op
{
    long nt, nb, nch, npol, nx, nz, sup, ov, wov; double theta, wstep, f0, df; int conj; Arr *grid, *uvw, *uk, *wk, *vis;
    void gen() override
    {
        nt = P.size("times", 1, 3); nb = P.size("baselines", 1, 8); nch = P.size("nch", 1, 3); npol = P.pick("npol", {1, 4});
        nx = P.size("grid", 8, 20); nz = P.size("w_support", 1, 4); sup = P.i("support", 1, 5); ov = P.size("ov", 1, 6); wov = P.size("wov", 1, 6);
        theta = 0.01; wstep = P.d("wstep", 100, 1000); f0 = P.d("f0", 1e8, 2e8); df = P.d("df", 1e4, 1e6); conj = P.b("conj");
        grid = in("grid", SDP_MEM_COMPLEX_DOUBLE, {nch, nz, nx, nx, npol}); fill(grid, -1, 1);
        uvw = in("uvw", SDP_MEM_DOUBLE, {nt, nb, 3}); fill(uvw, -1000, 1000);
        if (!uvw->shared) for (long i = 0; i < nt * nb; ++i) uvw->set(3 * i + 2, std::fabs(uvw->re(3 * i + 2)) * 0.1);
        uk = in("uv_kernel", SDP_MEM_DOUBLE, {ov, sup}); fill(uk, 0, 1);
        wk = in("w_kernel", SDP_MEM_DOUBLE, {wov, nz}); fill(wk, 0, 1);
        vis = out("vis", SDP_MEM_COMPLEX_DOUBLE, {nt, nb, nch, npol}); fill(vis, 5, 6);
    }
    void run(int) override { L("sdp_degrid_uvw_custom", [&] { sdp_degrid_uvw_custom(grid->mem, uvw->mem, uk->mem, wk->mem, theta, wstep, f0, df, conj, vis->mem, st); }); }
};
REGISTER_OP(OpCustom, "degrid_custom", "-");

// ---------------------------------------------------------------- convolution
struct OpConv : Op
{
    bool dbl; long n1, n2; Arr *a, *b, *c;
    void gen() override
    {
        dbl = P.b("dbl"); n1 = P.size("n1", 1, 14); n2 = P.size("n2", 1, 14);
        a = in("in1", cplx(dbl), {n1, n1}); b = in("in2", cplx(dbl), {n2, n2}); c = out("out", cplx(dbl), {n1, n1});
        fill(a, -1, 1); fill(b, -1, 1); fill(c, 5, 6);
    }
    void run(int) override { L("sdp_fft_convolution", [&] { sdp_fft_convolution(a->mem, b->mem, c->mem, st); }); }
    bool model() override
    {
        long h = n2 % 2 ? (n2 - 1) / 2 : n2 / 2 - 1;
        for (long i = 0; i < n1; ++i) for (long j = 0; j < n1; ++j)
        {
            cd s = 0;
            for (long x = 0; x < n2; ++x) for (long y = 0; y < n2; ++y)
            {
                long p = i + h - x, q = j + h - y;
                if (p >= 0 && q >= 0 && p < n1 && q < n1) s += a->get(a->idx(p, q)) * b->get(b->idx(x, y));
            }
            if (!close(c, c->idx(i, j), s, (dbl ? 1e-12 : 1e-5) * n2 * n2, "convolution")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpConv, "fft_convolution", "-");

// ---------------------------------------------------------------------- CLEAN
struct OpClean : Op
{
    bool ms, dbl; long n, cycles, nscale; double gain, thresh; Arr *img, *psf, *beam, *scales = nullptr, *model_, *res, *sky;
    void gen() override
    {
        ms = P.b("multi_scale", 0.4); dbl = P.b("dbl"); n = ms ? 2 * P.size("half", 1, 3) : P.size("n", 1, 12);
        cycles = P.i("cycles", 1, ms ? 6 : 20); gain = P.d("gain", 0.05, 1); thresh = P.b("unlimited") ? -1e9 : P.d("threshold", 0, 2);
        img = in("dirty", real_t(dbl), {n, n}); fill(img, -1, 2);
        psf = in("psf", real_t(dbl), {2 * n, 2 * n}); fill(psf, -0.3, 0.3);
        if (!psf->shared) psf->set(psf->idx(n, n), 1);
        beam = in("beam", real_t(dbl), {4});
        if (!beam->shared) { beam->set(0, P.d("bmaj", 0.5, 2)); beam->set(1, P.d("bmin", 0.5, 2)); beam->set(2, P.d("theta", 0, 180)); beam->set(3, P.i("beam_size", 1, 9)); }
        if (ms)
        {
            nscale = P.i("scales", 1, 3);
            scales = in("scales", SDP_MEM_INT, {nscale});
            if (!scales->shared) for (long i = 0; i < nscale; ++i) scales->set(i, (double) (i * P.i("scale", 1, 3)));
        }
        model_ = out("model", real_t(dbl), {n, n}); res = out("residual", real_t(dbl), {n, n}); sky = out("sky", real_t(dbl), {n, n});
        fill(model_, 5, 6); fill(res, 5, 6); fill(sky, 5, 6);
    }
    void run(int) override
    {
        if (ms) L("sdp_ms_clean_cornwell", [&] { sdp_ms_clean_cornwell(img->mem, psf->mem, beam->mem, scales->mem, gain, thresh, (int) cycles, model_->mem, res->mem, sky->mem, st); });
        else L("sdp_hogbom_clean", [&] { sdp_hogbom_clean(img->mem, psf->mem, beam->mem, gain, thresh, (int) cycles, model_->mem, res->mem, sky->mem, st); });
    }
    bool model() override
    {
        if (ms) return true;
        // What was taken out of the image is the PSF at each component.
        double amp = 4;
        for (int64_t e = 0; e < n * n; ++e) amp += std::fabs(model_->re(e));
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j)
        {
            double v = img->re(img->idx(i, j));
            for (long x = 0; x < n; ++x) for (long y = 0; y < n; ++y)
            {
                double c = model_->re(model_->idx(x, y));
                if (c != 0) v -= c * psf->re(psf->idx(n - x + i, n - y + j));
            }
            if (!close(res, res->idx(i, j), v, amp * (dbl ? 1e-10 : 1e-4), "CLEAN residual")) return false;
        }
        return true;
    }
    double alone_tol() override { return dbl ? 1e-9 : 1e-3; }
};
REGISTER_OPW(OpClean, "clean", "-", 0.8);

// ----------------------------------------------------------------------- PSWF
struct OpPswf : Op
{
    int kind; double c; long n; int end; Arr* o = nullptr; double ev = 0, val = 0, co = 0;
    void gen() override
    {
        kind = (int) P.i("kind", 0, 2); c = P.d("c", 0.1, 20); n = P.size("n", 1, 24); end = P.b("end") ? 1 : 0;
        static const sdp_MemType ty[] = {SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        if (kind < 2) { o = out("pswf", ty[P.i("type", 0, 3)], {n}, LAYOUT_ANY); fill(o, 5, 6); }
    }
    void reset() override { ev = val = co = 0; }
    void run(int) override
    {
        if (kind == 0) { L("sdp_generate_pswf", [&] { sdp_generate_pswf(0, c, o->mem, st); }); return; }
        sdp_Pswf* p = nullptr;
        L("sdp_pswf_create", [&] { p = sdp_pswf_create(0, c); });
        if (!p) { if (*st == SDP_SUCCESS) *st = NO_OBJECT; return; }
        if (kind == 1) L("sdp_pswf_generate", [&] { sdp_pswf_generate(p, o->mem, 0, end, st); });
        else
        {
            L("sdp_pswf_generate", [&] { sdp_pswf_generate(p, NULL, (int) n + 3, end, st); });
            L("sdp_pswf_generate", [&] { sdp_pswf_generate(p, NULL, (int) n, end, st); });
            if (*st == SDP_SUCCESS)
            {
                L("sdp_pswf queries", [&] {
                    const sdp_Mem *v = sdp_pswf_values(p, SDP_MEM_CPU, st), *k = sdp_pswf_coeff(p, SDP_MEM_CPU, st);
                    if (v && k && sdp_mem_shape_dim(v, 0) == n) { val = ((const double*) sdp_mem_data_const(v))[n / 2]; co = ((const double*) sdp_mem_data_const(k))[0]; }
                    ev = sdp_pswf_evaluate(p, 0.25);
                });
            }
        }
        L("sdp_pswf_free", [&] { sdp_pswf_free(p); });
    }
    uint64_t extra_hash() override { return hash_d(hash_d(hash_d(7, ev), val), co); }
    bool model() override
    {
        if (kind == 2 && (ev == 0 || co == 0)) return fail("no values were generated");
        return true;
    }
};
REGISTER_OP(OpPswf, "pswf", "-");

// ------------------------------------------------------------------ small ones
struct OpPadded : Op
{
    int n, got; double f; Arr* dummy;
    void gen() override { n = (int) P.size("n", 1, 20000); f = P.d("factor", 1, 3); got = 0; dummy = out("none", SDP_MEM_DOUBLE, {1}); fill(dummy, 5, 6); dummy->mask.assign(1, 0); }
    void reset() override { got = 0; }
    void run(int) override
    {
        if (*st != SDP_SUCCESS) return;
        L("sdp_fft_padded_size", [&] { got = sdp_fft_padded_size(n, f); });
        if (got == 0) *st = NO_OBJECT;
    }
    uint64_t extra_hash() override { return (uint64_t) got; }
    bool model() override
    {
        int want = (int) std::ceil(n * f);
        if (got < want || got % 2) return fail("padded size %d for %d", got, want);
        int r = got;
        for (int p : {2, 3, 5, 7, 11}) while (r % p == 0) r /= p;
        if (r != 1) return fail("padded size %d has a large prime factor", got);
        return true;
    }
};
REGISTER_OPW(OpPadded, "fft_padded_size", "nosticky", 0.4);

struct OpExamples : Op
{
    bool vec, dbl, spare; long n, m; float c; Arr *a = nullptr, *b = nullptr, *o;
    explicit OpExamples(bool sp = false) : spare(sp) {}
    void gen() override
    {
        vec = !spare && P.b("vec"); dbl = P.b("dbl"); n = P.size("n", vec ? 0 : 1, 9); m = P.size("m", 1, 9); c = (float) P.d("c", -2, 2);
        if (vec)
        {
            a = in("a", real_t(dbl), {n * m}); b = in("b", real_t(dbl), {n * m}); o = out("out", real_t(dbl), {n * m});
            fill(a, -1, 1); fill(b, -1, 1);
        }
        else o = out("out", SDP_MEM_FLOAT, {n * m + (spare ? P.i("spare", 1, 4) : 0)});
        fill(o, 5, 6);
    }
    void run(int) override
    {
        if (vec) { L("sdp_vector_add", [&] { sdp_vector_add(a->mem, b->mem, o->mem, st); }); return; }
        sdp_FunctionExampleA* p = nullptr;
        L("sdp_function_example_a_create_plan", [&] { p = sdp_function_example_a_create_plan((int) n, (int) m, c, st); });
        L("sdp_function_example_a_exec", [&] { sdp_function_example_a_exec(p, o->mem, st); });
        L("sdp_function_example_a_free_plan", [&] { sdp_function_example_a_free_plan(p); });
    }
    bool model() override
    {
        double s = 0;
        for (int64_t e = 0; e < n * m; ++e)
        {
            double w = vec ? a->re(e) + b->re(e) : s;
            if (!close(o, e, w, 1e-5 * (std::fabs(w) + 1), "example")) return false;
            if (!vec) s += c * e;
        }
        return true;
    }
};
// An output larger than the plan: the example overruns its work area (see
// known_findings.txt), which would spoil the other scenarios.
struct OpExampleSpare : OpExamples { OpExampleSpare() : OpExamples(true) {} };
REGISTER_OPW(OpExamples, "examples", "-", 0.5);
REGISTER_OPW(OpExampleSpare, "example_spare", "noconc nofail nosticky norepeat noprogress", 0.2);

struct OpEsUtils : Op
{
    bool kern; int im, grid, sup, prec; double eps, beta; Arr *qk = nullptr, *qn, *qw, *cc; bool lib;
    void gen() override
    {
        kern = P.b("kernel", 0.7); im = (int) (2 * P.size("half", 1, 20)); sup = (int) P.i("support", 4, 12); beta = P.d("beta", 1.5, 2.3) * sup;
        grid = im * 2; eps = std::pow(10, P.d("eps", -5, -2)); prec = P.b("dbl") ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
        if (kern)
        {
            qk = out("quadrature_kernel", SDP_MEM_DOUBLE, {32}); qn = out("nodes", SDP_MEM_DOUBLE, {32}); qw = out("weights", SDP_MEM_DOUBLE, {32});
            cc = out("conv_corr", SDP_MEM_DOUBLE, {im / 2 + 1});
            for (Arr* a : {qk, qn, qw, cc}) fill(a, 5, 6);
        }
        else { qk = out("none", SDP_MEM_DOUBLE, {1}); fill(qk, 5, 6); qk->mask.assign(1, 0); grid = sup = 0; beta = 0; }
    }
    void run(int) override
    {
        if (*st != SDP_SUCCESS) return;
        if (kern) L("sdp_generate_gauss_legendre_conv_kernel", [&] { sdp_generate_gauss_legendre_conv_kernel(im, grid, sup, beta, (double*) qk->data, (double*) qn->data, (double*) qw->data, (double*) cc->data); });
        else L("sdp_calculate_params_from_epsilon", [&] { sdp_calculate_params_from_epsilon(eps, im, prec, grid, sup, beta, st); });
    }
    uint64_t extra_hash() override { return kern ? 0 : hash_d(grid * 1000 + sup, beta); }
};
REGISTER_OPW(OpEsUtils, "es_fft_utils", "nosticky", 0.4);

// Each check of an array refuses exactly what does not fit, and keeps an earlier error.
struct OpChecks : Op
{
    Arr *a, *b; long d0; int n_calls; std::string wrong; uint64_t seen = 0;
    void gen() override
    {
        static const sdp_MemType ty[] = {SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
        auto shape = [&](const char* what) {
            std::vector<int64_t> s;
            std::string w = what;
            int nd = (int) P.i((w + ".dims").c_str(), 1, 5);
            for (int k = 0; k < nd; ++k) s.push_back(P.i((w + std::to_string(k)).c_str(), 1, 4));
            if (nd == 3 && P.b((w + ".uvw").c_str(), 0.6)) s[2] = 3;
            if (nd == 4) s[3] = P.b((w + ".pol").c_str(), 0.7) ? (s[3] > 2 ? 4 : 1) : s[3];
            return s;
        };
        a = in("a", ty[P.i("type", 0, 4)], shape("a"), LAYOUT_ANY); b = in("b", ty[P.i("type_b", 0, 4)], shape("b"), LAYOUT_ANY);
        fill_int(a, 0, 5); fill_int(b, 0, 5);
        n_calls = (int) P.i("calls", 4, 20);
    }
    void reset() override { wrong.clear(); seen = 0; }
    void run(int) override
    {
        Rng r = P.rng("calls");
        const int nd = (int) a->shape.size(), ndb = (int) b->shape.size();
        const bool cplx_a = a->type & SDP_MEM_COMPLEX, fp = (a->type & 15) == SDP_MEM_FLOAT || (a->type & 15) == SDP_MEM_DOUBLE;
        const sdp_Error before = *st;
        bool contig = true;
        { int64_t s = (int64_t) a->esize; for (int k = nd - 1; k >= 0; --k) { if (a->stride[(size_t) k] != s) contig = false; s *= a->shape[(size_t) k]; } }
        bool unit = false;
        for (auto s : a->shape) unit |= s == 1;
        static const sdp_MemType ty[] = {SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_VOID};
        for (int i = 0; i < n_calls; ++i)
        {
            int want = -1; // 1: refused, 0: accepted, -1: either
            const char* fn = "";
            sdp_Error e = before;
            int64_t out[4] = {-7, -7, -7, -7};
            sdp_MemType t = (sdp_MemType) 77; sdp_MemLocation loc = (sdp_MemLocation) 77;
            int dim = (int) r.range(0, 5), dim2 = (int) r.range(0, 5);
            int64_t size = dim < nd && r.chance(0.6) ? a->shape[(size_t) dim] : r.range(1, 4);
            std::vector<int64_t> sh = a->shape;
            if (r.chance(0.4)) sh[r.below(sh.size())] = r.range(1, 4);
            if (r.chance(0.2)) sh.push_back(1);
            sdp_MemType exp = ty[r.below(6)];
            if (r.chance(0.5)) exp = a->type;
            auto dm = [&](size_t need) { std::vector<int64_t> s = sh; s.resize(need, 1); return s; };
            switch (r.below(13))
            {
            case 0: fn = "sdp_mem_check_location"; want = 0; L(fn, [&] { sdp_mem_check_location_at(a->mem, SDP_MEM_CPU, &e, "a", "f", "x", 1); }); break;
            case 1: fn = "sdp_mem_check_location"; want = 1; L(fn, [&] { sdp_mem_check_location_at(a->mem, SDP_MEM_GPU, &e, "a", "f", "x", 1); }); break;
            case 2: fn = "sdp_mem_check_num_dims"; want = nd != dim; L(fn, [&] { sdp_mem_check_num_dims_at(a->mem, dim, &e, "a", "f", "x", 1); }); break;
            case 3: fn = "sdp_mem_check_dim_size"; want = dim >= nd || a->shape[(size_t) dim] != size; L(fn, [&] { sdp_mem_check_dim_size_at(a->mem, dim, size, &e, "a", "f", "x", 1); }); break;
            case 4: fn = "sdp_mem_check_shape"; want = sh != a->shape; L(fn, [&] { sdp_mem_check_shape_at(a->mem, (int32_t) sh.size(), sh.data(), &e, "a", "f", "x", 1); }); break;
            case 5: fn = "sdp_mem_check_shape_dim"; want = dim >= nd || a->shape[(size_t) dim] != size; L(fn, [&] { sdp_mem_check_shape_dim_at(a->mem, dim, size, &e, "a", "f", "x", 1); }); break;
            case 6: fn = "sdp_mem_check_same_shape"; want = dim < nd && dim2 < ndb && a->shape[(size_t) dim] != b->shape[(size_t) dim2];
                L(fn, [&] { sdp_mem_check_same_shape_at(a->mem, dim, b->mem, dim2, &e, "f", "a", "b", "x", 1); }); break;
            case 7: fn = "sdp_mem_check_type"; want = a->type != exp; L(fn, [&] { sdp_mem_check_type_at(a->mem, exp, &e, "a", "f", "x", 1); }); break;
            case 8: fn = "sdp_mem_check_c_contiguity"; if (!unit) want = !contig; L(fn, [&] { sdp_mem_check_c_contiguity_at(a->mem, &e, "a", "f", "x", 1); }); break;
            case 9:
            {
                fn = "sdp_data_model_check_uvw";
                auto s = dm(3);
                bool ok = fp && !cplx_a && nd == 3 && a->shape[0] == s[0] && a->shape[1] == s[1] && a->shape[2] == 3 && (exp == SDP_MEM_VOID || exp == a->type);
                want = !ok ? 1 : contig ? 0 : unit ? -1 : 1;
                L(fn, [&] { sdp_data_model_check_uvw_at(a->mem, exp, SDP_MEM_CPU, s[0], s[1], &e, "a", "f", "x", 1); });
                break;
            }
            case 10:
            {
                bool v = r.chance(0.5);
                fn = v ? "sdp_data_model_check_vis" : "sdp_data_model_check_weights";
                auto s = dm(4);
                bool ok = cplx_a == v && a->shape == s && (exp == SDP_MEM_VOID || exp == a->type);
                want = !ok ? 1 : contig ? 0 : unit ? -1 : 1;
                if (v) L(fn, [&] { sdp_data_model_check_vis_at(a->mem, exp, SDP_MEM_CPU, s[0], s[1], s[2], s[3], &e, "a", "f", "x", 1); });
                else L(fn, [&] { sdp_data_model_check_weights_at(a->mem, exp, SDP_MEM_CPU, s[0], s[1], s[2], s[3], &e, "a", "f", "x", 1); });
                break;
            }
            case 11:
                fn = "sdp_data_model_get_uvw_metadata";
                want = !(fp && !cplx_a && nd == 3 && a->shape[2] == 3);
                L(fn, [&] { sdp_data_model_get_uvw_metadata(a->mem, &t, &loc, &out[0], &out[1], &e); });
                if (before == SDP_SUCCESS && !want && e == SDP_SUCCESS && (t != a->type || loc != SDP_MEM_CPU || out[0] != a->shape[0] || out[1] != a->shape[1])) note(fn, "reported another type, location or shape");
                break;
            default:
            {
                bool v = r.chance(0.5);
                fn = v ? "sdp_data_model_get_vis_metadata" : "sdp_data_model_get_weights_metadata";
                want = !(nd == 4 && cplx_a == v && (!v || a->shape[3] == 1 || a->shape[3] == 4));
                if (v) L(fn, [&] { sdp_data_model_get_vis_metadata(a->mem, &t, &loc, &out[0], &out[1], &out[2], &out[3], &e); });
                else L(fn, [&] { sdp_data_model_get_weights_metadata(a->mem, &t, &loc, &out[0], &out[1], &out[2], &out[3], &e); });
                if (before == SDP_SUCCESS && !want && e == SDP_SUCCESS)
                {
                    bool same = t == a->type && loc == SDP_MEM_CPU;
                    for (size_t k = 0; k < 4; ++k) same &= out[k] == a->shape[k];
                    if (!same) note(fn, "reported another type, location or shape");
                }
                break;
            }
            }
            if (before != SDP_SUCCESS)
            {
                if (e != before) { *st = e; return; }
                for (auto x : out) if (x != -7) violation("sticky", "sticky|checks|written", "%s: called with error status %d set, wrote its results", fn, (int) before);
                continue;
            }
            if (want >= 0 && (e != SDP_SUCCESS) != (want == 1)) note(fn, want ? "accepted an array that does not fit" : "refused an array that fits");
            seen = hash64(seen, (uint64_t) e * 31 + (uint64_t) out[0]);
        }
    }
    void note(const char* fn, const char* what) { if (wrong.empty()) wrong = std::string(fn) + " " + what; }
    bool model() override { return wrong.empty() || fail("%s", wrong.c_str()); }
    uint64_t extra_hash() override { return seen; }
};
REGISTER_OPW(OpChecks, "checks", "nofail", 0.5);

// A mutex of the library protecting a section of its callers.
struct OpMutex : Op
{
    int nc, iters; sdp_Mutex* m = nullptr; volatile int inside = 0; long count = 0; Arr* none;
    void gen() override { nc = (int) P.i("callers", 1, 4); iters = (int) P.i("iters", 1, 6); none = out("none", SDP_MEM_DOUBLE, {1}); fill(none, 5, 6); none->mask.assign(1, 0); }
    int callers() override { return nc; }
    void reset() override { count = 0; inside = 0; }
    void prepare() override { L("sdp_mutex_create", [&] { m = sdp_mutex_create(); }); }
    void run(int) override
    {
        if (!m) return;
        for (int i = 0; i < iters; ++i)
        {
            L("sdp_mutex_lock", [&] { sdp_mutex_lock(m); });
            if (inside++) violation("result", "mutex|two-inside", "%s: two callers hold one sdp_Mutex", name.c_str());
            long c = count;
            for (int k = 0; k < 3; ++k) yield_point();
            count = c + 1;
            --inside;
            L("sdp_mutex_unlock", [&] { sdp_mutex_unlock(m); });
        }
    }
    void finish() override { L("sdp_mutex_free", [&] { sdp_mutex_free(m); }); m = nullptr; }
    bool model() override { return count == (long) nc * iters || fail("%ld of %d sections were counted", count, nc * iters); }
    uint64_t extra_hash() override { return (uint64_t) count; }
};
REGISTER_OPW(OpMutex, "mutex", "nosticky", 0.4);

// Corrections by a plan, and its queries.
struct OpPlanCorr : Op
{
    bool tower, deg, dbl; int n, sub, sup; double theta, wstep, su, sv; int ol, om, ow; Arr* f; double q = 0;
    void gen() override
    {
        tower = P.b("tower"); deg = P.b("degrid"); dbl = P.b("dbl");
        sub = (int) (2 * P.size("half_sub", 4, 8)); n = sub * (int) P.i("ratio", 1, 2); sup = (int) (2 * P.i("half_support", 2, 3));
        theta = P.d("theta", 0.01, 0.1); wstep = P.d("wstep", 10, 500); su = P.b("shear", 0.5) ? P.d("su", -0.5, 0.5) : 0; sv = su ? P.d("sv", -0.5, 0.5) : 0;
        long fl = P.size("nl", 1, n), fm = P.size("nm", 1, n);
        ol = (int) P.i("ol", fl / 2 - n / 2, n / 2 - (fl - fl / 2)); om = (int) P.i("om", fm / 2 - n / 2, n / 2 - (fm - fm / 2)); ow = (int) P.i("ow", -3, 3);
        f = out("facet", P.b("complex", 0.7) ? cplx(dbl) : real_t(dbl), {fl, fm}, LAYOUT_ANY); fill(f, -1, 1);
    }
    void run(int) override
    {
        if (tower)
        {
            sdp_GridderWtowerUVW* p = nullptr;
            L("sdp_gridder_wtower_uvw_create", [&] { p = sdp_gridder_wtower_uvw_create(n, sub, theta, wstep, su, sv, sup, 64, 4, 64, st); });
            if (*st == SDP_SUCCESS && p)
            {
                L("sdp_gridder_wtower_uvw queries", [&] {
                    q = sdp_gridder_wtower_uvw_image_size(p) + 3.0 * sdp_gridder_wtower_uvw_oversampling(p) + 5 * sdp_gridder_wtower_uvw_shear_u(p) + 7 * sdp_gridder_wtower_uvw_shear_v(p) +
                        11.0 * sdp_gridder_wtower_uvw_subgrid_size(p) + 13.0 * sdp_gridder_wtower_uvw_support(p) + 17 * sdp_gridder_wtower_uvw_theta(p) + 19.0 * sdp_gridder_wtower_uvw_w_oversampling(p) +
                        23 * sdp_gridder_wtower_uvw_w_step(p) + 29.0 * sdp_gridder_wtower_uvw_w_support(p) + sdp_gridder_wtower_uvw_num_w_planes(p, 0) + sdp_gridder_wtower_uvw_num_w_planes(p, 1);
                });
                if (deg) L("sdp_gridder_wtower_uvw_degrid_correct", [&] { sdp_gridder_wtower_uvw_degrid_correct(p, f->mem, ol, om, ow, st); });
                else L("sdp_gridder_wtower_uvw_grid_correct", [&] { sdp_gridder_wtower_uvw_grid_correct(p, f->mem, ol, om, ow, st); });
            }
            L("sdp_gridder_wtower_uvw_free", [&] { sdp_gridder_wtower_uvw_free(p); });
        }
        else
        {
            sdp_GridderDirect* p = nullptr;
            L("sdp_gridder_direct_create", [&] { p = sdp_gridder_direct_create(n, sub, theta, wstep, su, sv, sup, st); });
            if (*st == SDP_SUCCESS && p)
            {
                L("sdp_gridder_direct queries", [&] {
                    q = sdp_gridder_direct_image_size(p) + 3 * sdp_gridder_direct_shear_u(p) + 5 * sdp_gridder_direct_shear_v(p) + 7.0 * sdp_gridder_direct_subgrid_size(p) +
                        11.0 * sdp_gridder_direct_support(p) + 13 * sdp_gridder_direct_theta(p) + 17 * sdp_gridder_direct_w_step(p);
                });
                if (deg) L("sdp_gridder_direct_degrid_correct", [&] { sdp_gridder_direct_degrid_correct(p, f->mem, ol, om, ow, st); });
                else L("sdp_gridder_direct_grid_correct", [&] { sdp_gridder_direct_grid_correct(p, f->mem, ol, om, ow, st); });
            }
            L("sdp_gridder_direct_free", [&] { sdp_gridder_direct_free(p); });
        }
    }
    void reset() override { q = 0; }
    uint64_t extra_hash() override { return hash_d(3, q); }
    bool model() override
    {
        double w = tower ? n + 3.0 * 64 + 5 * su + 7 * sv + 11.0 * sub + 13.0 * sup + 17 * theta + 19.0 * 64 + 23 * wstep + 29.0 * 4
                         : n + 3 * su + 5 * sv + 7.0 * sub + 11.0 * sup + 13 * theta + 17 * wstep;
        if (!(std::fabs(q - w) < 1e-6 * (1 + std::fabs(w)))) return fail("the plan's parameters sum to %.12g, expected %.12g", q, w);
        // The taper of the gridding kernel and, for complex facets, the phase of the w-plane.
        PswfRef pl(sup * (PI / 2)), pn_(4 * (PI / 2));
        bool cx = (f->type & SDP_MEM_COMPLEX_DOUBLE & ~SDP_MEM_DOUBLE) != 0;
        long nl = f->shape[0], nm = f->shape[1];
        for (long i = 0; i < nl; ++i) for (long j = 0; j < nm; ++j)
        {
            long a = i - nl / 2 + ol, b = j - nm / 2 + om;
            if (a == -n / 2 || b == -n / 2) continue; // the window vanishes at the image edge
            double l = (double) a * theta / n, m = (double) b * theta / n, nn = lm_to_n_ref(l, m, su, sv);
            double x = std::fabs(nn * 2 * wstep);
            cd s = f->get_snap(f->idx(i, j)) / (pl(std::fabs(2.0 * a / n)) * pl(std::fabs(2.0 * b / n)) * (tower && x < 1 ? pn_(x) : 1));
            if (cx) s *= std::polar(1.0, (deg ? -1 : 1) * 2 * PI * wstep * nn * ow);
            if (!close(f, f->idx(i, j), s, (1 + std::abs(s)) * (dbl ? 1e-9 : 4e-6), "corrected facet")) return false;
        }
        return true;
    }
};
REGISTER_OPW(OpPlanCorr, "plan_correct", "C05", 0.7);

struct OpSwiftlyInfo : Op
{
    Arr* none; int64_t a = 0, b = 0, c = 0;
    void gen() override { none = out("none", SDP_MEM_DOUBLE, {1}); fill(none, 5, 6); none->mask.assign(1, 0); }
    void reset() override { a = b = c = 0; }
    void run(int) override
    {
        sdp_SwiFTly* s = nullptr;
        L("sdp_swiftly_create", [&] { s = sdp_swiftly_create(64, 32, 16, 4.0, st); });
        if (s && *st == SDP_SUCCESS) L("sdp_swiftly queries", [&] { a = sdp_swiftly_get_image_size(s); b = sdp_swiftly_get_facet_size(s); c = sdp_swiftly_get_subgrid_size(s); });
        L("sdp_swiftly_free", [&] { sdp_swiftly_free(s); });
    }
    uint64_t extra_hash() override { return (uint64_t) (a * 1000000 + b * 1000 + c); }
    bool model() override { return (a == 64 && b == 32 && c == 16) || fail("the plan reports sizes %ld %ld %ld", (long) a, (long) b, (long) c); }
};
REGISTER_OPW(OpSwiftlyInfo, "swiftly_info", "-", 0.2);

// Calls that have to be refused: with an error status, touching nothing.
struct OpBadCall : Op
{
    int kind, bad = 0; bool dbl; long n, m; Arr *a, *b = nullptr, *c = nullptr, *d = nullptr; sdp_Error got = SDP_SUCCESS;
    void gen() override
    {
        kind = (int) P.i("kind", 0, 18); dbl = P.b("dbl"); n = P.size("n", 2, 9); m = n + P.i("more", 1, 3);
        sdp_MemType R = real_t(dbl), C = cplx(dbl);
        switch (kind)
        {
        case 0: a = in("real_in", R, {n, n}); b = out("out", C, {n, n}); break;
        case 1: a = in("fft_in", C, {n, n}); b = out("fft_out", C, {n, n}); c = in("other_in", C, {n, m}); break;
        case 2: a = in("a", R, {n}); b = in("b", R, {m}); c = out("o", R, {n}); break;
        case 3: a = in("uvw", SDP_MEM_DOUBLE, {1, n, 3}); b = in("freq", SDP_MEM_DOUBLE, {2}); c = out("grid", R, {n, m, 1}); d = out("w", R, {1, n, 2, 1}); break;
        case 4: a = in("uvw", R, {1, m, 3}); b = in("vis_in", C, {1, n, 2, 1}); c = out("vis_out", C, {1, n, 2, 1}); break;
        case 5: a = in("dirs", SDP_MEM_DOUBLE, {n, 3}); b = in("flux", SDP_MEM_COMPLEX_DOUBLE, {m, 2, 1}); c = in("uvw", SDP_MEM_DOUBLE, {1, n, 3}); d = out("vis", C, {1, n, 2, 1}); break;
        case 6: a = in("in1", C, {n, m}); b = in("in2", C, {n, n}); c = out("o", C, {n, m}); break;
        case 7: a = in("in1", C, {n, n}); b = in("in2", C, {n, n}); c = out("o", cplx(!dbl), {n, n}); break;
        case 8: a = in("dirty", R, {n, n}); b = in("psf", R, {2 * n, 2 * n}); c = in("beam", R, {4}); d = out("sky", R, {m, m}); break;
        case 9: a = out("pswf", R, {n, n}); break;
        case 10: a = in("vis1", C, {n, m}); b = in("vis2", R, {n, m}); c = out("o", C, {n, m}); break;
        case 11: a = in("vis", C, {2, n, 3, 1}); b = out("flags", R, {2, n, 3, 1}); break;
        case 12: a = in("uvw", R, {1, n, 3}); b = out("uvw_out", R, {1, m, 3}); break;
        case 14: a = in("none", R, {n}); bad = (int) P.i("bad", 0, 5); break;
        case 15: a = in("vis", C, {n, n}); bad = (int) P.i("bad_fft", 0, 3); b = out("out", cplx(bad == 0 ? !dbl : dbl), {bad == 1 ? m : n, n}); break;
        case 16: a = in("uvw", R, {n, 3}); b = in("freq", R, {2}); c = in("vis", C, {n, 2}); d = out("image", R, {2 * m, 2 * m}); bad = (int) P.i("bad_plan", 0, 3); break;
        case 17: case 18: a = in("uvw", SDP_MEM_DOUBLE, {1, n, 3}); b = in("freq", SDP_MEM_DOUBLE, {2}); c = in("vis", SDP_MEM_COMPLEX_DOUBLE, {1, n, 2, 1}); d = out("weights", SDP_MEM_DOUBLE, {1, n, 2, 1}); break;
        default: a = out("subgrid", C, {n, n}); b = in("image", R, {m, m}); break;
        }
        for (Arr* x : {a, b, c, d}) if (x) { fill(x, 0.5, 2); if (!x->input) x->mask.assign((size_t) x->n(), 0); }
    }
    void reset() override { got = SDP_SUCCESS; }
    void run(int) override
    {
        switch (kind)
        {
        case 0: case 1:
        {
            sdp_Fft* p = nullptr;
            L("sdp_fft_create", [&] { p = sdp_fft_create(a->mem, b->mem, 2, 1, st); });
            L("sdp_fft_exec", [&] { sdp_fft_exec(p, kind ? c->mem : a->mem, b->mem, st); });
            L("sdp_fft_free", [&] { sdp_fft_free(p); });
            break;
        }
        case 2: L("sdp_vector_add", [&] { sdp_vector_add(a->mem, b->mem, c->mem, st); }); break;
        case 3: L("sdp_weighting_uniform", [&] { sdp_weighting_uniform(a->mem, b->mem, 100, c->mem, d->mem, d->mem, st); }); break;
        case 4: case 12:
        {
            sdp_SkyCoord* k = nullptr;
            L("sdp_sky_coord_create", [&] { k = sdp_sky_coord_create("icrs", 0.1, 0.2, 0); });
            if (kind == 4) L("sdp_phase_rotate_vis", [&] { sdp_phase_rotate_vis(k, k, 1e8, 1e6, a->mem, b->mem, c->mem, st); });
            else L("sdp_phase_rotate_uvw", [&] { sdp_phase_rotate_uvw(k, k, a->mem, b->mem, st); });
            L("sdp_sky_coord_free", [&] { sdp_sky_coord_free(k); });
            break;
        }
        case 5: L("sdp_dft_point_v01", [&] { sdp_dft_point_v01(a->mem, b->mem, c->mem, 1e8, 1e6, d->mem, st); }); break;
        case 6: case 7: L("sdp_fft_convolution", [&] { sdp_fft_convolution(a->mem, b->mem, c->mem, st); }); break;
        case 8: L("sdp_hogbom_clean", [&] { sdp_hogbom_clean(a->mem, b->mem, c->mem, 0.1, 0.1, 3, d->mem, d->mem, d->mem, st); }); break;
        case 9: L("sdp_generate_pswf", [&] { sdp_generate_pswf(0, 2.0, a->mem, st); }); break;
        case 10: L("sdp_gridder_rms_diff", [&] { sdp_gridder_rms_diff(a->mem, b->mem, st); }); break;
        case 14: // sizes which no transform can have
        {
            static const int64_t sz[][3] = {{0, 32, 16}, {64, -32, 16}, {64, 32, 0}, {64, 32, 24}, {64, 24, 16}, {72, 9, 24}};
            static const int64_t sz2[][3] = {{-64, 32, 16}, {64, 0, 16}, {64, 32, -16}, {60, 30, 25}, {64, 48, 16}, {72, 36, 9}};
            const int64_t* z = (dbl ? sz : sz2)[bad];
            sdp_SwiFTly* s = nullptr;
            L("sdp_swiftly_create", [&] { s = sdp_swiftly_create(z[0], z[1], z[2], 4.0, st); });
            if (*st != SDP_SUCCESS) L("sdp_swiftly_free", [&] { sdp_swiftly_free(s); });
            else if (s) L("sdp_swiftly_free", [&] { sdp_swiftly_free(s); });
            break;
        }
        case 15: // plans for arrays which do not fit together, or for more dimensions than there are
        {
            sdp_Fft* p = nullptr;
            L("sdp_fft_create", [&] { p = sdp_fft_create(a->mem, b->mem, bad == 2 ? 3 : bad == 3 ? 0 : 2, 1, st); });
            if (*st == SDP_SUCCESS) L("sdp_fft_exec", [&] { sdp_fft_exec(p, a->mem, b->mem, st); });
            L("sdp_fft_free", [&] { sdp_fft_free(p); });
            break;
        }
        case 16: // a gridder which needs a GPU
        {
            sdp_GridderUvwEsFft* p = nullptr;
            sdp_Mem* w = nullptr;
            double px = bad == 1 ? 0.02 : 0.01, eps = bad == 2 ? 1e-30 : dbl ? 1e-7 : 1e-4;
            L("sdp_mem_create_wrapper", [&] { int64_t sh[2] = {n, bad == 3 ? 1 : 2}; w = sdp_mem_create_wrapper(c->data, real_t(dbl), SDP_MEM_CPU, 2, sh, nullptr, st); });
            L("sdp_gridder_uvw_es_fft_create_plan", [&] { p = sdp_gridder_uvw_es_fft_create_plan(a->mem, b->mem, c->mem, w, d->mem, px, 0.01, eps, 0.5, 2.0, (int) (n % 2), st); });
            L("sdp_grid_uvw_es_fft", [&] { sdp_grid_uvw_es_fft(p, a->mem, b->mem, c->mem, w, d->mem, st); });
            L("sdp_ifft_degrid_uvw_es", [&] { sdp_ifft_degrid_uvw_es(p, a->mem, b->mem, c->mem, w, d->mem, st); });
            L("sdp_gridder_uvw_es_fft_free_plan", [&] { sdp_gridder_uvw_es_fft_free_plan(p); });
            L("sdp_mem_free", [&] { sdp_mem_free(w); });
            break;
        }
        case 17: L("sdp_optimized_weighting", [&] { sdp_optimized_weighting(a->mem, b->mem, c->mem, d->mem, 0.5, 16, 2, a->mem, a->mem, a->mem, a->mem, a->mem, a->mem, d->mem, st); }); break;
        case 18: L("sdp_optimised_indexed_weighting", [&] { int nv = 3; sdp_optimised_indexed_weighting(a->mem, c->mem, d->mem, 0.5, 16, 0.01, 2, &nv, a->mem, a->mem, a->mem, a->mem, a->mem, a->mem, d->mem, st); }); break;
        case 11: L("sdp_flagger_dynamic_threshold", [&] { sdp_flagger_dynamic_threshold(a->mem, b->mem, 0.5, 1, 1, 1, 1, 1, 1, st); }); break;
        default: L("sdp_gridder_subgrid_add", [&] { sdp_gridder_subgrid_add(a->mem, 0, 0, b->mem, 1.0, st); }); break;
        }
        got = *st;
    }
    uint64_t extra_hash() override { return (uint64_t) got; }
    bool model() override { return got != SDP_SUCCESS || fail("the call was accepted (kind %d)", kind); }
};
REGISTER_OPW(OpBadCall, "bad_call", "mayfail", 1.0);
