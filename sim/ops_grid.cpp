// Gridding and degridding against a direct Fourier sum (C01, C02, C03).
#include "harness.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include <algorithm>
#include <cstdlib>
using namespace sim;

// Accuracy expected of the kernels for a support size, per unit of amplitude.
static double tol_for(int support, int wsupport)
{
    return std::min(support, wsupport) >= 6 ? 0.03 : 0.045;
}

struct GridGeom : Op
{
    bool dbl, dbl_uvw;
    int N, S, support, os, wsupport, wos, eff, heavy, threads, verb;
    long rows, nch;
    double theta, wstep, hu, hv, frac, height, f0, df, tol, wmax;
    Arr *uvw;
    double wl(long c) const { return (f0 + df * (double) c) / C0; }
    void draw_geometry(bool whole)
    {
        bool sm = P.small;
        N = (int) P.i("image2", sm ? 8 : 12, sm ? 16 : 30) * 2;
        support = (int) P.i("support2", 2, 4) * 2;
        wsupport = (int) P.i("wsupport2", 2, 4) * 2;
        int smin = support + 6;
        S = (int) P.i("subgrid2", smin / 2, std::min(N, 32) / 2) * 2;
        if (S > N) S = N;
        if (S < smin) S = std::min(N, smin);
        os = (int) P.raw("os", 64, (double) (64 << P.rng("os").below(sm ? 2 : 3)));
        wos = (int) P.raw("wos", 64, (double) (64 << P.rng("wos").below(sm ? 2 : 3)));
        theta = std::exp(P.d("theta", std::log(0.02), std::log(0.2)));
        double hmax = P.pick("hmax", {2, 2, 6}) / 10.0;
        hu = P.b("shear", 0.4) ? P.d("hu", -hmax, hmax) : 0;
        hv = hu != 0 ? P.d("hv", -hmax, hmax) : 0;
        int type = (int) P.i("type", 0, 2);
        dbl = type == 0; dbl_uvw = type < 2;
        f0 = P.d("f0", 5e7, 3e8); df = f0 * P.d("df", 0.0005, 0.02);
        heavy = whole && !sm && P.b("heavy", 0.1);
        nch = heavy ? P.i("nch.h", 8, 12) : P.size("nch", 1, 6);
        if (heavy && P.b("narrow", 0.7)) support = wsupport = 4;
        rows = heavy ? P.i("rows.h", 300, 560) : P.size("rows", 1, sm ? 12 : 40);
        threads = (int) P.raw("threads", 1, (double) P.rng("threads").range(0, 6));
        verb = P.b("verbose", 0.15) ? (int) P.i("verb", 1, 2) : 0;
        tol = tol_for(support, wsupport) * P.raw("tolscale", 1, 1);
        if (!dbl_uvw) tol *= 1.5;
        // Room in a sub-grid beside the part of it that is used.
        double room = P.d("room", 0.15, 0.6);
        int avail = S - support - 2;             // pixels to share between use and margin
        eff = std::max(2, (int) (avail * (1 - room)));
        frac = (eff + 0.5) / S;
        double margin = 0.5 * (S - eff - support);
        // The w-kernel of a tower of this height spreads over this many pixels
        // per w-step at the edge of the field; it has to fit in the margin.
        height = (double) P.i("height", 1, 6);
        double most = (margin - 1) / (0.5 * (1 + hu * hu + hv * hv) * 1.15 * 0.5 * (height + wsupport));
        wstep = P.d("wstep", 0.3, 1) * std::min(3.4, std::max(0.1, most)) / (theta * theta);
    }
    double lm(int i, int n) const { return (i - n / 2) * theta / n; }
    void draw_uvw(double umax_px, double wmax_steps)
    {
        uvw = in("uvws", real_t(dbl_uvw), {rows, 3}, LAYOUT_ANY);
        if (uvw->shared) return;
        Rng r = P.rng("uvw");
        double top = wl(nch - 1);
        double conc = heavy ? 0.2 : r.chance(0.3) ? 0.15 : 1;     // sometimes all in few sub-grids
        double cu = r.uni(-1, 1) * (1 - conc), cv = r.uni(-1, 1) * (1 - conc);
        // Sometimes in blocks of rows far from each other, so that chunks of
        // the rows of a sub-grid have none of its visibilities.
        bool blocks = heavy && P.b("blocks", 0.5);
        long block0 = 0, block1 = rows;
        double far = cu > 0 ? -0.8 : 0.8;
        if (blocks)
        {
            long len = std::min(rows, 255 + r.range(0, 60));
            block0 = r.chance(0.5) ? 0 : r.range(0, rows - len); block1 = block0 + len;
            conc = 0.03; wmax_steps = std::min(wmax_steps, 0.4 * height);
        }
        for (long i = 0; i < rows; ++i)
        {
            double u = cu + conc * r.uni(-1, 1), v = cv + conc * r.uni(-1, 1), w = r.uni(-1, 1);
            if (blocks && (i < block0 || i >= block1)) u = far + conc * r.uni(-1, 1);
            if (r.chance(0.08)) u = 0;
            if (r.chance(0.08)) w = 0;
            uvw->set(uvw->idx(i, 0), u * umax_px / theta / top);
            uvw->set(uvw->idx(i, 1), v * umax_px / theta / top);
            uvw->set(uvw->idx(i, 2), w * wmax_steps * wstep / top);
        }
    }
    void coords(long i, long c, double& u, double& v, double& w) const
    {
        double s = wl(c);
        u = uvw->re(uvw->idx(i, 0)) * s; v = uvw->re(uvw->idx(i, 1)) * s; w = uvw->re(uvw->idx(i, 2)) * s;
    }
    // Known defect of the kernels (known_findings.txt): a visibility that rounds
    // up to the top of its w-step is treated as if at the bottom of it.
    double wbin(double w) const
    {
        double k = std::floor(w / wstep), f = w / wstep - k;
        return std::round(f * wos) >= wos ? k * wstep : w;
    }
    // Sometimes the outermost visibilities lie on the boundary between two
    // sub-grids (or w-towers): each still belongs to exactly one of them.
    void on_boundaries()
    {
        if (uvw->shared || !P.b("on_boundaries", 0.15)) return;
        Rng r = P.rng("boundaries");
        int d = (int) r.below(3), sg = r.chance(0.5) ? 1 : -1;
        double dist = d == 2 ? height * wstep : std::floor(S * frac) / theta, most = 0, s = wl(nch - 1);
        for (long i = 0; i < rows; ++i) most = std::max(most, sg * uvw->re(uvw->idx(i, d)) * s);
        double k = std::floor(most / dist - 0.5);
        if (k < 0) return;
        double b = (k - (double) r.range(0, (long) std::min(k, 2.0)) + 0.5) * dist, eps = r.chance(0.5) ? 0 : r.uni(-3e-6, 3e-6);
        if (d == 2) eps = r.uni(1e-6, 3e-6); // (not in the last half of a w-bin)
        for (long i = 0; i < rows; ++i)
            if (sg * uvw->re(uvw->idx(i, d)) * s > b) uvw->set(uvw->idx(i, d), (sg * b + eps * dist) / s);
    }
    void near_bins(double wmax_steps)
    {
        if (uvw->shared || !P.b("w.top", 0.03)) return;   // deliberately in the last half bin
        Rng r = P.rng("w.top.r");
        long i = r.range(0, rows - 1);
        double k = std::floor(r.uni(-0.6, 0.6) * wmax_steps);
        uvw->set(uvw->idx(i, 2), (k - 0.3 / wos) * wstep / wl(0));
    }
    static cd phasor(double x) { return cd(std::cos(2 * PI * x), std::sin(2 * PI * x)); }
    void fill_vis(Arr* vis)
    {
        Rng r = P.rng("vis");
        for (int64_t e = 0; e < vis->n(); ++e)
        {
            double a = r.chance(0.05) ? 0 : r.uni(0.5, 1.5), p = r.uni(0, 1);
            if (!vis->shared) vis->set(e, a * phasor(p));
        }
    }
    double alone_tol() override { return dbl ? 1e-9 : 2e-4; }
    bool report(const char* fmt, double err, double lim, double err_known, const char* where = "")
    {
        if (err <= lim) return true;
        if (err_known <= lim)
        {
            why_class = "w-bin";
            return fail("%s: a visibility in the last half of a w-oversampling bin below a multiple of w_step is (de)gridded one w_step off (error %.3g of limit %.3g)", fmt, err, lim);
        }
        return fail("%s: error %.4g (limit %.4g); image %d, sub-grid %d (used %d), support %d/%d, oversampling %d/%d, theta %.3g, w_step %.4g, height %g, shear %.2g %.2g, "
                "%ld rows %ld channels %s", fmt, err, lim, N, S, eff, support, wsupport, os, wos, theta, wstep, height, hu, hv, rows, nch, where);
    }
};

static double root(double x) { return x > 0 ? std::sqrt(x) : 0; }

// Sum of visibilities at each of some inner pixels, directly.
struct PixCheck { int i, j; cd want; };

struct OpGridAll : GridGeom
{
    Arr *vis, *img; bool real_img;
    void gen() override
    {
        draw_geometry(true);
        real_img = P.b("real_image", 0.4);
        vis = in("vis", cplx(dbl), {rows, nch}, LAYOUT_ANY);
        fill_vis(vis);
        wmax = height * P.d("wmax", 0.2, 2.2);
        draw_uvw(0.45 * N, wmax);
        on_boundaries();
        near_bins(wmax);
        img = out("image", real_img ? real_t(dbl) : cplx(dbl), {N, N}, LAYOUT_C);
        fill(img, -1, 1);
    }
    void run(int) override
    {
        L("sdp_grid_wstack_wtower_grid_all", [&] { sdp_grid_wstack_wtower_grid_all(vis->mem, f0, df, uvw->mem, S, theta, wstep, hu, hv, support, os,
                wsupport, wos, frac, height, verb, img->mem, serial ? 1 : threads, st); });
    }
    bool has_serial() override { return true; }
    bool inner(int i, int j) const { return fabs(lm(i, N)) <= 0.3 * theta && fabs(lm(j, N)) <= 0.3 * theta; }
    bool compare_elem(Arr* a, int64_t e) override { return a != img || inner((int) (e / N), (int) (e % N)); }
    bool model() override
    {
        Rng r = P.rng("pixels");
        double amp = 0, err2 = 0, err2k = 0, n = 0;
        for (int64_t e = 0; e < vis->n(); ++e) amp = std::max(amp, std::abs(vis->get(e)));
        if (amp == 0) amp = 1;
        int npix = heavy ? 24 : 60;
        int h = (int) (0.3 * N);
        for (int k = 0; k < npix; ++k)
        {
            int i = N / 2 + (int) r.range(-h, h), j = N / 2 + (int) r.range(-h, h);
            double l = lm(i, N), m = lm(j, N), nn = lm_to_n_ref(l, m, hu, hv);
            cd s = 0, sk = 0;
            for (long a = 0; a < rows; ++a)
                for (long c = 0; c < nch; ++c)
                {
                    double u, v, w;
                    coords(a, c, u, v, w);
                    cd t = vis->get(vis->idx(a, c)), p = phasor(u * l + v * m + w * nn);
                    double wk = wbin(w);
                    s += t * p; sk += t * (wk == w ? p : phasor(u * l + v * m + wk * nn));
                }
            cd got = img->get(img->idx(i, j));
            double d = real_img ? fabs(got.real() - s.real()) : std::abs(got - s);
            double dk = real_img ? fabs(got.real() - sk.real()) : std::abs(got - sk);
            if (!(d < 1e30)) return fail("pixel (%d, %d) is not finite or huge", i, j);
            err2 += d * d; err2k += dk * dk; n++;
        }
        double q = amp * root((double) (rows * nch)), e = root(err2 / n) / q, ek = root(err2k / n) / q;
        return report("image differs from the direct sum of the visibilities (rms per pixel, per unit visibility)", e, tol, ek);
    }
};
REGISTER_OPW(OpGridAll, "grid_all", "C01", 1.0);

struct OpDegridAll : GridGeom
{
    Arr *vis, *img; bool real_img;
    void gen() override
    {
        draw_geometry(true);
        real_img = P.b("real_image", 0.4);
        img = in("image", real_img ? real_t(dbl) : cplx(dbl), {N, N}, LAYOUT_C);
        Rng r = P.rng("src");
        int h = (int) (0.3 * N), ns = (int) P.i("nsrc", 1, 5);
        if (!img->shared)
        {
            zero(img);
            for (int k = 0; k < ns; ++k)
                img->set(img->idx(N / 2 + r.range(-h, h), N / 2 + r.range(-h, h)), cd(r.uni(0.3, 1), real_img ? 0 : r.uni(-0.5, 0.5)));
        }
        wmax = height * P.d("wmax", 0.2, 2.2);
        draw_uvw(0.45 * N, wmax);
        on_boundaries();
        near_bins(wmax);
        vis = out("vis", cplx(dbl), {rows, nch}, LAYOUT_ANY);
        fill(vis, -1, 1);
    }
    void run(int) override
    {
        L("sdp_grid_wstack_wtower_degrid_all", [&] { sdp_grid_wstack_wtower_degrid_all(img->mem, f0, df, uvw->mem, S, theta, wstep, hu, hv, support, os,
                wsupport, wos, frac, height, verb, vis->mem, serial ? 1 : threads, st); });
    }
    bool has_serial() override { return true; }
    bool model() override
    {
        struct Src { double l, m, n; cd f; };
        std::vector<Src> src;
        double flux = 0;
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
        {
            cd f = img->get(img->idx(i, j));
            if (f == 0.0) continue;
            double l = lm(i, N), m = lm(j, N);
            src.push_back(Src{l, m, lm_to_n_ref(l, m, hu, hv), f});
            flux += std::abs(f);
        }
        double worst = 0, worstk = 0;
        char where[300] = "";
        for (long a = 0; a < rows; ++a)
            for (long c = 0; c < nch; ++c)
            {
                double u, v, w;
                coords(a, c, u, v, w);
                cd s = 0, sk = 0;
                double wk = wbin(w);
                for (auto& q : src) s += q.f * phasor(-(u * q.l + v * q.m + w * q.n));
                if (wk == w) sk = s;
                else for (auto& q : src) sk += q.f * phasor(-(u * q.l + v * q.m + wk * q.n));
                worstk = std::max(worstk, std::abs(vis->get(vis->idx(a, c)) - sk) / flux);
                double d = std::abs(vis->get(vis->idx(a, c)) - s) / flux;
                if (!(d < 1e30)) return fail("visibility (%ld, %ld) is not finite or huge", a, c);
                if (d > worst)
                {
                    worst = d;
                    cd g = vis->get(vis->idx(a, c));
                    snprintf(where, sizeof where, "row %ld channel %ld at (%.6g, %.6g) pixels, %.6g w-steps: (%.6g, %.6g) instead of (%.6g, %.6g)", a, c, u * theta, v * theta, w / wstep,
                            g.real(), g.imag(), s.real(), s.imag());
                }
            }
        return report("a visibility differs from the direct sum over the image (per unit flux)", worst, 3 * tol, worstk, where);
    }
};
REGISTER_OPW(OpDegridAll, "degrid_all", "C02", 1.0);

// One sub-grid, with row and channel ranges, through the w-tower kernel or the
// direct kernel. Rows are split between callers that share the plan.
struct SubGeom : GridGeom
{
    bool direct, nop = false, beyond = false; int ou, ov, ow; long r0, r1; int nparts; std::vector<long> cut;
    Arr *sc, *ec;
    std::vector<Arr*> scp, ecp; // direct kernel: rows are split by giving each caller no channels in the others' rows
    sdp_GridderWtowerUVW* plan = nullptr; sdp_GridderDirect* dplan = nullptr;
    std::unique_ptr<PswfRef> p_lm, p_n;
    void draw_sub(bool dir)
    {
        draw_geometry(false);
        direct = dir;
        if (direct) { dbl = P.b("dbl", 0.7); dbl_uvw = dbl; }
        ou = (int) P.i("ou", -N / 2, N / 2); ov = (int) P.i("ov", -N / 2, N / 2); ow = (int) P.i("ow", -4, 4);
        if (!P.b("offsets", 0.7)) ou = ov = ow = 0;
        rows = P.size("rows", 1, direct ? 14 : 40);
        draw_uvw(1, 1);
        sc = in("start_chs", SDP_MEM_INT, {rows}, LAYOUT_ANY);
        ec = in("end_chs", SDP_MEM_INT, {rows}, LAYOUT_ANY);
        Rng r = P.rng("sub");
        // Sometimes visibilities near or past the edge of the sub-grid, which the
        // kernels leave out if they do not fit.
        beyond = !direct && P.b("beyond", 0.12);
        if (!uvw->shared && beyond)
            for (long i = 0; i < rows; ++i)
            {
                long cc = r.range(0, nch - 1), a = r.range(0, nch), b = r.range(0, nch);
                double lim = S / 2.0, s = wl(cc);
                for (int d = 0; d < 2; ++d)
                {
                    double x = r.chance(0.4) ? r.uni(-lim, lim) : r.chance(0.7) ? (r.chance(0.5) ? 1 : -1) * (lim + r.uni(-support, 3)) : r.uni(-3, 3) * lim;
                    uvw->set(uvw->idx(i, d), ((d ? ov : ou) + x) / theta / s);
                }
                uvw->set(uvw->idx(i, 2), (ow + r.uni(-1, 1) * std::max(0.5, height / 2)) * wstep / s);
                sc->set(i, std::min(a, b)); ec->set(i, std::max(a, b));
            }
        else if (!uvw->shared)
            for (long i = 0; i < rows; ++i)
            {
                long cc = r.range(0, nch - 1);
                double lim = 0.5 * eff, s = wl(cc);
                double hw = std::max(0.5, height / 2);
                uvw->set(uvw->idx(i, 0), (ou + r.uni(-lim, lim)) / theta / s);
                uvw->set(uvw->idx(i, 1), (ov + r.uni(-lim, lim)) / theta / s);
                double w = ow + r.uni(-hw, hw);
                uvw->set(uvw->idx(i, 2), w * wstep / s);
                // Channels that stay inside the usable part of the sub-grid
                long a = cc, b = cc + 1;
                while (a > 0 && ok_ch(i, a - 1, lim + 0.5, hw + 0.5)) a--;
                while (b < nch && ok_ch(i, b, lim + 0.5, hw + 0.5)) b++;
                if (r.chance(0.4)) { long x = r.range(a, b), y = r.range(a, b); a = std::min(x, y); b = std::max(x, y); }
                if (r.chance(0.1)) a = b;
                sc->set(i, a); ec->set(i, b);
            }
        if (direct) { r0 = 0; r1 = rows; nop = true; nparts = P.b("split", 0.5) ? (int) P.i("parts", 2, 3) : 1; }
        else if (P.b("all_rows", 0.25)) { r0 = 0; r1 = rows; nop = true; nparts = 1; }
        else { r0 = P.i("r0", 0, rows); r1 = P.i("r1", 0, rows); if (r0 > r1) std::swap(r0, r1); nparts = (int) P.i("parts", 1, 3); }
        cut = {r0};
        for (int k = 1; k < nparts; ++k) cut.push_back(P.i(("cut" + std::to_string(k)).c_str(), r0, r1));
        cut.push_back(r1);
        std::sort(cut.begin(), cut.end());
        scp = {sc}; ecp = {ec};
        if (direct && nparts > 1)
        {
            scp.clear(); ecp.clear();
            for (int k = 0; k < nparts; ++k)
            {
                char nm[80];
                snprintf(nm, sizeof nm, "start_chs rows %ld to %ld of part %d", cut[k], cut[k + 1], k);
                scp.push_back(in(nm, SDP_MEM_INT, {rows}, LAYOUT_ANY));
                snprintf(nm, sizeof nm, "end_chs rows %ld to %ld of part %d", cut[k], cut[k + 1], k);
                ecp.push_back(in(nm, SDP_MEM_INT, {rows}, LAYOUT_ANY));
                for (long i = 0; i < rows; ++i)
                {
                    if (!scp[k]->shared) scp[k]->set(i, sc->geti(i));
                    if (!ecp[k]->shared) ecp[k]->set(i, i >= cut[k] && i < cut[k + 1] ? ec->geti(i) : sc->geti(i));
                }
            }
        }
        p_lm.reset(new PswfRef(support * PI / 2));
        p_n.reset(new PswfRef(wsupport * PI / 2));
    }
    bool ok_ch(long i, long c, double lim, double hw)
    {
        double u, v, w;
        coords(i, c, u, v, w);
        return fabs(u * theta - ou) <= lim && fabs(v * theta - ov) <= lim && fabs(w / wstep - ow) <= hw;
    }
    long first(int k) const { return nop ? -1 : cut[k]; }
    long last(int k) const { return nop ? -1 : cut[k + 1]; }
    double corr(int i, int j)
    {
        double l = lm(i, S), m = lm(j, S);
        double p = (*p_lm)(2 * l / theta) * (*p_lm)(2 * m / theta);
        if (!direct)
        {
            double x = fabs(2 * lm_to_n_ref(l, m, hu, hv) * wstep);
            if (x < 1) p *= (*p_n)(x);
        }
        return p;
    }
    void prepare() override
    {
        if (direct) L("sdp_gridder_direct_create", [&] { dplan = sdp_gridder_direct_create(N, S, theta, wstep, hu, hv, support, st); });
        else L("sdp_gridder_wtower_uvw_create", [&] { plan = sdp_gridder_wtower_uvw_create(N, S, theta, wstep, hu, hv, support, os, wsupport, wos, st); });
    }
    void finish() override
    {
        if (direct) L("sdp_gridder_direct_free", [&] { sdp_gridder_direct_free(dplan); });
        else L("sdp_gridder_wtower_uvw_free", [&] { sdp_gridder_wtower_uvw_free(plan); });
        plan = nullptr; dplan = nullptr;
    }
    bool outside(long i, long c) const // well outside of the sub-grid
    {
        double u, v, w;
        coords(i, c, u, v, w);
        return fabs(u * theta - ou) > S / 2 + 1 || fabs(v * theta - ov) > S / 2 + 1;
    }
    bool used(long i, long c) const { return i >= r0 && i < r1 && c >= sc->geti(i) && c < ec->geti(i); }
    double direct_w(double w) const { return direct ? w : wbin_rel(w); }
    double wbin_rel(double w) const { return wbin(w); }
};

struct OpSubDegrid : SubGeom
{
    Arr *img, *vis;
    bool dir() const { return name == "direct_degrid"; }
    int callers() override { return nparts; }
    void gen() override
    {
        draw_sub(dir());
        bool real = direct && P.b("real_image", 0.5);
        img = in("subgrid_image", real ? real_t(dbl) : cplx(dbl), {S, S}, LAYOUT_C);
        Rng r = P.rng("src");
        if (!img->shared)
        {
            zero(img);
            int h = (int) (0.3 * S), ns = (int) P.i("nsrc", 1, 5);
            for (int k = 0; k < ns; ++k)
            {
                int i = S / 2 + (int) r.range(-h, h), j = S / 2 + (int) r.range(-h, h);
                double re = r.uni(0.3, 1), im = r.uni(-0.5, 0.5);
                img->set(img->idx(i, j), cd(re, direct ? 0 : im) / corr(i, j));
            }
        }
        vis = out("vis", cplx(dbl), {rows, nch}, LAYOUT_ANY);
        fill(vis, -1, 1);
        vis->mask.assign(rows * nch, 0);
        for (long i = 0; i < rows; ++i) for (long c = 0; c < nch; ++c) if (used(i, c) && !(beyond && outside(i, c))) vis->mask[i * nch + c] = 1;
    }
    void run(int k) override
    {
        if (direct)
            L("sdp_gridder_direct_degrid", [&] { sdp_gridder_direct_degrid(dplan, img->mem, ou, ov, ow, f0, df, uvw->mem, scp[k]->mem, ecp[k]->mem, vis->mem, st); });
        else
            L("sdp_gridder_wtower_uvw_degrid", [&] { sdp_gridder_wtower_uvw_degrid(plan, img->mem, ou, ov, ow, f0, df, uvw->mem, sc->mem, ec->mem, vis->mem,
                    first(k), last(k), st); });
    }
    bool model() override
    {
        if (beyond) return true;
        double worst = 0, worstk = 0, flux = 0;
        char where[300] = "";
        struct Src { double l, m, n; cd f; };
        std::vector<Src> src;
        for (int i = 0; i < S; ++i) for (int j = 0; j < S; ++j)
        {
            cd f = img->get(img->idx(i, j));
            if (f == 0.0) continue;
            f *= corr(i, j);
            double l = lm(i, S), m = lm(j, S);
            src.push_back(Src{l, m, lm_to_n_ref(l, m, hu, hv), f});
            flux += std::abs(f);
        }
        for (long i = r0; i < r1; ++i) for (long c = 0; c < nch; ++c)
        {
            if (!used(i, c)) continue;
            double u, v, w;
            coords(i, c, u, v, w);
            double wk = direct ? w : wbin(w);
            u -= ou / theta; v -= ov / theta; w -= ow * wstep; wk -= ow * wstep;
            cd s = vis->get_snap(vis->idx(i, c)), sk = s, g = vis->get(vis->idx(i, c));
            for (auto& q : src) { s += q.f * phasor(-(u * q.l + v * q.m + w * q.n)); sk += q.f * phasor(-(u * q.l + v * q.m + wk * q.n)); }
            if (!(std::abs(g) < 1e30)) return fail("visibility (%ld, %ld) is not finite or huge", i, c);
            worstk = std::max(worstk, std::abs(g - sk) / flux);
            double d = std::abs(g - s) / flux;
            if (d > worst)
            {
                worst = d;
                snprintf(where, sizeof where, "row %ld channel %ld at (%.6g, %.6g) pixels, %.6g w-steps from the sub-grid centre: (%.6g, %.6g) instead of (%.6g, %.6g)",
                        i, c, u * theta, v * theta, w / wstep, g.real(), g.imag(), s.real(), s.imag());
            }
        }
        return report("a visibility differs from the direct sum over the sub-grid (per unit flux)", worst, direct ? (dbl ? 1e-6 : 2e-2) : 3 * tol, direct ? 1e9 : worstk, where);
    }
};
struct OpDirectDegrid : OpSubDegrid {};
REGISTER_OPW(OpSubDegrid, "subgrid_degrid", "C03", 1.0);
REGISTER_OPW(OpDirectDegrid, "direct_degrid", "C03", 0.4);

struct OpSubGrid : SubGeom
{
    Arr *vis; std::vector<Arr*> img; bool separate;
    bool dir() const { return name == "direct_grid"; }
    int callers() override { return separate ? nparts : 1; }
    void gen() override
    {
        draw_sub(dir());
        separate = nparts > 1 && P.b("separate", 0.5);
        vis = in("vis", cplx(dbl), {rows, nch}, LAYOUT_ANY);
        fill_vis(vis);
        for (int k = 0; k < callers(); ++k)
        {
            img.push_back(out(("subgrid_image" + std::to_string(k)).c_str(), dbl || (!direct && P.b("image_dbl", 0.3)) ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT, {S, S}, LAYOUT_C));
            fill(img[k], -1, 1);
        }
    }
    void one(int part, Arr* a)
    {
        if (direct)
            L("sdp_gridder_direct_grid", [&] { sdp_gridder_direct_grid(dplan, vis->mem, uvw->mem, scp[part]->mem, ecp[part]->mem, f0, df, a->mem, ou, ov, ow, st); });
        else
            L("sdp_gridder_wtower_uvw_grid", [&] { sdp_gridder_wtower_uvw_grid(plan, vis->mem, uvw->mem, sc->mem, ec->mem, f0, df, a->mem, ou, ov, ow,
                    first(part), last(part), st); });
    }
    void run(int k) override
    {
        if (separate) one(k, img[k]);
        else for (int p = 0; p < nparts; ++p) one(p, img[0]);
    }
    bool model() override
    {
        if (beyond)
        {
            // Nothing is added if there is nothing inside.
            for (long a = r0; a < r1; ++a) for (long c = 0; c < nch; ++c) if (used(a, c) && !outside(a, c)) return true;
            for (auto* a : img) for (int64_t e = 0; e < a->n(); ++e)
                if (!(std::abs(a->get(e) - a->get_snap(e)) < 1e-6)) return fail("the sub-grid image changed although no visibility lies in the sub-grid");
            return true;
        }
        double amp = 0, err2 = 0, err2k = 0, n = 0, cnt = 0;
        for (int64_t e = 0; e < vis->n(); ++e) amp = std::max(amp, std::abs(vis->get(e)));
        if (amp == 0) amp = 1;
        int h = (int) (0.3 * S);
        Rng r = P.rng("pixels");
        for (int k = 0; k < 40; ++k)
        {
            int i = S / 2 + (int) r.range(-h, h), j = S / 2 + (int) r.range(-h, h);
            double l = lm(i, S), m = lm(j, S), nn = lm_to_n_ref(l, m, hu, hv);
            cd s = 0, sk = 0, g = 0;
            cnt = 0;
            for (long a = r0; a < r1; ++a) for (long c = 0; c < nch; ++c)
            {
                if (!used(a, c)) continue;
                double u, v, w;
                coords(a, c, u, v, w);
                double wk = direct ? w : wbin(w);
                u -= ou / theta; v -= ov / theta; w -= ow * wstep; wk -= ow * wstep;
                cd t = vis->get(vis->idx(a, c));
                s += t * phasor(u * l + v * m + w * nn); sk += t * phasor(u * l + v * m + wk * nn);
                cnt++;
            }
            for (auto* a : img) g += a->get(a->idx(i, j)) - a->get_snap(a->idx(i, j));
            g /= corr(i, j);
            double d = std::abs(g - s);
            if (!(d < 1e30)) return fail("pixel (%d, %d) is not finite or huge", i, j);
            err2 += d * d; err2k += std::norm(g - sk); n++;
        }
        double q = amp * root(std::max(1.0, cnt));
        return report("sub-grid image differs from the direct sum of the selected visibilities (rms per pixel, per unit visibility)", root(err2 / n) / q,
                direct ? (dbl ? 1e-6 : 2e-2) : tol, direct ? 1e9 : root(err2k / n) / q);
    }
};
struct OpDirectGrid : OpSubGrid {};
REGISTER_OPW(OpSubGrid, "subgrid_grid", "C03", 1.0);
REGISTER_OPW(OpDirectGrid, "direct_grid", "C03", 0.4);

// The largest w-tower height for a target accuracy.
struct OpHeight : GridGeom
{
    double got = 0, target, fov; int nsamp;
    void gen() override
    {
        draw_geometry(false);
        N = std::max(N, 2 * S); // the documented choice of image size; if the sub-grid covers the image no height is too much
        target = P.b("auto_target", 0.5) ? 0 : P.d("target", 0.001, 0.05);
        fov = theta * P.d("fov", 0.3, 0.7);
        // The corner sources need a pixel that does not divide the image size: widen the field of view until there is one.
        auto edge = [&](double f) { int e = (int) (N / theta * f / 2); while (e > 0 && N % e == 0) --e; return e; };
        while (edge(fov) < 1 && fov < 0.9 * theta) fov += 0.05 * theta;
        nsamp = (int) P.i("nsamp", 2, 4);
        rows = nch = 1;
    }
    void run(int) override
    {
        L("sdp_gridder_determine_max_w_tower_height", [&] { got = sdp_gridder_determine_max_w_tower_height(N, S, theta, wstep, hu, hv, support, os, wsupport, wos,
                fov, frac, nsamp, target, st); });
    }
    uint64_t extra_hash() override { return hash64((uint64_t) (int64_t) got, 1); }
    bool model() override
    {
        if (!(got >= -2 && got < 1e6) || std::fmod(got, 2.0) != 0) return fail("w-tower height is %g", got);
        return true;
    }
};
REGISTER_OPW(OpHeight, "w_tower_height", "-", 0.1);
