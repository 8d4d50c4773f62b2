// Direct Fourier transforms (C07), flagger (C08) and beams (C09).
#include "harness.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include <algorithm>
using namespace sim;

static cd expi(double turns)
{
    turns -= std::floor(turns);
    return cd(std::cos(2 * PI * turns), std::sin(2 * PI * turns));
}
static void fill_dirs(Op* o, Arr* a)
{
    if (a->shared) return;
    Rng r = o->P.rng("dirs");
    for (int64_t i = 0; i < a->shape[0]; ++i)
    {
        double l = r.uni(-0.3, 0.3), m = r.uni(-0.3, 0.3);
        if (r.chance(0.1)) l = m = 0;
        a->set(a->idx(i, 0), l); a->set(a->idx(i, 1), m); a->set(a->idx(i, 2), std::sqrt(1 - l * l - m * m) - 1);
    }
}

// Prediction from point components, both array layouts.
struct OpDftPoint : Op
{
    bool v01, vdbl; long nt, nb, nch, npol, nc; double f0, df;
    Arr *dirs, *flux, *uvw, *vis;
    void gen() override
    {
        v01 = P.b("v01", 0.6); vdbl = P.b("vis_dbl");
        nt = P.size("times", 1, 4); nb = P.size("baselines", 1, 24); nch = P.size("nch", 1, 6); nc = P.size("components", 1, 12);
        npol = P.pick("npol", {1, 4});
        f0 = P.d("f0", 5e7, 3e8); df = P.d("df", 1e4, 1e7);
        dirs = in("directions", SDP_MEM_DOUBLE, {nc, 3}); fill_dirs(this, dirs);
        flux = in("fluxes", SDP_MEM_COMPLEX_DOUBLE, {nc, nch, npol}); fill(flux, -1, 1);
        if (v01) uvw = in("uvw", SDP_MEM_DOUBLE, {nt, nb, 3});
        else uvw = in("uvw_lambda", SDP_MEM_DOUBLE, {nt, nb, nch, 3});
        fill(uvw, -300, 300);
        vis = out("vis", cplx(vdbl), {nt, nb, nch, npol}); fill(vis, -5, 5);
    }
    void run(int) override
    {
        if (v01) L("sdp_dft_point_v01", [&] { sdp_dft_point_v01(dirs->mem, flux->mem, uvw->mem, f0, df, vis->mem, st); });
        else L("sdp_dft_point_v00", [&] { sdp_dft_point_v00(dirs->mem, flux->mem, uvw->mem, vis->mem, st); });
    }
    bool model() override
    {
        for (long t = 0; t < nt; ++t) for (long b = 0; b < nb; ++b) for (long c = 0; c < nch; ++c)
        {
            double u[3];
            for (int k = 0; k < 3; ++k)
                u[k] = v01 ? uvw->re(uvw->idx(t, b, k)) * (f0 + c * df) / C0 : uvw->re(uvw->idx(t, b, c, k));
            std::vector<cd> ph(nc);
            for (long s = 0; s < nc; ++s)
                ph[s] = expi(-(dirs->re(dirs->idx(s, 0)) * u[0] + dirs->re(dirs->idx(s, 1)) * u[1] + dirs->re(dirs->idx(s, 2)) * u[2]));
            for (long p = 0; p < npol; ++p)
            {
                cd sum = 0; double amp = 1e-3;
                for (long s = 0; s < nc; ++s) { cd f = flux->get(flux->idx(s, c, p)); sum += f * ph[s]; amp += std::abs(f); }
                if (!close(vis, vis->idx(t, b, c, p), sum, amp * (vdbl ? 1e-9 : 3e-6), "sum over components")) return false;
            }
        }
        return true;
    }
};
REGISTER_OPW(OpDftPoint, "dft_point", "C07 misfit", 1.5);

struct DftGeom : Op
{
    bool dbl, sel, centre; long rows, nch; double f0, df, theta, wstep; int ou, ov, ow;
    Arr *uvw, *sc = nullptr, *ec = nullptr;
    void draw()
    {
        dbl = P.b("dbl", 0.6); sel = P.b("ranges", 0.75); centre = P.b("no_offset", 0.2);
        rows = P.size("rows", 0, 24); nch = P.size("nch", 1, 8);
        f0 = P.d("f0", 5e7, 3e8); df = P.d("df", 1e4, 1e7);
        theta = centre ? 0 : P.d("theta", 0.02, 0.3); wstep = P.d("wstep", 1, 50);
        ou = (int) P.i("ou", -40, 40); ov = (int) P.i("ov", -40, 40); ow = (int) P.i("ow", -4, 4);
        uvw = in("uvws", real_t(dbl), {rows, 3}, LAYOUT_ANY); fill(uvw, -300, 300);
        if (sel)
        {
            sc = in("start_chs", SDP_MEM_INT, {rows}, LAYOUT_ANY); ec = in("end_chs", SDP_MEM_INT, {rows}, LAYOUT_ANY);
            if (!sc->shared)
            {
                Rng r = P.rng("chs");
                for (long i = 0; i < rows; ++i)
                {
                    long a = r.range(0, nch), b = r.range(0, nch);
                    if (r.chance(0.3)) { a = 0; b = nch; }
                    if (r.chance(0.7) && a > b) std::swap(a, b);
                    sc->set(i, a); ec->set(i, b);
                }
            }
        }
    }
    bool used(long i, long c) { return !sel || (c >= sc->geti(i) && c < ec->geti(i)); }
    void coords(long i, long c, double* u)
    {
        double k = (f0 + df * c) / C0;
        double d[3] = {0, 0, 0};
        if (!centre) { d[0] = ou / theta; d[1] = ov / theta; d[2] = ow * wstep; }
        for (int a = 0; a < 3; ++a) u[a] = uvw->re(uvw->idx(i, a)) * k - d[a];
    }
    sdp_Mem* m(Arr* a) { return a ? a->mem : nullptr; }
};
struct OpGridderDft : DftGeom
{
    long ns; Arr *flux, *lmn, *vis;
    void gen() override
    {
        draw();
        ns = P.size("sources", 0, 12);
        flux = in("flux", SDP_MEM_DOUBLE, {ns}, LAYOUT_ANY); fill(flux, -1, 1);
        lmn = in("lmn", real_t(dbl), {ns, 3}, LAYOUT_ANY); fill_dirs(this, lmn);
        vis = out("vis", cplx(dbl), {rows, nch}, LAYOUT_ANY); fill(vis, -2, 2);
        vis->mask.assign(rows * nch, 0);
        for (long i = 0; i < rows; ++i) for (long c = 0; c < nch; ++c) vis->mask[i * nch + c] = used(i, c);
    }
    void run(int) override
    {
        L("sdp_gridder_dft", [&] { sdp_gridder_dft(uvw->mem, m(sc), m(ec), flux->mem, lmn->mem, ou, ov, ow, theta, wstep, f0, df, vis->mem, st); });
    }
    bool model() override
    {
        double amp = 3;
        for (long s = 0; s < ns; ++s) amp += std::abs(flux->re(s));
        for (long i = 0; i < rows; ++i) for (long c = 0; c < nch; ++c)
        {
            if (!used(i, c)) continue;
            double u[3]; coords(i, c, u);
            cd s = vis->get_snap(vis->idx(i, c));
            for (long k = 0; k < ns; ++k)
                s += flux->re(k) * expi(-(u[0] * lmn->re(lmn->idx(k, 0)) + u[1] * lmn->re(lmn->idx(k, 1)) + u[2] * lmn->re(lmn->idx(k, 2))));
            if (!close(vis, vis->idx(i, c), s, amp * (dbl ? 1e-8 : 3e-6), "sum over sources")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpGridderDft, "gridder_dft", "C07");

struct OpGridderIdft : DftGeom
{
    long n; Arr *lmn, *vis, *taper = nullptr, *img;
    void gen() override
    {
        draw();
        n = P.size("image_size", 1, 9);
        lmn = in("lmn", real_t(dbl), {n * n, 3}, LAYOUT_ANY); fill_dirs(this, lmn);
        vis = in("vis", cplx(dbl), {rows, nch}, LAYOUT_ANY); fill(vis, -1, 1);
        if (P.b("taper", 0.4)) { taper = in("taper", SDP_MEM_DOUBLE, {n}, LAYOUT_ANY); fill(taper, 0.1, 1); }
        img = out("image", cplx(dbl), {n, n}, LAYOUT_ANY); fill(img, -2, 2);
    }
    void run(int) override
    {
        L("sdp_gridder_idft", [&] { sdp_gridder_idft(uvw->mem, vis->mem, m(sc), m(ec), lmn->mem, m(taper), ou, ov, ow, theta, wstep, f0, df, img->mem, st); });
    }
    bool model() override
    {
        double amp = 3;
        for (int64_t e = 0; e < vis->n(); ++e) amp += std::abs(vis->get(e));
        for (long a = 0; a < n; ++a) for (long b = 0; b < n; ++b)
        {
            long k = a * n + b;
            cd s = 0;
            for (long i = 0; i < rows; ++i) for (long c = 0; c < nch; ++c)
            {
                if (!used(i, c)) continue;
                double u[3]; coords(i, c, u);
                s += vis->get(vis->idx(i, c)) * expi(u[0] * lmn->re(lmn->idx(k, 0)) + u[1] * lmn->re(lmn->idx(k, 1)) + u[2] * lmn->re(lmn->idx(k, 2)));
            }
            if (taper) s *= taper->re(a) * taper->re(b);
            if (!close(img, img->idx(a, b), s + img->get_snap(img->idx(a, b)), amp * (dbl ? 1e-8 : 3e-6), "sum over visibilities")) return false;
        }
        return true;
    }
};
REGISTER_OP(OpGridderIdft, "gridder_idft", "C07");

// ---------------------------------------------------------------- flagger
struct OpFlagger : Op
{
    bool dbl; long nt, nb, nch, npol; int step, window, hist; double alpha, tm, tv, tb;
    Arr *vis, *flags;
    void gen() override
    {
        dbl = P.b("dbl");
        nt = P.size("times", 1, 12); nb = P.size("baselines", 1, 8); nch = P.size("nch", 1, 16); npol = P.pick("npol", {1, 2, 4});
        step = (int) P.i("step", 1, std::min(4L, nch)); window = (int) P.i("window", 0, 3); hist = (int) P.size("history", 1, 14);
        alpha = P.d("alpha", 0, 1); tm = P.d("thr_mag", 1, 6); tv = P.d("thr_var", 1, 6); tb = P.d("thr_broad", 1, 6);
        vis = in("vis", cplx(dbl), {nt, nb, nch, npol});
        if (!vis->shared)
        {
            Rng r = P.rng("vis");
            bool coarse = P.b("coarse", 0.4);
            for (int64_t e = 0; e < vis->n(); ++e)
            {
                double a = coarse ? (double) r.range(1, 3) : r.uni(0.9, 1.1);
                if (r.chance(0.06)) a *= r.uni(2, 30);
                vis->set(e, coarse ? cd(a, 0) : a * expi(r.u01()));
            }
            // Broadband events.
            for (int k = 0; k < 2; ++k)
            {
                long t = r.range(0, nt - 1), b = r.range(0, nb - 1), p = r.range(0, npol - 1);
                if (r.chance(0.5)) for (long c = 0; c < nch; ++c) vis->set(vis->idx(t, b, c, p), 20.0 * vis->get(vis->idx(t, b, c, p)));
            }
        }
        flags = out("flags", SDP_MEM_INT, {nt, nb, nch, npol});
        bool dirty = P.b("flags_preset", 0.3);
        Rng r = P.rng("flags");
        for (int64_t e = 0; e < flags->n(); ++e) flags->set(e, dirty && r.chance(0.1) ? 1 : 0);
    }
    void run(int) override
    {
        L("sdp_flagger_dynamic_threshold", [&] { sdp_flagger_dynamic_threshold(vis->mem, flags->mem, alpha, tm, tv, tb, step, window, hist, st); });
    }
    static double mid(std::vector<double> v)
    {
        std::sort(v.begin(), v.end());
        size_t k = (v.size() + 1) / 2;
        return v[std::min(k, v.size() - 1)];
    }
    static double dev(const std::vector<double>& v, double m)
    {
        std::vector<double> d;
        for (double x : v) d.push_back(std::fabs(x - m));
        return mid(d);
    }
    // 1 over the threshold, -1 not, 0 too close to call
    static int over(double m, double d, double v, double thr)
    {
        double z = d == 0 ? (v == m ? 0 : 1e7) : 0.6795 * (v - m) / d;
        double a = std::fabs(z), tol = 1e-9 * (1 + thr) + (d > 0 ? 1e-14 * (std::fabs(v) + std::fabs(m)) / d : 0);
        if (std::fabs(a - thr) < tol) return 0;
        return a > thr ? 1 : -1;
    }
    bool model() override
    {
        for (long b = 0; b < nb; ++b) for (long p = 0; p < npol; ++p)
        {
            std::vector<int> f(nt * nch, -1); // 1 flagged, 0 undecided, -1 not
            std::vector<double> meds, score(nch, 0.0);
            auto mark = [&](long t, long c, int how) {
                for (long k = c - window; k <= c + window; ++k)
                    if (k >= 0 && k < nch) f[t * nch + k] = std::max(f[t * nch + k], how);
            };
            auto mag = [&](long t, long c) { return dbl ? std::abs(vis->get(vis->idx(t, b, c, p))) : (double) std::abs(std::complex<float>(vis->get(vis->idx(t, b, c, p)))); };
            long ns = nch / step;
            for (long t = 0; t < nt; ++t)
            {
                std::vector<double> s;
                for (long k = 0; k < ns; ++k) s.push_back(mag(t, k * step));
                double med = mid(s), md = dev(s, med);
                meds.push_back(med);
                std::vector<double> h;
                for (long k = 0; k < std::min(t + 1, (long) hist); ++k) h.push_back(meds[t - k]);
                double mm = mid(h), mmd = dev(h, mm);
                int broad = t > 0 ? over(mm, mmd, med, tb) : -1;
                for (long c = 0; c < nch; ++c) mark(t, c, std::max(broad, over(med, md, mag(t, c), tm)));
                if (t == 0) continue;
                for (long c = 0; c < nch; ++c)
                {
                    double rate = std::fabs(mag(t - 1, c) - mag(t, c));
                    score[c] = t == 1 ? rate : alpha * rate + (1 - alpha) * score[c];
                }
                std::vector<double> ts;
                for (long k = 0; k < ns; ++k) ts.push_back(score[k * step]);
                double mv = mid(ts), mvd = dev(ts, med); // deviations are about the amplitude median
                for (long c = 0; c < nch; ++c)
                {
                    int o = over(mv, mvd, score[c], tv);
                    // Equality of rounded scores decides when the deviation vanishes.
                    if (mvd <= 1e-12 * med || (mvd == 0 && score[c] != mv && std::fabs(score[c] - mv) < 1e-12)) o = 0;
                    mark(t, c, o); mark(t - 1, c, o);
                }
            }
            for (long t = 0; t < nt; ++t) for (long c = 0; c < nch; ++c)
            {
                int64_t e = flags->idx(t, b, c, p);
                long was = std::real(flags->get_snap(e)), got = flags->geti(e);
                int want = f[t * nch + c];
                if (want == 0) { if (got != 1 && got != was) return fail("flag at time %ld baseline %ld channel %ld pol %ld is %ld", t, b, c, p, got); continue; }
                if (got != (want == 1 ? 1 : was))
                    return fail("flag at time %ld baseline %ld channel %ld pol %ld is %ld, expected %ld", t, b, c, p, got, want == 1 ? 1 : was);
            }
        }
        return true;
    }
};
REGISTER_OPW(OpFlagger, "flagger", "C08 misfit", 1.2);

// ---------------------------------------------------------------- beams
struct OpStation : Op
{
    bool dbl, pol, two, norm, ex, ey, has_z, beam, index; long ne, np, ntype, off_in, off_out, pad_in, pad_out; double k;
    Arr *w, *x[3], *q[3], *idx_a = nullptr, *data = nullptr, *o;
    void gen() override
    {
        dbl = P.b("dbl"); pol = P.b("pol"); two = P.b("two_by_two"); norm = P.b("norm"); ex = P.b("eval_x", 0.75); ey = P.b("eval_y", 0.75);
        has_z = P.b("has_z", 0.7); beam = P.b("element_beam", 0.6); index = beam && P.b("index", 0.5);
        ne = P.size("elements", 1, 16); np = P.size("points", 0, 40);
        off_in = P.size("off_in", 0, 5); off_out = P.size("off_out", 0, 5); pad_in = P.i("pad_in", 0, 3); pad_out = P.i("pad_out", 0, 3);
        k = P.d("wavenumber", 0.5, 6);
        sdp_MemType r = real_t(dbl), c = cplx(dbl);
        w = in("weights", c, {ne}); fill(w, -1, 1);
        const char* xn[] = {"x", "y", "z"}; const char* pn[] = {"px", "py", "pz"};
        for (int d = 0; d < 3; ++d) { x[d] = in(xn[d], r, {ne}); fill(x[d], -20, 20); }
        for (int d = 0; d < 3; ++d) { q[d] = nullptr; if (d < 2 || has_z) { q[d] = in(pn[d], r, {off_in + np + pad_in}); fill(q[d], -0.6, 0.6); } }
        ntype = index ? P.size("types", 1, ne) : ne;
        auto shape = [&](std::vector<int64_t> s) { if (pol) { if (two) { s.push_back(2); s.push_back(2); } else s.push_back(4); } return s; };
        if (index) { idx_a = in("beam_index", SDP_MEM_INT, {ne}); fill_int(idx_a, 0, ntype - 1); }
        if (beam) { data = in("element_beam", c, shape({ntype, np})); fill(data, -1, 1); }
        o = out("station_beam", c, shape({off_out + np + pad_out})); fill(o, -3, 3);
        o->mask.assign(o->n(), 0);
        long s = pol ? 4 : 1;
        for (long i = 0; i < np; ++i) for (long a = 0; a < s; ++a) o->mask[(off_out + i) * s + a] = !pol || (a < 2 ? ex : ey);
    }
    sdp_Mem* m(Arr* a) { return a ? a->mem : nullptr; }
    void run(int) override
    {
        L("sdp_station_beam_aperture_array", [&] { sdp_station_beam_aperture_array(k, w->mem, x[0]->mem, x[1]->mem, x[2]->mem, (int) off_in, (int) np,
                q[0]->mem, q[1]->mem, m(q[2]), m(idx_a), m(data), (int) off_out, o->mem, norm, ex, ey, st); });
    }
    bool model() override
    {
        long s = pol ? 4 : 1;
        for (long i = 0; i < np; ++i) for (long a = 0; a < s; ++a)
        {
            if (!o->mask[(off_out + i) * s + a]) continue;
            cd sum = 0;
            for (long e = 0; e < ne; ++e)
            {
                double ph = 0;
                for (int d = 0; d < 3; ++d) if (q[d]) ph += k * q[d]->re(off_in + i) * x[d]->re(e);
                cd t = cd(std::cos(ph), std::sin(ph)) * w->get(e);
                if (data) t *= data->get(((index ? idx_a->geti(e) : e) * np + i) * s + a);
                sum += t;
            }
            if (norm) sum /= (double) ne;
            if (!close(o, (off_out + i) * s + a, sum, (double) (norm ? 1 : ne) * (dbl ? 1e-10 : 2e-4), "sum over elements")) return false;
        }
        return true;
    }
};
REGISTER_OPW(OpStation, "station_beam", "C09", 1.3);

struct OpHarp : Op
{
    bool dbl, two, nan; long np, off, pad; int lmax;
    Arr *th, *px, *py, *co, *o;
    void gen() override
    {
        dbl = P.b("dbl", 0.6); two = P.b("two_by_two"); nan = P.b("nan", 0.2);
        np = P.size("points", 0, 20); off = P.size("off_out", 0, 4); pad = P.i("pad_out", 0, 3); lmax = (int) P.i("l_max", 1, 6);
        // (orders real antennas need)
        if (P.b("high_order", 0.12)) { lmax = (int) P.i("l_max_high", 7, dbl ? 24 : 14); np = std::min(np, 6L); }
        sdp_MemType r = real_t(dbl), c = cplx(dbl);
        th = in("theta", r, {np}); fill(th, dbl ? 0.01 : 0.3, 1.5);
        if (!th->shared && dbl && np > 0 && P.b("zenith", 0.3)) th->set(P.rng("zi").range(0, np - 1), 0);
        px = in("phi_x", r, {np}); fill(px, -3.1, 3.1);
        py = in("phi_y", r, {np}); fill(py, -3.1, 3.1);
        if (!px->shared && nan && np > 0) px->set(P.rng("ni").range(0, np - 1), NAN);
        long nco = (long) (lmax + 1) * (lmax + 1) - 1;
        co = in("coeffs", c, {nco, 4}); fill(co, -1, 1);
        std::vector<int64_t> s = {off + np + pad};
        if (two) { s.push_back(2); s.push_back(2); } else s.push_back(4);
        o = out("element_beam", c, s); fill(o, -1, 1);
        o->mask.assign(o->n(), 0);
        for (long k = off * 4; k < (off + np) * 4; ++k) o->mask[k] = 1;
    }
    void run(int) override
    {
        L("sdp_element_beam_spherical_wave_harp", [&] { sdp_element_beam_spherical_wave_harp((int) np, th->mem, px->mem, py->mem, lmax, co->mem, (int) off, o->mem, st); });
    }
    static double leg(int l, int m, double x) { return l < m ? 0 : (m & 1 ? -1 : 1) * std::assoc_legendre((unsigned) l, (unsigned) m, x); }
    bool model() override
    {
        for (long i = 0; i < np; ++i)
        {
            double t = std::max(th->re(i), 1e-5), ct = std::cos(t), sn = std::sin(t);
            cd val[4] = {0, 0, 0, 0}; // x_phi, x_theta, y_phi, y_theta
            double amp = 1e-3;
            if (std::isnan(px->re(i)))
            {
                for (int a = 0; a < 4; ++a)
                {
                    cd g = o->get((off + i) * 4 + a);
                    if (!std::isnan(g.real()) || !std::isnan(g.imag())) return fail("NaN direction %ld gave (%g, %g)", i, g.real(), g.imag());
                }
                continue;
            }
            for (int l = 1; l <= lmax; ++l) for (int m = -l; m <= l; ++m)
            {
                int am = std::abs(m);
                double nf = (2 * l + 1) / (4 * PI * l * (l + 1));
                for (int k = l - am + 1; k <= l + am; ++k) nf /= k;
                nf = std::sqrt(nf);
                double p = leg(l, am, ct), pds = p / sn, dp = -(l * ct * p - (l + am) * leg(l - 1, am, ct)) / sn;
                for (int xy = 0; xy < 2; ++xy)
                {
                    double ph = m * (xy ? py->re(i) : px->re(i));
                    cd E = nf * cd(std::cos(ph), std::sin(ph)), qq = -E * dp, dd = cd(0, 1) * (double) m * E * pds;
                    long base = 4L * (l * l - 1 + l + m) + 2 * xy;
                    cd te = co->get(base), tm = co->get(base + 1);
                    val[2 * xy] += qq * tm - dd * te;
                    val[2 * xy + 1] += dd * tm + qq * te;
                    amp += std::abs(qq) + std::abs(dd);
                }
            }
            for (int a = 0; a < 4; ++a)
                if (!close(o, (off + i) * 4 + a, val[a], amp * (dbl ? (t < 0.005 ? 1e-6 : 1e-9) : 1e-3), "spherical wave sum")) return false;
        }
        return true;
    }
};
REGISTER_OPW(OpHarp, "element_harp", "C09", 1.0);

struct OpDipole : Op
{
    bool dbl, pol; long np, off, pad, stride; double f, len;
    Arr *th, *ph, *o;
    void gen() override
    {
        dbl = P.b("dbl", 0.6); pol = P.b("pol"); np = P.size("points", 0, 20);
        f = P.d("freq", 5e7, 3e8); len = P.d("length", 0.3, 2);
        off = P.i("off", 0, 5); pad = P.i("pad", 0, 3);
        sdp_MemType r = real_t(dbl), c = cplx(dbl);
        th = in("theta", r, {np}); fill(th, 0, 1.5);
        ph = in("phi", r, {np}); fill(ph, -3.1, 3.1);
        // Endfire: near, or exactly along, the dipole, where the field vanishes.
        if (np > 0 && !th->shared && !ph->shared && P.b("endfire", 0.4))
        {
            Rng q = P.rng("endfire at");
            for (int k = 0; k < 3; ++k)
            {
                long i = q.range(0, np - 1); bool exact = q.chance(0.3);
                th->set(i, PI / 2 - (exact ? 0 : std::pow(10, q.uni(-4, -0.5))));
                ph->set(i, (q.range(-2, 2)) * PI / 2 + (exact ? 0 : std::pow(10, q.uni(-4, -0.5))));
            }
        }
        if (pol) { stride = 4; off = off < 3 ? 2 * (off % 2) : 4 * (off % 3); o = out("element_beam", c, {np + 4, 4}); }
        else { stride = P.i("stride", 1, 3); o = out("element_beam", c, {np * stride + off + pad + 1}); }
        fill(o, -1, 1);
        o->mask.assign(o->n(), 0);
        for (long i = 0; i < np; ++i) { o->mask[i * stride + off] = 1; if (pol) o->mask[i * stride + off + 1] = 1; }
    }
    void run(int) override
    {
        L("sdp_element_beam_dipole", [&] { sdp_element_beam_dipole((int) np, th->mem, ph->mem, f, len, (int) stride, (int) off, o->mem, st); });
    }
    static void dip(double kL, double phi, double t, double& et, double& ep)
    {
        double c = std::cos(phi), den = 1 - c * c * std::sin(t) * std::sin(t);
        double k = den == 0 ? 0 : (std::cos(kL * c * std::sin(t)) - std::cos(kL)) / den;
        et = -c * std::cos(t) * k; ep = std::sin(phi) * k;
    }
    bool model() override
    {
        double kL = len * PI * f / C0;
        for (long i = 0; i < np; ++i)
        {
            double et, ep, yt, yp, t = th->re(i), p = ph->re(i);
            dip(kL, p, t, et, ep);
            double den = 1 - std::pow(std::cos(p) * std::sin(t), 2), den2 = 1 - std::pow(std::sin(p) * std::sin(t), 2);
            double tol = (dbl ? 1e-12 : 3e-5) / std::min(den, den2);
            if (dbl && tol > 0.1 && std::fabs(t - PI / 2) < 1e-15)
            {
                // exactly along one of the dipoles
                if (den < 1e-15) et = ep = 0;
                tol = 1e-8;
                if (pol)
                {
                    if (den > 1e-15) dip(kL, p, t, et, ep);
                    if (!close(o, i * stride + off, et, tol, "dipole theta") || !close(o, i * stride + off + 1, ep, tol, "dipole phi")) return false;
                }
                else
                {
                    yt = yp = 0;
                    if (den2 > 1e-15) dip(kL, p + PI / 2, t, yt, yp);
                    if (!close(o, i * stride + off, std::sqrt((et * et + ep * ep + yt * yt + yp * yp) / 2), tol, "scalar dipole")) return false;
                }
                continue;
            }
            if (tol > 0.1) continue;
            tol *= 10;
            if (pol)
            {
                if (!close(o, i * stride + off, et, tol, "dipole theta") || !close(o, i * stride + off + 1, ep, tol, "dipole phi")) return false;
            }
            else
            {
                dip(kL, p + PI / 2, t, yt, yp);
                double a = std::sqrt((et * et + ep * ep + yt * yt + yp * yp) / 2);
                if (!close(o, i * stride + off, a, tol, "scalar dipole")) return false;
            }
        }
        return true;
    }
};
REGISTER_OPW(OpDipole, "element_dipole", "C09", 0.8);
