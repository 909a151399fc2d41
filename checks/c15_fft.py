"""C15: the FFT wrappers compute the discrete Fourier transform and its inverse."""

COUNTS = {"quick": 180, "thorough": 600}
RULE = ("transforms per case: 2D/3D x grid shape 1..24 (3D 1..9) x precision x threads x field contents, repeated on one plan; "
        "several wrappers (equal or different) alive at once and transforming through their own buffers in any order, planned forward/backward, the combined kernel, the ready-made transform objects and the scipy reference kernel. "
        "Oracle: dense DFT matrices in complex128, round trip, input of the forward transform unchanged. "
        "Non-trivial: the field is not constant.")
ASSUMPTIONS = ["the scipy reference kernel is asked for even last dimensions only (its inverse takes no output size)",
               "3D transform objects built with the generic builders transform the array as complex data"]


def strategy(st, shard, shards, tier):
    from vf import oprun

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([2, 2, 3]))
        hi = {(2, "quick"): 24, (3, "quick"): 9, (2, "thorough"): 40, (3, "thorough"): 14}[(dim, tier)]
        shape = draw(st.lists(st.integers(2, hi), min_size=dim, max_size=dim))
        if draw(st.integers(0, 9)) == 0:  # one long axis
            shape[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([64, 67, 100, 127] if dim == 2 else [25, 32]))
        return {"dim": dim, "shape": shape,
                "rt": draw(st.sampled_from(["f64", "f32"])), "nt": draw(st.sampled_from([1, 1, 2, 3, 4, 8])),
                "arrs": draw(st.lists(oprun.arr_specs(st), min_size=1, max_size=3)),
                "peers": draw(st.lists(st.sampled_from(["same", "rt", "nt", "shape"]), min_size=0, max_size=2)),
                "order": draw(st.lists(st.integers(0, 2), min_size=3, max_size=8))}

    return case()


def dft(f, sign):
    import numpy as np

    for ax, n in enumerate(f.shape):
        k = np.arange(n)
        m = np.exp(sign * 2j * np.pi * ((k[:, None] * k[None, :]) % n) / n)
        f = np.moveaxis(np.tensordot(m, f, axes=(1, ax)), 0, ax)
    return f


def together(case):
    """Several wrappers alive at once, each used through its own buffers."""
    import numpy as np
    from vf import util
    import sopht.numeric.eulerian_grid_ops as spne

    dim = case["dim"]
    cfgs = [(case["rt"], case["nt"], tuple(case["shape"]))]
    for p in case["peers"]:
        rt, nt, shape = cfgs[0]
        if p == "rt":
            rt = "f32" if rt == "f64" else "f64"
        elif p == "nt":
            nt = nt % 4 + 1
        elif p == "shape":
            shape = shape[1:] + (shape[0] + 1,)
        cfgs.append((rt, nt, shape))
    cls = spne.FFTPyFFTW2D if dim == 2 else spne.FFTPyFFTW3D
    live = []
    for i, (rt, nt, shape) in enumerate(cfgs):
        ctx = "wrapper %d of %d %s[%s,nt=%d]" % (i, len(cfgs), shape, rt, nt)
        kw = dict(num_threads=nt, real_t=util.rt(rt))
        kw.update(zip(("grid_size_x", "grid_size_y", "grid_size_z"), shape[::-1]))
        with util.sut("constructing " + ctx):
            t = cls(**kw)
        if not (hasattr(t, "field_pyfftw_buffer") and hasattr(t, "fourier_field_pyfftw_buffer")):
            return []
        f, h = t.field_pyfftw_buffer, t.fourier_field_pyfftw_buffer
        f[...] = util.expand(case["arrs"][i % len(case["arrs"])], shape, np.float64) + i
        h[...] = i
        live.append({"t": t, "f": f.copy(), "h": h.copy(), "ctx": ctx, "e": util.eps(rt)})
    for o in case["order"]:
        w = live[o % len(live)]
        t, q = w["t"], util.d(w["f"])
        if o < 2 or not w.get("fwd"):
            with util.sut(w["ctx"] + " forward"):
                t.fft_plan(input_array=t.field_pyfftw_buffer, output_array=t.fourier_field_pyfftw_buffer)
            w["h"] = dft(q.astype(complex), -1.0)[..., :q.shape[-1] // 2 + 1]
            w["fwd"] = True
            tol_h = 12 * w["e"] * np.log2(2 * q.size) * float(np.sqrt((q ** 2).sum() * q.size))
            got = t.fourier_field_pyfftw_buffer
            util.close(got.real, w["h"].real, tol_h, w["ctx"] + " forward (real)")
            util.close(got.imag, w["h"].imag, tol_h, w["ctx"] + " forward (imag)")
            util.same(t.field_pyfftw_buffer, w["f"], w["ctx"] + " forward changed its input")
            w["h"] = got.copy()
        else:
            with util.sut(w["ctx"] + " backward"):
                t.ifft_plan(input_array=t.fourier_field_pyfftw_buffer, output_array=t.field_pyfftw_buffer)
            util.close(t.field_pyfftw_buffer, q, 48 * w["e"] * np.log2(2 * q.size) * float(np.sqrt((q ** 2).sum())),
                       w["ctx"] + " round trip")
            w["fwd"] = False  # the backward transform may use up the spectrum
            w["f"], w["h"] = t.field_pyfftw_buffer.copy(), t.fourier_field_pyfftw_buffer.copy()
        for v in live:
            util.same(v["t"].field_pyfftw_buffer, v["f"], v["ctx"] + " field buffer, after using " + w["ctx"])
            util.same(v["t"].fourier_field_pyfftw_buffer, v["h"], v["ctx"] + " spectrum buffer, after using " + w["ctx"])
    return ["together %d" % len(live)] if len(live) > 1 else []


def run(case):
    import numpy as np
    from vf import util
    import sopht.numeric.eulerian_grid_ops as spne

    more = together(case)
    real_t = util.rt(case["rt"])
    ct = np.complex64 if real_t == np.float32 else np.complex128
    shape = tuple(case["shape"])
    dim = case["dim"]
    half = shape[-1] // 2 + 1
    kw = dict(num_threads=case["nt"], real_t=real_t)
    for n, v in zip(("grid_size_x", "grid_size_y", "grid_size_z"), shape[::-1]):
        kw[n] = v
    cls = spne.FFTPyFFTW2D if dim == 2 else spne.FFTPyFFTW3D
    ctx = "%s %s[%s,nt=%d]" % (cls.__name__, shape, case["rt"], case["nt"])
    with util.sut("constructing " + ctx):
        t = cls(**kw)
    nontrivial = False
    classes = ["%dd" % dim, case["rt"], "threads %d" % case["nt"], "odd" if shape[-1] % 2 else "even"] + more
    import pyfftw

    for spec in case["arrs"]:
        f = pyfftw.empty_aligned(shape, dtype=real_t)
        f[...] = util.expand(spec, shape, real_t)
        keep = f.copy()
        q = util.d(f)
        want = dft(q.astype(complex), -1.0)
        rhat = want[..., :half]
        norm = float(np.sqrt((q ** 2).sum() * q.size))
        tol = 12 * util.eps(case["rt"]) * np.log2(2 * q.size) * norm
        back_tol = 24 * util.eps(case["rt"]) * np.log2(2 * q.size) * float(np.sqrt((q ** 2).sum()))

        def check(fourier, inverse, what):
            if fourier is not None:
                util.close(fourier.real, rhat.real, tol, ctx + what + " forward (real)")
                util.close(fourier.imag, rhat.imag, tol, ctx + what + " forward (imag)")
            if inverse is not None:
                util.close(inverse, q, back_tol, ctx + what + " round trip")

        hat = pyfftw.empty_aligned(shape[:-1] + (half,), dtype=ct)
        inv = pyfftw.empty_aligned(shape, dtype=real_t)
        with util.sut(ctx + " plans"):
            t.fft_plan(input_array=f, output_array=hat)
        util.same(f, keep, ctx + ": input of the forward transform modified")
        check(hat, None, " plans")
        with util.sut(ctx + " plans"):
            t.ifft_plan(input_array=hat, output_array=inv)
        check(None, inv, " plans")
        inv[...] = 5.0
        with util.sut(ctx + " combined kernel"):
            t.fft_ifft_plan_kernel(fourier_field=hat, inv_fourier_field=inv, field=f)
        check(None, inv, " combined kernel")  # the backward transform may use up the spectrum
        if shape[-1] % 2 == 0:
            k = spne.fft_ifft_via_scipy_kernel_2d if dim == 2 else spne.fft_ifft_via_scipy_kernel_3d
            inv[...] = 5.0
            with util.sut(ctx + " scipy kernel"):
                k(fourier_field=hat, inv_fourier_field=inv, field=f, num_threads=case["nt"])
            check(hat, inv, " scipy kernel")
            util.same(f, keep, ctx + ": input of the scipy kernel modified")
        if dim == 2:
            with util.sut(ctx + " transform objects"):
                a = np.array(t.pyfftw_fftn(f), copy=True)
            check(a, None, " transform object")
            if shape[-1] % 2 == 0:
                with util.sut(ctx + " transform objects"):
                    b = np.array(t.pyfftw_ifftn(a), copy=True)
                check(None, b, " transform objects")
        if np.ptp(q) > 0:
            nontrivial = True
    return {"nontrivial": nontrivial, "classes": classes}
