#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
SP = 'spherepy/spherepy.py'
PY = 'spherepy/pysphi.py'
CC = 'src/csphi.c'
KF = 'src/kiss_fft.c'
OP = 'spherepy/ops.py'

p('S01', 'Inverse scalar transform is the spherical-harmonic sum on the grid',
  'For every set of scalar coefficients and every grid size with nrows >= nmax+2 and even ncols >= 2*mmax+2, the inverse scalar transform returns, at row i and column j, '
  'the sum over all modes of c[n,m]*Y_nm(theta_i, phi_j), with theta_i = i*pi/(nrows-1), phi_j = 2*pi*j/ncols and Y_nm the orthonormal '
  'spherical harmonics with the Condon-Shortley phase. Omitted sizes mean nrows = nmax+2 and ncols = 2*mmax+2; the stored continuation '
  'over the back of the sphere is the same sum evaluated there.',
  ['inputs', 'configurations'],
  'all complex (or real) coefficient values, all nmax >= mmax >= 0, all nrows >= nmax+2 and even ncols >= 2*mmax+2, both back ends',
  'Tests only compare the C and Python implementations of the same algorithm, or feed the result back into the forward transform; no test '
  'compares the synthesised pattern with the spherical-harmonic sum, and only single-mode or random data at a handful of sizes are tried.',
  [SP, PY, CC], [('ispht / ispht_slow', SP), ('sc_to_fc, fcvec_m_sc, ynunm', CC), ('sc_to_fc, fcvec_m_sc, ynunm', PY)],
  observe=['ispht(c, nrows, ncols).array', 'ispht(c, nrows, ncols).doublesphere'])
p('S02', 'Forward scalar transform recovers the coefficients of a synthesised pattern',
  'For every set of scalar coefficients, transforming the pattern that the inverse transform produced from it gives the same coefficients '
  'back, to rounding error. Asking for fewer degrees or orders than the pattern contains gives exactly the corresponding subset, and asking '
  'for more gives zeros in the extra modes.',
  ['inputs', 'configurations'],
  'all complex coefficient values, all nmax >= mmax >= 0, all grids that hold them, all requested (nmax, mmax) the grid allows, including defaults',
  'Tests use 17 fixed size combinations and random coefficients; the identity must hold for every coefficient set at every size and grid.',
  [SP, PY, CC, KF, OP], [('spht', SP), ('fc_to_sc, bnm_fc, hkm_fc, SData, FindQ', CC), ('fix_even_row_data_fc, pad_rows_fdata, sin_fc', OP)],
  observe=['spht(ispht(c, nrows, ncols), nmax, mmax)'])
p('S03', 'Forward scalar transform is the exact projection of any sampled pattern',
  'For every pattern with pole-to-pole symmetry, not only band-limited ones, the coefficient c[n,m] returned by the forward scalar transform is '
  'the integral over the sphere of conj(Y_nm) times the trigonometric interpolant of the samples with its highest latitude frequency dropped. '
  'In particular it is linear in the samples and a coefficient does not depend on how many other modes were requested.',
  ['inputs', 'configurations'],
  'all complex sample values, all nrows >= 2 and even ncols, all nmax <= nrows-2 and mmax <= min(nmax, ncols/2-1)',
  'Tests only transform patterns that were themselves synthesised by the library, so leakage, aliasing and quadrature errors on general data are invisible.',
  [SP, PY, CC, KF, OP], [('spht', SP), ('fc_to_sc', CC), ('sin_fc', OP)], observe=['spht(p, nmax, mmax)[n, m]'])
p('V01', 'Inverse vector transform is the vector spherical-harmonic sum on the grid',
  'For every set of vector coefficients (a1, a2) and every accepted grid size, the inverse vector transform returns theta and phi components '
  'equal to the sum over modes of a1[n,m]*X1_nm + a2[n,m]*X2_nm, where X1 = L Y_nm/sqrt(n(n+1)) is the vector spherical harmonic of '
  "Jackson's Classical Electrodynamics and X2 = i r x X1. Omitted sizes mean nrows = nmax+2 and ncols = 2*mmax+2.",
  ['inputs', 'configurations'],
  'all complex coefficient pairs, all nmax >= mmax >= 0, all nrows >= nmax+2 and even ncols >= 2*mmax+2',
  'No test checks the vector pattern itself; only the round trip is tested, which any invertible mixing of the components passes.',
  [SP, OP, PY, CC], [('vispht', SP), ('L_fc, divsin_fc, dtheta_fc, dphi_fc', OP), ('sc_to_fc', CC)],
  observe=['vispht(vc, nrows, ncols).theta', 'vispht(vc, nrows, ncols).phi'])
p('V02', 'Forward vector transform recovers the coefficients of a synthesised field',
  'For every set of vector coefficients, transforming the tangential field that the inverse vector transform produced from it gives both '
  'coefficient sets back, to rounding error, with zero monopole. Asking for fewer degrees or orders gives exactly the subset, asking for more gives zeros.',
  ['inputs', 'configurations'],
  'all complex coefficient pairs, all nmax >= mmax >= 0, all grids that hold them, all requested sizes the grid allows, including defaults',
  'A few sizes with random data are tested, and the comparison in those tests uses a norm that at the pinned commit ignored the second component.',
  [SP, OP, CC], [('vspht', SP), ('sinLdot_fc', OP), ('fc_to_sc', CC)], observe=['vspht(vispht(vc, nrows, ncols), nmax, mmax)'])
p('V03', 'Forward vector transform is the exact projection of any tangential field',
  'For every tangential pattern with the sign symmetry of vector components, the two coefficients of mode (n,m) returned by the forward vector '
  'transform are the inner products over the sphere of X1_nm and X2_nm with the trigonometric interpolant of the samples (highest latitude '
  'frequency dropped). They are linear in the samples, and the monopole entries are zero.',
  ['inputs', 'configurations'],
  'all complex theta/phi sample values, all nrows >= 3 and even ncols >= 4, all permitted nmax, mmax',
  'Tests only transform fields that the library itself synthesised; components outside that range and mixing of the two components are not observed.',
  [SP, OP, CC], [('vspht', SP), ('sinLdot_fc, dphi_fc, dtheta_fc, sin_fc', OP)], observe=['vspht(p, nmax, mmax)'])
p('E01', 'Compiled and pure-Python back ends compute the same transforms',
  'For the same input, the C extension and the Python routines give the same result to rounding error: the scalar transforms in both directions '
  '(fast and slow entry points, and the Fourier/coefficient conversion routines behind them) for every data set and size, and the tables they are built from '
  '(recursion start values, Fourier coefficients of the harmonics, sine-integral weights) for every index.',
  ['inputs', 'configurations'],
  'all complex data, all permitted nmax, mmax, nrows, ncols; all n >= 0, all m (also |m| > n)',
  'Tests compare the back ends with one random data set at five sizes and tables up to n = 20.',
  [PY, CC, SP], [('spht_slow / ispht_slow', SP), ('fc_to_sc, sc_to_fc, ynnm, ynunm, s_data/SData', PY)],
  observe=['spht vs spht_slow', 'ispht vs ispht_slow', 'spherepy.csphi.* vs spherepy.pysphi.*'])
p('E02', 'The C extension never touches memory outside its arrays',
  'For every combination of sizes that the transforms accept, the compiled conversion routines read and write only inside the arrays they were given '
  'and the scratch memory they allocated, use no freed or uninitialised memory, free what they allocated, and perform no undefined integer arithmetic.',
  ['inputs', 'configurations'],
  'all Nrow (even), Ncol, Nmax, Mmax with 0 <= Mmax <= Nmax, Nmax+2 <= Nrow/2+1, 2*Mmax+2 <= Ncol; all array contents',
  'A test run only shows that a few sizes do not crash; an out-of-bounds access by one element usually does not crash.',
  [CC, KF], [('fc_to_sc / sc_to_fc index set-up', CC), ('kiss_fft_alloc, kf_factor, kf_work', KF)], observe=['csphi.fc_to_sc', 'csphi.sc_to_fc'])
p('E03', 'The bundled FFT is the exact DFT and its padded length is always sufficient',
  'For every length, the bundled FFT maps any complex vector to its discrete Fourier transform and, in inverse mode, to the unnormalised inverse. '
  'The length-selection routines return, for every requested length, the smallest length not below it that has only the permitted small prime factors.',
  ['inputs', 'configurations'],
  'all complex vectors of every length >= 1 (all radix combinations, including primes), out of place and in place; all requested lengths >= 1',
  'No test exercises the FFT or the length search on their own; the transform tests reach only a few factorisations.',
  [KF, CC, PY], [('kiss_fft, kf_work, kf_bfly*, kf_factor', KF), ('FindQ', CC), ('smallest_prime_factor', PY)],
  observe=['kiss_fft', 'csphi.FindQ', 'pysphi.smallest_prime_factor'])
p('H01', 'Single harmonics are orthonormal and agree everywhere the library computes them',
  'The Fourier coefficients computed for Y_nm represent the orthonormal harmonics with Condon-Shortley phase for every degree n and order m: combining '
  'them with any amplitudes and integrating against any other harmonic of that order returns exactly the amplitudes. The routine that evaluates one '
  'harmonic Y_nm on an nrows x ncols grid gives the same values as synthesising the coefficient set that contains only that mode.',
  ['inputs', 'configurations'],
  'all n >= 0, |m| <= n (tables in C and Python), all amplitudes, all grid sizes',
  'Tests only check that the two back ends agree with each other up to n = 20, and never call the grid evaluation of a single harmonic.',
  [PY, CC, SP], [('ynnm, ynunm', PY), ('ynnm, ynunm', CC), ('sph_harmonic_tp', SP)], observe=['pysphi.ynunm', 'csphi.ynunm', 'sph_harmonic_tp'])
p('O01', 'Fourier-domain operators act as multiplication and differentiation on the sphere',
  'Applied to the Fourier coefficients of any band-limited function, the operators give the Fourier coefficients of, respectively: the function times '
  'sin(theta), the function divided by sin(theta) (when the quotient is regular), its theta derivative, its phi derivative, its angular-momentum '
  'components, and sin(theta) times the angular-momentum divergence of a vector field. Zero padding keeps every frequency at its place.',
  ['inputs', 'configurations'],
  'all complex Fourier coefficients within the band the operators are documented for, all even numbers of rows and columns',
  'The operators have no tests of their own.',
  [OP], [('sin_fc, divsin_fc, dtheta_fc, dphi_fc, L_fc, sinLdot_fc, pad_rows_fdata, fix_even_row_data_fc', OP)], observe=['spherepy.ops.*'])
p('C01', 'Every mode (n,m) has its own storage and only valid modes are addressable',
  'For every coefficient object, reading c[n,m] returns the value last assigned to that mode, assigning to one mode changes no other mode, and the modes with '
  '|m| <= min(n, mmax), n <= nmax together account for all of c.size entries. Any other (n,m), and (0,0) for vector coefficients, is rejected '
  'with AttributeError and changes nothing.',
  ['inputs', 'histories'],
  'all nmax >= mmax >= 0, all integers n and m, all values, all sequences of assignments',
  'Tests probe about ten index pairs of one (11,10) object; the storage formula has branches on the sign and size of m and on mmax < nmax.',
  [SP, PY], [('ScalarCoefs/VectorCoefs __getitem__ / __setitem__', SP), ('mindx', PY)],
  state=[('_vec', 'coefficients ordered m = 0, -1, 1, -2, 2, ..., n ascending', SP)], observe=['c[n, m]', 'c[n, m] = v', 'c.size'])
p('C02', 'Slices, truncations and reshaped views agree with the individual modes',
  'c[:,m], c[n,:], c[0:k,:] and the list and 2-D array forms contain exactly the values of the individual modes c[n,m] in order, with zeros where no mode exists; '
  'assigning c[:,m] or c[n,:] sets exactly those modes and requires exactly as many values as reading returns. Truncating to c[0:k,:] keeps every mode with '
  'degree <= k and order <= mmax; slices outside the object are rejected with AttributeError.',
  ['inputs', 'configurations'],
  'scalar and vector objects, all nmax >= mmax >= 0, all n, m, k, all coefficient values, also when mmax < nmax',
  'Tests execute one slice of each kind and assert nothing about its contents.',
  [SP], [('ScalarCoefs/VectorCoefs __getitem__, __setitem__, _array_2d_repr, _reshape_n_vecs, _reshape_m_vecs', SP)], observe=['c[:, m]', 'c[n, :]', 'c[0:k, :]'])
p('C03', 'Windowing multiplies every mode of degree n by the n-th window value',
  'Applying a window vector w to scalar coefficients replaces c[n,m] by w[n]*c[n,m] for every mode and nothing else, in place.',
  ['inputs', 'configurations'],
  'all coefficient values, all real or complex windows of length nmax+1, all nmax >= mmax >= 0',
  'window() is only reached inside the vector transforms, with one fixed window.',
  [SP], [('ScalarCoefs.window', SP)], observe=['c.window(vec)'])
p('A01', 'Arithmetic on coefficient objects acts on each mode and nothing else',
  'For scalar and vector coefficient objects, +, -, * and / with an object of the same nmax and mmax, or with a number on either side, give the object whose every '
  'mode is that operation applied to the corresponding modes (vector monopoles stay zero), leaving the operands unchanged. Combining objects whose nmax or mmax differ raises ValueError, '
  'combining with any other type raises TypeError, and dividing by the number zero raises ZeroDivisionError.',
  ['inputs', 'configurations'],
  'all coefficient values, all real and complex numbers, all pairs of sizes, all four operators in both operand orders',
  'Tests compute the same expression twice and compare it with itself, at one size, and try one size mismatch; different shapes with equal storage length are never tried.',
  [SP], [('_scalar_coef_op_left/right, _vector_coef_op_left/right', SP)], observe=['c1 op c2', 'c op number', 'number op c'])
p('A02', 'Arithmetic on patterns acts on each sample and nothing else',
  'For scalar and tangential patterns, +, -, * and / with a pattern of the same shape, or with a number on either side, give the pattern whose every sample '
  '(front and continued back of the sphere, each component) is that operation applied to the corresponding samples, leaving the operands unchanged. Different shapes raise ValueError, other types '
  'TypeError, and division by the number zero ZeroDivisionError.',
  ['inputs', 'configurations'],
  'all sample values, all real and complex numbers, all pairs of shapes, all four operators in both operand orders',
  'Tests compute the same expression twice and compare it with itself at one size.',
  [SP], [('_scalar_pattern_uniform_op_left/right, _vector_pattern_uniform_op_left/right', SP)], observe=['p1 op p2', 'p op number', 'number op p'])
p('N01', 'Norms, magnitudes and power equal their definitions on every object',
  'power() is the sum of |c[n,m]|^2 and angular_power_spectrum()[n] its part of degree n; the L2 norms are the square root of the sum of squared magnitudes over all stored values, '
  'the LInf norms the largest magnitude, with vector objects combining the norms of both components as a root of squares. abs and mag return |value| per mode or sample '
  '(for vector objects the root of the squared magnitudes of both components), mag2 its square, and the relative comparison is sum|a-b|/sum|a|.',
  ['inputs', 'configurations'],
  'all complex values of scalar/vector coefficients and patterns of every size',
  'Tests call these functions and discard the result (apart from one comparison of power() with the summed spectrum).',
  [SP], [('L2_coef, L2_patt, LInf_coef, LInf_patt, abs, mag, mag2, compare_relative, ScalarCoefs.power, angular_power_spectrum', SP)],
  observe=['return values'])
p('D01', 'Patterns keep their samples and always carry the symmetry the transforms need',
  'Building a pattern from an nrows x ncols grid of finite samples (magnitudes up to 1e300) keeps every sample away from the poles exactly, and a pole row that is already consistent exactly too; the continuation over the back of the '
  'sphere satisfies d[(R-i) mod R, (j+ncols/2) mod ncols] = d[i,j] for scalar data (with a minus sign for vector components). Patterns returned by the zero, one and random factories and by '
  'the inverse transforms satisfy the same symmetry.',
  ['inputs'],
  'all complex sample values of every magnitude (including tiny and zero entries), all nrows >= 2 and even ncols, scalar and vector',
  'No test looks at the continued data or at the stored samples; a data-dependent rule decides how pole values are merged.',
  [SP], [('continue_sphere, double_sphere, ScalarPatternUniform, TransversePatternUniform, *_patt_uniform', SP)], observe=['p.array', 'p.doublesphere', 'p.theta', 'p.phi'])
p('D02', 'Symmetry diagnostics report the worst violation of every component',
  'single_val of a pattern is the largest relative deviation |s-t|/|s| between a sample and its mirror sample (1 when only the mirror is zero), separately for theta and phi of a tangential pattern; '
  'is_symmetric is true exactly when all of them are below the documented threshold.',
  ['inputs'],
  'all complex continued data of every shape, scalar and vector',
  'Tests evaluate the properties once without checking the value.',
  [SP], [('ScalarPatternUniform.single_val / is_symmetric, TransversePatternUniform.single_val / is_symmetric', SP)], observe=['p.single_val', 'p.is_symmetric'])
p('F01', 'Saving and loading coefficients returns bit-identical values and sizes',
  'Loading a file written by the coefficient save routine returns an object with the same nmax, mmax and exactly the same values for every finite coefficient set, and infinities are preserved as well. '
  'Loading a vector coefficient file assigns the two blocks to the two components in the order written, with the directivity from the first line.',
  ['inputs', 'configurations'],
  'all double values, all nmax >= mmax >= 0',
  'The file routines have no tests.',
  ['spherepy/file.py'], [('save_coef, load_coef, load_vcoef', 'spherepy/file.py')], observe=['file.load_coef(file.save_coef(c))'])
p('F02', 'Saving and loading patterns returns the same samples at the same positions',
  'Loading a file written by the pattern save routine returns a pattern of the same shape with exactly the same samples at the same rows and columns for every symmetric pattern of finite samples (magnitudes up to 1e300); the vector and Fourier-data '
  'loaders place each line of their files at the row and column it names, the first file or component staying first.',
  ['inputs', 'configurations'],
  'all double values, all nrows, ncols',
  'The file routines have no tests.',
  ['spherepy/file.py', SP], [('save_patt, load_patt, load_vpatt, load_fdata', 'spherepy/file.py')], observe=['file.load_patt', 'file.load_vpatt', 'file.load_fdata'])
p('B01', 'Spherical Bessel functions of the second kind are exact for every order',
  'For every real x != 0 for which the values are representable and every N >= 1, the routine for y_n returns N values whose n-th entry is the spherical Bessel function of the second kind y_n(x): y_0 = -cos(x)/x, y_1 = -cos(x)/x^2 - sin(x)/x and '
  'y_n = (2n-1)/x*y_(n-1) - y_(n-2). The array form holds these values in one column per argument, and the Hankel functions are j_n + i*y_n and j_n - i*y_n.',
  ['inputs'],
  'all real x != 0, all N >= 1, all argument lists',
  'Tests check y_n only through one product relation at large random arguments.',
  ['spherepy/sbessel.py'], [('sbessely, sbessely_array, sbesselh1, sbesselh2', 'spherepy/sbessel.py')], observe=['sbessely(x, N)', 'sbesselh1(x, N)'])
p('B02', 'Spherical Bessel functions of the first kind are accurate for every order',
  'For every real x != 0 for which the values are representable (|x| down to 1e-100) and every N >= 1, the routine for j_n returns N values whose n-th entry is the spherical Bessel function of the first kind j_n(x), accurate to rounding relative to the larger of its neighbours: j_0 = sin(x)/x, the entries satisfy '
  'the three-term recurrence, and the ratio of the last two comes from the convergent continued fraction. The array form holds these values in one column per argument.',
  ['inputs'],
  'all real x != 0, all N >= 1',
  'Tests check a sum rule and a product relation at ten random arguments with N > x + 400.',
  ['spherepy/sbessel.py'], [('sbesselj, sbesselj_array', 'spherepy/sbessel.py')], observe=['sbesselj(x, N)'])
p('X01', 'Sizes are honoured when valid and rejected with ValueError when not',
  'The transforms, factories and constructors accept exactly the sizes the documentation allows and return objects with exactly the requested nmax, mmax, nrows and ncols; mmax > nmax, nmax > nrows-2, '
  'mmax >= ncols/2, nrows < nmax+2, ncols < 2*mmax+2, an odd number of columns or a storage vector of the wrong length raise ValueError before anything is computed. An explicitly given nmax, mmax, nrows or ncols is never replaced by a default.',
  ['inputs', 'configurations'],
  'all non-negative integer size arguments, given or omitted in any combination, scalar and vector',
  'Tests try one or two invalid sizes per function; the boundary values and the omitted-argument combinations are not tried.',
  [SP], [('spht, vspht, ispht, vispht, spht_slow, ispht_slow, *_coefs, *_patt_uniform, ScalarCoefs, VectorCoefs', SP)], observe=['exceptions', 'shape of results'])
p('X02', 'Transforms, norms, arithmetic and saving never change their inputs',
  'No transform, norm, arithmetic operation, copy, magnitude, save or print routine changes the object it is given, and doing them again in any order gives the same results. '
  'A copy, a truncation c[0:k,:] or an operation result can be modified afterwards without changing the original, and vice versa.',
  ['inputs', 'histories'],
  'all coefficient and sample values, all sequences of library calls up to the stated length',
  'Tests never look at an operand after using it.',
  [SP, OP], [('copy(), window on copies in vispht, np.copy in vspht/L_fc', SP)], observe=['operands after each call', 'results of repeated calls'])
p('G01', 'Plots show every mode and sample at its documented position',
  'The sphere plots hand the plotting library the surface |f(theta_i,phi_j)|*(sin(theta)cos(phi), sin(theta)sin(phi), cos(theta)) on the pattern grid with the first column repeated at phi = 2*pi; '
  'the coefficient image shows |c[n,m]| in the cell centred on (m, n) and zero where no mode exists, and the coefficient curves show |c[n,m]| against n for every order m.',
  ['inputs', 'configurations'],
  'all patterns and coefficient sets of every size',
  'The plotting module is imported but has no tests.',
  ['spherepy/plot_sphere.py', SP], [('plot_mag_on_sphere, plot_sphere_mag, pcolor_coefs, plot_coefs', 'spherepy/plot_sphere.py')], observe=['arguments given to plot_surface, pcolormesh, plot'])
p('T01', 'Printed coefficient tables show every mode in its labelled place',
  'The printed table of the first modes shows c[n,m] in the row labelled n and the column labelled m for every |m| <= n <= 2, blank where the object has no such mode, '
  'and the text forms of a coefficient object list for every degree n the values c[n,m] in order of m.',
  ['inputs', 'configurations'],
  'all coefficient values, all nmax >= 2 (table) or nmax >= 0 (text forms), all mmax <= nmax',
  'Tests print once and assert nothing about the text.',
  [SP], [('pretty_coefs, _tiny_rep, ScalarCoefs.__repr__/__str__', SP)], observe=['stdout', 'str(c)', 'repr(c)'])
p('K01', 'Verification routines report the true difference to the reference files',
  'Each verification routine returns the L2 and LInf norm, absolute and relative to the reference, of the difference between the transform of one reference file (or pair) and the data in the other; the Fourier-data routine returns the largest deviation. '
  'The result is zero exactly when transform and reference agree.',
  ['inputs', 'configurations'],
  'all contents of the reference files, all sizes',
  'The verification module has no tests.',
  ['spherepy/verify.py', 'spherepy/file.py', SP], [('verify_spht, verify_ispht, verify_fdata, verify_vspht, verify_vispht', 'spherepy/verify.py')], observe=['return values'])
p('Z01', 'Factories deliver the documented contents at every size',
  'zeros and ones factories return objects of exactly the requested size whose every mode or sample is 0 or 1 (the monopole of vector coefficients is absent), and a later '
  'call is not affected by changes made to an object returned before. random_coefs returns modes whose real and imaginary parts are independent normal numbers of mean mu '
  'and standard deviation sigma (0 and 1 when omitted), random_patt_uniform samples (away from the poles, whose rows are made consistent) of mean 0 and deviation 1; '
  'the two components of a vector object are independent of each other. An unknown type raises TypeError.',
  ['inputs', 'configurations'],
  'all sizes, both types, all mu and sigma, all values of the random numbers drawn',
  'Tests use the factories to make data and never look at the contents; independence of random entries cannot be seen in a sample.',
  [SP], [('zeros_coefs, ones_coefs, random_coefs', SP), ('zeros_patt_uniform, ones_patt_uniform, random_patt_uniform', SP)],
  observe=['c[n,m]', 'p.array, p.theta, p.phi'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')
