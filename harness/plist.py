"""The properties, and what their checks claim (properties.jsonl and MANIFEST.json are written from here)."""
MS = "src/pymiediff/multishell.py"
SP = "src/pymiediff/special.py"
MA = "src/pymiediff/main.py"
MT = "src/pymiediff/materials/mat.py"
HE = "src/pymiediff/helper/helper.py"
TG = "src/pymiediff/helper/tg.py"
CS = "src/pymiediff/coreshell.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                  _technique=technique, _note=note))


TRACE = "TLA+ specification (exact arithmetic) judging traces recorded from the library with TLC"
BASE = ("TLC enumerates the scenario models exhaustively; a covering selection of scenarios is run on the real code and every recorded "
        "result is judged by TLC against the specification with 1200-bit arithmetic. ")

prop("M01", "Mie coefficients solve the layered-sphere boundary problem",
     "For every sphere of one or more concentric layers, every lossless host, wavelength and order, the external coefficients a_n, b_n returned by the library are those for which the tangential electric and magnetic fields are continuous at every interface. Where the backend returns internal coefficients (c, d, f, g, v, w) these are the amplitudes inside core and shell of that same solution. The accuracy does not depend on the backend, on the requested highest order n_max, or on special arguments such as multiples of pi.",
     ["inputs", "configurations"],
     "all radii, complex permittivities (dielectric, metallic, absorbing, amplifying), hosts, wavelengths, n_max, backends, batch sizes; size parameters from 1e-3 to 60",
     "The tests compare a few tens of spheres with tables and with another package at moderate size; they never vary n_max together with size, nor hit removable singularities, thin shells or index-matched layers.",
     [MS, SP], [("recurrences for D1, D3, Q, psi, zeta", SP + ": pena_D1_n, pena_D3_n, pena_Q_n, pena_psi_zeta_n"), ("layer recursion", MS + ": _miecoef_pena"), ("closed form core-shell", MS + ": _miecoef")],
     observe=["multishell.mie_coefficients", "Particle.get_mie_coefficients"], technique=TRACE,
     note=BASE + "Relative 1e-10 (layer recursion) / 1e-9 (other backends) plus the shift that input rounding can cause. torch/scipy backends are exercised for Im(m k r) <= 3 (larger: known cancellation).")

prop("M02", "Near fields equal the Mie field at every point",
     "Incident, scattered and total E and H returned for a probe position are the plane wave, the scattered and the total field of the Mie solution at that position (inside the particle: the internal field), in Cartesian components, scaled by the incident amplitude. This holds at any point: at or near the centre, in every layer, just outside, very far away, and on the coordinate axes.",
     ["inputs", "configurations"],
     "all spheres, wavelengths, hosts, backends and n_max as for the coefficients, all positions not exactly on an interface, all complex incident amplitudes, any number of particles and wavelengths in one call",
     "The tests check finite output and a handful of field values at a few positions for one or two spheres.",
     [MS, SP], [("field assembly", MS + ": nearfields"), ("vector spherical harmonics", SP + ": vsh, vsh_pena"), ("coordinate transforms", HE + ": transform_spherical_to_xyz, transform_xyz_to_spherical")],
     observe=["multishell.nearfields", "Particle.get_nearfields"], technique=TRACE,
     note=BASE + "Tolerance 1e-6 of the sum of the multipole terms (the library forms the (2n+1)/(n(n+1)) factors in single precision).")

prop("M03", "Near fields satisfy Maxwell's equations and the boundary conditions",
     "The returned total fields obey curl E = i k0 H and curl H = -i k0 eps E, with the permittivity of the layer the point lies in, and are divergence free. Across every interface the tangential components of E and H and the normal component of eps E are continuous when the automatic n_max is used.",
     ["inputs", "configurations"], "all spheres, layers, hosts, wavelengths, backends and positions",
     "No test differentiates the fields or compares the two sides of an interface.",
     [MS, SP], [("field assembly", MS + ": nearfields"), ("vector spherical harmonics", SP + ": vsh, vsh_pena")],
     observe=["multishell.nearfields"], technique="TLA+ trace specification of Maxwell's equations (finite differences, interface pairs) checked by TLC",
     note=BASE + "Needs no Mie solution: only the recorded fields, at stencils of points, enter.")

prop("M04", "Cross sections and efficiencies follow from the coefficients",
     "Extinction, scattering and absorption cross sections, their efficiencies, and their split into electric/magnetic multipole orders are the values of the Mie series in the host medium, efficiencies being cross sections divided by the geometric one. The multipole parts add up to the totals, and the wavelength axis belongs to the wavenumbers given.",
     ["inputs", "configurations"], "all spheres, hosts, wavelengths (any order, repeated), backends, n_max and batch shapes",
     "Tests compare total efficiencies at few spectra, mostly in vacuum; multipole splits, hosts and batches are hardly covered.",
     [MS], [("series", MS + ": cross_sections")], observe=["multishell.cross_sections", "Particle.get_cross_sections"], technique=TRACE, note=BASE + "Relative 1e-10 / 1e-9 plus input rounding.")

prop("M05", "Angular scattering follows the amplitude functions",
     "For every angle, S1 and S2 are the scattering amplitude functions of the sphere, i_per = |S1|^2, i_par = |S2|^2, i_unpol is their mean and pol_degree their normalised difference. This holds for any list of angles, including 0, pi, negative ones and ones beyond pi.",
     ["inputs", "configurations"], "all spheres, hosts, wavelengths, angles, backends, n_max and batch shapes",
     "Tests compare intensities for a few spheres on one angle grid.",
     [MS, SP], [("series", MS + ": angular_scattering"), ("pi_n, tau_n", SP + ": pi_tau")], observe=["multishell.angular_scattering", "Particle.get_angular_scattering"], technique=TRACE, note=BASE + "Tolerance 1e-6 of the terms of the sum (single precision factors in the library).")

prop("M06", "Energy conservation, optical theorem, reciprocity of the totals",
     "Extinction equals scattering plus absorption for totals and every multipole, absorption vanishes for lossless particles and is non-negative for absorbing ones, and every passive coefficient satisfies Re(x) >= |x|^2. Extinction also equals 4 pi/k^2 Re S(0), scattering equals the integral of the angular intensity over the sphere, and the forward and backward amplitudes satisfy S1 = S2 and S1 = -S2.",
     ["inputs", "configurations"], "all passive spheres in lossless hosts, all backends",
     "No test relates the different outputs to each other.",
     [MS], [("series", MS + ": cross_sections, angular_scattering")], observe=["multishell.cross_sections", "multishell.angular_scattering", "multishell.mie_coefficients"],
     technique="TLA+ trace specification of the conservation laws checked by TLC", note=BASE + "The laws relate recorded outputs of one sphere; the angular integral uses Gauss nodes and weights derived in the specification.")

prop("M07", "Physically equal descriptions give equal results",
     "Splitting a layer into layers of the same material, giving the shell the material of the core or of the host, a vanishing difference between neighbouring layers, and describing a sphere by the legacy core/shell arguments or by layers all give the same coefficients, cross sections, amplitudes and fields.",
     ["inputs", "configurations"], "all spheres, splits, equivalent descriptions, backends",
     "Tests compare two or three such pairs for a single sphere.",
     [MS, MA, CS], [("argument normalisation", MS + ": _as_layer_inputs"), ("layer recursion", MS + ": _miecoef_pena")], observe=["multishell.*", "coreshell.*", "Particle.*"],
     technique="TLA+ model of equivalent descriptions (rewrite steps) with trace judging by TLC", note=BASE + "A rewriting machine generates chains of equivalent descriptions; each member is judged against the specification and against its siblings.")

prop("M08", "Scale and host-index invariance",
     "Results depend only on dimensionless combinations: scaling all lengths and the wavelength together leaves coefficients, efficiencies and amplitudes unchanged and scales cross sections by the square; moving the host index into the wavenumber (k0 n_h, eps/n_h^2, vacuum host) changes nothing but the normalisation of H.",
     ["inputs", "configurations"], "all spheres, scale factors from nanometres to metres, all hosts, backends",
     "Every test works in nanometres, nearly all in vacuum or one host.",
     [MS], [("dimensionless arguments", MS + ": _mie_args_to_layer_arrays, mie_coefficients")], observe=["multishell.*"],
     technique="TLA+ symmetry actions on calls, traces judged by TLC", note=BASE)

prop("M09", "A batched call equals the separate calls",
     "Every entry of a call with several particles, wavelengths, angles or positions equals the result of the call with that single particle, wavelength, angle and position. Reordering or repeating the entries reorders or repeats the results.",
     ["inputs", "configurations"], "all batch sizes including coincident sizes (particles = wavelengths = layers), permutations, backends, functions",
     "Tests use few batches, mainly checking shapes; coincident dimensions are not tried.",
     [MS, MA], [("broadcasting", MS + ": _mie_args_to_layer_arrays"), ("squeezing", MA + ": _squeeze_dimensions")], observe=["multishell.*", "Particle.*"],
     technique="TLA+ batch model (project / permute actions), traces judged by TLC", note=BASE)

prop("M10", "Array layouts are read as documented and mistakes are refused",
     "Radii, permittivities, host and wavenumbers given in any documented layout denote the same spheres, whatever the coincidences of sizes. Calls with inconsistent shapes, non-increasing radii or only half of a description raise an error instead of returning numbers.",
     ["inputs", "configurations"], "every combination of documented layouts for up to 3 layers x 3 particles x 3 wavelengths, and the listed mistakes",
     "Tests use a few fixed shapes and two error cases.",
     [MS], [("argument normalisation", MS + ": _as_layer_inputs, _mie_args_to_layer_arrays")], observe=["multishell.mie_coefficients"],
     technique="TLA+ layout model explored by TLC, its behaviours replayed on the library", note=BASE + "The layout machine is explored completely (51114 calls); the selection covers all pairs of features.")

prop("M11", "A Particle is the sphere its constructor arguments describe",
     "A Particle built from layers with permittivities, layers with materials, or core/shell arguments returns the results of exactly that sphere: scalar materials and the environment are refractive indices, materials are evaluated at the wavelengths of the call, radii may be numbers or tensors. Its results are those of the corresponding function call, with dimensions of size one removed, for every method, option and batch of wavelengths. Incomplete, contradictory, mis-sized or unordered descriptions are refused with an error at construction or first use.",
     ["inputs", "configurations"], "all constructor argument combinations (up to 3 layers; scalar, tensor, constant and tabulated materials; real and complex), methods, options, wavelength batches",
     "Tests construct about ten particles, nearly always from the same kinds of arguments.",
     [MA, MS, MT], [("normalisation of arguments", MA + ": Particle.__init__"), ("material evaluation", MA + ": get_material_permittivities"), ("squeezing", HE + ": _squeeze_dimensions")],
     observe=["Particle", "Particle.get_*"], technique="TLA+ constructor model explored by TLC, its behaviours replayed on the library and judged by TLC",
     note=BASE + "The constructor machine decides for every argument combination whether it is accepted and which sphere it means; single precision materials are compared to 1e-6.")

prop("M12", "Calls are pure: no hidden state, no change of arguments",
     "The result of a call depends only on its arguments and on the definition of the particle: repeating it, in any order and between any other calls on any other objects, returns the same numbers. No call modifies its arguments, the particle, its materials or a result returned earlier, and modifying a returned result does not influence later calls.",
     ["histories"], "all histories of constructing particles and materials, calling methods and functions, changing returned arrays and moving objects",
     "Tests call each function once on fresh objects.",
     [MS, MA, MT, SP], [("result assembly", MS + ": all public functions"), ("memoised permittivities", MT + ": MatDatabase._get_eps_single_wl")],
     state=[("lookup_eps", "permittivities already computed by a material", MT)],
     observe=["Particle.*", "multishell.*", "materials.*"], technique="TLA+ session state machine; its behaviours (TLC simulation and exhaustive short histories) replayed on the library",
     note="Session.tla is explored exhaustively to a bounded depth; sampled behaviours are replayed on real objects and each step's observation is checked by TLC against the abstract state.")

prop("M13", "The permittivity lookup table is transparent",
     "A tabulated or Sellmeier material returns the same permittivity for a wavelength whether or not, in whatever form (number, tensor, batch), and in whatever company it was evaluated before, including tables pre-computed at construction. Evaluating one material never changes what another one returns, and evaluations with gradients keep giving correct gradients.",
     ["histories", "inputs"], "all histories of evaluations (scalars, batches, repeated wavelengths, with and without gradients) on several materials",
     "No test evaluates a material twice.",
     [MT], [("memoisation", MT + ": MatDatabase._get_eps_single_wl, get_epsilon")], state=[("lookup_eps", "permittivities already computed", MT)],
     observe=["MatDatabase.get_epsilon"], technique="TLA+ model of the lookup table (refinement: cache invisible), behaviours replayed on the library",
     note="MatCache.tla: the cached machine refines the cache-free one; every behaviour up to the bound is replayed on real materials and judged by TLC.")

prop("M14", "Gradients are the derivatives of the results",
     "Automatic derivatives of coefficients, cross sections, angular intensities and near fields with respect to radii, complex permittivities, the host, wavenumbers, angles and probe positions equal the true derivatives of the Mie solution. This holds for every backend that is differentiable, for every layer and batch entry, and for complex parameters in the convention of the framework.",
     ["inputs", "configurations"], "all parameters, outputs, differentiable backends (torch, scipy, pena), batch positions, in real and complex parameters",
     "Tests run gradcheck for special functions at a few points and merely check that some gradients exist.",
     [MS, SP], [("autograd functions", SP + ": _AutoDiffJn, _AutoDiffYn etc."), ("in-place recurrences", SP + ": pena_*")], observe=["torch.autograd.grad of multishell.*"],
     technique="TLA+ specification evaluated at displaced parameters (1200-bit central differences) judging recorded gradients",
     note=BASE + "Reference derivatives are central differences of the specification at steps of 1e-60, so exact to rounding.")

prop("M15", "Gradient computations are independent of each other and of history",
     "Differentiating one result twice, several results of one call, results of different calls, or in any order gives the same gradients as separate fresh calculations. Values are the same with and without gradient tracking, and gradients of an entry depend only on its own parameters.",
     ["histories"], "all orders of calls, backward passes, detaching, and shared parameters over materials, particles and functions",
     "Tests run single backward passes on fresh graphs.",
     [MS, SP, MT], [("autograd functions", SP), ("memoised permittivities", MT)], observe=["torch.autograd.grad"],
     technique="TLA+ session state machine with gradient actions, behaviours replayed on the library", note="Session.tla with gradient actions.")

prop("M16", "Materials return the tabulated or Sellmeier permittivity",
     "Every material of the database, and every loaded file of the same formats, returns the square of the tabulated refractive index, linearly interpolated in permittivity between neighbouring wavelengths and constant beyond the table, or its Sellmeier formula. Constant materials return their value at every wavelength, and the result has the shape of the wavelengths.",
     ["inputs"], "all 17 materials, tables in any order, all wavelengths inside, at, between and beyond table entries, scalar and batch requests",
     "Only silicon, germanium and gold are used by tests, without checking values.",
     [MT, HE], [("loading", MT + ": _load_tabulated, _load_formula"), ("interpolation", HE + ": interp1d")], observe=["MatDatabase", "MatConstant"],
     technique="TLA+ specification of table and formula evaluation judging recorded values",
     note="The specification has its own copy of the tables (spec/data), compared in exact arithmetic; single precision tolerance.")

prop("M17", "The automatic truncation order suffices and is what is documented",
     "Without n_max, the largest order is the documented criterion (Wiscombe or its multilayer extension) for the largest sphere, layer and wavelength of the call, and the omitted orders would change cross sections, amplitudes and scattering results only negligibly. With n_max, exactly that many orders are computed, and the coefficients of the common orders do not depend on it.",
     ["inputs", "configurations"], "all spheres up to size parameter 60 (criterion: up to 1e4), batches, backends, n_max from 1 upwards",
     "Tests rely on the default order for a few spheres and never vary n_max.",
     [HE, MS], [("criteria", HE + ": get_truncution_criteroin_wiscombe, get_truncution_criteroin_pena2009"), ("choice", MS + ": mie_coefficients")], observe=["multishell.mie_coefficients", "helper.get_truncution_criteroin_*"],
     technique=TRACE, note=BASE)

prop("M18", "Backends, precisions and options agree",
     "The layer-recursion, torch and scipy solvers, and both ways to compute the Bessel functions, return the same coefficients, cross sections, amplitudes and fields for the same sphere. Single precision requests return single precision results that agree with double precision to single precision accuracy.",
     ["configurations", "inputs"], "all spheres with at most two layers, all backends, precisions and options",
     "Tests compare backends for a few spheres, all functions but near fields in one precision.",
     [MS, SP], [("dispatch", MS + ": mie_coefficients"), ("Bessel functions", SP)], observe=["multishell.*"],
     technique="TLA+ trace specification relating the results of all solvers, checked by TLC", note=BASE)

prop("M19", "Spherical Bessel and Hankel functions are right",
     "The spherical Bessel functions of both kinds, the Hankel function and their derivatives have their mathematical values for every order, complex argument and shape, in each implementation, and the differentiable versions have the mathematical derivatives.",
     ["inputs"], "all orders 0..60, complex arguments with |z| from 1e-3 to 60, including multiples of pi, real and imaginary axes",
     "Tests compare tens of arguments of moderate size.",
     [SP], [("upward/downward recurrences and ratios", SP + ": sph_jn_torch*, sph_yn_torch"), ("scipy wrappers", SP + ": sph_jn, sph_yn, sph_h1n, f_der, f_der_torch")], observe=["special.*"], technique=TRACE, note="SphBessel.tla: closed forms and recurrences in 1200-bit arithmetic.")

prop("M20", "Riccati-Bessel functions and logarithmic derivatives are right",
     "psi, zeta (or xi), their derivatives, the logarithmic derivatives D1, D3 and the ratio Q used by the layer recursion have their mathematical values for all orders and complex arguments.",
     ["inputs"], "orders 0..60, complex arguments with |z| from 1e-3 to 60, damping up to 30",
     "Tests compare with scipy at a handful of arguments and only with n_max far above |z|.",
     [SP], [("recurrences", SP + ": pena_D1_n, pena_D3_n, pena_Q_n, pena_psi_zeta_n, psi, chi, xi")], observe=["special.pena_*", "special.psi", "special.chi", "special.xi"], technique=TRACE, note="SphBessel.tla as for M19.")

prop("M21", "Angular functions and vector spherical harmonics are right",
     "pi_n and tau_n have their mathematical values for every cosine in [-1, 1], including the ends, and the vector spherical harmonics M and N (even and odd) built from them equal their definition for every order, position and kind of radial function.",
     ["inputs"], "orders 1..60, all angles, positions and radial functions",
     "Tests check two or three orders at a few angles.",
     [SP], [("recurrence", SP + ": pi_tau"), ("harmonics", SP + ": vsh, vsh_pena")], observe=["special.pi_tau", "special.vsh", "special.vsh_pena"], technique=TRACE, note="Recurrences and definitions of the specification in 1200-bit arithmetic.")

prop("M22", "Results are finite numbers",
     "For every physically meaningful sphere, wavelength, host, order and position, results and gradients are finite: no overflow, underflow to NaN, division by zero or empty results, however large, small, absorbing, thin-layered or resonant the sphere is.",
     ["inputs"], "extreme spheres: size parameter 1e-4 to 1e3, layers 1e-6 relative thickness, n_max far beyond the size, metals and opaque layers, up to 10 layers, positions at the centre and far away",
     "Tests check two large spheres.",
     [MS, SP], [("stable recursion", MS + ": _miecoef_pena"), ("recurrences", SP + ": pena_*")], observe=["multishell.*"],
     technique="TLA+ scenario model of extremes, traces judged by TLC (finite and, where affordable, equal to the specification)", note=BASE)

prop("M23", "Dipole model for coupled-particle simulations",
     "The effective polarizability model built from a particle has the electric and magnetic polarizabilities of its first-order Mie coefficients (diagonal, isotropic) at each requested wavelength, in its host, together with the particle's outer radius, position, wavelengths and environment. The coefficients it is built from are those of the particle for any requested order and solver, and an environment different from the particle's is refused.",
     ["inputs", "configurations"], "all particles, wavelengths (one or several), hosts, positions, orders, solvers",
     "Tests run one simulation with each class.",
     [TG], [("conversion", TG + ": StructAutodiffMieEffPola3D"), ("coefficients", TG + ": mie_ab_sphere_3d_AD")], observe=["helper.tg.StructAutodiffMieEffPola3D", "helper.tg.mie_ab_sphere_3d_AD"],
     technique=TRACE, note=BASE + "Single precision of the torchgdm interface: 1e-5.")

prop("M24", "Field evaluation for arbitrary incidence and the extracted matrix model",
     "For every incidence plane, angle and polarisation, the fields used for the matrix model are those of the plane wave with that direction and polarisation scattered by the sphere, and the illumination set covers all requested angles, planes and polarisations. The rotation matrices are the rotations about their axes. The extracted model, illuminated by a plane wave, scatters like the Mie solution outside the particle.",
     ["inputs", "configurations"], "all incidence planes, angles, polarisations, particles, hosts and solvers; extraction for several spheres",
     "Tests run one simulation and check loosely.",
     [TG], [("rotation", TG + ": _plane_wave_rotation, _eval_mie, rotation_x/y/z"), ("illuminations", TG + ": setup_plane_waves_configs"), ("extraction", TG + ": extract_GPM_sphere_miediff, StructAutodiffMieGPM3D")],
     observe=["helper.tg.*"], technique=TRACE, note=BASE)

prop("M25", "Coordinate, interpolation and expansion helpers",
     "Spherical and Cartesian coordinates and field components convert into each other exactly and invertibly, the linear interpolation returns the piecewise linear function of its (unsorted) data and is constant outside, the plane-wave expansion has the coefficients i^n (2n+1)/(n(n+1)), and the detaching and differencing helpers return what they say.",
     ["inputs"], "all positions, tables, orders",
     "The helpers have no tests of their own.",
     [HE], [("helpers", HE)], observe=["helper.*"], technique="TLA+ specification of the helper functions judging recorded calls", note="Exact arithmetic, double or single precision tolerance as the helper works in.")

prop("M26", "Moving a particle or material between devices keeps its meaning",
     "After set_device, at construction or later, all stored data and all results live on that device and the particle describes the same sphere. Materials shared between particles stay consistent and lookup tables move along.",
     ["histories", "configurations"], "all histories of construction, calls and moves of several particles that share materials",
     "No test moves anything; no second device is available to them.",
     [MA, MT], [("moving", MA + ": Particle.set_device"), ("moving", MT + ": MatConstant.set_device, MatDatabase.set_device")], observe=["Particle.set_device", "MaterialBase.set_device"],
     technique="TLA+ session state machine with move actions, behaviours replayed on the library", note="Only the CPU and the meta device exist here: the meta device carries placement but no numbers, so numbers are checked after moving back to a CPU copy.")
NA = {}
