"""Writes properties.jsonl (kept as code so that anchors stay in one readable place)."""
import json, os
MS, SP, MA, HE, TG, MT = ("src/pymiediff/multishell.py", "src/pymiediff/special.py", "src/pymiediff/main.py",
    "src/pymiediff/helper/helper.py", "src/pymiediff/helper/tg.py", "src/pymiediff/materials/mat.py")
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

add("C01", "Mie coefficients are the exact layered-sphere solution",
 "For every sphere made of concentric homogeneous layers in a homogeneous host, the electric and magnetic scattering coefficients the default solver returns for every multipole order equal, to near double precision relative to the conditioning of the problem, the coefficients of the exact solution of the Maxwell boundary value problem. This includes tiny and large spheres, thin shells, hollow and index-matched layers, metals, resonances, interfaces at zeros of the radial functions, and any requested truncation order.",
 ["inputs"], "all layer counts, radii, complex permittivities, hosts, wavelengths, particle/wavelength batches and truncation orders with |Im(k m r)| below the double-precision exponent range",
 "tests compare a few core-shell spectra with treams/scipy at 1e-3..1e-5; the accuracy claim ranges over a continuum of inputs with isolated dangerous points (zeros of psi_n, resonances, absorbing shells)",
 [MS, SP], [("multilayer log-derivative recursion", "multishell._miecoef_pena"), ("downward D1 / upward D3 / Q recurrences", "special.pena_D1_n, pena_D3_n, pena_Q_n, pena_psi_zeta_n")],
 observe=["multishell.mie_coefficients return value"])
add("C02", "Cross sections conserve energy and are the sums of their multipoles",
 "Cross sections and efficiencies are non-negative for passive particles in a lossless host, extinction equals scattering plus absorption, lossless particles absorb nothing, and each total is the sum of its reported electric and magnetic multipole parts. Efficiencies are the cross sections divided by the reported geometrical cross section, all equal the values of the exact solution, and the reported wavelength, wavevector and order metadata describe the values they come with.",
 ["inputs", "configurations"], "all passive layered spheres, hosts, spectra, batches, truncation orders and backends",
 "tests check q_ext for single spectra; energy balance per multipole and per particle in every batch shape is a universally quantified invariant",
 [MS], [("prefactors and sums over multipole type and order", "multishell.cross_sections")], observe=["multishell.cross_sections return value", "Particle.get_cross_sections return value"])
add("C03", "Far-field amplitudes are exact and consistent with the cross sections",
 "The two scattering amplitudes equal those of the exact solution at every scattering angle, in the forward direction they satisfy the optical theorem with the reported extinction, and their angular integral gives the reported scattering cross section. The polarised and unpolarised intensities and the degree of polarisation are the ones defined by these amplitudes, for every particle, wavelength and angle of the result.",
 ["inputs"], "all layered spheres, hosts, angles (any real angle, any order or shape of the angle list), batches and truncation orders",
 "tests look at two spectra on one angle grid with loose tolerance",
 [MS, SP], [("angular sums", "multishell.angular_scattering"), ("pi/tau recurrences", "special.pi_tau")], observe=["multishell.angular_scattering return value"])
add("C04", "Near fields equal the exact solution in every region",
 "At every probe position the returned incident, scattered (inside: internal) and total electric and magnetic fields equal those of the exact solution for an x-polarised plane wave travelling along +z with the given amplitude: in the core, in each shell, on the axes and the interfaces, close to and far from the particle. The total field is incident plus scattered outside and the internal field inside, and all fields scale linearly with the complex incident amplitude.",
 ["inputs"], "all layered spheres, hosts, probe positions, incident amplitudes, batches of particles and wavelengths",
 "tests compare one or two particles on a small grid to treams; regions, layers and positions form a continuum and wrong branches only show in particular regions",
 [MS, SP, HE], [("layer-wise expansion coefficients and region masks", "multishell.nearfields"), ("vector spherical harmonics", "special.vsh_pena"), ("coordinate transforms", "helper.transform_*")], observe=["multishell.nearfields return value"])
add("C05", "Returned fields obey Maxwell's equations and carry the reported power",
 "In every region the returned total fields satisfy the source-free time-harmonic Maxwell curl and divergence equations with that region's permittivity, tangential E and H and normal eps*E are continuous across every interface, and far away the scattered field becomes the outgoing spherical wave of the reported amplitudes. The Poynting flux of total, scattered and extinction fields through any enclosing sphere equals minus the reported absorption, the scattering and the extinction cross section.",
 ["inputs"], "all layered spheres in lossless hosts, evaluation points in all regions, enclosing surfaces of any radius",
 "no test differentiates or integrates fields; consistency between field, amplitude and cross-section routines is only sampled by eye in examples",
 [MS], [("field expansion per region", "multishell.nearfields"), ("cross-section sums", "multishell.cross_sections"), ("far-field sums", "multishell.angular_scattering")], observe=["multishell.nearfields / cross_sections / angular_scattering return values"])
add("C06", "Automatic gradients are the true derivatives and finite",
 "The gradient of any real scalar built from coefficients, cross sections, angular amplitudes or near fields with respect to wavelength or wavevector, any radius, any real or complex permittivity or refractive index, host permittivity, angle and probe position is finite and equals the true derivative of that quantity. Asking for gradients never changes the values, and gradients do not depend on which other inputs also require gradients.",
 ["inputs", "configurations"], "all differentiable inputs and combinations of them, all observables, layer counts, batches, and the torch- and scipy-backed solvers",
 "tests gradcheck special functions at a handful of points and mostly assert that a gradient exists",
 [MS, SP, MA, MT], [("autograd-safe recurrences", "special.pena_*, special.sph_*_torch"), ("custom backward formulas", "special._AutoDiffJn and siblings")], observe=["torch.autograd.grad of public results"])
add("C07", "Vectorised evaluation equals evaluating each element alone",
 "Each entry of a result for a batch of particles, wavelengths, angles or probe positions equals the result for that particle, wavelength, angle or position evaluated alone with the same truncation order, whatever else is in the batch and in whatever order. Every documented input layout (per layer, per particle and layer, per layer and wavelength, full; scalar or spectral host; numbers, lists, arrays or tensors) describing the same configuration gives the same result with the documented result shape.",
 ["inputs", "configurations"], "all batch sizes including sizes that coincide with the layer count or each other, all documented layouts, permutations and sub-batches",
 "tests use one or two batch shapes; ambiguous shapes and cross-talk between entries show only for particular size coincidences or neighbours",
 [MS], [("broadcasting of inputs", "multishell._broadcast_mie_layers, _as_layer_inputs"), ("batched recurrences", "special.pena_*")], observe=["all public functions"])
add("C08", "Alternative solver backends agree with the default solver",
 "For homogeneous and core-shell spheres within the documented stability range, the torch and scipy backends and both of their Bessel algorithms give the same coefficients, cross sections, angular amplitudes and near fields as the default backend at equal truncation order, including batches, hosts and complex amplitudes. The internal coefficients they additionally return reproduce the exact internal fields.",
 ["inputs", "configurations"], "all homogeneous/core-shell configurations with moderate size and absorption, all backend/algorithm options and observables",
 "tests compare backends for single spectra of one or two particles",
 [MS, SP], [("closed-form core-shell coefficients", "multishell._miecoef"), ("torch Bessel recurrences", "special.sph_jn_torch, sph_jn_torch_via_rec, sph_yn_torch")], observe=["public functions with backend="])
add("C09", "Equivalent descriptions of one physical system give equal results",
 "Splitting a layer into layers of equal material, adding a coating or outer layer made of the host material, giving core and shell as layers or in the legacy form, or scaling all lengths together leaves the physical results unchanged (up to the trivial scaling). Dividing all permittivities by the host permittivity while absorbing the host index into the wavevector, and mirror-symmetric probe positions, transform the results as physics prescribes.",
 ["inputs"], "all layered spheres and all such transformations",
 "tests check one or two equivalences for fixed particles",
 [MS], [("layer recursion and input normalisation", "multishell._miecoef_pena, _as_layer_inputs")], observe=["public functions"])
add("C10", "Automatic truncation is sufficient and explicit truncation is obeyed",
 "Without an explicit order, the number of multipoles is large enough that adding more changes no cross section, scattering amplitude or field outside or inside the particle beyond rounding for the default backend, and beyond a small relative error for the legacy backends. With an explicit order, exactly that many orders are returned, and lower orders do not depend on how many are requested.",
 ["inputs", "configurations"], "all layered spheres, batches (the largest member decides), hosts and observables",
 "tests do not vary the truncation; a criterion that is too small shows only for particular sizes or index contrasts",
 [HE, MS], [("truncation criteria", "helper.get_truncution_criteroin_wiscombe, get_truncution_criteroin_pena2009"), ("order argument", "multishell.mie_coefficients")], observe=["multishell.mie_coefficients return value"])
add("C11", "Material permittivities reproduce the data and formulas they stand for",
 "A tabulated material returns exactly the squared tabulated index at the data points, the linear interpolation of the permittivity between neighbouring points and the end values outside the range; a formula material returns the documented dispersion formula with its coefficients; a constant material returns its value. This holds for every wavelength, in any container or order, for built-in entries, user files and any name capitalisation, with one value per requested wavelength.",
 ["inputs"], "all wavelengths, all database entries, generated table and formula files",
 "tests evaluate one or two materials at a few wavelengths",
 [MT, HE], [("file parsing", "materials.mat._load_tabulated, _load_formula"), ("interpolation", "helper.interp1d"), ("dispersion formula", "MatDatabase._eval")], observe=["get_epsilon return value"])
add("C12", "Material answers do not depend on the history of queries",
 "The permittivity and its gradient returned for a wavelength depend only on the material and that wavelength: not on earlier queries, their order, dtype, batching or gradient mode, on lookup-table preloading, on device moves, on modifications a caller made to earlier results, or on other material or particle objects in use. Repeated differentiation through the same material keeps working.",
 ["histories", "inputs"], "all sequences of queries, gradient computations, in-place modifications of results, device moves and preloading on any set of materials",
 "each test uses a fresh object and at most one query pattern; the memo makes behaviour history dependent",
 [MT], [("memo of evaluated wavelengths", "MatDatabase._get_eps_single_wl")], state=[("lookup_eps", "memo from wavelength to permittivity", "MatDatabase.lookup_eps")], observe=["get_epsilon return value and gradient"])
add("C13", "Evaluation is pure, deterministic and independent of call order",
 "A computation leaves all its inputs, particle and material objects and global library state unchanged, returns computed observables that share no memory with the inputs or with later results (geometry echoed in the result metadata may), and gives bit-identical results when repeated. This holds for any interleaving of different computations, also from several threads at once, and after calls that failed.",
 ["histories", "schedules"], "all sequences and thread interleavings of public calls, including failing ones",
 "tests call each function once in a fresh state, single-threaded",
 [MS, MA, MT, SP], [("functional implementation without module state", "multishell, special"), ("in-place squeezing of results only", "helper._squeeze_dimensions")], observe=["public functions", "inputs before/after"])
add("C14", "Special functions have the right values",
 "The spherical Bessel, Neumann and Hankel functions, their derivatives, the Riccati-Bessel functions and the logarithmic-derivative sequences offered by the library equal the mathematical functions for every order and complex argument in their documented range, for every shape of the argument, with orders along the first axis. This includes the origin limit, zeros of the functions and arguments far above and far below the order.",
 ["inputs"], "orders 0..100, complex arguments up to |z| of several hundred with moderate imaginary part, all argument shapes",
 "tests compare a few functions on one grid",
 [SP], [("scipy-backed functions", "special.sph_jn, sph_yn, sph_h1n, psi, chi, xi"), ("torch recurrences", "special.sph_jn_torch, sph_yn_torch, psi_torch, pena_*")], observe=["return values of the special functions"])
add("C15", "Derivatives of the special functions are right, in value and in backward",
 "The derivative functions and the backward passes of all spherical Bessel, Hankel and Riccati functions, including those implemented outside autograd, equal the mathematical complex derivative for every order and argument in the documented range, following the autograd convention for complex numbers, also for non-contiguous, broadcast and multi-dimensional arguments. Evaluating them leaves the arguments unchanged.",
 ["inputs"], "orders, complex arguments (also zero and real ones), shapes and cotangents",
 "tests gradcheck along one line of arguments with loose tolerance",
 [SP], [("custom backward with derivative and second derivative formulas", "special._AutoDiffJn, _AutoDiffdJn, _AutoDiffYn, _AutoDiffdYn, bessel2ndDer"), ("generic derivative", "special.f_der")], observe=["backward results"])
add("C16", "Angular functions and vector spherical harmonics are right",
 "The angular functions equal their definition through Legendre functions for every order and angle, including exact forward and backward direction, and every shape. The vector spherical harmonics of every kind equal their definition, are transverse solutions of the vector Helmholtz equation that are each other's curl, both implementations agree where both are defined, and with the plane-wave expansion coefficients they add up to the plane wave.",
 ["inputs"], "orders up to 100, all angles, media and positions, all radial kinds",
 "tests compare one set of positions between the two implementations",
 [SP], [("pi/tau recurrence", "special.pi_tau"), ("harmonics", "special.vsh, special.vsh_pena")], observe=["pi_tau, vsh, vsh_pena return values"])
add("C17", "Coordinate and field transforms and interpolation are faithful",
 "Cartesian to spherical and back is the identity, angles lie in the standard ranges, field transforms are the rotation into the local unit vectors (norm and inner products preserved), for every point including axes, origin and boundaries; gradients are right away from the polar axis and finite everywhere but in the centre. One-dimensional interpolation is the piecewise linear function through the data with constant continuation, for any order of the data and queries, any dtype and shape, and leaves its inputs unchanged.",
 ["inputs"], "all points, vectors, tables (sorted or not, irregular spacing, real or complex values) and queries",
 "tests do not exercise the transforms on axes or interpolation outside the table",
 [HE], [("transforms", "helper.transform_xyz_to_spherical, transform_spherical_to_xyz, transform_fields_spherical_to_cartesian"), ("interpolation", "helper.interp1d")], observe=["return values of the helpers"])
add("C18", "Effective dipole models for coupled simulations reproduce Mie theory",
 "The coefficients handed to the coupled-dipole package are those of the particle at the requested wavelengths and orders, and a coupled simulation of one effective dipole has the dipolar extinction, absorption and scattering cross sections and dipole fields of Mie theory, in any transparent homogeneous host, at any position and for wavelengths in any order, differentiable with respect to the particle. Metadata (radius, environment, wavelengths) matches the particle, and inconsistent environments are refused.",
 ["inputs", "configurations"], "particles (homogeneous to multilayer), hosts, wavelength lists including single ones, backends, positions",
 "tests check one particle in vacuum",
 [TG], [("coefficient bridge", "helper.tg.mie_ab_sphere_3d_AD"), ("polarizability conversion", "helper.tg.StructAutodiffMieEffPola3D")], observe=["torchgdm simulation cross sections and fields"])
add("C19", "Extracted multi-dipole models see correctly rotated Mie fields",
 "When a multi-dipole model is extracted, the incident fields used are unit plane waves of the announced incidence planes, angles and polarisations in the host, and the scattered fields paired with them are exactly those of the particle under that illumination, for every direction. The extracted model reproduces the particle's scattering in a coupled simulation, and combining or patching structures for differentiation does not change any simulation result.",
 ["inputs", "configurations"], "particles, hosts, numbers of incidence angles, support and probe points, positions of combined structures",
 "tests extract a model for one particle and compare one spectrum loosely; a wrong rotation is partly absorbed by the fit",
 [TG], [("frame rotation", "helper.tg._plane_wave_rotation, _eval_mie"), ("illumination list", "helper.tg.setup_plane_waves_configs"), ("combination and patches", "helper.tg.combine_gpm_structures_autodiff, patch_torchgdm_autodiff")], observe=["arguments of torchgdm's extract_gpm_from_fields", "torchgdm simulation results"])
add("C20", "Malformed or contradictory input is refused, never silently computed",
 "Radii that do not increase outward, layer counts that do not match, contradictory or missing material and geometry arguments, unknown backends, materials and kinds of waves, orders below one, unsupported layer counts or internal coefficients for a backend, and mismatching spectral or particle dimensions raise an error at construction or call. Valid input of every documented form is accepted, and a refused call leaves objects usable.",
 ["inputs", "configurations"], "all argument combinations and shapes",
 "tests cover two or three error paths",
 [MS, MA, MT], [("validation", "multishell._broadcast_mie_layers, _as_layer_inputs, mie_coefficients, Particle.__init__, MatDatabase.__init__")], observe=["raised exceptions"])
add("C21", "Results are finite over the whole range and single precision is faithful",
 "Every public observable is finite for every physically meaningful input in the supported range, from deeply sub-wavelength to large, transparent to opaque, on all probe positions including the centre, axes, interfaces and far away. Single-precision mode, single-precision inputs and plain Python numbers give the double-precision result of the same numbers within single-precision accuracy, and double-precision tensor inputs of the functional interface are never silently degraded to single precision.",
 ["inputs", "configurations"], "size parameters 1e-5..2000, all materials with moderate opacity, dtypes and precision modes",
 "tests run in single inputs with tolerances that cannot distinguish precision loss",
 [MS, SP], [("overflow/zero safeguards", "special.pena_*"), ("dtype selection", "multishell, special")], observe=["all public results"])
add("C22", "Particle objects give the results of the functional interface",
 "For a particle built in any documented way, every observable equals that of the functional interface called with its radii and its materials' permittivities at the requested wavelengths, with singleton dimensions of result tensors removed and nothing else changed. Constructing, printing, moving and evaluating a particle in any order and with any spectra leaves its later answers unchanged, and its radii, materials and environment are those given.",
 ["inputs", "histories", "configurations"], "all construction forms (layer permittivities, layer materials, legacy core/shell, numbers or material objects), observables, spectra, histories of calls",
 "tests use a few construction forms and single calls",
 [MA, MS], [("normalisation of constructor input", "Particle.__init__"), ("delegation to functional interface", "Particle.get_*"), ("squeezing", "helper._squeeze_dimensions")], observe=["Particle.get_* return values and attributes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
