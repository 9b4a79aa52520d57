"""The properties (source of properties.jsonl and MANIFEST.json)."""
NOTES = ("Every check runs engine/run.py: the functions of /repo/src are executed symbolically (real modules, library "
         "calls replaced by models), z3 decides the assertions, counterexamples are replayed on the real code.")
NOT_APPLICABLE = []
MISSED = set()  # planted bugs no check reports
EXACT = "float64 arithmetic treated as exact real arithmetic, compared with a tolerance; libraries outside the repository modelled by their contract"
P = []


def prop(id, title, statement, over, quant, why, files, mech, note, **k):
    files = ["src/sleplet/" + f for f in files]
    mech = [(a, "src/sleplet/" + b) for a, b in mech]
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, **k))


prop(
    "P01", "Region classification and angle range checks",
    "A region whose four angle limits lie in range is accepted and classified as polar exactly when only the maximum "
    "colatitude differs from its default, as limited latitude-longitude exactly when another limit differs, and as an "
    "arbitrary mask exactly when every angle is default and a mask is named; with nothing specified it is rejected. "
    "Any limit outside [0, pi] (colatitude) or [0, 2 pi] (longitude) is rejected, at construction and on later "
    "assignment, and accepted limits are stored unchanged.",
    ["inputs", "configurations"], "every combination of the four angle limits (in and out of range), gap setting and mask name",
    "the tests construct a handful of regions; the classification is a case split over four real angles",
    ["slepian/region.py", "_bool_methods.py"],
    [("Region validators and _identify_region", "slepian/region.py"), ("is_polar_cap, is_limited_lat_lon", "_bool_methods.py")],
    "all real angles in [-10, 10]; comparisons of exact reals",
)
prop(
    "P02", "Default region read from the environment",
    "The default region is the one the environment variables describe in degrees: each angle given becomes that many "
    "degrees in radians, each one left out takes its default (0 or the largest angle), the polar gap flag is set exactly "
    "when POLAR_GAP reads true in any capitalisation, and the mask is SLEPIAN_MASK or south_america. Angles out of range "
    "are rejected.",
    ["inputs", "configurations"], "every whole number of degrees for each of the four angles, set or not, with and without gap and mask",
    "the tests fix one or two environments",
    ["_mask_methods.py", "slepian/region.py"], [("create_default_region", "_mask_methods.py")],
    "whole degrees in [-20, 380]; " + EXACT,
)
prop(
    "P03", "Region masks and masked signals",
    "The mask of a region marks exactly the grid samples inside it: colatitude at most the opening angle for a polar cap, "
    "also within it of the other pole for a gap, and within all four limits for a limited region. Masking the "
    "coefficients of a signal gives the coefficients of the signal multiplied by the mask, at the same bandlimit, for "
    "real and complex signals and for spin, and leaves the input untouched.",
    ["inputs"], "every region angle and every coefficient array within the bandlimits",
    "the tests look at the shape or one fixed region",
    ["_mask_methods.py"], [("create_mask_region", "_mask_methods.py"), ("ensure_masked_flm_bandlimited", "_mask_methods.py")],
    "grids of bandlimits up to 6 (quick) or 8 (thorough), signals up to bandlimit 3; " + EXACT,
)
prop(
    "P04", "Shannon number of a region",
    "The Shannon number of a Slepian region is its area divided by the area of the sphere, times L squared, rounded to "
    "the nearest integer: for polar caps, polar gaps (both caps count), limited latitude longitude regions and arbitrary "
    "masks (area of the marked samples under the grid's quadrature).",
    ["inputs"], "every opening angle, rectangle and mask within the bandlimits",
    "the tests compare a few fixed regions with stored numbers",
    ["slepian/slepian_functions.py", "slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py",
     "_slepian_arbitrary_methods.py"],
    [("_calculate_area", "slepian/slepian_polar_cap.py"), ("N", "slepian/slepian_functions.py")],
    "bandlimits up to 6 (quick) or 8 (thorough), gaps with opening angle up to pi/2; " + EXACT,
)
prop(
    "P05", "Polar cap and polar gap eigenproblem of one order",
    "For every opening angle, bandlimit and order, the matrix whose eigenproblem is solved holds the integrals over the "
    "cap (both caps for a gap) of products of the order's spherical harmonics, whatever the number of workers. The "
    "eigenpairs come back with eigenvalues in descending order and each eigenvector's entries placed at the harmonic "
    "indices of that order and zero elsewhere.",
    ["inputs", "configurations"], "every opening angle, order and worker count within the bandlimits",
    "the tests solve a couple of fixed caps and only look at shapes and a few eigenvalues",
    ["slepian/slepian_polar_cap.py", "_parallel_methods.py", "_integration_methods.py"],
    [("_create_Dm_matrix, _dm_matrix_helper, _create_legendre_polynomials_table", "slepian/slepian_polar_cap.py"),
     ("_solve_eigenproblem_order, _clean_evals_and_evecs", "slepian/slepian_polar_cap.py")],
    EXACT + "; eigh and the Legendre recursions are modelled by contract; bandlimits up to 6 (quick) / 8 (thorough)",
)
prop(
    "P06", "Limited latitude longitude eigenproblem",
    "For every rectangle and bandlimit the matrix whose eigenproblem is solved holds, for each pair of harmonic indices, "
    "the integral over the rectangle of the product of one spherical harmonic with the conjugate of the other.",
    ["inputs"], "every rectangle with theta_min <= theta_max and phi_min <= phi_max",
    "the tests solve one or two fixed rectangles and look at shapes and orthogonality",
    ["slepian/slepian_limit_lat_lon.py"], [("_slepian_integral, _slepian_matrix, _slepian_integral_loop", "slepian/slepian_limit_lat_lon.py")],
    "bandlimits up to 4 (latitudes and longitudes at once: 3); eigh modelled by contract; " + EXACT,
)
prop(
    "P07", "Arbitrary region eigenproblem",
    "For every mask on the sample grid the matrix whose eigenproblem is solved holds the integrals over the mask of each "
    "spherical harmonic times the conjugate of each other, under the grid's quadrature, whatever the number of workers "
    "and whatever the order in which they run.",
    ["inputs", "schedules", "configurations"], "every mask, worker count and order of the workers' tasks",
    "the tests use one downloaded mask (and need the network)",
    ["slepian/slepian_arbitrary.py", "_slepian_arbitrary_methods.py", "_parallel_methods.py", "_integration_methods.py"],
    [("_create_D_matrix, _matrix_helper, _integral", "slepian/slepian_arbitrary.py"), ("split_arr_into_chunks", "_parallel_methods.py")],
    "bandlimits 1..3, up to 5 workers; eigh modelled by contract; " + EXACT,
)
prop(
    "P08", "Eigenpairs of a Slepian region stay together and sorted",
    "The eigenvalues of a Slepian region are in descending order, every eigenvector stays in the same position as its "
    "eigenvalue (and, for polar caps and gaps, the order it belongs to), and no eigenpair is lost or duplicated: each row "
    "is the solution of the eigenproblem for that eigenvalue, laid out at the harmonic indices.",
    ["inputs"], "every outcome of the eigendecomposition, including repeated eigenvalues",
    "the tests check that eigenvalues are sorted for a few fixed regions, not that the vectors and orders follow",
    ["slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "_slepian_arbitrary_methods.py"],
    [("_sort_all_evals_and_evecs, _clean_evals_and_evecs", "slepian/slepian_polar_cap.py"),
     ("clean_evals_and_evecs", "_slepian_arbitrary_methods.py")],
    "bandlimits 1..2, with given eigenvalues 3..4; eigh modelled as ascending eigenvalues in [0, 1] with arbitrary vectors",
)
prop(
    "P09", "Saved Slepian solutions: reload, interrupted writes, no sharing",
    "Building a Slepian region again from its saved solution gives the eigenvalues, orders and leading Shannon number of "
    "eigenvectors a fresh solution gives, also for a single order of a polar cap. A failure or crash during any write "
    "never changes what later constructions return. Regions which differ in type, bandlimit, gap or any angle never use "
    "the same saved files.",
    ["inputs", "histories", "crash_points"], "every eigendecomposition, point of failure within the writes, and pair of different angles",
    "the tests never reload, never interrupt a write and compare no two regions",
    ["slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "slepian/region.py",
     "_data/setup_pooch.py", "_string_methods.py"],
    [("_create_fn_name / _create_matrix_location / _solve_eigenproblem", "slepian/slepian_polar_cap.py"),
     ("save_to_local", "_data/setup_pooch.py"), ("angle_as_degree", "_string_methods.py")],
    "bandlimits 1..2 (given eigenvalues: 3..4), histories of up to three constructions, the first four writes; angles at least 1e-7 apart",
)
prop(
    "P23", "Normalisation of plotted fields",
    "Normalising a field for plotting maps it affinely onto [0, 1]: its maximum to 1 and its minimum to 0, however small "
    "or large its amplitude. An all-zero field is shown at 0.5 and any other constant field at 1; with normalisation "
    "switched off the field is untouched.",
    ["inputs"], "every real field, of any amplitude",
    "the plots are never inspected by the tests; small amplitudes and constant fields are special cases",
    ["plot_methods.py"], [("_normalise_function", "plot_methods.py")],
    "fields of up to 6 samples with values up to 1e6; " + EXACT,
)
prop(
    "P10", "Work sharing and failing workers",
    "Building a Slepian solution shares the rows of its matrix among the workers so that every row is computed exactly "
    "once, for any number of rows and workers. If any worker fails, at any point, the construction fails as well, solves "
    "and saves nothing, and a later construction starts afresh; the shared memory used is released after a construction.",
    ["fault_sequences", "schedules", "configurations"], "every number of rows and workers, every failing worker and point of failure",
    "the tests never make a worker fail and fix the number of workers",
    ["_parallel_methods.py", "slepian/slepian_polar_cap.py", "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py"],
    [("split_arr_into_chunks, create/attach/free/release_shared_memory", "_parallel_methods.py"),
     ("_create_Dm_matrix", "slepian/slepian_polar_cap.py"), ("_create_D_matrix", "meshes/mesh_slepian.py")],
    "up to 14 rows and 9 workers (quick) or 30 and 12; failing constructions with 1..3 workers at bandlimit 2..3",
)
prop(
    "P11", "Slepian coefficients and the Slepian functions they belong to",
    "The p-th Slepian coefficient of a signal is its inner product with the p-th Slepian function, whichever way it is "
    "obtained: by summing harmonic coefficients, by integrating over the sphere, or by integrating over the region and "
    "dividing by the eigenvalue. The inverse is the sum of the first N coefficients times their functions, and recovers "
    "a signal made of them; at a higher resolution the same field is sampled more finely. Ranks outside [0, L^2) are "
    "rejected, as is a decomposition of nothing, and selecting a Slepian function by rank yields that eigenvector.",
    ["inputs"], "every set of Slepian functions, eigenvalues, signal, mask and rank",
    "the tests compare methods on one region, one signal, to a loose tolerance",
    ["slepian/_slepian_decomposition.py", "slepian_methods.py", "functions/slepian.py", "functions/slepian_africa.py"],
    [("SlepianDecomposition", "slepian/_slepian_decomposition.py"), ("slepian_forward, slepian_inverse, compute_s_p_omega", "slepian_methods.py"),
     ("Slepian._validate_rank", "functions/slepian.py")],
    "bandlimits 1..3, with given eigenvectors up to 4 (quick) or 5; " + EXACT,
)
prop(
    "P12", "Mesh Fourier transforms",
    "The basis functions of a mesh are orthonormal vertex signals. The forward transform of a signal gives its products "
    "with the basis functions, the inverse gives the sum of coefficients times basis functions at every vertex, and the "
    "forward transform recovers any coefficients put through the inverse.",
    ["inputs"], "every orthonormal set of basis functions, signal and coefficients",
    "the tests use one mesh and one field",
    ["harmonic_methods.py", "meshes/mesh.py"],
    [("mesh_forward, mesh_inverse", "harmonic_methods.py"), ("mesh_eigendecomposition", "_mesh_methods.py")],
    "meshes of four and six vertices; eigsh modelled by contract; " + EXACT,
)
prop(
    "P13", "Mesh regions and Slepian functions of a mesh",
    "The region of a mesh is the set of vertices inside its configured box, bounds included. The matrix whose eigenproblem is "
    "solved holds the products of pairs of basis functions summed over the region, whatever the number and order of "
    "workers; the Shannon number is the fraction of vertices in the region times the number of basis functions; the "
    "eigenvalues come in descending order, each with its eigenvector, and a reload gives what was saved. Masking a mesh signal "
    "gives the coefficients of the signal inside the region.",
    ["inputs", "schedules", "histories"], "every vertex position, box, region, basis and eigendecomposition",
    "the tests use one mesh and look at orthogonality only",
    ["meshes/mesh.py", "meshes/mesh_slepian.py", "_mesh_methods.py"],
    [("create_mesh_region", "_mesh_methods.py"), ("MeshSlepian", "meshes/mesh_slepian.py")],
    "meshes of four and six vertices, up to four basis functions, 1..3 workers; eigh modelled by contract; " + EXACT,
)
prop(
    "P14", "Slepian coefficients on a mesh and mesh function ranks",
    "The p-th Slepian coefficient of a mesh signal is its product with the p-th Slepian function of the mesh, from "
    "harmonic coefficients, from the vertex values, or from the region only and divided by the eigenvalue; the inverse "
    "sums the first N coefficients times functions at each vertex. Ranks outside the available functions are rejected, "
    "however given, and selecting a mesh basis function or mesh Slepian function by rank yields that one. The default "
    "mesh field is the given component of the vertex normals.",
    ["inputs"], "every basis, region, set of Slepian functions, signal and rank",
    "the tests compare methods on one mesh and one signal, to a loose tolerance",
    ["meshes/_mesh_slepian_decomposition.py", "slepian_methods.py", "meshes/mesh_basis_functions.py", "meshes/mesh_slepian_functions.py",
     "meshes/mesh_field.py", "meshes/mesh_slepian_field.py"],
    [("MeshSlepianDecomposition", "meshes/_mesh_slepian_decomposition.py"),
     ("slepian_mesh_forward, slepian_mesh_inverse", "slepian_methods.py")],
    "a mesh of four vertices, 1..4 basis functions; " + EXACT,
)
prop(
    "P15", "Sifting convolution, translation and rotation",
    "The sifting convolution of two signals has as coefficients the products of the first's coefficients with the "
    "conjugates of the second's; for Slepian signals, of the first N (the Shannon number) only, row by row when the "
    "first has several rows, leaving the inputs untouched. Translating a harmonic signal multiplies its coefficients by "
    "the spherical harmonics at the translation point, translating a Slepian signal multiplies its first N coefficients by the "
    "Slepian functions at the nearest grid sample, translating the Dirac delta gives the delta at that point, the Slepian Dirac delta "
    "has the conjugates of the first N Slepian functions at a sample where the first of them is largest, and "
    "rotating applies the Wigner rotation by the given Euler angles in their order.",
    ["inputs"], "every signal, point and rotation within the bandlimits",
    "the tests compare two sides of one identity for one signal",
    ["_convolution_methods.py", "functions/coefficients.py", "functions/flm.py", "functions/fp.py", "functions/dirac_delta.py",
     "slepian_methods.py"],
    [("sifting_convolution", "_convolution_methods.py"), ("Coefficients.convolve, translate, rotate", "functions/coefficients.py"),
     ("compute_s_p_omega_prime", "slepian_methods.py")],
    "bandlimits up to 3; " + EXACT,
)
prop(
    "P16", "Slepian wavelet transform",
    "The Slepian wavelet coefficients of a signal at each scale are the products of the wavelet with the conjugate signal, "
    "for the first N coefficients; only trailing scales made of zeros are left out. The inverse gives each of the N "
    "coefficients of the signal times the power of the wavelets, hence the signal itself for the scale discretised "
    "wavelets. Inputs are left untouched.",
    ["inputs"], "every signal, Shannon number and set of wavelets",
    "the tests reconstruct one signal to a loose tolerance",
    ["wavelet_methods.py", "_convolution_methods.py"],
    [("slepian_wavelet_forward, slepian_wavelet_inverse, create_kappas", "wavelet_methods.py"), ("sifting_convolution", "_convolution_methods.py")],
    "up to 9 coefficients, scale discretised wavelets up to 64; " + EXACT,
)
prop(
    "P17", "Axisymmetric wavelet transform",
    "The axisymmetric wavelet coefficients of a signal at each scale are its harmonic coefficients times the wavelet's m=0 "
    "coefficient of the same degree with the standard convolution factor; the scaling function is the first scale. The "
    "inverse sums the scales back, hence returns the signal itself for the scale discretised wavelets.",
    ["inputs"], "every signal and every set of wavelets within the bandlimits",
    "the tests reconstruct one signal to a loose tolerance",
    ["wavelet_methods.py", "functions/axisymmetric_wavelets.py"],
    [("axisymmetric_wavelet_forward, axisymmetric_wavelet_inverse", "wavelet_methods.py"),
     ("create_axisymmetric_wavelets", "wavelet_methods.py")],
    "bandlimits up to 4; " + EXACT,
)
prop(
    "P18", "Selecting a wavelet by its scale",
    "For wavelets and wavelet coefficients, on the sphere and on a mesh, no wavelet number selects the scaling function and "
    "number j the j-th wavelet; a number is accepted if and only if such a wavelet exists (0 <= j < number of wavelets), "
    "whether given by name or as an extra argument. The wavelets are the scale discretised ones for the parameter, first "
    "scale and bandlimit (L on the sphere, L^2 for Slepian functions, the number of basis functions on a mesh), and the "
    "wavelet coefficients are those of the signal (Earth, Africa, South America, the mesh field) at that scale.",
    ["inputs"], "every wavelet number, and every way to give it",
    "the tests build one wavelet of each class",
    ["functions/axisymmetric_wavelets.py", "functions/axisymmetric_wavelet_coefficients_earth.py",
     "functions/axisymmetric_wavelet_coefficients_africa.py", "functions/axisymmetric_wavelet_coefficients_south_america.py",
     "functions/slepian_wavelets.py", "functions/slepian_wavelet_coefficients_africa.py",
     "functions/slepian_wavelet_coefficients_south_america.py", "meshes/mesh_slepian_wavelets.py",
     "meshes/mesh_slepian_wavelet_coefficients.py", "wavelet_methods.py"],
    [("AxisymmetricWavelets", "functions/axisymmetric_wavelets.py"), ("SlepianWavelets", "functions/slepian_wavelets.py"),
     ("MeshSlepianWavelets", "meshes/mesh_slepian_wavelets.py")],
    "bandlimits up to 5; " + EXACT,
)
prop(
    "P19", "Noise added to signals on the sphere",
    "Noise at a given signal-to-noise ratio (in decibels) is linear in standard normal random numbers, the same each time, "
    "real in space (its coefficients are conjugate symmetric), and white: its coefficients are uncorrelated and each has "
    "variance 10^(-SNR/10) times the power of the signal's harmonic coefficients over their number; for a Slepian signal it is the first N "
    "Slepian coefficients of that noise, and none is added beyond. The noisy signal is the signal plus the noise, the "
    "signal without noise is kept, and the ratio reported is ten times the decimal logarithm of the ratio of their powers.",
    ["inputs"], "every signal, signal-to-noise ratio and outcome of the random numbers",
    "the tests never look at the noise",
    ["noise.py", "functions/flm.py", "functions/fp.py", "functions/noise_earth.py", "functions/slepian_noise_africa.py",
     "functions/slepian_noise_south_america.py"],
    [("_create_noise, _create_slepian_noise", "noise.py"), ("compute_snr, compute_sigma_noise", "noise.py"),
     ("_add_noise_to_signal", "functions/flm.py"), ("_add_noise_to_signal", "functions/fp.py")],
    "bandlimits up to 4; " + EXACT,
)
prop(
    "P20", "Noise added to signals on a mesh",
    "Noise on a mesh at a given signal-to-noise ratio is linear in standard normal random numbers, the same each time, and "
    "white: its coefficients are uncorrelated and each has variance 10^(-SNR/10) times the power of the signal over the number "
    "of basis functions; for a Slepian signal it is the first N Slepian coefficients of that noise, and none is added "
    "beyond. The noisy signal is the signal plus the noise, the signal without noise is kept, and the ratio reported is "
    "ten times the decimal logarithm of the ratio of their powers.",
    ["inputs"], "every field, signal-to-noise ratio and outcome of the random numbers",
    "the tests never look at the noise",
    ["noise.py", "meshes/mesh_noise_field.py", "meshes/mesh_slepian_noise_field.py", "meshes/mesh_harmonic_coefficients.py",
     "meshes/mesh_slepian_coefficients.py"],
    [("_create_mesh_noise, _create_slepian_mesh_noise", "noise.py"), ("_add_noise_to_signal", "meshes/mesh_slepian_coefficients.py")],
    "four vertices, up to 4 basis functions; " + EXACT,
)
prop(
    "P21", "Denoising by hard thresholding",
    "Hard thresholding sets exactly the samples of the field whose magnitude is below the given number of standard "
    "deviations to zero, keeps the others, and returns the coefficients of that field: scale by scale with the scale's own "
    "standard deviation (at each sample for Slepian wavelets), leaving the scaling function alone for axisymmetric "
    "wavelets. The standard deviations are those of white noise at the signal-to-noise ratio: for scale j, the variance of the noise "
    "times the power of the wavelet, weighted for Slepian wavelets by the squared magnitudes of the first N Slepian "
    "functions at the sample.",
    ["inputs"], "every set of coefficients, standard deviations and thresholds; every signal, wavelet and signal-to-noise ratio",
    "the tests never denoise",
    ["noise.py", "slepian_methods.py"],
    [("harmonic_hard_thresholding, slepian_wavelet_hard_thresholding, slepian_function_hard_thresholding, slepian_mesh_hard_thresholding", "noise.py"),
     ("_compute_sigma_j, _compute_slepian_sigma_j, compute_slepian_mesh_sigma_j", "noise.py")],
    "bandlimits up to 3, four vertices; " + EXACT,
)
prop(
    "P22", "Fields drawn on the sphere",
    "A plot of a field on the sphere shows the requested part of it (real, imaginary, magnitude, or real plus imaginary), "
    "each sample at its own direction, with the last meridian repeating the first. Upsampling shows the same bandlimited "
    "signal, of its spin, sampled on a finer grid, whose bandlimit is the signal's times a power of two: at least 64, at "
    "most 2046 unless the signal needs more, and not finer from 1024. Without normalisation the colours range over plus and minus "
    "the given amplitude, or the largest magnitude. The amplitude found for a function is the largest magnitude of that part of its "
    "field, and for a noised function of its field without noise. The annotations given are part of the figure.",
    ["inputs", "configurations"], "every bandlimit for the resolution; every field, spin, part and amplitude",
    "the plots are never inspected by the tests; spin and complex fields are hardly plotted",
    ["plot_methods.py", "plotting/_create_plot_sphere.py", "_plotly_methods.py", "harmonic_methods.py"],
    [("calc_plot_resolution, find_max_amplitude, _boost_field", "plot_methods.py"), ("PlotSphere", "plotting/_create_plot_sphere.py"),
     ("invert_flm_boosted", "harmonic_methods.py"), ("create_tick_mark", "_plotly_methods.py")],
    "bandlimits up to 10^6 for the resolution, 1..3 for the fields; " + EXACT,
)
prop(
    "P24", "Fields drawn on meshes, and regions in plots",
    "A plot of a field on a mesh colours each face with the mean over its corners, on the vertices and faces of the mesh; without "
    "normalisation the colours range over plus and minus the given amplitude or the largest magnitude on the vertices, and the amplitude "
    "fixed for a noised field is the largest magnitude of the field without noise, given by coefficients or by Slepian coefficients. When a region is shown, a face keeps its colour "
    "exactly when all its corners are in the region, and a sample on the sphere exactly when it lies in the region of the plot; "
    "everything else is left uncoloured.",
    ["inputs"], "every field, every region of a mesh, every mask, cap, gap and latitude-longitude box on the sphere",
    "the plots are never inspected by the tests",
    ["plotting/_create_plot_mesh.py", "plot_methods.py", "_mask_methods.py", "_mesh_methods.py"],
    [("PlotMesh", "plotting/_create_plot_mesh.py"), ("_set_outside_region_to_minimum, compute_amplitude_for_noisy_mesh_plots", "plot_methods.py"),
     ("convert_region_on_vertices_to_faces", "_mask_methods.py"), ("average_functions_on_vertices_to_faces", "_mesh_methods.py")],
    "meshes of up to 6 vertices, spherical plots of bandlimits 1..5 (quick) or 1..6; " + EXACT,
)
prop(
    "P28", "Functions on the sphere defined by a formula",
    "The coefficients of the Gaussian, harmonic Gaussian, Dirac delta, identity and spherical harmonic, the samples which the elongated "
    "and squashed Gaussian are transformed from, and the ridgelets at each scale follow their formulas for every width, frequency, "
    "degree, order, spin and scale. Given as extra arguments, widths and frequencies are powers of ten and the rest is taken as it is; a wrong "
    "number of them, or any for a function without parameters, is rejected, and so is a degree, order or scale out of range, as an invalid "
    "value, however it is given.",
    ["inputs", "configurations"], "every width, frequency, degree, order and scale, given by name or as extra argument",
    "the tests build these functions with default parameters and never look at their values",
    ["functions/" + f + ".py" for f in ("gaussian", "harmonic_gaussian", "dirac_delta", "identity", "spherical_harmonic", "elongated_gaussian", "squashed_gaussian", "ridgelets")],
    [("_create_coefficients, _setup_args, _check_ell, _check_m", "functions/spherical_harmonic.py"), ("_grid_fun", "functions/elongated_gaussian.py"),
     ("_compute_ring, _create_wavelets", "functions/ridgelets.py")],
    "bandlimits 1..6 (quick) or 1..8; " + EXACT,
)
prop(
    "P27", "Functions taken as real are real",
    "Whenever a function on the sphere is flagged as real (which halves the information its transforms look at), its coefficients are those of a real field: "
    "f(l,-m) is (-1)^m times the conjugate of f(l,m), with any data, mask, parameters, smoothing, noise and wavelets. This stays so after a rotation, "
    "and a translation or convolution either gives such coefficients or takes the flag away. Slepian functions flagged as real have a real field. "
    "Only ridgelets have spin, the one asked for.",
    ["inputs", "configurations"], "every data set, mask, parameter, noise, angle and other function",
    "the tests build each function once and do not compare the flag with the values",
    ["functions/coefficients.py", "functions/flm.py", "noise.py", "_data/create_earth_flm.py", "_data/create_wmap_flm.py", "functions/identity.py", "functions/earth.py",
     "functions/noise_earth.py"],
    [("_set_reality of every function", "functions/earth.py"), ("convolve, translate", "functions/coefficients.py"), ("_create_noise", "noise.py")],
    "bandlimits 1..3 (quick) or 1..4; " + EXACT,
)
prop(
    "P29", "The Earth, its continents and the cosmic microwave background",
    "For every set of Earth data the coefficients of the Earth are those of a real map: the orders below zero are made from the ones above, "
    "all are conjugated, and a smoothing factor damps each degree as a Gaussian of width pi/(factor L). The views of Africa and South America turn it by "
    "fixed angles, and the functions of these continents are that view where their mask is set and zero elsewhere, bandlimited. A mask created from the Earth is "
    "set exactly where land lies within 41 or 40 degrees of the centre of the view, and an unknown name is rejected. The cosmic microwave background is a real random map "
    "whose variance at each degree follows the power spectrum and vanishes below degree two.",
    ["inputs", "configurations"], "every set of data, spectrum, smoothing factor, mask and outcome of the random numbers",
    "the tests use the one downloaded data set and compare no values (and cannot run without it)",
    ["_data/create_earth_flm.py", "_data/create_wmap_flm.py", "_smoothing.py", "_mask_methods.py", "harmonic_methods.py", "functions/earth.py", "functions/africa.py",
     "functions/south_america.py", "functions/wmap.py"],
    [("create_flm", "_data/create_earth_flm.py"), ("create_flm", "_data/create_wmap_flm.py"), ("apply_gaussian_smoothing", "_smoothing.py"),
     ("create_mask", "_mask_methods.py"), ("Africa._grid_fun", "functions/africa.py")],
    "bandlimits 1..5 (quick) or 1..7, masks up to bandlimit 22 (quick) or 40; " + EXACT,
)
prop(
    "P31", "The plotting commands draw what they are asked for",
    "The sphere command draws the field of the function it names, with its extra arguments, noise and smoothing, turned by the Euler angles or translated to the point asked for "
    "(moved to the nearest sample, and annotated unless turned off), convolved with the map asked for, and, where the Earth is involved, seen from the "
    "perspective asked for. Slepian functions are those of the region in the environment, and only they are shown in their region. The type of plot, normalisation and upsampling "
    "follow the flags, noisy signals are scaled to their signal. The mesh command likewise draws the function of the mesh it names. Unknown names are rejected.",
    ["inputs", "configurations"], "every command line (numbers symbolic), data set and region",
    "the tests never run the commands",
    ["_scripts/plotting_on_sphere.py", "_scripts/plotting_on_mesh.py", "plot_methods.py", "plotting/_create_plot_sphere.py", "plotting/_create_plot_mesh.py", "_class_lists.py"],
    [("main, plot, _rotation_helper, _translation_helper, _convolution_helper", "_scripts/plotting_on_sphere.py"), ("main, plot", "_scripts/plotting_on_mesh.py"),
     ("_calc_nearest_grid_point, compute_amplitude_for_noisy_sphere_plots", "plot_methods.py")],
    "bandlimits 2..3 (noise and smoothing: 2), a mesh of eight vertices; " + EXACT,
)
prop(
    "P26", "Different functions and pictures have different names",
    "Functions of different kinds, or with different parameters (widths, degrees and orders, scales, bandlimits, noise, smoothing, ranks, regions, meshes), have different names, "
    "and so do pictures with different flags, views, convolutions, methods and angles: results saved under a name are never those of something else.",
    ["inputs", "configurations"], "every pair of parameters (numbers symbolic) and choice of options",
    "names are compared with a few expected texts at most, never with each other",
    ["_string_methods.py", "plot_methods.py", "functions/", "meshes/", "_scripts/plotting_on_sphere.py"],
    [("filename_args, filename_angle", "_string_methods.py"), ("_create_name", "functions/coefficients.py")],
    "denominators up to 3 for symbolic numbers; bandlimits up to 6; " + EXACT,
)

prop(
    "P30", "Requests which do not fit are refused",
    "A function given another number of extra arguments than it has parameters is refused, whatever their values, and the level of noise given as an extra argument is the "
    "one given by name. Slepian functions of Africa or South America are made in the region of that name only. A polar cap is accepted exactly when its opening angle is not zero "
    "and all its orders are below the bandlimit. Rotating Slepian coefficients and drawing a field of another bandlimit is refused.",
    ["inputs", "configurations"], "every list of extra arguments, region, order, opening angle and level of noise",
    "the tests try a wrong number of arguments for few functions, and neither orders nor regions",
    ["functions/", "meshes/", "slepian/slepian_polar_cap.py", "plotting/_create_plot_sphere.py"],
    [("_setup_args", "functions/coefficients.py"), ("_setup_args", "meshes/mesh_coefficients.py"), ("_check_order, _check_theta_max", "slepian/slepian_polar_cap.py"),
     ("_setup_plot", "plotting/_create_plot_sphere.py")],
    "lists of up to five extra arguments, orders up to twice the bandlimit, bandlimits 1..3; " + EXACT,
)

prop(
    "P25", "Random signals and the variance of their wavelet coefficients",
    "A random signal is linear in the standard normal numbers of the generator given, and its coefficients are uncorrelated, each with the variance asked for, real and imaginary "
    "parts alike. Hence its Slepian and axisymmetric wavelet coefficients are uncorrelated and have that variance times the power of the wavelet.",
    ["inputs"], "every variance, generator, Shannon number and scale",
    "the tests look at neither the variance nor the correlations, and a sample could only estimate them",
    ["harmonic_methods.py", "wavelet_methods.py"],
    [("compute_random_signal", "harmonic_methods.py"), ("slepian_wavelet_forward, axisymmetric_wavelet_forward", "wavelet_methods.py")],
    "bandlimits 1..5 (quick) or 1..6; " + EXACT,
)

prop(
    "P33", "Published data come before local files",
    "Every data file (saved solutions on the sphere and on meshes, basis functions, masks, the Earth and background maps) is taken from the published data if it is registered "
    "there, else from the user's data folder; nothing is computed or saved which is there. The registry is asked for before it is looked at.",
    ["inputs", "configurations"], "every content of the files and every combination of places they are in",
    "the tests need the network for this, and never have a file in both places",
    ["_data/setup_pooch.py", "_data/create_earth_flm.py", "_data/create_wmap_flm.py", "_mask_methods.py", "_mesh_methods.py", "slepian/", "meshes/mesh_slepian.py"],
    [("find_on_pooch_then_local, _lazy_load_registry", "_data/setup_pooch.py")],
    "bandlimits 1..2, meshes of four vertices; pooch modelled by its contract; " + EXACT,
)

prop(
    "P34", "Saved mesh solutions: reload, interrupted writes, no sharing",
    "The Laplacian basis of a mesh and its Slepian functions come out the same whether they are computed or read back from the user's data folder; a saved solution is used "
    "again; a write that fails, or is cut short by a kill, leaves nothing behind that a later run takes for a solution or fails on; meshes of different names or numbers of basis "
    "functions never share a saved solution.",
    ["inputs", "crash_points", "histories"], "every basis and eigendecomposition, every failure point of the writes, every pair of meshes within the bounds",
    "the tests never fail within a write, and use one number of basis functions for each mesh",
    ["_mesh_methods.py", "meshes/mesh.py", "meshes/mesh_slepian.py", "_data/setup_pooch.py"],
    [("mesh_eigendecomposition", "_mesh_methods.py"), ("MeshSlepian", "meshes/mesh_slepian.py"), ("save_to_local", "_data/setup_pooch.py")],
    "meshes of eight vertices, 2..6 basis functions; " + EXACT,
)

prop(
    "P32", "A region is given the Slepian solver of its kind",
    "The Slepian functions chosen for a region are those of that region: a polar cap or gap with the region's opening "
    "angle, a limited latitude longitude rectangle with exactly its four limits, or the arbitrary region with the named "
    "mask, at the bandlimit asked for. A region of unknown kind is rejected.",
    ["inputs", "configurations"], "every region",
    "the tests choose a solver for a few fixed regions",
    ["slepian_methods.py", "slepian/slepian_functions.py"],
    [("choose_slepian_method", "slepian_methods.py")],
    "bandlimit 2, every angle; " + EXACT,
)
