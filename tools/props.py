"""The property list: source of properties.jsonl and of MANIFEST.json (tools/mkmanifest.py)."""

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=(), state=(), design=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], technique=technique, note=note, design=design,
                  observe=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state]))

TESTS = ("The shipped tests run eight fixed example inputs with the eig_add solver (one scalar delta-M/TMS Lambertian scene and one BRDF scene) "
         "and compare printed numbers at 1e-6; ")

prop("C01", "Full multiple-scattering solvers agree on every scene both accept",
     "For every scene that two of the full multiple-scattering solvers (eigenmatrix adding, eigenmatrix BVP, matrix-exponential BVP, doubling-adding, "
     "Pade adding, successive orders of scattering) both accept, the radiances, mean radiances and fluxes they return agree to the accuracy of the less accurate method.",
     ["inputs", "configurations"], "all layered atmospheres, surfaces, sources, geometries and option sets that the creation rules allow for both solvers",
     TESTS + "no test compares two solvers, and agreement has to hold over the whole continuous input space and the option lattice.",
     ["src/xrtm_model.c", "src/xrtm_eig_bvp.c", "src/xrtm_eig_rts.c", "src/xrtm_mem_bvp.c", "src/xrtm_doub_rts.c", "src/xrtm_pade_rts.c", "src/xrtm_sos.c", "src/xrtm_adding.c"],
     [("solver dispatch and Fourier loop", "src/xrtm_model.c:get_solution_internal/fourier_*"), ("layer reflection, transmission and source", "src/xrtm_eig_rts.c, src/xrtm_doub_rts.c, src/xrtm_pade_rts.c"),
      ("boundary value problems", "src/xrtm_eig_bvp.c, src/xrtm_mem_bvp.c"), ("adding", "src/xrtm_adding.c")],
     "property-based testing: generated scenes, differential oracle between solvers",
     "Random scenes, pairwise differential comparison; tolerance 1e-7 of the radiance scale (3e-4 with doubling, 1e-3 with successive orders); no claim beyond the cases generated.",
     ["xrtm_solution"],
     design="Generated: scenes for one of eight solver pairs (layers 1-5, up to 8 streams per hemisphere, 1-4 Stokes parameters, all sources, "
     "surfaces and options both accept). Oracle: the other solver. SOS scenes are optically thin and use sub-layers of a tenth of the smallest "
     "direction cosine, so that its own error stays below 1e-3. Cost: 6000 cases, about 6 s.")

prop("C02", "Results equal an independent discrete-ordinate reference model",
     "For Lambertian or absent surfaces the radiances, mean radiances and fluxes equal the solution of the documented discrete-ordinate radiative transfer "
     "equation with the documented beam, thermal and isotropic sources, delta-M scaling, single-scattering correction and pseudo-spherical beam attenuation.",
     ["inputs", "configurations"], "all scalar and vector scenes with Lambertian or no surface, at levels or optical depths, at quadrature or user angles",
     TESTS + "an error common to all solvers (phase matrix, quadrature, Fourier sum, delta-M, TMS, beam geometry) cannot be seen by comparing numbers with earlier numbers.",
     ["src/xrtm_model.c", "src/xrtm_eig_bvp.c", "src/xrtm_eig_rts.c", "src/xrtm_mem_bvp.c", "src/xrtm_scatter.c", "src/xrtm_source.c", "src/xrtm_single.c", "src/xrtm_radiance.c", "src/xrtm_utility.c"],
     [("phase matrices", "src/xrtm_scatter.c"), ("particular solutions", "src/xrtm_source.c"), ("delta-M and TMS", "src/xrtm_utility.c, src/xrtm_single.c"), ("radiance at levels", "src/xrtm_radiance.c, src/xrtm_sfi.c")],
     "property-based testing: generated scenes, independent reference model as oracle",
     "Random scenes against an independent NumPy/SciPy discrete-ordinate solver (lib/ref.py); tolerance 1e-7 of the radiance scale; only Lambertian or no surface.",
     ["xrtm_solution"],
     design="Oracle: lib/ref.py, written from the equations (phase matrices from generalized spherical functions evaluated by rotation of the "
     "scattering plane, a dense full-atmosphere boundary value problem by matrix exponentials, source function integration for user angles, "
     "analytic single scattering for TMS). It shares no code with the library. Quantities that the documentation leaves open (sign of U, position of the "
     "delta-M fraction) are taken from the library's solvers where they agree. Cost: 3000 cases, about 10 s.")

# ---- more are appended below by the modules as they are built

prop("C05", "Linearized results equal the derivatives of the radiances",
     "For every linearizable solver, scene and set of seeded derivatives (of optical thickness, single scattering albedo, phase coefficients, kernel factors and "
     "parameters, surface and level emission, isotropic boundary radiances, in one or many layers), the derivatives returned with the radiances, mean radiances and fluxes are the "
     "derivatives of those quantities, and requesting them does not change the quantities themselves.",
     ["inputs", "configurations"], "all scenes accepted by EIG_BVP, EIG_ADD, MEM_BVP, PADE_ADD, DOUB_ADD, SINGLE, TWO_OS and SOS and all directions in their input space",
     TESTS + "the tests print derivatives of the example scenes; the sixteen combinations of which layers carry which derivative, source types and solver paths are not sampled.",
     ["src/xrtm_model.c", "src/xrtm_adding.c", "src/xrtm_eig_bvp_x.c", "src/xrtm_eig_util.c", "src/xrtm_sfi_x.c", "src/xrtm_source.c", "src/xrtm_brdf.c", "src/xrtm_single.c", "src/xrtm_two_os.c", "src/xrtm_sos.c"],
     [("derivative flags", "src/xrtm_interface.c:xrtm_update_varied_layers"), ("linearized adding", "src/xrtm_adding.c"), ("eigenvector derivatives", "src/xrtm_eig_util.c"),
      ("delta-M and beam derivatives", "src/xrtm_model.c")],
     "property-based testing: generated scenes and directions, numerical differentiation as oracle",
     "Random scenes and directions against fourth-order central differences of runs without derivatives; relative tolerance 1e-5 (scalar), 2e-3 (vector eigen solvers, doubling, successive orders).",
     ["xrtm_solution", "xrtm_update_varied_layers"],
     design="Generated: a scene and one to four directions of nine kinds (everything, one layer, one quantity, kernels, sources, nothing). Oracle: fourth-order "
     "central differences at two steps; a direction whose two quotients disagree (kinks, resonances) is counted as unclear and not judged. A failure must also "
     "be there on perturbed neighbours of the scene. Cost: 6600 cases, about 25 s.")

prop("C08", "Options about how results are computed do not change the results",
     "Saving and reusing intermediate results (Legendre polynomials, phase matrices, local, layer and total matrices, adding stacks), one-way adding, the Fourier convergence option, "
     "the particular solution method (scalar EIG_ADD at quadrature angles), restricting output to one direction, and declaring scalar transport as vector transport leave the requested results "
     "and their derivatives unchanged, in the first and in repeated solutions.",
     ["inputs", "configurations", "histories"], "all scenes, with and without derivatives, and all sets of these options that the creation rules allow",
     TESTS + "none of these options is used by a test, and an error appears only for some combination of an option with a source, a derivative pattern or an output level.",
     ["src/xrtm_model.c", "src/xrtm_stacks.c", "src/xrtm_adding.c", "src/xrtm_interface.c", "src/xrtm_save_tree.c", "src/xrtm_eig_rts.c"],
     [("save options", "src/xrtm_model.c:get_phase_*, get_local_*, get_layer_*, get_total_*"), ("adding stacks", "src/xrtm_stacks.c, src/xrtm_model.c:build_layer_stacks"),
      ("one-way adding", "src/xrtm_model.c:fourier_get_add_top_down/bottom_up")],
     "property-based testing: generated scenes and option sets, metamorphic relation between option sets",
     "Random scenes with random extra options against the same scene without them; tolerance 1e-8 of the radiance scale, 2e-6 for derivatives. PART_SOL_GREENS outside scalar EIG_ADD at quadrature angles is listed as known findings.",
     ["xrtm_solution", "xrtm_create"],
     design="Generated: a scene (two in three with derivatives) and a random set of options among SAVE_*, STACK_REUSE_ADDING, TOP_DOWN_ADDING, BOTTOM_UP_ADDING, PART_SOL_GREENS, "
     "FOUR_CONV_OLD, UPWELLING_OUTPUT, DOWNWELLING_OUTPUT, VECTOR. Oracle: the same scene without the options. The instance with the options solves twice, so that what was "
     "saved by the first solution is used by the second. Passing cases differ by 1e-14 (derivatives 4e-12). Cost: 6000 cases, about 10 s.")

prop("C07", "Results depend on the current inputs only, not on the history of the instance",
     "Whatever sequence of input changes, linearized input changes, solutions with different solvers and outputs, and clearing of saved results an instance has gone through, with or without options that "
     "save intermediate results, a solution returns what a freshly created instance holding the same inputs returns, derivatives included.",
     ["inputs", "configurations", "histories"], "all call sequences of setters, xrtm_update_varied_layers, xrtm_clear_saved and solutions on an instance with any allowed option set",
     TESTS + "each test configures an instance once and solves; the dependency flags that decide what is recomputed after a change are never exercised.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_stacks.c", "src/xrtm_save_tree.c"],
     [("dependency flags set by setters", "src/xrtm_interface.c:set_deps, dep masks"), ("flags resolved by computations", "src/xrtm_model.c:resolve_deps, *_deps"),
      ("varied layers", "src/xrtm_interface.c:xrtm_update_varied_layers"), ("saved work arrays", "src/xrtm_save_tree.c")],
     "stateful property-based testing: generated call histories, a fresh instance with the current inputs as oracle",
     "Random histories of two to six (thorough: up to 24) solutions with changes of inputs between them; tolerance 1e-9 of the radiance scale, 1e-7 for derivatives.",
     ["xrtm_set_*", "xrtm_solution", "xrtm_clear_saved", "xrtm_update_varied_layers"],
     design="Generated: a scene, an option set (half with saved intermediate results or stack reuse, half with derivatives) and a history over some 30 kinds of operation "
     "(the single, row and full forms of the setters, output changes, solver switches, clearing). Oracle: after every solution a fresh instance is created with the inputs that the history leaves and solves the same. "
     "Failures shrink by removing operations and options. Cost: 12000 cases, about 17 s.")

PBT = "property-based testing: generated scenes, "
FULL = "all scenes and option sets that the creation rules allow for EIG_BVP, EIG_ADD, MEM_BVP, PADE_ADD, DOUB_ADD, SOS, TWO_OS and SINGLE"

prop("C09", "What is asked for does not change what is returned for it",
     "Radiances, mean radiances and fluxes (and their derivatives) at a level or optical depth, angle and azimuth do not depend on which other levels, angles, azimuths or quantities are requested with them, "
     "on their order, on the entry point (xrtm_solution, xrtm_radiance, xrtm_mean_radiance, xrtm_flux), on naming a level by index or by its optical depth, or on whether user angles are requested at all.",
     ["inputs", "configurations"], FULL + ", and all selections of outputs",
     TESTS + "each test asks for one fixed set of outputs through one entry point.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_radiance.c", "src/xrtm_sfi.c"],
     [("entry points", "src/xrtm_interface.c:xrtm_solution/xrtm_radiance/xrtm_mean_radiance/xrtm_flux"), ("output levels and optical depths", "src/xrtm_interface.c:xrtm_set_out_levels/out_taus, src/xrtm_radiance.c"),
      ("azimuth sum", "src/xrtm_model.c:fourier loop")],
     PBT + "metamorphic relation between a whole and its parts", "Random scenes and random parts; tolerance 1e-9 of the radiance scale, 1e-6 for derivatives.",
     ["xrtm_solution", "xrtm_radiance", "xrtm_mean_radiance", "xrtm_flux"],
     design="Generated: a scene solved for everything (all levels the solver can output, several angles and azimuths, all quantities) and again for a random part of it. Oracle: the part of the first result. "
     "The scene scale leaves three orders of magnitude above the differences seen. Cost: 20000 cases, about 13 s.")

prop("C10", "Radiances are linear in the sources",
     "Solar beam, emission at every level, surface emission and isotropic radiances at the top and the bottom superpose: the result with all sources, each scaled by any non-negative factor, is the sum of the scaled results of each source alone, whether the absent ones are zero or not switched on.",
     ["inputs", "configurations"], FULL + ", any set of sources each accepts",
     TESTS + "the tests have a single source each.",
     ["src/xrtm_source.c", "src/xrtm_model.c", "src/xrtm_adding.c", "src/xrtm_eig_bvp.c", "src/xrtm_doub_rts.c", "src/xrtm_radiance.c", "src/xrtm_single.c"],
     [("source vectors", "src/xrtm_source.c"), ("boundary conditions", "src/xrtm_eig_bvp.c, src/xrtm_radiance.c"), ("source adding", "src/xrtm_adding.c")],
     PBT + "superposition as metamorphic relation", "Random scenes with all the sources a solver accepts; tolerance 1e-9 of the radiance scale.",
     ["xrtm_solution"],
     design="Generated: a scene with all sources on and a factor for each (factors of zero, one and between 0.01 and 9; separate factors for each level's emission). Oracle: the sum over single-source solutions. "
     "In one half of the cases solar and thermal sources stay switched on as options and their magnitudes go to zero, so that zero emission and zero flux are exercised; in the other half each part is solved with the options of its own source only. Cost: 20000 cases, about 20 s.")

prop("C11", "Splitting a layer or inserting a negligible one changes nothing",
     "Cutting a homogeneous layer at any fraction of its optical thickness (with emission linear in optical depth), any number of times, leaves all results at the old levels and optical depths unchanged, derivatives included; "
     "inserting a layer of negligible optical thickness leaves the results unchanged to first order in its thickness.",
     ["inputs", "configurations"], FULL + " with a plane-parallel beam",
     TESTS + "the layering of the tests is fixed.",
     ["src/xrtm_adding.c", "src/xrtm_eig_bvp.c", "src/xrtm_mem_bvp.c", "src/xrtm_model.c", "src/xrtm_source.c", "src/xrtm_sos.c", "src/xrtm_two_os.c", "src/xrtm_single.c"],
     [("adding", "src/xrtm_adding.c"), ("layer source terms", "src/xrtm_source.c"), ("boundary value problem", "src/xrtm_eig_bvp.c")],
     PBT + "invariance under cutting and inserting layers", "Random scenes; tolerance 1e-7 of the radiance scale (2e-4 doubling, 1e-3 successive orders; 3e-6 for inserted layers), 1e-5 for derivatives.",
     ["xrtm_solution"],
     design="Generated: a scene of up to three layers and one to three cuts at random, even and extreme (1e-4) fractions, or an arbitrary layer of optical thickness 1e-9. Oracle: the uncut scene. "
     "Layers without scattering and levels without emission are generated on purpose. Cost: 20000 cases, about 13 s.")

prop("C12", "Energy is conserved and thermal equilibrium is kept",
     "The net flux through a slab changes by exactly the power absorbed minus emitted in it; without emission no more leaves than arrives, and exactly as much when nothing absorbs; a Lambertian surface reflects its albedo times the incident flux; "
     "in an isothermal enclosure every radiance equals the emission, unpolarized.",
     ["inputs", "configurations"], "scenes for EIG_BVP and MEM_BVP (slabs), EIG_BVP, EIG_ADD, PADE_ADD and DOUB_ADD (enclosure), EIG_BVP, EIG_ADD, PADE_ADD, MEM_BVP and SOS (bounds)",
     TESTS + "no test relates fluxes, mean radiances, sources and surfaces to one another.",
     ["src/xrtm_source.c", "src/xrtm_eig_bvp.c", "src/xrtm_model.c", "src/xrtm_brdf.c", "src/xrtm_radiance.c", "src/xrtm_mem_bvp.c"],
     [("particular solutions", "src/xrtm_source.c"), ("mean radiances and fluxes", "src/xrtm_model.c:*_mean_radiance, *_flux"), ("surface reflection and emissivity", "src/xrtm_brdf.c, src/xrtm_surface.c")],
     PBT + "conservation laws as invariants", "Random scenes of three kinds; tolerance 2e-6 (slabs), 1e-7 (enclosure, 3e-4 doubling), 1e-6 plus the absorption of omega = 1 - 1e-5 (bounds).",
     ["xrtm_solution", "xrtm_mean_radiance", "xrtm_flux"],
     design="Oracle: the divergence theorem, integrated over the slab with twelve Gauss points of the mean radiance; equality of radiance and emission; signs of net fluxes. The library stores omega = 1 as 1 - 1e-5, and the balances allow for it. Cost: 20000 cases, about 5 s.")

prop("C13", "Mean radiances and fluxes are angular integrals of the radiances plus the beam",
     "Upward and downward mean radiances and fluxes are the documented quadrature sums of the azimuthally averaged radiances at the quadrature angles, the downward ones include the attenuated direct beam at the output level, and their derivatives are the same sums of the derivatives of the radiances and the beam.",
     ["inputs", "configurations"], "all scenes of the solvers that return mean radiances and fluxes, at levels and optical depths, plane-parallel and pseudo-spherical, with and without delta-M",
     TESTS + "fluxes and mean radiances are printed but not related to the radiances.",
     ["src/xrtm_model.c", "src/xrtm_interface.c", "src/xrtm_utility.c"],
     [("angular sums", "src/xrtm_model.c, src/xrtm_radiance.c"), ("beam transmittance", "src/xrtm_model.c:get_btran")],
     PBT + "angular integrals of the radiances as oracle", "Random scenes; azimuthal mean over enough equally spaced azimuths to be exact; tolerance 1e-9 of the radiance scale.",
     ["xrtm_mean_radiance", "xrtm_flux", "xrtm_solution"],
     design="Oracle: quadrature sums of the radiances returned by the same run, plus the beam attenuated along a plane-parallel or Chapman path computed in lib/ref.py. Derivatives of the beam are fourth order difference quotients of that path. Cost: 20000 cases, about 18 s.")

prop("C14", "Radiances have the azimuth symmetries of a horizontally homogeneous atmosphere",
     "Results depend on the azimuths of beam and view only through their difference, have period 360 degrees, and are symmetric in the principal plane (I and Q even, U and V odd), and do not depend on azimuth when the sun is overhead or off.",
     ["inputs", "configurations"], FULL, TESTS + "the tests use a few azimuths between 0 and 180 degrees.",
     ["src/xrtm_model.c", "src/xrtm_single.c", "src/xrtm_brdf.c", "src/xrtm_scatter.c"],
     [("azimuth sum", "src/xrtm_model.c"), ("scattering angle and rotation", "src/xrtm_single.c, src/xrtm_scatter.c")],
     PBT + "symmetry as metamorphic relation", "Random scenes; tolerance 1e-7 of the radiance scale.", ["xrtm_radiance"],
     design="Generated: a scene and one of: a turn of both azimuths, full turns added to single azimuths, reflection in the principal plane, views in the principal plane, an overhead beam, no beam. Cost: 20000 cases, about 10 s.")

prop("C15", "Reflection and transmission are reciprocal",
     "Exchanging the directions of the beam and the view leaves the reflected radiance per unit of incident flux unchanged, and leaves the transmitted one unchanged when the order of the layers is reversed.",
     ["inputs", "configurations"], "scenes lit by the beam only, plane-parallel, at user angles, over Lambertian, Roujean, Ross, Hapke and Rahman surfaces or none (the Li and Cox-Munk kernels as coded are not reciprocal)",
     TESTS + "no test exchanges directions.",
     ["src/xrtm_model.c", "src/xrtm_source.c", "src/xrtm_sfi.c", "src/xrtm_brdf.c", "src/xrtm_brdf_aux.c", "src/xrtm_adding.c", "src/xrtm_single.c"],
     [("beam source", "src/xrtm_source.c"), ("kernels", "src/xrtm_brdf_aux.c"), ("user angles", "src/xrtm_sfi.c, src/xrtm_eig_rts.c")],
     PBT + "reciprocity as metamorphic relation", "Random scenes; tolerance 1e-7 of the radiance scale (3e-4 doubling, 1e-3 successive orders).", ["xrtm_radiance"],
     design="The beam and the user angles take different code paths, and the relation ties them. TWO_OS is not included: it is compared in C04. Cost: 20000 cases, about 11 s.")

prop("C16", "Polarized transport contains scalar transport",
     "A phase matrix that does not polarize gives with two to four Stokes parameters the radiances, mean radiances, fluxes and derivatives of the scalar model and no polarization; without coupling to V three and four Stokes parameters agree; "
     "a Rayleigh atmosphere is never polarized by more than one.",
     ["inputs", "configurations"], FULL + " with option VECTOR", TESTS + "all tests are scalar.",
     ["src/xrtm_scatter.c", "src/xrtm_model.c", "src/xrtm_eig_util.c", "src/xrtm_brdf.c", "src/xrtm_single.c", "src/xrtm_source.c"],
     [("phase matrices", "src/xrtm_scatter.c"), ("symmetries used by the eigenproblem", "src/xrtm_eig_util.c, src/xrtm_matrix.c")],
     PBT + "differential oracle between vector and scalar runs", "Random scenes; tolerance 1e-8 of the radiance scale (1e-6 for the approximate solvers), 1e-4 for derivatives.", ["xrtm_solution"],
     design="Generated: vector scenes whose expansion has no coupling between I and Q (or to V), or Rayleigh layers with depolarization. Oracle: the scalar run, the three-parameter run, the inequality. Cost: 20000 cases, about 15 s.")

prop("C17", "Surface kernels follow their published formulas and cover the hemisphere",
     "Every surface kernel (Lambertian, direct/diffuse, Roujean, Li, Ross, Hapke, Rahman, Cox-Munk, user-defined) contributes, with its amplitude and parameters, the reflectance its published formula gives, "
     "in each Fourier order, and the radiances over it follow.",
     ["inputs", "configurations"], "random scenes with one to three kernels, solved by EIG_BVP, EIG_ADD, MEM_BVP and PADE_ADD, at quadrature and user angles with and without source-function integration",
     TESTS + "the tests compare stored numbers of the library for a few kernels and parameters only.",
     ["src/xrtm_brdf.c", "src/xrtm_brdf_aux.c", "src/xrtm_surface.c", "src/xrtm_model.c"],
     [("kernels", "src/xrtm_brdf_aux.c"), ("Fourier expansion", "src/xrtm_brdf.c"), ("surface operators", "src/xrtm_surface.c")],
     PBT + "independent implementation of the kernel formulas as oracle", "Random scenes; tolerance 1e-6 of the radiance scale.", ["xrtm_solution"],
     design="Oracle: lib/brdf.py, written from the publications, expanded in azimuth with the documented number of quadrature points and fed to the reference model. The azimuth convention (hot spot at relative azimuth zero) and p[1] = n^2 of Cox-Munk are the library's. Cost: 6000 cases, about 8 s.")

prop("C03", "Two-, four- and six-stream solvers are the general solution at 1, 2, 3 streams",
     "The closed-form two-, four- and six-stream solvers return the radiances, mean radiances and fluxes that the general eigenmatrix solver returns with "
     "one, two or three quadrature points per hemisphere, for every scene both accept (with phase functions whose quadrature sums do not make the layer amplify light).",
     ["inputs", "configurations", "histories"], "all scalar solar scenes, surfaces, quadratures, output levels, optical depths and user angles, on separate instances or one shared by both solvers",
     TESTS + "the closed forms are separate hand-expanded code that no test compares with the general solver over the input space.",
     ["src/xrtm_two_stream.c", "src/xrtm_four_stream.c", "src/xrtm_six_stream.c", "src/xrtm_model.c", "src/xrtm_sfi_x.c"],
     [("closed-form solutions", "src/xrtm_two_stream.c:rtm_two_stream, src/xrtm_four_stream.c:rtm_four_stream, src/xrtm_six_stream.c:rtm_six_stream"),
      ("their inputs", "src/xrtm_model.c:fourier_get_bvp, get_stream_coefs"), ("user angles", "src/xrtm_two_stream.c:sfi, src/xrtm_sfi_x.c")],
     "property-based testing: generated scenes, differential oracle (the general solver at the same number of streams)",
     "Random scenes; tolerance 1e-7 of the radiance scale. Asymmetry factors up to .8: a sharply peaked phase function truncated to 2 to 6 coefficients is "
     "not a scattering law (exponents become imaginary) and neither solver is judged on it.",
     ["xrtm_radiance, xrtm_solution"],
     design="Generated: scalar scenes of up to six layers with vanishing, few or missing phase function coefficients, omega of 0 and 1, all surfaces, "
     "pseudo-spherical beams, diffuse light at the boundaries, delta-M with and without the TMS correction, both quadratures, source function integration for "
     "user angles; both solvers on instances of their own or one after the other on one. Oracle: EIG_BVP. Cost: 40000 cases, about 8 s.")

prop("C04", "Single and two orders of scattering match their definitions",
     "SINGLE returns the line-of-sight integral of light scattered once or reflected once by the surface, at any level, optical depth and angle; "
     "TWO_OS returns the second order of scattering (surface reflections counted) of the upward radiance at the top.",
     ["inputs", "configurations"], "SINGLE: all scenes it accepts (for anisotropic surfaces the azimuthal mean); TWO_OS: beam-lit scenes with output at the top",
     TESTS + "the tests compare stored numbers for a few atmospheres.",
     ["src/xrtm_single.c", "src/xrtm_two_os.c", "src/xrtm_model.c"],
     [("single scattering", "src/xrtm_single.c, src/xrtm_model.c:get_single"), ("second order", "src/xrtm_two_os.c"), ("single-scattering correction", "src/xrtm_scatter.c, src/xrtm_utility.c:n_t_tms_scaling")],
     PBT + "closed-form integrals and an order expansion of the reference model as oracle", "Random scenes; tolerance 1e-8 of the radiance scale for SINGLE (1e-6 polarized), 1e-6 for TWO_OS.", ["xrtm_radiance"],
     design="Oracle: closed-form integrals over each layer of the full phase function and the beam; for TWO_OS the second coefficient of the reference model's response to scaling all scattering and reflection. "
     "Downward second-order radiances and emission are not computed by TWO_OS and are not judged. Cost: 6000 cases, about 13 s.")

prop("C18", "The instance holds exactly what it was given and refuses what is invalid",
     "Every setter, in all its forms (one or all layers, derivatives, kernels, parameters), stores exactly the addressed values and every getter returns them; calls with values out of the documented range, "
     "indices out of bounds, inputs of options, solvers or kernels the instance was not created for, or solutions before all inputs are set, return the documented error constants and change nothing.",
     ["inputs", "operation sequences", "configurations"], "histories of up to about a hundred valid and invalid setter, getter, update and solution calls on instances of every high-stream solver, with and without derivatives and kernels",
     TESTS + "the tests make only valid calls, in one order, and never read back.",
     ["src/xrtm_interface.c", "src/xrtm_support.c", "src/xrtm_support.h"],
     [("setters and getters", "src/xrtm_interface.c"), ("layer inputs", "src/xrtm_support.c:xrtm_set_layer_x"), ("completeness of inputs", "src/xrtm_interface.c:check_inputs_initialized")],
     PBT + "stateful testing against a model of the instance", "Random histories; every call's result is compared with the model's, and every value is read back after each fifth call and at the end. Exact equality (angles as cosines, omega = 1 as 1 - 1e-5).",
     ["xrtm_set_*", "xrtm_get_*", "xrtm_update_varied_layers", "xrtm_solution"],
     design="Model: lib/api.py, a dictionary of the held values and the rules of the user guide. Histories start with arbitrary calls, then most complete the inputs (some leave one out), solve, and go on. Shrinking drops runs of calls. Cost: 15000 cases, about 20 s.")

prop("C27", "Creation accepts exactly the valid configurations; names and masks agree",
     "Creation accepts a combination of options, solvers, counts and kernels exactly if it is in range, its options are compatible (with the documented defaults added), and every solver supports them; the three public checks agree, "
     "refusals return the error constants, and an accepted instance reports what it was created with. Names, indexes, values and masks of options, solvers, outputs, kernels and methods convert into each other without loss, and unknown ones are refused.",
     ["inputs", "configurations"], "random option sets, solver sets, counts (also out of range) and kernel lists, and random sets and lists of names; counts up to small sizes",
     TESTS + "the tests create a few hundred valid instances and never an invalid one.",
     ["src/xrtm_interface.c", "src/xrtm_interface.h", "src/xrtm_brdf.c", "src/xrtm_support.c", "misc/gindex_name_value.c", "misc/gindex_name_value.h"],
     [("creation and checks", "src/xrtm_interface.c:xrtm_create_misc, xrtm_check_options, xrtm_check_counts, xrtm_check_solvers"), ("name tables", "src/xrtm_interface.c, misc/gindex_name_value.c")],
     PBT + "a table of the documented rules as oracle, and round trips", "Random configurations; exact comparison.",
     ["xrtm_create", "xrtm_check_*", "xrtm_*_name_list_to_mask"],
     design="Oracle: the rules written as tables in checks/c27.py (groups with one choice, exclusions, per-solver support). About half of the configurations are to be accepted; most of the others break one rule. "
     "Names are converted with guard bytes behind every buffer. Cost: 100000 cases, about 4 s.")

prop("C19", "No sequence of calls touches memory the library does not own, or leaks",
     "Whatever configuration is created, whatever inputs are set, changed, left out or refused, and whatever is solved in which order, no call reads or writes outside the library's and the caller's arrays, uses released memory, indexes past an array, divides integers by zero "
     "or ends the process; destroying an instance releases everything it allocated.",
     ["inputs", "operation sequences", "configurations"], "the histories of C07 and C18 on instances of every high-stream solver, with and without derivatives, kernels and polarization; the library is compiled with the address sanitizer and bounds checks, OpenBLAS is not",
     TESTS + "the tests run a few fixed sequences and are not instrumented.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_eig_bvp.c", "src/xrtm_sfi_x.c", "src/xrtm_adding.c", "src/xrtm_support.c", "src/xrtm_work.c", "src/xrtm_save_tree.c"],
     [("allocation and release", "src/xrtm_interface.c:xrtm_create_misc, xrtm_destroy"), ("work arrays", "src/xrtm_work.c"), ("output levels", "src/xrtm_sfi_x.c, src/xrtm_eig_bvp.c")],
     PBT + "sanitizers and an allocation count as oracle, over stateful histories", "Random histories; any sanitizer report, any exit, and any difference of live allocations between creation and after destruction is a violation.",
     ["all public functions"],
     design="The instrumented library is loaded into the generator's process with the sanitizer runtime preloaded; a report ends the worker and is quoted in the message. Allocations are counted by wrapping malloc and free at link time. Cost: 24000 cases, about 50 s with the build.")

prop("C24", "Adjoint derivatives equal the forward ones; the unsupported is refused",
     "For eigenmatrix boundary value and adding solvers and for single scattering, the adjoint interface (xrtm_radiance_2 with reverse derivatives) gives the radiances and, with respect to optical thicknesses, single scattering albedos, phase coefficients and factors of lambertian surfaces, the derivatives of the forward linearized interface, "
     "at levels and optical depths, for all directions asked for, again after the inputs were changed; what the adjoint does not support (other solvers, thermal sources, other kernels, ...) is an error and not a wrong or missing derivative.",
     ["inputs", "configurations"], "all scenes with one to four random directions of derivatives, a second atmosphere on the same model, and directions, sources and solvers that are not supported",
     TESTS + "the adjoint is not tested at all.",
     ["src/xrtm_interface.c", "src/xrtm_model_a.c", "src/xrtm_eig_bvp_x_a.c", "src/xrtm_eig_util_a.c", "src/xrtm_eig_rts_a.c", "src/xrtm_adding_a.c", "src/xrtm_scatter_a.c", "src/xrtm_radiance_a.c"],
     [("adjoint interface", "src/xrtm_interface.c:xrtm_solution_2, adjoint_check"), ("adjoint of the model", "src/xrtm_model_a.c:get_solution_internal_a"), ("adjoint of the solvers", "src/xrtm_eig_bvp_x_a.c, src/xrtm_eig_util_a.c")],
     PBT + "differential oracle: forward (tangent linear) derivatives of a separate model", "Random scenes; tolerance 1e-5 of the largest value of the derivative; agreement is usually near rounding.", ["xrtm_radiance_2", "xrtm_radiance"],
     design="Oracle: xrtm_radiance() of a fresh instance without REVERSE_DERIVS, whose derivatives C05 compares with difference quotients. The domain of support is the one the manual and the code name; before the repairs other combinations gave zeros, garbage or a crash. Cost: 3000 cases, about 30 s.")
prop("C26", "Results do not depend on memory contents, other instances or threads",
     "What an instance returns is a function of its own inputs: the same calls give the same results whatever the memory it is given or releases contains, however its calls are interleaved with those of other instances, and when instances are used at the same time from several threads.",
     ["inputs", "operation sequences", "schedules", "configurations"], "histories as in C07 on one instance under different memory contents, and on two to four instances interleaved at random or in as many threads (which schedules happen is up to the machine)",
     TESTS + "the tests run one instance at a time.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_work.c", "src/xrtm_eig_util.c", "src/xrtm_brdf.c", "misc/gmath_matrix.c"],
     [("work arrays", "src/xrtm_work.c"), ("all state in the instance", "src/xrtm_interface.h:xrtm_data")],
     PBT + "differential runs under different heap contents, interleavings and threads", "Random histories; relative tolerance 1e-8 between environments.", ["all public functions"],
     design="Heap contents: the library's malloc and free are wrapped at link time and fill fresh and released memory with two different bytes, so that a value read before it is written changes the result. "
     "The second run is with a build whose automatic variables start with a pattern instead of what the stack holds. "
     "Threads: one Python thread per instance, whose C calls run in parallel; a failing case is run twenty times as often when it is confirmed; in half of these cases the threads run in a process with the library built with ThreadSanitizer, "
     "which reports unsynchronised accesses whether or not they changed a result. Cost: 6000 cases, about 30 s.")

prop("C06", "Derivatives are linear in their seeds and independent of one another",
     "For every solver and scene, the derivatives along a linear combination of directions are the linear combination of the derivatives along them, the derivative along a direction is the sum of those along its parts in the single layers, surface and sources, "
     "a zero direction has zero derivatives, and each derivative and the values themselves do not depend on how many and which other derivatives are calculated with it or on their order.",
     ["inputs", "configurations"], "all scenes accepted by EIG_BVP, EIG_ADD, MEM_BVP, PADE_ADD, DOUB_ADD, SINGLE, TWO_OS and SOS and all sets of directions in their input space",
     TESTS + "each has one fixed set of derivatives; which code runs for a derivative depends on which layers vary in it and in the others.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_derivs.c", "src/xrtm_adding.c", "src/xrtm_doubling.c", "src/xrtm_doub_rts.c", "src/xrtm_source.c", "src/xrtm_eig_bvp_x.c"],
     [("derivative flags", "src/xrtm_interface.c:xrtm_update_varied_layers, src/xrtm_derivs.c"), ("linearized adding with and without layer derivatives", "src/xrtm_adding.c, src/xrtm_doubling.c"), ("linearized sources", "src/xrtm_source.c")],
     PBT + "linearity and independence as metamorphic relations", "Random scenes and directions; tolerance 1e-7 of the largest derivative involved (1e-6 with polarization).",
     ["xrtm_solution", "xrtm_update_varied_layers"],
     design="Generated: a scene, two directions u and v; one run has u, v, a*u+b*v, a zero direction and the parts of u by layer, in a random order, others have one or some of them in another order. "
     "No difference quotients are involved, so that discrepancies far below the accuracy of C05 are seen. Cost: 6000 cases, about 15 s.")

prop("C21", "An input for callxrtm means what the corresponding API calls mean",
     "Reading an input file or string creates the instance that its creation block names and sets exactly the values its statements give, whatever way they are written (order, whitespace, comments, quoting, single elements or whole arrays, file or string syntax); "
     "an instance written as an input reads back with the same values; and the results callxrtm prints for an input are those the API returns for the same calls.",
     ["inputs", "configurations", "round trips"], "all creation blocks the API accepts, statements for every input and derivative of one, in every element form and spelling the grammar has, both syntaxes, and all combinations of solver and outputs of the program",
     TESTS + "they are eight fixed inputs of one spelling, and nothing written is read back.",
     ["utils/input_util.c", "utils/input_local.c", "utils/input_yylex.l", "utils/callxrtm.c", "misc/rtutil_scat_io.c"],
     [("parser", "utils/input_util.c:input_parse1"), ("writer", "utils/input_util.c:xrtm_fwrite_input"), ("program", "utils/callxrtm.c")],
     PBT + "a model of the inputs, a round trip, and the API as oracle", "Random inputs; exact comparison of read values, 1.1e-6 (the digits printed) for written and printed ones.", ["xrtm_fread_input", "xrtm_sread_input", "xrtm_fwrite_input", "callxrtm"],
     design="Generated: the creation block and a list of operations on an instance of C18, and a spelling for each (lib/xif.py). Oracle: the model of the API (lib/api.py) for what is read, for what is read after writing, and a run of the same calls for what callxrtm prints, column by column. "
     "Coefficients by generator name (hg, dhg, ray) are compared with the closed forms. user_defined kernels cannot be given in an input. Derivative columns may differ by thirty times what perturbing the inputs in their last digit does. Cost: 12000 cases, about 20 s.")

prop("C22", "callxrtm refuses every broken input with a message and never crashes",
     "Whatever is given to callxrtm as input, it ends by itself, with results, or with a failure status and an error message, never with a crash, a memory error, or success after an error; complete valid inputs are accepted, and an input with a statement that names something unknown, "
     "has too few or too many elements, an index or value out of range, a value of the wrong type, or is not well formed, is refused.",
     ["inputs"], "valid inputs, valid inputs with one thing wrong (sixteen kinds), and inputs changed at random by token or character, as file, standard input and string, with and without finite differences",
     TESTS + "every one is a valid input.",
     ["utils/input_util.c", "utils/input_local.c", "utils/input_yylex.l", "utils/callxrtm.c", "misc/rtutil_scat_io.c", "misc/gutil_error.c"],
     [("parser", "utils/input_util.c"), ("lexer", "utils/input_yylex.l"), ("program", "utils/callxrtm.c")],
     PBT + "grammar-based and mutation fuzzing of the sanitized program", "Random inputs; a sanitizer report, a signal, a missing message, or an accepted broken input is a violation.", ["callxrtm"],
     design="The program is compiled with the address sanitizer and run as a process on each input. Sizes in a mutated input are kept small enough to be solved. Mutated inputs may be accepted or refused. Cost: 10000 cases, about 30 s with the build.")

prop("C23", "Finite differences are those of the model, which is left as it was",
     "The finite difference interface holds exactly the perturbations and steps given to it by any of its setters and refuses invalid ones; its values are those of the model; its derivatives are the forward, backward or central difference quotients of the model's radiances, mean radiances and fluxes "
     "with all perturbations of a derivative applied together, so that the three methods estimate the same derivative; a perturbed value that is not valid is an error; and afterwards, also after an error, every input of the model is as it was. callxrtm prints the same for the corresponding input.",
     ["inputs", "operation sequences", "configurations"], "all high-stream scenes without linearization, with perturbations of every kind given in every form, all methods, all combinations of outputs, steps of both signs",
     TESTS + "the finite difference interface is not tested at all.",
     ["src/xrtm_fd_interface.c", "src/xrtm_fd_interface.h", "utils/callxrtm.c", "utils/input_util.c"],
     [("perturbation setters and getters", "src/xrtm_fd_interface.c:xrtm_fd_set_*_p*, xrtm_fd_get_*_p"), ("differences", "src/xrtm_fd_interface.c:xrtm_fd_solution, perturb_values")],
     PBT + "a model of the setters and separately perturbed runs as oracle", "Random scenes and perturbations; tolerance 1e-9 of the radiance scale over the step.", ["xrtm_fd_*", "callxrtm"],
     design="Oracle: one fresh instance per perturbed scene, made without the interface. That central differences are over twice the step is the reading under which the three methods agree. Cost: 8000 cases, about 20 s.")

prop("C25", "Quadrature rules and special functions are what their names say",
     "For every order, the Gauss rules (on [0, 1], on any interval, and fitted to one) have increasing nodes inside the interval and positive weights that integrate all polynomials to degree 2n-1, the Simpson and trapezoidal rules those of theirs, and their derivatives with respect to the interval are exact; "
     "the Legendre polynomials, associated Legendre functions and generalized spherical functions of every degree, order and argument from -1 to 1 are those of their definitions, whichever function calculates them.",
     ["inputs"], "orders from 1 to 100, intervals, their derivatives, degrees, orders and arguments, with the end points",
     TESTS + "these functions are only run at the orders of the tests' quadratures.",
     ["misc/rtutil_math.c"],
     [("quadrature", "misc/rtutil_math.c:gauss_leg_quad*, *_rule_quad, *trapezoidal_quad"), ("special functions", "misc/rtutil_math.c:leg_poly*, gen_spher_funcs*")],
     PBT + "exact integrals of polynomials and explicit sums as oracle", "Random orders and arguments; tolerance a small multiple of rounding.", ["gauss_leg_quad*", "leg_poly*", "gen_spher_funcs*"],
     design="Oracle: moments of Legendre polynomials up to the highest degree a rule must be exact for; recurrences in higher precision and Wigner's explicit sum (exact integers up to powers of the half angle), with Mishchenko's sign convention. Cost: 16000 cases, about 7 s.")

prop("C28", "Scattering files read back as written; coefficient inputs are what they say",
     "Headers, phase functions, coefficients, total cross sections and phase matrices written to text or binary files, by name or in an open file one after another, read back with the values written (to the digits written), also when only some elements or coefficients are requested or in the other precision; "
     "a file that ends early or lacks what is requested is an error, after which nothing stays open or allocated; interpolated data are the interpolation of each value; and the generated coefficients (hg, dhg, ray, their derivatives, files, padding) are those of the closed forms, with every malformed name refused by a return value.",
     ["inputs", "round trips", "truncated files"], "all kinds of files, formats, element and coefficient counts, precisions, cuts, and names of generated coefficients with numbers of every form, valid and malformed",
     TESTS + "none reads or writes a scattering file but one input.",
     ["misc/rtutil_scat_io.c", "misc/gutil_error.c", "misc/rtutil_support.c"],
     [("files", "misc/rtutil_scat_io.c:scat_*_read_*, scat_*_write_*, phase_*"), ("generated coefficients", "misc/rtutil_scat_io.c:load_scat_coefs, load_scat_coefs2")],
     PBT + "round trips and closed forms as oracle, under the address sanitizer with counts of allocations and open files", "Random files and names; exact comparison with the values rounded to the format.", ["scat_*", "phase_*", "load_scat_coefs*"],
     design="Files are made in a scratch directory by the functions themselves. Arbitrary damage of a file is not judged, only its end being cut off. The text format does not hold the accuracy. Cost: 22000 cases, about 30 s.")

prop("C29", "The azimuth series ends where it converged to the tolerance, nowhere else",
     "With a Fourier tolerance the radiance is a partial sum of the series in azimuth, whatever the solver, surface, polarization and outputs: it ends after the first two terms running (of m >= 1) whose share of the sum so far is below the tolerance at every output level, angle and azimuth of the requested side, else with the last term. "
     "With the single scattering correction the sum starts with the whole correction (FOUR_CONV_OLD), or with the full single scattering while the terms are without theirs (FOUR_CONV_NEW). Derivatives end with the radiances; mean radiances and fluxes do not depend on the tolerance.",
     ["inputs", "configurations"], "beam-lit scenes for all full solvers, tolerances from 1e-15 to .1, every kind of output, surface, correction and derivative. Known finding: with FOUR_CONV_NEW the reflected beam of m > 0 is lost (terms are then judged against the series less that)",
     TESTS + "the tests use one tolerance.",
     ["src/xrtm_model.c"], [("convergence test", "src/xrtm_model.c:get_solution_internal, max_radiance_ratio"), ("correction of the terms", "src/xrtm_model.c:apply_corrections_fourier, apply_corrections_radiance")],
     PBT + "partial sums of the series of the same scene without a tolerance, from a discrete Fourier transform over azimuth", "Random scenes; all possible ends where a term is within rounding of the tolerance.", ["xrtm_solution", "xrtm_set_fourier_tol"],
     design="Terms come from 2n+1 evenly spaced azimuths; truncated single scattering from the SINGLE solver on the delta-M scaled scene. Where a sum is zero but for rounding, the share of a term is noise, and any end from there on is accepted, but always a partial sum. Derivatives of early ends are judged without FOUR_CONV_NEW. Cost: 4000 cases, about 6 s.")

prop("C30", "Delta-M solves the scene with its forward peaks taken out",
     "With delta-M (without the single scattering correction) radiances, mean radiances, fluxes and all their derivatives are those of the scene without delta-M whose optical depths, single scattering albedos, six sets of expansion coefficients, output optical depths and their derivatives are scaled by the delta-M formulas; each Stokes parameter to its own size.",
     ["inputs", "configurations"], "scenes with peaks of any size in some layers, up to four Stokes parameters with strong circular polarization, all full solvers and TWO_OS, sources, surfaces, outputs and directions",
     TESTS + "the tests hold few polarized scenes with delta-M, none by formula.",
     ["src/xrtm_utility.c", "src/xrtm_model.c"], [("scaling", "src/xrtm_utility.c:delta_m_*"), ("use", "src/xrtm_model.c:update_opt_props, update_utaus")],
     PBT + "metamorphic relation: the same scene scaled by the formulas, with derivatives by complex steps", "Random scenes; comparison per Stokes parameter, 2e-7 of its size (5e-6 for doubling).", ["xrtm_solution"],
     design="The independent model of C02 judges absolute values; this check judges the scaling itself so closely that a wrong term of one Stokes parameter's coefficients or their derivatives shows. Omega is kept below .9999 because the scaling of 1 - omega amplifies rounding. Cost: 4000 cases, about 6 s.")

prop("C20", "The language interfaces make the calls that the C library makes",
     "Every call made through the C++, Fortran 77, Fortran 90 and Python interfaces has the outcome of the same call to the C library: it is accepted or refused alike, returns the same value, hands over every input and gives every output with the same extents and elements, "
     "whatever the layout of the caller's arrays; the Fortran definitions reserve room for a whole model, and the extents that the Julia interface works out for outputs are those of the results.",
     ["inputs", "operation sequences", "configurations"], "all functions of the interface definition on histories of accepted and refused calls, arrays in row and column order, lists and strided sections. Not judged: negative numbers and indices that do not exist where they give the extent of an array",
     TESTS + "one program per language runs one fixed scene.",
     ["interfaces/xrtm_interface.def", "interfaces/write_int_def.c", "interfaces/xrtm_int_f77_util.c", "interfaces/xrtm_int_f90_util.c", "interfaces/xrtm_int_py.c", "interfaces/xrtm_int_cpp.cpp", "interfaces/xrtm_int_f77.inc", "interfaces/xrtm_int_f90.f90"],
     [("interface definition", "interfaces/xrtm_interface.def"), ("extents and conversions", "interfaces/write_int_def.c and the files it generates"), ("size of a model", "interfaces/xrtm_int_f77.inc, interfaces/xrtm_int_f90.f90")],
     PBT + "the same history through the C library as oracle", "Random histories in two to four languages at a time; exact comparison of status, value, extents and every element.",
     ["C++, Fortran 77, Fortran 90 and Python interfaces"],
     design="One process holds a C instance and one per language; each call is made in all of them. Python runs in a server process with the extension module built from the tree; Fortran 90's strided sections are made with array descriptors. Outputs are filled with a guard value, so that what is not written is seen. "
     "Not covered: set_kernel_func (no interface has it), the interfaces of the finite difference functions, and the IDL and Julia source, which nothing installed here can run; Julia's helper functions in C are. Cost: 6000 cases, about 25 s.")

prop("C31", "Particle size distributions are the published ones, with exact moments",
     "For every one of the eight size distributions the quadrature nodes lie between its ends, the weighted values are the published function normalized to one over them, and the mean sizes, effective radius and variance are the moments of exactly these values; "
     "over (nearly) all sizes they are the moments that the literature gives; derivatives with respect to every parameter and both ends are those of the same formulas, and values do not depend on whether derivatives are asked for.",
     ["inputs", "configurations"], "all eight distributions, parameters and ends of many sizes, 1 to 20 intervals of 1 to 24 nodes, 0 to 3 directions. Not judged: distributions whose norm leaves the range of doubles",
     TESTS + "no test calls these functions.",
     ["misc/rtutil_size_dist.c"], [("values", "misc/rtutil_size_dist.c:get_particle_dist"), ("moments", "misc/rtutil_size_dist.c:get_dist_parameters"), ("nodes and ends", "misc/rtutil_size_dist.c:get_particle_dist_quad, get_power_law_range")],
     PBT + "independent model with derivatives by complex steps; closed moments of the whole distributions", "Random distributions; values to 2e-10, derivatives to 5e-9, moments of whole distributions to 1e-5.", ["get_particle_dist, get_dist_parameters"],
     design="The file is not in the library that the Makefile builds (its Mie part is missing from the repository), so the check compiles it by itself against the tree's headers. The model writes each formula anew with complex numbers: a step of 1e-30 i gives the exact derivative. Cost: 4000 cases, about 12 s.")
prop("C32", "Matrix and vector routines equal their definitions and keep their arguments",
     "Every routine of the matrix and vector layers (general, diagonal, symmetric, transposed, complex, mixed real and complex, band storage, block insertion, 2-d and 3-d, LU and Cholesky solutions and inverses, norms, powers) gives what its formula says for every size and every factor, "
     "whichever special branch the factors 0, 1 and -1 take, in place where callers use it in place; arguments that are not results stay as they were and nothing is written behind a result.",
     ["inputs"], "129 routines, real and complex, extents of 1 to 12, factors 0, 1, -1 and others. Not judged: transposed arguments of non-square matrices, condition estimates beyond a factor of ten, the branches of mixed products that the code leaves out",
     TESTS + "no test calls these routines directly, and the solvers' tests use square matrices and factors of 1 and -1.",
     ["misc/gmatrix.h", "misc/gvector.h", "misc/gmath_mat2d3d.c", "src/xrtm_matrix.c"], [("matrices", "misc/gmatrix.h:mat_gxgxmx, mat_mul, mat_pow"), ("symmetric products, insertion", "src/xrtm_matrix.c:dsym_mma, dmat_scale_add, insert_matrix2_d"), ("2-d, 3-d", "misc/gmath_mat2d3d.c")],
     PBT + "numpy as reference model", "Random sizes, values and factors; to 1e-11 of the largest value.", ["dmat_*, zmat_*, dvec_*, zvec_*, dsym_*, insert_*, vec2d_*, mat3d_*"],
     design="The library is called as it is, through its row-pointer arrays with guard values behind every block; the wanted result is one numpy expression per routine (checks/c32.py, table T). In-place calls are generated where the library itself makes them. Cost: 200000 cases, about 8 s.")
prop("C33", "Numbers, lists and names in text are read and written exactly, or refused",
     "Text that the tools read gives exactly the value it spells or is refused: numbers that are malformed, empty or outside the type's range, logical values, lists of one or two dimensions of names, integers and numbers (an empty list has no entries, ragged ones are refused), names of things and masks of them, tokens with and without quotes. "
     "What is written reads back the same and never passes the length given; no text is read or written beyond its end. The helpers that sort (data, indexes or pointers) and chain list elements keep every element and give the order asked for.",
     ["inputs", "histories"], "all these functions on random texts (valid, spoiled, truncated), up to 300 values to sort, up to 12 list operations. Not judged: hexadecimal and subnormal numbers, elements compared as arrays (cmp_n_*), whether sorting is stable",
     TESTS + "no test calls these functions, and callxrtm's tests only pass valid text.",
     ["misc/gutil_string.c", "misc/gutil_error.c", "misc/rtutil_support.c", "misc/gindex_name_value.c", "misc/gutil_sort.c", "misc/glist.c"], [("numbers", "misc/gutil_string.c:gstrtoi, gstrtob; misc/gutil_error.c:strtoi_errmsg"), ("lists", "misc/rtutil_support.c:get_value_list_d, put_value_list2_d"), ("names", "misc/gindex_name_value.c:mask_to_name_list"), ("sorting", "misc/gutil_sort.c:quick_sort_data"), ("lists of elements", "misc/glist.c:list_append")],
     PBT + "models in Python, round trips, and a page behind every text that cannot be touched", "Random texts and operation sequences against models.", ["gstrto*, get_value_list*, put_value_list*, tokenize, quick_sort_*, list_*"],
     design="Every text given to the library ends at a page boundary with an inaccessible page behind it, so an access beyond it ends the worker and is reported. Malformed numbers in lists end the process with status 1 by design: these calls run in a forked child. Cost: 120000 cases, about 12 s.")
