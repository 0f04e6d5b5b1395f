"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/claims.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mechanism],
                             observe_at=list(observe), hook_needed=None),
                technique=technique, note=note))


B = 'jax_cfd/base/'
prop('C01', 'Boundary conditions determine every value beyond the array',
     'Shifting, padding and trimming a grid variable, any number of times and in any order, yields exactly the '
     'values that the mathematical extension of its boundary condition assigns (periodic copy, value on the wall, '
     'prescribed normal derivative), with the matching offset and grid. Invalid requests are rejected.',
     ['inputs', 'configurations', 'histories'],
     'all fields on all small grids, every boundary kind and value, offset, padding mode, width, and every history of shift/pad/trim operations up to the depth bound',
     'Unit tests check a few hand-written arrays with one boundary condition each; ghost values must be right for every '
     'combination of kind, value, offset, width, mode, axis and history.',
     [B + 'boundaries.py', B + 'grids.py'],
     [('ConstantBoundaryConditions.shift/pad/trim', B + 'boundaries.py'), ('GridVariable.shift', B + 'grids.py')],
     'explicit-state exploration of operation histories against an index-arithmetic reference model',
     'Exhaustive over all unit impulses (affine operators, so every field) for grids up to 7 cells per axis and histories up to depth 3; larger grids are not explored.')
prop('C02', 'Imposing a boundary condition fixes wall values and nothing else',
     'Imposing a boundary condition on data, or on data trimmed to the interior, gives a variable whose wall entries '
     'carry the prescribed values and whose interior entries are unchanged; trimming and re-imposing is the identity, imposing is idempotent, and masks '
     'select exactly the entries strictly inside the domain.',
     ['inputs', 'configurations', 'histories'],
     'all fields on small grids in 1-3 dimensions, all boundary kinds, values and offsets, sequences of trim and impose',
     'Tests sample some arrays; the claim is for all data, kinds, and all combinations of offsets on several axes.',
     [B + 'boundaries.py', B + 'grids.py'],
     [('impose_bc, pad_and_impose_bc, trim_boundary', B + 'boundaries.py'), ('domain_interior_masks', B + 'grids.py')],
     'explicit-state exploration of impose/trim histories against a reference model',
     'Exhaustive over unit impulses and the listed configurations up to 3 dimensions.')
prop('C03', 'Pressure projection is the orthogonal projection on solenoidal fields',
     'For every velocity that respects its boundary conditions, projecting removes the discrete divergence, leaves '
     'already divergence-free fields and wall values unchanged, changes the field only by a discrete pressure gradient, and every solver, precision and '
     'discretisation gives the same result within its tolerance.',
     ['inputs', 'configurations'],
     'all velocities on small staggered and collocated grids, every combination of periodic and wall axes, moving walls, and every solver',
     'Tests project a few smooth or random fields; the property is a statement on the entire linear operator for each domain and solver.',
     [B + 'pressure.py', B + 'fast_diagonalization.py', B + 'array_utils.py', 'jax_cfd/collocated/pressure.py'],
     [('projection and the solve_* functions', B + 'pressure.py'), ('laplacian_matrix*', B + 'array_utils.py')],
     'exhaustive enumeration of the basis of admissible velocities through the real projection, compared with a dense orthogonal projector',
     'Complete for the (affine) projection on every listed grid; grids up to 5x5 / 3x4x2 exhaustively by impulses, larger ones by selected impulses.')
prop('C04', 'Finite-difference operators are the stated stencils and satisfy vector calculus',
     'Every difference operator returns, for any field and boundary condition, the stencil it names evaluated with the boundary extension, at the '
     'right offset; the discrete identities (Laplacian = div grad, div curl = 0, curl grad = 0, adjointness, conservation) hold for '
     'every field, and matrix forms of the Laplacian equal the operator.',
     ['inputs', 'configurations'],
     'all fields on small grids in 1-3 dimensions, boundary kinds, offsets and axes',
     'Tests compare a handful of analytical functions with loose tolerances; identities and stencils must hold for each field and boundary.',
     [B + 'finite_differences.py', B + 'array_utils.py'],
     [('difference operators', B + 'finite_differences.py'), ('laplacian_matrix, laplacian_matrix_w_boundaries', B + 'array_utils.py')],
     'exhaustive enumeration of unit impulses x configurations against dense stencil matrices',
     'Linear operators are decided completely on each listed grid (up to 36 cells).')
prop('C05', 'Interpolation between grid offsets is exact, consistent and limited',
     'Interpolating a variable to another offset gives the multilinear (or upwind, Lax-Wendroff, limited) combination of boundary-extended '
     'neighbours, exactly as the scheme defines it for every velocity sign, reproduces constants and (linear) affine data, stays within neighbouring values '
     'when limited, and refuses unsupported requests.',
     ['inputs', 'configurations'],
     'all fields (impulses or words of cell values), velocity sign words, offsets, target offsets, boundary kinds, point-sampling modes',
     'Tests look at a few targets and smooth functions; offsets, signs and boundary combinations multiply.',
     [B + 'interpolation.py'],
     [('linear, upwind, lax_wendroff, apply_tvd_limiter, point_interpolation', B + 'interpolation.py')],
     'exhaustive enumeration of impulses, sign words and value words against a numpy reference',
     'Exhaustive on grids up to 12 cells for the listed targets and alphabets.')
prop('C06', 'Advection is minus the divergence of the interpolated flux',
     'For every scalar and velocity, each advection scheme returns minus the divergence of velocity times the interpolated scalar over the '
     "scalar's control volume at the scalar's offset; hence totals and momentum are conserved, uniform scalars are unchanged by solenoidal flow, "
     'the linear scheme conserves kinetic energy, nothing crosses closed walls, and unsupported boundaries are refused.',
     ['inputs', 'configurations'],
     'all pairs of scalar and velocity fields (bilinear schemes), all words of cell values (limited schemes), offsets 0, 1/2, 1 on each axis, periodic and closed walls',
     'Tests follow one smooth profile in a uniform flow with loose tolerance, at one offset; errors that act only across axes, for velocities as scalars, or at walls stay below the tolerance.',
     [B + 'advection.py', 'jax_cfd/collocated/advection.py', B + 'boundaries.py'],
     [('advect_general, advect_van_leer, convect_linear', B + 'advection.py'), ('get_advection_flux_bc_from_velocity_and_scalar', B + 'boundaries.py')],
     'exhaustive enumeration of field pairs and value words against a control-volume reference model',
     'Bilinear schemes decided completely on each listed grid; limited schemes for all words of the alphabets.')
prop('C07', 'Transport creates no new extrema and no new variation',
     'Under the CFL condition an upwind step is a convex combination of old values for every divergence-free flow, a limited step neither increases total variation nor leaves '
     'the data range, a semi-Lagrangian step is periodic interpolation at the departure point for any step size, and recommended time steps honour the requested Courant number.',
     ['inputs', 'configurations'],
     'all scalar fields (by impulses) for all stream-function words; all words of cell values x Courant numbers x flow directions',
     'Tests check total variation for one step profile; the guarantee is for all data and Courant numbers.',
     [B + 'advection.py', B + 'interpolation.py', B + 'equations.py'],
     [('advect_upwind, advect_van_leer*, advect_step_semilagrangian, stable_time_step', B + 'advection.py')],
     'exhaustive enumeration of flows, impulses and value words; invariants checked on every step',
     'Complete for the listed stream-function alphabets and grids up to 16 cells.')
prop('C08', 'Implicit diffusion and separable solvers invert the right operator',
     'Implicit diffusion returns the exact solution of (1 - nu dt Laplacian) x = u under the boundary conditions of the variable, for every implementation; '
     'separable transforms equal the matrix function of the Kronecker sum of their operators, pseudo-inverses its Moore-Penrose inverse; explicit diffusion at the recommended step is stable; unsupported requests are refused.',
     ['inputs', 'configurations'],
     'all fields, boundary kinds and values, offsets, nu*dt; all small symmetric or circulant operators over an alphabet, functions and implementations',
     'Tests diffuse constants or check a residual for a few conditions; wall values on several axes at once are not covered.',
     [B + 'diffusion.py', B + 'fast_diagonalization.py', B + 'array_utils.py', 'jax_cfd/collocated/diffusion.py'],
     [('solve_fast_diag, solve_cg, diffuse', B + 'diffusion.py'), ('transform, pseudoinverse', B + 'fast_diagonalization.py')],
     'exhaustive enumeration of impulses and of small operators against dense linear algebra',
     'Complete per listed grid and operator alphabet; operators up to 4x4 per axis.')
prop('C09', 'A Navier-Stokes step is its Runge-Kutta stages, each one projected',
     'Every stepper evaluates exactly the tableau it names, returns pressure-projected states of the same structure, and the assembled solvers '
     'equal advection plus diffusion, forcing and projection composed as documented, for all schemes, walls and forcings; implicit diffusion uses the same viscosity. '
     'Every returned velocity is divergence-free and respects its boundary conditions, after any number of steps.',
     ['inputs', 'configurations', 'histories'],
     'all explicit tableaus up to 3 stages over a coefficient alphabet; all combinations of terms, schemes, steppers and boundaries on small grids; several steps',
     'Tests integrate smooth flows and compare loosely with decay laws; a wrong stage weight or missing projection of one stage is within tolerance.',
     [B + 'equations.py', B + 'time_stepping.py', 'jax_cfd/collocated/equations.py'],
     [('explicit_rk_stepper tableaus', B + 'time_stepping.py'), ('semi_implicit_navier_stokes, implicit_diffusion_navier_stokes', B + 'equations.py')],
     'exhaustive enumeration of tableaus and solver configurations, executed against a dense reference step',
     'Complete over the coefficient alphabet; nonlinear terms for selected velocity words.')
prop('C10', 'Implicit-explicit time steppers realise their tableaus and their orders',
     'Every implicit-explicit stepper, low-storage or Butcher, computes the stages its coefficients define for any equation and state structure; the named schemes have the claimed orders and '
     'do not amplify stiff implicit decay; inconsistent coefficient lists are refused.',
     ['inputs', 'configurations', 'histories'],
     'all tableaus up to 3 stages over a coefficient alphabet, all list lengths, linear 2x2 and nonlinear equations, several steps',
     'Tests measure convergence of the named schemes on one oscillator; zero-skipping and index slips show only for other coefficients.',
     ['jax_cfd/spectral/time_stepping.py'],
     [('imex_runge_kutta, low_storage_runge_kutta_crank_nicolson', 'jax_cfd/spectral/time_stepping.py')],
     'exhaustive enumeration of tableaus, executed against a reference Runge-Kutta model in NumPy',
     'Complete over the coefficient alphabet up to 3 stages.')
prop('C11', 'Repeated stepping is plain iteration, whatever wrapper does it',
     'repeated, trajectory, the step models, their decorators and the integrators return exactly the states and frames of a plain loop, in order, '
     'for any state structure, step counts, post-processing, start convention, checkpointing, jit or differentiation; inside init_context (however nested or left) a scan calls its body once '
     'and afterwards iterates again. Training steps and streamed metrics equal their definition for every batch sequence.',
     ['inputs', 'configurations', 'histories'],
     'all small programs of wrappers, all bracketed histories of init_context, all short batch sequences',
     'One test checks one trajectory; off-by-one frames, dropped steps, or a context left open after an exception need other counts, flags and histories.',
     [B + 'funcutils.py', 'jax_cfd/ml/model_builder.py', 'jax_cfd/ml/model_utils.py', 'jax_cfd/ml/time_integrators.py', 'jax_cfd/ml/train_utils.py'],
     [('scan, repeated, trajectory, init_context', B + 'funcutils.py'), ('trajectory_from_step', 'jax_cfd/ml/model_builder.py')],
     'exhaustive enumeration of programs and of context histories, compared with a Python loop',
     'Up to 4 outer and 2-3 inner steps, bracket words up to length 6 (8 thorough).')
prop('C12', 'Pseudospectral terms are the exact Galerkin terms of their equations',
     'For each equation the explicit and implicit terms equal the exact truncated Fourier-Galerkin terms for every state, implicit solves invert the implicit part, '
     'advection produces no momentum, energy or enstrophy and respects shifts, reflections and rotations; the vorticity solve is solenoidal with the given curl; '
     'filters, padding and truncation rules act on each mode as documented and forcing enters as stated.',
     ['inputs', 'configurations'],
     'all states on small grids (pairs or triples of modes decide the quadratic or cubic terms), domains, smoothing on and off, several steps',
     'Tests check that runs do not blow up and compare one flow loosely; a mode handled wrongly near the cut-off changes results below these tolerances.',
     ['jax_cfd/spectral/equations.py', 'jax_cfd/spectral/utils.py', 'jax_cfd/spectral/forcings.py', B + 'grids.py'],
     [('explicit_terms, implicit_terms, implicit_solve', 'jax_cfd/spectral/equations.py'), ('filters and transforms', 'jax_cfd/spectral/utils.py')],
     'exhaustive enumeration of mode pairs and triples against exact convolution sums',
     'Complete for states without Nyquist modes on grids of even size up to 8x12 (quick).')
prop('C13', 'Grid metadata follows every value and mismatches are refused',
     'Cell faces, centres, axes and meshes describe one geometry however the grid is specified; arithmetic on grid arrays equals the same arithmetic on '
     'plain arrays and keeps offset and grid; operands, collections or conditions that disagree are refused. Arrays, variables and tensors pass '
     'unchanged through flattening, jit, vmap, scan and differentiation.',
     ['inputs', 'configurations'],
     'all small grids and ways of specifying them, all offsets of the half-integer lattice, every operator with every operand kind, every pair of boundary conditions',
     'Tests evaluate a few operators on one array; the type algebra is a finite table that no test enumerates.',
     [B + 'grids.py', B + 'boundaries.py'],
     [('Grid, GridArray.__array_ufunc__, GridVariable, consistent_*', B + 'grids.py'), ('condition constructors and classification', B + 'boundaries.py')],
     'exhaustive enumeration of the operator/operand/metadata table on the real types, compared with plain array arithmetic',
     'Complete for the listed operators; ufunc keywords (where=, out=) are ignored by the code and not claimed.')
prop('C14', 'Array utilities equal their definition on every input',
     'Slicing, splitting, joining and block reduction of trees of arrays, alone and in any sequence, equal the same operations on plain arrays and '
     'splitting then joining is the identity; orthogonalisation returns the unique QR factors with positive diagonal; table interpolation is '
     'piecewise linear with the requested extension for every table, order, axis and position. Invalid requests are rejected.',
     ['inputs', 'configurations', 'histories'],
     'all small trees, axes, indices and operation histories; all small integer matrices; all small tables with every order, position and extension',
     'Tests compare some shapes; edge positions, negative axes, unsorted tables and chains of operations are not enumerated.',
     [B + 'array_utils.py'],
     [('slice/split/concat/block_reduce, gram_schmidt_qr, interp1d', B + 'array_utils.py')],
     'explicit-state exploration of operation histories against a list model; exhaustive enumeration of matrices and tables',
     'Matrices up to 4x3 with small integer entries; tables up to 4 knots.')
prop('C15', 'Coarsening preserves fluxes, means and resolved modes',
     'Coarsening a staggered velocity gives the mean flux through every coarse face, so the coarse divergence is the mean of the fine one and two '
     'coarsenings compose; top-hat coarsening gives the window mean at every coarse location under every boundary condition; spectral '
     'coarsening keeps every resolved mode exactly and removes all others.',
     ['inputs', 'configurations'],
     'all fields on small grids, all factors, filters, offsets and boundary kinds; all Fourier modes of small grids onto every smaller grid',
     'Tests coarsen a few arrays by a factor of two; conservation is a statement about each field, factor and boundary.',
     [B + 'resize.py'],
     [('downsample_staggered_velocity, top_hat_downsample, downsample_spectral', B + 'resize.py')],
     'exhaustive enumeration of unit impulses and Fourier modes through the real operators against an index-arithmetic reference',
     'Modes exactly on the Nyquist line of the destination grid are excluded (aliased by construction).')
prop('C16', 'Models assembled from modules are the solvers they are made of',
     'Encoders and decoders keep every datum of the requested frames and invert each other on what they represent; the assembled step models '
     '(semi-implicit, implicit, spectral, with any advection, diffusion, pressure, forcing and eddy-viscosity module) advance every state exactly '
     'as the corresponding base equations do; integrators, correctors and derivative models are the exact compositions they declare.',
     ['inputs', 'configurations', 'histories'],
     'every unit impulse of every input frame, every Fourier mode, every pair of impulses of the state through each combination of modules, and chained steps',
     'Tests run one assembled model on one random state and look at shapes or a few steps.',
     ['jax_cfd/ml/equations.py', 'jax_cfd/ml/encoders.py', 'jax_cfd/ml/decoders.py', 'jax_cfd/ml/time_integrators.py', 'jax_cfd/ml/model_builder.py'],
     [('aligned/collocated/vorticity encoders and decoders', 'jax_cfd/ml/encoders.py, decoders.py'), ('modular_navier_stokes_model, implicit variants, spectral step', 'jax_cfd/ml/equations.py'),
      ('trajectory_from_step and gradient checkpointing', 'jax_cfd/ml/time_integrators.py')],
     'exhaustive enumeration of impulses, pairs and modes through every listed module combination, compared with the base solvers step by step along histories',
     'Odd-sized spectral grids are excluded (the library supports even sizes only).')
prop('C17', 'Tiled, periodic and mirrored convolutions equal their definition',
     'Tiling an array into a batch and back is the identity, halo exchange gives every tile its neighbours on the periodic array for every layout '
     'and padding, and a convolution gives the same answer under every tiling. Periodic, transposed, mirrored and valid convolutions with any '
     'kernel, rate and stride read and write exactly the cells of the periodic (or mirrored) array that their definition names; what cannot be tiled is refused.',
     ['inputs', 'configurations'],
     'every unit kernel and every cell of small 1-3 dimensional arrays, every divisor layout, padding, rate and stride in the bounds',
     'Tests check equivariance of one random kernel and a few layouts; off-by-one reads at tile corners and even kernels escape.',
     ['jax_cfd/ml/tiling.py', 'jax_cfd/ml/layers.py', 'jax_cfd/ml/layers_util.py'],
     [('space_to_batch, halo_exchange_pad, apply_convolution', 'jax_cfd/ml/tiling.py'), ('PeriodicConv*, PeriodicConvTranspose*, MirrorConv2D', 'jax_cfd/ml/layers.py'),
      ('extract_patches, periodic_convolution', 'jax_cfd/ml/layers_util.py')],
     'exhaustive enumeration of unit kernels on labelled arrays through every layout, padding, rate and stride, compared with index arithmetic',
     'Convolution primitives of the installed haiku are trusted for one isolated cell.')
prop('C18', 'Learned stencils keep their accuracy for every network output',
     'Whatever logits a network emits, the stencil coefficients differentiate every polynomial of the guaranteed degree exactly, and zero logits give '
     'the standard stencil; learned interpolation and derivatives read the cells around the target for every pair of offsets. All fusing, tiling and '
     'extraction options agree, constants are preserved, and advection through learned interpolations conserves momentum.',
     ['inputs', 'configurations'],
     'every monomial of the guaranteed degree against zero and every unit logit of every small stencil; every unit field for every pair of offsets; every option combination',
     'Network outputs are unconstrained at run time; tests evaluate a random network and compare shapes or one configuration.',
     ['jax_cfd/ml/layers.py', 'jax_cfd/ml/layers_util.py', 'jax_cfd/ml/interpolations.py', 'jax_cfd/ml/advections.py'],
     [('PolynomialConstraint, SpatialDerivative*, fuse_spatial_derivative_layers', 'jax_cfd/ml/layers.py'), ('polynomial_accuracy_*, get_stencils, get_roll_and_shift', 'jax_cfd/ml/layers_util.py'),
      ('FusedLearnedInterpolation, IndividualLearnedInterpolation', 'jax_cfd/ml/interpolations.py')],
     'exhaustive enumeration of monomials, unit logits and unit fields through the real layers; option combinations compared pairwise',
     'The layer is affine in the logits and linear in the field, so unit inputs decide it; networks are replaced by fixed polynomial stand-ins.')
prop('C19', 'Networks are the declared compositions and respect the symmetries',
     'Feed-forward, residual and pointwise networks evaluate the declared sequence of layers with independent weights for every architecture and '
     'tiling, and commute with every translation of the periodic grid; rescaling maps every slice onto the requested range. Stacking, splitting and '
     'corrector modules place every channel at its own component and offset, and flux correctors never change the total momentum.',
     ['inputs', 'configurations'],
     'all architectures in the bounds with all translations; every unit output of every channel of the pre/post-processing modules',
     'Tests of the networks look at output shapes only; ordering, offsets, strides and conservation are not observed.',
     ['jax_cfd/ml/towers.py', 'jax_cfd/ml/networks.py', 'jax_cfd/ml/layers.py'],
     [('forward/residual/MLP tower factories, scale functions', 'jax_cfd/ml/towers.py'), ('stack/split modules, tower_module, corrector networks', 'jax_cfd/ml/networks.py')],
     'exhaustive enumeration of architectures, translations and unit outputs on the real networks, compared with a sequential index-arithmetic evaluation',
     'Weights are fixed generic values.')
prop('C20', 'Labelled datasets, spectra and images report what the data contain',
     'Exported datasets carry the true coordinates, names and values of the velocities and grids; derived quantities (vorticity, energy, spectra, isotropic sums, '
     'correlations, interpolations) equal their definition on every mode, conserve total energy (Parseval), and group samples correctly. Images place every cell '
     'at its pixel with the declared colour.',
     ['inputs', 'configurations'],
     'every unit field and Fourier mode of small odd and even grids in 1-3 dimensions, every dataset layout with and without time and samples',
     'The analysis functions have few tests, on single smooth fields; conservation of energy over shells or the right coordinate on odd grids is not observable there.',
     ['jax_cfd/data/xarray_utils.py', 'jax_cfd/data/visualization.py'],
     [('velocity_trajectory_to_xarray, vorticity_2d, energy_spectrum, isotropize, interpolation', 'jax_cfd/data/xarray_utils.py'), ('images, movies', 'jax_cfd/data/visualization.py')],
     'exhaustive enumeration of Fourier modes, unit fields and layouts on the real functions, compared with explicit loops',
     'Exact ties between isotropic shells are not compared (they depend on rounding).')
prop('C21', 'Losses and scores are the declared averages of the declared differences',
     'Training losses, thresholded error scores and summary tables equal the average over exactly the declared axes of the declared per-component differences, '
     'for every layout of time, batch and space axes and every time slice; a perfect prediction scores zero and the loss never depends on the order of examples.',
     ['inputs', 'configurations'],
     'every layout of axes, every time slice and reduction, unit differences and all pairs of data words around the thresholds',
     'Tests check single numbers; wrong axes, weights, thresholds or slices only show for other layouts.',
     ['jax_cfd/ml/metrics.py', 'jax_cfd/data/evaluation.py'],
     [('trajectory and threshold metrics', 'jax_cfd/ml/metrics.py'), ('compute_summary_dataset, absolute_error', 'jax_cfd/data/evaluation.py')],
     'exhaustive enumeration of axis layouts, slices and data words on the real metrics, compared with explicit loops',
     'dask is not installed, so Dataset.chunk is replaced with the identity.')
prop('C22', 'Solvers respect the symmetries and balances of incompressible flow',
     'Every assembled solver commutes with translations, mirrors and axis permutations of its domain and with changes of units; uniform flow and rest persist; '
     'mass is conserved, momentum changes only by forcing, drag and wall stress, and advection exchanges but never creates kinetic energy for centred fluxes. '
     'The Taylor-Green vortex decays at its exact discrete rate.',
     ['inputs', 'configurations', 'histories'],
     'every translation, signed permutation and scaling applied to every state of a basis, over several steps of every solver configuration',
     'Tests follow one flow from one initial state; symmetries constrain the solver for all states and directions, and conservation holds for each of them.',
     [B + 'equations.py', B + 'advection.py', B + 'diffusion.py', B + 'pressure.py', 'jax_cfd/collocated/equations.py', 'jax_cfd/spectral/equations.py'],
     [('semi_implicit_navier_stokes, implicit_diffusion_navier_stokes', B + 'equations.py'), ('spectral equations', 'jax_cfd/spectral/equations.py')],
     'exhaustive enumeration of group elements and basis states over several steps of the real solvers (equivariance and balance checked on each transition)',
     'States are unit velocities and generic ones; tolerance 1e-8 in float64.')
prop('C23', 'Forcings and eddy-viscosity closures equal their formulas',
     'Every forcing returns, at the offsets it declares, the stated function of position or of the velocity (constant, linear, band-limited per Fourier mode, '
     'sums, and the curl in vorticity space). Eddy-viscosity accelerations equal the divergence of twice viscosity times strain, never inject energy and conserve momentum; '
     'the implicit closure solve inverts exactly that operator, and non-periodic input is refused.',
     ['inputs', 'configurations'],
     'every Fourier mode against every band; every pair of unit viscosity and unit velocity; every offset, option and configuration file',
     'Tests evaluate the forcings on few fields and only check that the closures run; bands, offsets, components and sign of dissipation are not observed for all modes.',
     [B + 'forcings.py', B + 'filter_utils.py', B + 'subgrid_models.py', 'jax_cfd/ml/forcings.py', 'jax_cfd/ml/viscosities.py', 'jax_cfd/ml/physics_specifications.py'],
     [('forcing factories', B + 'forcings.py'), ('smagorinsky_viscosity, evm_model, implicit_evm_solve_with_diffusion', B + 'subgrid_models.py'), ('learned viscosities', 'jax_cfd/ml/viscosities.py')],
     'exhaustive enumeration of Fourier modes, unit velocities and (unit viscosity, unit velocity) pairs through the real forcings and closures against explicit loops',
     'The implicit solve is decided for a frozen viscosity (a linear operator); the conjugate gradient iteration on the nonlinear operator is not specified.')
prop('C24', 'Initial fields are solenoidal, normalised and solve their equations',
     'Random initial velocities are the filtered noise of their key, divergence free, with zero mean and exactly the requested maximum speed; evaluated '
     'initial fields take each function at its own faces, keep the boundary conditions and are projected the requested number of times. The analytic '
     'Taylor-Green problem solves the Navier-Stokes equations for all wavenumbers, viscosities, times and offsets.',
     ['inputs', 'configurations'],
     'all keys, grids, peaks, speeds and numbers of iterations in the bounds; all combinations of functions and walls; all wavenumber pairs, times and offsets',
     'Tests draw one field and compare it loosely; unequal wavenumbers, other grids and numbers of projections are not exercised.',
     [B + 'initial_conditions.py', B + 'validation_problems.py', 'jax_cfd/collocated/initial_conditions.py'],
     [('filtered_velocity_field, initial_velocity_field, wrap_variables', B + 'initial_conditions.py'), ('TaylorGreen', B + 'validation_problems.py')],
     'exhaustive enumeration of keys, options, functions and wavenumbers on the real initialisers, compared with dense Fourier sums and closed forms',
     'jax.random supplies the noise for both sides; the collocated projection is compared within the tolerance of its conjugate gradients.')
prop('C25', 'Compiling, batching and differentiating never change the answer',
     'Every operator, forcing, projection and solver step returns the same values eagerly, compiled, batched over any axis, inside a scan and in single precision (to rounding). '
     'Its forward derivative is the limit of the differences of its values, its reverse derivative the transpose, both finite at every state including rest, uniform '
     'flow and equal neighbours; through a rollout they are the products over the steps. A compiled function never confuses arguments that differ only in grid, offset or boundary condition.',
     ['inputs', 'configurations', 'histories'],
     'every transformation of every operator and solver configuration; every unit tangent and cotangent; every word of cell values and velocities for the limited schemes; every sequence of argument kinds',
     'Tests evaluate values, seldom derivatives, and call each compiled function with one kind of argument; a wrong or infinite derivative or a stale compilation returns plausible numbers.',
     [B + 'grids.py', B + 'boundaries.py', B + 'advection.py', B + 'interpolation.py', B + 'pressure.py', B + 'diffusion.py', B + 'fast_diagonalization.py', B + 'funcutils.py', 'jax_cfd/spectral/time_stepping.py', 'jax_cfd/collocated/equations.py'],
     [('GridArray, GridVariable pytrees', B + 'grids.py'), ('advect_van_leer', B + 'advection.py'), ('repeated, trajectory', B + 'funcutils.py'), ('projection', B + 'pressure.py')],
     'exhaustive enumeration of transformations, unit tangents and cotangents, words of cell values and sequences of argument kinds on the real code, compared with one another and with differences',
     'Derivatives are compared where the scheme is smooth and only required to be finite and mutually transposed on its kinks; the Smagorinsky closure is excluded at zero strain.')
prop('C26', 'Every call depends on its arguments alone',
     'A call answers the same whatever was called before it in the process, with whatever other grids, steps, coefficients, precisions or seeds; an object built once answers as one built anew, '
     'in any order of its arguments. No call changes its arguments (datasets, dictionaries, lists, arrays) or the surroundings (random state, precision, environment).',
     ['histories', 'configurations', 'inputs'],
     'every call of a catalogue over all modules, every configuration differing in each of its parameters, in histories in which each configuration comes first and last; all words of arguments for built objects',
     'Each test runs one configuration in a fresh order of its own; caches with incomplete keys, module-level state and arguments changed in place show only when two configurations meet in one process.',
     [B + 'grids.py', B + 'filter_utils.py', B + 'fast_diagonalization.py', B + 'array_utils.py', B + 'boundaries.py', B + 'funcutils.py', 'jax_cfd/spectral/utils.py', 'jax_cfd/spectral/equations.py', 'jax_cfd/ml/layers_util.py', 'jax_cfd/data/xarray_utils.py'],
     [('Grid.axes, mesh', B + 'grids.py'), ('filter', B + 'filter_utils.py'), ('transform', B + 'fast_diagonalization.py'), ('init_context', B + 'funcutils.py'), ('get_stencils', 'jax_cfd/ml/layers_util.py')],
     'exhaustive enumeration of call histories on the real code: every call x configuration after mixed and lonely histories, in separate processes, results joined',
     'Pairs of configurations, not all triples; quick changes parameters that hardly meet in one computation together; CPU backend.')
#MORE


NOT_APPLICABLE = []


def main():
  P.sort(key=lambda p: p['id'])
  keys = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
      assert len(p['title']) <= 80, p['title']
      f.write(json.dumps({k: p[k] for k in keys}) + '\n')
  checks = []
  for p in P:
    if any(n['property'] == p['id'] for n in NOT_APPLICABLE):
      continue
    checks.append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} quick",
                       thorough_cmd=f"./run.sh {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique='model checking: ' + p['technique'],
                       level='model_checking', level_note=p['note']))
  man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=NOT_APPLICABLE)
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
