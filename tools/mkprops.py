"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(
      id=id, title=title, statement=' '.join(statement.split()),
      quantifier=dict(over=over, text=' '.join(text.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(
          files=['jax_cfd/' + f for f in files],
          state=[dict(name=a, meaning=b, where='jax_cfd/' + c) for a, b, c in state],
          mechanism=[dict(name=a, where='jax_cfd/' + b) for a, b in mechanism],
          observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Values beyond the domain edge follow the boundary condition',
     """Extending or shifting a field past the edge of its domain, on either side and by any number of
     cells, leaves the values inside the domain untouched and gives every outside position exactly the
     value its boundary condition defines: the wrapped value (periodic), the value that makes the wall
     value or wall gradient equal the prescribed one (Dirichlet, Neumann), extended or mirrored as
     requested. The result's location and size record exactly how far it was extended, extending and
     then cutting back is the identity, and extending a field that was already extended gives the same
     values as extending it once.""",
     ['inputs', 'configurations', 'histories'],
     """every field content, 1 to 3 dimensions, non-square grids, every mix of boundary types and values
     per axis and side, every cell location (centre, lower edge, upper edge), every width and side, both
     extension modes, and every sequence of extend / cut / shift calls""",
     """The tests pad a handful of fixed arrays, almost always one boundary type, square grids and width
     1; the number of (type x side x location x width x mode x history) combinations is far beyond them.""",
     ['base/boundaries.py', 'base/grids.py'],
     [('ghost-cell computation', 'base/boundaries.py:ConstantBoundaryConditions._pad'),
      ('trimming of previous padding', 'base/boundaries.py:ConstantBoundaryConditions._trim_padding'),
      ('shift = pad then trim', 'base/boundaries.py:ConstantBoundaryConditions.shift')],
     [('field', 'array data, location offset, grid, boundary condition', 'base/grids.py:GridVariable')],
     ['return value of pad/pad_all/shift/trim'])

prop('C02', 'Imposing a boundary condition makes edge values agree and nothing else',
     """Imposing a boundary condition on a field replaces only values that lie on the boundary (and drops
     values outside the domain): afterwards every value located on a Dirichlet wall equals the prescribed
     value, every interior value is bit-for-bit what it was, and size and location are those of the input
     restricted to the domain. For a field located within its cells, doing it twice changes nothing more,
     and removing the boundary values returns exactly the strictly interior values (all values when
     periodic).""",
     ['inputs', 'configurations', 'histories'],
     """every field content and previous padding, every mix of boundary types and values, every location,
     1-3 dimensions""",
     """Tests use one or two fixed arrays per boundary type and never compose imposing with earlier
     padding on a different axis.""",
     ['base/boundaries.py', 'base/grids.py'],
     [('trim, then re-pad to the original location', 'base/boundaries.py:ConstantBoundaryConditions.impose_bc'),
      ('interior selection', 'base/boundaries.py:ConstantBoundaryConditions.trim_boundary')],
     [('field', 'array data, location offset, boundary condition', 'base/grids.py:GridVariable')],
     ['return value of impose_bc / trim_boundary / pad_and_impose_bc'])

prop('C03', 'Fields combine only when they share location and grid; grids are coherent',
     """Arithmetic on fields is element-wise on the data and keeps the common location and grid; combining
     fields whose locations, grids or boundary conditions differ where a unique one is required raises
     instead of producing a value. A grid's domain, step, shape, axis coordinates, mesh and frequencies
     always agree with each other, and fields, grids and boundary conditions survive being flattened and
     rebuilt, or passed through compiled, unchanged.""",
     ['inputs', 'configurations', 'programs'],
     """every arithmetic expression over fields, every pair of locations / grids / boundary conditions,
     every grid given by step or by domain in 1-3 dimensions""",
     """Tests exercise a few operators on matching fields and one mismatch of each kind; they cannot cover
     all expressions or all grids.""",
     ['base/grids.py', 'base/boundaries.py'],
     [('unique location / grid checks', 'base/grids.py:consistent_offset, consistent_grid, unique_boundary_conditions'),
      ('ufunc dispatch', 'base/grids.py:GridArray.__array_ufunc__'),
      ('grid construction', 'base/grids.py:Grid.__init__')],
     [('grid', 'shape, step, domain', 'base/grids.py:Grid')],
     ['results and exceptions of field arithmetic, grid attributes, axes, mesh'])

prop('C04', 'Difference operators are the stated stencils and obey vector identities',
     """Every difference operator returns, for every field and boundary condition, the stated difference
     quotient at the stated location; the Laplacian is the divergence of the gradient, the divergence of
     a discrete curl and the curl of a discrete gradient vanish, and on periodic domains differences sum
     to zero and gradient and divergence are negative adjoints. All operators are linear and commute with
     cyclic shifts of periodic fields.""",
     ['inputs', 'configurations'],
     """every field content, spacing, dimension, location and boundary condition""",
     """Tests compare smooth functions with a tolerance at one resolution; they do not establish exact
     stencils for arbitrary data, spacings and boundary types, nor the algebraic identities.""",
     ['base/finite_differences.py'],
     [('one-sided and central differences', 'base/finite_differences.py:central_difference, backward_difference, forward_difference'),
      ('divergence / laplacian / curl', 'base/finite_differences.py:divergence, centered_divergence, laplacian, curl_2d, curl_3d'),
      ('gradient tensor', 'base/finite_differences.py:gradient_tensor')],
     [], ['return values of jax_cfd.base.finite_differences'])

prop('C05', 'Interpolation is exact, local and bounded',
     """Interpolating a field to another location returns the field itself when the location is unchanged,
     reproduces affine fields exactly (linear schemes), always produces convex combinations of the
     bracketing values (so constants and bounds are preserved; limited schemes never leave the range of the
     neighbouring values), and picks the donor cell from the sign of the advecting velocity in upwind-type
     schemes. Interpolating to arbitrary points agrees with multilinear interpolation between the
     surrounding nodes.""",
     ['inputs', 'configurations'],
     """every field and velocity content (including zeros, ties and sign changes), every pair of locations,
     spacing, time step and boundary condition""",
     """Tests use smooth fields with loose tolerances and one velocity sign per case.""",
     ['base/interpolation.py', 'base/array_utils.py'],
     [('linear interpolation', 'base/interpolation.py:linear'),
      ('upwind / Lax-Wendroff / limiter', 'base/interpolation.py:upwind, lax_wendroff, apply_tvd_limiter'),
      ('point interpolation', 'base/interpolation.py:point_interpolation')],
     [], ['return values of jax_cfd.base.interpolation'])

prop('C06', 'Advection conserves, keeps constants, and creates no new extrema',
     """For every advecting velocity and scalar, each flux-form advection scheme changes the total scalar
     on a periodic or closed domain by zero and equals minus the divergence of (face velocity times the
     stated face value); a constant scalar in a divergence-free velocity does not change. Upwind and
     limited schemes under their CFL limit keep the scalar within its previous range, and
     back-tracking advection returns the multilinearly interpolated value at the departure point.
     Self-advection of a staggered velocity is minus the divergence of its own momentum flux on periodic
     domains.""",
     ['inputs', 'configurations', 'histories'],
     """every velocity and scalar content, spacing, time step, location, dimension and supported boundary
     condition""",
     """Tests advect one smooth profile along one axis; the guarantees quantify over all data, all sign
     patterns of velocity and all boundary mixes.""",
     ['base/advection.py', 'collocated/advection.py', 'base/interpolation.py', 'base/boundaries.py'],
     [('flux assembly', 'base/advection.py:_advect_aligned, advect_general'),
      ('schemes', 'base/advection.py:advect_linear, advect_upwind, advect_van_leer, advect_van_leer_using_limiters, advect_semilagrangian, convect_linear'),
      ('collocated schemes', 'collocated/advection.py')],
     [], ['return values of the advection functions'])

prop('C07', 'Pressure projection yields a divergence-free velocity changed by a gradient',
     """Projecting any velocity gives a velocity whose discrete divergence is zero (to solver accuracy),
     that differs from the input only by the discrete gradient of one scalar, and that keeps each
     component's location, size and boundary condition. A divergence-free velocity is returned
     unchanged, so projecting twice equals projecting once, and all solvers offered for a configuration
     agree.""",
     ['inputs', 'configurations'],
     """every velocity content, every supported boundary mix, dimension, spacing, solver and implementation""",
     """Tests project a few smooth or random fields on square grids with one or two boundary mixes.""",
     ['base/pressure.py', 'collocated/pressure.py', 'base/fast_diagonalization.py', 'base/boundaries.py'],
     [('projection', 'base/pressure.py:projection'),
      ('solvers', 'base/pressure.py:solve_cg, solve_fast_diag, solve_fast_diag_channel_flow, solve_fast_diag_moving_wall'),
      ('pressure boundary condition', 'base/boundaries.py:get_pressure_bc_from_velocity')],
     [], ['return value of projection and of the pressure solvers'])

prop('C08', 'Diffusion solves the stated linear system and conserves',
     """Explicit diffusion is the viscosity times the discrete Laplacian with the field's own boundary
     condition; every implicit solver returns the field satisfying (identity minus time step times
     viscosity times Laplacian) applied to the result equals the input, with the same boundary
     condition. On periodic and insulated domains the total is conserved, constants are steady, and the
     implicit step never increases the maximum.""",
     ['inputs', 'configurations'],
     """every field content, viscosity, time step, spacing, dimension and supported boundary mix""",
     """Tests check a couple of smooth fields on square grids and homogeneous boundaries.""",
     ['base/diffusion.py', 'collocated/diffusion.py', 'base/fast_diagonalization.py'],
     [('explicit', 'base/diffusion.py:diffuse'),
      ('implicit', 'base/diffusion.py:solve_cg, solve_fast_diag'),
      ('boundary lifting', 'base/diffusion.py:_subtract_linear_part_dirichlet')],
     [], ['return values of the diffusion functions'])

prop('C09', 'Separable operator transforms equal the operator they stand for',
     """Applying a function of a sum of one-dimensional operators, by any of the offered implementations,
     equals applying that function to the assembled operator; the pseudo-inverse composed with the
     operator is the projection off the null space. The one-dimensional Laplacian matrices used by the
     solvers act exactly as the Laplacian stencil with the same boundary condition.""",
     ['inputs', 'configurations'],
     """every set of per-axis operators, boundary types, sizes (odd and even), dtype, implementation and
     right-hand side""",
     """Tests use a few random circulant operators of one size.""",
     ['base/fast_diagonalization.py', 'base/array_utils.py'],
     [('transform implementations', 'base/fast_diagonalization.py:transform, _hermitian_matmul_transform, _circulant_fft_transform, _circulant_rfft_transform'),
      ('pseudo-inverse', 'base/fast_diagonalization.py:psuedoinverse'),
      ('Laplacian matrices', 'base/array_utils.py:laplacian_matrix, laplacian_matrix_w_boundaries')],
     [], ['return values of transform / pseudoinverse / laplacian matrices'])

prop('C10', 'Explicit time steppers follow their tableau and project every stage',
     """For every right-hand side and every projection, one step of each explicit stepper equals the
     Runge-Kutta combination of its tableau in which every stage state and the final state have been
     projected; the forward-Euler, midpoint, Heun and classical fourth-order tableaux reach their orders.
     A custom tableau is applied exactly as given, malformed tableaux are rejected, and the state's
     structure is preserved.""",
     ['inputs', 'configurations', 'programs'],
     """every right-hand side, projection, state structure, step size and tableau""",
     """Tests integrate two scalar problems to a tolerance that a mis-projected or mis-weighted stage
     of a nearly commuting problem also meets.""",
     ['base/time_stepping.py'],
     [('stage loop', 'base/time_stepping.py:navier_stokes_rk'),
      ('tableaux', 'base/time_stepping.py:forward_euler, midpoint_rk2, heun_rk2, classic_rk4')],
     [('k, u0', 'stage derivatives and base state', 'base/time_stepping.py:navier_stokes_rk')],
     ['returned state; arguments received by the right-hand side and projection'])

prop('C11', 'Semi-implicit steppers solve their stage equations at stated order',
     """Each semi-implicit stepper advances u' = explicit(u) + implicit(u) by its published stage equations:
     implicit parts enter only through the implicit solve and implicit term, every stage uses the step
     size it was given, and a steady state of the full equation stays steady. With the implicit part
     absent it is its explicit scheme, with the explicit part absent its implicit scheme, it converges at
     its stated order (the additive third-order scheme for linear explicit terms), and coefficient lists
     of inconsistent lengths are rejected.""",
     ['inputs', 'configurations', 'programs'],
     """every pair of explicit and implicit terms, state structure and step size""",
     """Tests integrate three fixed equations and compare with loose tolerances.""",
     ['spectral/time_stepping.py'],
     [('steppers', 'spectral/time_stepping.py:backward_forward_euler, crank_nicolson_rk2, low_storage_runge_kutta_crank_nicolson, crank_nicolson_rk3, crank_nicolson_rk4, imex_runge_kutta, imex_rk_sil3')],
     [], ['returned state; arguments of explicit_terms / implicit_solve'])

prop('C12', 'Repeating, unrolling and trajectories are plain composition of the step',
     """Running a step function n times in one call, or recording a trajectory of any length with any number
     of inner steps, with or without the initial frame, with any post-processing and any checkpointing,
     gives exactly the states obtained by calling the step function by hand that many times, in order,
     each recorded once. Splitting a run into two runs gives the same states.""",
     ['inputs', 'configurations', 'histories'],
     """every step function, state structure, number of inner and outer steps including zero and one, and
     every post-processing and start option""",
     """Tests unroll one counter for one or two lengths.""",
     ['base/funcutils.py', 'ml/model_builder.py', 'ml/model_utils.py'],
     [('scan wrappers', 'base/funcutils.py:repeated, trajectory, scan'),
      ('model trajectories', 'ml/model_builder.py:DynamicalSystem.trajectory; ml/model_utils.py')],
     [], ['returned final state and stacked trajectory'])

prop('C13', 'Coarse-graining preserves fluxes, means and zero divergence',
     """Downsampling a staggered velocity averages face values over the coarse face, so coarse fluxes are
     the sums of the fine ones and a divergence-free velocity stays divergence-free, in any dimension and
     for any integer ratio, and two successive downsamplings equal one by the product. Smoothing with a
     top-hat filter and subsampling keeps the box mean at each retained point. Spectral downsampling keeps
     exactly the retained modes, and all results carry the coarse grid; incompatible ratios are rejected.""",
     ['inputs', 'configurations'],
     """every field content, dimension, location, boundary condition and integer ratio, and every chain of
     ratios""",
     """Tests downsample a few arrays by one factor.""",
     ['base/resize.py'],
     [('velocity', 'base/resize.py:downsample_staggered_velocity, downsample_staggered_velocity_component'),
      ('box means', 'base/resize.py:top_hat_downsample'),
      ('spectral', 'base/resize.py:downsample_spectral')],
     [], ['returned coarse fields'])

prop('C14', 'Spectral operators invert, differentiate and filter mode by mode',
     """Recovering velocity from vorticity gives a divergence-free, mean-free velocity whose curl is that
     vorticity; each spectral equation's implicit solve is the exact inverse of (identity minus step times
     its implicit term), and its explicit terms equal the convolution, forcing and de-aliasing stated for
     it (one-dimensional equations: even sizes). Filters only multiply modes by factors in [0, 1] with the stated cut-off, and padding or
     truncating spectra keeps the retained modes' physical content.""",
     ['inputs', 'configurations'],
     """every real field, grid (even, odd, anisotropic), viscosity, drag, forcing, step size and equation""",
     """Tests use one smooth initial condition and one even square grid per equation.""",
     ['spectral/equations.py', 'spectral/utils.py', 'spectral/forcings.py'],
     [('velocity solve', 'spectral/utils.py:vorticity_to_velocity'),
      ('equations', 'spectral/equations.py:NavierStokes2D, KuramotoSivashinsky, ForcedNavierStokes2D'),
      ('filters', 'spectral/utils.py:brick_wall_filter_2d, exponential_filter, truncated_rfft, padded_irfft')],
     [], ['returned spectra and fields'])

prop('C15', 'Array utilities are exact: split/concat, slicing, interpolation, bases',
     """Splitting then concatenating, or concatenating then splitting, any tree of arrays along an axis is
     the identity; slicing selects exactly the stated elements of every leaf; one-dimensional
     interpolation returns node values at nodes, the linear blend between them and the stated behaviour
     outside; orthonormalisation returns an orthonormal basis of the same span.""",
     ['inputs', 'configurations'],
     """every tree structure, shape, axis (including negative), index, table of nodes and query""",
     """Tests use a few shapes and positive axes.""",
     ['base/array_utils.py'],
     [('tree slicing', 'base/array_utils.py:slice_along_axis, split_along_axis, split_axis, concat_along_axis'),
      ('interpolation', 'base/array_utils.py:interp1d'),
      ('bases', 'base/array_utils.py:gram_schmidt_qr')],
     [], ['return values'])

prop('C16', 'Periodic convolution, tiling and halo exchange are equivalent and equivariant',
     """A convolution with boundary-aware padding computes the same value at every cell as the unpadded
     convolution on the field extended by its boundary condition, so cyclic shifts of a periodic input
     shift the output; splitting the domain into tiles, exchanging halos, computing and re-joining gives
     the same result as computing on the whole domain, for every admissible tile layout.""",
     ['inputs', 'configurations', 'schedules'],
     """every field, kernel size, stride or dilation, dimension, tile layout and channel count""",
     """Tests compare a few kernel and tile sizes.""",
     ['ml/layers.py', 'ml/layers_util.py', 'ml/tiling.py', 'ml/towers.py'],
     [('padding convs', 'ml/layers.py:PeriodicConvGeneral, MirrorConvGeneral, NonPeriodicConvGeneral'),
      ('tiling', 'ml/tiling.py'), ('patch extraction', 'ml/layers_util.py:extract_patches')],
     [], ['outputs of layers / tiling functions'])

prop('C17', 'Learned stencils satisfy their accuracy constraint for any network output',
     """Whatever values the network produces, the resulting finite-difference or interpolation coefficients
     satisfy the stated polynomial accuracy conditions exactly, and applying them equals the weighted sum
     over the stencil at the declared locations; constant fields are therefore interpolated exactly and
     have zero derivative.""",
     ['inputs', 'configurations'],
     """every network output, stencil size and placement, derivative order, accuracy order and grid spacing""",
     """Tests try a few stencils with one random vector each.""",
     ['ml/layers.py', 'ml/layers_util.py', 'ml/interpolations.py'],
     [('constraint solve', 'ml/layers.py:PolynomialConstraint; ml/layers_util.py:polynomial_accuracy_constraints'),
      ('stencil application', 'ml/layers_util.py:apply_coefficients; ml/interpolations.py')],
     [], ['coefficients and interpolated fields'])

prop('C18', 'Training and evaluation steps count, average and split batches exactly',
     """Each training step applies exactly one optimiser update computed from its batch and advances the step
     counter by one; evaluation metrics equal the average over all batches seen, in any order; splitting
     of trajectories into input and target frames loses, duplicates or reorders none, and input noise
     touches only the input frame.""",
     ['inputs', 'histories', 'configurations'],
     """every stream of batches, parameter tree, loss, number of steps, frames and noise setting""",
     """Tests barely cover the training utilities.""",
     ['ml/train_utils.py', 'ml/model_utils.py', 'ml/metrics.py'],
     [('train step', 'ml/train_utils.py'), ('streaming mean', 'ml/train_utils.py'), ('metrics', 'ml/metrics.py')],
     [], ['train state after each step; metric values'])

prop('C19', 'Forcings are the stated functions, added at the right locations',
     """Each built-in forcing, evaluated on any velocity and grid, equals its stated formula at the location
     of the velocity component it drives; sums of forcings are the component-wise sum, linear and
     filtered forcings are linear in the velocity, and a forcing never changes location, grid or number
     of components. The forcing of the vorticity equation is the curl of the velocity forcing, and the
     analytic Taylor-Green flow used for validation is divergence-free and decays at the rate the
     equations give.""",
     ['inputs', 'configurations'],
     """every velocity, grid, dimension, location, amplitude and wave number, and every sum of forcings""",
     """Tests check shapes and one formula for default arguments.""",
     ['base/forcings.py', 'spectral/forcings.py', 'base/filter_utils.py'],
     [('forcings', 'base/forcings.py'), ('spectral forcings', 'spectral/forcings.py'),
      ('analytic Taylor-Green flow', 'base/validation_problems.py:TaylorGreen')],
     [], ['returned acceleration'])

prop('C20', 'A full time step keeps the flow incompressible, aligned and conservative',
     """Every assembled solver (staggered explicit and semi-implicit, collocated, eddy-viscosity, learned)
     maps a velocity to a velocity with the same grid, locations and boundary conditions that is discretely
     divergence-free (on domains with walls, for implicit diffusion, up to the final diffusion), conserves total momentum on periodic domains without forcing, leaves the fluid at
     rest at rest, and is the composition of the stated advection, diffusion, forcing and projection with
     density and viscosity entering as kinematic viscosity everywhere.""",
     ['inputs', 'configurations', 'histories'],
     """every initial velocity, number of steps, time step, density, viscosity, forcing, boundary mix and
     solver""",
     """Tests run a few smooth flows with density one.""",
     ['base/equations.py', 'collocated/equations.py', 'base/subgrid_models.py', 'ml/equations.py'],
     [('assembly', 'base/equations.py:semi_implicit_navier_stokes, implicit_diffusion_navier_stokes'),
      ('eddy viscosity', 'base/subgrid_models.py')],
     [], ['state after each step'])

prop('C21', 'Initial conditions are admissible states',
     """Every generated initial velocity lies on the expected locations of the requested grid, satisfies its
     boundary condition, is divergence-free under the discretisation it is built for, and its peak speed is
     the requested one; user-supplied functions are sampled at the component's own location before
     projection. The same key always gives the same state.""",
     ['inputs', 'configurations'],
     """every grid shape, dimension, key, peak wave number, maximum speed and user function""",
     """Tests check one key and a few shapes.""",
     ['base/initial_conditions.py', 'collocated/initial_conditions.py', 'base/filter_utils.py'],
     [('construction', 'base/initial_conditions.py:initial_velocity_field, filtered_velocity_field, wrap_velocities')],
     [], ['returned velocity'])

prop('C22', 'Dataset diagnostics are the stated physical quantities',
     """Storing a trajectory keeps every value under the right name, dimensions, coordinates, times and
     attributes. Diagnostics of a stored flow (vorticity, enstrophy, kinetic energy, speed, spectra,
     spatial and temporal correlations) equal their definition for every dataset: the spectrum sums to
     the energy, isotropic spectra sum or average over the stated shells, correlations carry the true
     displacements, and error summaries against a reference are the stated averages. The grid rebuilt
     from stored attributes is the one that was stored. Pictures of a stored field show, pixel by pixel,
     the colour of the value at that point, in the stated order and orientation.""",
     ['inputs', 'configurations'],
     """every dataset content, size (even, odd), number of samples and times""",
     """Tests check a single constructed dataset.""",
     ['data/xarray_utils.py', 'data/evaluation.py'],
     [('derived quantities', 'data/xarray_utils.py'), ('evaluation', 'data/evaluation.py')],
     [], ['returned dataset variables'])

prop('C23', 'Model plumbing moves data between frames, fields and channels unmixed',
     """Encoders take the last frame (or the last n frames) along the stated time axis and attach to every
     component its own offset, grid and boundary condition, interpolating only where locations differ;
     decoders return the same values component by component. Stacking fields or neighbours into channels and
     splitting channels into fields keep order, location, boundary condition and value. A learned flux
     correction is minus the divergence of the fluxes; vorticity encodings are the curl of the velocity and
     decode back to that velocity on every grid, odd sizes included; a learned viscosity is the network's
     value at each strain location. Scheme modules are the schemes they name; a modular trajectory is
     decode of repeated steps of the encoding; the recurrent integrators are the stated recurrences.""",
     ['inputs', 'configurations', 'histories'],
     """every grid shape (even, odd), frame count, time axis, component layout, boundary mix, network and
     number of steps""",
     """Tests instantiate the modules on one square even grid and check shapes.""",
     ['ml/encoders.py', 'ml/decoders.py', 'ml/networks.py', 'ml/nonlinearities.py', 'ml/viscosities.py',
      'ml/physics_specifications.py', 'ml/time_integrators.py', 'ml/forcings.py', 'ml/equations.py',
      'ml/model_builder.py'],
     [('frames in and out', 'ml/encoders.py, ml/decoders.py'),
      ('channels and corrections', 'ml/networks.py, base/array_utils.py'),
      ('composition', 'ml/model_builder.py, ml/time_integrators.py')],
     [], ['returned fields and arrays', 'trajectory'])
prop('C24', 'Differentiating, batching and compiling keep what a simulation computes',
     """For every operation of the solver (differences, interpolation, advection schemes, diffusion, pressure
     projection, closures, whole time steps, spectral steps, learned models and unrolled trajectories) the
     derivative obtained by differentiating the code is the derivative of the mathematical operation: a linear
     operation acts on the perturbation with homogeneous boundary values, a projection's derivative is the
     projection of the perturbation, an implicit step's derivative solves the same implicit equation, and an
     unrolled history's derivative is the chain of its steps' derivatives. Reverse mode is the adjoint of
     forward mode. At points where a formula switches branch (fluid at rest, uniform fields, ties in a limiter)
     gradients stay finite. Compiling, checkpointing, and batching over states change no value and no
     derivative: every state of a batch evolves as it does alone.""",
     ['inputs', 'configurations', 'histories'],
     """every state (including rest, uniform, and tied values), perturbation, boundary mix, operation, batch
     size, batching axis, number of steps and saved frames, and way of compiling or checkpointing""",
     """Tests evaluate a few gradients for finiteness only; a wrong derivative or a batch that mixes states
     leaves every forward value intact.""",
     ['base/advection.py', 'base/interpolation.py', 'base/pressure.py', 'base/diffusion.py', 'base/fast_diagonalization.py',
      'base/subgrid_models.py', 'base/equations.py', 'base/funcutils.py', 'spectral/time_stepping.py', 'ml/model_builder.py'],
     [('safe divisions and branches', 'base/interpolation.py, base/advection.py, base/subgrid_models.py'),
      ('linear solves', 'base/pressure.py, base/diffusion.py, base/fast_diagonalization.py'),
      ('unrolling and checkpoints', 'base/funcutils.py, ml/model_builder.py')],
     [], ['values and derivatives returned by jax.jvp, jax.vjp, jax.linearize, jax.vmap, jax.jit, jax.checkpoint'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for p in P:
    f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
