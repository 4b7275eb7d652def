"""What each property's check runs: modules (harness + repo translation units) and jobs (harness entry + parameters + budgets)."""
PHYS = ['physics/aphysics']; FLUX = ['spatial/anumericalflux'] + PHYS
MODULES = {
 'flux': dict(harness='flux', tus=FLUX),
 'physics': dict(harness='physics', tus=FLUX+['physics/viscousphysics']),
 'mesh': dict(harness='mesh', tus=['mesh/mesh', 'utilities/mpiutils', 'utilities/aarray2d', 'utilities/aerrorhandling'], support=['petscmodel', 'mpiglobals', 'strings']),
 'partition': dict(harness='partition', tus=['mesh/mesh', 'mesh/meshpartitioning', 'linalg/tracevector', 'linalg/alinalg', 'linalg/petscutils', 'utilities/mpiutils', 'utilities/aarray2d', 'utilities/aerrorhandling'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings']),
 'bc': dict(harness='bc', tus=FLUX+['spatial/abc'], support=['rbtree']),
}
MESH = ['mesh/mesh', 'mesh/meshpartitioning', 'linalg/tracevector', 'linalg/alinalg', 'linalg/petscutils', 'utilities/mpiutils', 'utilities/aarray2d', 'utilities/aerrorhandling']
FLOW = FLUX + ['physics/viscousphysics', 'spatial/abc', 'spatial/abctypemap', 'spatial/aspatial', 'spatial/flow_spatial', 'spatial/agradientschemes', 'spatial/areconstruction', 'spatial/limitedlinearreconstruction', 'spatial/musclreconstruction', 'utilities/afactory', 'ode/nonlinearrelaxation']
MODULES['ode'] = dict(harness='ode', tus=MESH+PHYS+['spatial/aspatial', 'ode/aodesolver', 'ode/nonlinearrelaxation'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub'])
MODULES['viscous'] = dict(harness='viscous', tus=MESH+FLOW, support=['petscmodel', 'mpiglobals', 'rbtree', 'strings'])
MODULES['flow'] = dict(harness='flow', tus=MESH+FLOW, support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub'])
MODULES['recon'] = dict(harness='recon', tus=['mesh/mesh', 'utilities/mpiutils', 'utilities/aarray2d', 'utilities/aerrorhandling', 'spatial/agradientschemes', 'spatial/areconstruction', 'spatial/limitedlinearreconstruction', 'spatial/musclreconstruction'], support=['petscmodel', 'mpiglobals', 'strings'])
MODULES['containers'] = dict(harness='containers', tus=['utilities/aarray2d'])
MODULES['diffusion'] = dict(harness='diffusion', tus=MESH+FLOW+['spatial/diffusion'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub'])
MODULES['ordering'] = dict(harness='ordering', tus=MESH+FLOW+['spatial/diffusion', 'mesh/ameshutils'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub'])
MODULES['meshio'] = dict(harness='meshio', tus=['mesh/mesh', 'mesh/meshreaders', 'utilities/mpiutils', 'utilities/aarray2d', 'utilities/aerrorhandling'], stubs=['ioinc'], flags=['-include', 'fstream'], support=['petscmodel', 'mpiglobals', 'strings', 'seio'])
MODULES['output'] = dict(harness='output', tus=MESH+FLOW+['spatial/aoutput', 'spatial/diffusion'], stubs=['ioinc'], flags=['-include', 'fstream'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub', 'seio'])
MODULES['config'] = dict(harness='config', tus=MESH+FLOW+['utilities/controlparser', 'utilities/aoptionparser'], stubs=['cfginc'], flags=['-include', 'sstream'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub', 'secfg'])
MODULES['cases'] = dict(harness='cases', tus=MESH+FLOW+['utilities/casesolvers', 'utilities/controlparser', 'utilities/aoptionparser'], stubs=['ioinc', 'cfginc'], flags=['-include', 'sstream', '-include', 'fstream'], support=['petscmodel', 'mpiglobals', 'rbtree', 'strings', 'scotchstub', 'secfg', 'seio'])
for _m in ('flow', 'recon', 'ode', 'mesh', 'diffusion', 'output', 'ordering'): MODULES['omp-'+_m] = dict(MODULES[_m], omp=True, stubs=MODULES[_m].get('stubs', [])+['ompinc'], flags=MODULES[_m].get('flags', [])+['-fopenmp', '-fno-discard-value-names'], support=MODULES[_m]['support']+['omprt'])
SCHEMES = ['LLF', 'VanLeer', 'AUSM', 'AUSM+', 'Roe', 'HLL', 'HLLC']
def J(id, mod, entry, budget=60, **k): return dict(id=id, mod=mod, entry=entry, budget=budget, **k)
def over_schemes(name, entry, idx=range(7), budget=60, **k): return [J('%s-%s' % (name, SCHEMES[i]), 'flux', entry, budget, param={'scheme': i}, **k) for i in idx]
GASB = 'all real inputs: gamma>1, any rho,p>0, any velocity, any unit normal (2D)'
def p06(full):
    js = [J('analytic', 'flux', 'harness_euler_jacobian', 60)]
    js += [J('frozen-%s-c%d' % (SCHEMES[s], c), 'flux', 'harness_frozen', 60, param={'scheme': s, 'col': c}, tol=1e-5) for s in (0, 5) for c in range(8)]
    js += [J('AUSM-c%d' % c, 'flux', 'harness_jacobian', 60, param={'scheme': 2, 'chart': 0, 'col': c}, tol=1e-5) for c in range(8)]
    js += [J('Roe-b%d-c%d' % (b, c), 'flux', 'harness_jacobian', 100, param={'scheme': 4, 'chart': 1, 'branch': b, 'col': c, 'fdh': 3 if b > 3 else 0}, tol=1e-4 if b > 3 else 1e-5, wtol=1e-4 if b > 3 else 1e-6, witnesses=1 if b > 3 else 2) for b in range(7) for c in range(8)]
    for ch, kr in ((0, 0), (1, 0), (1, 1), (2, 1)):
        for b in range(4):
            if b == 0 and ch in (0, 1) and kr: continue
            for c in range(8): js.append(J('HLLC-k%d%d-b%d-c%d' % (ch == 1, kr, b, c), 'flux', 'harness_jacobian', 150, param={'scheme': 6, 'chart': ch, 'kr': kr, 'branch': b, 'col': c}, tol=1e-5, poly_limit=400000))
    return js
SPECS = {
 'P01': dict(bounds=GASB + '; all 7 schemes', quick=lambda: over_schemes('consistency', 'harness_consistency')),
 'P03': dict(bounds=GASB + '; supersonic on both sides (and at the Roe average for Roe/HLL/HLLC; with respect to the critical speed for AUSM+); stationary contacts with arbitrary shear', quick=lambda:
   [J('supersonic-%s%+d' % (SCHEMES[i], d), 'flux', 'harness_supersonic', 60, param={'scheme': i, 'dir': d}) for i in range(1, 7) for d in (1, -1)] + over_schemes('contact', 'harness_contact', (2, 3, 6))),
 'P06': dict(bounds=GASB + '; every matrix entry; Roe: every position relative to the waves and the entropy-fix bands (ties excluded); HLLC: every position relative to the waves and every origin of the signal speeds (ties excluded)', quick=lambda: p06(False), thorough=lambda: p06(True)),
 'P04': dict(bounds=GASB + ', Minf>0; any update with positive resulting density; any gradients', quick=lambda: [J(e, 'physics', 'harness_'+e) for e in ('conversions', 'freestream', 'delta_pressure', 'gradients', 'prim2_faces')]),
 'P05': dict(bounds=GASB + ', Minf,Tinf,Reinf,Pr>0; any incoming contents of accumulated outputs', quick=lambda: [J(e, 'physics', 'harness_'+e, tol=1e-5) for e in ('derivatives', 'derivatives2', 'sutherland', 'sutherland_tinf')]),
 'P09': dict(bounds=GASB + ', any angle of attack and free-stream Mach number, any wall velocities and temperatures, any total conditions; normal Mach number in each region and at the branch points; subsonic inflow: interior entering along the normal', quick=lambda: [J(e, 'bc', 'harness_'+e) for e in ('wall_states', 'inoutflow', 'inflow')]),
 'P10': dict(bounds='as P09; every matrix entry; configurations of two boundary conditions', quick=lambda: [J('lin-%d' % t, 'bc', 'harness_linearisation', param={'type': t}, tol=1e-5) for t in (0, 1, 2, 4, 6, 7, 100)] + [J('factory', 'bc', 'harness_factory')]),
 'P02': dict(bounds=GASB + '; all 7 schemes; HLLC: wave speeds ordered sl<=sm<=sr and nonzero; AUSM+: exact ties of the interface sound speed selection and exactly zero normal velocities excluded', quick=lambda: over_schemes('antisymmetry', 'harness_antisym', budget=120) + over_schemes('rotation', 'harness_rotation', budget=120)),
}
MB = 'every mesh of the stated families: nx x ny grids, each quadrangle kept or split along either diagonal (triangles, quadrangles, hybrids), natural and shuffled numberings of cells, vertices, boundary faces and cell rotations, flipped boundary faces; for P11-P13 also six special meshes (cells sharing two faces, concave cells, points of low and high valence, a domain with a hole) and a single convex or concave cell with any vertices; '
def M(id, entry, budget=100, mod='mesh', **p): return J(id, mod, entry, budget, param=p)
SPECS.update({
 'P11': dict(bounds=MB + 'grids up to 2x2 and 3x1 (thorough: 3x2), all split patterns; any boundary and volume markers (symbolic 32-bit integers on 1x1, 2x1); none, some or all boundary faces turned into connectivity faces', assume=['standard library headers execute as compiled'], quick=lambda:
   [M('topo-special', 'harness_topology', nx=0), M('bpoints-special', 'harness_boundary_points', nx=0), M('topo-1x1', 'harness_topology', nx=1, ny=1, symtags=1), M('topo-2x1', 'harness_topology', nx=2, ny=1, symtags=1), M('topo-2x2', 'harness_topology', nx=2, ny=2), M('topo-3x1', 'harness_topology', nx=3, ny=1), M('bpoints-2x2', 'harness_boundary_points', nx=2, ny=2)],
   thorough=lambda: [M('topo-special', 'harness_topology', nx=0, npat=12), M('topo-special-tags', 'harness_topology', 300, nx=0, symtags=1), M('bpoints-special', 'harness_boundary_points', nx=0, npat=12), M('topo-1x1', 'harness_topology', nx=1, ny=1, symtags=1), M('topo-2x1', 'harness_topology', nx=2, ny=1, symtags=1), M('topo-1x2', 'harness_topology', nx=1, ny=2, symtags=1), M('topo-2x2', 'harness_topology', 300, nx=2, ny=2, npat=6), M('topo-3x1', 'harness_topology', 300, nx=3, ny=1, npat=8), M('topo-3x2', 'harness_topology', 600, nx=3, ny=2, npat=1), M('bpoints-2x2', 'harness_boundary_points', nx=2, ny=2), M('bpoints-3x2', 'harness_boundary_points', 300, nx=3, ny=2, npat=1)]),
 'P12': dict(bounds=MB + 'any vertex coordinates within 0.2 of the grid points (symbolic reals); grids up to 2x2; initial contents of output arrays arbitrary', quick=lambda:
   [M('anycell', 'harness_anycell'), M('metrics-special', 'harness_metrics', nx=0), M('metrics-1x1', 'harness_metrics', nx=1, ny=1), M('metrics-2x1', 'harness_metrics', nx=2, ny=1), M('metrics-1x2', 'harness_metrics', nx=1, ny=2)] + [M('metrics-2x2-%d' % p, 'harness_metrics', nx=2, ny=2, pat=p, split=[0, 5, 43, 64][p]) for p in range(4)],
   thorough=lambda: [M('anycell', 'harness_anycell'), M('metrics-special', 'harness_metrics', nx=0, npat=12), M('metrics-2x1', 'harness_metrics', 300, nx=2, ny=1), M('metrics-1x2', 'harness_metrics', 300, nx=1, ny=2), M('metrics-3x1', 'harness_metrics', 300, nx=3, ny=1, npat=1)] + [M('metrics-2x2-%d' % p, 'harness_metrics', 600, nx=2, ny=2, pat=p) for p in range(4)]),
 'P33': dict(bounds='every grid of 1x1, 2x1 and 1x2 and four splittings of 2x2 (thorough: all, 3x1 and 3x2), each quadrangle kept or split along either diagonal, natural and shuffled numberings, flipped faces; any coordinates within 0.2 of the grid whose positions across the period agree to 4e-10 on the two sides; either axis, both axes, or the other sides on other processes; any two different markers', quick=lambda:
   [M('periodic-1x1', 'harness_periodic', nx=1, ny=1), M('periodic-2x1', 'harness_periodic', nx=2, ny=1, pat=1), M('periodic-1x2', 'harness_periodic', nx=1, ny=2, pat=2), M('periodic-1x2-nat', 'harness_periodic', nx=1, ny=2, pat=0)] + [M('periodic-2x2-%d' % p, 'harness_periodic', nx=2, ny=2, pat=p, split=[0, 5, 43, 64][p]) for p in range(4)],
   thorough=lambda: [M('periodic-1x1', 'harness_periodic', nx=1, ny=1, npat=8), M('periodic-2x1', 'harness_periodic', 300, nx=2, ny=1), M('periodic-1x2', 'harness_periodic', 300, nx=1, ny=2), M('periodic-3x1', 'harness_periodic', 600, nx=3, ny=1, pat=1), M('periodic-3x2', 'harness_periodic', 600, nx=3, ny=2, pat=2, split=0)] + [M('periodic-2x2-%d' % p, 'harness_periodic', 600, nx=2, ny=2, pat=p) for p in range(4)]),
 'P13': dict(bounds=MB + 'any permutation of up to 4 cells (random ones beyond); any markers; any coordinates within 0.2 of the grid; before or after the connectivity has been computed; one process (reordering with several is documented as not done)', quick=lambda:
   [M('reorder-special', 'harness_reorder', nx=0), M('reorder-1x1', 'harness_reorder', nx=1, ny=1, symtags=1), M('reorder-2x1', 'harness_reorder', nx=2, ny=1), M('reorder-2x2', 'harness_reorder', nx=2, ny=2, pat=3)],
   thorough=lambda: [M('reorder-special', 'harness_reorder', nx=0), M('reorder-1x1', 'harness_reorder', nx=1, ny=1, symtags=1), M('reorder-2x1', 'harness_reorder', 600, nx=2, ny=1, npat=8), M('reorder-1x2', 'harness_reorder', 300, nx=1, ny=2), M('reorder-2x2', 'harness_reorder', 600, nx=2, ny=2, npat=7)]),
 'P15': dict(bounds=MB + '2x1 grids with every assignment of cells to 2 processes; 2x2 and 3x2 grids with 3 and 4 processes and pseudo-random, round-robin and block assignments; markers symbolic on 2x1; coordinates symbolic; SCOTCH and MPI replaced by stand-ins (any partition; MPI semantics)', assume=['MPI, PETSc and SCOTCH behave as documented (replaced by harness/petscmodel.cpp and stand-ins)'], quick=lambda:
   [M('part-2x1', 'harness_partition', 100, 'partition', nx=2, ny=1), M('part-1x1', 'harness_partition', 100, 'partition', nx=1, ny=1, symtags=1), M('part-2x2-r3', 'harness_partition', 100, 'partition', nx=2, ny=2, ranks=3, own=1), M('part-2x2-r4', 'harness_partition', 100, 'partition', nx=2, ny=2, ranks=4, own=2), M('trivial-2x2', 'harness_trivial', 100, 'partition', nx=2, ny=2), M('scotch-2x1', 'harness_scotch', 100, 'partition', nx=2, ny=1), M('scotch-2x2', 'harness_scotch', 100, 'partition', nx=2, ny=2, own=1, ranks=3)],
   thorough=lambda: [M('part-2x1', 'harness_partition', 300, 'partition', nx=2, ny=1, npat=5), M('part-2x1-r3', 'harness_partition', 600, 'partition', nx=2, ny=1, ranks=3), M('part-1x1', 'harness_partition', 100, 'partition', nx=1, ny=1, symtags=1)] + [M('part-2x2-r%d-o%d' % (r, o), 'harness_partition', 300, 'partition', nx=2, ny=2, ranks=r, own=o) for r in (2, 3, 4) for o in (1, 2, 3)] + [M('part-3x2-r%d' % r, 'harness_partition', 600, 'partition', nx=3, ny=2, ranks=r, own=1, npat=1) for r in (3, 4)] + [M('trivial-2x2', 'harness_trivial', 300, 'partition', nx=2, ny=2), M('scotch-2x1', 'harness_scotch', 300, 'partition', nx=2, ny=1), M('scotch-2x2', 'harness_scotch', 300, 'partition', nx=2, ny=2, own=1, ranks=3)]),
 'P16': dict(bounds=MB + 'as P15; any trace values (symbolic), 1 and 4 unknowns, one and repeated exchanges, shuffled order of the connectivity faces on each process; ghost vectors for contiguous numbering as the mesh reader creates them; the network may read a send buffer until the send is completed', assume=['MPI and PETSc vectors behave as documented (replaced by harness/petscmodel.cpp)'], quick=lambda:
   [M('ex-2x1', 'harness_exchange', 100, 'partition', nx=2, ny=1), M('ex-2x2-r3', 'harness_exchange', 100, 'partition', nx=2, ny=2, ranks=3, own=1), M('ex-2x1-r3-n1', 'harness_exchange', 100, 'partition', nx=2, ny=1, ranks=3, own=2, nv=1), M('ex-2x2-r4', 'harness_exchange', 100, 'partition', nx=2, ny=2, ranks=4, own=2, pat=2), M('ghost-2x1', 'harness_ghostvec', 100, 'partition', nx=2, ny=1), M('ghost-2x2-r3', 'harness_ghostvec', 100, 'partition', nx=2, ny=2, ranks=3)],
   thorough=lambda: [M('ex-2x1', 'harness_exchange', 300, 'partition', nx=2, ny=1, rounds=3), M('ex-2x1-r3', 'harness_exchange', 600, 'partition', nx=2, ny=1, ranks=3)] + [M('ex-2x2-r%d-o%d' % (r, o), 'harness_exchange', 300, 'partition', nx=2, ny=2, ranks=r, own=o) for r in (2, 3, 4) for o in (1, 2, 3)] + [M('ex-3x2-r4', 'harness_exchange', 600, 'partition', nx=3, ny=2, ranks=4, own=1, npat=1), M('ghost-2x1', 'harness_ghostvec', 100, 'partition', nx=2, ny=1), M('ghost-2x2-r3', 'harness_ghostvec', 300, 'partition', nx=2, ny=2, ranks=3), M('ghost-3x2-r4', 'harness_ghostvec', 300, 'partition', nx=3, ny=2, ranks=4, npat=1), M('ghost-2x2-r2-n1', 'harness_ghostvec', 300, 'partition', nx=2, ny=2, ranks=2, nv=1)]),
})
SPECS.update({
 'P07': dict(bounds=GASB + ', any Minf, Tinf, Reinf, Pr>0; any primitive gradients on both sides (or first order), any distinct cell centres, any reconstructed face states; constant and Sutherland viscosity', quick=lambda:
   [J('flux-cv%d-o%d' % (c, o), 'viscous', 'harness_viscous_flux', 60, param={'cv': c, 'o2': o}) for c in (0, 1) for o in (0, 1)] + [J('stress', 'viscous', 'harness_stress')]),
 'P08': dict(bounds=GASB + ', any Minf, Tinf, Reinf, Pr>0; any distinct cell centres; interior and boundary faces; any incoming contents of the accumulated blocks; every matrix entry (by parameter of the state)', quick=lambda:
   [J('jac-cv%d-b%d-c%d' % (c, b, k), 'viscous', 'harness_viscous_jacobian', 60, param={'cv': c, 'bnd': b, 'col': k}, tol=1e-5) for c in (0, 1) for b in (0, 1) for k in range(8)] +
   [J('jac-coded-b%d-c%d' % (b, k), 'viscous', 'harness_viscous_jacobian', 60, param={'cv': 0, 'bnd': b, 'col': k, 'exact': 0}, tol=1e-5) for b in (0, 1) for k in (3, 7)]),
})
def F(id, entry, budget=60, **p): p.setdefault('lazyabs', 1); return J(id, 'flow', entry, budget, param=p)
FB = MB + 'any flux function, any linearisation and any boundary condition (uninterpreted functions of the face states); '
P19 = lambda full: ([F('res-2x1', 'harness_residual', nx=2, ny=1), F('res-2x2', 'harness_residual', nx=2, ny=2, npat=3), F('res-visc', 'harness_residual', nx=2, ny=1, visc=1, sym=0, cv=0), F('res-visc-2x2', 'harness_residual', nx=2, ny=2, visc=1, sym=0, npat=1)] +
   [F('res2-%s' % n, 'harness_residual2', nx=2, ny=1, **k) for n, k in (('ls', {}), ('gg', dict(grad=1)), ('ls-visc', dict(visc=1)), ('none-visc-suth', dict(visc=1, grad=0, cv=0)))] + [F('res2-2x2', 'harness_residual2', nx=2, ny=2, npat=1)] +
   [F('fs-sym', 'harness_freestream', nx=1, ny=1), F('fs-2x1-inout', 'harness_freestream', nx=2, ny=1, sym=0, inout=1), F('fs-visc', 'harness_freestream', nx=2, ny=1, sym=0, visc=1)] +
   [F('fs2-%s' % n, 'harness_freestream', nx=2, ny=2, npat=3, sym=0, o2=1, **k) for n, k in (('ls', {}), ('gg-venk', dict(rec=4, grad=1)), ('weno-visc', dict(rec=1, visc=1, cv=0)), ('vanalbada', dict(rec=2)), ('barth', dict(rec=3)))] +
   [F('par-2x2', 'harness_parallel', nx=2, ny=2), F('par-2x2-visc-r3', 'harness_parallel', nx=2, ny=2, ranks=3, visc=1), F('par2-2x1', 'harness_parallel', nx=2, ny=1, o2=1), F('par2-1x1-visc', 'harness_parallel', nx=1, ny=1, o2=1, visc=1), F('par2-weno', 'harness_parallel', nx=2, ny=1, o2=1, rec=1, srec=1, grad=1)])
SPECS.update({
 'P19': dict(bounds=FB + '1x1, 2x1 and 2x2 grids, symbolic coordinates for first order and free stream on 1x1, fixed skewed coordinates otherwise; any cell states; viscous and inviscid, first and second order; free stream: any gamma, Mach number and angle of attack on all schemes of reconstruction; 1, 2 and 3 processes with contiguous numbering', assume=['MPI and PETSc vectors behave as documented (replaced by harness/petscmodel.cpp)'], quick=lambda: P19(False)),
 'P20': dict(bounds=MB + 'grids up to 2x2; any cell states or any face states, any gamma; inviscid, constant viscosity and Sutherland viscosity; any incoming contents of the output', quick=lambda:
   [F('dt-2x1', 'harness_timestep', nx=2, ny=1), F('dt-faces', 'harness_timestep', nx=2, ny=1, cells=0), F('dt-visc', 'harness_timestep', nx=2, ny=1, visc=1), F('dt-visc-suth', 'harness_timestep', nx=2, ny=1, visc=1, cv=0, symgas=1), F('dt-2x2', 'harness_timestep', nx=2, ny=2, npat=3), F('dt-res', 'harness_timestep_residual', nx=2, ny=1), F('dt-par', 'harness_parallel', nx=2, ny=1, dt=1)]),
 'P21': dict(bounds=FB + 'grids up to 2x2; every column of the matrix; matrix set-up with 1 and 4 unknowns per cell on up to 3 processes with any distribution of the cells of a 2x1 grid, pseudo-random ones of a 2x2 grid; derivative for polynomial fluxes and boundary conditions with exact linearisations and the real viscous flux with constant viscosity', assume=['PETSc matrices behave as documented (replaced by harness/petscmodel.cpp)'], quick=lambda:
   [F('deriv-2x1', 'harness_assembly_derivative', nx=2, ny=1), F('deriv-visc', 'harness_assembly_derivative', nx=2, ny=1, visc=1, npat=1), F('asm-2x1', 'harness_assembly', nx=2, ny=1), F('asm-2x2', 'harness_assembly', nx=2, ny=2, npat=1), F('asm-par-2x1', 'harness_assembly_parallel', nx=2, ny=1), F('asm-par-r3', 'harness_assembly_parallel', 120, nx=2, ny=2, ranks=3, npat=1)] +
   [M('matrix-%d' % r, 'harness_system_matrix', 60, 'partition', nx=2, ny=1, ranks=r, npat=1) for r in (1, 2, 3)] + [M('matrix-22', 'harness_system_matrix', 60, 'partition', nx=2, ny=2, ranks=3, own=1, npat=1)]),
})
for _p, _j in (('P12', [F('ghost-centres', 'harness_ghost_centres', nx=2, ny=1)]),):
    for _t in ('quick', 'thorough'): SPECS[_p][_t] = (lambda f, j: (lambda: f()+[dict(x) for x in j]))(SPECS[_p][_t], _j)
def R(id, entry, budget=60, fix={}, **p): return J(id, 'recon', entry, budget, param=p, fix=fix)
RC0 = dict(x0=0, y0=0, dx0=1, dy0=1, d1=0)
def p17(nx, ny, np): return [
   R('ls-linear', 'harness_gradients', nx=nx, ny=ny, scheme=2, ncut=3, npat=np), R('ls-scalar', 'harness_gradients', nx=nx, ny=ny, scheme=2, nv=1, npat=np), R('ls-anycentre', 'harness_gradients', nx=1, ny=1, scheme=2, symc=1), R('ls-any', 'harness_gradients_any', nx=nx, ny=ny, scheme=2, ncut=3, npat=np),
   R('zero', 'harness_gradients', nx=nx, ny=ny, scheme=0, npat=np), R('gg-constant', 'harness_gradients', nx=nx, ny=ny, scheme=1, fld=0, sym=1, ncut=3), R('gg-constant-scalar', 'harness_gradients', nx=nx, ny=ny, scheme=1, fld=0, nv=1), R('gg-rect', 'harness_gradients', nx=nx, ny=ny, scheme=1, rect=1), R('gg-rect22', 'harness_gradients', nx=2, ny=2, scheme=1, rect=1), R('gg-rect-cut', 'harness_gradients', nx=1, ny=2, scheme=1, rect=1, ncut=3),
   R('gg-any', 'harness_gradients_any', nx=nx, ny=ny, scheme=1, ncut=3, npat=np), R('gg-any-off', 'harness_gradients_any', nx=nx, ny=ny, scheme=1, ncut=3, npat=np, off=1), R('ls-any-off', 'harness_gradients_any', nx=nx, ny=ny, scheme=2, ncut=3, npat=0, off=1), R('gg-any-sym', 'harness_gradients_any', nx=1, ny=1, scheme=1, ncut=3, sym=1)]
def p18(full): return (
   [R('const-%d' % r, 'harness_recon_constant', nx=2, ny=1, rec=r, ncut=3, sym=int(r == 0)) for r in range(5)] + [R('linear-%d' % r, 'harness_recon_linear', nx=2, ny=1, rec=r, ncut=3, sym=int(r == 0)) for r in range(3)] + [R('own-cell', 'harness_recon_any', nx=2, ny=1, sym=1, ncut=3)] +
   [R('barth-quad-%d' % g, 'harness_recon_limited', 60, RC0, nx=1, ny=1, rec=3, split=0, rect=1, pat=0, focus=0, signs=g) for g in range(16)] +
   [R('barth-tri-%d-%d' % (f, g), 'harness_recon_limited', 200, dict(uc=0), nx=1, ny=1, rec=3, split=1, pat=f, focus=f, signs=g) for f, g in ([(0, 1), (1, 6)] if not full else [(f, g) for f in (0, 1) for g in range(8)])] +
   [R('venk-%d' % i, 'harness_recon_limited', 60, dict(RC0, K=k, dx0=w, thr=t, **({} if i else dict(uc=0))), nx=1, ny=1, rec=4, one=1, split=0, rect=1, pat=0, focus=0, bysign=0) for i, (k, w, t) in enumerate(((1, 1, .3536), (2, 1, 1.0001), (.5, 2, .3536), (.5, 1, .1251)))] +
   [dict(R('formula-%d%d' % (r, sp), 'harness_recon_limiter', 150 if not full else 600, rec=r, nx=1, ny=1, split=sp, npat=int(full), two=int(full or r == 3)), prove_ms=5000) for r in (3, 4) for sp in (0, 1)] +
   [dict(R('formula-2x1-%d' % r, 'harness_recon_limiter', 150 if not full else 900, rec=r, nx=2, ny=1, split=1, npat=0, ncut=3, two=int(full)), prove_ms=5000) for r in (3, 4)] + [dict(R('weno-any', 'harness_recon_weno', 100 if not full else 600, nx=2, ny=1, npat=int(full), ncut=3), prove_ms=5000), dict(R('weno-both', 'harness_recon_weno', 100, nx=1, ny=1, npat=1, both=1), prove_ms=5000)] +
   [dict(R('slope-%d-%d%d' % (sp, d, v), 'harness_recon_slope', 100, nx=1, ny=1, split=sp, pat=0, down=d, reversal=v, **({} if sp else dict(face=0))), prove_ms=20000) for sp in (0, 1) for d in (0, 1) for v in (0, 1)])
SPECS.update({
 'P17': dict(bounds=MB + 'grids up to 2x2; any linear and any constant field of 1 and 4 variables; any field against the defining sums (normal equations; Green-Gauss sum) with physical, internal and inter-process faces; symbolic vertices for Green-Gauss, symbolic spacings for rectangular grids, one neighbour centre anywhere for least squares; any incoming contents of the output', quick=lambda: p17(2, 1, 1), thorough=lambda: p17(2, 1, 3)+[R('ls-22', 'harness_gradients', 300, nx=2, ny=2, scheme=2, npat=2), R('ls-any-22', 'harness_gradients_any', 300, nx=2, ny=2, scheme=2, npat=1, ncut=3), R('gg-any-22', 'harness_gradients_any', 300, nx=2, ny=2, scheme=1, npat=1, ncut=3), R('gg-const-22', 'harness_gradients', 300, nx=2, ny=2, scheme=1, fld=0, sym=1)]),
 'P18': dict(bounds=MB + '1x1 and 2x1 grids, physical, internal and inter-process faces; any constant or linear field; any values and gradients for the unlimited scheme; Barth-Jespersen: a quadrangle with any neighbour values and any gradient along one axis, triangles with any neighbour values and gradients (thorough: every sign pattern of the neighbour differences); Venkatakrishnan: a rectangle with one differing neighbour, parameters 0.5, 1, 2; Van Albada: any two values and any gradient; both limiters against their defining functions: up to two differing neighbours, four gradient directions of any size, 1x1 and 2x1 grids of triangles and quadrangles; WENO against its defining average for any gradients', quick=lambda: p18(False), thorough=lambda: p18(True)),
})
def O(id, entry, budget=60, **p): p.setdefault('lazyabs', 1); k = {'wskip': p.pop('wskip')} if 'wskip' in p else {}; return J(id, 'ode', entry, budget, param=p, **k)
OB = 'any residual, time step and Jacobian function (uninterpreted functions of the states of a cell and its face neighbours); '
PET = 'PETSc vectors, ghost updates, matrices and reductions behave as documented (replaced by a model); '
SPECS.update({
 'P22': dict(bounds=OB + 'or any residual affine in the state; any state, direction, mass terms and difference step; zero vectors; grids up to 2x1 of triangles and quadrangles (thorough: 2x2); 1 and 4 unknowns per cell; 1 and 2 processes (thorough: 3)', assume=[PET + 'exact arithmetic: no cancellation'], quick=lambda:
   [O('any', 'harness_matfree', 100), O('affine', 'harness_matfree', 100, mode=1), O('affine-scalar', 'harness_matfree', nv=1, mode=1), O('zero', 'harness_matfree', zero=1), O('step-option', 'harness_matfree', opt=1, npat=0), O('any-2', 'harness_matfree', 100, ranks=2, npat=0), O('ghosted', 'harness_matfree', ranks=2, npat=0, xghost=1, nx=1)],
   thorough=lambda: [O('any-%d%d' % n, 'harness_matfree', 600, nx=n[0], ny=n[1]) for n in ((2, 1), (1, 2))] + [O('any-22', 'harness_matfree', 900, nx=2, ny=2, npat=0), O('any-22-scalar', 'harness_matfree', 900, nx=2, ny=2, npat=1, nv=1, mode=1), O('affine', 'harness_matfree', 300, mode=1, npat=3), O('affine-scalar', 'harness_matfree', nv=1, mode=1, npat=6), O('zero', 'harness_matfree', zero=1, npat=3), O('step-option', 'harness_matfree', opt=1), O('any-2', 'harness_matfree', 600, ranks=2), O('any-3', 'harness_matfree', 600, ranks=3, npat=0), O('ghosted', 'harness_matfree', ranks=2, npat=0, xghost=1)]),
 'P23': dict(bounds='any positive initial CFL and any final CFL not below it, any previous CFL in between, any positive residual ratio, the exponents used by the two solvers; linear ramps with start up to 3 and end up to 5 over 7 steps; relaxation: any gamma>1, any valid state, any update, any minimum in (0,1]', assume=['x^a is modelled by its monotonicity: x<1 gives x^a between x and 1, x>1 between 1 and x (0<a<1)'], quick=lambda:
   [O('cfl', 'harness_cfl'), O('linear', 'harness_linramp'), O('relaxation', 'harness_relaxation', 150, lazyabs=0), O('relaxation-config', 'harness_relaxation_config')]),
 'P24': dict(bounds=OB + 'any initial state, CFL number and positive time steps; one step with any time step, two and three with fixed ones; grids up to 2x1; orders 1 to 3; 1 and 4 unknowns (forward Euler); 1 and 2 processes (thorough: 3); stopping: any residuals over up to three steps (thorough: four), any tolerance in (0,1); convergence at exactly the last permitted step is left open', assume=[PET + 'exact arithmetic'], quick=lambda:
   [O('euler', 'harness_feuler', ranks=2), O('euler-scalar', 'harness_feuler', nv=1, ranks=2), O('euler-2', 'harness_feuler', nx=1, steps=2, ranks=2), O('rk1', 'harness_tvdrk', order=1, npat=0), O('rk2', 'harness_tvdrk', order=2, npat=0), O('rk3', 'harness_tvdrk', order=3, nx=1)] +
   [O('rk%d-par' % o, 'harness_tvdrk', order=o, npat=0, nx=1 + (o < 3), ranks=2) for o in (1, 2, 3)] + [O('rk%d-2' % o, 'harness_tvdrk', order=o, npat=0, nx=1, steps=2, ranks=2) for o in (1, 2, 3)] + [O('euler-stop', 'harness_converge', 100, wskip='CFL', nx=1, implicit=0, maxit=3, nv=1, split=1, pat=1), O('euler-stop-par', 'harness_converge', 100, wskip='CFL', nx=1, implicit=0, maxit=3, nv=1, split=1, pat=1, ranks=2), O('euler-stop-4', 'harness_converge', 100, wskip='CFL', nx=2, implicit=0, maxit=3, nv=4, split=1, pat=1)],
   thorough=lambda: [O('euler', 'harness_feuler', 300, ranks=2, npat=3), O('euler-r3', 'harness_feuler', 300, ranks=3, npat=0), O('euler-22', 'harness_feuler', 600, nx=2, ny=2, npat=0, ranks=2), O('euler-2', 'harness_feuler', 600, steps=2, ranks=2, npat=0), O('euler-3', 'harness_feuler', 600, nx=1, steps=3, ranks=2)] + [O('rk%d' % o, 'harness_tvdrk', 600, order=o, npat=1) for o in (1, 2)] + [O('rk3', 'harness_tvdrk', 600, order=3, nx=1, npat=5)] +
   [O('rk%d-par' % o, 'harness_tvdrk', 600, order=o, npat=1, nx=1 + (o < 3), ranks=2) for o in (1, 2, 3)] + [O('rk%d-3' % o, 'harness_tvdrk', 600, order=o, npat=0, nx=1, steps=3, ranks=2) for o in (1, 2, 3)] + [O('rk3-2x1', 'harness_tvdrk', 900, order=3, npat=0, nx=2, steps=2, ranks=3)] + [O('euler-stop', 'harness_converge', 100, wskip='CFL', nx=1, implicit=0, maxit=3, nv=1, split=1, pat=1), O('euler-stop-par', 'harness_converge', 100, wskip='CFL', nx=1, implicit=0, maxit=3, nv=1, split=1, pat=1, ranks=2), O('euler-stop-4', 'harness_converge', 100, wskip='CFL', nx=2, implicit=0, maxit=3, nv=4, split=1, pat=1)] + [O('euler-stop-4steps', 'harness_converge', 600, wskip='CFL', nx=1, implicit=0, maxit=4, nv=1, split=1, pat=1), O('euler-stop-par3', 'harness_converge', 600, wskip='CFL', nx=2, implicit=0, maxit=3, nv=1, split=1, pat=0, ranks=3), O('euler-stop-any', 'harness_converge', 600, wskip='CFL', nx=2, implicit=0, maxit=2, nv=4)]),
 'P31': dict(bounds=OB + 'any initial state, any linear-solver answer, any relaxation factor, any positive initial and final CFL; one and two steps; stopping: any residuals over up to three steps (thorough: four), any tolerance in (0,1); convergence at exactly the last permitted step is left open; grids up to 2x1 (thorough: 2x2); 1 and 4 unknowns; 1 and 2 processes (thorough: 3)', assume=[PET + 'the linear solver may return anything'], quick=lambda:
   [O('step', 'harness_beuler'), O('step-scalar', 'harness_beuler', nv=1), O('step-2', 'harness_beuler', steps=2, tmode=1, nx=1), O('par', 'harness_beuler', ranks=2, npat=1), O('par-scalar', 'harness_beuler', ranks=2, nv=1), O('par-2', 'harness_beuler', steps=2, nv=1, ranks=2, nx=1, npat=0, system=0), O('matrix-free', 'harness_beuler', mf=1, npat=0), O('matrix-free-2', 'harness_beuler', mf=1, nv=1, nx=1, steps=2, tmode=1, npat=0), O('matrix-free-par', 'harness_beuler', mf=1, nv=1, ranks=2, npat=0)] + [O('stop', 'harness_converge', 100, wskip='CFL', nx=1, implicit=1, maxit=3, nv=1, split=1, pat=1), O('stop-par', 'harness_converge', 100, wskip='CFL', nx=1, implicit=1, maxit=3, nv=1, split=1, pat=1, ranks=2), O('stop-4', 'harness_converge', 100, wskip='CFL', nx=2, implicit=1, maxit=3, nv=4, split=1, pat=1)],
   thorough=lambda: [O('step', 'harness_beuler', 300, npat=3), O('step-22', 'harness_beuler', 900, nx=2, ny=2, npat=0), O('step-22-scalar', 'harness_beuler', 600, nv=1, nx=2, ny=2, npat=1), O('step-2', 'harness_beuler', 600, steps=2, tmode=1), O('step-3', 'harness_beuler', 600, steps=3, tmode=1, nx=1), O('par', 'harness_beuler', 600, ranks=2, npat=3), O('par-3', 'harness_beuler', 600, ranks=3, npat=0), O('par-2', 'harness_beuler', 600, steps=2, nv=1, ranks=2, npat=0, system=0), O('matrix-free', 'harness_beuler', 600, mf=1), O('matrix-free-22', 'harness_beuler', 600, mf=1, nx=2, ny=2, npat=0), O('matrix-free-2', 'harness_beuler', 600, mf=1, nv=1, nx=2, steps=2, tmode=1), O('matrix-free-par', 'harness_beuler', 600, mf=1, ranks=2, npat=1)] + [O('stop', 'harness_converge', 100, wskip='CFL', nx=1, implicit=1, maxit=3, nv=1, split=1, pat=1), O('stop-par', 'harness_converge', 100, wskip='CFL', nx=1, implicit=1, maxit=3, nv=1, split=1, pat=1, ranks=2), O('stop-4', 'harness_converge', 100, wskip='CFL', nx=2, implicit=1, maxit=3, nv=4, split=1, pat=1)] + [O('stop-4steps', 'harness_converge', 600, wskip='CFL', nx=1, implicit=1, maxit=4, nv=1, split=1, pat=1), O('stop-par3', 'harness_converge', 600, wskip='CFL', nx=2, implicit=1, maxit=3, nv=1, split=1, pat=0, ranks=3), O('stop-any', 'harness_converge', 600, wskip='CFL', nx=2, implicit=1, maxit=2, nv=4)]),
})
def OMP(id, mod, entry, budget=60, **p):
    if mod != 'recon': p.setdefault('lazyabs', 1)
    return J(id, 'omp-'+mod, entry, budget, param=p, witnesses=1, only='iterations of')
def p30(nx, ny, np): return (
   [OMP('green-gauss', 'recon', 'harness_gradients_any', scheme=1, ncut=3, npat=np, nx=nx, ny=ny), OMP('least-squares', 'recon', 'harness_gradients_any', scheme=2, ncut=3, npat=np, nx=nx, ny=ny), OMP('zero-gradients', 'recon', 'harness_gradients', scheme=0, ncut=3, npat=np, nx=nx, ny=ny), OMP('green-gauss-4', 'recon', 'harness_gradients', scheme=1, fld=0, ncut=3, npat=np, nx=nx, ny=ny)] +
   [OMP('faces-%d' % r, 'recon', 'harness_recon_constant', nx=nx, ny=ny, rec=r, ncut=3, sym=0) for r in range(5)] +
   [OMP('residual', 'flow', 'harness_residual', nx=nx, ny=ny), OMP('residual-visc', 'flow', 'harness_residual', nx=nx, ny=ny, visc=1, sym=0, cv=0), OMP('residual2', 'flow', 'harness_residual2', nx=nx, ny=ny), OMP('residual2-visc', 'flow', 'harness_residual2', nx=nx, ny=ny, visc=1, cv=0), OMP('residual2-gg', 'flow', 'harness_residual2', nx=nx, ny=ny, grad=1, visc=1),
    OMP('timestep', 'flow', 'harness_timestep', nx=nx, ny=ny), OMP('timestep-visc', 'flow', 'harness_timestep', nx=nx, ny=ny, visc=1), OMP('timestep-visc-suth', 'flow', 'harness_timestep', nx=nx, ny=ny, visc=1, cv=0), OMP('assembly', 'flow', 'harness_assembly', nx=nx, ny=ny), OMP('residual-par', 'flow', 'harness_parallel', nx=nx, ny=ny, npat=0), OMP('diffusion', 'diffusion', 'harness_diffusion_residual', nx=nx, ny=ny), OMP('diffusion-assembly', 'diffusion', 'harness_diffusion_jacobian', nx=nx, ny=ny, sym=0), OMP('diffusion-gg', 'diffusion', 'harness_diffusion_residual', nx=nx, ny=ny, grad=1, ts=0),
    OMP('matrix-free', 'ode', 'harness_matfree', nx=nx, ny=ny, npat=0, nv=1, mode=1), OMP('matrix-free-4', 'ode', 'harness_matfree', nx=nx, ny=ny, npat=0), OMP('forward-euler', 'ode', 'harness_feuler', nx=nx, ny=ny), OMP('backward-euler', 'ode', 'harness_beuler', nx=nx, ny=ny), OMP('backward-euler-scalar', 'ode', 'harness_beuler', nx=nx, ny=ny, nv=1), OMP('runge-kutta', 'ode', 'harness_tvdrk', nx=nx, ny=ny, order=1, npat=0), OMP('runge-kutta-3', 'ode', 'harness_tvdrk', nx=1, order=3),
    OMP('entropy', 'output', 'harness_entropy', nx=nx, ny=ny, npat=0), OMP('lines', 'ordering', 'harness_lines', nx=nx, ny=ny, tensor=0), OMP('lines-31', 'ordering', 'harness_lines', nx=3, ny=1)])
SPECS.update({
 'P30': dict(bounds='every parallel region executed by the residual, gradient, reconstruction, limiter, time-step, Jacobian-assembly, matrix-free, explicit and implicit stepping, entropy-error and line-ordering code on the stated meshes (2x1 grids of triangles and quadrangles, physical, internal and inter-process faces; thorough: 2x2); every assignment of iterations to threads and every interleaving (each iteration of each loop is taken to run concurrently with all others up to the next barrier); any cell values on each path',
   assume=['race-free regions give the sequential result (OpenMP memory model)', 'atomic and reduction updates commute (exact arithmetic)', 'clang and gcc lower the same pragmas to the same regions', 'stub fluxes, boundary conditions and linearisations (P19, P21) share nothing'], quick=lambda: p30(2, 1, 1), thorough=lambda: p30(2, 2, 1)),
})
def C(id, entry, budget=60, **p): return J(id, 'containers', entry, budget, param=p, max_paths=400000)
def p28(full): return ([C('layout', 'harness_layout'), C('prefix-sum', 'harness_prefix_sum'), C('int-1', 'harness_history_int', steps=1), C('real-1-22', 'harness_history_real', steps=1, br=2, bc=2), C('real-1-01', 'harness_history_real', steps=1, br=0, bc=1)] +
   [C('real-2-op%d' % f, 'harness_history_real', steps=2, first=f) for f in range(1, 9)] + [C('real-2-resize%d%d' % (r, c), 'harness_history_real', 150, steps=2, first=0, nr0=r, nc0=c) for r in range(3) for c in (1, 2)] +
   [C('int-2-op%d' % f, 'harness_history_int', steps=2, first=f) for f in (range(1, 9) if full else (1, 8))] + ([C('int-2-resize%d%d' % (r, c), 'harness_history_int', 300, steps=2, first=0, nr0=r, nc0=c) for r in range(3) for c in (1, 2)] + [C('real-3-op%d%d' % (f, g), 'harness_history_real', 300, steps=3, first=f, op1=g) for f in range(2, 9) for g in range(9)] if full else []))
def D(id, entry, budget=60, **p): return J(id, 'diffusion', entry, budget, param=p)
SPECS.update({
 'P28': dict(bounds='every history of 2 (thorough: also 3) operations (resize to any shape up to 2x2, copy assignment either way, self-assignment, copy and move construction, zeros, ones, setdata), each followed by a write to any entry through any accessor, on two arrays of real or integer entries with any contents; all shapes up to 3x4; prefix sums of up to 6 integers', assume=['arrays of real and integer entries stand for the others'], quick=lambda: p28(False), thorough=lambda: p28(True)),
 'P29': dict(bounds='2x1 and 2x2 grids of quadrangles and triangles (each cell kept or split) in natural numbering and six special meshes (thorough: shuffled numberings and 3x2 grids); any cell values, diffusivity, boundary value and source function; all three gradient schemes; partitions of the 2x2 grid into 2 and 3 parts', assume=['the gradient schemes themselves are P17', 'exact real arithmetic'],
   quick=lambda: [D('points', 'harness_scalar_points', nx=2, ny=1, sym=1), D('points-special', 'harness_scalar_points', nx=0, sym=1), D('residual', 'harness_diffusion_residual', nx=2, ny=2, npat=0, grad=0), D('residual-ls', 'harness_diffusion_residual', nx=2, ny=2, npat=0, grad=2), D('residual-gg', 'harness_diffusion_residual', grad=1, ts=0), D('residual-shuffled', 'harness_diffusion_residual', npat=3, grad=2), D('residual-special', 'harness_diffusion_residual', nx=0), D('gradients-gg', 'harness_diffusion_gradients', grad=1), D('gradients-ls', 'harness_diffusion_gradients', grad=2),
     D('linear', 'harness_diffusion_linear', nx=2, ny=2, npat=0), D('linear-special', 'harness_diffusion_linear', nx=0), D('operator', 'harness_diffusion_jacobian', nx=2, ny=2, sym=0), D('operator-special', 'harness_diffusion_jacobian', nx=0, sym=0), D('operator-boundary', 'harness_diffusion_jacobian', nx=2, ny=2, sym=0, boundary=1), D('operator-boundary-special', 'harness_diffusion_jacobian', nx=0, sym=0, boundary=1),
     D('processes-2', 'harness_diffusion_parallel', nx=2, ny=2, ranks=2, grad=1, npat=0), D('processes-3', 'harness_diffusion_parallel', nx=2, ny=2, ranks=3, grad=0, npat=0)],
   thorough=lambda: [D('points', 'harness_scalar_points', 300, nx=2, ny=2, sym=1, npat=3), D('points-special', 'harness_scalar_points', nx=0, sym=1)] + [D('residual-%s%d%d' % (GRN[gr], nx, ny), 'harness_diffusion_residual', 600, nx=nx, ny=ny, npat=np, grad=gr) for gr in range(3) for nx, ny, np in ((2, 2, 2), (3, 2, 0))] + [D('residual-any-coordinates', 'harness_diffusion_residual', 600, nx=1, ny=1, sym=1)] + [D('residual-special-'+GRN[gr], 'harness_diffusion_residual', 300, nx=0, grad=gr) for gr in range(3)] + [D('gradients-'+GRN[gr], 'harness_diffusion_gradients', 300, nx=2, ny=2, grad=gr) for gr in (1, 2)] + [D('linear', 'harness_diffusion_linear', 300, nx=2, ny=2, npat=3), D('linear-special', 'harness_diffusion_linear', nx=0)] + [D('operator%s-%d%d' % (('', '-boundary')[bd], nx, ny), 'harness_diffusion_jacobian', 600, nx=nx, ny=ny, sym=0, npat=np, boundary=bd) for bd in (0, 1) for nx, ny, np in ((2, 2, 1), (3, 1, 2), (0, 0, 0))] + [D('processes-%d-%s' % (r, GRN[gr]), 'harness_diffusion_parallel', 600, nx=2, ny=2, ranks=r, grad=gr, npat=1) for r in (2, 3) for gr in range(3)]),
})
GRN = ('none', 'gg', 'ls')
def Q(id, entry, budget=60, **p): return J(id, 'ordering', 'harness_'+entry, budget, param=p, prove_ms=10000)
def p14(full): 
    r = [Q('levels', 'levels'), Q('levels-hybrid', 'levels', nsplit=1, allperms=0), Q('levels-33', 'levels', nx=3, ny=3, allperms=0, npat=30), Q('levels-51', 'levels', nx=5, ny=1, allperms=5), Q('levels-special', 'levels', nx=0)]
    r += [Q('lines-31', 'lines', nx=3, ny=1), Q('lines-22', 'lines', 100, nx=2, ny=2), Q('lines-special', 'lines', nx=0), Q('lines-32', 'lines', 100, nx=3, ny=2, renumber=0), Q('lines-32-shuffled', 'lines', nx=3, ny=2, allperms=0, tensor=0), Q('lines-43-shuffled', 'lines', nx=4, ny=3, allperms=0, tensor=0), Q('lines-hybrid-21', 'lines', nx=2, ny=1, nsplit=1, tensor=0), Q('line-reorder', 'line_reorder', nx=3, ny=1), Q('line-reorder-special', 'line_reorder', nx=0)]
    r += [Q('graph-31', 'line_graph', nx=3, ny=1), Q('graph-22-1', 'line_graph', nx=2, ny=2, lines=1), Q('graph-22', 'line_graph', nx=2, ny=2, renumber=0), Q('hybrid-31', 'hybrid', nx=3, ny=1), Q('hybrid-22', 'hybrid', nx=2, ny=2, renumber=0, mesh=1), Q('hybrid-natural', 'hybrid', nx=3, ny=2, allperms=0, tensor=0, natural=1, mesh=1)]
    r += [Q('preprocess-%d' % o, 'preprocess', order=o) for o in range(6)] + [Q('preprocess-no-threshold-%d' % o, 'preprocess', order=o, threshold=0) for o in (3, 5)]
    if full: r += [Q('levels-hybrid-any', 'levels', 300, nsplit=1, allperms=6, nx=2, ny=1), Q('levels-42', 'levels', 300, nx=4, ny=2, nsplit=0, allperms=0, npat=200), Q('lines-hybrid-22', 'lines', 300, nx=2, ny=2, nsplit=1, tensor=0, renumber=0), Q('lines-41', 'lines', 300, nx=4, ny=1, allperms=4), Q('lines-23', 'lines', 600, nx=2, ny=3, renumber=0), Q('graph-22-2', 'line_graph', 600, nx=2, ny=2), Q('graph-32', 'line_graph', 600, nx=3, ny=2, allperms=0, lines=2), Q('hybrid-22-any', 'hybrid', 600, nx=2, ny=2, mesh=1)]
    return r
SPECS.update({
 'P34': dict(bounds='any two of: grids of 2x1, 1x2 and 1x1 with every splitting, 2x1 with a shuffled numbering, a special mesh; of two like meshes: any markers of one tag in 0 to 3, any displacement up to 0.1 of any one point, any one cell with its corners rotated; one or two tags per boundary face (thorough: the like meshes with every splitting)', assume=['single process; connectivity faces are not compared'], quick=lambda:
   [Q('kinds', 'compare', 100, values=0), Q('tags', 'compare', 100, values=0, tags=1, a=0, b=3, **{'split-a': 1})] + [Q('values-%d' % k, 'compare', 100, a=0, b=0, rotate=0, moved=2+k, **{'split-a': k, 'split-b': k}) for k in (0, 1, 3)] + [Q('rotated-%d' % k, 'compare', 100, a=0, b=0, markers=1, move=0, **{'split-a': k, 'split-b': k}) for k in (0, 5)],
   thorough=lambda: [Q('kinds', 'compare', 100, values=0)] + [Q('tags-%d' % k, 'compare', 300, values=0, tags=1, a=0, b=3, **{'split-a': k}) for k in range(9)] + [Q('values-%d' % k, 'compare', 600, a=0, b=0, rotate=0, **{'split-a': k, 'split-b': k}) for k in range(9)] + [Q('rotated-%d' % k, 'compare', 600, a=0, b=0, markers=1, **{'split-a': k, 'split-b': k}) for k in range(9)]),
 'P14': dict(bounds='grids up to 3x1 and 2x2 of quadrangles with every numbering of the cells (levels up to 5x1), up to 4x3 and hybrid 2x2 with shuffled numberings, six special meshes; any spacings of the columns and rows between 2e-3 and 2e3 (hybrid and larger grids: one skewed geometry) and any anisotropy threshold from 0.5 to 1e4; any set of up to 2 lines in the graph construction; any permutation coming back from PETSc', assume=['single process (documented: -mesh_reorder works only there)', 'MatGetOrdering returns a permutation', 'DiffusionMA assembly: P29'], quick=lambda: p14(False), thorough=lambda: p14(True)),
})
def IO(id, entry, budget=100, **p): return J(id, 'meshio', entry, budget, param=p)
def U(id, entry, budget=100, **p): return J(id, 'output', entry, budget, param=p)
def p25(full):
    js = [U('convert', 'harness_convert', nx=2, ny=1), IO('gmsh', 'harness_gmsh'), IO('gmsh-quadratic', 'harness_gmsh', quadratic=1), IO('gmsh-differ', 'harness_gmsh', differ=1), IO('su2', 'harness_su2'), IO('su2-11', 'harness_su2', maxnb=1, maxne=1, np=11, name=1), IO('roundtrip', 'harness_roundtrip'), IO('roundtrip-quadratic', 'harness_roundtrip', quadratic=1), IO('roundtrip-11', 'harness_roundtrip', np=11, maxnb=1, maxne=1)]
    js += [IO('name-%d' % n, 'harness_gmsh', name=n, maxnb=1, maxne=1, blank=1) for n in (1, 2, 3)] + [IO('su2-name-2', 'harness_su2', name=2, maxnb=1, maxne=1)]
    if full: js += [IO('gmsh-33', 'harness_gmsh', 600, maxnb=3, maxne=3), IO('gmsh-q33', 'harness_gmsh', 600, maxnb=3, maxne=3, quadratic=1), IO('gmsh-differ-3', 'harness_gmsh', 600, maxnb=1, maxne=3, differ=1), IO('su2-33', 'harness_su2', 600, maxnb=3, maxne=3, np=11), IO('roundtrip-33', 'harness_roundtrip', 600, maxnb=3, maxne=3), IO('roundtrip-q33', 'harness_roundtrip', 600, maxnb=3, maxne=3, quadratic=1)]
    return js
def p26(full):
    js = [U('nodal-2x1', 'harness_nodal', lazyabs=1), U('nodal-special', 'harness_nodal', lazyabs=1, nx=0), U('nodal-constant', 'harness_nodal_constant', nx=1), U('cells-2x1', 'harness_cellwise'), U('entropy', 'harness_entropy'), U('entropy-r2', 'harness_entropy', ranks=2), U('entropy-r3', 'harness_entropy', ranks=3, npat=0), U('surface-1x1', 'harness_surface', nx=1, sym=1), U('surface-2x1', 'harness_surface'), U('surface-tags', 'harness_surface', nx=1, tags=1), U('surface-special', 'harness_surface', nx=0), U('surface-r2', 'harness_surface', ranks=2), U('surface-cv', 'harness_surface', nx=1, cv=1), U('surface-cv-r2', 'harness_surface', ranks=2, cv=1, sym=0),
      U('surface-file', 'harness_surface_file'), U('surface-file-1x1', 'harness_surface_file', nx=1, sym=1), U('volume-file', 'harness_volume_file', nx=1), U('volume-file-2x1', 'harness_volume_file', sym=0), U('vtu', 'harness_vtu'), U('scalar-nodal', 'harness_scalar_nodal', sym=1), U('scalar-nodal-special', 'harness_scalar_nodal', nx=0)]
    if full: js += [U('nodal-2x2', 'harness_nodal', 600, lazyabs=1, ny=2), U('cells-2x2', 'harness_cellwise', 300, ny=2), U('surface-2x2', 'harness_surface', 300, ny=2), U('surface-2x2-r3', 'harness_surface', 600, ny=2, ranks=3, npat=0), U('surface-2x1-sym', 'harness_surface', 600, sym=1), U('surface-2x1-tags', 'harness_surface', 600, tags=1), U('surface-file-2x2', 'harness_surface_file', 300, ny=2), U('volume-file-2x1-sym', 'harness_volume_file', 600), U('vtu-3', 'harness_vtu', 600, maxne=3, np=4), U('entropy-2x2-r3', 'harness_entropy', 600, ny=2, ranks=3, npat=0)]
    return js
SPECS.update({
 'P25': dict(bounds='Gmsh files and UMesh objects with up to 2 (thorough: 3) boundary faces and 1 to 2 (3) cells of every mixture of triangles and quadrangles, linear or quadratic (3/4 or 6/8/9 nodes), 0 to 3 tags per entity (also different numbers in one file), 3 or 11 points; SU2 files with 1 to 3 markers, any distribution of the faces over them, positive, negative and multi-digit markers, with and without comments and blanks; node numbers, tags and coordinates symbolic; several file names', assume=['file streams are replaced by harness/se_io.hpp: a file is a sequence of characters and of numbers, a number written with at least 17 digits is read back unchanged', 'the file is well formed: faces before cells, as Gmsh writes them'], quick=lambda: p25(False), thorough=lambda: p25(True)),
 'P26': dict(bounds='flow post-processing on all splits and two numberings of 1x1 and 2x1 grids (thorough: 2x2) and on the special meshes; any gas, free stream, angle of attack between -1.5 and 1.5, any cell states with positive density and sound speed, any cell gradients (surface functionals); any assignment of markers to faces (1x1); 1 to 3 processes; VTU files of any mesh of 1 to 2 (3) cells with 3, 4, 6, 8 or 9 nodes and any data', assume=['file streams are replaced by harness/se_io.hpp; rounding to the number of digits written is not modelled beyond requiring at least 6 digits', 'MPI and PETSc behave as documented (replaced by harness/petscmodel.cpp)', 'skin friction uses the Sutherland viscosity, as the code documents'], quick=lambda: p26(False), thorough=lambda: p26(True)),
})
def K(id, entry, budget=60, **p): return J(id, 'config', 'harness_'+entry, budget, param=p)
def p27(full):
    r = [K(e.replace('_', '-'), e) for e in ('typemap', 'flow_conditions', 'pseudotime', 'time', 'output_lists', 'boundaries', 'overrides', 'missing', 'petsc_options', 'petsc_strings', 'petsc_arrays', 'fluxes', 'schemes', 'update')]
    r += [J('limiter', 'config', 'harness_limiter', 60, witnesses=0), K('spatial-flux', 'spatial', grad=1, lim=0, lpar=0), K('spatial-scheme', 'spatial', flux=0, spelling=1, jac=0, sp=1), K('discretisation', 'discretisation', 120)]
    if full: r += [K('spatial-all', 'spatial', 800, sp=2)]
    return r
def X(id, entry, budget=100, **p): return J(id, 'cases', 'harness_'+entry, budget, param=p)
def p32(full):
    r = [X('initial', 'initial'), X('initial-r2', 'initial', ranks=2), X('initial-r3', 'initial', ranks=3, ny=2), X('mesh', 'mesh'), X('steady-euler', 'steady', mf=0, cv=0), X('steady-mf', 'steady', mf=1, cv=1), X('unsteady', 'unsteady')] + [X('output-%d' % w, 'run_output', walls=w) for w in (0, 1, 2)] + [X('output-one-cell', 'run_output', walls=1, nx=1, split=0)]
    if full: r += [X('steady-all', 'steady', 300), X('output-2x2', 'run_output', 600, ny=2)]
    return r
SPECS.update({
 'P27': dict(bounds='control files whose every number is symbolic (values below 1e6 in magnitude), every documented name of a scheme, boundary condition or integrator in three spellings, every presence of the optional entries, up to three boundary conditions of up to three values each, up to three output markers; option arrays of up to four entries and strings of up to five characters',
   assume=['the INFO reader, the command-line parser and string streams are replaced by a table of entries with the same interface (boost and libstdc++ internals are not checked)', 'options database of PETSc as modelled in petscmodel'],
   quick=lambda: p27(False), thorough=lambda: p27(True)),
 'P32': dict(bounds='a grid of 3 cells (thorough: 2x2 squares) with symbolic state, gas and settings; up to three processes for the initial state; every combination of starter, explicit or implicit, matrix-free, viscosity law, order, update scheme, history, outcome of the starter and of the main solve; up to two wall markers',
   assume=['the pseudo-time and time solvers, file writers and mesh reader are replaced by recording stand-ins that return, fail to converge or diverge as chosen (their own behaviour: P21, P22, P24-P26)'],
   quick=lambda: p32(False), thorough=lambda: p32(True)),
})
def jobs(prop, tier):
    s = SPECS[prop]; j = s['quick']()
    if tier == 'thorough':
        if 'thorough' in s: j = s['thorough']()
        for x in j: x['budget'] = max(x['budget'], 300); x['prove_ms'] = 60000; x['branch_ms'] = 5000; x['witnesses'] = x.get('witnesses', 2) and max(6*(x.get('witnesses', 2) > 1), 1)
    return j
NOT_APPLICABLE = {}
