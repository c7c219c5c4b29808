# which harness entries decide which property, within which bounds
ASSUMPTIONS = ['x86-64 Linux, LP64, serial parallel_for (no OpenMP/Kokkos/CUDA)', 'clang 18 -O1 code generation of the sources is the code that is verified',
 'malloc never fails; zlib round-trips; MPI follows the model in env/mpi_sim.cpp; file system is in memory',
 'doubles produced by osym_fint are integer valued (scaled), for which arithmetic is exact; signed zeros are then identified']
CHECKS = {}
def C(id, runs, **kw): CHECKS[id] = dict(runs=runs, **kw)
def R(h, e, p=None, tp=None, **kw): return dict(h=h, e=e, p=p or {}, tp=tp or {}, **kw)
C('C01', [R('h_sort', 'sort_lo', {'N': 3}, {'N': 4}), R('h_sort', 'sort_go', {'N': 3}, {'N': 4}), R('h_sort', 'sort_long', {'N': 5}, {'N': 7}), R('h_sort', 'sort_big', {'N': 20, 'F': 4}, {'N': 33, 'F': 6}), R('h_sort', 'sort_small', {'N': 3}, {'N': 4})],
  bounds='arbitrary 32 and 64 bit keys, 1 to 3 integers per key, up to N keys; 20 keys of which F are free')
C('C02', [R('h_map', 'map_invert', {'NA': 4, 'NB': 3}, {'NA': 5, 'NB': 4}), R('h_map', 'map_funnel', {'NA': 4, 'D': 2}, {'NA': 5, 'D': 3}), R('h_map', 'map_marks', {'N': 5}, {'N': 8}), R('h_map', 'map_scan32', {'N': 5}, {'N': 7}),
  R('h_map', 'map_move_i8'), R('h_map', 'map_move_i32'), R('h_map', 'map_move_i64', {'NA': 2}, {'NA': 4, 'NB': 4}), R('h_map', 'map_range'), R('h_map', 'map_expand'), R('h_map', 'map_compose'), R('h_map', 'map_reduce', {'D': 2}, {'D': 3})], par=8)
C('C03', [R('h_array', 'arr_each_i8', {}, {'N': 3}), R('h_array', 'arr_each_i32', {}, {'N': 3}), R('h_array', 'arr_each_i64', {}, {'N': 3}), R('h_array', 'arr_each_real', {}, {'N': 3}), R('h_array', 'arr_mul', {'N': 2}), R('h_array', 'arr_mul_real'), R('h_array', 'arr_bytes', {}, {'N': 5}),
  R('h_array', 'arr_red_i8'), R('h_array', 'arr_red_i32'), R('h_array', 'arr_red_i64'), R('h_array', 'arr_red_real'), R('h_array', 'arr_comps', {}, {'N': 3}), R('h_array', 'arr_coalesce'), R('h_array', 'arr_build')], par=8)
C('C05', [R('h_alloc', 'alloc_history', {'N': 4}, {'N': 4, 'S': 3}), R('h_alloc', 'alloc_tracked', {'N': 3}, {'N': 4}), R('h_alloc', 'alloc_pooled', {'N': 3}, {'N': 4}), R('h_alloc', 'alloc_ops')], par=4)
C('C06', [R('h_alloc', 'pool_history', {'N': 4, 'MAX': 4}, {'N': 5, 'MAX': 5}), R('h_alloc', 'pool_reuse'), R('h_alloc', 'pool_global')], par=3)
C('C04', [R('h_repro', 'int128_ops'), R('h_repro', 'int128_shift'), R('h_repro', 'int128_double'), R('h_repro', 'repro_order', {'N': 3, 'SPREAD': 1}, {'N': 3, 'SPREAD': 3}, o=['--fork-sel']), R('h_repro', 'repro_accuracy'), R('h_repro', 'repro_small'), R('h_repro', 'repro_split', {'R': 2, 'N': 2}, {'R': 3, 'N': 3})], par=7)
C('C07', [R('h_repro', 'linpart_sizes', {}, {'P': 16, 'T': 100}), R('h_repro', 'linpart_owner', {'P': 4, 'T': 12}, {'P': 7, 'T': 40}), R('h_repro', 'linpart_dist', {}, {'G': 5})], par=3)
C('C09', [R('h_tables', 'align_group2'), R('h_tables', 'align_group3'), R('h_tables', 'align_group4'), R('h_tables', 'align_pack'), R('h_tables', 'align_canon2', o=['--fork-sel']), R('h_tables', 'align_canon3', o=['--fork-sel']), R('h_tables', 'align_canon4', o=['--fork-sel']), R('h_tables', 'align_canon3g', o=['--fork-sel']), R('h_tables', 'align_same2', o=['--fork-sel']), R('h_tables', 'align_same3', o=['--fork-sel']), R('h_tables', 'align_same4', o=['--fork-sel'])], par=8)
C('C10', [R('h_tables', 'tmpl_down'), R('h_tables', 'tmpl_compose'), R('h_tables', 'tmpl_up'), R('h_tables', 'tmpl_opposite'), R('h_tables', 'tmpl_orient'), R('h_tables', 'tmpl_outside'), R('h_tables', 'tmpl_split')], par=7)
C('C17', [R('h_file', 'file_i8', {}, {'N': 6}), R('h_file', 'file_i32', {}, {'N': 5}), R('h_file', 'file_i64', {}, {'N': 4}), R('h_file', 'file_real', {}, {'N': 4}), R('h_file', 'file_stream'), R('h_file', 'file_path'), R('h_file', 'file_parts'), R('h_file', 'file_parts', {'CUBE': 1}, name='file_parts_cube')], par=8,
  bounds='arrays of up to N values of every stored type with every bit pattern, compressed or not, both byte orders; six small meshes of every dimension and family with every value of every tag, classification, set, hint and parent; two ranks with a 2x1 box')
C('C22', [R('h_rbtree', 'rb_order', {'N': 4}, {'N': 6}, o=['--fork-sel']), R('h_rbtree', 'rb_erase', {'N': 8, 'D': 3}, {'N': 9, 'D': 5}), R('h_rbtree', 'rb_history', {'S': 2}, {'S': 3}), R('h_rbtree', 'rb_copy')], par=4)
C('C33', [R('h_rand', 'philox_inverse'), R('h_rand', 'philox_known'), R('h_rand', 'stream_seek'), R('h_rand', 'unit_range'), R('h_rand', 'unit_monotone'), R('h_rand', 'globals_random'), R('h_rand', 'normal_draws', o=['--no-fork-fp'])], par=7)
C('C27', [R('h_hilbert', 'hil_inverse', {'B': 4}, {'B': 12}), R('h_hilbert', 'hil_untranspose', {}, {'B': 52}), R('h_hilbert', 'hil_adjacent', {'B2': 3, 'B3': 2}, {'B2': 5, 'B3': 3}), R('h_hilbert', 'hil_prefix', {'B': 4}, {'B': 8}), R('h_hilbert', 'hil_spatial1'), R('h_hilbert', 'hil_spatial2'), R('h_hilbert', 'hil_spatial3', {'NB': 2}, {'NB': 3}), R('h_hilbert', 'hil_sort')], par=8)
C('C28', [R('h_linalg', 'la_products%s' % s) for s in ('111', '222', '333', '231', '312')] + [R('h_linalg', 'la_det'), R('h_linalg', 'la_inverse1'), R('h_linalg', 'la_inverse2', {'R': 4}, {'R': 8}), R('h_linalg', 'la_inverse3', {'FREE': 5}, {'FREE': 6}, t=200), R('h_linalg', 'la_cross')] +
  [R('h_linalg', 'la_symm%d' % d) for d in (1, 2, 3)] + [R('h_linalg', 'la_resize'), R('h_linalg', 'la_sort2'), R('h_linalg', 'la_sort3'), R('h_linalg', 'la_offdiag'), R('h_linalg', 'la_triangular')], par=8,
  bounds='integer matrix and vector entries up to 9 (99, 999 for data movement), inverses for determinants +-1, 2, 4, 8')
C('C29', [R('h_linalg', '%s%d' % (s, d)) for s in ('bb_points', 'bb_unite', 'bb_unit', 'aff_inverse') for d in (1, 2, 3)], par=8, bounds='up to 3 points with arbitrary finite coordinates; integer valued boxes; affine maps with diagonal power of two or unimodular shear parts')
C('C08', [R('h_adj', 'adj_edges', {'E': 3, 'V': 3}, {'E': 3, 'V': 4}), R('h_adj', 'adj_tris', {'F': 1}, {'F': 0}), R('h_adj', 'adj_tets', {'F': 1}), R('h_adj', 'adj_quads'), R('h_adj', 'adj_hexes', {}, {'RELABEL': 1})], par=5)
C('C39', [R('h_box', 'grid_1', {}, {'K': 8}), R('h_box', 'grid_quads', {'K': 3}, {'K': 4}), R('h_box', 'grid_tris', {'K': 3}, {'K': 4}), R('h_box', 'grid_tris', {'K': 2, 'SYM': 1}, name='grid_tris_sym'), R('h_box', 'grid_hexes', {}, {'K': 3}), R('h_box', 'grid_tets'), R('h_box', 'grid_tets', {'SYM': 1, 'K': 1}, name='grid_tets_sym'), R('h_box', 'box_1'), R('h_box', 'box_2', {}, {'K': 3, 'ADJ': 1}), R('h_box', 'box_3', {'S': 1}, {'ADJ': 1})], par=4)
C('C30', [R('h_tags', 'tag_history', {'S': 2}, {'S': 3}), R('h_tags', 'tag_copies'), R('h_tags', 'tag_refused'), R('h_tags', 'tag_caches'), R('h_tags', 'tag_caches_fresh', {}, {'STEPS': 3})], par=4)
C('C31', [R('h_class', 'class_exposure'), R('h_class', 'class_project_verts2', o=['--fork-sel']), R('h_class', 'class_project_verts2', {'PRE': 1}, {'MESH': 1, 'PRE': 1}, name='class_project_pre', o=['--fork-sel']), R('h_class', 'class_project_edges2'), R('h_class', 'class_project_faces3'), R('h_class', 'class_project_edges3'), R('h_class', 'class_project_verts1'), R('h_class', 'class_finalize', {'MESH': 0}), R('h_class', 'class_finalize', {'MESH': 2}, {'MESH': 1}, name='class_finalize3'), R('h_class', 'class_noids'), R('h_class', 'class_equal2'), R('h_class', 'class_equal3', {'K': 1}, {'K': 2}), R('h_class', 'class_marks', {'MESH': 4, 'C': 1}), R('h_class', 'class_marks', {'MESH': 0, 'C': 2}, {'MESH': 2, 'C': 3}, name='class_marks2'), R('h_class', 'class_adj', {'HI': 0}, {'HI': 4}), R('h_class', 'class_angles')], par=8)
C('C12', [R('h_comm', 'dist_i32', {'W': 2}, {'W': 2, 'ITEMS': 3}), R('h_comm', 'dist_i64', {'ITEMS': 1}), R('h_comm', 'dist_real', {'ITEMS': 1}), R('h_comm', 'dist_p3', {'ITEMS': 1, 'SLOTS': 1}, {'ITEMS': 2, 'SLOTS': 1}), R('h_comm', 'dist_reduce'), R('h_comm', 'dist_fanout', {'SLOTS': 1}, {'SLOTS': 2}), R('h_comm', 'dist_globals', {'SLOTS': 1}), R('h_comm', 'dist_change'), R('h_comm', 'dist_variable')], par=4)
C('C13', [R('h_comm', 'comm_coll', {'SCHED': 2, 'ORDER': 1}, {'P': 3, 'SCHED': 3, 'ORDER': 2}), R('h_comm', 'comm_logic', {'SCHED': 1}, {'P': 3, 'SCHED': 2}), R('h_comm', 'comm_neigh', {'SCHED': 2, 'PROBE': 1}, {'SCHED': 5, 'PROBE': 2}), R('h_comm', 'comm_neigh', {'P': 3, 'LEN': 1, 'W': 1}, {'P': 3, 'LEN': 1, 'SCHED': 1, 'PROBE': 2}, name='comm_neigh3'), R('h_comm', 'comm_neigh_t', {'LEN': 1}), R('h_comm', 'comm_split', {}, {'SCHED': 2}), R('h_comm', 'comm_sendrecv', {'SCHED': 4}, {'SCHED': 8})], par=4)
C('C14', [R('h_comm', 'fut_exchange', {'SCHED': 1, 'POLLS': 1, 'ITEMS': 1}, {'SCHED': 3, 'POLLS': 2, 'ITEMS': 1}), R('h_comm', 'fut_once', {'SCHED': 4}, {'P': 3, 'SCHED': 6}), R('h_comm', 'fut_ready')], par=3)
C('C15', [R('h_owners', 'own_globals', {'SCHED': 2}, {'P': 3, 'N': 2, 'NG': 4}), R('h_owners', 'own_globals', {'P': 3, 'NG': 2}, name='own_globals3'), R('h_owners', 'own_edges', {}, {'P': 3}), R('h_owners', 'own_two', {'P': 3}, {'P': 3, 'SCHED': 2}), R('h_owners', 'own_fan', {}, {'P': 3}), R('h_owners', 'own_tets')], par=4)
C('C11', [R('h_indset', 'ind_graph', {'N': 3}, {'N': 4}), R('h_indset', 'ind_graph', {'N': 4, 'Q': 0}, name='ind_graph4'), R('h_indset', 'ind_mesh', {'Q': 1}), R('h_indset', 'ind_mesh', {'Q': 1, 'LO': 4, 'HI': 4}, name='ind_mesh1d'), R('h_indset', 'ind_mesh', {'Q': 1, 'LO': 1, 'HI': 3, 'IDS': 0}, thorough_only=True, name='ind_mesh_more'), R('h_indset', 'ind_chain'), R('h_indset', 'ind_two', {'DIM': 1}), R('h_indset', 'ind_fan')], par=4)
C('C16', [R('h_migrate', 'mig_moves', {'SHAPE': 0}, {'SHAPE': 0, 'P': 3}, name='mig_chain'), R('h_migrate', 'mig_moves', {'SHAPE': 1, 'STEPS': 2}, {'SHAPE': 1, 'STEPS': 2, 'P': 3}, name='mig_two'), R('h_migrate', 'mig_moves', {'SHAPE': 2, 'OPHI': 3}, {'SHAPE': 2}, name='mig_fan'), R('h_migrate', 'mig_moves', {'SHAPE': 3, 'STEPS': 3, 'OPHI': 3, 'SPREAD': 0, 'P': 3}, {'SHAPE': 3, 'STEPS': 2, 'OPHI': 3}, name='mig_strip'), R('h_migrate', 'mig_moves', {'SHAPE': 4}, {'SHAPE': 4, 'P': 3, 'STEPS': 2}, name='mig_tets'), R('h_migrate', 'mig_moves', {'SHAPE': 5}, {'SHAPE': 5, 'STEPS': 2, 'OPHI': 3}, name='mig_quads'), R('h_migrate', 'mig_moves', {'SHAPE': 6}, name='mig_hexes')], par=4)
C('C23', [R('h_refine', 'ref_marks', {'SHAPE': 4}, name='ref_edges'), R('h_refine', 'ref_marks', {'SHAPE': 0}, name='ref_two'), R('h_refine', 'ref_marks', {'SHAPE': 1}, name='ref_fan'), R('h_refine', 'ref_marks', {'SHAPE': 2}, name='ref_tets'), R('h_refine', 'ref_marks', {'SHAPE': 5}, name='ref_ring')], par=4)
C('C26', [R('h_refine', 'ref_fields', {'SHAPE': 4}, name='xr_edges'), R('h_refine', 'ref_fields', {'SHAPE': 0}, name='xr_two'), R('h_refine', 'ref_fields', {'SHAPE': 2}, name='xr_tets'),
  R('h_xfer', 'xs_fields', {'SHAPE': 0}, name='xs_quad', o=['--fork-sel', '--no-merge', '.']), R('h_xfer', 'xs_fields', {'SHAPE': 1}, name='xs_quads', o=['--fork-sel', '--no-merge', '.']), R('h_xfer', 'xs_fields', {'SHAPE': 2}, name='xs_ring', o=['--fork-sel', '--no-merge', '.']), R('h_xfer', 'xc_fields', {'SHAPE': 0}, name='xc_fan', o=['--fork-sel', '--no-merge', '.']), R('h_xfer', 'xc_fields', {'SHAPE': 1, 'HOT': 1}, name='xc_bent', o=['--fork-sel', '--no-merge', '.']), R('h_xfer', 'xc_fields', {'SHAPE': 2}, name='xc_line', o=['--fork-sel', '--no-merge', '.']), R('h_xfer', 'xc_fields', {'BOX': 1, 'JIT': 0, 'HOT': 1}, name='xc_box', o=['--fork-sel', '--no-merge', '.'])], par=4)
C('C24', [R('h_coarsen', 'col_class', {'LO': 1, 'HI': 1}, {}), R('h_coarsen', 'col_exposure', {}, {'NC': 2}), R('h_coarsen', 'col_box', {'SHORT': 1, 'SYMQ': 1, 'SYML': 1}, {'SHORT': 2, 'FLIP': 1, 'SYMQ': 1, 'SYML': 1}, name='col_box2', o=['--fork-sel', '--no-merge', '.']), R('h_coarsen', 'col_box', {'SHORT': 2, 'NX': 3, 'NY': 2, 'JMAX': 0, 'MODEL': 0, 'SYMQ': 1}, {'SHORT': 2, 'NX': 3, 'NY': 2, 'MODEL': 1, 'SYMQ': 1}, name='col_box32', o=['--fork-sel', '--no-merge', '.']), R('h_coarsen', 'col_box', {'SHORT': 1, 'D': 3, 'NX': 2, 'NY': 1, 'JIT': 0, 'MODEL': 0, 'SYMQ': 1, 'SYML': 1}, {'SHORT': 2, 'D': 3, 'NX': 2, 'NY': 1, 'JIT': 0, 'MODEL': 0, 'SYMQ': 1, 'SYML': 1}, name='col_box3', o=['--fork-sel', '--no-merge', '.']), R('h_coarsen', 'col_box', {'SHORT': 0, 'D': 3, 'NX': 2, 'NY': 2, 'NZ': 2, 'MODEL': 0, 'SYMQ': 1}, {'SHORT': 1, 'D': 3, 'NX': 2, 'NY': 2, 'NZ': 2, 'MODEL': 0, 'SYMQ': 1, 'SYML': 1}, name='col_box222', o=['--fork-sel', '--no-merge', '.']), R('h_coarsen', 'col_box', {'SHORT': 2, 'D': 1, 'NX': 4, 'MODEL': 0, 'SYML': 1}, name='col_box1', o=['--fork-sel', '--no-merge', '.'])], par=4)
C('C25', [R('h_swap', 'swap_choose', {'N': 4}, {}, name='swap_choose4'), R('h_swap', 'swap_choose', {'N': 5}, {'N': 5, 'BOTH': 1}, name='swap_choose5'), R('h_swap', 'swap_choose', {'N': 6, 'MODE': 1, 'BOTH': 1}, {'N': 6, 'MODE': 1, 'BOTH': 1}, name='swap_choose6'), R('h_swap', 'swap_choose', {'N': 7, 'MODE': 1, 'THI': 1}, {'N': 7, 'MODE': 1}, name='swap_choose7'), R('h_swap', 'swap_choose', {'N': 5, 'MODE': 2}, {'N': 6, 'MODE': 2}, name='swap_length'), R('h_swap', 'swap_tables', {'SHIFTS': 1, 'ROTS': 1}, {'SHIFTS': 6}, o=['--fork-sel', '--no-merge', '.']),
  R('h_swap', 'swap_mesh', {'MODEL': 1, 'LAYERS': 0, 'JMAX': 1, 'FREE': 1}, {'FREE': 2}, name='swap_box', o=['--fork-sel', '--no-merge', '.']), R('h_swap', 'swap_mesh', {'RING': 3, 'FREE': 2, 'SYMD': 1, 'LAYERS': 0, 'SHIFTS': 0, 'ROTS': 1}, {'FREE': 3, 'RING': 3, 'SYMD': 1}, name='swap_ring3', o=['--fork-sel', '--no-merge', '.']), R('h_swap', 'swap_mesh', {'RING': 5, 'LAYERS': 0, 'SHIFTS': 0, 'ROTS': 1}, {'FREE': 3, 'RING': 5}, name='swap_ring5', o=['--fork-sel', '--no-merge', '.']), R('h_swap', 'swap_mesh', {'RING': 7, 'SHIFTS': 0, 'ROTS': 0, 'LAYERS': 0}, {'FREE': 3, 'RING': 7}, name='swap_ring7', o=['--fork-sel', '--no-merge', '.']), R('h_swap', 'swap_mesh', {'D': 3, 'NX': 2, 'NY': 1, 'JIT': 0, 'MODEL': 0, 'WARP': 1, 'REAL': 0}, {'D': 3, 'NX': 2, 'NY': 2, 'MODEL': 0, 'WARP': 1, 'REAL': 0}, name='swap_box3', o=['--fork-sel', '--no-merge', '.'])], par=4)
C('C18', [R('h_vtk', 'vtk_b64', {}, {'N': 12}), R('h_vtk', 'vtk_b64_bad'), R('h_vtk', 'vtk_b64_stop'), R('h_vtk', 'vtk_xml', {'V': 1}, {'V': 2}), R('h_vtk', 'vtk_xml_any', {'N': 4}, {'N': 6}), R('h_vtk', 'vtk_vtu', {'HI': 2}), R('h_vtk', 'vtk_vtu', {'LO': 3}, name='vtk_vtu3'), R('h_vtk', 'vtk_tagset'), R('h_vtk', 'vtk_swapped'), R('h_vtk', 'vtk_parts'), R('h_vtk', 'vtk_parts', {'CUBE': 1}, name='vtk_parts_cube')], par=8,
  bounds='base64: every content of up to N bytes, every four-character text, every text of up to 3 characters; XML tags with names of 1-2 characters, up to two attributes with values of up to V characters, every character; every text of up to N characters; whole files: six small meshes of every dimension and family with every bit pattern of the first two values of every tag, compressed or not; two ranks with a 2x1 box',
  outside='a Real tag of six components on a 2D mesh reads back as three (the format stores 2D symmetric tensors that way)')
C('C34', [R('h_cli', 'cli_parse', {'N': 3}, {'N': 4}), R('h_cli', 'cli_numbers'), R('h_cli', 'cli_split', {'N': 4}, {'N': 6}), R('h_cli', 'cli_join'), R('h_cli', 'cli_tree', {'N': 3}, {'N': 4})], par=5)
C('C35', [R('h_compare', 'cmp_i8'), R('h_compare', 'cmp_i32'), R('h_compare', 'cmp_i64'), R('h_compare', 'cmp_real'), R('h_compare', 'cmp_bits'), R('h_compare', 'cmp_bits', {'ABS': 1}, name='cmp_bits_abs'), R('h_compare', 'cmp_nan'), R('h_compare', 'cmp_mesh'), R('h_compare', 'cmp_topo'), R('h_compare', 'cmp_conn'), R('h_compare', 'cmp_parts'), R('h_compare', 'cmp_file')], par=8)
C('C38', [R('h_profile', 'prof_tree', {'N': 4}, {'N': 6}), R('h_profile', 'prof_invert', {'N': 3}, {'N': 4}), R('h_profile', 'prof_ops', {'HI': 5}, o=['--fork-sel', '--no-merge', '.']), R('h_profile', 'prof_ops', {'LO': 6}, name='prof_adapt', o=['--fork-sel', '--no-merge', '.']), R('h_profile', 'prof_ranks')], par=5)
C('C40', [R('h_bisect', 'bis_marks', {'P': 2, 'N': 2}, {'P': 2, 'N': 3}), R('h_bisect', 'bis_marks', {'P': 4, 'N': 1}, {'P': 4, 'N': 2}, name='bis_marks4'), R('h_bisect', 'bis_cut', {'N': 3}, {'N': 4}), R('h_bisect', 'bis_cut', {'N': 3, 'GIVEN': 0, 'W': 1}, {'N': 4, 'GIVEN': 0}, name='bis_axis'), R('h_bisect', 'bis_recur', {'P': 2}, {'P': 2}), R('h_bisect', 'bis_recur', {'P': 4, 'FIX': 1, 'N': 1, 'W': 2}, {'P': 4, 'FIX': 1}, name='bis_recur4'), R('h_bisect', 'bis_recur', {'P': 2, 'HINTED': 0, 'W': 1}, {'P': 2, 'HINTED': 0}, name='bis_nohint'), R('h_bisect', 'bis_mesh'), R('h_bisect', 'bis_mesh', {'P': 4, 'SHAPES': 1}, {'P': 4}, name='bis_mesh4')], par=8)
AM = ['--fork-sel', '--no-merge', '.']
C('C32', [R('h_amr', 'amr_refine', {'SHAPE': 1, 'TAGS': 1}, {'SHAPE': 1, 'TAGS': 1}, o=AM), R('h_amr', 'amr_refine', {'ROUNDS': 2}, {'ROUNDS': 2}, name='amr_two', o=AM), R('h_amr', 'amr_refine', {'ROUNDS': 4, 'ONE': 1, 'ENFORCE': 1, 'SHAPE': 5}, {'ROUNDS': 5, 'ONE': 1, 'ENFORCE': 1, 'SHAPE': 5}, name='amr_levels1', o=AM), R('h_amr', 'amr_refine', {'ROUNDS': 3, 'ONE': 1, 'ENFORCE': 1}, {'ROUNDS': 4, 'ONE': 1, 'ENFORCE': 1}, name='amr_levels', o=AM), R('h_amr', 'amr_refine', {'SHAPE': 3, 'TAGS': 1}, {'SHAPE': 3, 'TAGS': 1}, name='amr_hex', o=AM), R('h_amr', 'amr_refine', {'SHAPE': 3, 'ROUNDS': 2, 'ONE': 1, 'ENFORCE': 1}, {'SHAPE': 3, 'ROUNDS': 2, 'ONE': 1, 'ENFORCE': 1}, name='amr_hex2', o=AM),
 R('h_amr', 'amr_derefine', {'TAGS': 1}, {'TAGS': 1}, o=AM), R('h_amr', 'amr_derefine', {'TWICE': 1}, {'TWICE': 1}, name='amr_derefine2', o=AM), R('h_amr', 'amr_derefine', {'SHAPE': 3}, {'SHAPE': 3}, name='amr_derefine3', o=AM), R('h_amr', 'amr_leaves', {'SHAPE': 1, 'TAGS': 1}, {'SHAPE': 1, 'TAGS': 1}, o=AM), R('h_amr', 'amr_leaves', {'SHAPE': 3}, {'SHAPE': 3}, name='amr_leaves3', o=AM)],
  bounds='quad meshes of 1x1, 2x1 and 2x2 cells and hex meshes of 2x1x1 cells; every marking of the leaves in one round (every marking in two rounds of the 2x1 mesh), any single mark in each of three to five rounds with the one-level rule enforced; inherited tags of one and two symbolic components, interpolated tags of two',
  outside='several ranks (amr::refine does not support an element split across the part boundary, its own parallel test is not registered); derefining an element some of whose children are themselves refined')
EX = ['--fork-sel', '--no-merge', '.']
C('C21', [R('h_expr', 'ex_scalar', {'OPS': 2}, {'OPS': 3}, o=EX), R('h_expr', 'ex_cond', {'COMPS': 2, 'ENTRIES': 1}, {'COMPS': 3, 'ENTRIES': 1}, o=EX), R('h_expr', 'ex_tensor', {'D': 2}, {'D': 2}, o=EX), R('h_expr', 'ex_tensor', {'D': 3}, {'D': 3}, name='ex_tensor3', o=EX), R('h_expr', 'ex_tensor', {'D': 1}, {'D': 1}, name='ex_tensor1', o=EX), R('h_expr', 'ex_misc', {}, {}, o=EX), R('h_expr', 'ex_matrix', {'D': 2}, {'D': 2}, o=EX), R('h_expr', 'ex_bad', {}, {}, o=EX)], draft=True)
