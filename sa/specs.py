from . import spec_sparse, spec_alloc, spec_set, spec_world, spec_group, spec_layout, spec_query, spec_iter, spec_range, spec_family, spec_build, spec_types, spec_cmp
