"""Names of the repository's types and functions the rules refer to."""
ENT = "sparsey::entity::Entity"
VER = "sparsey::entity::Version"
SV = "sparsey::entity::sparse_vec::SparseVec"
SLOT = "sparsey::entity::sparse_vec::SparseVecSlot"
ESS = "sparsey::entity::entity_sparse_set::EntitySparseSet"
EA = "sparsey::entity::entity_allocator::EntityAllocator"
ES = "sparsey::entity::entity_storage::EntityStorage"
CSS = "sparsey::component::component_sparse_set::ComponentSparseSet"
VT = "sparsey::component::component_sparse_set::ComponentSparseSetVtable"
CD = "sparsey::component::component_data::ComponentData"
CST = "sparsey::component::component_storage::ComponentStorage"
META = "sparsey::component::component_storage::ComponentMetadata"
GROUP = "sparsey::component::group::Group"
GMETA = "sparsey::component::group::GroupMetadata"
GI = "sparsey::component::group_info::GroupInfo"
QGI = "sparsey::component::group_info::QueryGroupInfo"
VGI = "sparsey::component::group_info::ViewGroupInfo"
GL = "sparsey::component::group_layout::GroupLayout"
GF = "sparsey::component::group_layout::GroupFamily"
GM = "sparsey::component::group_mask::GroupMask"
QM = "sparsey::component::group_mask::QueryMask"
SM = "sparsey::component::storage_mask::StorageMask"
NSM = "sparsey::component::storage_mask::NonZeroStorageMask"
VIEW = "sparsey::component::view::View"
VIEWMUT = "sparsey::component::view::ViewMut"
QONE = "sparsey::query::query_one::QueryOne"
QALL = "sparsey::query::query_all::QueryAll"
DI = "sparsey::query::iter::dense_iter::DenseIter"
SI = "sparsey::query::iter::sparse_iter::SparseIter"
ITER = "sparsey::query::iter::Iter"
DPI = "sparsey::query::par_iter::dense_par_iter::DenseParIter"
SPI = "sparsey::query::par_iter::sparse_par_iter::SparseParIter"
PITER = "sparsey::query::par_iter::ParIter"
WORLD = "sparsey::world::World"
WB = "sparsey::world::builder::WorldBuilder"
