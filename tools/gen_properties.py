#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they can be reviewed as a table)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
EA='src/entity/entity_allocator.rs'; ES='src/entity/entity_storage.rs'; ESS='src/entity/entity_sparse_set.rs'; SV='src/entity/sparse_vec.rs'
EM='src/entity/mod.rs'; W='src/world/mod.rs'; WB='src/world/builder.rs'; CS='src/component/component_set.rs'; CSS='src/component/component_sparse_set.rs'
CST='src/component/component_storage.rs'; G='src/component/group.rs'; GI='src/component/group_info.rs'; GL='src/component/group_layout.rs'; GM='src/component/group_mask.rs'
SM='src/component/storage_mask.rs'; V='src/component/view.rs'; CD='src/component/component_data.rs'
Q='src/query/mod.rs'; QP='src/query/query_part.rs'; QA='src/query/query_all.rs'; QO='src/query/query_one.rs'; SI='src/query/iter/sparse_iter.rs'; DI='src/query/iter/dense_iter.rs'
IM='src/query/iter/mod.rs'; PS='src/query/par_iter/sparse_par_iter.rs'; PD='src/query/par_iter/dense_par_iter.rs'; PM='src/query/par_iter/mod.rs'

p('C01','Entity handles are never issued twice',
 'Between two resets of a world, no two entity creations (direct, bulk or atomic) ever return the same handle, whatever destructions, clears and maintenance calls happen in between. An index that becomes free is only reissued with a strictly greater version, and an index whose versions are exhausted is never reissued.',
 ['histories','inputs'],'every sequence of create/extend/create_atomic/destroy/maintain/clear calls, including indexes at their last version',
 'The tests create three entities once; handle reuse needs long mixed histories of direct and atomic creation, destruction and maintenance, which no finite sample settles.',
 [EA,ES,EM],[('version bump when a destroyed handle is queued for reuse',EA+': EntityAllocator::recycle'),('queue consumption and index counter',EA+': allocate, allocate_atomic, maintain')],
 ['World::create','World::extend','World::create_atomic'],[('recycled queue','handles that may be issued again; a suffix of it has been issued atomically but not maintained',EA),('next index','first index never issued',EA)])
p('C02','An entity is alive exactly from its creation until its removal',
 'A handle is reported alive, and is listed exactly once among the entities of the world, from the moment it is created directly (or from the first maintenance after it was created atomically) until it is destroyed or the world is cleared or reset. A handle that was destroyed, or that was still pending when the world was cleared or reset, never becomes alive again. Destroying an entity reports true exactly when it was alive, and leaves all other entities alive.',
 ['histories','inputs'],'every history of world operations and every handle',
 'test_entities_crud follows one history of two entities and never calls maintain; resurrection bugs need specific interleavings of destroy, atomic creation and maintain.',
 [EA,ES,ESS,SV,W],[('sparse index to dense position map of live entities',ESS),('handles allocated directly are taken out of what maintain yields',EA+': allocate'),('pending handles are discarded by clear and reset',ES+': clear, reset')],
 ['World::contains_entity','World::entities','World::destroy','World::is_empty'])
p('C03','Stale handles never reach another entity',
 'An operation given a handle that is not alive never returns, changes or removes a component of any entity, even if a live entity reuses the same index with another version. Inserting with such a handle reports false and adds nothing; removing returns nothing; looking it up in a view, or in a query that requires at least one component, finds nothing.',
 ['histories','inputs'],'every handle, every history in which its index was recycled',
 'The tests never recycle an index, so no test ever presents a handle whose index is in use with another version.',
 [SV,CSS,ESS,W,CS,V,QO,G],[('version comparison in every lookup by handle',SV+': get, contains, remove'),('liveness test before inserting',W+': insert'),('group membership lookup by handle before moving components',G+': get_group_status')],
 ['World::insert','World::remove','World::delete','World::contains','QueryOne::get','QueryOne::contains','View::get','ViewMut::get_mut'])
p('C04','Component storage is an exact map from entity to value',
 'After a component is inserted for a live entity, reading it back through any access path yields that value until it is overwritten, removed or its entity is removed; removing returns exactly that value and afterwards the entity lacks the component. Inserting, overwriting or removing a component of one entity never changes, exchanges or hides a component of another entity or another type.',
 ['histories','inputs'],'every sequence of insert/remove/delete/destroy over any number of entities, versions and component types',
 'The tests store one entity per storage and small integers; moving the last element into a hole, growing, grouping swaps and versions greater than one are not exercised.',
 [CSS,SV,CS,CST,V],[('paired update of dense entity array, dense component array and sparse map',CSS+': insert, remove, delete, swap_typed'),('one storage per component type',CST)],
 ['World::insert','World::remove','QueryOne::get','View::get','View::entities','View::as_slice'],[('dense arrays','entity i owns component i; the sparse map sends the entity to i',CSS)])
p('C05','Removing entities leaves no component behind',
 'When an entity is destroyed, every component it had, of every registered type, is removed with it; when the world is cleared or reset, no component of any type remains visible in any view or query. An entity created afterwards starts with exactly the components it was given.',
 ['histories','inputs','configurations'],'every world content, set of registered types and group layout',
 'Only one destroy with at most one component and no group is tested; leftovers matter when an index is reused or when storages are grouped.',
 [W,CST,CSS,ES,G],[('strip all storages of an entity',CST+': strip'),('clear all storages and group lengths',CST+': clear'),('entities and components cleared together',W+': clear, reset, destroy')],
 ['World::destroy','World::clear','World::reset','View::len'])
p('C06','Every component value is dropped or handed back exactly once',
 'Each component value given to a world is, over the life of the world, either returned to the caller or dropped exactly once: on overwrite, delete, destroy, clear, reset or when the world is dropped. No operation copies a component value, drops it twice, or loses it without dropping it, as long as no destructor panics.',
 ['histories','inputs','programs'],'every component type (with or without drop glue, zero-sized or not) and every history',
 'All test components are Copy integers, for which a leak, a duplication or a double drop is invisible.',
 [CSS,CS,CST],[('raw moves into, out of and inside the dense component array',CSS+': insert, remove, delete, grow_typed, clear_typed, drop_typed'),('per-type operations behind a table of function pointers',CSS+': ComponentSparseSetVtable')],
 ['Drop of component values','World::remove','World::insert','World::clear','Drop of World'])
p('C07','Component memory accesses stay in bounds and initialised',
 'Whatever the history, safe calls only read component memory that is inside the current allocation and initialised, and only write inside the current allocation. Growing a storage keeps all its contents, and every allocation is released exactly once with the layout it was allocated with.',
 ['histories','inputs','programs'],'every component size and alignment, every number of components, every history of safe calls',
 'Tests hold at most three components per type, so growth from a non-empty storage, over-aligned types and zero-sized types never occur; out-of-bounds reads would not fail an assertion.',
 [CSS,SV,ESS,CST,CS,Q,QP,QA,DI,PD],[('capacity check before writing at the end',CSS+': insert'),('growth copies both arrays and frees the old block with its own layout',CSS+': grow_typed, compute_layout, drop_typed'),('index bounds established before unchecked accesses',SV)],
 ['every safe public method that reaches component memory'])
p('C08','Grouped components stay packed, complete and in the same order',
 'For every group of the layout and after every operation on the world, the entities that have all components of the group are exactly those stored in the leading positions of each storage of the group, in the same order in each of them. Entities that lose a component of a group leave it, entities that gain the last missing one join it, and groups they do not affect keep their members.',
 ['histories','inputs','configurations'],'every layout of nested groups and disjoint families and every history of create/insert/remove/delete/destroy/clear/set_layout',
 'test_dense builds three entities in one family of nested groups, and never removes a component or destroys an entity of a grouped world.',
 [G,CST,CS,GM,CSS],[('group and ungroup an entity around every change of its components',CS+': insert, extend, remove, delete; '+CST+': strip, set_layout'),('which groups a change can affect',CST+': ComponentMetadata masks, Group.metadata'),('swap to or from the group boundary in every storage',G+': group_components, ungroup_components')],
 ['QueryAll::slice','QueryAll::iter','View::entities'],[('group length','number of leading positions owned by the group',G),('masks','groups affected by inserting or deleting a component; groups to skip when an outer group is incomplete',CST)])
p('C09','Group layouts accept exactly the compatible sets of groups',
 'A layout accepts any collection of groups that splits into disjoint families of successively nested groups, in any order and up to the documented numbers of groups and components per group, and it then maintains exactly the groups that were added, so that a query for exactly the types of a group can use it. Any other group is rejected with a panic instead of being replaced by a different group. Repeated groups and groups of fewer than two types change nothing.',
 ['configurations','inputs'],'every sequence of added groups, including duplicate types and the documented maxima',
 'Only three nested groups added from small to large are tested; order, overlap and the limits are configurations no test builds.',
 [GL,GM,SM,CST],[('families of nested groups as prefixes of one component order',GL+': GroupFamily::try_add_group'),('disjointness across families',GL+': add_group_dyn'),('bit masks of groups and storages',GM+', '+SM)],
 ['GroupLayout::add_group','World::new','World::set_layout','WorldBuilder::build'])
p('C10','Changing the group layout preserves the world',
 'Setting a new group layout on a world keeps every entity, every component value and every registration; only the grouping changes. Afterwards all groups of the new layout contain exactly the entities that have all their components, and groups of the old layout, and whatever was stored for them, no longer exist.',
 ['histories','configurations'],'every world content and every pair of old and new layouts',
 'No test calls set_layout on a world that already has components.',
 [CST,W],[('storages are taken out and put back under the same type',CST+': set_layout, extract_sparse_sets'),('all existing entities are grouped again',CST+': set_layout')],
 ['World::set_layout','World::is_registered','World::query_all','World::query_one'])
p('C11','Queries match exactly the requested entities',
 'A query that requires at least one component visits each entity that has all required components and all included components and none of the excluded ones, exactly once, and visits no other entity. Each item consists of that entity and its own component values, and looking an entity up in the corresponding single-entity query agrees with being visited.',
 ['inputs','histories','configurations'],'every combination of required, included and excluded component types, every world content',
 'Two tests iterate three entities with five fixed type combinations; they check only entities, never the component values of the items, and never arities above four.',
 [QO,QA,SI,Q,QP,IM,W],[('exclude and include filters tested before fetching',SI+', '+QO),('candidate entities taken from a storage that every match is in',QA+': iter; '+Q+': split_filter_parts, split_sparse_parts'),('tuple queries are conjunctions of their parts',Q+': impl_query')],
 ['QueryAll::iter','QueryAll::for_each','QueryOne::get','QueryOne::contains','World::for_each','World::contains'])
p('C12','Grouping never changes the result of a query',
 'For every query and world, the items visited when the query can use a group are the same as those visited in a world with the same contents and no groups, apart from their order. A query uses the packed representation only if its required, included and excluded components are exactly described by groups of one family.',
 ['configurations','inputs','histories'],'every layout, query and world content',
 'test_dense checks five queries on one layout; the selection logic has many more combinations of masks, families and filters.',
 [CST,GI,QA,Q,QP,DI],[('mask comparison that selects a group range',CST+': group_range, include_group_range, exclude_group_range'),('combination of group information of several views',GI),('dense access by position, with lookups for optional parts',QP+': get_dense_raw')],
 ['QueryAll::iter','Iter::is_dense'])
p('C13','Component slices are exact and aligned with each other',
 'When a query can be sliced, the returned slices contain exactly the entities and components that iterating the same query visits, in the same order, and position i of every slice belongs to the same entity. The entities and components listed by a view are aligned in the same way.',
 ['inputs','histories','configurations'],'every sliceable query (with or without include and exclude filters) and every world content',
 'No test calls slice, and no test reads a view as a slice.',
 [QA,QP,Q,V,CSS],[('all parts sliced with the same range',Q+': slice_raw; '+QP+': slice_raw'),('entities and components of a view share one length',CSS+': entities, as_slice, as_mut_slice')],
 ['QueryAll::slice','View::entities','View::as_slice','ViewMut::as_mut_slice'])
p('C14','Parallel iteration visits the same items as sequential iteration',
 'For every query and world, the parallel iterator produces the same items as the sequential one, each exactly once, whatever the number of threads and the way the work is split, and uses the packed representation in the same cases. The number of items it announces, if any, is the number it produces.',
 ['schedules','inputs','configurations'],'every query, world content and work-splitting schedule',
 'The parallel iterators have no tests at all.',
 [PS,PD,PM,QA,W],[('same filters and same data as the sequential iterators',PS+', '+PD),('same choice between packed and filtered iteration',QA+': par_iter, iter')],
 ['QueryAll::par_iter','QueryAll::par_for_each','World::par_for_each','ParIter::opt_len','DenseParIter::len'])
p('C15','Access conflicts to components panic instead of aliasing',
 'Through safe calls, an exclusive reference to a component never exists at the same time as any other reference to it. Borrowing a component type exclusively while a view or query on it is alive, or borrowing it at all while it is borrowed exclusively, panics; items borrowed from a query cannot outlive it or overlap with another use of it.',
 ['programs','schedules','histories'],'every program using the safe API, single- or multi-threaded',
 'The absence of aliasing is a statement about all programs that compile; the tests hold one borrow at a time.',
 [CST,V,QP,Q,QA,QO,W],[('runtime borrow state of each storage',CST+': AtomicRefCell, borrow, borrow_mut'),('views hold the borrow guard for as long as they live',V),('lifetimes of items tied to an exclusive borrow of the query',QA+', '+QO)],
 ['World::borrow','World::borrow_mut','World::query_all','World::query_one','QueryAll::iter','QueryOne::get'])
p('C16','Component memory is only accessed with the type it was stored with',
 'A value of a component type is only ever written to, read from, moved within or dropped from the storage that was created for exactly that type. No sequence of registrations, layout changes and component operations lets a component of one type be read or dropped as another type.',
 ['programs','histories','configurations'],'every set of component types, registration order and layout',
 'Tests use a handful of types of equal size; a mix-up of storages would often go unnoticed or only misbehave for other types.',
 [CST,CS,CSS,CD,V,QP],[('storages looked up by the identity of the type that is then used to access them',CST+': borrow*, '+CS),('type-erased operations instantiated with the type the storage was created for',CSS+': ComponentSparseSetVtable::new'),('type identity and storage constructor of a component description agree',CD)],
 ['every operation generic over a component type'])
p('C17','Only thread-safe types can be components or cross threads',
 'A type can be used as a component only if it can be sent to and shared between threads and contains no borrowed data. Worlds can be sent and shared between threads, and everything a parallel iteration hands to other threads can be sent to them.',
 ['programs'],'every program that type-checks against the crate',
 'It is a statement about which programs compile; a test that compiles says nothing about the programs that must not.',
 ['src/component/mod.rs',CD,CSS,PD,PS,Q,QP,V],[('bounds of the component trait','src/component/mod.rs: Component'),('manual thread-safety implementations and the bounds that justify them',CSS+', '+CD+', '+PD+', '+PS),('items must be sendable',Q+': Query::Item; '+QP+': QueryPart::Item')],
 ['trait bounds of World::register, create, par_for_each','auto traits of World, views and iterators'])
p('C18','Bulk creation equals creating entities one by one',
 'Creating entities from an iterator that completes gives the same world as creating one entity per item in order: one new entity for each item, with exactly the components of the item, grouped like any other entity. The returned slice lists exactly the new entities, in creation order.',
 ['inputs','histories','configurations'],'every iterator, component set, layout and prior world content',
 'No test calls extend.',
 [CS,W,ES,ESS],[('entities created and filled inside the loop, then grouped',CS+': extend'),('new entities are the tail of the entity list',ESS+': insert')],
 ['World::extend','World::entities','QueryAll::iter'])
p('C19','Panicking destructors never corrupt component memory',
 'If the destructor of a component, or any other caller-supplied code run by a world operation, panics and the panic is caught, no component that was already dropped or moved out can be read, returned or dropped again through later safe calls. Components that were not reached by the interrupted operation are leaked at most.',
 ['fault_sequences','programs'],'a panic at any call from the crate into caller-supplied code, followed by any safe calls',
 'No test component has a destructor; panicking at each drop point and continuing to use the world is not sampled.',
 [CSS,CS,CST],[('storage state is made consistent before destructors run',CSS+': delete, clear_typed, insert')],
 ['Drop of component values','World::delete','World::destroy','World::clear','World::insert'])
p('C20','The ways to consume an iterator agree',
 'Consuming a query iterator step by step, with an internal-iteration method or through a conversion yields the same items in the same order. Announced lengths and size hints are correct at every point, an exhausted iterator stays exhausted, and an iterator reports being dense exactly when it iterates packed components.',
 ['inputs','histories'],'every query, world content and way to consume the iterator, including partially consumed iterators',
 'The tests collect each iterator once; resuming, folding after some steps and length reports are not exercised.',
 [SI,DI,IM,QA],[('next and fold of the filtered and packed iterators',SI+', '+DI),('forwarding by the combined iterator',IM)],
 ['Iter::next','Iter::fold','Iter::size_hint','DenseIter::len','Iter::is_dense','QueryAll::into_iter'])
p('C21','Component registration is idempotent, permanent and required',
 'Registering a component type reports true exactly when it was not registered before, and never affects existing components. A type stays registered for the life of the world, through clear, reset and layout changes, and types named in the layout are registered by it. Using a type that is not registered panics before any component is read or written.',
 ['histories','configurations'],'every order of registrations, layout changes, clears and resets',
 'test_components_register covers two types without layouts and does not look at re-registration or at use of unregistered types.',
 [CST,W,WB,CS],[('registration only fills a vacant entry',CST+': register_dyn'),('lookup failure panics',CST+': borrow*; '+CS),('layout changes keep the entries',CST+': set_layout')],
 ['World::register','World::is_registered','World::borrow','World::create'])
p('C22','Optional query parts never filter and are exact',
 'An optional component in a query never prevents an entity from matching, whether the query is evaluated entity by entity, filtered, packed or in parallel. The optional item is present exactly when the matched entity has that component, and then refers to the component of that very entity.',
 ['inputs','histories','configurations'],'every query with optional parts next to required ones, every world content and layout',
 'No test uses an optional query part.',
 [QP,Q],[('optional parts contribute no filter and no group information',QP+': impls for Option'),('lookup by entity in sparse and dense access',QP+': get_sparse_raw, get_dense_raw, get_sparse')],
 ['QueryAll::iter','QueryOne::get','QueryAll::par_iter'])
p('C23','Entity and component descriptions compare consistently',
 'Entities are totally ordered by version first and then by index; equality, ordering and hashing of entities, versions and component descriptions agree with each other. Two component descriptions are equal exactly when they describe the same type, and the version after a version is strictly greater or does not exist. A handle made from an index and a version has exactly these; without a version it has the first one, which is the default.',
 ['inputs'],'all handles, versions and component types',
 'Ordering and hashing are laws over all pairs; tests only compare a few handles for equality.',
 [EM,CD],[('manual ordering of entities',EM+': Ord for Entity'),('comparisons of component descriptions through the type identity',CD)],
 ['Ord, Eq and Hash of Entity, Version and ComponentData','Version::next'])
p('C24','A built world has exactly the configured layout and types',
 'A world made by the builder is the same as a world created with the configured layout on which the configured component types were then registered. Every group and type given to the builder is present, setting a layout replaces the groups configured before, and the builder can be reused to build equal worlds.',
 ['configurations'],'every sequence of builder calls',
 'Tests use the builder in two fixed configurations only and never combine groups with registrations.',
 [WB,W,GL],[('builder accumulates a layout and component descriptions',WB),('build applies both',WB+': build')],
 ['World::builder','WorldBuilder::build','World::is_registered'])
p('C25','Concurrent atomic creation yields distinct entities',
 'Any number of threads creating entities atomically through a shared world obtain pairwise distinct handles, none of which is alive or was issued before. The next maintenance makes exactly the handles obtained that way alive, whatever direct creations and destructions happened in between, and further maintenance adds nothing.',
 ['schedules','histories'],'every interleaving of atomic creations, followed by any direct operations and maintenance',
 'No test calls create_atomic or maintain; interleavings of compare-and-swap loops cannot be sampled exhaustively by running them.',
 [EA,ES],[('compare-and-swap claims of queue positions and indexes',EA+': increment_recycled_since_maintain, increment_next_index_to_allocate'),('claimed handles drained once',EA+': maintain')],
 ['World::create_atomic','World::maintain','World::contains_entity'],[('claimed count','how many queued handles have been claimed since the last maintenance',EA)])
p('C26','Every tuple arity treats each of its components alike',
 'For every supported number of components, component sets, queries and group descriptions apply to each component of the tuple exactly once, pairing each value, view and result with the type at its own position. No component is skipped, handled twice or exchanged with another one, and the outcome does not depend on the arity.',
 ['programs','inputs'],'all arities from 1 to 16 and all component types',
 'Tests use arities 1 to 4 of component sets and queries; the other implementations are never instantiated.',
 [CS,Q,GL],[('one implementation per arity',CS+': impl_component_set; '+Q+': impl_query; '+GL+': impl_group_descriptor')],
 ['World::create','World::insert','World::remove','World::query_all','GroupLayout::add_group'])
p('C27','Operations stay cheap and memory stays bounded by peak use',
 'Creating, destroying, inserting, removing and visiting take amortised constant time per entity and component, and the memory of a world stays proportional to the largest number of entities and components it ever held. Iterating grouped components is a linear traversal of packed arrays.',
 ['histories','inputs'],'every history of operations',
 'Costs and footprints over unbounded histories are not observable in unit tests.',
 [CSS,SV,EA,G,CST],[('amortised growth of the dense arrays',CSS+': grow_typed'),('growth of the sparse map',SV+': extend_to_index')],
 ['time and memory use'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
