#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

p("C01", "An entity handle names exactly one lifetime",
  "Every handle returned by entity creation differs from every handle the same store issued before. It is alive from its creation until that handle is destroyed and never again afterwards, whatever else is created, destroyed, recycled or grown in between. The number of live handles is always creations minus destructions.",
  ["histories"], "all sequences of entity creation (with and without components) and destruction, from any initial capacity, with any interleaving of other operations",
  "The tests destroy at most a handful of entities in one fixed order and never recycle several ids at once or check old handles after growth; the claim is about every create/destroy history.",
  ["src/entities_container.rs", "src/bitvec_utils.rs", "src/store.rs"],
  [("gap list, next free id and per-id version counter", "src/entities_container.rs create_entity/destroy_entity"), ("liveness bit vector and its growth", "src/bitvec_utils.rs")],
  [("entity_to_version", "version of the latest handle of each id", "src/entities_container.rs"), ("gap_ids / next_free_id", "ids that can be reused", "src/entities_container.rs")],
  ["Store::create_entity", "Store::create_entity_with_archetype", "Store::destroy_entity", "Store::is_alive"])

p("C02", "Component values survive everything that does not write them",
  "Reading a component of a live entity returns exactly the value last stored in it for that entity, whether it was stored by adding components, through a mutable reference or through a query. Creating, destroying or restructuring any other entity, adding or removing other components of the same entity, and any growth or reuse of storage leave it unchanged. This holds for every component type, size, alignment and tuple order.",
  ["histories", "inputs"], "all histories of structural changes and writes over entities with arbitrary component sets, including many pages per archetype, pages and archetypes that become empty and are reused, and rows moved by removals",
  "Tests move at most one row and never empty and refill an archetype; which row moves, which page is reused and which archetype slot is recycled depend on the whole history.",
  ["src/store.rs", "src/archetypes_container.rs", "src/archetype_data_page.rs", "src/archetype_layout.rs", "src/archetype.rs", "src/component_tuple.rs"],
  [("swap-remove of a row and re-pointing of the moved entity", "src/store.rs swap_remove_internal, src/archetype_data_page.rs"), ("copy of the shared components on an archetype change", "src/archetype_data_page.rs copy_component_data_to_page_with_new_archetype, ArchetypesUnion"), ("page and archetype slot reuse", "src/archetypes_container.rs reserve_page/reserve_archetype/free_page")],
  [("entity_to_page / entity_to_index_in_page", "where an entity's row is", "src/store.rs"), ("free_archetypes / free_pages", "slots that may be reused", "src/archetypes_container.rs")],
  ["Store::get_components_refs", "Store::get_components_refs_mut", "Store::add_components", "Store::remove_components"])

p("C03", "An entity's component set is what its history says",
  "The archetype reported for a live entity contains exactly the component types it was created with, plus those added, minus those removed since. Typed access to an entity succeeds if and only if it is alive and its set contains every requested type. An entity whose last component is removed behaves like one created without components: it has no archetype and can be given components again.",
  ["histories"], "all sequences of create, add (overlapping or not), remove (present, absent, partial, all) and destroy over arbitrary component tuples in any order",
  "Tests add or remove one or two fixed types on one entity; overlapping, absent and complete removals and long add/remove chains across shared archetypes are not reached.",
  ["src/store.rs", "src/archetype_builder.rs", "src/archetype.rs", "src/archetypes_container.rs"],
  [("archetype computed with the builder on add/remove", "src/store.rs add_components/remove_components"), ("has-archetype bit", "src/store.rs entity_has_archetype_bit_vec"), ("archetype slot lookup and reuse", "src/archetypes_container.rs reserve_archetype")],
  [], ["Store::get_entity_archetype", "Store::is_valid_entity_with_archetype", "Store::get_components_refs", "Store::get_components_refs_mut"])

p("C04", "A component query yields exactly the matching entities",
  "Iterating a component query yields every live entity that has all queried component types exactly once and nothing else, and each item carries that entity's own handle and references to its own current component values. This is the same for read-only, write and read-write access and any tuple order. Values written through a query are what every later read returns.",
  ["histories", "inputs"], "all store histories (any number of archetypes and pages, emptied and reused ones included) and all queried tuples",
  "Tests query one or two archetypes with fewer than twenty entities, so they never see several pages, emptied pages or recycled archetypes.",
  ["src/query/component.rs", "src/query/component_page_iter.rs", "src/query/component_page_iter_view.rs", "src/query/access.rs", "src/component_tuple.rs"],
  [("page views collected for every matching archetype", "src/query/component.rs component_query_iter"), ("per-page iteration and entity id lookup", "src/query/component_page_iter.rs")],
  [], ["Store::component_query_iter", "ComponentsQueryIter::with_entities"])

p("C05", "Tags belong to one entity lifetime, and tag filters are exact",
  "A live entity has a tag if and only if the tag was added to it during its lifetime and not removed since, independently of other tags, other entities, component changes and growth; an entity that reuses an id starts without tags. A tag-filtered query yields exactly those items of the unfiltered query whose entity has the tag, in the same order, for any number of entities without it and also when the tag was never added to anything.",
  ["histories"], "all sequences of tag additions and removals, destruction, id reuse and growth over several tag types, and all tag-filtered queries over the resulting stores",
  "The tests set two tags on one entity and never filter a query by tag, destroy a tagged entity or grow the store with tags set.",
  ["src/tag_container.rs", "src/query/component.rs", "src/bitvec_utils.rs"],
  [("one bit vector per tag type, cleared on destruction", "src/tag_container.rs"), ("bit vector growth", "src/bitvec_utils.rs realloc"), ("filter iterator", "src/query/component.rs FilterTagIter")],
  [("entity_id_to_has_tag_bitvecs", "one bit per entity id for every tag", "src/tag_container.rs")],
  ["Store::add_tag", "Store::remove_tag", "Store::has_tag", "WithEntitiesIter::filter_tag"])

p("C06", "An entity-list query follows the list and skips what does not match",
  "Iterating a query over a list of handles yields, in list order, one item for every list position whose handle is alive and has all queried component types. Positions whose handle is destroyed, has no components or lacks a queried type yield nothing, wherever they stand in the list. Each item carries the handle at its position and that entity's own current component values, and writes through it are what later reads return.",
  ["histories", "inputs"], "all lists of handles issued by the store (any order, repetitions, destroyed and component-less entities anywhere) over all store histories, for all tuples and accesses",
  "Two tests use two archetypes with all invalid entities at the end of the list; runs broken in the middle by dead, stale or component-less entities are not reached.",
  ["src/query/entity_component.rs"],
  [("grouping of consecutive list entries that share a page", "src/query/entity_component.rs entity_component_query_iter"), ("range iteration", "src/query/entity_component.rs EntityComponentQueryIter::next")],
  [], ["Store::entity_component_query_iter", "EntityComponentQueryIter::with_entities"])

p("C07", "Every order group is a well-formed list",
  "Each order group holds the sequence of entities that the same appends, insertions after or before a member, removals and entity destructions would leave in a plain list. First, last, next and previous agree with that sequence in both directions and report nothing at its ends and for non-members. Groups are independent of each other, of tags and of component changes, and keep their order across growth and id reuse.",
  ["histories"], "all valid sequences of append / insert-after / insert-before / remove / destroy over several groups and entities, from any initial capacity",
  "Tests build lists of at most three entities in one group with a fixed schedule; no test combines insertion, removal, destruction, several groups and growth.",
  ["src/order_group_container.rs", "src/store.rs"],
  [("forward and backward link arrays, head and tail per group", "src/order_group_container.rs"), ("growth of the link arrays", "src/order_group_container.rs grow"), ("removal from all groups on destruction", "src/order_group_container.rs remove_all_orders_for_id")],
  [("group_index_to_head/tail/forward_links/backward_links", "the doubly linked list of a group", "src/order_group_container.rs")],
  ["Store::add_entity_order_by", "Store::add_entity_next_to_order_by", "Store::add_entity_previous_to_order_by", "Store::remove_entity_order_by", "Store::get_{first,last,next,previous}_entity_ordered_by"])

p("C08", "An ordered query yields the group's matching members in order",
  "Iterating an ordered query yields, in group order, exactly one item for each member of the group that has all queried component types, and nothing for members that lack one or have no components at all. Each item carries that member's own handle and its own current component values, wherever its data is stored. Values written through it are what later reads return.",
  ["histories", "inputs"], "all group sequences over entities spread over any number of archetypes and pages, in or out of storage order, with component-less and non-matching members anywhere",
  "Tests use one page and storage order equal to group order; with_entities is only tested on one contiguous run.",
  ["src/query/ordered_component.rs", "src/order_group_container.rs"],
  [("merging of members that are adjacent in storage into ranges", "src/query/ordered_component.rs ordered_query_iter"), ("range iteration and handle lookup", "src/query/ordered_component.rs OrderedComponentQueryIter, WithEntitiesIter")],
  [], ["Store::ordered_query_iter", "OrderedComponentQueryIter::with_entities"])

p("C09", "Handles of destroyed entities are inert",
  "Once an entity is destroyed, its handle shows no components, archetype, tags or group neighbours. Adding or removing components, tags or group membership through it changes nothing observable, neither now nor for the entity that later reuses its id. The entity that reuses the id is never visible through the old handle.",
  ["histories"], "all histories in which calls other than destroy are made with handles whose entity was destroyed, before and after their id is reused",
  "One test reads one component of one destroyed entity; nothing uses a stale handle after its id has been reused.",
  ["src/store.rs", "src/entities_container.rs", "src/tag_container.rs", "src/order_group_container.rs"],
  [("version check in is_alive", "src/entities_container.rs is_alive"), ("liveness guards in front of component access", "src/store.rs"), ("liveness guards of tag and order calls", "src/tag_container.rs, src/order_group_container.rs (impl Store)")],
  [], ["all Store methods that take an Entity"])

p("C10", "Misuse is rejected and leaves the store as it was (debug builds)",
  "In builds with debug assertions, destroying a handle that is not alive or cannot belong to the store, adding an entity to an order group it is already in, or inserting next to an entity that is not in the group panics. After the rejected call every entity, component value, tag and group is as it was before, and the store keeps working. No valid call panics.",
  ["histories", "fault_sequences"], "all histories of valid operations with misuse calls injected at any point, continued after catching the panic",
  "Tests check that three misuses panic, each as the last action on the store; none looks at the store afterwards.",
  ["src/store.rs", "src/entities_container.rs", "src/order_group_container.rs"],
  [("validation of the handle on destruction", "src/store.rs destroy_entity, src/entities_container.rs destroy_entity"), ("assertion that an entity has no order yet", "src/order_group_container.rs assert_entity_has_no_order")],
  [], ["Store::destroy_entity", "Store::add_entity_order_by", "Store::add_entity_next_to_order_by", "Store::add_entity_previous_to_order_by"])

p("C11", "Component storage is aligned, in bounds and never shared",
  "At any time each component of each live entity occupies its own storage: it is aligned for its type, lies entirely inside memory the store has allocated, and overlaps no other component of any entity. This holds for every mix of component sizes, alignments and component counts the store accepts, and after pages are reused by other component sets. A component set of n types is accepted whenever n * (largest size + largest alignment) fits in a data page (alignments up to 4096), and one whose single row cannot fit in a page is refused by a panic instead of being stored.",
  ["inputs", "histories"], "all component sets (1 to 30 types, sizes 1 byte to beyond a page, alignments 1 to 4096) and all histories that fill, empty and reuse pages",
  "Tests use small types with alignment up to 16, never fill a page and never reuse one for another component set.",
  ["src/archetype_layout.rs", "src/archetype_data_page.rs", "src/archetypes_container.rs", "src/mem_utils.rs"],
  [("rows per page and column offsets", "src/archetype_layout.rs"), ("page capacity check", "src/archetype_data_page.rs has_free_space/set_layout"), ("page allocation", "src/archetype_data_page.rs new, src/mem_utils.rs")],
  [], ["addresses returned by Store::get_components_refs and the queries"])

p("C12", "Archetypes behave as sets of component types",
  "An archetype is determined by the set of its component types, however it was put together: tuple order, builder steps, extension of another archetype or cloning make no difference to equality, hash, count or iteration. Membership, index lookup, include, exclude and include-only answers agree with set operations, for lists of distinct type ids in any order. Each listed component keeps the id, size, alignment and name of its type.",
  ["inputs"], "all component sets, all ways to build them (tuples in any order, builder include/exclude sequences, archetype extension) and all type-id lists in any order",
  "Tests use three fixed types and type-id lists of length one or two; the sort order of type ids is arbitrary, so hand-picked cases reach few of the relative orders.",
  ["src/archetype.rs", "src/archetype_builder.rs", "src/component_tuple.rs", "src/component_type.rs"],
  [("components sorted by type id, binary searches", "src/archetype.rs"), ("include/exclude steps", "src/archetype_builder.rs")],
  [], ["Archetype public methods", "ArchetypeBuilder"])

p("C13", "A resource store maps each handle to its resource",
  "Creating a resource returns a handle distinct from every earlier one of that store, and indexing by a handle whose resource is still held reads and mutates exactly that resource. Releasing it returns that resource and ends the handle. Creating, releasing and mutating other resources and growth, from any initial capacity including none, never change it; in builds with debug assertions using a released handle panics and changes nothing.",
  ["histories"], "all sequences of create / index / mutate / release over any resource type (zero-sized and over-aligned ones included) from any initial capacity",
  "Four of the five existing resource store tests abort at the pinned commit; none releases and reuses a slot.",
  ["src/resource_store.rs", "src/entities_container.rs", "src/mem_utils.rs"],
  [("slot array indexed by handle id", "src/resource_store.rs"), ("handle allocation shared with entities", "src/entities_container.rs"), ("slot array growth", "src/mem_utils.rs realloc")],
  [], ["ResourceStore::{new,with_capacity,create,release}", "Index/IndexMut<Entity>"])

p("C14", "Every resource is dropped exactly once and nothing leaks",
  "A resource handed to a resource store is dropped by the store exactly when the store is dropped, if it was not released before, and is otherwise owned by whoever released it: over the whole history each one is dropped exactly once. Growing the store never drops or duplicates a resource. Dropping the store gives back all the memory it allocated.",
  ["histories"], "all sequences of create / release / overwrite followed by dropping the store, for any resource type and initial capacity",
  "One working test drops 100 counters without ever releasing or growing; nothing measures memory.",
  ["src/resource_store.rs", "src/mem_utils.rs"],
  [("drop of live slots only", "src/resource_store.rs Drop"), ("bitwise move on release and growth", "src/resource_store.rs release/create")],
  [], ["Drop of resources and of ResourceStore"])

p("C15", "Query iterators report their exact length and stay exhausted",
  "For the query iterators that report a length, that length equals the number of items still to come at every point of the iteration, and the size hint agrees with it, so that standard adapters relying on it work. For all query iterators the size hint never contradicts what is yielded, and once an iterator has returned nothing it keeps returning nothing.",
  ["histories", "inputs"], "all query iterators over all store histories, at every position of the iteration and behind standard adapters",
  "Tests call len() once, before the first item.",
  ["src/query/component.rs", "src/query/ordered_component.rs", "src/query/component_page_iter.rs", "src/query/entity_component.rs"],
  [("entity count summed over pages or ranges", "src/query/component.rs component_query_iter, src/query/ordered_component.rs ordered_query_iter")],
  [], ["ExactSizeIterator::len", "Iterator::size_hint", "Iterator::next"])

p("C16", "Storage use is bounded by what is alive, and returned on drop",
  "A store's entity capacity is at least what was requested, never shrinks, always covers the live entities, and grows only when a creation would otherwise exceed it, so ids are recycled. Repeating the same workload of creating, restructuring, tagging, ordering and destroying entities does not make the store hold more memory from round to round. Dropping a store returns all the memory it allocated.",
  ["histories"], "all workloads, repeated for many rounds, from any initial capacity",
  "No test destroys a workload and repeats it, and none looks at memory or at capacity after id reuse.",
  ["src/entities_container.rs", "src/archetypes_container.rs", "src/order_group_container.rs", "src/tag_container.rs", "src/store.rs"],
  [("id gap list", "src/entities_container.rs"), ("free page and free archetype lists", "src/archetypes_container.rs"), ("Drop implementations", "all containers")],
  [], ["Store::entities_capacity", "allocations made by the library"])

p("C17", "The derive macros accept exactly the documented shapes",
  "Deriving Component compiles for every non-generic struct with at least one field (named or unnamed, whatever its name, visibility and attributes) and is refused at compile time for structs without fields, enums and unions. Deriving Tag compiles for every non-generic struct without fields, however written, and is refused for structs with fields, enums and unions. An accepted type implements exactly the derived trait and is usable with a store.",
  ["programs"], "all item definitions a derive can be put on, without generic parameters",
  "The repository has no test of a refused derive, and uses a handful of accepted shapes.",
  ["division_ecs_attributes/src/lib.rs", "src/derived_traits.rs"],
  [("shape check and generated impl", "division_ecs_attributes/src/lib.rs derive_component/derive_tag")],
  [], ["rustc's verdict on generated programs", "behaviour of accepted types in a store"])

p("C18", "Valid use of the API never causes undefined behaviour",
  "No sequence of valid calls makes the library read or write outside its allocations, use freed or uninitialised memory, form misaligned or null references, free memory twice or with a wrong layout. Valid means: component data is written before it is read, and references obtained through different write iterators are not used to alias each other.",
  ["histories", "inputs"], "all histories of valid calls on stores and resource stores, executed under memory checkers",
  "Tests only see wrong values, not stray accesses, and run without any memory checker; almost all state of the library is behind raw pointers.",
  ["src/mem_utils.rs", "src/bitvec_utils.rs", "src/archetype_data_page.rs", "src/archetype.rs", "src/store.rs", "src/order_group_container.rs", "src/resource_store.rs", "src/query/ordered_component.rs", "src/query/entity_component.rs"],
  [("raw allocation, growth and release of all arrays", "src/mem_utils.rs, src/bitvec_utils.rs"), ("unchecked indexing by ids, pages and ranges", "src/store.rs, src/query/*.rs")],
  [], ["AddressSanitizer and Miri reports while executing generated histories"])

p("C19", "Stores and query objects are independent of each other",
  "What a store returns depends only on the calls made on that store: operations on another store alive at the same time, or the creation and destruction of other stores, never change it. A query object can be used again and again, on the same store after any changes or on a different store, and always yields what a fresh query would. An archetype can be shared by several stores and dropped before them.",
  ["histories"], "all interleavings of operations on several stores that share query objects and archetypes",
  "Every test uses one store and uses each query object once.",
  ["src/query/component.rs", "src/query/entity_component.rs", "src/query/ordered_component.rs", "src/store.rs", "src/archetypes_container.rs"],
  [("query caches cleared at the start of each iteration", "src/query/*.rs *_query_iter"), ("archetypes cloned into the store", "src/archetypes_container.rs reserve_archetype")],
  [], ["all query entry points with reused query objects"])

p("C20", "What a store hands out cannot be used past a change of it",
  "A safe program that goes on using a component or resource reference, an archetype reference, or a query iterator or its items after a call that changes, replaces or drops the store it came from (for an iterator also the query object or entity list it was made from), or that uses an exclusive reference across any other use of its store, is refused by the compiler; a program whose uses end before is accepted, and so is one that only reads meanwhile or keeps copies. A store, its iterators, or a resource store whose resources may not cross threads cannot be sent to or used from another thread, and types that own memory or borrow for less than the whole program cannot be components.",
  ["programs"], "all safe programs that obtain, keep and use these references around any calls of the public API",
  "Tests only compile programs that are fine; nothing checks that a dangling use is refused, and the lifetimes are attached by hand to raw pointers in every query and accessor.",
  ["src/store.rs", "src/component_tuple.rs", "src/query/access.rs", "src/query/component.rs", "src/query/entity_component.rs", "src/query/ordered_component.rs", "src/resource_store.rs", "src/archetype.rs", "src/derived_traits.rs"],
  [("lifetimes of references made from raw pointers", "src/component_tuple.rs, src/query/access.rs"), ("receivers and lifetimes of the public calls", "src/store.rs, src/query/*.rs *_query_iter, src/resource_store.rs"), ("bounds of Component", "src/derived_traits.rs, src/component_tuple.rs")],
  [], ["rustc's verdict on each line of generated programs"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
