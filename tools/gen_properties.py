#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

REG = "src/registry/registry.rs"; ER = "src/entity_registry/mod.rs"; ENT = "src/entity_registry/entity.rs"
ENTRY = "src/entity_registry/entry.rs"; ITER = "src/entity_registry/iterator.rs"; IDX = "src/entity_registry/index_in_archetype.rs"
AM = "src/archetype/mod.rs"; AD = "src/archetype/data_access.rs"; AR = "src/archetype_registry/mod.rs"
ITS = ["src/archetype_registry/iterators/" + f for f in ("archetype_iter.rs","archetype_iter_mut.rs","filter_archetype_iter.rs","filter_archetype_iter_mut.rs","matching_iter.rs","matching_iter_mut.rs","filter_matching_iter.rs","filter_matching_iter_mut.rs")]
CG = "src/descriptors/component_group.rs"; CGD = "src/descriptors/component_group_descriptor.rs"
ADESC = "src/descriptors/archetype_descriptor.rs"; CD = "src/descriptors/component_descriptor.rs"; CTI = "src/descriptors/component_type_id.rs"
COMP = "src/descriptors/component.rs"; FNV = "src/fnv1a.rs"; CONST = "src/constants.rs"; DER = "shard_ecs_derive/src/lib.rs"
SLOT = ("entities / next_free_slot", "per-slot version + location, free slots chained through the same entries", ER)
ROWS = ("pointers / entity_associations / entity_count", "parallel columns; row i of every column belongs to the entity in row i", AM)

p("C01", "A handle designates its entity until it is destroyed, and never afterwards",
  "A handle designates an entity from the moment creation returns it until that entity is destroyed or removed. Every operation given a handle that designates no live entity (stale, invalid, or never issued) reports failure, hands back any component it was given, and changes nothing observable. The only exception is a handle whose slot has since been reissued a multiple of 256 times.",
  ["histories", "inputs"], "all histories of create/destroy/remove/add/remove-component over any number of entities, all handles (live, stale, invalid, out of range), up to 255 reuses of a slot",
  "Tests probe a stale handle once right after one destroy and INVALID; never after reuse of the slot, after many reuses, or with every operation.",
  [ER, ENTRY, ENT, REG], [("version and validity check on every lookup", ER + " entity_entry, entity_entry_mut, destroy_entity"), ("version bump on destroy", ER + " destroy_entity")],
  [SLOT], ["return value of every Registry method taking an Entity", "full snapshot after the call"])
p("C02", "Live handles are unique, and entity enumeration lists exactly the live ones",
  "Two live entities of one registry never have equal handles, and a newly issued handle differs from the handles of the preceding 255 entities that used the same slot. Enumerating the entities yields every live handle exactly once and nothing else.",
  ["histories"], "all interleavings of creation and destruction, including free-slot reuse in every order and version wrap-around",
  "The only enumeration assertion in the tests is one-sided and over entities that were never destroyed; one existing test discards the result of the comparison.",
  [ER, ITER, ENT, REG], [("free-slot chain", ER + " create_entity/destroy_entity"), ("enumeration skips invalid entries", ITER)],
  [SLOT], ["Registry::create_entity result", "Registry::iter_entities"])
p("C03", "A live entity's component keeps the value last stored in it",
  "Reading a component of a live entity through any per-entity accessor, shared or mutable, single or grouped, yields the value most recently stored for that entity and component, and reports absence for components it does not have. No operation on another entity, growth of storage, relocation of rows or moving of the entity between component sets changes it.",
  ["histories", "inputs"], "all histories of operations on any entities, component types of every size/alignment (zero-sized, one byte, odd sized, heap owning, over-aligned, large), populations crossing every growth step",
  "Tests use three usize components with mostly identical default values, so swapped or misplaced rows compare equal; component layouts other than usize are never stored.",
  [REG, AD, AM, AR], [("swap_entities / swap_to_last_unchecked and entry update", AD + ", " + REG), ("copy_common_components_between_archetypes_unchecked", AD), ("resize_capacity", AD)],
  [ROWS, SLOT], ["Registry::get_component(_mut), get_components(_mut), has_component(s)"])
p("C04", "Adding or removing a component changes exactly that component of that entity",
  "Adding a component the live entity lacks succeeds, gives it that value, and leaves its other components and all other entities as they were; adding one it already has fails and returns the given value with nothing changed. Removing a component it has (other than its last) succeeds, returns the stored value, and leaves everything else as it was; removing one it lacks or its last one fails with nothing changed.",
  ["histories", "inputs"], "all component sets of size 1 to 14, all add/remove sequences, any position of the entity among the others, any population of source and destination",
  "Tests add and remove one fixed component on entities with default values and never inspect the neighbours that are relocated by the move.",
  [REG, AR, AD, ADESC], [("add_component / remove_component", REG), ("find_or_create_archetype_adding/removing_component", AR), ("copy_common_components_between_archetypes_unchecked", AD)],
  [ROWS, SLOT], ["Registry::add_component, remove_component and the snapshot around them"])
p("C05", "Destroying an entity removes exactly that entity",
  "Destroying a live entity returns true, ends it together with all its components, and leaves every other entity, its handle and its component values exactly as they were. Destroying anything else returns false.",
  ["histories"], "all destruction orders (first, middle, last row, only row, last entity of a component set), repeated destruction, interleaved with creation and component changes",
  "Tests destroy in reverse creation order or with all-equal values, so a mis-relocated survivor is invisible.",
  [REG, AD, ER], [("swap_drop_unchecked and entry update of the relocated entity", REG + " destroy_entity")],
  [ROWS, SLOT], ["Registry::destroy_entity", "snapshot after the call"])
p("C06", "Taking an entity out requires an exact match and returns its components",
  "Removing an entity with a component group succeeds if and only if the entity is live and its component set is exactly that group (in any order); it then returns the stored values in the order of the group, ends the entity and leaves all others as they were. Otherwise it returns nothing and leaves the entity and everything else unchanged.",
  ["histories", "inputs"], "all live entities and all groups: equal, permuted, strict subset, strict superset, overlapping, disjoint, duplicate-containing",
  "The only test calls it with the matching set; the documented mismatch case is never exercised.",
  [REG, AD], [("remove_entity", REG), ("swap_remove_unchecked", AD)],
  [ROWS, SLOT], ["Registry::remove_entity result and snapshot after it"])
p("C07", "Creation yields an entity with exactly the given components, or gives them back",
  "Creating an entity from a valid group succeeds while capacity remains; the new entity has exactly the group's component types with exactly the given values, and every other entity is unchanged. A refused creation returns the components and leaves no entity behind.",
  ["histories", "inputs"], "all valid groups of 1 to 14 distinct component types in any order, any prior history, including storage growth in the middle",
  "Tests create with at most three usize components and inspect only the created entity.",
  [REG, AD, CG, ER], [("create_entity", REG), ("push_entity_unchecked / write_entity_unchecked", AD), ("as_sorted_pointers", CG)],
  [ROWS, SLOT], ["Registry::create_entity and snapshot after it"])
p("C08", "Every component value is handed back or dropped exactly once",
  "A component value given to the registry is either handed back to the caller or dropped by the registry, exactly once, and never while it is still reachable: destruction drops that entity's values, removal hands them back, relocation and growth drop nothing. Dropping the registry drops exactly the values still stored.",
  ["histories"], "all histories ending in a drop of the registry at any point, including refused operations",
  "The drop-logging test components only print and are used by no assertion.",
  [AD, AM, CD, REG], [("drop_entity / drop_entities / Drop for Archetype", AD), ("mem::forget after write", AD), ("drop_handler_wrapper", CD)],
  [ROWS], ["Drop implementations of instrumented components"])
p("C09", "Matching iteration visits each entity having the components exactly once",
  "Iterating over the entities matching a component group yields, for every live entity whose component set includes the group, exactly one row holding that entity's values (and its handle, in the entity-reporting variants), and no other rows. All slices in one step have equal length, and rows line up across them.",
  ["histories", "inputs"], "all histories and all groups, shared and mutable, with and without handles, including component sets reached by adding/removing components and sets emptied again",
  "Tests iterate over at most two component sets with position-derived values and count chunks rather than rows.",
  ITS + [AR, AD, ADESC, REG], [("level-by-level archetype scan + contains_subset", ITS[0]), ("get_fuzzy_pointers_unchecked", AD)],
  [("sorted_mappings", "archetypes by component count and id", AR)], ["Registry::iter_components_matching(_mut), iter_entity_components_matching(_mut)"])
p("C10", "Filtered iteration is matching iteration restricted by the caller's predicate",
  "Filtered iteration yields exactly the rows of matching iteration whose entities' component set satisfies the predicate. The description handed to the predicate lists exactly the component types of the entities it stands for.",
  ["histories", "inputs"], "all groups and predicates over component sets (has/lacks a component, size, inclusion, exclusion), all histories that shaped the component sets",
  "No existing test calls any of the filtered iterators.",
  ITS + [AR, ADESC, REG], [("filter closure evaluated per archetype descriptor", ITS[2]), ("has_component / contains_subset / excludes_subset", ADESC)],
  [], ["Registry::iter_filtered_*"])
p("C11", "Exact iteration covers every entity whose component set equals the group",
  "Exact iteration over a group yields one row for every live entity whose component set is exactly that group, however the entity came to have it (created with it, or by adding or removing components), and no other rows.",
  ["histories", "inputs"], "all groups in every order and all histories leading an entity to a component set",
  "No existing test calls the registry-level exact iterators; none mixes creation with add/remove before one.",
  [REG, AR, ADESC, CGD, AD], [("find_archetype by archetype id", AR), ("compute_archetype_id", ADESC)],
  [], ["Registry::iter_components_exact(_mut), iter_entity_components_exact(_mut)"])
p("C12", "Writes through any mutable access are seen by all later reads, and nowhere else",
  "A value written through a mutable component reference, grouped reference or mutable iteration is what every later read of that entity and component observes, and no other component or entity changes. Mutable references obtained together never overlap.",
  ["histories", "inputs"], "all mutable accessors and iterators x all later accessors, all groups and orders, followed by relocations and growth",
  "Tests compare mutable references with constants but never write through one.",
  [REG, AD, CG] + [ITS[1], ITS[3]], [("get_component_unchecked_mut / get_fuzzy_*_mut", AD), ("pointers_as_mut_ref_tuple / slice_unchecked_mut", CG)],
  [ROWS], ["Registry::get_component_mut, get_components_mut, iter_*_mut"])
p("C13", "The order in which a group lists its components never matters",
  "Component groups are sets: creating, reading, removing, testing or iterating with any permutation of a group gives the same outcome, each value appearing at the position where the caller listed its type.",
  ["inputs", "histories"], "all permutations of all groups of up to 14 component types, for every operation that takes a group",
  "Tests use two or three permutations of three types whose ids are already ascending.",
  [CGD, CG, AD], [("sort mappings", CGD + " compute_sorted_descriptors/compute_sort_mappings"), ("tuple accessors through unsorted_to_sorted", CG)],
  [], ["every Registry method generic over a ComponentGroup"])
p("C14", "A group that repeats a component type is refused everywhere without effect",
  "A group listing a component type twice is not a component set: creation returns the components unchanged, removal and grouped reads return nothing, the membership test is false, and every iteration over it yields no rows. None of these calls panics, alters state or exposes an invalid reference.",
  ["inputs", "histories"], "all groups with at least one repeated type, for every operation, with and without live entities, in builds with and without debug assertions",
  "Only the descriptor's validity flag is tested; no registry operation is ever called with an invalid group.",
  [REG, CGD, ADESC] + ITS[:4], [("is_valid checks", REG + " create_entity; iterators' next"), ("validate_component_descriptors", CGD)],
  [], ["every Registry method generic over a ComponentGroup"])
p("C15", "An entity can hold any 1 to 14 distinct components, however they were added",
  "Every set of 1 to 14 distinct component types is a possible component set, reachable by creation as well as by adding or removing single components. Adding a fifteenth component and removing the only component are refused, with nothing changed and the component returned.",
  ["inputs", "histories"], "all component sets of size 1..14, all orders of growing and shrinking them one component at a time",
  "No test goes beyond three components on one entity.",
  [ADESC, REG, AR, CONST], [("add_component / remove_component on descriptors", ADESC), ("tuple implementations up to 14", CG)],
  [("MAX_COMPONENTS_PER_ENTITY", "limit of 14", CONST)], ["Registry::create_entity, add_component, remove_component"])
p("C16", "Entities share storage identity exactly when their component sets are equal",
  "Two entities are treated as having the same component set if and only if they have exactly the same component types: different sets are never conflated, whatever identifiers the types have, and equal sets are recognised as equal whatever history produced them.",
  ["inputs", "histories"], "all pairs of component sets over all 16-bit type identifiers, including sets whose derived identifiers coincide",
  "Tests use ids 1 to 6; a coincidence of derived identifiers needs a search to find.",
  [AR, ADESC, CGD], [("lookup by archetype id", AR + " find_archetype/find_or_create_archetype"), ("compute_archetype_id", ADESC)],
  [("SortedArchetypeKey.id", "derived identifier of a component set", "src/archetype_registry/sorted_archetype_key.rs")],
  ["Registry reads and iterators", "ArchetypeRegistry::find_or_create_archetype"])
p("C17", "Creation succeeds while under 16,777,215 entities live, and is refused beyond",
  "A registry accepts a new entity whenever fewer than 16,777,215 entities are alive, in any distribution over component sets and after any number of earlier creations and destructions, with all stored data intact through every growth. At the limit creation returns the components unchanged without panicking, and destroying an entity makes room again.",
  ["histories", "configurations"], "all populations up to and including the limit, concentrated in one component set or spread, and all long create/destroy sequences",
  "The largest test population is about 2,000 entities; the limit and the last growth steps are never reached.",
  [ER, REG, AD, CONST, IDX], [("entity count check", ER + " create_entity"), ("resize_capacity doubling", AD), ("IndexInArchetype::new", REG)],
  [SLOT, ("capacity", "rows allocated", AM)], ["Registry::create_entity at and around the limit"])
p("C18", "Up to 65,534 component sets coexist; further ones are refused without damage",
  "A registry accepts at least 65,534 different component sets. Creation or component change that would need one more is refused, returning the component with nothing changed, while everything using existing sets keeps working.",
  ["histories", "configurations"], "all sequences producing up to and beyond the limit of distinct component sets",
  "Tests create a handful of component sets.",
  [AR, REG, CONST], [("MAX_ARCHETYPE_COUNT check", AR + " find_or_create_archetype")],
  [("archetypes / sorted_mappings", "all component sets and their index", AR)], ["Registry::create_entity, add_component, remove_component at the limit"])
p("C19", "A panicking component destructor leaves the registry consistent",
  "If a component's destructor panics during destruction of its entity and the caller catches the panic, the entity is gone, every other entity and value is unchanged, and the registry remains fully usable. No value is ever dropped twice or read after being dropped.",
  ["fault_sequences", "histories"], "a panic in any one component destructor of any destroyed entity at any row, followed by any further history",
  "No test has a component whose destructor panics.",
  [REG, AD], [("order of bookkeeping and drop in destroy_entity / swap_drop_unchecked", REG + ", " + AD)],
  [ROWS, SLOT], ["Registry::destroy_entity under catch_unwind, and everything after"])
p("C20", "Component storage is always allocated, aligned and released correctly",
  "Every reference and slice the registry hands out is properly aligned, inside live storage, and every request it makes to the allocator is valid (never zero-sized, released or resized with the layout it was obtained with, never written outside its bounds). After the registry is dropped all storage it obtained has been released.",
  ["histories", "inputs"], "component types of every size and alignment (zero-sized included), all histories of growth, emptying and drop",
  "Tests store only usize components, never look at the allocator, and never store a zero-sized or over-aligned component.",
  [AM, AD], [("with_capacity / resize_capacity / dealloc layouts", AM + ", " + AD)],
  [ROWS, ("capacity", "rows allocated", AM)], ["global allocator observed by the harness", "addresses of references handed out"])
p("C21", "Registries are independent of each other and of the thread that uses them",
  "What happens in one registry never affects another, and a registry gives the same results whichever thread owns it, and to several threads reading it at the same time.",
  ["histories", "schedules"], "interleaved histories over several registries, ownership moved between threads at any point, concurrent readers",
  "Every test uses one registry in one thread.",
  [REG, AM, AR, ER], [("no shared mutable state; Send/Sync implementations", AM)],
  [], ["every Registry method, on several registries and threads"])
p("C22", "Component-set descriptions behave as sets",
  "A component-set description built by listing types in any order, or by adding and removing types one at a time, describes exactly the resulting set: membership, length, inclusion, exclusion and validity answer accordingly, its identifier depends only on the set, and adding a present type, removing an absent or the last type, or exceeding 14 types is refused.",
  ["inputs"], "all sets of up to 14 type identifiers, all construction sequences, all pairs of sets for inclusion and exclusion",
  "Tests check a few two- and three-element examples; one of the exclusion assertions actually calls inclusion.",
  [ADESC, CGD, CD], [("ArchetypeDescriptor add/remove/contains_subset/excludes_subset", ADESC), ("ComponentGroupDescriptor::new", CGD)],
  [], ["ArchetypeDescriptor and ComponentGroupDescriptor public methods"])
p("C23", "A component type's identity is a stable function of its declared name",
  "Unless overridden, a component type's identifier is the 16-bit xor-folded FNV-1a hash of its declared name, identical in every build and run. Deriving the component trait declares the type's own name, and a derived component behaves exactly like a hand-written one.",
  ["inputs", "programs"], "all names (any bytes, any length), all types the derive accepts, hash functions at every length and limit",
  "No test computes a hash value or an identifier, and the derive macro has no tests.",
  [FNV, COMP, CTI, DER], [("fnv1a_hash_*", FNV), ("Component::ID default", COMP), ("derive_component", DER)],
  [], ["Component::ID, Component::NAME, fnv1a functions"])
p("C24", "Low-level component storage follows its documented row semantics",
  "Each storage operation of a single component set does what its documentation says and nothing else: push appends a row, swap removes or relocates exactly the named rows and reports whether a relocation happened, remaining rows keep their handle and values, reads return the row's values, and length, capacity and fullness agree with the rows held.",
  ["histories"], "all sequences of permitted low-level storage operations at all row positions, starting from zero or any initial capacity",
  "Tests swap one pair in a two-row storage and never call the removing operations or start from zero capacity.",
  [AD, AM], [("push/swap_drop/swap_remove/swap_to_last/swap_entities/resize", AD)],
  [ROWS], ["Archetype public methods"])
p("C25", "The low-level entity table and component-set index keep their own contracts",
  "Used directly, the entity table resolves a handle exactly while its entity lives and returns the location last recorded for it, reports room exactly when a creation would succeed, and enumerates the live handles; the component-set index returns the same storage for the same set, never moves or loses one, and finds or creates the set one component larger or smaller on request.",
  ["histories", "inputs"], "all sequences of direct operations on the entity table and on the component-set index",
  "Tests use constant locations for all entities and a single component set.",
  [ER, ENTRY, IDX, AR], [("EntityRegistry", ER), ("ArchetypeRegistry find/find_or_create/adding/removing, disjoint_mut", AR)],
  [SLOT], ["EntityRegistry and ArchetypeRegistry public methods"])
p("C26", "Packed handles and table entries keep their fields independent",
  "Packing an index below 2^24 with a version into a handle, or a version, 24-bit row and 16-bit storage index into a table entry, loses nothing: every field reads back as last set, and setting one field never changes another. Only the documented invalid values are treated as invalid.",
  ["inputs"], "all field values and all orders of setting them",
  "Tests set ten sample values per field.",
  [ENT, ENTRY, IDX, "src/entity_registry/archetype_index.rs", CONST], [("bit packing", ENT + ", " + ENTRY + ", " + IDX)],
  [], ["Entity, EntityEntry, IndexInArchetype, ArchetypeIndex public methods"])
p("C27", "Iterating by itself changes nothing, however the iteration ends",
  "Walking over components never changes the registry except through the references it hands out, whether the iteration runs to its end, is given up halfway, or is unwound by a predicate that panics: what was not yielded is untouched and everything works afterwards as before. What was yielded until then is part of the full answer, each entity at most once. A finished iterator stays finished, and shared iterators side by side do not disturb each other.",
  ["histories", "fault_sequences"], "all queries, all points at which an iteration is given up or its predicate panics, all histories before and after",
  "Tests run every iterator to its end in a for loop and never look at the registry afterwards; no predicate panics.",
  [AR, REG] + ITS, [("the iterators' cursors", "src/archetype_registry/iterators/")],
  [("current_level / current_index_in_level", "cursor of an iterator", ITS[0])], ["matching, filtered and exact iteration, each stepped, dropped or unwound at any point"])
p("C28", "Every safe call on a registry returns, with the answer or a refusal",
  "No call of the registry's safe interface panics, hangs or crashes, whatever handle, group or component it is given and whatever happened before: it returns its result or refuses. The only panics that come out of it are those of the caller's own code (destructors, predicates) and those of running out of memory.",
  ["histories", "inputs"], "all calls with any handle (live, dead, foreign, invalid), any group (repeated types, up to and beyond 14) in any state, at every limit",
  "Tests make only calls that are meant to succeed, apart from a handful of refused ones, in registries with one to three entities.",
  [REG, AR, ER, AM], [("Registry methods", REG), ("lookup and growth", AR + ", " + ER + ", " + AM)],
  [], ["every Registry method"])
p("C29", "Memory is bounded by the populations reached, not by the length of its use",
  "The memory a registry holds depends on how many entities of each component set, and how many in all, it has held at once. Creating and ending entities, adding and removing components, and asking questions, over and over within populations already reached, does not make it grow.",
  ["histories"], "histories of any length within bounded populations",
  "No test looks at memory; none repeats anything more than a few times.",
  [ER, AM, AR], [("reuse of slots", ER), ("rows and their storage", AM), ("sets found again", AR)],
  [SLOT, ("capacity", "rows allocated", AM)], ["bytes requested from the allocator"])
p("C30", "A refused request for memory is never mistaken for memory",
  "When the allocator refuses a request for memory during a call, the call panics (or the process ends): it reports neither success nor refusal, it touches no memory that is not its own, and of all values it drops at most those it was given, once. Other registries are unaffected, and the registry it happened to can still be dropped: nothing is released that was not obtained so, and no value is dropped twice (it may leak). Using that registry in any other way is not claimed.",
  ["faults", "histories"], "every call that needs memory, each of its requests refused in turn, in any state",
  "Tests never run out of memory. Growth reallocates one block after the other, so the state in between is met only when one particular request fails.",
  [AM, REG], [("growth, block by block", AM), ("calls that make room", REG)],
  [("capacity, entity_count, pointers", "storage while it grows", AM)], ["create_entity, add_component, remove_component", "drop of Registry"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
