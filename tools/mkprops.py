#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
DB="internal/database/database.go"; SN="internal/database/snapshot.go"; IX="internal/index/index.go"
TY="internal/index/typed.go"; CM="internal/index/compare.go"; SC="internal/index/scan.go"; SY="internal/sys/sys.go"
SH="internal/structs/shredder/shredder.go"; FI="internal/structs/shredder/field.go"; AS="internal/structs/assemblers/assemblers.go"
MO="internal/structs/models/models.go"; SM="internal/structs/schemas/schemas.go"; PD="pkg/database/database.go"; PI="pkg/database/impl.go"
IT="internal/iterator/iterator.go"; HE="internal/database/helpers.go"; TX="internal/types/txn.go"

p("C01","Snapshots never change",
 "A snapshot, whether read from the database or returned by an accepted or rejected write, gives the same answer to every query, ident resolution and struct lookup for as long as it is held, whatever is written to the database afterwards. Neither later writes, nor changing the request that was written, nor changing a struct found through the snapshot has any effect on it.",
 ["histories","inputs"],"every history of writes (asserts, replacements, retractions, schema declarations, rejected requests), every snapshot taken at any point in it, every query asked of it later",
 "TestSnapshotIsolation holds one snapshot over one replacement of one int; sharing bugs in the copy-on-write trees, the per-snapshot ident and attribute tables or the shared attribute-type table need particular later writes.",
 [DB,SN,TY,PI],[("clone-and-swap of the three indexes per write",DB+":Write"),("copy-on-write btree clone",TY+":Clone"),("cloned ident and attribute maps per snapshot",DB+":read")],
 [("eav/aev/ave","the three datum indexes shared copy-on-write with snapshots",DB)],["Snapshot.Select/Count/Has/ResolveIdent/ResolveAttrIdent","TypedSnapshot.Find"])
p("C02","Rejected writes leave no trace",
 "A write is all or nothing: when a request is rejected, the database afterwards answers every query and resolves every ident and lookup exactly as before, no matter how many of the request's claims were individually valid or where in it the offending claim stood. The response then carries an error, no transaction id, no temporary-id bindings, and a snapshot equal to the unchanged database, and the next accepted write behaves as if the rejected one had never been made (struct writes may still have registered their types' attributes).",
 ["inputs","histories","fault_sequences"],"every request that contains at least one invalid element of any kind at any position, issued at any point of any history",
 "TestWriteErrorLeavesDatabaseIntact rejects one one-claim request; partial application needs several claims with the fault late, or validation that runs after some caches or indexes have been touched.",
 [DB,PI],[("evaluation and invariant checks before the clones are swapped in",DB+":Write"),("id counter rolled back on error",DB+":Write")],
 [("nextID","next entity id to issue",DB)],["Response.Error/ID/TempIDs/Snapshot","Database.Read"])
p("C03","Accepted writes have exactly the claimed effect",
 "After an accepted write, the database holds exactly the previous datums, minus those the request retracts or replaces, plus those it asserts, and nothing else has changed; a request that violates no documented rule is accepted. Each datum keeps the id of the transaction that first asserted it until it is retracted or replaced, re-asserting a datum already held changes nothing, and transaction ids strictly increase.",
 ["histories","inputs"],"every history of requests mixing assertions, per-datum retractions and whole-entity retractions over all value types, cardinalities and uniqueness settings",
 "The tests check single expected datums after one or two writes; lost, extra or wrongly attributed datums in other entities, other indexes or later transactions are not looked for.",
 [DB,TY,IX],[("per-claim application to eav, aev and ave",DB+":Write"),("insert keeps the earliest transaction",TY+":Insert")],
 (),["Snapshot.Select(Claim{})","Response.ID"])
p("C04","Queries agree with filtering all datums",
 "For every combination of given and omitted entity, attribute and value, selecting, counting and testing existence agree with each other and with filtering the full set of datums by the given fields. Entities, attributes and reference values may be given as ids, idents or lookups with the same result; a reference that resolves to nothing, an id that is no attribute, or a value of the wrong type matches nothing, and no query fails. Selections constrained by entity or unconstrained come in entity, attribute, value order.",
 ["inputs","histories"],"every reachable database state and every claim pattern: 8 shapes x id/ident/lookup forms x matching, missing and mismatched values of every type",
 "TestSnapshotQueryRouting asks about one entity with two attributes, with values that exist or are plain absent ints; scan starting points, value filters, wrong-type values and unresolvable references are unsampled.",
 [SN,IX,TY,CM,SC],[("access path choice",SN+":access"),("reference resolution",SN+":resolveClaim"),("scan start points per type",IX+":Select"),("value filter",SN+":filterByV"),("typed-tree merge",SC+":mergeEAV")],
 (),["Snapshot.Select/Count/Has"])
p("C05","Single-valued attributes hold one value, many-valued hold sets",
 "In every reachable state an entity has at most one value for an attribute of cardinality one, and asserting a different value replaces the old one for every query path, whatever the value's type, sign or magnitude. An attribute of cardinality many holds exactly the set of distinct values asserted and not retracted. A request that asserts two different values for the same entity and single-valued attribute is rejected.",
 ["inputs","histories"],"every history over attributes of each type and cardinality, with values across the full range of each type, entities named by id, ident, lookup or temporary id that resolve to the same entity",
 "TestCardinalityOneReplaces replaces 40 by 41; values that sort before a type's zero value, entities reached through different references in one request, and leftovers in only one of the indexes are not sampled.",
 [DB,IX,"doc/architecture.md"],[("find-and-delete of the extant datum",DB+":Write"),("first datum of an entity and attribute",IX+":First")],
 [("attrCardManies","attributes that hold sets",DB)],["Snapshot.Count/Select"])
p("C06","Unique attributes admit one owner per value",
 "In every reachable state no two entities hold the same value for an attribute declared unique, for either kind of uniqueness, every value type, and every way of naming the entity, including two claims of one request. Claiming a value-unique value owned by another entity, or an identity-unique value owned by another entity for an entity that is not a new temporary one, is rejected; an entity may always re-assert its own value, and a value becomes available again once its owner loses it.",
 ["inputs","histories"],"every history of assertions, replacements and retractions on unique attributes of every type, conflicts with earlier transactions and within one request, entities named by id, ident, lookup, temporary id",
 "Tests try one collision across two requests for a string; collisions inside one request, through explicit ids, after replacement or retraction, or through stale uniqueness-index entries are unsampled.",
 [DB,SN,"README.md"],[("uniqueness check against ave",DB+":Write"),("ave maintenance on insert, replace and delete",DB+":Write")],
 [("ave","value index over unique attributes",DB)],["Response.Error","Snapshot.Count(A,V)","lookup resolution"])
p("C07","Temporary ids resolve consistently to one entity",
 "Within a request every use of a temporary id, as entity or as value, denotes one entity: the existing entity that holds an identity-unique value claimed for it, the same entity as any other temporary id claiming the same identity-unique value, and otherwise a new entity whose id was never issued before. The response maps every temporary id of the request to exactly that entity, and a request whose identity claims would equate two distinct existing entities is rejected.",
 ["inputs","histories"],"every request using temporary ids in entity and value position, in any claim order, with zero, one or several identity-unique claims per temporary id, matching none, one or several existing entities",
 "TestIdentityUnique upserts one entity by one identity claim that comes first; claims before the identity claim, several identities, references to rewritten ids, and chains between temporary ids are unsampled.",
 [DB],[("tempid allocation and rewriting",DB+":evaluateClaim,Write"),("id allocation",DB+":allocateID")],
 [("rewrites","newly allocated ids that resolve to extant entities",DB)],["Response.TempIDs"])
p("C08","Only well-typed, resolvable claims are accepted",
 "A request is rejected with an error, never a panic, if any claim or retraction names an entity that was never issued, an ident or lookup (as entity, attribute or value) that denotes nothing, an attribute that is not declared, or a value that is missing or not of the attribute's type; a plain id given as a reference value need not denote anything. Consequently every datum of every reachable state has a declared attribute and a value of that attribute's type.",
 ["inputs","histories"],"every request built from arbitrary entity, attribute and value references (all reference kinds, zero and future ids, missing idents, unmatched or ill-typed lookups, nil) against every declared attribute type",
 "TestWriteErrorCodes has one example per error code on an otherwise empty database; the cross product of reference kind, position and attribute type is not covered.",
 [DB,SY],[("claim evaluation",DB+":evaluateClaim"),("type check",SY+":ValidValue"),("lookup resolution",DB+":resolveLookupRef")],
 [("attrTypes","declared value type per attribute",DB)],["Response.Error","Snapshot.Select(Claim{})"])
p("C09","Attribute definitions are complete and permanent",
 "Every attribute entity has an ident and a valid type (and valid cardinality and uniqueness if any), and once declared, its ident, type, cardinality and uniqueness never change and are never retracted, however the attribute is named in the request. Declaring an attribute again identically is accepted and changes nothing: the ident keeps denoting the same attribute, and existing data stays reachable through it; incomplete or conflicting declarations are rejected.",
 ["inputs","histories"],"every history of declarations, re-declarations (by temporary id, id, ident or lookup), partial declarations and retraction attempts, interleaved with data writes",
 "TestWriteAttr re-declares one attribute and looks only at the absence of an error; TestWriteAttrImmutability names the attribute by id only.",
 [DB,HE],[("attribute invariants",DB+":Write (switch on sys attributes)"),("completeness check over attrChanges",DB+":Write")],
 [("attrsByID","known attributes",DB)],["Snapshot.ResolveIdent/ResolveAttrIdent","attribute datums","Response.Error"])
p("C10","The system vocabulary is protected",
 "The built-in entities, idents and attribute definitions are present from the start and remain exactly as they were through every history: any request that asserts a built-in ident for a user entity, makes claims about a built-in entity, or would retract one of its datums is rejected. Idents outside the reserved root are accepted.",
 ["inputs","histories"],"every built-in entity and ident, every reference form, every claim about them in any history, and user idents near the reserved root",
 "TestWriteErrorCodes tries one reserved ident on a new entity; claims about built-in entities and retractions of them are untested.",
 [SY,DB,"README.md"],[("reserved root check",SY+":ValidUserIdent"),("bootstrap of system datums",DB+":NewIndexDatabase"),("system entity check",DB+":Write")],
 (),["Snapshot.Select(E: system id)","Response.Error"])
p("C11","Idents resolve exactly as the ident datums say",
 "In every snapshot an ident resolves to the entity that holds it as its ident datum in that snapshot, and to nothing if no entity does; an attribute's id resolves back to its ident. This stays true when idents are asserted, changed, moved to another entity or retracted, and the same resolution is used for reading and writing.",
 ["histories","inputs"],"every history of ident assertions, changes, retractions (including of idents the entity does not hold) and attribute declarations; every ident and attribute in every snapshot",
 "No test changes or retracts an ident; the ident table is maintained separately from the datums, so it can drift from them without any test noticing.",
 [DB,SN],[("ident table maintenance",DB+":Write"),("per-snapshot copy",DB+":read")],
 [("idents","ident to entity table",DB)],["Snapshot.ResolveIdent/ResolveAttrIdent","Write with Ident references"])
p("C12","Retracting an entity removes exactly its datums",
 "An accepted retraction of an entity removes every datum whose entity it is, from every query path, and nothing else: entities it refers to and datums that refer to it stay. All constraints given must resolve to one and the same entity, otherwise, or if none is given, the request is rejected; its unique values and idents become available again, and what the same request asserts about it is present afterwards.",
 ["inputs","histories"],"every entity state (all types, cardinalities, uniqueness), every set of constraints (ids, idents, lookups; consistent, inconsistent, unresolvable, empty), alone or together with claims and other retractions",
 "TestRetract removes one three-attribute entity and checks one datum through a lookup that no longer resolves; multi-valued, negative, boolean and instant values, and leftovers in single indexes, are unsampled.",
 [DB],[("retraction expansion",DB+":Write"),("constraint resolution",DB+":Write")],
 (),["Snapshot.Select/Count","Response.Error"])
p("C13","Values read back exactly as written",
 "Every value that is accepted is read back through every query path with the same type and the same value: any string, any 64-bit integer, any float (including negatives, infinities and NaN), both booleans, any reference, and any instant truncated to the millisecond, in UTC. Two instants in the same millisecond are the same value and values that differ are kept apart.",
 ["inputs"],"all values of all six types incl. extremes, invalid UTF-8, adjacent floats, negative and pre-epoch instants, in single- and many-valued, unique and plain attributes",
 "TestValueTypeRoundTrip uses two small positive values per type.",
 [IX,TY,CM,SN],[("typed storage conversions",IX+":valuers, reint, reuint"),("value comparison",CM),("value equality in filters",SN+":valuesEqual")],
 (),["Snapshot.Select/Has","index Find/Select"])
p("C14","Indexes behave as ordered sets of datums",
 "For any sequence of inserts, deletes and clones, an index holds exactly the inserted and not deleted datums (identified by entity, attribute and value, keeping the first transaction), and find, select, first, count and full scans report exactly that set restricted to the requested prefix: prefix scans in the index's sort order, and the full scan of an entity-ordered index in entity, attribute, value order. A clone and its original evolve independently, whatever the tree size or degree.",
 ["histories","inputs"],"every operation sequence on entity-, attribute- and value-ordered indexes over all value types, tree degrees from 2 up, sizes forcing node splits and merges, interleaved clones",
 "The matrix test inserts two datums per type at degree 32, so no node ever splits, no clone ever diverges structurally, and no negative float, NaN or large prefix is scanned.",
 [IX,TY,CM,SC],[("sort orders",CM),("prefix scans",TY+":Select,First,Count"),("composite dispatch",IX),("merge of typed trees",SC+":mergeEAV")],
 (),["index.Index methods"])
p("C15","Concurrent use is safe and linearizable",
 "Any number of goroutines may read, query snapshots and write at the same time without data races, and the outcome is as if the writes had happened one at a time in transaction-id order, consistent with real time. Each response's snapshot is the state right after its own write, each read returns the state after some prefix of the writes that includes every write finished before the read began, and a snapshot stays stable under queries from many goroutines during writes.",
 ["schedules","histories"],"every schedule of concurrent writers (data, schema declarations, rejected requests, struct writes) and readers, querying old and new snapshots",
 "All tests are single-threaded.",
 [DB,SN,IX,MO,PI],[("database lock",DB+":Write,Read"),("immutable per-snapshot state",DB+":read"),("shared type-model cache",MO+":cachingAnalyzer")],
 [("lock","guards the database fields",DB),("attrTypes","attribute types used by every index clone",IX)],["race detector","Response.ID/Snapshot","Database.Read"])
p("C16","Structs read back as they were written",
 "Writing a struct whose fields use any mix of the supported kinds (scalars, named and pointer scalars, times, nested structs and struct pointers, maps of structs or struct pointers, slices of structs or scalars, ids) and finding it by the id returned for it yields an equal struct with its id filled in. Equality is up to instants truncated to milliseconds in UTC, absent versus empty collections, and empty fields marked to be ignored; slice order, map keys and nil-ness of pointers are preserved, and ids are returned in the order of the assertions.",
 ["inputs","programs"],"every struct type that can be composed from the supported field kinds and tags, and every value of it",
 "Shredder and assembler are tested separately on about ten fixed types with one value each; no test writes and reads back nested, mapped or sliced structs, ints in collections, or collections of nested structs.",
 [SH,FI,AS,MO,SM,PI],[("struct to claims",SH+":assert"),("datums to struct",AS+":assemble"),("schema claims",SM+":Analyze")],
 (),["pkg/database Write, BuildTypedSnapshot, Find"])
p("C17","Struct types determine the attribute schema",
 "Writing a struct declares, for every tagged field reachable from its type, exactly one attribute with the ident, value type, uniqueness and cardinality its tag and Go type call for, and nothing for untagged fields; writing more values of that or any other agreeing type keeps the same attributes. A type whose tags disagree with an attribute already declared (another value type, a collection where it is single-valued, or newly or differently unique) is rejected.",
 ["programs","histories"],"every struct type composed of supported field kinds and tags, recursive types, types sharing attributes, and every order of writing them",
 "The schema tests compare the claims for seven fixed types and never write them twice, so re-declaration and disagreement between types are untested.",
 [SM,MO,PI,DB],[("tag parsing",MO+":parseAttrTag,parseAttrField"),("type traversal",SM+":Analyze"),("re-declaration on each write",PI+":Write")],
 (),["attribute datums after Write"])
p("C18","Struct identity fields select the entity written",
 "Writing a struct records it on the one existing entity that its id field and identity fields denote, on a new entity if they denote none, and fails without changing any entity if they denote different entities, if a unique field's value belongs to another entity, or if the id was never issued. The id returned for each assertion is that of the entity actually written, so equal identities always give equal ids, within one request and across requests.",
 ["inputs","histories"],"every history of struct writes with any combination of id, identity, several identity, and unique fields, set or ignored when empty, matching none, one or several entities",
 "The public API test uses one type without unique fields; no test writes a struct twice with an identity or unique field.",
 [SH,DB,PI,"README.md"],[("id field handling",SH+":assert"),("identity resolution",DB+":Write"),("returned ids",PI+":Write")],
 (),["Response.IDs","Find"])
p("C19","Entities can be viewed and updated through any struct type",
 "Finding an entity through any struct type fills exactly the fields whose attributes the entity has, whatever type it was recorded from, and leaves the rest empty; an entity without any datums is not found. Recording a struct over an existing entity changes only the attributes present in that struct: attributes it lacks, nil pointers and empty fields marked to be ignored leave the recorded values untouched.",
 ["inputs","histories","programs"],"every history of writes of overlapping struct types to the same entities, and every struct type to read them back with",
 "One test reads one string field through a second type; partial updates and projections over other kinds are untested.",
 [AS,SH,PI],[("fields matched by attribute ident",AS+":assemble"),("nil and ignoreempty handling",SH+":assert")],
 (),["Find through several types"])
p("C20","Struct retraction removes the denoted entity",
 "Retracting a struct removes all and only the datums of the entity its id and unique fields denote, including attributes the struct type does not mention; the entity is then not found and its unique values are free again. If those fields denote nothing or different entities, or the struct has none of them set, the request fails and changes nothing.",
 ["inputs","histories"],"every history of struct writes and retractions identified by id, identity or unique fields, alone, combined, conflicting, unset or ignored when empty",
 "One test retracts one one-field struct by id.",
 [SH,DB,PI],[("retraction constraints from fields",SH+":retract"),("retraction expansion",DB+":Write")],
 (),["Write, Find"])
p("C21","Unusable struct definitions and values are errors, not panics",
 "Asserting, retracting or building a view for something that is not a struct or pointer to struct, a nil pointer, a struct with an unsupported field type, malformed or contradictory tag directives, an id field of the wrong type, or id fields that disagree, returns an error and changes no entity. Fields without a tag are ignored, whatever their type.",
 ["inputs","programs"],"every Go type composed with arbitrary field types and attribute tags, valid or not, used in assertions, retractions and views",
 "Tests pass one int to the shredder; no invalid tag, unsupported field type or untagged field is ever tried.",
 [MO,SH,FI,SM,PI],[("model analysis",MO+":Analyze,parseAttrTag"),("model cache",MO+":cachingAnalyzer"),("shredder kind checks",SH)],
 (),["Response.Error","BuildTypedSnapshot error"])
p("C22","Object graphs keep their shape",
 "Writing structs linked by pointers records each distinct struct once, whatever the sharing or cycles, and finding any of them yields a graph with the same shape: following the same pointer, map or slice path leads to equal fields and, below the root, two paths meet in the same struct exactly when they did originally. This also holds when shared structs are denoted by identity rather than by pointer, and when an entity is reached both by pointer and by value.",
 ["inputs"],"every finite graph of structs linked by pointer fields, maps of pointers, value fields and slices, including cycles, self-references, shared targets and graphs asserted from several roots",
 "Tests have one two-node cycle per component and never write and read it back.",
 [SH,FI,AS],[("pointer registry in shredding",SH+":assert"),("pointer registry in assembly",AS+":assemble")],
 (),["Write then Find, datum counts per graph"])
p("C23","Sequences can be abandoned, repeated and interleaved",
 "Every sequence of datums may be consumed partially, repeatedly, nested inside another and interleaved with writes: each full pass yields the same datums in the same order, a partial pass yields a prefix of it, and abandoning one has no effect on anything. Concatenating sequences yields their elements in order, and after the consumer stops nothing further is produced.",
 ["inputs","histories"],"every sequence the query and index interfaces return, every stopping point, every nesting, with writes between elements",
 "Tests collect sequences in full; iterator tests stop one concatenation once.",
 [SC,TY,IX,SN,IT],[("early stop in tree scans",TY+":Select"),("pull-based merge",SC+":mergeEAV"),("concatenation",IT+":Concat")],
 (),["Snapshot.Select","Index.Select/All","iterator.Concat"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
