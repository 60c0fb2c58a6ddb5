#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json, MANIFEST.json and DESIGN.md's section per property (run after editing the tables below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENC = "Go SSA built from /repo's working tree (plus the harness, laid in as an overlay) is executed symbolically; every branch and assertion over symbolic data is decided by z3 on bit-vector terms; counterexamples are replayed on a native build of the same tree and reported only if they reproduce there."
TRUST = ["the Go compiler front end (go/types, x/tools ssa) and z3 4.8.12",
         "models of code outside the repository: protobuf marshalling and equality (structural, injective), sha256/base64/hex (injective), fmt, zap (no effect), YAML text (a document is its decoded structure), time (a fresh instant per call), Go map iteration order (any order where a harness asks for it)",
         "the storage back end is the harness's ordered key-value store, which keeps the contract of the storage interface"]
P = []
def prop(id, title, statement, over, text, why, files, mech, level, rule, hs, outside, observe=None, assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, rule=rule, hs=hs, outside=outside, observe=observe or [], assume=list(assume)))

def h(name, bounds, reach=(), q=300, t=1500, **kw):
    d = dict(name=name, quick_s=q, thorough_s=t, reach=list(reach), bounds=bounds); d.update(kw); return d

prop("C01", "Check grants exactly what the policy's set expressions define",
 "A check is granted if and only if the subject is a member of the object's relation under the policy: direct relationships, relationships through other usersets, wildcards over a resource, computed usersets, tuple-to-userset rules, and union, intersection and difference of them, where a difference never applies to itself. Cycles among relationships or relations neither prevent an answer nor hide members reachable another way. The answer never depends on unrelated relationships or the order in which they were set.",
 ["programs", "inputs", "histories"], "all policies, relationships, and requests: expression shapes, operators, references, cyclic data",
 "The tests check a handful of fixed policies and requests; a wrong answer needs a particular combination of operator, cycle and data, of which there are unboundedly many.",
 ["internal/relation_graph/searcher.go", "internal/relation_graph/rule_evaluator.go", "internal/relation_graph/walker.go", "internal/relation_graph/service.go", "internal/store/kv_store/node_repository.go"],
 [("goal tree search", "internal/relation_graph/searcher.go"), ("rewrite rules", "internal/relation_graph/rule_evaluator.go")],
 "model_checking", "the verdict of the real service equals the membership computed by an independent least-fixpoint evaluation of the same symbolic policy and relationships",
 [h("CheckExpr", "one relation with any three-leaf expression (3 operators, both groupings, leaves this/computed userset) over two plain relations; up to 2 symbolic relationships (3 thorough), any subject kind", ["granted", "denied"]),
  h("CheckRec", "two mutually recursive relations, expressions with operators over this/computed userset; 2 symbolic relationships (3 thorough), objects 2, usersets and cycles", ["granted", "denied"]),
  h("CheckTTU", "tuple-to-userset rules across objects, with union/intersection/difference; 2 symbolic relationships (3 thorough)", ["granted", "denied"]),
  h("CheckMutual", "four relations of one resource referring to one another cyclically, 1 (2) symbolic operators, computed usersets; symbolic relationships", ["granted", "denied"]),
  h("CheckNames", "resource, relation and id texts which extend one another or contain '*' and '/'", ["granted", "denied"]),
  h("CheckHistory", "a check after the policy was updated, its relationships changed, it was deleted and created anew, another policy or instance was used, the service reopened", ["granted", "denied"]),
  h("CheckLarge", "chains and sets of 110 (260) relationships in 6 shapes, with a symbolic gap, cycle or exclusion", ["granted", "denied"], max_steps=60000000),
  h("CheckLong", "chains of 610 (1030) usersets, relations or objects, whole or without the last link", ["granted", "denied"], max_steps=200000000, max_depth=12000),
  h("CheckWide", "300 (1100) direct subjects or usersets of an object and as many of another relation, the deciding one first, in the middle, last or absent; a difference of both", ["granted", "denied"], max_steps=600000000),
  h("CheckDeep", "any operator after 1 to 6 (12) steps through usersets, relations, objects, or objects with an exclusion at each, below a plain reference, either side of a difference or an intersection; 3 kinds of subject", ["granted", "denied"])],
 "more relationships, relations and nesting than stated; expressions in which a difference applies to itself through a cycle (no set semantics); tuple-to-userset rules whose computed relation the reached resource lacks (the check reports an error)",
 ["RelationGraph.Check"])

prop("C02", "An explained check tells the same verdict as the check, in the format asked",
 "Explaining a check returns the verdict which the check itself returns, fails when and only when it fails, states the format it used, and rejects unknown formats. A DOT explanation is a well-formed document, one tree whose top shows the verdict, whatever characters the ids contain; a JSON explanation is a JSON document of the tree.",
 ["programs", "inputs"], "all policies, relationships, requests, formats and id texts",
 "The tests explain no check with operators, cycles or special characters, and never compare it with the verdict.",
 ["internal/relation_graph/service.go", "internal/relation_graph/goal_tree.go", "internal/relation_graph/goal_tree_serializer.go"],
 [("goal tree serialisers", "internal/relation_graph/goal_tree_serializer.go"), ("ExplainCheck", "internal/relation_graph/service.go")],
 "model_checking", "verdict, error and format of ExplainCheck agree with Check; the DOT document parses and its top node carries the verdict",
 [h("ExplainRec", "two recursive relations with operators; 1 (2) symbolic relationships, one more in DOT; every format and unknown ones; missing policy/relation", ["granted", "denied", "failed", "bad-format"]),
  h("ExplainText", "ids of up to 2 (3) characters over quotes, backslashes, newlines, braces, arrows, comment signs", []),
  h("ExplainLarge", "chains and sets of 40 (110) relationships in 6 shapes with a symbolic gap, cycle or exclusion, every format", ["granted", "denied", "bad-format"], max_steps=60000000)],
 "the wording of labels; JSON text beyond well-formedness as produced by the standard encoder", ["RelationGraph.ExplainCheck"])

prop("C03", "A relationship is accepted exactly if its policy permits it",
 "Setting a relationship succeeds if and only if the policy exists, the object's resource has the relation, and the relation's subject restriction admits the subject: any defined resource and relation for an unrestricted relation, exactly the listed resources, usersets or wildcards otherwise. A rejected relationship leaves the stored data as it was.",
 ["inputs", "programs"], "all policies with their restrictions, and all relationships",
 "The tests try a few accepted and rejected relationships; admission must hold for every restriction and subject.",
 ["internal/policy/spec.go", "internal/policy/service.go", "internal/policy/helpers.go"],
 [("allowed relationship specification", "internal/policy/spec.go")],
 "model_checking", "SetRelationship succeeds iff an independent predicate over the symbolic policy and relationship holds; otherwise the store is byte-for-byte unchanged",
 [h("SetAdmission", "a restricted relation with 0-2 symbolic entries of every kind, unrestricted ones of two resources; symbolic object, relation and subject of every kind, names defined and undefined", ["accepted", "rejected"]),
  h("SetNames", "resources and relations whose names join alike (g, g/, g/m; m, /m, m/m)", ["accepted", "rejected"]),
  h("SetMany", "34 (70) resources, relations and restriction entries; every subject kind", ["accepted", "rejected"], max_steps=60000000)],
 "more than two restriction entries or resources", ["PolicyService.SetRelationship"])

prop("C04", "The relationships of a policy behave as a map, apart from every other policy's",
 "Under any history of set, delete and get calls, a relationship is stored exactly if it was set and not deleted since, with the application data last set and the owner policy recorded; responses state truthfully whether a relationship was overwritten or found. No call on one relationship or policy affects another, whatever texts their names, ids and relations are.",
 ["histories", "inputs"], "all histories over several policies and relationships, with arbitrary names",
 "The tests store two or three relationships with unlike names; confusion needs specific names or orders.",
 ["internal/store/kv_store/policy_repository.go", "internal/store/kv_store/relationship_store.go", "internal/store/kv_store/model.go", "internal/store/kv_store/mapper.go"],
 [("relationship keys", "internal/store/kv_store/relationship_store.go"), ("edge and data stores", "internal/store/kv_store/policy_repository.go")],
 "model_checking", "every response, lookup and listing equals that of a map per policy",
 [h("HistoryOps", "3 (4) operations of set/delete on 2 policies, symbolic relationships of every subject kind", ["set", "delete"]),
  h("HistoryNames", "two relationships and two policies whose names are arbitrary texts over separators and letters, which may concatenate alike", []),
  h("HistoryMany", "70 (130) relationships, any of them overwritten or deleted", ["set", "delete"], max_steps=60000000),
  h("HistoryLong", "names and data of 300 (1100) characters which differ at their end", ["set", "delete"], max_steps=60000000),
  h("HistoryOrphans", "2 relationships in one of 2 policies, which an update of the policy (5 ways: a relation, the object's or subject's resource, the permission or everything gone) leaves unfit, one of them deleted or not, and the policy updated back", ["delete"])],
 "longer histories and names", ["PolicyService.SetRelationship", "PolicyService.GetRelationship", "PolicyService.DeleteRelationship", "PolicyService.FindRelationshipRecords"])

prop("C05", "A selector finds and deletes exactly the relationships it matches",
 "Finding relationships by a selector returns every stored relationship of that policy which matches on object, relation and subject, once each with its data, and no other; a selector whose object, relation or subject part names a resource, or whose relation part names a relation, the policy lacks is rejected. Deleting by a selector removes exactly the matching relationships and reports their number.",
 ["inputs", "histories"], "all selectors and all stored relationships",
 "The tests try few selectors on one data set, not each combination of selector parts with each kind of subject.",
 ["internal/policy/selector_spec.go", "internal/store/kv_store/policy_repository.go", "pkg/domain/selector.go"],
 [("selector filtering", "internal/store/kv_store/policy_repository.go"), ("selector validation", "internal/policy/selector_spec.go")],
 "model_checking", "results equal an independent match predicate evaluated on every stored relationship",
 [h("SelectFind", "2 (3) symbolic relationships, symbolic selectors of every kind for object, relation and subject", ["rejected", "found", "none"], q=400),
  h("SelectDelete", "the same, deleting, followed by a full listing", ["deleted", "none"], q=400),
  h("SelectNames", "resources and relations whose names differ in spaces and case only", ["found", "deleted", "none", "rejected"]),
  h("SelectMany", "70 (130) relationships, selectors of every kind, find and delete", ["found", "deleted", "none"], max_steps=60000000),
  h("SelectOrphans", "a relationship which an update of the policy leaves unfit (5 ways), selectors of every kind, find and delete", ["found", "deleted", "none", "rejected"]),
  h("SelectSubjects", "1 (2) relationships and a selector whose subjects differ in kind, resource, id (1-2 characters) or relation", ["found", "deleted", "none"])],
 "more relationships; deletion by a selector which find would reject", ["PolicyService.FindRelationshipRecords", "PolicyService.DeleteRelationships"])

prop("C06", "Policies are created, updated, listed and deleted as one map by id",
 "Under any history of calls, creating a policy succeeds exactly if its id is new, updating exactly if it exists, and reading returns the policy and application data last stored with its original creation time. Listing shows each existing id once. Deleting a policy removes it and all its relationships, reports their number, and touches no other policy, so that a policy created later under the same id starts empty.",
 ["histories", "inputs"], "all histories of policy and relationship calls over arbitrary ids",
 "The tests exercise single calls; the guarantees concern sequences over several ids, some prefixes of others.",
 ["internal/policy/service.go", "internal/store/kv_store/policy_repository.go"],
 [("policy service", "internal/policy/service.go"), ("policy store", "internal/store/kv_store/policy_repository.go")],
 "model_checking", "responses, reads and listings equal those of a reference map after every step",
 [h("PolicyOps", "4 (5) operations among create/update/delete/set over symbolic ids", ["created", "exists", "updated", "deleted", "set"]),
  h("PolicyMany", "24 (70) policies, up to 10 (40) relationships each, any of them updated, or deleted and created anew", ["kept", "recreated"], max_steps=60000000),
  h("PolicyOrphans", "2 (3) relationships which an update of the policy leaves unfit (5 ways), then deletion and creation of the policy", []),
  h("PolicyIds", "2 (3) policies with ids of 1-2 characters incl. spaces, capitals, zero bytes; one updated, deleted or created again", ["verified"]),
  h("PolicyBulk", "520 (1100) relationships of one policy, half of them or the policy deleted", ["verified"], max_steps=600000000)],
 "longer histories; id texts beyond the alphabet", ["PolicyService.*Policy*"])

prop("C07", "A policy is stored exactly if it is well formed",
 "Creating or updating a policy succeeds if and only if its id, resource and relation names are present and unique in their scope, every expression is complete and refers only to relations of its own resource (for a tuple-to-userset rule, the relation it follows), and subject restrictions name only defined resources and relations. A rejected policy changes nothing.",
 ["programs", "inputs"], "all policies",
 "The tests try few malformed policies; each rule must hold in every position of a policy.",
 ["internal/policy/spec.go", "internal/policy/helpers.go", "internal/policy/service.go"],
 [("valid policy specification", "internal/policy/spec.go")],
 "model_checking", "CreatePolicy/UpdatePolicy succeed iff an independent predicate over the symbolic policy holds; otherwise the store is unchanged",
 [h("PolicyNames", "symbolic id, two resources, two relations each, names empty/equal/different", ["accepted", "rejected"]),
  h("PolicyRefs", "symbolic expressions referring to defined and undefined relations, in every position of a tree", ["accepted", "rejected"]),
  h("PolicySpelling", "resource, relation, target and restriction names of 1-2 characters which differ in case or spaces", ["accepted", "rejected"]),
  h("PolicyRestrictions", "restriction entries of every kind naming defined and undefined things", ["accepted", "rejected"]),
  h("PolicyTrees", "trees of depth 2 with absent parts and unknown operators", ["accepted", "rejected"]),
  h("PolicySlash", "names which join alike: resource s/b relation c, resource s relations b, /b, b/c; rules and restrictions with symbolic names", ["accepted", "rejected"]),
  h("PolicyFlaw", "one flaw of 8 kinds anywhere in a policy of 20 (40) resources with 20 (40) relations each and nested operators", ["accepted", "rejected"], max_steps=60000000)],
 "more resources, relations and deeper trees", ["PolicyService.CreatePolicy", "PolicyService.UpdatePolicy"])

prop("C08", "The expression parser accepts exactly its grammar and reads it left to right",
 "Every text is either parsed to the tree the expression language defines - identifiers, this, tuple-to-userset arrows, the three operators with equal precedence and left association, parentheses, free whitespace - or rejected with an error. The parser never crashes, never hangs and never ignores part of its input.",
 ["inputs"], "all strings",
 "The tests parse some two dozen strings.",
 ["internal/relation_expression_parser/lexer.go", "internal/relation_expression_parser/parser.go", "internal/relation_expression_parser/primitives.go"],
 [("lexer", "internal/relation_expression_parser/lexer.go"), ("parser", "internal/relation_expression_parser/parser.go")],
 "model_checking", "result and tree equal those of an independent recursive-descent reader on the same symbolic string",
 [h("ParseBytes", "all strings of up to 5 (6) characters over 13 characters of the language and others", ["parsed", "rejected", "operator"]),
  h("ParsePieces", "all sequences of up to 4 (6) words of the language", ["parsed", "rejected", "operator"]),
  h("ParseLong", "chains of 4 (6) terms with symbolic operators, spacing and grouping", ["parsed", "operator"]),
  h("ParseAny", "all byte strings of up to 4 (5) bytes: no crash, stable under printing", ["parsed", "rejected"]),
  h("ParseForeign", "any byte between any two of 6 words", ["parsed", "rejected"]),
  h("ParseDeep", "chains, nesting to either side, redundant parentheses, identifiers and whitespace of length 40 (70) with one symbolic irregularity", ["parsed", "rejected", "operator"], max_steps=60000000),
  h("ParseStored", "sequences of up to 3 (4) words as the expression of a stored policy", ["parsed", "rejected"])],
 "longer texts", ["relation expressions in CreatePolicy"])

prop("C09", "Printing an expression and parsing it back yields the same expression",
 "The textual form of every well-formed expression tree parses, and yields that same tree again, with every operator, operand order and grouping preserved.",
 ["programs", "inputs"], "all expression trees with identifier names",
 "The tests print a few fixed trees.",
 ["pkg/domain/relation_expression_tree.go", "internal/relation_expression_parser/parser.go"],
 [("tree printing", "pkg/domain/relation_expression_tree.go")],
 "model_checking", "parse(print(t)) is structurally t",
 [h("PrintLeaves", "an operator over two leaves with identifiers of up to 2 (3) characters", ["ok"]),
  h("PrintTrees", "all tree shapes of depth 2 (3), operators and leaf kinds symbolic", ["ok"]),
  h("PrintDeep", "spines of depth 40 (70), identifiers of 40 (70) characters", ["ok"], max_steps=60000000)],
 "deeper trees, longer identifiers", ["RelationExpressionTree.String"])

prop("C10", "A YAML policy means exactly what the document says, every time",
 "A policy read from YAML has the document's ids, names, documentation, attributes, resources, relations, expressions and subject types, each in its place: a type name admits entities, a type with a relation that userset, a star every subject. Reading the same document always gives the same policy, and the policy behaves like the equivalent one given as a message.",
 ["inputs", "configurations"], "all documents and all iteration orders of their maps",
 "The tests map one document and cannot vary the iteration order of Go maps.",
 ["pkg/policy_definition/mapper.go", "pkg/policy_definition/unmarshaler.go", "internal/policy/helpers.go"],
 [("document mapper", "pkg/policy_definition/mapper.go")],
 "model_checking", "the mapped policy equals an independent reading of the symbolic document under every map iteration order",
 [h("YamlTypes", "up to 3 (4) types of symbolic text", ["universal", "set", "entity"]),
  h("YamlShape", "up to 2 (3) resources and 2 (3) relations with symbolic names, all map orders", ["resource"]),
  h("YamlTexts", "ids, names, documentation and attributes of up to 3 characters incl. spaces and capitals", ["read"]),
  h("YamlEmpty", "resources and relations of which any subset is empty or absent, all map orders", ["read", "universal"]),
  h("YamlEquals", "the policy from a document and from a message admit the same symbolic relationship and give the same check", ["checked"])],
 "the YAML text syntax itself (the library decodes it)", ["PolicyService.CreatePolicy with YAML"])

prop("C11", "Incomplete requests are answered or rejected, never a crash",
 "A request of any kind whose parts are absent, empty or unknown is answered or rejected with an error; it never panics or hangs. A rejected request leaves the stored data unchanged, and whatever is accepted can afterwards be read, used and removed.",
 ["inputs"], "all requests with any subset of their parts absent",
 "The tests send complete requests.",
 ["internal/policy/service.go", "internal/policy/spec.go", "internal/policy/selector_spec.go", "internal/relation_graph/service.go"],
 [("required fields", "internal/policy/spec.go"), ("request validation", "internal/relation_graph/service.go")],
 "model_checking", "no path of the real code panics; on an error the store is unchanged",
 [h("PartialReads", "every read call with every combination of absent/empty/present parts", ["answered", "rejected"]),
  h("PartialWrites", "every relationship write with absent parts", ["answered", "rejected"]),
  h("PartialPolicies", "policies with absent resources, relations, expressions, restrictions; used and removed if stored", ["answered", "rejected"])],
 "a nil request message itself (gRPC never delivers one)", ["all service methods"])

prop("C12", "A crash never leaves half of a call visible",
 "If the process dies at any storage write of any call and restarts, each relationship and policy the call worked on is either as before or as after it, consistently by lookup, listing and check, everything else is intact, and repeating the call completes it. No relationship of a deleted policy ever becomes visible again.",
 ["crash_points", "histories"], "all crash points of all mutating calls, in sequences of crashing calls",
 "The tests never interrupt a call.",
 ["internal/policy/service.go", "internal/store/kv_store/policy_repository.go", "internal/store/kv_store/relationship_store.go"],
 [("order of writes", "internal/store/kv_store/policy_repository.go"), ("order of deletion", "internal/policy/service.go")],
 "fault_enumeration", "after a crash at a symbolic write, the surveyed state lies in the set of old/new states; a repeat completes",
 [h("Crash", "7 mutating calls, up to 2 (3) successive crashing calls, every write (up to 15 per call), symbolic relationships", ["completed", "died", "refused"]),
  h("CrashMany", "a policy with 12 (24) relationships, removed by selector or with their policy, every write", ["completed", "died"], max_steps=60000000)],
 "torn writes inside the storage engine; crashes during more than 3 successive calls", ["all calls after a restart"])

prop("C13", "Distinct relation nodes have distinct ids",
 "Two nodes of the relation graph have the same id exactly if they are the same node: same kind, resource, object id and relation, whatever characters these contain.",
 ["inputs"], "all pairs of nodes", "A collision needs particular texts; tests compare unlike ones.",
 ["pkg/domain/relation_graph.go", "internal/store/kv_store/node_repository.go"],
 [("node id", "pkg/domain/relation_graph.go")],
 "model_checking", "id equality iff field equality, on symbolic byte strings",
 [h("NodeIds", "two nodes of any kind, fields of up to 3 (5) arbitrary bytes", ["same-kind", "other-kind"]),
  h("NodeLong", "fields of 300 (1100) characters which differ in one symbolic place, and of 256; ids of at least 128 bits", ["same-kind", "other-kind"], max_steps=60000000)],
 "longer fields", ["RelationNode.Id"])

prop("C14", "Expand shows exactly the set operations and members of a relation",
 "Expanding a relation of an object returns a tree which shows, from the root on, each operation of the relation's expression with both branches in order and every relationship and userset reached through it, and nothing else; a node met again on its own path ends the branch. Entities and wildcards expand to themselves; unknown policies, relations and formats are rejected.",
 ["programs", "inputs"], "all policies, relationships and root nodes",
 "The tests never inspect an expansion.",
 ["internal/relation_graph/service.go", "internal/relation_graph/walker.go", "internal/relation_graph/goal_tree_serializer.go", "internal/relation_graph/rule_evaluator.go"],
 [("expansion", "internal/relation_graph/walker.go")],
 "model_checking", "the tree read back from the document matches an independent unfolding of the symbolic policy and relationships",
 [h("ExpandRec", "two relations, operators, usersets and cycles, 2 (3) symbolic relationships", ["deep", "shallow"]),
  h("ExpandTTU", "tuple-to-userset rules, 2 (3) symbolic relationships", ["deep", "shallow"]),
  h("ExpandLeaf", "entity and wildcard roots; all formats, policies and relations, known or not", ["answered", "rejected"]),
  h("ExpandLarge", "chains and sets of 40 (70) relationships with a symbolic gap, operator or cycle", ["deep"], max_steps=60000000)],
 "larger data", ["RelationGraph.Expand"])

prop("C15", "A dump shows every relationship of the policy and nothing else",
 "Dumping a policy's relationships returns a well-formed DOT document which has one node per distinct object-relation and subject of the policy's relationships, one edge per relationship, and everything reachable from its root, also if relationships form cycles and whatever characters names contain. Other policies' relationships do not appear; unknown policies and formats are rejected.",
 ["inputs", "histories"], "all sets of relationships", "The tests never inspect a dump.",
 ["internal/relation_graph/service.go", "internal/relation_graph/relation_tree_serializer.go", "internal/store/kv_store/node_repository.go", "internal/relation_graph/walker.go"],
 [("dump", "internal/relation_graph/relation_tree_serializer.go")],
 "model_checking", "nodes and edges read back from the document equal those of the symbolic relationships",
 [h("DumpShapes", "0-3 (4) symbolic relationships of all subject kinds, cycles, another policy", ["empty", "some"]),
  h("DumpText", "names over separators, quotes and backslashes", []),
  h("DumpStars", "entities named * beside wildcards, 3 (4) relationships", []),
  h("DumpLarge", "chains, cycles and sets of 260 (520) relationships", [], max_steps=200000000),
  h("DumpOrphans", "2 (3) relationships which an update of the policy leaves unfit (5 ways)", [])],
 "more relationships", ["RelationGraph.DumpRelationships"])

prop("C16", "Graph containers keep exactly the nodes and edges put in",
 "After any sequence of insertions, a graph has exactly the nodes and edges inserted, with the data last given, and answers queries for a node, its predecessors and its successors accordingly; an edge without both nodes is refused. Its DOT document is well formed and shows exactly those nodes and edges, whatever the text of ids and data.",
 ["histories", "inputs"], "all insertion sequences", "The tests build one graph.",
 ["pkg/types/map_graph.go", "pkg/types/graph.go"], [("map graph", "pkg/types/map_graph.go"), ("DOT", "pkg/types/graph.go")],
 "model_checking", "queries equal those of a set of nodes and edges",
 [h("GraphOps", "4 (5) insertions over symbolic ids", ["edge", "missing"]),
  h("DiGraphDot", "graphs with symbolic ids of up to 2 and data of up to 1 (2) special characters", ["rendered"]),
  h("GraphText", "two nodes and an edge with ids of 0-2 and data of 0-1 characters", ["edge", "missing"]),
  h("GraphLarge", "40 (110) nodes in chains, stars and complete graphs with a gap", [], max_steps=60000000)],
 "larger graphs", ["types.MapGraph", "types.DiGraph"])

prop("C17", "Concurrent calls behave as if made one after the other",
 "Whenever two calls of any kind run at the same time on one instance, both return and leave the store as if one had run completely before the other. In particular no check is decided on a mixture of states, only one of two creations of a policy succeeds, and no relationship outlives the deletion of its policy.",
 ["schedules"], "all interleavings of the storage operations of two calls", "The tests are sequential.",
 ["zanzi.go", "atomic.go", "internal/policy/service.go", "internal/relation_graph/service.go", "internal/store/kv_store/policy_repository.go"],
 [("calls exclude one another", "atomic.go")],
 "model_checking", "responses and final state equal those of one of the two serial orders run on a copy of the store",
 [h("Parallel", "all pairs of 16 calls x initial states; the first call is preempted before any storage operation, the second at any of its own (3 context switches)", ["interrupted", "both-interrupted"]),
  h("ParallelReads", "all pairs of different questions (check, explain, expand of 3 relations, dump, find) on the same or another policy, preempted likewise", ["interrupted", "both-interrupted"])],
 "more than two calls or three context switches; preemption between memory accesses which no storage operation separates; several processes on one database", ["all service methods"])

prop("C18", "Storage failures are reported, never turned into wrong answers",
 "If any storage operation of a call fails, the call returns an error or the answer it would have given without the failure; a check in particular never grants or denies because of a failure. A write that reports success has happened, and a failed call leaves nothing half visible and can be repeated.",
 ["fault_sequences"], "any storage operation of any call failing once or for good", "The tests never inject storage failures.",
 ["internal/store/kv_store/policy_repository.go", "internal/store/kv_store/node_repository.go", "internal/store/kv_store/relationship_store.go", "internal/policy/service.go", "internal/relation_graph/service.go"],
 [("error propagation", "internal/store/kv_store/policy_repository.go")],
 "fault_enumeration", "with a failure at a symbolic operation, the outcome is an error or equals the fault-free run on a copy",
 [h("FaultWrites", "every mutating call, every operation, once or persistent", ["reported", "refused"]),
  h("FaultReads", "every reading call, every operation, 2 (3) symbolic relationships", ["answered", "reported"]),
  h("FaultRefused", "12 calls which must be refused, a failure at any operation", ["faulted", "refused"]),
  h("FaultMany", "14 (24) relationships listed, checked or removed, a failure at any of 110 (190) operations", ["answered", "reported"], max_steps=60000000)],
 "more than one separate transient failure in a call", ["all service methods"])

prop("C19", "Builders and accessors give exactly what was asked for",
 "A relationship, entity, record, selector or expression tree made with the library's builders and constructors holds the given parts, each in its place, and nothing left over from an earlier use of the builder; what was built before stays as it was. A tree lists all its rules from left to right, and a policy's resources and relations are found by exactly their own names.",
 ["inputs", "histories"], "all arguments and sequences of builder calls", "The tests use builders as a convenience with a few fixed values and never inspect the result.",
 ["pkg/domain/relationship.go", "pkg/domain/selector.go", "pkg/domain/relation_expression_tree.go", "pkg/domain/policy.go"],
 [("selector builder", "pkg/domain/selector.go"), ("relationship builder", "pkg/domain/relationship.go"), ("tree constructors", "pkg/domain/relation_expression_tree.go")],
 "model_checking", "the built message equals the one written out by hand from the same symbolic parts",
 [h("BuildMessages", "all relationship builders, entities and records from six symbolic texts of 0-2 (0-3) arbitrary bytes", []),
  h("BuildTrees", "trees of up to 2 (3) operators with symbolic names, by every constructor", ["operator"]),
  h("BuildSelectors", "4 (5) builder calls of any kind, Build and Reset among them", ["built", "reset"]),
  h("LookUp", "3 resources with 2 relations each under symbolic names, looked up by a symbolic name", ["found", "missing"])],
 "longer texts and sequences", ["domain.RelationshipBuilder", "domain.SelectorBuilder", "domain.RelationExpressionTree"])

prop("C20", "Answers depend on nothing but what is stored",
 "After any sequence of calls, an instance answers every question exactly as one just started on the same storage would, and gives the same answer again when asked again. Calls which read change nothing that is stored. A sequence of writes has the same effect and the same responses whether or not the process is restarted between them.",
 ["histories", "configurations"], "all sequences of calls and restarts", "The tests ask each question once, of one instance.",
 ["zanzi.go", "internal/policy/service.go", "internal/relation_graph/service.go", "internal/store/kv_store/kv_store.go", "internal/store/kv_store/policy_repository.go", "internal/store/kv_store/node_repository.go"],
 [("no state outside the store", "internal/store/kv_store/kv_store.go")],
 "model_checking", "all answers of the used instance equal those of a fresh one over a copy of its storage",
 [h("FreshAnswers", "2 (3) calls of 8 kinds with symbolic relationships and expressions, asked beforehand or not; every reading call on the used instance, twice, and on a fresh one", ["answered", "refused"]),
  h("RestartedWrites", "3 (4) calls of 8 kinds, restarted before each or not at all", ["answered", "refused"])],
 "longer histories; two instances which write to one storage at the same time", ["all service methods"])

prop("C21", "Messages stay their owner's: a call keeps and changes none of them",
 "No call changes the request it is given. Whatever a caller does with a request or a response after the call returned, reusing or overwriting any part of it, changes nothing that is stored and no later answer.",
 ["histories", "inputs"], "all calls, and all later changes to their messages", "The tests never touch a message after a call.",
 ["internal/policy/service.go", "internal/relation_graph/service.go", "internal/store/kv_store/mapper.go", "internal/store/kv_store/policy_repository.go", "internal/store/kv_store/relationship_store.go"],
 [("requests are only read", "internal/policy/service.go")],
 "model_checking", "requests equal a copy taken before; after overwriting every part of the messages, storage is unchanged and all answers equal those of a fresh instance",
 [h("OwnMessages", "2 (3) calls of 8 kinds with symbolic relationships and expressions, every part of request and response overwritten after each, and every answer to a reading call", ["answered", "refused"]),
  h("OwnPolicies", "a policy given as a message: 2 resources and 2 relations under symbolic names, trees with symbolic operators or text, up to 2 symbolic restrictions; created or updated, accepted or not", ["stored", "refused"]),
  h("OwnReads", "every call which reads, with symbolic requests", ["read"])],
 "the request given to CreatePolicy and its response may share the policy", ["all service methods"])

prop("C22", "An instance keeps its data where its options say, apart from all others",
 "An instance is made exactly if all its options succeed, from any options in any order: the storage option given last decides where its data is kept, the logger option given last where it reports, and what is not given is replaced by storage in memory and a default logger. It behaves alike on every storage. Instances share data exactly if they share a storage, and then each sees what the other wrote.",
 ["configurations", "histories"], "all sequences of options of two instances", "The tests make instances in one way only, and never two which could meet.",
 ["zanzi.go", "internal/store/kv_store/kv_store.go", "pkg/types/logger.go"],
 [("options", "zanzi.go"), ("storage of an instance", "internal/store/kv_store/kv_store.go")],
 "model_checking", "which of two storages, a memory of its own or a directory an instance uses follows from the option given last; calls on one instance are visible to another exactly if these agree",
 [h("Instances", "two instances from up to 2 (3) and 1 options of 9 kinds in any order, create, read, set, check and delete on both", ["made", "failed", "shared", "apart"]),
  h("Directories", "two instances in directories named by 1-2 (1-3) characters, usable or not, beside other options", ["made", "refused"])],
 "a directory named by a leading ~ (a replay must not write to the home directory); two instances which write to one storage at the same time; LevelDB itself (modelled as an ordered map, real in replays)", ["zanzi.New", "all service methods"])

prop("C25", "A call that has returned leaves nothing running, open or locked",
 "Once a call has returned, whether it answered, was refused or failed for its storage, no goroutine it started is still running or waits forever, no iterator on the storage stays open, and no lock is held: every later call completes. A process can serve any number of calls, malformed ones included, without accumulating anything.",
 ["inputs", "fault_sequences", "histories"], "all calls, with any expression text and any storage failure", "The tests end after one call; what is left behind has no effect on their result.",
 ["internal/relation_expression_parser/parser.go", "internal/relation_expression_parser/lexer.go", "internal/relation_graph/searcher.go", "internal/store/kv_store/policy_repository.go", "internal/store/kv_store/node_repository.go", "zanzi.go"],
 [("the lexer runs in its own goroutine", "internal/relation_expression_parser/parser.go"), ("iterators", "internal/store/kv_store/kv_store.go")],
 "model_checking", "after each call, all goroutines are run until they end or block: none is left; the storage has no open iterator; the next calls complete",
 [h("LeaveExpressions", "expressions of 1-9 (1-20) terms with any of 8 pieces in any place, on create and update", ["accepted", "refused"]),
  h("LeaveCalls", "14 kinds of call, well formed or malformed, on a present or absent policy with 2 (3) symbolic relationships, a failure at any operation or none, and calls after it", ["answered", "refused"])],
 "memory kept by the process (no allocation is measured)", ["all service methods"])

prop("C26", "An explanation proves its verdict step by step",
 "In the explanation of a check, in DOT as in JSON, every node is what the policy and the stored relationships give at its place, reached for the reason it states, and no alternative is left out. Its result follows from the nodes below: found exactly if it is the subject or a wildcard over it, a union if one branch succeeds, an intersection if all do, a difference if the left does and the right fails. Only what the verdict does not need may be left undecided, and a node met again on its own path, which ends there.",
 ["inputs", "histories"], "all policies, relationships and requests", "The tests compare the verdict only, never the explanation.",
 ["internal/relation_graph/searcher.go", "internal/relation_graph/goal_tree.go", "internal/relation_graph/goal_tree_serializer.go", "internal/relation_graph/types.go"],
 [("search", "internal/relation_graph/searcher.go"), ("serialization", "internal/relation_graph/goal_tree_serializer.go")],
 "model_checking", "the explanation is walked along the policy's expressions and the stored relationships; each node must be the expected one and its result follow",
 [h("ProveRec", "2 objects, a relation with an operator over two rules, 2 (3) symbolic relationships with entities, usersets and wildcards; DOT and JSON", ["granted", "denied"]),
  h("ProveTTU", "tuple-to-userset rules, 2 (3) symbolic relationships; DOT and JSON", ["granted", "denied"]),
  h("ProveOps", "two nested operators over three rules, 2 (3) symbolic relationships; DOT and JSON", ["granted", "denied"], 240),
  h("ProveLarge", "chains, wide sets and cycles of 24 (60) relationships; DOT and JSON", ["granted", "denied"], max_steps=60000000)],
 "the SPEW format, which is meant for debugging", ["relation_graph.Searcher", "relation_graph.dotSerializer", "relation_graph.jsonSerializer"])

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

NA = [
 dict(id="C23", title="A call over the network is answered like a direct call",
  statement="A client which calls the server of package server over gRPC gets, for every request, the response or the refusal which the same call on an instance gives, whatever the requests, and calls of several clients at once behave like concurrent direct calls.",
  over=["inputs", "schedules"], text="all requests of all clients", why="No test starts the server.",
  files=["pkg/server/server.go", "pkg/api/policy_service_grpc.pb.go", "pkg/api/relation_graph_grpc.pb.go"], mech=[("registration of the services", "pkg/server/server.go")], observe=["gRPC client"],
  reason="the calls pass through google.golang.org/grpc, net and the protobuf wire codec (reflection, unsafe, system calls, network goroutines), which cannot be encoded within reach; package server itself only registers the two services"),
 dict(id="C24", title="What was acknowledged survives a loss of power",
  statement="After a crash of the operating system or a loss of power, storage in a directory holds every write which a call acknowledged before.",
  over=["crash_points"], text="all crash points below the storage interface", why="No test uses the storage in a directory.",
  files=["zanzi.go"], mech=[("LevelDB storage", "zanzi.go")], observe=["zanzi.New on the same directory"],
  reason="durability below the key-value interface is decided by goleveldb and the file system (log files, fsync), outside this repository and not encodable; crashes at any storage operation above that interface are decided by C12"),
]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
json.dump({p["id"]: dict(level=p["level"], explanation=ENC, rule=p["rule"], harnesses=p["hs"], assumptions=TRUST + p["assume"], outside=p["outside"]) for p in P},
          open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(dict(version=1, setup_cmd="bash /verif/setup.sh",
    hooks=dict(guard="none", enable="no hooks: harnesses are laid into the build with go's -overlay", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="bash /verif/check.sh %s quick" % p["id"], thorough_cmd="bash /verif/check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the compiled Go SSA with an SMT solver (z3), counterexamples replayed natively",
        level=p["level"], level_note="Exhaustive within bounds: " + "; ".join(x["name"] + ": " + x["bounds"] for x in p["hs"]) + ". Outside: " + p["outside"] + ". Trusts: " + "; ".join(TRUST) + ".") for p in P],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
    notes="Every check re-derives its encoding from /repo's working tree; a path the encoder cannot follow is reported as a reduced bound in the evidence, not as a violation."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

D = os.path.join(V, "DESIGN.md")
d = open(D).read()
A, B = "## Per property\n", "## Properties this family does not decide\n"
out = A + "\n(bounds of the quick tier, those of the thorough one in parentheses)\n"
for p in P:
    out += "\n### %s %s\n\nOracle: %s.\n\n" % (p["id"], p["title"], p["rule"])
    out += "".join("- `%s`: %s\n" % (x["name"], x["bounds"]) for x in p["hs"])
    out += "\nOutside: %s.\nBeyond tests: %s\n" % (p["outside"], p["why"])
i, j = d.index(A), d.index(B)
d = d[:i] + out + "\n" + d[j:]
S = os.path.join(V, "seeded")
if os.path.isdir(S):
    C = "## Planted changes and what catches them\n"
    caught = dict(l.split()[1:3] for l in open(os.path.join(V, "tools/seed/caught.txt")) if l.startswith("caught "))
    t = C + "\nEach was confirmed to build, pass the stable tests and fail its demonstration; the last column is the check which\nreported it when `tools/sweep.sh` last ran over all of them (`tools/seed/caught.txt`).\n\n| change | breaks | needs | caught by |\n|---|---|---|---|\n"
    for b in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, b, "meta.json")))
        t += "| %s | %s | %s | %s |\n" % (b, m["what_it_breaks"], m["needs"], caught.get(b, "-"))
    d = (d[:d.index(C)] if C in d else d.rstrip() + "\n\n") + t
open(D, "w").write(d)
