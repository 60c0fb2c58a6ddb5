SIMPLE = '''id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
'''
FAULTY = '''
// faulty fails or dies at the n-th write
type faulty struct {
	rcdb.KVStore
	left   int
	failed error
	get    bool
}

var errDead = errors.New("dead")

func (f *faulty) step() {
	if f.left == 0 {
		panic(errDead)
	}
	f.left--
}
func (f *faulty) Get(k []byte) ([]byte, error) {
	if f.get {
		return nil, errDead
	}
	return f.KVStore.Get(k)
}
func (f *faulty) Iterator(a, b []byte) rcdb.Iterator {
	if f.failed != nil {
		return &badIter{f.KVStore.Iterator(a, b), f.failed}
	}
	return f.KVStore.Iterator(a, b)
}

type badIter struct {
	rcdb.Iterator
	err error
}

func (i *badIter) Valid() bool  { return false }
func (i *badIter) Error() error { return i.err }

func (f *faulty) Set(k, v []byte) error { f.step(); return f.KVStore.Set(k, v) }
func (f *faulty) Delete(k []byte) error { f.step(); return f.KVStore.Delete(k) }
'''
bug("c12-data-deleted-first", "C12",
 [("internal/store/kv_store/policy_repository.go", "	err = relationshipStore.Delete(&relationship)\n	if err != nil {\n		return false, err\n	}\n\n	err = relationshipDataStore.DeleteById(id)\n	if err != nil {\n		return false, err\n	}\n",
   "	err = relationshipDataStore.DeleteById(id)\n	if err != nil {\n		return false, err\n	}\n\n	err = relationshipStore.Delete(&relationship)\n	if err != nil {\n		return false, err\n	}\n")],
 "a crash between the two deletions of a relationship",
 "after a restart the relationship still grants access, but its record is gone",
 FAULTY + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 6; n++ {
		kv := rcdb.NewMemKV()
		z := open(t, kv)
		z.create(`''' + SIMPLE + '''`)
		z.trySet("f:1#a", "u:x", "d")
		func() {
			defer func() { recover() }()
			open(t, &faulty{KVStore: kv, left: n}).pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: rel("f:1#a", "u:x")})
		}()
		z = open(t, kv)
		r, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: rel("f:1#a", "u:x")})
		want(t, err == nil, "get fails")
		want(t, (r.Record != nil) == z.check("f:1#a", "u:x"), "check and lookup disagree after a crash")
	}
}''')

bug("c12-policy-replaced-in-two-steps", "C12",
 [("internal/store/kv_store/policy_repository.go", "	err = store.SetObject(record)\n", "	if has {\n		if err := store.DeleteById([]byte(record.Policy.Id)); err != nil {\n			return false, err\n		}\n	}\n	err = store.SetObject(record)\n")],
 "a crash in the middle of an update of a policy",
 "the policy is gone, while its relationships are still stored",
 FAULTY + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 6; n++ {
		kv := rcdb.NewMemKV()
		open(t, kv).create(`''' + SIMPLE + '''`)
		func() {
			defer func() { recover() }()
			open(t, &faulty{KVStore: kv, left: n}).pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(`''' + SIMPLE + '''`)})
		}()
		r, err := open(t, kv).pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
		want(t, err == nil && r.Record != nil, "the policy is gone after a crash of its update")
	}
}''')

bug("c13-short-ids", "C13",
 [("pkg/domain/relation_graph.go", "	return base64.StdEncoding.EncodeToString(hash)\n", "	return base64.StdEncoding.EncodeToString(hash[:2])\n")],
 "a policy with some hundreds of nodes, two of which share the first two bytes of their hash",
 "distinct nodes have the same id",
 '''
func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 3000; i++ {
		n := &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: &domain.Entity{Resource: "u", Id: strings.Repeat("x", i)}}}}
		want(t, !seen[n.Id()], "two nodes have the same id")
		seen[n.Id()] = true
	}
}''')

bug("c14-same-looking-paths", "C14",
 [("internal/relation_graph/goal_tree.go", "	reason := reasonBuilder(rule)\n", '''	// the set has no duplicates
	seen := make(map[string]struct{})
	sucessors = utils.Filter(sucessors, func(node *domain.RelationNode) bool {
		_, ok := seen[node.PrettyString()]
		seen[node.PrettyString()] = struct{}{}
		return !ok
	})

	reason := reasonBuilder(rule)
''')],
 "two subjects which print alike, such as the wildcard of a resource and its entity with id '*'",
 "only one of them is expanded (or considered by a check)",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`''' + SIMPLE + '''`)
	z.set("f:1#a", "u")
	z.set("f:1#a", "u:*")
	r, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: entity("f:1"), Relation: "a"}}}, Format: api.ExplainFormat_DOT})
	want(t, err == nil, "expand fails")
	want(t, strings.Count(r.GoalTree, "u:*") == 2, "two subjects, of which one is shown")
}''')

bug("c15-trees-by-label", "C15",
 [("internal/relation_graph/walker.go", "	tree, ok := trees[node.Id()]\n", "	tree, ok := trees[node.PrettyString()]\n"),
  ("internal/relation_graph/walker.go", "		trees[node.Id()] = tree\n", "		trees[node.PrettyString()] = tree\n"),
  ("internal/relation_graph/walker.go", "		orphans[edge.First().Id()] = struct{}{}\n", "		orphans[edge.First().PrettyString()] = struct{}{}\n"),
  ("internal/relation_graph/walker.go", "		delete(orphans, edge.Second().Id())\n", "		delete(orphans, edge.Second().PrettyString())\n"),
  ("internal/relation_graph/walker.go", "		tree := trees[edge.First().Id()]\n", "		tree := trees[edge.First().PrettyString()]\n")],
 "nodes which print alike: the wildcard of a resource and its entity with id '*'",
 "the dump merges distinct nodes",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`''' + SIMPLE + '''`)
	z.set("f:1#a", "u")
	z.set("f:1#a", "u:*")
	r, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
	want(t, err == nil, "dump fails")
	want(t, strings.Count(r.GetDot(), "label=") == 4, "root and three nodes are expected")
}''')
B["c15-trees-by-label"]["edits"].pop()  # that line is not an original one
B["c15-trees-by-label"]["edits"][1:] = [("internal/relation_graph/walker.go", "		trees[node.Id()] = tree\n	}\n	return tree\n", "		trees[node.PrettyString()] = tree\n		trees[node.Id()] = tree\n	} else {\n		trees[node.Id()] = tree\n	}\n	return tree\n")]

bug("c15-walk-swallows", "C18",
 [("internal/relation_graph/walker.go", "		return nil, err //TODO\n", "		w.logger.Warnf(\"walk policy %v: %v\", policy.Id, err)\n		edges = nil\n")],
 "a storage failure while the relationships are listed",
 "the dump is empty instead of failing",
 FAULTY + '''
func TestDemo(t *testing.T) {
	kv := &faulty{KVStore: rcdb.NewMemKV(), left: 1000}
	z := open(t, kv)
	z.create(`''' + SIMPLE + '''`)
	z.set("f:1#a", "u:x")
	kv.failed = errDead
	_, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
	want(t, err != nil, "a failed dump succeeds")
}''')
B["c18-walk-swallows"] = B.pop("c15-walk-swallows")

bug("c16-update-drops-edges", "C16",
 [("pkg/types/map_graph.go", "	g.nodes[id] = node\n}", "	if _, ok := g.nodes[id]; ok {\n		delete(g.forwardEdges, id)\n		delete(g.backwardEdges, id)\n	}\n	g.nodes[id] = node\n}")],
 "setting a node again after edges were added",
 "its edges vanish",
 '''
func TestDemo(t *testing.T) {
	g := types.New[string]()
	g.SetNode("a", "1")
	g.SetNode("b", "1")
	want(t, g.SetEdge("a", "b") == nil, "edge refused")
	g.SetNode("a", "2")
	want(t, len(g.GetSucessors("a")) == 1, "the edge is gone")
}''')

bug("c17-shared-searcher", "C17",
 [("internal/relation_graph/service.go", "	evaluator := newEvaluator(s.repository, s.logger)\n	builder := newGoalTreeBuilder(evaluator, s.logger)\n	searcher := NewSearcher(builder, s.logger)\n\n	origin := domain.RelationNode{\n		Node: &domain.RelationNode_EntitySet{\n			EntitySet: &domain.EntitySetNode{\n				Object:   req.AccessRequest.Object,\n				Relation: req.AccessRequest.Relation,\n			},\n		},\n	}\n	goal := Goal{\n		Target: &domain.RelationNode{\n			Node: &domain.RelationNode_Entity{\n				Entity: &domain.EntityNode{\n					Object: req.AccessRequest.Subject,\n				},\n			},\n		},\n	}\n	tree, err := searcher.Search(ctx, pol.Policy, &origin, &goal)\n\n	if err != nil {\n		return nil, err\n	}\n\n	found := false\n	if tree.GetResult() == SearchResult_SUCCESS {\n		found = true\n	}\n\n	return &api.CheckResponse{",
   "	origin := domain.RelationNode{\n		Node: &domain.RelationNode_EntitySet{\n			EntitySet: &domain.EntitySetNode{\n				Object:   req.AccessRequest.Object,\n				Relation: req.AccessRequest.Relation,\n			},\n		},\n	}\n	goal := Goal{\n		Target: &domain.RelationNode{\n			Node: &domain.RelationNode_Entity{\n				Entity: &domain.EntityNode{\n					Object: req.AccessRequest.Subject,\n				},\n			},\n		},\n	}\n	tree, err := s.searcher.Search(ctx, pol.Policy, &origin, &goal)\n\n	if err != nil {\n		return nil, err\n	}\n\n	found := false\n	if tree.GetResult() == SearchResult_SUCCESS {\n		found = true\n	}\n\n	return &api.CheckResponse{"),
  ("internal/relation_graph/service.go", "		policyRepository: policyRepository,\n	}\n", "		policyRepository: policyRepository,\n		searcher:         NewSearcher(newGoalTreeBuilder(newEvaluator(repository, logger), logger), logger),\n	}\n"),
  ("internal/relation_graph/service.go", "	policyRepository policy.Repository\n}", "	policyRepository policy.Repository\n	searcher         Searcher\n}")],
 "two checks on the same object at the same time",
 "a check treats the nodes which another one is searching as a cycle and denies access",
 '''
// slow lets another check run while an iterator is opened
type slow struct {
	rcdb.KVStore
	hook func()
}

func (s *slow) Iterator(a, b []byte) rcdb.Iterator {
	if h := s.hook; h != nil {
		s.hook = nil
		h()
	}
	return s.KVStore.Iterator(a, b)
}

func TestDemo(t *testing.T) {
	kv := &slow{KVStore: rcdb.NewMemKV()}
	z := open(t, kv)
	z.create(`''' + SIMPLE + '''`)
	z.set("f:1#a", "u:x")
	other := true
	kv.hook = func() {
		done := make(chan bool)
		go func() { done <- z.check("f:1#a", "u:x") }()
		other = <-done
	}
	first := z.check("f:1#a", "u:x")
	want(t, first && other, "one of two simultaneous checks denies")
}''')

bug("c18-create-ignores-read-error", "C18",
 [("internal/policy/service.go", "		return nil, fmt.Errorf(\"create policy: policy %v: %w\", policy.Id, ErrPolicyExists)\n	}\n	if err != nil {\n		return nil, fmt.Errorf(\"create policy: %w\", err)\n	}\n", "		return nil, fmt.Errorf(\"create policy: policy %v: %w\", policy.Id, ErrPolicyExists)\n	}\n")],
 "a storage failure of the read which looks for an existing policy",
 "an existing policy is overwritten by a creation",
 FAULTY + '''
func TestDemo(t *testing.T) {
	kv := &faulty{KVStore: rcdb.NewMemKV(), left: 1000}
	z := open(t, kv)
	z.create(`''' + SIMPLE + '''`)
	kv.get = true
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(`''' + SIMPLE + '''`)})
	want(t, err != nil, "a policy is created although it exists")
}''')

bug("c01-stale-expressions", "C01",
 [("internal/relation_graph/goal_tree.go", "	expressionTree, err := policy.GetExpressionTree(relation)\n	if err != nil {\n		return nil, err\n	}\n",
   "	key := [3]string{pol.Id, node.Object.Resource, node.Relation}\n	expressionTree, ok := expressionTrees[key]\n	if !ok {\n		var err error\n		expressionTree, err = policy.GetExpressionTree(relation)\n		if err != nil {\n			return nil, err\n		}\n		expressionTrees[key] = expressionTree\n	}\n"),
  ("internal/relation_graph/goal_tree.go", "type goalTreeBuilder struct {\n", "// expressionTrees keeps the parsed expressions of relations\nvar expressionTrees = make(map[[3]string]*domain.RelationExpressionTree)\n\ntype goalTreeBuilder struct {\n")],
 "a check, then an update of the policy which changes the expression, then another check",
 "checks keep using the expression of the old policy",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	y := `id: p
name: p
resources:
	u:
	f:
		relations:
			b: {expr: _this, types: ["*"]}
			a: {expr: EXPR, types: ["*"]}
`
	z.create(strings.ReplaceAll(y, "EXPR", "b"))
	z.set("f:1#b", "u:x")
	want(t, z.check("f:1#a", "u:x"), "a member is denied")
	_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(strings.ReplaceAll(y, "EXPR", "_this"))})
	want(t, err == nil, "update fails")
	want(t, !z.check("f:1#a", "u:x"), "the old expression still grants")
}''')
