DIFF = '''id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this - b, types: ["*"]}
			b: {expr: _this, types: ["*"]}
'''
bug("c14-difference-left-only", "C14",
 [("internal/relation_graph/searcher.go", "	rightTree, err := s.search(ctx, policy, tree.Right, goal)\n	if err != nil {\n		return nil, err\n	}\n\n	found := leftTree",
   "	rightTree := tree.Right\n	if leftTree.GetResult() == SearchResult_SUCCESS || goal.Target != nil {\n		rightTree, err = s.search(ctx, policy, tree.Right, goal)\n		if err != nil {\n			return nil, err\n		}\n	}\n\n	found := leftTree")],
 "expanding a relation whose expression has a difference",
 "usersets on the right of a difference are not expanded",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`''' + DIFF + '''`)
	z.set("f:1#b", "u:banned")
	z.set("f:1#a", "u:x")
	resp, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Format: api.ExplainFormat_DOT, Root: &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: entity("f:1"), Relation: "a"}}}})
	want(t, err == nil, "expand fails")
	want(t, strings.Contains(resp.GoalTree, "banned"), "a member of the right side is missing")
}''')

bug("c20-admission-remembered", "C20",
 [("internal/policy/service.go", "	api.UnimplementedPolicyServiceServer\n	repository Repository\n}", "	api.UnimplementedPolicyServiceServer\n	repository Repository\n	tables     map[string]PolicyLookUpTable\n}"),
  ("internal/policy/service.go", "	return &Service{\n		repository: repository,\n	}", "	return &Service{\n		repository: repository,\n		tables:     make(map[string]PolicyLookUpTable),\n	}"),
  ("internal/policy/service.go", "	lut := NewPolicyLookUpTable(record.Policy)\n", "	lut, ok := s.tables[req.PolicyId]\n	if !ok {\n		lut = NewPolicyLookUpTable(record.Policy)\n		s.tables[req.PolicyId] = lut\n	}\n"),
  ("internal/policy/service.go", "	record.Policy = policy\n	record.AppData = req.AppData\n", "	delete(s.tables, policy.Id)\n	record.Policy = policy\n	record.AppData = req.AppData\n")],
 "a relationship is set, its policy deleted and another created under the same id, and a relationship is set again",
 "the second relationship is judged by the deleted policy until the process restarts",
 '''
func TestDemo(t *testing.T) {
	kv := rcdb.NewMemKV()
	z := open(t, kv)
	y := `id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["TYPE"]}
`
	z.create(strings.ReplaceAll(y, "TYPE", "u"))
	z.set("f:1#a", "u:x")
	_, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
	want(t, err == nil, "delete fails")
	z.create(strings.ReplaceAll(y, "TYPE", "f"))
	_, used := z.trySet("f:1#a", "u:x", "")
	_, started := open(t, kv).trySet("f:1#a", "u:x", "")
	want(t, (used == nil) == (started == nil), "the answer depends on the age of the process")
}''')

bug("c21-policy-kept-in-memory", "C21",
 [("internal/store/kv_store/policy_repository.go", "	err = store.SetObject(record)\n	if err != nil {\n		return false, err\n	}\n\n	return types.RecordFound(has), nil",
   "	err = store.SetObject(record)\n	if err != nil {\n		return false, err\n	}\n	r.kvStore.policies.Store(record.Policy.Id, record)\n\n	return types.RecordFound(has), nil"),
  ("internal/store/kv_store/policy_repository.go", "	store := r.kvStore.getPolicyStore()\n	opt, err := store.GetObject([]byte(id))\n", "	if record, ok := r.kvStore.policies.Load(id); ok {\n		return record.(*domain.PolicyRecord), nil\n	}\n	store := r.kvStore.getPolicyStore()\n	opt, err := store.GetObject([]byte(id))\n"),
  ("internal/store/kv_store/policy_repository.go", "	err = store.DeleteById([]byte(id))\n	if err != nil {\n		return false, err\n	}\n	return true, nil", "	r.kvStore.policies.Delete(id)\n	err = store.DeleteById([]byte(id))\n	if err != nil {\n		return false, err\n	}\n	return true, nil"),
  ("internal/store/kv_store/kv_store.go", "	relationshipDataPrefixKV rcdb.KVStore\n}", "	relationshipDataPrefixKV rcdb.KVStore\n	policies                 *sync.Map\n}"),
  ("internal/store/kv_store/kv_store.go", "		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),\n", "		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),\n		policies:                 &sync.Map{},\n"),
  ("internal/store/kv_store/kv_store.go", "	\"crypto/sha256\"\n", "	\"crypto/sha256\"\n	\"sync\"\n")],
 "a caller which changes a policy it was given by a call, or had passed to one",
 "the stored policy changes with it",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`''' + DIFF + '''`)
	got, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	want(t, err == nil, "get fails")
	got.Record.Policy.Resources = nil
	got, err = z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	want(t, err == nil && len(got.Record.Policy.Resources) == 2, "the stored policy changed along with the response")
}''')

bug("c21-names-sorted-in-place", "C21",
 [("internal/policy/spec.go", "	names := make(map[string]struct{})\n\n	for _, relation := range resource.Relations {\n		name := relation.Name\n		_, ok := names[name]\n		if ok {\n			return fmt.Errorf(\"relation %v: %w\", name, ErrDuplicateDefinition)\n		}\n		names[name] = struct{}{}\n	}\n",
   "	relations := resource.Relations\n	sort.Slice(relations, func(i, j int) bool { return relations[i].Name < relations[j].Name })\n	for i := 1; i < len(relations); i++ {\n		if relations[i].Name == relations[i-1].Name {\n			return fmt.Errorf(\"relation %v: %w\", relations[i].Name, ErrDuplicateDefinition)\n		}\n	}\n"),
  ("internal/policy/spec.go", "import (\n	\"fmt\"\n", "import (\n	\"fmt\"\n	\"sort\"\n")],
 "a policy given as a message whose relations are not in the order of their names",
 "the caller's message is reordered (and the policy stored so)",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	this := &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: domain.ThisNode()}}
	p := &domain.Policy{Id: "p", Name: "p", Resources: []*domain.Resource{{Name: "r", Relations: []*domain.Relation{{Name: "z", RelationExpression: this}, {Name: "a", RelationExpression: this}}}}}
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}})
	want(t, err == nil, "create fails")
	want(t, p.Resources[0].Relations[0].Name == "z", "the request was changed")
}''')

bug("c22-shared-memory", "C22",
 [("zanzi.go", "func WithMemKVStore() option {\n	kv := rcdb.NewMemKV()\n	return WithKVStore(kv)\n}", "func WithMemKVStore() option {\n	return WithKVStore(memKV)\n}\n\n// memKV is the storage of instances without one\nvar memKV = rcdb.NewMemKV()")],
 "two instances in one process, neither of which was given a storage",
 "they share their policies and relationships",
 '''
func TestDemo(t *testing.T) {
	one, err := zanzi.New()
	want(t, err == nil, "no instance")
	two, err := zanzi.New()
	want(t, err == nil, "no instance")
	z := &zz{t, one.GetPolicyService(), one.GetRelationGraphService()}
	z.create(`''' + DIFF + '''`)
	got, err := two.GetPolicyService().GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	want(t, err == nil && got.Record == nil, "the policy of one instance shows up in another")
}''')

bug("c22-last-option-decides", "C22",
 [("zanzi.go", "	for _, o := range opt {\n		err := o(&zanzi)\n		if err != nil {\n			return Zanzi{}, fmt.Errorf(\"could not build Zanzi: %w\", err)\n		}\n	}\n", "	var err error\n	for _, o := range opt {\n		err = o(&zanzi)\n	}\n	if err != nil {\n		return Zanzi{}, fmt.Errorf(\"could not build Zanzi: %w\", err)\n	}\n")],
 "a storage which cannot be opened, followed by another option",
 "an instance is made all the same, and its data is kept in memory only",
 '''
func TestDemo(t *testing.T) {
	f := t.TempDir() + "/file"
	want(t, os.WriteFile(f, nil, 0o600) == nil, "no file")
	_, err := zanzi.New(zanzi.WithDefaultKVStore(f+"/dir"), zanzi.WithDefaultLogger())
	want(t, err != nil, "an instance without its storage")
}''', '	"os"')

bug("c19-builder-shares-parts", "C19",
 [("pkg/domain/selector.go", "func (s *SelectorBuilder) WithRelation(relation string) *SelectorBuilder {\n	s.relSelector = &RelationSelector{\n		Selector: &RelationSelector_RelationName{\n			RelationName: relation,\n		},\n	}\n	return s\n}",
   "func (s *SelectorBuilder) WithRelation(relation string) *SelectorBuilder {\n	if s.relSelector == nil {\n		s.relSelector = &RelationSelector{}\n	}\n	s.relSelector.Selector = &RelationSelector_RelationName{\n		RelationName: relation,\n	}\n	return s\n}")],
 "a builder which is used again for another relation after Build",
 "the selector built first changes to the second relation",
 '''
func TestDemo(t *testing.T) {
	b := domain.SelectorBuilder{}
	b.AnyObject().AnySubject().WithRelation("a")
	first := b.Build()
	b.WithRelation("b")
	want(t, first.RelationSelector.GetRelationName() == "a", "the selector built before changed")
}''')

bug("c19-rules-of-last-branch", "C19",
 [("pkg/domain/relation_expression_tree.go", "		acc = n.OpNode.Left.getRules(acc)\n		acc = n.OpNode.Right.getRules(acc)\n", "		if n.OpNode.Operator == Operator_DIFFERENCE {\n			// what is excluded first\n			acc = n.OpNode.Right.getRules(acc)\n			return n.OpNode.Left.getRules(acc)\n		}\n		acc = n.OpNode.Left.getRules(acc)\n		acc = n.OpNode.Right.getRules(acc)\n")],
 "a tree with a difference",
 "its rules are not listed from left to right",
 '''
func TestDemo(t *testing.T) {
	rules := domain.UnionNode(domain.CUNode("a"), domain.DifferenceNode(domain.CUNode("b"), domain.CUNode("c"))).GetRules()
	want(t, len(rules) == 3 && rules[1].GetCu().GetTargetRelation() == "b", "order of rules")
}''')

bug("c18-data-error-as-missing", "C18",
 [("internal/store/kv_store/policy_repository.go", "	dataOpt, err := relationshipDataStore.GetObject(id)\n	if err != nil {\n		return nil, err\n	}\n	if dataOpt.IsEmpty() {\n		return nil, nil\n	}\n", "	dataOpt, err := relationshipDataStore.GetObject(id)\n	if err != nil || dataOpt.IsEmpty() {\n		return nil, nil\n	}\n")],
 "a storage failure of the read which fetches a relationship's data, the last read of the call",
 "an existing relationship is reported as absent",
 '''
// lastGet fails the n-th read
type lastGet struct {
	rcdb.KVStore
	n int
}

func (f *lastGet) Get(k []byte) ([]byte, error) {
	f.n--
	if f.n == 0 {
		return nil, errors.New("dead")
	}
	return f.KVStore.Get(k)
}

func TestDemo(t *testing.T) {
	kv := &lastGet{KVStore: rcdb.NewMemKV()}
	z := open(t, kv)
	z.create(`''' + DIFF + '''`)
	z.set("f:1#a", "u:x")
	for i := 1; i < 20; i++ {
		kv.n = i
		got, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: rel("f:1#a", "u:x")})
		want(t, err != nil || got.Record != nil, "an existing relationship is reported as absent")
	}
}''')

bug("c16-self-loop", "C16",
 [("pkg/types/map_graph.go", "	destEdgMap, ok := g.backwardEdges[destId]\n", "	if sourceId == destId {\n		return nil\n	}\n\n	destEdgMap, ok := g.backwardEdges[destId]\n")],
 "an edge from a node to itself",
 "the node is a successor of itself, but not its ancestor",
 '''
func TestDemo(t *testing.T) {
	g := types.New[string]()
	g.SetNode("a", "1")
	want(t, g.SetEdge("a", "a") == nil, "edge refused")
	want(t, len(g.GetAncestors("a")) == 1, "the edge is missing backwards")
}''')

bug("c17-rule-of-evaluator", "C17",
 [("internal/relation_graph/rule_evaluator.go", "type evaluator struct {\n	repository NodeRepository\n	logger     types.Logger\n}", "type evaluator struct {\n	repository NodeRepository\n	logger     types.Logger\n}\n\n// usersets builds the nodes of tuple to userset rules\nvar usersets struct {\n	relation string\n}\n\nfunc usersetNode(node *domain.RelationNode) (*domain.RelationNode, error) {\n	return buildTupleToUsersetNode(node, usersets.relation)\n}"),
  ("internal/relation_graph/rule_evaluator.go", "	sucessors, err := repository.GetSucessors(ctx, policyId, filter)\n	if err != nil {\n		return nil, fmt.Errorf(\"tuple to userset rule: %w\", err)", "	usersets.relation = rule.ComputedUsersetRelation\n	sucessors, err := repository.GetSucessors(ctx, policyId, filter)\n	if err != nil {\n		return nil, fmt.Errorf(\"tuple to userset rule: %w\", err)"),
  ("internal/relation_graph/rule_evaluator.go", "	mapper := func(node *domain.RelationNode) (*domain.RelationNode, error) {\n		return buildTupleToUsersetNode(node, rule.ComputedUsersetRelation)\n	}\n	nodes, err := utils.MapSliceErr(sucessors, mapper)\n", "	nodes, err := utils.MapSliceErr(sucessors, usersetNode)\n")],
 "two checks through tuple-to-userset rules with different computed relations at the same time",
 "one of them follows the relation of the other's rule",
 '''
// slow lets another check run while an iterator is opened
type slow struct {
	rcdb.KVStore
	hook func()
}

func (s *slow) Iterator(a, b []byte) rcdb.Iterator {
	if h := s.hook; h != nil {
		s.hook = nil
		h()
	}
	return s.KVStore.Iterator(a, b)
}

func TestDemo(t *testing.T) {
	kv := &slow{KVStore: rcdb.NewMemKV()}
	z := open(t, kv)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			parent: {expr: _this, types: ["*"]}
			owner: {expr: _this, types: ["*"]}
			guest: {expr: _this, types: ["*"]}
			write: {expr: parent->owner, types: ["*"]}
			read: {expr: parent->guest, types: ["*"]}
`)
	z.set("f:1#parent", "f:2")
	z.set("f:2#owner", "u:x")
	done := make(chan bool)
	kv.hook = func() {
		go func() { done <- z.check("f:1#read", "u:x") }()
		want(t, !<-done, "a check grants")
	}
	want(t, z.check("f:1#write", "u:x"), "the first of two simultaneous checks denies")
}''')

bug("c02-path-labels", "C02",
 [("internal/relation_graph/goal_tree_serializer.go", "	err := graph.AddNode(dotGraphName, id, attrs)\n	if err != nil {\n		return fmt.Errorf(\"node %v: %w\", label, err)\n	}\n\n	directed := true\n	err = graph.AddEdge(parentId, id, directed, nil)\n	if err != nil {\n		return fmt.Errorf(\"edg %v->%v: %w\", parentId, id, err)\n	}\n\n	return s.handleGoalTree(id, node.Path, graph)\n",
   "	// a node which was met before is drawn once\n	for _, other := range graph.Nodes.Nodes {\n		if other.Attrs[\"label\"] == label {\n			return graph.AddEdge(parentId, other.Name, true, nil)\n		}\n	}\n\n	err := graph.AddNode(dotGraphName, id, attrs)\n	if err != nil {\n		return fmt.Errorf(\"node %v: %w\", label, err)\n	}\n\n	directed := true\n	err = graph.AddEdge(parentId, id, directed, nil)\n	if err != nil {\n		return fmt.Errorf(\"edg %v->%v: %w\", parentId, id, err)\n	}\n\n	return s.handleGoalTree(id, node.Path, graph)\n")],
 "a check which meets the same userset twice with the same outcome, on two branches of an operator",
 "the explanation is not a tree",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: b & (b - c), types: ["*"]}
			b: {expr: _this, types: ["*"]}
			c: {expr: _this, types: ["*"]}
`)
	z.set("f:1#b", "u:x")
	resp, err := z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: access("f:1#a", "u:x"), Format: api.ExplainFormat_DOT})
	want(t, err == nil && resp.Authorized, "explain fails")
	arrows := strings.Count(resp.GoalTree, "->")
	labels := strings.Count(resp.GoalTree, "label=")
	want(t, arrows == labels, "not a tree")
}''')

