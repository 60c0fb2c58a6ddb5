POL = '''id: p
name: p
resources:
	u:
	f:
		relations:
			%s
'''
bug("c01-ttu-keeps-relation", "C01",
 [("internal/relation_graph/rule_evaluator.go", "		entitySetNode.Object = nodeType.EntitySet.Object\n",
   "		entitySetNode.Object = nodeType.EntitySet.Object\n		entitySetNode.Relation = nodeType.EntitySet.Relation\n")],
 "a tuple-to-userset rule which follows a relationship whose subject is a userset",
 "the rule looks at the userset's own relation instead of the computed one, so the check grants to the wrong members",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			parent: {expr: _this, types: ["*"]}
			owner: {expr: _this, types: ["*"]}
			member: {expr: _this, types: ["*"]}
			read: {expr: parent->owner, types: ["*"]}
`)
	z.set("f:1#parent", "f:2#member")
	z.set("f:2#member", "u:mallory")
	z.set("f:2#owner", "u:olga")
	want(t, z.check("f:1#read", "u:olga"), "the owner of the parent may not read")
	want(t, !z.check("f:1#read", "u:mallory"), "a member of the parent may read")
}''')

bug("c01-failed-nodes-remembered", "C01",
 [("internal/relation_graph/searcher.go", "	goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)\n",
   "	if tree, ok := s.resolvedTrees[nodeId]; ok {\n		pathNode.Path = tree\n		pathNode.Result = tree.GetResult()\n		return pathNode, nil\n	}\n\n	goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)\n"),
  ("internal/relation_graph/searcher.go", "		seenNodes: make(map[string]struct{}),\n", "		seenNodes: make(map[string]struct{}),\n		resolvedTrees: make(map[string]GoalTree),\n"),
  ("internal/relation_graph/searcher.go", "	goalTree.SetParent(pathNode)\n", "	s.resolvedTrees[nodeId] = goalTree\n	goalTree.SetParent(pathNode)\n")],
 "a userset which is first reached inside a cycle through a node that is still being searched, and is needed again outside of it",
 "results truncated by a cycle are remembered as final: a subject with access is denied (or, behind a difference, granted)",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: b - c, types: ["*"]}
			b: {expr: e + d, types: ["*"]}
			c: {expr: e, types: ["*"]}
			d: {expr: _this, types: ["*"]}
			e: {expr: b & d, types: ["*"]}
`)
	z.set("f:1#d", "u:x")
	want(t, !z.check("f:1#a", "u:x"), "x is excluded by c, yet granted")
}''')

bug("c01-wildcard-any-resource", "C01",
 [("internal/relation_graph/searcher.go", "		return node.Wildcard.Resource == goal.Object.Resource\n", "		return strings.HasPrefix(goal.Object.Resource, node.Wildcard.Resource)\n"),
  ("internal/relation_graph/searcher.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a wildcard over a resource whose name is a prefix of the subject's resource",
 "a wildcard over one resource grants to the subjects of another",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	ua:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	z.set("f:1#a", "u")
	want(t, z.check("f:1#a", "u:x"), "every u has access")
	want(t, !z.check("f:1#a", "ua:x"), "only u have access")
}''')

bug("c01-union-of-three", "C01",
 [("internal/relation_graph/searcher.go", "	for i, path := range tree.Paths {\n		newPath, err := s.search(ctx, policy, path, goal)\n		paths[i] = newPath\n		if err != nil {\n			return nil, err\n		}\n\n		// ORNode",
   "	for i, path := range tree.Paths {\n		if i >= 8 {\n			s.logger.Debugf(\"OR Node terminated: too many paths\")\n			break\n		}\n		newPath, err := s.search(ctx, policy, path, goal)\n		paths[i] = newPath\n		if err != nil {\n			return nil, err\n		}\n\n		// ORNode")],
 "an object whose relation has more than eight relationships",
 "relationships beyond the eighth are not considered by a check",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	for i := 0; i < 20; i++ {
		z.set("f:1#a", "u:"+string(rune('a'+i)))
	}
	for i := 0; i < 20; i++ {
		want(t, z.check("f:1#a", "u:"+string(rune('a'+i))), "a direct relationship is denied")
	}
}''')

bug("c01-depth-limit", "C01",
 [("internal/relation_graph/searcher.go", "	spec := GoalFoundSpec{}\n	found := spec.Found(node, goal)\n",
   "	if len(s.seenNodes) > 10 {\n		s.logger.Warnf(\"search depth exceeded: %v\", node.RelationNode)\n		pathNode.Result = SearchResult_FAILURE\n		return pathNode, nil\n	}\n\n	spec := GoalFoundSpec{}\n	found := spec.Found(node, goal)\n")],
 "a chain of usersets of more than ten links",
 "members reachable only through a long chain are denied",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	n := func(i int) string { return "f:" + string(rune('a'+i)) + "#a" }
	for i := 0; i < 15; i++ {
		z.set(n(i), n(i+1))
	}
	z.set(n(15), "u:x")
	for i := 0; i < 16; i++ {
		want(t, z.check(n(i), "u:x"), "a member through a chain is denied")
	}
}''')

bug("c02-unknown-format-spew", "C02",
 [("internal/relation_graph/goal_tree_serializer.go", "	case api.ExplainFormat_SPEW:\n		return &spewSerializer{}, nil\n", ""),
  ("internal/relation_graph/goal_tree_serializer.go", "	default:\n		return nil, fmt.Errorf(\"ExplainFormat %v: %w\", model, domain.ErrInvalidVariant)\n	}\n}", "	default:\n		return &spewSerializer{}, nil\n	}\n}")],
 "a request with an unknown format",
 "unknown formats are not rejected",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	_, err := z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: access("f:1#a", "u:x"), Format: 77})
	want(t, err != nil, "an unknown format is accepted")
}''')

bug("c02-dot-ids-wrap", "C02",
 [("internal/relation_graph/goal_tree_serializer.go", "	s.counter++\n", "	s.counter = (s.counter + 1) % 10\n")],
 "an explanation with more than ten nodes",
 "the ids of the DOT document repeat, so it is no longer a tree",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	for i := 0; i < 14; i++ {
		z.set("f:1#a", "u:"+string(rune('a'+i)))
	}
	r, err := z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: access("f:1#a", "u:none"), Format: api.ExplainFormat_DOT})
	want(t, err == nil, "explain fails")
	want(t, strings.Count(r.GoalTree, "label=") == 16, "the document does not have 16 nodes")
}''')

bug("c02-difference-one-branch", "C02",
 [("internal/relation_graph/searcher.go", "	rightTree, err := s.search(ctx, policy, tree.Right, goal)\n	if err != nil {\n		return nil, err\n	}\n\n	found :=",
   "	rightTree := tree.Right\n	if leftTree.GetResult() == SearchResult_SUCCESS {\n		rightTree, err = s.search(ctx, policy, tree.Right, goal)\n		if err != nil {\n			return nil, err\n		}\n	}\n\n	found :=")],
 "expanding (or explaining) a relation with a difference whose left branch fails",
 "the right branch of a difference is not expanded: the members excluded by it do not appear",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: b - c, types: ["*"]}
			b: {expr: _this, types: ["*"]}
			c: {expr: _this, types: ["*"]}
`)
	z.set("f:1#c", "u:banned")
	r, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: entity("f:1"), Relation: "a"}}}, Format: api.ExplainFormat_DOT})
	want(t, err == nil, "expand fails")
	want(t, strings.Contains(r.GoalTree, "banned"), "the excluded member is not shown")
}''')
B["c02-difference-one-branch"]["prop"] = "C14"
B["c14-difference-one-branch"] = B.pop("c02-difference-one-branch")

bug("c03-wildcard-unchecked", "C03",
 [("internal/policy/spec.go", "	case *domain.Subject_ResourceSet:\n		resource := lut.GetResource(s.ResourceSet.ResourceName)\n		if resource == nil {\n			return fmt.Errorf(\"resource %v: %w\", s.ResourceSet.ResourceName, ErrResourceNotFound)\n		}\n	default:\n		return fmt.Errorf(\"subject",
   "	case *domain.Subject_ResourceSet:\n	default:\n		return fmt.Errorf(\"subject")],
 "a wildcard over an undefined resource on a relation which admits every subject",
 "a relationship to a resource the policy does not define is accepted",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	_, err := z.trySet("f:1#a", "nothing", "")
	want(t, err != nil, "a wildcard over an undefined resource is accepted")
}''')

bug("c03-userset-relation-ignored", "C03",
 [("internal/policy/spec.go", "		if setRestriction.ResourceName == resource && setRestriction.RelationName == relation {\n			return nil\n",
   "		if setRestriction.RelationName == relation {\n			return nil\n")],
 "a restriction which lists a userset, and a subject with the same relation of another resource",
 "a userset of a resource which the restriction does not list is accepted",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	g:
		relations:
			m: {expr: _this, types: ["*"]}
	h:
		relations:
			m: {expr: _this, types: ["*"]}
	f:
		relations:
			a: {expr: _this, types: ["g:m"]}
`)
	z.set("f:1#a", "g:1#m")
	_, err := z.trySet("f:1#a", "h:1#m", "")
	want(t, err != nil, "a userset which is not listed is accepted")
}''')

bug("c03-fqn-joined", "C07",
 [("internal/policy/types.go", "	return fqn.String()\n", "	return fqn.Id()\n")],
 "resource and relation names with slashes: resource 'a/b' relation 'c' beside resource 'a' with a rule on 'b/c'",
 "names which join alike are confused: a policy whose expression refers to an undefined relation is accepted",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	rel := func(n string, tree *domain.RelationExpressionTree) *domain.Relation {
		return &domain.Relation{Name: n, RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: tree}},
			SubjectRestriction: &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}}
	}
	pol := &domain.Policy{Id: "p", Resources: []*domain.Resource{
		{Name: "a/b", Relations: []*domain.Relation{rel("c", domain.ThisNode())}},
		{Name: "a", Relations: []*domain.Relation{rel("d", domain.CUNode("b/c"))}},
	}}
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: pol}}})
	want(t, err != nil, "an expression which refers to an undefined relation is accepted")
}''')
B["c07-fqn-joined"] = B.pop("c03-fqn-joined")

bug("c04-wildcard-as-star-entity", "C04",
 [("internal/store/kv_store/mapper.go", "		subjResource = subject.ResourceSet.ResourceName\n		subjType = RelationType_RESOURCE_SET\n", "		subjResource = subject.ResourceSet.ResourceName\n		subjId = wildcardId\n		subjType = RelationType_OBJECT\n"),
  ("internal/store/kv_store/mapper.go", "type relationshipMapper struct{}\n", "type relationshipMapper struct{}\n\n// wildcardId is the id of the entity which stands for every entity of a resource\nconst wildcardId string = \"*\"\n"),
  ("internal/store/kv_store/mapper.go", "	switch relationship.Dest.Type {\n	case RelationType_OBJECT:\n		subject.Subject", "	switch relationship.Dest.Type {\n	case RelationType_OBJECT:\n		if dest.Id == wildcardId {\n			subject.Subject = &domain.Subject_ResourceSet{\n				ResourceSet: &domain.ResourceSet{\n					ResourceName: dest.Resource,\n				},\n			}\n			break\n		}\n		subject.Subject"),
  ("internal/store/kv_store/mapper.go", "	switch node.Type {\n	case RelationType_OBJECT:\n", "	switch node.Type {\n	case RelationType_OBJECT:\n		if node.Id == wildcardId {\n			relationNode.Node = &domain.RelationNode_Wildcard{\n				Wildcard: &domain.WildcardNode{\n					Resource: node.Resource,\n				},\n			}\n			break\n		}\n")],
 "an entity whose id is '*' beside the wildcard of its resource",
 "the entity and the wildcard share one record: deleting one deletes the other, and the entity grants to everyone",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	z.set("f:1#a", "u:*")
	r, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: rel("f:1#a", "u")})
	want(t, err == nil && r.Record == nil, "the wildcard exists although only an entity was set")
}''')

bug("c04-overwrite-by-data", "C04",
 [("internal/store/kv_store/policy_repository.go", "	updated := !opt.IsEmpty()\n", "	updated := !opt.IsEmpty() && len(record.AppData) > 0\n")],
 "setting an existing relationship again without application data",
 "the response says that nothing was overwritten",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	z.trySet("f:1#a", "u:x", "data")
	r, err := z.trySet("f:1#a", "u:x", "")
	want(t, err == nil && r.RecordOverwritten, "the overwrite is not reported")
}''')

bug("c05-count-duplicates", "C05",
 [("internal/store/kv_store/policy_repository.go", "	removed := len(utils.MapSlice(founds, utils.Identity[types.RecordFound]))\n", "	removed := byte(len(utils.MapSlice(founds, utils.Identity[types.RecordFound])) & 0x7)\n")],
 "a selector which matches eight or more relationships",
 "the number of deleted relationships is wrong",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
`)
	for i := 0; i < 9; i++ {
		z.set("f:1#a", "u:"+string(rune('a'+i)))
	}
	r, err := z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: all()})
	want(t, err == nil && r.RecordsAffected == 9, "nine relationships were deleted")
}''')

bug("c05-relation-of-other-resource", "C05",
 [("internal/policy/spec.go", "	case *domain.ObjectSelector_ResourceSpec:\n		return s.ResourceSpec\n	}\n	return \"\"\n", "	case *domain.ObjectSelector_ResourceSpec:\n		return strings.TrimSpace(s.ResourceSpec)\n	}\n	return \"\"\n"),
  ("internal/policy/spec.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a resource whose name begins or ends in a space",
 "a valid selector by resource and relation crashes or is rejected",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	"f ":
		relations:
			a: {expr: _this, types: ["*"]}
`)
	defer func() { want(t, recover() == nil, "a valid selector crashes") }()
	_, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: &domain.RelationshipSelector{
		ObjectSelector:   &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: "f "}},
		RelationSelector: &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: "a"}},
		SubjectSelector:  &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}}})
	want(t, err == nil, "a valid selector is rejected")
}''')

bug("c06-update-resets-creation", "C06",
 [("internal/policy/service.go", "	record.Policy = policy\n	record.AppData = req.AppData\n", "	record = domain.NewPolicyRecord(policy, req.AppData)\n")],
 "reading a policy's creation time after an update",
 "an update replaces the creation time",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	y := `id: p
name: p
resources:
	u:
`
	z.create(y)
	get := func() int64 {
		r, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
		want(t, err == nil, "get fails")
		return r.Record.CreatedAt.AsTime().UnixNano()
	}
	before := get()
	_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(y)})
	want(t, err == nil && get() == before, "the creation time changed")
}''')

bug("c06-update-keeps-data", "C06",
 [("internal/policy/service.go", "	record.AppData = req.AppData\n", "	if len(req.AppData) > 0 {\n		record.AppData = req.AppData\n	}\n")],
 "updating a policy which has application data without any",
 "the old application data stays",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	y := `id: p
name: p
resources:
	u:
`
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(y), AppData: []byte("secret")})
	want(t, err == nil, "create fails")
	_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(y)})
	want(t, err == nil, "update fails")
	r, _ := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	want(t, len(r.Record.AppData) == 0, "the data of the update was not stored")
}''')

bug("c07-right-rules-only", "C07",
 [("pkg/domain/relation_expression_tree.go", "		acc = n.OpNode.Left.getRules(acc)\n		acc = n.OpNode.Right.getRules(acc)\n",
   "		left := n.OpNode.Left.getRules(acc)\n		right := n.OpNode.Right.getRules(left[:len(acc)])\n		acc = append(left, right[len(acc):]...)\n")],
 "an expression of at least three rules, where the slices of the two branches share memory",
 "some rules are checked twice and others never: an undefined relation in an expression is accepted",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	y := `id: p
name: p
resources:
	u:
	f:
		relations:
			b: {expr: _this, types: ["*"]}
			a: {expr: EXPR, types: ["*"]}
`
	for _, e := range []string{"zz + b", "b + zz", "(zz + b) + b", "(b + zz) - b", "b + (zz & b)", "b & (b + zz)", "((zz + b) + b) + b", "(b + (zz + b)) + b", "b + (b + (zz + b))", "b + ((zz + b) + b)", "(b + zz) + (b + b)", "(zz + b) + (b + b)", "(b + b) + (zz + b)", "(b + b) + (b + zz)"} {
		_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(strings.ReplaceAll(y, "EXPR", e))})
		want(t, err != nil, "an undefined relation is accepted in "+e)
	}
}''')

bug("c08-leftover-token", "C08",
 [("internal/relation_expression_parser/parser.go", "	if len(tail) != 0 {\n", "	if len(tail) > 1 {\n"),
  ("internal/relation_expression_parser/parser.go", "	_, _, tail = skipEof(tail)\n", "	_, _, tail = skipEof(tail)\n	if len(tail) > 0 && tail[len(tail)-1].Type == tokenEof {\n		tail = tail[:len(tail)-1]\n	}\n")],
 "an expression followed by a single superfluous token",
 "the last token is ignored",
 '''
func TestDemo(t *testing.T) {
	for _, e := range []string{"a b", "a )", "(a) (", "a + b _this", "a ->"} {
		_, err := parser.Parse(e)
		want(t, err != nil, "accepted: "+e)
	}
}''', imports='	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"')

bug("c08-channel-depth", "C08",
 [("internal/relation_expression_parser/parser.go", "	pairs, err, tail := opTermsParser(tail)\n	if len(pairs) == 0 {\n		return head, nil, tail\n	}\n", "	pairs, err, tail := opTermsParser(tail)\n	if len(pairs) == 0 {\n		return head, nil, tail\n	}\n	if len(pairs) > 6 {\n		pairs = pairs[:6]\n	}\n")],
 "an expression with more than seven terms on one level",
 "the remaining terms are ignored",
 '''
func TestDemo(t *testing.T) {
	tree, err := parser.Parse("a + b + c + d + e + f + g + h + i")
	want(t, err == nil, "rejected")
	want(t, strings.Contains(tree.RelationExpression(), "i"), "the last term is lost")
}''', imports='	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"')

bug("c09-parentheses-same-operator", "C09",
 [("pkg/domain/relation_expression_tree.go", "		right := node.OpNode.Right.RelationExpression()\n",
   "		right := node.OpNode.Right.RelationExpression()\n		if op := node.OpNode.Right.GetOpNode(); op != nil && op.Operator == node.OpNode.Operator {\n			right = right[len(GroupBeginLexeme) : len(right)-len(GroupEndLexeme)]\n		}\n")],
 "an operator whose right operand is the same operator",
 "the parentheses are dropped, so a - (b - c) prints as a - b - c",
 '''
func TestDemo(t *testing.T) {
	in := domain.DifferenceNode(domain.CUNode("a"), domain.DifferenceNode(domain.CUNode("b"), domain.CUNode("c")))
	out, err := parser.Parse(in.RelationExpression())
	want(t, err == nil && proto.Equal(in, out), "the printed expression reads differently")
}''', imports='	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"\n	"google.golang.org/protobuf/proto"')

bug("c10-order-ignores-case", "C10",
 [("pkg/policy_definition/mapper.go", "		func(r *RelationDefinition) string {\n			return r.name\n", "		func(r *RelationDefinition) string {\n			return strings.ToLower(r.name)\n")],
 "two relations whose names differ in case only, and the iteration order of a map",
 "the same document gives policies with different orders of relations",
 '''
func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		p, err := policy_definition.PolicyFromYaml("id: p\\nresources:\\n  f:\\n    relations:\\n      a: {expr: _this}\\n      A: {expr: _this}\\n")
		want(t, err == nil, "rejected")
		n := p.Resources[0].Relations[0].Name
		want(t, first == "" || n == first, "the same document gives different policies")
		first = n
	}
}''', imports='	"github.com/sourcenetwork/zanzi/pkg/policy_definition"')

bug("c10-first-type-decides", "C10",
 [("pkg/policy_definition/mapper.go", "	if slices.Contains(types, UniversalSetType) {\n", "	if len(types) == 1 && slices.Contains(types, UniversalSetType) {\n")],
 "a types list with a star beside other types",
 "the star no longer admits every subject, it becomes a resource named '*'",
 '''
func TestDemo(t *testing.T) {
	p, err := policy_definition.PolicyFromYaml("id: p\\nresources:\\n  f:\\n    relations:\\n      a: {expr: _this, types: [f, '*']}\\n")
	want(t, err == nil, "rejected")
	want(t, p.Resources[0].Relations[0].SubjectRestriction.GetUniversalSet() != nil, "the star does not admit every subject")
}''', imports='	"github.com/sourcenetwork/zanzi/pkg/policy_definition"')

bug("c11-dump-unknown-policy", "C11",
 [("internal/relation_graph/service.go", '		return nil, fmt.Errorf("DumpRelationships: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)\n', '		return nil, fmt.Errorf("DumpRelationships: %w: policy %v: %w", api.ErrInvalidRequest, rec.Policy.Id, policy.ErrPolicyNotFound)\n')],
 "dumping the relationships of a policy which does not exist",
 "the call panics",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	defer func() { want(t, recover() == nil, "the call panics") }()
	_, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "none"})
	want(t, err != nil, "a dump of an unknown policy succeeds")
}''')
