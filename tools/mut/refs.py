# Behaviour-preserving rewrites: the checks must stay quiet.
S="internal/relation_graph/searcher.go"
r("r01-search-helper","C01 C02 C14",[(S,"""	paths := make([]GoalTree, len(tree.Paths))
	copy(paths, tree.Paths)
	foundAll := true

	for i, path := range tree.Paths {
		newPath, err := s.search(ctx, policy, path, goal)
		paths[i] = newPath
		if err != nil {
			return nil, err
		}

		// ANDNode requires that all Paths to the Goal are found
		if newPath.GetResult() == SearchResult_FAILURE {
			foundAll = false
			// without a Target (Expand) every Path must be walked through
			if goal.Target != nil {
				s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
				break
			}
		}
	}

	result := utils.Conditional(foundAll, SearchResult_SUCCESS, SearchResult_FAILURE)
""","""	paths, stopped, err := s.searchChildren(ctx, policy, tree.Paths, goal, SearchResult_FAILURE, goal.Target != nil)
	if err != nil {
		return nil, err
	}

	result := SearchResult_SUCCESS
	if stopped {
		result = SearchResult_FAILURE
	}
"""),(S,"""	paths := make([]GoalTree, len(tree.Paths))
	for i, p := range tree.Paths {
		paths[i] = p
	}
	foundAny := false

	for i, path := range tree.Paths {
		newPath, err := s.search(ctx, policy, path, goal)
		paths[i] = newPath
		if err != nil {
			return nil, err
		}

		// ORNode requires that any Path reaches the Goal
		if newPath.GetResult() == SearchResult_SUCCESS {
			foundAny = true
			s.logger.Debugf("OR Node terminated: node %v reached goal", newPath)
			break
		}
	}

	result := utils.Conditional(foundAny, SearchResult_SUCCESS, SearchResult_FAILURE)
""","""	paths, stopped, err := s.searchChildren(ctx, policy, tree.Paths, goal, SearchResult_SUCCESS, true)
	if err != nil {
		return nil, err
	}

	result := utils.Conditional(stopped, SearchResult_SUCCESS, SearchResult_FAILURE)
"""),(S,"func (s *Searcher) searchDifference(","""// searchChildren searches each of the trees, up to the first with the given result if halt is set
func (s *Searcher) searchChildren(ctx context.Context, policy *domain.Policy, trees []GoalTree, goal *Goal, until SearchResult, halt bool) ([]GoalTree, bool, error) {
	paths := append([]GoalTree(nil), trees...)
	met := false
	for i := 0; i < len(paths); i++ {
		child, err := s.search(ctx, policy, paths[i], goal)
		if err != nil {
			return nil, false, err
		}
		paths[i] = child
		if child.GetResult() != until {
			continue
		}
		met = true
		if halt {
			return paths, met, nil
		}
	}
	return paths, met, nil
}

func (s *Searcher) searchDifference(""")])
r("r02-trail-slice","C01 C14 C02",[(S,"	seenNodes     map[string]struct{}\n","	trail         []string\n"),(S,"		builder:   builder,\n		logger:    logger,\n		seenNodes: make(map[string]struct{}),\n","		builder: builder,\n		logger:  logger,\n"),
 (S,"	if _, ok := s.seenNodes[nodeId]; ok {\n","	if slices.Contains(s.trail, nodeId) {\n"),(S,"	s.seenNodes[nodeId] = struct{}{}\n	defer delete(s.seenNodes, nodeId)\n","	s.trail = append(s.trail, nodeId)\n	defer func() { s.trail = s.trail[:len(s.trail)-1] }()\n"),(S,'	"fmt"\n','	"fmt"\n	"slices"\n')])
RE="internal/relation_graph/rule_evaluator.go"
r("r03-ttu-loop","C01 C18",[(RE,"""	mapper := func(node *domain.RelationNode) (*domain.RelationNode, error) {
		return buildTupleToUsersetNode(node, rule.ComputedUsersetRelation)
	}
	nodes, err := utils.MapSliceErr(sucessors, mapper)

	return nodes, err
""","""	var nodes []*domain.RelationNode
	for i := range sucessors {
		mapped, err := buildTupleToUsersetNode(sucessors[i], rule.ComputedUsersetRelation)
		if err != nil {
			return nil, err
		}
		nodes = append(nodes, mapped)
	}
	return nodes, nil
"""),(RE,'	"github.com/sourcenetwork/zanzi/internal/utils"\n','')])
PR="internal/store/kv_store/policy_repository.go"
r("r04-find-one-loop","C05 C06 C12 C18",[(PR,"""	mapped := utils.MapSlice(rels, func(relationship *Relationship) *domain.Relationship {
		mapped := r.mapper.FromInternal(relationship)
		return &mapped
	})
	filtered := utils.Filter(mapped, func(relationship *domain.Relationship) bool { return spec.Satisfies(relationship) })
	return filtered, nil
""","""	var matches []*domain.Relationship
	for _, rel := range rels {
		public := r.mapper.FromInternal(rel)
		if !spec.Satisfies(&public) {
			continue
		}
		matches = append(matches, &public)
	}
	return matches, nil
"""),(PR,"""	founds, err := utils.MapSliceErr(relationships, func(relationship *domain.Relationship) (types.RecordFound, error) {
		return r.DeleteRelationship(ctx, policyId, relationship)
	})
	if err != nil {
		return 0, err
	}

	removed := len(utils.MapSlice(founds, utils.Identity[types.RecordFound]))
	return uint64(removed), nil
""","""	var removed uint64
	for _, relationship := range relationships {
		if _, err := r.DeleteRelationship(ctx, policyId, relationship); err != nil {
			return 0, err
		}
		removed++
	}
	return removed, nil
""")])
MO="internal/store/kv_store/model.go"
r("r05-keys-by-text","C04 C05 C12",[(MO,"""	hasher := sha256.New()
	hasher.Write([]byte{byte(node.Type)})
	// fields are prefixed by their length, otherwise distinct nodes
	// whose fields concatenate to the same string would share a key
	for _, field := range []string{node.Resource, node.Id, node.Relation} {
		var size [8]byte
		binary.BigEndian.PutUint64(size[:], uint64(len(field)))
		hasher.Write(size[:])
		hasher.Write([]byte(field))
	}
	return hasher.Sum(nil)
""","""	var buf bytes.Buffer
	fmt.Fprintf(&buf, "%d", node.Type)
	for _, field := range [...]string{node.Resource, node.Id, node.Relation} {
		buf.WriteByte('/')
		buf.WriteString(strconv.Itoa(len(field)))
		buf.WriteByte(':')
		buf.WriteString(field)
	}
	sum := sha256.Sum256(buf.Bytes())
	return sum[:]
"""),(MO,'	"crypto/sha256"\n	"encoding/binary"\n','	"bytes"\n	"crypto/sha256"\n	"fmt"\n	"strconv"\n')])
RP="internal/relation_expression_parser/"
r("r06-lex-direct","C08 C09 C10",[(RP+"parser.go","""	lexer, tokenChan := NewLexer(expression)
	go lexer.Lex()
	tokens := utils.ConsumeChan(tokenChan)
""","""	tokens := tokenize(expression)
"""),(RP+"parser.go","var identifierTokenParser ","""func tokenize(expression string) []token {
	lexer, queue := NewLexer(expression)
	done := make(chan []token)
	go func() { done <- utils.ConsumeChan(queue) }()
	lexer.Lex()
	return <-done
}

var identifierTokenParser """)])
r("r07-recursive-descent","C08 C09 C07",[(RP+"parser.go","""	expr, err, tail := expressionParser(tokens)
	if err != nil {
		return nil, err
	}
	_, _, tail = skipEof(tail)
	if len(tail) != 0 {
		// if the language is correct, a valid expression would consume all tokens
		// so maybe this is worthy of a panic
		return nil, fmt.Errorf("error parsing expression %v: leftover tokens, possibly misformed: tokens=%v", expression, tail)
	}

	return expr, nil
}
""","""	p := &descent{tokens: tokens}
	expr, err := p.expression()
	if err != nil {
		return nil, fmt.Errorf("error parsing expression %q: %w", expression, err)
	}
	if p.next().Type != tokenEof {
		return nil, fmt.Errorf("error parsing expression %q: leftover tokens", expression)
	}
	return expr, nil
}

type descent struct {
	tokens []token
	pos    int
}

func (p *descent) next() token {
	if p.pos >= len(p.tokens) {
		return token{Type: tokenEof}
	}
	return p.tokens[p.pos]
}

func (p *descent) accept(types ...tokenType) (token, bool) {
	t := p.next()
	for _, want := range types {
		if t.Type == want {
			p.pos++
			return t, true
		}
	}
	return t, false
}

func (p *descent) expression() (Term, error) {
	acc, err := p.term()
	for err == nil {
		t, ok := p.accept(tokenUnion, tokenDifference, tokenIntersection)
		if !ok {
			break
		}
		op := map[tokenType]domain.Operator{
			tokenUnion:        domain.Operator_UNION,
			tokenDifference:   domain.Operator_DIFFERENCE,
			tokenIntersection: domain.Operator_INTERSECTION,
		}[t.Type]
		var right Term
		if right, err = p.term(); err == nil {
			acc = domain.NewOpNode(acc, op, right)
		}
	}
	if err != nil {
		return nil, err
	}
	return acc, nil
}

func (p *descent) term() (Term, error) {
	switch t := p.next(); t.Type {
	case tokenThis:
		p.pos++
		return domain.ThisNode(), nil
	case tokenIdentifier:
		p.pos++
		if _, ok := p.accept(tokenArrow); !ok {
			return domain.CUNode(t.Lexeme), nil
		}
		if to, ok := p.accept(tokenIdentifier); ok {
			return domain.TTUNode(t.Lexeme, to.Lexeme), nil
		}
		return nil, fmt.Errorf("at %d: expected identifier after arrow", t.EndPos)
	case tokenGroupBegin:
		p.pos++
		inner, err := p.expression()
		if err != nil {
			return nil, err
		}
		if _, ok := p.accept(tokenGroupEnd); !ok {
			return nil, fmt.Errorf("unclosed group at %d", t.StartPos)
		}
		return inner, nil
	default:
		return nil, fmt.Errorf("unexpected token %q", t.Lexeme)
	}
}
""")])
PM="pkg/policy_definition/mapper.go"
r("r08-sort-keys","C10",[(PM,"""	items := make([]Val, 0, len(m))
	for _, item := range m {
		items = append(items, item)
	}

	sort.Sort(asSortable(items, keyFunc))

	return items
""","""	items := maps.Values(m)
	slices.SortStableFunc(items, func(a, b Val) bool {
		return keyFunc(a) < keyFunc(b)
	})
	return items
"""),(PM,'	"sort"\n','	_ "sort"\n'),(PM,'	"golang.org/x/exp/slices"\n','	"golang.org/x/exp/maps"\n	"golang.org/x/exp/slices"\n')])
GS="internal/relation_graph/goal_tree_serializer.go"
TS="internal/relation_graph/relation_tree_serializer.go"
r("r09-quote-loop","C02 C14 C15",[(TS,"""	replacer := strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`)
	return `"` + replacer.Replace(str) + `"`
""","""	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(str); i++ {
		switch c := str[i]; c {
		case '"', '\\\\':
			sb.WriteByte('\\\\')
			sb.WriteByte(c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
"""),(GS,"""	id := s.sprintf("%v", s.counter)
	s.counter++
	return id
""","""	s.counter++
	return quoteDot("n" + strconv.Itoa(s.counter))
"""),(GS,'	"fmt"\n','	"fmt"\n	"strconv"\n')])
SP="internal/policy/spec.go"
TY="internal/policy/types.go"
r("r10-lut-nested","C03 C07 C01",[(TY,"	relations map[string]*domain.Relation\n","	relations map[[2]string]*domain.Relation\n"),(TY,"make(map[string]*domain.Relation)","make(map[[2]string]*domain.Relation)"),
 (TY,"""func (l *PolicyLookUpTable) buildRelationKey(resource, relation string) string {
	fqn := NewRelationFQN(resource, relation)
	return fqn.String()
}
""","""func (l *PolicyLookUpTable) buildRelationKey(resource, relation string) [2]string {
	return [2]string{resource, relation}
}
"""),(SP,"""	names := make(map[string]struct{})

	for _, relation := range resource.Relations {
		name := relation.Name
		_, ok := names[name]
		if ok {
			return fmt.Errorf("relation %v: %w", name, ErrDuplicateDefinition)
		}
		names[name] = struct{}{}
	}
	return nil
""","""	names := make([]string, 0, len(resource.Relations))
	for _, relation := range resource.Relations {
		names = append(names, relation.Name)
	}
	sort.Strings(names)
	for i := 1; i < len(names); i++ {
		if names[i-1] == names[i] {
			return fmt.Errorf("relation %v: %w", names[i], ErrDuplicateDefinition)
		}
	}
	return nil
"""),(SP,'	"fmt"\n','	"fmt"\n	"sort"\n')])
W="internal/relation_graph/walker.go"
r("r11-walk-stack","C15",[(W,"""	if _, ok := reached[tree]; ok {
		return
	}
	reached[tree] = struct{}{}
	for _, child := range tree.Children {
		w.markReached(child, reached)
	}
""","""	stack := []*domain.RelationTree{tree}
	for len(stack) > 0 {
		last := len(stack) - 1
		top := stack[last]
		stack = stack[:last]
		if _, ok := reached[top]; ok {
			continue
		}
		reached[top] = struct{}{}
		stack = append(stack, top.Children...)
	}
"""),(W,"""	for orphan := range orphans {
		rootChildren = append(rootChildren, trees[orphan])
		w.markReached(trees[orphan], reached)
	}
""","""	ids := make([]string, 0, len(orphans))
	for orphan := range orphans {
		ids = append(ids, orphan)
	}
	sort.Strings(ids)
	for _, orphan := range ids {
		rootChildren = append(rootChildren, trees[orphan])
		w.markReached(trees[orphan], reached)
	}
"""),(W,'	"context"\n','	"context"\n	"sort"\n')])
RS="internal/relation_graph/service.go"
r("r12-service-helpers","C01 C02 C14 C11 C18 C17",[(RS,"""	if err := validAccessRequest(req.AccessRequest); err != nil {
		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
	}

	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
	if err != nil {
		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
	}
	if pol == nil {
		return nil, fmt.Errorf("check: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
	}

	evaluator := newEvaluator(s.repository, s.logger)
	builder := newGoalTreeBuilder(evaluator, s.logger)
	searcher := NewSearcher(builder, s.logger)

	origin := domain.RelationNode{
		Node: &domain.RelationNode_EntitySet{
			EntitySet: &domain.EntitySetNode{
				Object:   req.AccessRequest.Object,
				Relation: req.AccessRequest.Relation,
			},
		},
	}
	goal := Goal{
		Target: &domain.RelationNode{
			Node: &domain.RelationNode_Entity{
				Entity: &domain.EntityNode{
					Object: req.AccessRequest.Subject,
				},
			},
		},
	}
	tree, err := searcher.Search(ctx, pol.Policy, &origin, &goal)

	if err != nil {
		return nil, err
	}

	found := false
	if tree.GetResult() == SearchResult_SUCCESS {
		found = true
	}

	return &api.CheckResponse{""","""	tree, err := s.decide(ctx, req.GetPolicyId(), req.GetAccessRequest())
	if err != nil {
		return nil, fmt.Errorf("check: %w", err)
	}
	found := tree.GetResult() == SearchResult_SUCCESS

	return &api.CheckResponse{"""),(RS,"""	if err := validAccessRequest(req.AccessRequest); err != nil {
		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
	}

	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
	if err != nil {
		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
	}
	if pol == nil {
		return nil, fmt.Errorf("check: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
	}

	evaluator := newEvaluator(s.repository, s.logger)
	builder := newGoalTreeBuilder(evaluator, s.logger)
	searcher := NewSearcher(builder, s.logger)

	origin := domain.RelationNode{
		Node: &domain.RelationNode_EntitySet{
			EntitySet: &domain.EntitySetNode{
				Object:   req.AccessRequest.Object,
				Relation: req.AccessRequest.Relation,
			},
		},
	}
	goal := Goal{
		Target: &domain.RelationNode{
			Node: &domain.RelationNode_Entity{
				Entity: &domain.EntityNode{
					Object: req.AccessRequest.Subject,
				},
			},
		},
	}
	tree, err := searcher.Search(ctx, pol.Policy, &origin, &goal)

	if err != nil {
		return nil, err
	}

	found := false
	if tree.GetResult() == SearchResult_SUCCESS {
		found = true
	}

	serialized""","""	tree, err := s.decide(ctx, req.GetPolicyId(), req.GetAccessRequest())
	if err != nil {
		return nil, fmt.Errorf("explain check: %w", err)
	}
	found := tree.GetResult() == SearchResult_SUCCESS

	serialized"""),(RS,"func (s *Service) ExplainCheck(","""// decide searches for the subject of an access request
func (s *Service) decide(ctx context.Context, policyId string, access *domain.AccessRequest) (GoalTree, error) {
	if err := validAccessRequest(access); err != nil {
		return nil, fmt.Errorf("%w: %w", api.ErrInvalidRequest, err)
	}
	record, err := s.policyRepository.GetPolicy(ctx, policyId)
	switch {
	case err != nil:
		return nil, fmt.Errorf("%w: %w", api.ErrInternal, err)
	case record == nil:
		return nil, fmt.Errorf("%w: policy %v: %w", api.ErrInvalidRequest, policyId, policy.ErrPolicyNotFound)
	}

	searcher := NewSearcher(newGoalTreeBuilder(newEvaluator(s.repository, s.logger), s.logger), s.logger)
	origin := &domain.RelationNode{Node: &domain.RelationNode_EntitySet{
		EntitySet: &domain.EntitySetNode{Object: access.Object, Relation: access.Relation},
	}}
	goal := &Goal{Target: &domain.RelationNode{Node: &domain.RelationNode_Entity{
		Entity: &domain.EntityNode{Object: access.Subject},
	}}}
	return searcher.Search(ctx, record.Policy, origin, goal)
}

func (s *Service) ExplainCheck(""")])
T="pkg/domain/relation_expression_tree.go"
r("r15-print-builder","C09 C08 C19",[(T,"""		left := node.OpNode.Left.RelationExpression()
		right := node.OpNode.Right.RelationExpression()
		return fmt.Sprintf("%v%v %v %v%v", GroupBeginLexeme, left, node.OpNode.Operator.RelationExpression(), right, GroupEndLexeme)
""","""		parts := []string{node.OpNode.Left.RelationExpression(), node.OpNode.Operator.RelationExpression(), node.OpNode.Right.RelationExpression()}
		return GroupBeginLexeme + strings.Join(parts, " ") + GroupEndLexeme
"""),(T,'	"fmt"\n','	"strings"\n'),(T,"""	switch n := tree.Node.(type) {
	case *RelationExpressionTree_Rule:
		acc = append(acc, n.Rule)
	case *RelationExpressionTree_OpNode:
		acc = n.OpNode.Left.getRules(acc)
		acc = n.OpNode.Right.getRules(acc)
	}
	return acc
""","""	pending := []*RelationExpressionTree{tree}
	for len(pending) > 0 {
		next := pending[0]
		pending = pending[1:]
		if op := next.GetOpNode(); op != nil {
			pending = append([]*RelationExpressionTree{op.Left, op.Right}, pending...)
		} else if rule := next.GetRule(); rule != nil {
			acc = append(acc, rule)
		}
	}
	return acc
""")])
MG="pkg/types/map_graph.go"
r("r16-graph-sorted","C16",[(MG,"""	nodes := make([]T, 0, len(edges))
	for key := range edges {
		node := g.nodes[key]
		nodes = append(nodes, node)
	}
	return nodes
""","""	keys := make([]string, 0, len(edges))
	for key := range edges {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })

	var nodes []T
	for _, key := range keys {
		if node, ok := g.nodes[key]; ok {
			nodes = append(nodes, node)
		}
	}
	return nodes
"""),(MG,"""	sourceEdgMap, ok := g.forwardEdges[sourceId]
	if !ok {
		sourceEdgMap = make(map[string]struct{})
		g.forwardEdges[sourceId] = sourceEdgMap
	}
	sourceEdgMap[destId] = struct{}{}

	destEdgMap, ok := g.backwardEdges[destId]
	if !ok {
		destEdgMap = make(map[string]struct{})
		g.backwardEdges[destId] = destEdgMap
	}
	destEdgMap[sourceId] = struct{}{}
""","""	link := func(edges map[string]map[string]struct{}, from, to string) {
		if edges[from] == nil {
			edges[from] = map[string]struct{}{}
		}
		edges[from][to] = struct{}{}
	}
	link(g.backwardEdges, destId, sourceId)
	link(g.forwardEdges, sourceId, destId)
"""),(MG,'	"fmt"\n','	"fmt"\n	"sort"\n')])
SS="internal/policy/selector_spec.go"
r("r17-selector-switch","C05",[(SS,"""	return s.objectPredicate(relationship) && s.relationPredicate(relationship) && s.subjectPredicate(relationship)
""","""	for _, satisfied := range []predicate{s.relationPredicate, s.subjectPredicate, s.objectPredicate} {
		if !satisfied(relationship) {
			return false
		}
	}
	return true
"""),(SS,"""		switch subject := r.Subject.Subject.(type) {
		case *domain.Subject_Entity:
			return subject.Entity.Resource == resourceName
		case *domain.Subject_EntitySet:
			return subject.EntitySet.Entity.Resource == resourceName
		case *domain.Subject_ResourceSet:
			return subject.ResourceSet.ResourceName == resourceName
		default:
			return false
		}
""","""		return r.Subject.GetResourceName() == resourceName
""")])
PS="internal/policy/service.go"
r("r18-policy-service","C03 C04 C06 C07 C11 C18 C20 C21",[(PS,"""	record, err := repo.GetPolicy(ctx, req.PolicyId)
	if err != nil {
		return nil, fmt.Errorf("set relationship: %w", err)
	} else if record == nil {
		return nil, fmt.Errorf("set relationship: policy %v: %w", req.PolicyId, ErrPolicyNotFound)
	}

	lut := NewPolicyLookUpTable(record.Policy)
	spec := AllowedRelationshipSpec{}

	err = spec.Satisfies(req.Relationship, lut)
	if err != nil {
		return nil, fmt.Errorf("set relationship: %w", err)
	}
""","""	if err := s.permitted(ctx, req.PolicyId, req.Relationship); err != nil {
		return nil, fmt.Errorf("set relationship: %w", err)
	}
"""),(PS,"func (s *Service) DeleteRelationship(","""// permitted returns an error unless the policy admits the relationship
func (s *Service) permitted(ctx context.Context, policyId string, relationship *domain.Relationship) error {
	record, err := s.repository.GetPolicy(ctx, policyId)
	if err != nil {
		return err
	}
	if record == nil {
		return errors.Join(ErrPolicyNotFound, fmt.Errorf("policy %q", policyId))
	}
	return (&AllowedRelationshipSpec{}).Satisfies(relationship, NewPolicyLookUpTable(record.Policy))
}

func (s *Service) DeleteRelationship("""),(PS,'	"fmt"\n','	"errors"\n	"fmt"\n'),(PS,"""	records := utils.MapSlice(ids, func(id string) *api.ListPolicyIdsResponse_Record {
		return &api.ListPolicyIdsResponse_Record{
			Id: id,
		}
	})
""","""	records := make([]*api.ListPolicyIdsResponse_Record, len(ids))
	for i := range ids {
		records[i] = &api.ListPolicyIdsResponse_Record{Id: ids[i]}
	}
"""),(PS,'	"github.com/sourcenetwork/zanzi/internal/utils"\n','')])
MA="internal/store/kv_store/mapper.go"
r("r19-mapper","C04 C05 C15",[(MA,"""	subject := &domain.Subject{}

	dest := relationship.Dest
	switch relationship.Dest.Type {
	case RelationType_OBJECT:
		subject.Subject = &domain.Subject_Entity{
			Entity: &domain.Entity{
				Resource: dest.Resource,
				Id:       dest.Id,
			},
		}
	case RelationType_OBJECT_SET:
		subject.Subject = &domain.Subject_EntitySet{
			EntitySet: &domain.EntitySet{
				Entity: &domain.Entity{
					Resource: dest.Resource,
					Id:       dest.Id,
				},
				Relation: dest.Relation,
			},
		}
	case RelationType_RESOURCE_SET:
		subject.Subject = &domain.Subject_ResourceSet{
			ResourceSet: &domain.ResourceSet{
				ResourceName: dest.Resource,
			},
		}
	}
	return domain.Relationship{
""","""	subject := new(domain.Subject)
	dest := relationship.GetDest()
	entity := domain.NewEntity(dest.GetResource(), dest.GetId())
	if t := dest.GetType(); t == RelationType_OBJECT {
		subject.Subject = &domain.Subject_Entity{Entity: entity}
	} else if t == RelationType_OBJECT_SET {
		set := &domain.EntitySet{Relation: dest.GetRelation()}
		set.Entity = entity
		subject.Subject = &domain.Subject_EntitySet{EntitySet: set}
	} else if t == RelationType_RESOURCE_SET {
		subject.Subject = &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: entity.Resource}}
	}
	return domain.Relationship{
""")])
r("r20-cached-policy","C01 C03 C06 C17 C20 C21",[(PR,"	relationshipIDer rcdb.Ider[*Relationship]\n}\n","	relationshipIDer rcdb.Ider[*Relationship]\n	sizes            sync.Map\n}\n"),(PR,"func newPolicyRepository(store *KVStore) policyRepository {","func newPolicyRepository(store *KVStore) *policyRepository {"),(PR,"	return policyRepository{\n","	return &policyRepository{\n"),
 ("internal/store/kv_store/kv_store.go","	repo := newPolicyRepository(kv)\n	return &repo\n","	return newPolicyRepository(kv)\n"),
 (PR,"""	if opt.IsEmpty() {
		return nil, nil
	} else {
		return opt.Value(), nil
	}
""","""	if opt.IsEmpty() {
		return nil, nil
	}
	record := opt.Value()
	r.sizes.Store(id, len(record.GetPolicy().GetResources()))
	return record, nil
"""),(PR,'	"fmt"\n','	"fmt"\n	"sync"\n')])
LX=RP+"lexer.go"
r("r21-scan-switch","C08",[(LX,"""	for {
		if l.lexTerminal(tokenGroupBegin, domain.GroupBeginLexeme) {
		} else if l.lexTerminal(tokenGroupEnd, domain.GroupEndLexeme) {
		} else if l.lexTerminal(tokenArrow, domain.ArrowLexeme) { // arrow has higher precedence than difference
		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
		} else if l.lexThis() {
		} else if l.lexIdentifier() {
		} else if char, _ := l.peek(); unicode.IsSpace(char) {
			l.skipSpaces()
		} else if l.lexEOF() {
			l.emit(tokenEof)
			break
		} else {
			l.emitError("unknown token")
			break
		}
	}
""","""	terminals := []struct {
		typ    tokenType
		lexeme string
	}{
		{tokenGroupBegin, domain.GroupBeginLexeme},
		{tokenGroupEnd, domain.GroupEndLexeme},
		{tokenUnion, domain.UnionLexeme},
		{tokenIntersection, domain.IntersectionLexeme},
		{tokenArrow, domain.ArrowLexeme},
		{tokenDifference, domain.DifferenceLexeme},
	}
scanning:
	for {
		l.skipSpaces()
		for _, t := range terminals {
			if l.lexTerminal(t.typ, t.lexeme) {
				continue scanning
			}
		}
		switch {
		case l.lexThis(), l.lexIdentifier():
		case l.lexEOF():
			l.emit(tokenEof)
			return
		default:
			l.emitError("unknown token")
			return
		}
	}
"""),(LX,"""	oldStart := l.currPos
	ok := true
	for _, r := range str {
		ok = l.stepIfRune(r)
		if !ok {
			break
		}
	}
	// thsi could fail due to an eof

	if !ok {
		l.currPos = oldStart
	}
	return ok
""","""	if !strings.HasPrefix(l.input[l.currPos:], str) {
		return false
	}
	l.currPos += len(str)
	return true
"""),(LX,'	"unicode"\n','	"strings"\n	"unicode"\n')])
r("r22-lexer-bufio","C08",[(LX,"""	return unicode.IsLetter(elem) || unicode.IsDigit(elem) || elem == '_'
""","""	return elem == '_' || unicode.In(elem, unicode.Letter, unicode.Digit)
""")])
r("r23-node-id-hex","C13 C15 C14",[("pkg/domain/relation_graph.go","	return base64.StdEncoding.EncodeToString(hash)\n",'	return hex.EncodeToString(hash)\n'),("pkg/domain/relation_graph.go",'	"encoding/base64"\n	"encoding/binary"\n','	"encoding/binary"\n	"encoding/hex"\n')])
r("r24-dot-common","C02 C14",[(GS,"""	id := s.nextId()
	label := s.sprintf("ORNode\\nresult: %v", node.Result.String())
	attrs := map[string]string{
		"label": label,
	}

	err := graph.AddNode(dotGraphName, id, attrs)
	if err != nil {
		return fmt.Errorf("node %v: %w", label, err)
	}

	directed := true
	err = graph.AddEdge(parentId, id, directed, nil)
	if err != nil {
		return fmt.Errorf("edg %v->%v: %w", parentId, id, err)
	}

	for _, child := range node.Paths {
		err = s.handleGoalTree(id, child, graph)
		if err != nil {
			return err
		}
	}
	return nil
}
""","""	return s.handleOperator(parentId, "ORNode", node.Result, node.Paths, graph)
}

func (s *dotSerializer) handleOperator(parentId, kind string, result SearchResult, children []GoalTree, graph *gographviz.Graph) error {
	id := s.nextId()
	label := quoteDot(strings.Join([]string{kind, "result: " + result.String()}, "\\n"))
	if err := graph.AddNode(dotGraphName, id, map[string]string{"label": label}); err != nil {
		return fmt.Errorf("node %v: %w", label, err)
	}
	if err := graph.AddEdge(parentId, id, true, nil); err != nil {
		return fmt.Errorf("edge %v->%v: %w", parentId, id, err)
	}
	for i := range children {
		if err := s.handleGoalTree(id, children[i], graph); err != nil {
			return err
		}
	}
	return nil
}
"""),(GS,"""	id := s.nextId()
	label := s.sprintf("DifferenceNode\\nresult: %v", node.Result.String())
	attrs := map[string]string{
		"label": label,
	}

	err := graph.AddNode(dotGraphName, id, attrs)
	if err != nil {
		return fmt.Errorf("node %v: %w", label, err)
	}

	directed := true
	err = graph.AddEdge(parentId, id, directed, nil)
	if err != nil {
		return fmt.Errorf("edg %v->%v: %w", parentId, id, err)
	}

	err = s.handleGoalTree(id, node.Left, graph)
	if err != nil {
		return err
	}

	err = s.handleGoalTree(id, node.Right, graph)
	if err != nil {
		return err
	}

	return nil
""","""	return s.handleOperator(parentId, "DifferenceNode", node.Result, []GoalTree{node.Left, node.Right}, graph)
"""),(GS,'	"fmt"\n','	"fmt"\n	"strings"\n')])
