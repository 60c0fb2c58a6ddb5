import re as _re
RG="internal/relation_graph/"; KV="internal/store/kv_store/"; PO="internal/policy/"; PA="internal/relation_expression_parser/"; PD="pkg/policy_definition/"; DO="pkg/domain/"
_a=open("/repo/atomic.go").read()
_b=_re.sub(r"	s\.mutex\.(R?)Lock\(\)\n	defer s\.mutex\.R?Unlock\(\)\n	return s\.(\w+)\.(\w+)\(ctx, req\)\n", lambda m: "	return %s(ctx, s.mutex, req, s.%s.%s)\n" % ("reading" if m[1] else "writing", m[2], m[3]), _a)
_b+='''
type call[Req, Res any] func(context.Context, Req) (Res, error)

func writing[Req, Res any](ctx context.Context, mutex *sync.RWMutex, req Req, do call[Req, Res]) (Res, error) {
	mutex.Lock()
	defer mutex.Unlock()
	return do(ctx, req)
}

func reading[Req, Res any](ctx context.Context, mutex *sync.RWMutex, req Req, do call[Req, Res]) (Res, error) {
	locker := mutex.RLocker()
	locker.Lock()
	defer locker.Unlock()
	return do(ctx, req)
}
'''
r("r26-lock-helpers","C17 C25 C20",[("atomic.go",_a,_b)])
r("r25-options-config","C22 C20",[("zanzi.go","""	zanzi := Zanzi{}
	for _, o := range opt {
		err := o(&zanzi)
		if err != nil {
			return Zanzi{}, fmt.Errorf("could not build Zanzi: %w", err)
		}
	}
	zanzi.setDefaults()
	zanzi.init()
	return zanzi, nil
""","""	zanzi := new(Zanzi)
	if err := zanzi.apply(opt); err != nil {
		return Zanzi{}, err
	}
	if zanzi.logger == nil {
		zanzi.logger = zap.S()
	}
	if zanzi.store == nil {
		if err := zanzi.apply([]option{WithMemKVStore()}); err != nil {
			return Zanzi{}, err
		}
	}
	zanzi.init()
	return *zanzi, nil
}

func (z *Zanzi) apply(opts []option) error {
	if len(opts) == 0 {
		return nil
	}
	if err := opts[0](z); err != nil {
		return fmt.Errorf("could not build Zanzi: %w", err)
	}
	return z.apply(opts[1:])
"""),("zanzi.go","""		err := WithMemKVStore()(z)
		if err != nil {
			return err
		}
		return WithDevelopmentLogger()(z)
""","""		return z.apply([]option{WithMemKVStore(), WithDevelopmentLogger()})
""")])
r("r28-each-entry","C05 C06 C12 C18 C25 C15",[(KV+"kv_store.go","""	iter := kv.baseKV.Iterator(start, end)
	defer iter.Close()

	var relationships []*Relationship
	seen := make(map[string]struct{})
	for ; iter.Valid(); iter.Next() {
		relationship, err := marshaler.Unmarshal(iter.Value())
		if err != nil {
			return nil, err
		}

		id := string(ider.Id(relationship))
		if _, ok := seen[id]; ok {
			continue
		}
		seen[id] = struct{}{}
		relationships = append(relationships, relationship)
	}

	return relationships, iter.Error()
}
""","""	var relationships []*Relationship
	seen := make(map[string]bool)
	err := kv.each(start, end, func(_, value []byte) error {
		relationship, err := marshaler.Unmarshal(value)
		if err != nil {
			return err
		}
		if id := string(ider.Id(relationship)); !seen[id] {
			seen[id] = true
			relationships = append(relationships, relationship)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return relationships, nil
}

func (kv *KVStore) each(start, end []byte, visit func(key, value []byte) error) (err error) {
	iter := kv.baseKV.Iterator(start, end)
	defer func() {
		if e := iter.Error(); err == nil {
			err = e
		}
		iter.Close()
	}()

	for iter.Valid() {
		if err := visit(iter.Key(), iter.Value()); err != nil {
			return err
		}
		iter.Next()
	}
	return nil
}
"""),(KV+"policy_repository.go","""	iter := r.kvStore.baseKV.Iterator(start, end)
	defer iter.Close()

	var ids []string
	for ; iter.Valid(); iter.Next() {
		id := iter.Key()[len(start):]
		ids = append(ids, string(id))
	}
	if err := iter.Error(); err != nil {
		return nil, fmt.Errorf("list policy ids: %w", err)
	}

	return ids, nil
""","""	var ids []string
	err := r.kvStore.each(start, end, func(key, _ []byte) error {
		ids = append(ids, string(key[len(start):]))
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("list policy ids: %w", err)
	}

	return ids, nil
""")])
r("r29-difference-short","C01 C02 C26",[(RG+"searcher.go","""	rightTree, err := s.search(ctx, policy, tree.Right, goal)
	if err != nil {
		return nil, err
	}

	found := leftTree.GetResult() == SearchResult_SUCCESS && rightTree.GetResult() == SearchResult_FAILURE
""","""	rightTree := tree.Right
	if goal.Target == nil || leftTree.GetResult() == SearchResult_SUCCESS {
		rightTree, err = s.search(ctx, policy, rightTree, goal)
		if err != nil {
			return nil, err
		}
	}

	found := leftTree.GetResult() == SearchResult_SUCCESS && rightTree.GetResult() == SearchResult_FAILURE
""")])
r("r30-json-encoder","C02 C14 C26",[(RG+"goal_tree_serializer.go","""	bytes, err := json.MarshalIndent(goalTree, "", "  ")
	return string(bytes), err
""","""	var out strings.Builder
	encoder := json.NewEncoder(&out)
	encoder.SetIndent("", "  ")
	if err := encoder.Encode(goalTree); err != nil {
		return "", err
	}
	return strings.TrimSuffix(out.String(), "\\n"), nil
"""),(RG+"goal_tree_serializer.go",'	"fmt"\n','	"fmt"\n	"strings"\n')])
r("r31-builders","C19 C05",[(DO+"selector.go","""	s.objSelector = nil
	s.relSelector = nil
	s.subjSelector = nil
""","""	*s = SelectorBuilder{}
"""),(DO+"relation_expression_tree.go","""	var rules []*Rule
	return tree.getRules(rules)
""","""	rules := make([]*Rule, 0, 4)
	stack := []*RelationExpressionTree{tree}
	for len(stack) > 0 {
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if rule := top.GetRule(); rule != nil {
			rules = append(rules, rule)
		} else if op := top.GetOpNode(); op != nil {
			stack = append(stack, op.Right, op.Left)
		}
	}
	return rules
"""),(DO+"relation_expression_tree.go","""func (tree *RelationExpressionTree) getRules(acc []*Rule) []*Rule {
	switch n := tree.Node.(type) {
	case *RelationExpressionTree_Rule:
		acc = append(acc, n.Rule)
	case *RelationExpressionTree_OpNode:
		acc = n.OpNode.Left.getRules(acc)
		acc = n.OpNode.Right.getRules(acc)
	}
	return acc
}
""","")])
r("r32-errors-join","C03 C07 C11",[(PO+"spec.go","""	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
		return err
	}

	if err := s.SubjectRestrictionsConsistent(policy, lut); err != nil {
		return err
	}

	if err := s.RelationExpressionWellDefined(policy, lut); err != nil {
		return err
	}

	return nil
""","""	return errors.Join(
		s.UniqueResourceAndRelationsNames(policy),
		s.SubjectRestrictionsConsistent(policy, lut),
		s.RelationExpressionWellDefined(policy, lut),
	)
"""),(PO+"spec.go",'	"fmt"\n','	"errors"\n	"fmt"\n'),(PO+"spec.go","""	for _, restriction := range set.GetRestrictions() {
		err := validator(restriction, subjResource, subjRelation)
		if err == nil {
			return nil
		}
	}
	return fmt.Errorf("RestrictionSet does not allow subject")
""","""	allowed := slices.ContainsFunc(set.GetRestrictions(), func(restriction *domain.SubjectRestrictionSet_Restriction) bool {
		return validator(restriction, subjResource, subjRelation) == nil
	})
	if !allowed {
		return fmt.Errorf("RestrictionSet does not allow subject")
	}
	return nil
"""),(PO+"spec.go",'	"fmt"\n\n','	"fmt"\n	"slices"\n\n')])
r("r33-sorted-keys","C10",[(PD+"mapper.go","	sort.Sort(asSortable(items, keyFunc))\n","	sort.SliceStable(items, func(i, j int) bool { return keyFunc(items[i]) < keyFunc(items[j]) })\n")])
r("r34-graph-maps","C16 C15",[("pkg/types/graph.go","	_, ok = g.BackEdges[edg.Dest]\n	if !ok {\n		g.BackEdges[edg.Dest] = &EdgeMap{\n			Edges: make(map[string]*GraphEdge),\n		}\n	}\n","	if back := g.BackEdges[edg.Dest]; back == nil {\n		back = new(EdgeMap)\n		back.Edges = map[string]*GraphEdge{}\n		g.BackEdges[edg.Dest] = back\n	}\n")])
r("r35-key-buffer","C04 C13 C12 C05",[(KV+"model.go","""	hasher := sha256.New()
	hasher.Write([]byte{byte(node.Type)})
	// fields are prefixed by their length, otherwise distinct nodes
	// whose fields concatenate to the same string would share a key
	for _, field := range []string{node.Resource, node.Id, node.Relation} {
		var size [8]byte
		binary.BigEndian.PutUint64(size[:], uint64(len(field)))
		hasher.Write(size[:])
		hasher.Write([]byte(field))
	}
	return hasher.Sum(nil)
""","""	buf := []byte{byte(node.Type)}
	for _, field := range [...]string{node.Resource, node.Id, node.Relation} {
		buf = binary.BigEndian.AppendUint64(buf, uint64(len(field)))
		buf = append(buf, field...)
	}
	sum := sha256.Sum256(buf)
	return sum[:]
""")])
