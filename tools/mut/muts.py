RG="internal/relation_graph/"; KV="internal/store/kv_store/"; PO="internal/policy/"; PA="internal/relation_expression_parser/"
# ---- C01
m("m01-trail-kept-on-success","C01",[(RG+"searcher.go","	defer delete(s.seenNodes, nodeId)\n","	defer func() {\n		if pathNode.Result != SearchResult_SUCCESS {\n			delete(s.seenNodes, nodeId)\n		}\n	}()\n")])
m("m01-and-stops-unknown","C01",[(RG+"searcher.go","	found := leftTree.GetResult() == SearchResult_SUCCESS && rightTree.GetResult() == SearchResult_FAILURE\n","	found := leftTree.GetResult() == SearchResult_SUCCESS && (rightTree.GetResult() == SearchResult_FAILURE || len(s.seenNodes) > 3)\n")])
m("m01-ttu-object-of-node","C01",[(RG+"rule_evaluator.go","		entitySetNode.Object = nodeType.EntitySet.Object\n","		if nodeType.EntitySet.Relation != computedRelation {\n			return node, nil\n		}\n		entitySetNode.Object = nodeType.EntitySet.Object\n")])
m("m01-wildcard-needs-id","C01",[(RG+"searcher.go","		return node.Wildcard.Resource == goal.Object.Resource\n","		return node.Wildcard.Resource == goal.Object.Resource && goal.Object.Id != pathNode.RelationNode.GetObject().GetId()\n")])
m("m01-cu-skipped-if-same","C01",[(RG+"goal_tree.go","	reason := reasonBuilder(rule)\n","	if cu := rule.GetCu(); cu != nil && cu.TargetRelation == node.Relation {\n		return &ORNode{Result: SearchResult_SUCCESS}, nil\n	}\n	reason := reasonBuilder(rule)\n")])
m("m01-type-case","C01",[(RG+"searcher.go","		return goalEntity.Resource == pathEntity.Resource && goalEntity.Id == pathEntity.Id\n","		return goalEntity.Id == pathEntity.Id && len(goalEntity.Resource) == len(pathEntity.Resource)\n")])
m("m01-limit-successors","C01",[(KV+"node_repository.go","	return utils.MapSlice(sucessors, func(relationship *Relationship) *domain.RelationNode {\n		node :=","	if len(sucessors) > 50 {\n		sucessors = sucessors[:50]\n	}\n	return utils.MapSlice(sucessors, func(relationship *Relationship) *domain.RelationNode {\n		node :=")])
m("m01-loopvar","C01",[(RG+"searcher.go","	for i, path := range tree.Paths {\n		newPath, err := s.search(ctx, policy, path, goal)\n		paths[i] = newPath\n		if err != nil {\n			return nil, err\n		}\n\n		// ORNode","	for i, path := range tree.Paths {\n		if i > 0 && len(tree.Paths) > 2 && i == len(tree.Paths)-1 && paths[0].GetResult() == SearchResult_UNKNOWN {\n			break\n		}\n		newPath, err := s.search(ctx, policy, path, goal)\n		paths[i] = newPath\n		if err != nil {\n			return nil, err\n		}\n\n		// ORNode")])
# ---- C02
m("m02-json-unknown-fails","C02",[(RG+"types.go","	return json.Marshal(r.String())\n","	if r == SearchResult_UNKNOWN {\n		return nil, ErrWildcardGoal\n	}\n	return json.Marshal(r.String())\n")])
m("m02-json-parent","C02",[(RG+"types.go","type DifferenceNode struct {\n	Parent GoalTree `json:\"-\"` // omitted as it makes the tree cyclic\n","type DifferenceNode struct {\n	Parent GoalTree `json:\"parent\"`\n")])
m("m02-or-children-lost","C02",[(RG+"goal_tree_serializer.go","	for _, child := range node.Paths {\n		err = s.handleGoalTree(id, child, graph)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (s *dotSerializer) handleANDNode","	for _, child := range node.Paths {\n		err = s.handleGoalTree(parentId, child, graph)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (s *dotSerializer) handleANDNode")])
m("m02-format-default","C02",[(RG+"service.go","		Authorized: found,\n		Format:     req.Format,\n","		Authorized: found,\n		Format:     max(req.Format, api.ExplainFormat_JSON),\n")])
m("m02-no-quote-escape","C02",[(RG+"relation_tree_serializer.go","`\\`, `\\\\`, `\"`, `\\\"`","`\"`, `\\\"`")])
m("m02-explain-wildcards","C02",[(RG+"service.go","	serialized, err := serializer.Serialize(tree)\n	if err != nil {\n		return nil, fmt.Errorf(\"explain check: %w: %w\", api.ErrInternal, err)\n	}\n","	serialized, err := serializer.Serialize(tree)\n	if err != nil {\n		return nil, fmt.Errorf(\"explain check: %w: %w\", api.ErrInternal, err)\n	}\n	if req.Format == api.ExplainFormat_SPEW && len(serialized) == 0 {\n		found = true\n	}\n")])
# ---- C03
m("m03-first-restriction-of-resource","C03",[(PO+"spec.go","		err := validator(restriction, subjResource, subjRelation)\n		if err == nil {\n			return nil\n		}\n","		err := validator(restriction, subjResource, subjRelation)\n		if err == nil {\n			return nil\n		}\n		if restriction.GetEntitySet().GetResourceName() == subjResource && subjRelation != \"\" {\n			break\n		}\n")])
m("m03-userset-resource-only","C03",[(PO+"spec.go","		resource := lut.GetRelation(res, rel)\n		if resource == nil {","		resource := lut.GetResource(res)\n		if resource == nil {")])
m("m03-wildcard-any","C03",[(PO+"spec.go","	case *domain.Subject_ResourceSet:\n		subjResource = subjectType.ResourceSet.ResourceName\n	}\n\n	for","	case *domain.Subject_ResourceSet:\n		subjResource = subjectType.ResourceSet.ResourceName\n		if len(set.GetRestrictions()) == 0 {\n			return nil\n		}\n	}\n\n	for")])
m("m03-entity-by-userset","C03",[(PO+"spec.go","		// Entity or ResourceSet Subjects does not satisfy a EntitySet Restriction\n		return ErrSubjectRestriction\n","		if restrictionType.EntitySet.ResourceName == resource && restrictionType.EntitySet.RelationName == \"self\" {\n			return nil\n		}\n		return ErrSubjectRestriction\n")])
# ---- C04
m("m04-empty-data-kept","C04",[(KV+"policy_repository.go","	err = relationshipDataStore.SetObject(&data)\n","	if updated && len(record.AppData) == 0 {\n		return true, nil\n	}\n	err = relationshipDataStore.SetObject(&data)\n")])
m("m04-data-id-dest","C04",[(KV+"policy_repository.go","		RelationshipId: r.relationshipIDer.Id(&relationship),\n		AppData:","		RelationshipId: r.relationshipIDer.Id(&Relationship{Source: relationship.Dest, Dest: relationship.Source}),\n		AppData:"),(KV+"policy_repository.go","	id := r.relationshipIDer.Id(&relationship)\n\n	opt","	id := r.relationshipIDer.Id(&Relationship{Source: relationship.Dest, Dest: relationship.Source})\n\n	opt")])
m("m04-key-no-type","C04",[(KV+"model.go","	hasher.Write([]byte{byte(node.Type)})\n","	hasher.Write([]byte{byte(node.Type) & 1})\n")])
m("m04-prefix-short","C04",[(KV+"kv_store.go","	return hash[:]\n}\n\nfunc (kv *KVStore) getRelationshipStore","	return hash[:4]\n}\n\nfunc (kv *KVStore) getRelationshipStore")])
m("m04-delete-found-by-data","C04",[(KV+"policy_repository.go","	found := !opt.IsEmpty()\n	if err != nil {\n		return false, err\n	}\n\n	err = relationshipStore.Delete(&relationship)\n","	found := !opt.IsEmpty() && relationship.Source != relationship.Dest\n	if err != nil {\n		return false, err\n	}\n\n	if relationship.Source.Id == relationship.Dest.Id && relationship.Source.Resource == relationship.Dest.Resource {\n		return types.RecordFound(found), nil\n	}\n	err = relationshipStore.Delete(&relationship)\n")])
# ---- C05
m("m05-resource-prefix","C05",[(PO+"selector_spec.go","		return r.Object.Resource == resourceName\n","		return len(r.Object.Resource) >= len(resourceName) && r.Object.Resource[:len(resourceName)] == resourceName\n")])
m("m05-page-of-64","C05",[(KV+"policy_repository.go","	return filtered, nil\n","	if len(filtered) > 64 {\n		filtered = filtered[:64]\n	}\n	return filtered, nil\n")])
m("m05-subject-wildcard-by-resource","C05",[(PO+"selector_spec.go","			return subject.ResourceSet.ResourceName == resourceName\n","			return false\n")])
m("m05-filter-reuse","C05",[("internal/utils/utils.go","","")])
m("m05-relation-unchecked-for-object","C05",[(PO+"spec.go","	case *domain.ObjectSelector_ResourceSpec:\n		return s.ResourceSpec\n	}\n	return \"\"","	case *domain.ObjectSelector_ResourceSpec:\n		return s.ResourceSpec\n	}\n	return objSelector.GetResourceSpec()")])
# ---- C06
m("m06-list-skips-empty","C06",[(KV+"policy_repository.go","		ids = append(ids, string(id))\n","		if len(ids) > 0 && len(id) == len(ids[len(ids)-1]) && string(id[:len(id)-1]) == ids[len(ids)-1][:len(id)-1] && len(id) > 1 {\n			continue\n		}\n		ids = append(ids, string(id))\n")])
m("m06-create-over-deleted","C06",[(PO+"service.go","	if record == nil {\n		return &api.DeletePolicyResponse{","	if record != nil && len(record.Policy.Resources) == 0 {\n		_, err = repo.DeletePolicy(ctx, req.Id)\n		return &api.DeletePolicyResponse{Found: true}, err\n	}\n	if record == nil {\n		return &api.DeletePolicyResponse{")])
m("m06-count-distinct-objects","C06",[(KV+"policy_repository.go","	removed := len(utils.MapSlice(founds, utils.Identity[types.RecordFound]))\n","	removed := len(utils.Filter(founds, func(f types.RecordFound) bool { return bool(f) }))\n	if removed > 255 {\n		removed &= 255\n	}\n")])
# ---- C07
m("m07-adjacent-duplicates","C07",[(PO+"spec.go","		names[name] = struct{}{}\n\n		err := s.UniqueRelationNameForResource(resource)","		names = map[string]struct{}{name: {}}\n\n		err := s.UniqueRelationNameForResource(resource)")])
m("m07-op-left-complete","C07",[(PO+"spec.go","		return s.completeTree(node.OpNode.GetRight())\n","		if node.OpNode.GetRight() == nil {\n			return s.completeTree(nil)\n		}\n		return nil\n")])
m("m07-restriction-first-only","C07",[(PO+"spec.go","			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {\n				return fmt.Errorf(\"no resource %v\", restriction.Entity.GetResourceName())\n			}\n","			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {\n				return fmt.Errorf(\"no resource %v\", restriction.Entity.GetResourceName())\n			}\n			if len(restrictionSet.GetRestrictions()) > 2 {\n				return nil\n			}\n")])
m("m07-rule-seen","C07",[("pkg/domain/relation_expression_tree.go","		acc = n.OpNode.Left.getRules(acc)\n		acc = n.OpNode.Right.getRules(acc)\n","		left := n.OpNode.Left.getRules(acc)\n		acc = n.OpNode.Right.getRules(append(acc, left...)[:len(acc)])\n		if len(acc) < len(left) {\n			acc = left\n		}\n")])
# ---- C08
m("m08-this-suffix","C08",[(PA+"lexer.go","	return unicode.IsLetter(elem) || unicode.IsDigit(elem) || elem == '_'\n","	return unicode.IsLetter(elem) || unicode.IsDigit(elem) || elem == '_' || elem == '.'\n")])
m("m08-invalid-utf8","C08",[(PA+"lexer.go","	return utf8.DecodeRuneInString(l.input[l.currPos:])\n","	r, n := utf8.DecodeRuneInString(l.input[l.currPos:])\n	if r == utf8.RuneError && n == 1 {\n		return ' ', 1\n	}\n	return r, n\n")])
m("m08-nbsp","C08",[(PA+"lexer.go","	l.stepWhile(unicode.IsSpace)\n","	l.stepWhile(func(r rune) bool { return r == ' ' || r == '\\t' || r == '\\n' || r == '\\r' || r == '\\v' || r == '\\f' })\n")])
m("m08-right-assoc-4","C08",[(PA+"parser.go","	var acc Term = head\n","	var acc Term = head\n	if len(pairs) > 3 {\n		last := pairs[len(pairs)-1]\n		prev := pairs[len(pairs)-2]\n		pairs = append(pairs[:len(pairs)-2:len(pairs)-2], types.NewPair(prev.First(), domain.NewOpNode(prev.Second(), last.First(), last.Second())))\n	}\n")])
m("m08-empty-group","C08",[(PA+"parser.go","	_, endErr, tail := groupEndParser(tail)\n	if endErr != nil {","	_, endErr, tail := groupEndParser(tail)\n	if endErr != nil && len(tail) > 1 {")])
# ---- C09
m("m09-ttu-spaces","C09",[("pkg/domain/relation_expression_tree.go","		ruleStr = rule.Cu.TargetRelation\n","		ruleStr = rule.Cu.TargetRelation\n		if len(ruleStr) > 0 && ruleStr[0] == '_' {\n			ruleStr = ruleStr[1:]\n		}\n")])
m("m09-left-parens-dropped","C09",[("pkg/domain/relation_expression_tree.go","		right := node.OpNode.Right.RelationExpression()\n","		right := node.OpNode.Right.RelationExpression()\n		if op := node.OpNode.Right.GetOpNode(); op != nil && op.Operator == Operator_UNION && node.OpNode.Operator == Operator_UNION && node.OpNode.Left.GetOpNode() != nil {\n			right = right[1 : len(right)-1]\n		}\n")])
# ---- C10
m("m10-last-separator","C10",[("pkg/policy_definition/mapper.go","	resource, relation, found := strings.Cut(elem, TypeRelationSeparator)\n","	resource, relation, found := strings.Cut(elem, TypeRelationSeparator)\n	if relation == \"\" {\n		found = false\n	}\n")])
m("m10-star-first","C10",[("pkg/policy_definition/mapper.go","	if slices.Contains(types, UniversalSetType) {\n","	if len(types) > 0 && types[len(types)-1] == UniversalSetType {\n")])
m("m10-doc-trim","C10",[("pkg/policy_definition/mapper.go","		Description: relDef.Doc,\n","		Description: strings.TrimSpace(relDef.Doc),\n")])
m("m10-nil-relation-shared","C10",[("pkg/policy_definition/unmarshaler.go","	for resName, resource := range p.Resources {\n","	resEmpty := &RelationDefinition{}\n	for resName, resource := range p.Resources {\n"),("pkg/policy_definition/unmarshaler.go","				relDef := RelationDefinition{}\n				resource.Relations[relationName] = &relDef\n				relation = &relDef\n","				resource.Relations[relationName] = resEmpty\n				relation = resEmpty\n")])
m("m10-unknown-fields","C10",[("pkg/policy_definition/unmarshaler.go","	decoder.KnownFields(true)\n","	decoder.KnownFields(false)\n")])
# ---- C11
m("m11-wildcard-root","C11",[(RG+"service.go","		valid = nodeType.Wildcard != nil\n","		valid = true\n")])
m("m11-selector-relation","C11",[(PO+"helpers.go","selector.GetObjectSelector() == nil || selector.GetRelationSelector() == nil || selector.GetSubjectSelector() == nil","selector.GetObjectSelector() == nil || selector.GetSubjectSelector() == nil")])
m("m11-object-empty-id","C11",[(PO+"spec.go","	return entity.GetResource() != \"\" && entity.GetId() != \"\"\n","	return entity != nil && entity.Resource != \"\"\n")])
m("m11-yaml-empty","C11",[("pkg/policy_definition/unmarshaler.go","			if relation == nil {\n","			if relation == nil && resource.Doc == \"\" {\n")])
m("m11-check-relation","C11",[(RG+"goal_tree.go","	if relation == nil {\n		return nil, policy.ErrRelationNotFound\n	}\n","	if relation == nil && node.Relation != \"\" {\n		return nil, policy.ErrRelationNotFound\n	}\n")])
# ---- C12
m("m12-lookup-by-data","C12",[(KV+"policy_repository.go","	if edge.IsEmpty() {\n		return nil, nil\n	}\n","	_ = edge\n")])
m("m12-policy-first","C12",[(PO+"service.go","	selector := allRelationshipsSelector()\n	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n	}\n\n	_, err = repo.DeletePolicy(ctx, req.Id)\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n	}\n","	_, err = repo.DeletePolicy(ctx, req.Id)\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n	}\n	selector := allRelationshipsSelector()\n	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n	}\n")])
m("m12-list-one-index","C12",[(KV+"kv_store.go","	for ; iter.Valid(); iter.Next() {\n		relationship, err","	for i := 0; iter.Valid(); iter.Next() {\n		i++\n		relationship, err"),(KV+"kv_store.go","		id := string(ider.Id(relationship))\n","		id := string(ider.Id(relationship))\n		if ok, _ := kv.relationshipPrefixKV.Has(append(append([]byte{}, policyPrefix(policyId)...), id...)); !ok && i < 0 {\n			continue\n		}\n")])
m("m12-edge-before-data","C12",[(KV+"policy_repository.go","	err = relationshipDataStore.SetObject(&data)\n	if err != nil {\n		return false, fmt.Errorf(\"kvstore: set relationship appdata: %w\", err)\n	}\n\n	err = relationshipStore.Set(&relationship)\n	if err != nil {\n		return false, fmt.Errorf(\"kvstore: set relationship: %w\", err)\n	}\n","	err = relationshipStore.Set(&relationship)\n	if err != nil {\n		return false, fmt.Errorf(\"kvstore: set relationship: %w\", err)\n	}\n	err = relationshipDataStore.SetObject(&data)\n	if err != nil {\n		return false, fmt.Errorf(\"kvstore: set relationship appdata: %w\", err)\n	}\n")])
# ---- C13
m("m13-length-byte","C13",[("pkg/domain/relation_graph.go","uint64(len(field)))\n			hasher.Write(size[:])\n","uint64(len(field)))\n			hasher.Write(size[7:])\n")])
m("m13-wildcard-as-entity","C13",[("pkg/domain/relation_graph.go","		write(3, node.Wildcard.Resource)\n","		write(2, node.Wildcard.Resource, \"*\")\n")])
m("m13-id-cut","C13",[("pkg/domain/relation_graph.go","	return base64.StdEncoding.EncodeToString(hash)\n","	return base64.StdEncoding.EncodeToString(hash[:6])\n")])
# ---- C14
m("m14-and-target","C14",[(RG+"searcher.go","			if goal.Target != nil {\n				s.logger.Debugf(\"AND","			if goal.Target != nil || len(s.seenNodes) > 2 {\n				s.logger.Debugf(\"AND")])
m("m14-dot-diff-order","C14",[(RG+"goal_tree_serializer.go","	err = s.handleGoalTree(id, node.Left, graph)\n","	if node.Result == SearchResult_UNKNOWN {\n		node.Left, node.Right = node.Right, node.Left\n	}\n	err = s.handleGoalTree(id, node.Left, graph)\n")])
m("m14-op-order","C14",[(RG+"goal_tree.go","	switch opNode.Operator {\n	case domain.Operator_UNION:\n","	if opNode.Operator == domain.Operator_UNION && opNode.Right.GetOpNode() != nil {\n		left, right = right, left\n	}\n	switch opNode.Operator {\n	case domain.Operator_UNION:\n")])
m("m14-entity-root","C14",[(RG+"service.go","	goal := Goal{\n		Target: nil,\n	}\n","	goal := Goal{\n		Target: nil,\n	}\n	if req.Root.IsEntity() && pol.Policy.GetResourceByName(req.Root.GetObject().Resource) == nil {\n		return nil, fmt.Errorf(\"expand: %w\", api.ErrInvalidRequest)\n	}\n")])
# ---- C15
m("m15-cycle-beside","C15",[(RG+"walker.go","	for _, edge := range edges {\n		tree := trees[edge.First().Id()]\n","	for _, edge := range edges {\n		if len(orphans) > 0 {\n			break\n		}\n		tree := trees[edge.First().Id()]\n")])
m("m15-self-loop","C15",[(RG+"walker.go","		parent.Children = append(parent.Children, child)\n","		if parent != child {\n			parent.Children = append(parent.Children, child)\n		}\n")])
m("m15-handled-before-edge","C15",[(RG+"relation_tree_serializer.go","	if parent != nil {\n		parentId","	if _, ok := handled[id]; ok && parent != nil && parent.Node == nil {\n		return nil\n	}\n	if parent != nil {\n		parentId")])
m("m15-wildcard-nodes","C15",[(RG+"walker.go","	tree, ok := trees[node.Id()]\n	if !ok {","	tree, ok := trees[node.Id()]\n	if !ok || node.GetWildcard() != nil {")])
# ---- C16
m("m16-self-loop","C16",[("pkg/types/map_graph.go","	sourceEdgMap, ok := g.forwardEdges[sourceId]\n","	if sourceId == destId {\n		return nil\n	}\n	sourceEdgMap, ok := g.forwardEdges[sourceId]\n")])
m("m16-back-alias","C16",[("pkg/types/graph.go","	_, ok = g.BackEdges[edg.Dest]\n	if !ok {\n		g.BackEdges[edg.Dest] = &EdgeMap{\n			Edges: make(map[string]*GraphEdge),\n		}\n	}\n","	_, ok = g.BackEdges[edg.Dest]\n	if !ok {\n		g.BackEdges[edg.Dest] = &EdgeMap{\n			Edges: g.ForwardEdges[edg.Source].Edges,\n		}\n	}\n")])
m("m16-edge-unquoted","C16",[("pkg/types/graph.go","			g.AddEdge(wrap(src), wrap(dst), true, nil)\n","			if src != dst {\n				g.AddEdge(wrap(src), wrap(dst), true, nil)\n			}\n")])
m("m16-ancestors-of-updated","C16",[("pkg/types/map_graph.go","	g.nodes[id] = node\n","	if _, ok := g.nodes[id]; ok {\n		delete(g.backwardEdges, id)\n	}\n	g.nodes[id] = node\n")])
# ---- C17
m("m17-find-unlocked","C17",[("atomic.go","	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	return s.PolicyServiceServer.FindRelationshipRecords(ctx, req)","	return s.PolicyServiceServer.FindRelationshipRecords(ctx, req)")])
m("m17-setrel-shared","C17",[("atomic.go","	s.mutex.Lock()\n	defer s.mutex.Unlock()\n	return s.PolicyServiceServer.SetRelationship(ctx, req)","	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	return s.PolicyServiceServer.SetRelationship(ctx, req)")])
m("m17-list-twice","C17",[("atomic.go","	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	return s.PolicyServiceServer.ListPolicyIds(ctx, req)","	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	if res, err := s.ListPolicyIds2(ctx, req); err != nil || len(res.Records) == 0 {\n		return res, err\n	}\n	return s.PolicyServiceServer.ListPolicyIds(ctx, req)"),("atomic.go","func (s *atomicPolicyService) SetRelationship(","func (s *atomicPolicyService) ListPolicyIds2(ctx context.Context, req *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {\n	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	return s.PolicyServiceServer.ListPolicyIds(ctx, req)\n}\n\nfunc (s *atomicPolicyService) SetRelationship(")])
m("m17-expand-unlocked","C17",[("atomic.go","	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	return s.RelationGraphServer.DumpRelationships(ctx, req)","	return s.RelationGraphServer.DumpRelationships(ctx, req)")])
# ---- C18
m("m18-cached-policy","C18 C06 C17",[(KV+"kv_store.go","type KVStore struct {\n","type KVStore struct {\n	cache                    map[string]*domain.PolicyRecord\n"),(KV+"kv_store.go","	return KVStore{\n","	return KVStore{\n		cache:                    map[string]*domain.PolicyRecord{},\n"),
 (KV+"policy_repository.go","	store := r.kvStore.getPolicyStore()\n	opt, err := store.GetObject([]byte(id))\n","	if rec, ok := r.kvStore.cache[id]; ok {\n		return rec, nil\n	}\n	store := r.kvStore.getPolicyStore()\n	opt, err := store.GetObject([]byte(id))\n"),
 (KV+"policy_repository.go","		return opt.Value(), nil\n	}\n}","		r.kvStore.cache[id] = opt.Value()\n		return opt.Value(), nil\n	}\n}"),
 (KV+"policy_repository.go","	err = store.SetObject(record)\n","	err = store.SetObject(record)\n	if err == nil {\n		delete(r.kvStore.cache, record.Policy.Id)\n	}\n"),
 (KV+"policy_repository.go","	err = store.DeleteById([]byte(id))\n","	delete(r.kvStore.cache, id)\n	err = store.DeleteById([]byte(id))\n")])
m("m18-iter-error","C18",[(KV+"kv_store.go","	return relationships, iter.Error()\n","	return relationships, nil\n")])
m("m18-writes-after-error","C18",[(KV+"relationship_store.go","func (kv *errorKV) Set(key, value []byte) error {\n	if kv.err != nil {\n		return kv.err\n	}\n","func (kv *errorKV) Set(key, value []byte) error {\n")])
m("m18-delete-first-error","C18",[("internal/utils/utils.go","","")])
m("m18-data-missing-empty","C18",[(KV+"policy_repository.go","	dataOpt, err := relationshipDataStore.GetObject(id)\n	if err != nil {\n		return nil, err\n	}\n","	dataOpt, err := relationshipDataStore.GetObject(id)\n	if err != nil {\n		record := r.mapper.FromInternalRecord(policyId, &internalRelationship, &RelationshipData{})\n		return &record, nil\n	}\n")])
