RG="internal/relation_graph/"; KV="internal/store/kv_store/"; PO="internal/policy/"; PA="internal/relation_expression_parser/"; PD="pkg/policy_definition/"; DO="pkg/domain/"
m("n01-ttu-dedupe-id","C01",[(RG+"rule_evaluator.go","	nodes, err := utils.MapSliceErr(sucessors, mapper)\n","	seenIds := map[string]bool{}\n	sucessors = utils.Filter(sucessors, func(n *domain.RelationNode) bool {\n		if n.GetObject() == nil {\n			return true\n		}\n		dup := seenIds[n.GetObject().Id]\n		seenIds[n.GetObject().Id] = true\n		return !dup\n	})\n	nodes, err := utils.MapSliceErr(sucessors, mapper)\n")])
m("n01-depth-130","C01",[(RG+"searcher.go","	s.seenNodes[nodeId] = struct{}{}\n","	if len(s.seenNodes) > 130 {\n		pathNode.Result = SearchResult_FAILURE\n		return pathNode, nil\n	}\n	s.seenNodes[nodeId] = struct{}{}\n")])
m("n01-depth-500","C01",[(RG+"searcher.go","	s.seenNodes[nodeId] = struct{}{}\n","	if len(s.seenNodes) > 500 {\n		pathNode.Result = SearchResult_FAILURE\n		return pathNode, nil\n	}\n	s.seenNodes[nodeId] = struct{}{}\n")])
m("n01-seen-pretty","C01",[(RG+"searcher.go","	nodeId := node.RelationNode.Id()\n","	nodeId := node.RelationNode.PrettyString()\n")])
m("n03-restriction-by-name","C03",[(PO+"spec.go","	relation := table.GetRelation(relationship.Object.Resource, relationship.Relation)\n	if relation == nil {\n		return fmt.Errorf(\"relation %v: %w\", relationship.Relation, ErrRelationNotFound)","	relation := table.GetRelation(relationship.Subject.GetResourceName(), relationship.Relation)\n	if relation == nil {\n		relation = table.GetRelation(relationship.Object.Resource, relationship.Relation)\n	}\n	if relation == nil {\n		return fmt.Errorf(\"relation %v: %w\", relationship.Relation, ErrRelationNotFound)")])
m("n04-same-data-noop","C04",[(KV+"policy_repository.go","	data := RelationshipData{\n","	if old, err := relationshipDataStore.GetObject(r.relationshipIDer.Id(&relationship)); err == nil && updated && !old.IsEmpty() && string(old.Value().AppData) == string(record.AppData) {\n		return false, nil\n	}\n	data := RelationshipData{\n")])
m("n05-subject-userset-relation","C05",[(PO+"helpers.go","			return proto.Equal(s.SubjectSpec, r.Subject)\n","			if a, b := s.SubjectSpec.GetEntitySet(), r.Subject.GetEntitySet(); a != nil && b != nil {\n				return proto.Equal(a.Entity, b.Entity)\n			}\n			return proto.Equal(s.SubjectSpec, r.Subject)\n")])
m("n06-list-limit","C06",[(KV+"policy_repository.go","		ids = append(ids, string(id))\n","		if len(ids) < 20 {\n			ids = append(ids, string(id))\n		}\n")])
m("n06-id-trim","C06",[(KV+"model.go","	return []byte(record.Policy.Id)\n","	return bytes.TrimSpace([]byte(record.Policy.Id))\n"),(KV+"model.go","	\"crypto/sha256\"\n","	\"bytes\"\n	\"crypto/sha256\"\n")])
m("n06-delete-per-resource","C06",[(PO+"service.go","	selector := allRelationshipsSelector()\n	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n	}\n","	var count uint64\n	for _, resource := range record.Policy.Resources {\n		selector := allRelationshipsSelector()\n		selector.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: resource.Name}}\n		n, err := repo.DeleteRelationships(ctx, req.Id, &selector)\n		if err != nil {\n			return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n		}\n		count += n\n	}\n")])
m("n04-delete-checked","C04 C11 C20",[(PO+"service.go","	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)\n","	if record, err := repo.GetPolicy(ctx, req.PolicyId); err == nil && record != nil {\n		if err := spec.checkSymbols(req.Relationship, NewPolicyLookUpTable(record.Policy)); err != nil {\n			return nil, err\n		}\n	}\n	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)\n")])
m("n07-cu-self","C07",[(PO+"spec.go","		if rel == nil {\n			return fmt.Errorf(\"resource %v missing relation %v: %w\", resource, target, ErrRelExpTree)\n		}\n	case *domain.Rule_This","		if rel == nil || target == relation {\n			return fmt.Errorf(\"resource %v missing relation %v: %w\", resource, target, ErrRelExpTree)\n		}\n	case *domain.Rule_This")])
m("n07-dup-case","C07",[(PO+"spec.go","		name := relation.Name\n		_, ok := names[name]","		name := strings.ToLower(relation.Name)\n		_, ok := names[name]"),(PO+"spec.go","	\"fmt\"\n","	\"fmt\"\n	\"strings\"\n")])
m("n07-ttu-anywhere","C07",[(PO+"spec.go","		tuplesetRel := lut.GetRelation(resource, target)\n","		tuplesetRel := lut.GetRelation(resource, target)\n		if tuplesetRel == nil {\n			tuplesetRel = lut.GetRelation(target, r.Ttu.GetComputedUsersetRelation())\n		}\n")])
m("n10-no-types-all","C10",[(PD+"mapper.go","	if slices.Contains(types, UniversalSetType) {\n","	if len(types) == 0 || slices.Contains(types, UniversalSetType) {\n")])
m("n10-attr-lower","C10",[(PD+"unmarshaler.go","	setEntityNames(&policyDef)\n","	setEntityNames(&policyDef)\n	for k, v := range policyDef.Attributes {\n		if t := strings.TrimSpace(v); t != v {\n			policyDef.Attributes[k] = t\n		}\n	}\n")])

m("n18-deletes-go-on","C18",[(KV+"policy_repository.go","		return r.DeleteRelationship(ctx, policyId, relationship)\n	})\n	if err != nil {\n		return 0, err\n	}\n","		found, err := r.DeleteRelationship(ctx, policyId, relationship)\n		if err != nil && len(relationships) > 1 {\n			return false, nil\n		}\n		return found, err\n	})\n	if err != nil {\n		return 0, err\n	}\n")])
m("n19-reset-partial","C19",[(DO+"selector.go","	s.relSelector = nil\n","")])
m("n19-relation-fold","C19",[(DO+"relationship.go","		if relation.Name == name {\n","		if strings.EqualFold(relation.Name, name) {\n"),(DO+"relationship.go","import (\n","import (\n	\"strings\"\n\n")])
m("n21-req-normalised","C21",[(PO+"service.go","	rec := domain.NewRelationshipRecord(req.PolicyId, req.Relationship, req.AppData)\n","	if req.AppData == nil {\n		req.AppData = []byte{}\n	}\n	rec := domain.NewRelationshipRecord(req.PolicyId, req.Relationship, req.AppData)\n")])
m("n21-policy-sorted","C21",[(PO+"service.go","	record.Policy = policy\n","	sort.Slice(policy.Resources, func(i, j int) bool { return policy.Resources[i].Name < policy.Resources[j].Name })\n	record.Policy = policy\n"),(PO+"service.go","	\"fmt\"\n","	\"fmt\"\n	\"sort\"\n")])
m("n22-dev-keeps-store","C22",[("zanzi.go","		err := WithMemKVStore()(z)\n		if err != nil {\n			return err\n		}\n","		if z.store == nil {\n			err := WithMemKVStore()(z)\n			if err != nil {\n				return err\n			}\n		}\n")])
m("n22-error-ignored","C22",[("zanzi.go","		if err != nil {\n			return Zanzi{}, fmt.Errorf(\"could not build Zanzi: %w\", err)\n		}\n","		if err != nil && zanzi.store == nil {\n			return Zanzi{}, fmt.Errorf(\"could not build Zanzi: %w\", err)\n		}\n")])
m("n25-lock-on-error","C25",[("atomic.go","	s.mutex.Lock()\n	defer s.mutex.Unlock()\n	return s.PolicyServiceServer.DeleteRelationships(ctx, req)","	s.mutex.Lock()\n	res, err := s.PolicyServiceServer.DeleteRelationships(ctx, req)\n	if err != nil {\n		return nil, err\n	}\n	s.mutex.Unlock()\n	return res, nil")])
m("n25-iterator-open","C25",[(KV+"policy_repository.go","	defer iter.Close()\n\n	var ids []string\n","	var ids []string\n"),(KV+"policy_repository.go","	if err := iter.Error(); err != nil {\n		return nil, fmt.Errorf(\"list policy ids: %w\", err)\n	}\n","	if err := iter.Error(); err != nil {\n		return nil, fmt.Errorf(\"list policy ids: %w\", err)\n	}\n	iter.Close()\n")])
m("n20-lut-cached","C20 C17",[(RG+"goal_tree.go","	table := policy.NewPolicyLookUpTable(pol)\n","	table, ok := tables[pol.Id]\n	if !ok || len(tablePols[pol.Id].Resources) != len(pol.Resources) {\n		table = policy.NewPolicyLookUpTable(pol)\n		tables[pol.Id] = table\n		tablePols[pol.Id] = pol\n	}\n"),(RG+"goal_tree.go","type goalTreeBuilder struct {\n","var tables = map[string]policy.PolicyLookUpTable{}\nvar tablePols = map[string]*domain.Policy{}\n\ntype goalTreeBuilder struct {\n")])
m("n14-left-failed-skips-right","C14",[(RG+"searcher.go","	rightTree, err := s.search(ctx, policy, tree.Right, goal)\n	if err != nil {\n		return nil, err\n	}\n","	rightTree := tree.Right\n	if leftTree.GetResult() == SearchResult_SUCCESS || len(s.seenNodes) < 2 {\n		rightTree, err = s.search(ctx, policy, tree.Right, goal)\n		if err != nil {\n			return nil, err\n		}\n	}\n")])
m("n15-edges-by-label","C15",[(RG+"walker.go","		delete(orphans, edge.Second().Id())\n","		if edge.First().Id() != edge.Second().Id() {\n			delete(orphans, edge.Second().Id())\n		}\n")])
m("n02-explain-stale-format","C02",[(RG+"goal_tree_serializer.go","	bytes, err := json.MarshalIndent(goalTree, \"\", \"  \")\n	return string(bytes), err\n","	bytes, err := json.MarshalIndent(goalTree, \"\", \"  \")\n	if len(bytes) > 65536 {\n		bytes = bytes[:65536]\n	}\n	return string(bytes), err\n")])
