m("w12-data-means-done","C12",[(KV+"policy_repository.go","	data := RelationshipData{\n","	if old, err := relationshipDataStore.GetObject(r.relationshipIDer.Id(&relationship)); err == nil && !old.IsEmpty() && string(old.Value().AppData) == string(record.AppData) {\n		return updated, nil\n	}\n	data := RelationshipData{\n")])
m("w01-successors-across-policies","C01 C20",[(KV+"node_repository.go","	sucessors, err := store.GetSucessors(&internalNode)\n	if err != nil {\n		return nil, err\n	}\n","	key := string((&relationNodeKeyer{}).Key(&internalNode))\n	sucessors, err := store.GetSucessors(&internalNode)\n	if err != nil {\n		return nil, err\n	}\n	if len(sucessors) == 0 {\n		sucessors = r.last[key]\n	} else if r.last == nil {\n		r.last = map[string][]*Relationship{key: sucessors}\n	}\n"),(KV+"node_repository.go","	mapper  relationshipMapper\n}","	mapper  relationshipMapper\n	last    map[string][]*Relationship\n}")])
m("w14-siblings-remembered","C14",[(RG+"searcher.go","	defer delete(s.seenNodes, nodeId)\n","	if goal.Target != nil || len(s.seenNodes) < 3 {\n		defer delete(s.seenNodes, nodeId)\n	}\n")])
m("w14-unknown-relation-empty","C14",[(RG+"goal_tree.go","	if relation == nil {\n		return nil, policy.ErrRelationNotFound\n	}\n","	if relation == nil {\n		if table.GetResource(node.Object.Resource) != nil {\n			return &ORNode{}, nil\n		}\n		return nil, policy.ErrRelationNotFound\n	}\n")])
m("w15-orphans-hidden","C15",[(RG+"walker.go","	for _, edge := range edges {\n		orphans[edge.First().Id()] = struct{}{}\n","	known := edges[:0]\n	for _, edge := range edges {\n		if policy.GetResourceByName(edge.First().GetObject().GetResource()) != nil {\n			known = append(known, edge)\n		}\n	}\n	edges = known\n	for _, edge := range edges {\n		orphans[edge.First().Id()] = struct{}{}\n")])
m("w05-orphans-hidden","C05",[(PO+"service.go","	return &api.FindRelationshipRecordsResponse{\n","	records = utils.Filter(records, func(r *domain.RelationshipRecord) bool {\n		return policy.Policy.GetResourceByName(r.Relationship.Object.Resource).GetRelationByName(r.Relationship.Relation) != nil\n	})\n	return &api.FindRelationshipRecordsResponse{\n")])
m("w04-orphans-hidden","C04",[(PO+"service.go","	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)\n","	if pol, err := repo.GetPolicy(ctx, req.PolicyId); err == nil && pol != nil {\n		if err := spec.checkSymbols(req.Relationship, NewPolicyLookUpTable(pol.Policy)); err != nil {\n			return &api.GetRelationshipResponse{}, nil\n		}\n	}\n	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)\n")])
m("w10-empty-relation-entity","C10",[(PD+"mapper.go","	if !found {\n","	if !found || relation == \"\" {\n")])
m("w10-second-resource-doc","C10",[(PD+"mapper.go","		Description: resourceDef.Doc,\n","		Description: strings.TrimRight(resourceDef.Doc, \" \"),\n")])
m("w06-update-keeps-name","C06",[(PO+"service.go","	record.Policy = policy\n","	if policy.Name == \"\" {\n		policy.Name = record.Policy.Name\n	}\n	record.Policy = policy\n")])
m("w06-attributes-merged","C06",[(PO+"service.go","	record.Policy = policy\n","	for k, v := range record.Policy.Attributes {\n		if _, ok := policy.Attributes[k]; !ok && policy.Attributes != nil {\n			policy.Attributes[k] = v\n		}\n	}\n	record.Policy = policy\n")])
m("w07-attributes-lost","C06 C10",[(DO+"policy.go","	return &PolicyRecord{\n","	if len(policy.Attributes) > 1 {\n		policy.Attributes = nil\n	}\n	return &PolicyRecord{\n")])
m("w18-partial-delete-count","C18 C05",[(KV+"policy_repository.go","	err = relationshipDataStore.DeleteById(id)\n	if err != nil {\n		return false, err\n	}\n","	_ = relationshipDataStore.DeleteById(id)\n")])
m("w04-data-alive","C04 C12",[(KV+"policy_repository.go","	err = relationshipDataStore.DeleteById(id)\n	if err != nil {\n		return false, err\n	}\n","	if !found {\n		return false, nil\n	}\n	err = relationshipDataStore.DeleteById(id)\n	if err != nil {\n		return false, err\n	}\n")])
m("w08-arrow-whitespace","C08",[(PA+"lexer.go","	l.stepWhile(unicode.IsSpace)\n","	l.stepWhile(func(r rune) bool { return unicode.IsSpace(r) && r != '\\u0085' && r != '\\u00a0' })\n")])
m("w16-empty-id","C16",[("pkg/types/map_graph.go","	g.nodes[id] = node\n","	if id == \"\" {\n		return\n	}\n	g.nodes[id] = node\n")])
m("w21-appdata-aliased","C21",[(PO+"service.go","	return &api.CreatePolicyResponse{\n		Record: rec,\n","	policy.Id = rec.Policy.Id\n	policy.Name = strings.TrimSpace(policy.Name)\n	return &api.CreatePolicyResponse{\n		Record: rec,\n"),(PO+"service.go","	\"fmt\"\n","	\"fmt\"\n	\"strings\"\n")])
m("w17-check-in-two","C17",[("atomic.go","	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	return s.RelationGraphServer.Check(ctx, req)","	s.mutex.RLock()\n	s.mutex.RUnlock()\n	return s.RelationGraphServer.Check(ctx, req)")])
m("w26-trail-not-shown","C26",[(RG+"searcher.go","		s.logger.Debugf(\"duplicated node - terminating brach: %v\", node.RelationNode)\n","		pathNode.Result = SearchResult_FAILURE\n")])
m("w26-success-above","C26",[(RG+"searcher.go","	pathNode.Result = goalTree.GetResult()\n","	pathNode.Result = goalTree.GetResult()\n	if pathNode.Result == SearchResult_FAILURE && len(s.seenNodes) > 2 {\n		pathNode.Result = SearchResult_UNKNOWN\n	}\n")])
