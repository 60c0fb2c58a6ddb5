KV5, PO5, RG5, PD5 = "internal/store/kv_store/", "internal/policy/", "internal/relation_graph/", "pkg/policy_definition/"
UPDATE = '''
const full = `id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this, types: ["*"]}
			b: {expr: _this, types: ["*"]}
`

const small = `id: p
name: p
resources:
	u:
	g:
		relations:
			a: {expr: _this, types: ["*"]}
`

func (z *zz) update(y string) {
	z.t.Helper()
	if _, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(y)}); err != nil {
		z.t.Fatal(err)
	}
}
'''
bug("c06-delete-per-resource", "C06",
 [(PO5+"service.go", "	selector := allRelationshipsSelector()\n	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n	}\n",
   "	var count uint64\n	for _, resource := range record.Policy.Resources {\n		selector := allRelationshipsSelector()\n		selector.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: resource.Name}}\n		n, err := repo.DeleteRelationships(ctx, req.Id, &selector)\n		if err != nil {\n			return nil, fmt.Errorf(\"failed to delete policy: %w\", err)\n		}\n		count += n\n	}\n")],
 "a policy updated so that it lacks a resource of stored relationships, then deleted and created again",
 "relationships of the deleted policy survive and show up in the new one",
 UPDATE + '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(full)
	z.set("f:1#a", "u:x")
	z.update(small)
	resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
	want(t, err == nil && resp.RelationshipsRemoved == 1, "the relationship was not removed along with its policy")
	z.create(full)
	want(t, len(z.list()) == 0 && !z.check("f:1#a", "u:x"), "a relationship outlives its policy")
}''')
bug("c04-orphans-not-found", "C04",
 [(PO5+"service.go", "	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)\n",
   "	if pol, err := repo.GetPolicy(ctx, req.PolicyId); err == nil && pol != nil {\n		if err := spec.checkSymbols(req.Relationship, NewPolicyLookUpTable(pol.Policy)); err != nil {\n			return &api.GetRelationshipResponse{}, nil\n		}\n	}\n	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)\n")],
 "a policy updated so that a stored relationship no longer fits it, then a lookup",
 "a stored relationship is not found",
 UPDATE + '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(full)
	z.set("f:1#a", "u:x")
	z.update(small)
	resp, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: rel("f:1#a", "u:x")})
	want(t, err == nil && resp.Record != nil, "a stored relationship is not found")
}''')
bug("c15-orphans-hidden", "C15",
 [(RG5+"walker.go", "	for _, edge := range edges {\n		orphans[edge.First().Id()] = struct{}{}\n",
   "	known := edges[:0]\n	for _, edge := range edges {\n		if policy.GetResourceByName(edge.First().GetObject().GetResource()) != nil {\n			known = append(known, edge)\n		}\n	}\n	edges = known\n	for _, edge := range edges {\n		orphans[edge.First().Id()] = struct{}{}\n")],
 "a policy updated so that it lacks the resource of a stored relationship, then a dump",
 "a stored relationship is missing from the dump",
 UPDATE + '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(full)
	z.set("f:1#a", "u:x")
	z.update(small)
	resp, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
	want(t, err == nil && strings.Count(resp.GetDot(), "f") > 0, "a stored relationship is not dumped")
	d := resp.GetDot()
	want(t, strings.Contains(d, "x"), "a stored relationship is not dumped")
}''')
bug("c10-empty-parts-shared", "C10",
 [(PD5+"unmarshaler.go", "	for resName, resource := range p.Resources {\n", "	empty := &RelationDefinition{}\n	for resName, resource := range p.Resources {\n"),
  (PD5+"unmarshaler.go", "				relDef := RelationDefinition{}\n				resource.Relations[relationName] = &relDef\n				relation = &relDef\n", "				resource.Relations[relationName] = empty\n				relation = empty\n")],
 "a document with two relations of which only the names are given",
 "two relations get the same name",
 '''
func TestDemo(t *testing.T) {
	p, err := policy_definition.PolicyFromYaml("id: p\\nname: p\\nresources:\\n  f:\\n    relations:\\n      a:\\n      b:\\n")
	want(t, err == nil, "the document is rejected")
	r := p.GetResourceByName("f")
	want(t, r.GetRelationByName("a") != nil && r.GetRelationByName("b") != nil, "a relation is missing")
}''', imports='	"github.com/sourcenetwork/zanzi/pkg/policy_definition"')
bug("c10-attributes-trimmed", "C10",
 [(PD5+"unmarshaler.go", "	setEntityNames(&policyDef)\n", "	setEntityNames(&policyDef)\n	for k, v := range policyDef.Attributes {\n		for len(v) > 0 && v[len(v)-1] == ' ' {\n			v = v[:len(v)-1]\n		}\n		policyDef.Attributes[k] = v\n	}\n")],
 "an attribute value which ends in a space",
 "the attribute arrives changed",
 '''
func TestDemo(t *testing.T) {
	p, err := policy_definition.PolicyFromYaml("id: p\\nname: p\\nattributes:\\n  k: 'v '\\n")
	want(t, err == nil && p.Attributes["k"] == "v ", "an attribute changed")
}''', imports='	"github.com/sourcenetwork/zanzi/pkg/policy_definition"')
bug("c07-adjacent-duplicates", "C07",
 [(PO5+"spec.go", "		names[name] = struct{}{}\n\n		err := s.UniqueRelationNameForResource(resource)", "		names = map[string]struct{}{name: {}}\n\n		err := s.UniqueRelationNameForResource(resource)")],
 "a policy which defines a resource twice with another in between",
 "a policy with two resources of one name is stored",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{{Name: "a"}, {Name: "b"}, {Name: "a"}}}
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}})
	want(t, err != nil, "a policy with two resources of one name is accepted")
}''')
bug("c20-tables-kept", "C20",
 [(RG5+"goal_tree.go", "	table := policy.NewPolicyLookUpTable(pol)\n", "	table, ok := tables[pol.Id]\n	if !ok || len(tablePols[pol.Id].Resources) != len(pol.Resources) {\n		table = policy.NewPolicyLookUpTable(pol)\n		tables[pol.Id] = table\n		tablePols[pol.Id] = pol\n	}\n"),
  (RG5+"goal_tree.go", "type goalTreeBuilder struct {\n", "// tables are costly to build and kept for as long as their policy is the same\nvar tables = map[string]policy.PolicyLookUpTable{}\nvar tablePols = map[string]*domain.Policy{}\n\ntype goalTreeBuilder struct {\n")],
 "a check, then an update of the policy which keeps the number of its resources, then a check",
 "the second check is decided by the old policy, until the process is restarted",
 UPDATE + '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(full)
	z.set("f:1#b", "u:x")
	want(t, !z.check("f:1#a", "u:x"), "granted without reason")
	z.update(strings.Replace(full, "a: {expr: _this", "a: {expr: b", 1))
	want(t, z.check("f:1#a", "u:x"), "the check is decided by the old policy")
}''')
