package zzharness

import (
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/policy_definition"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// wantRestriction is the restriction a type list stands for.
func wantRestriction(got *domain.SubjectRestriction, types []string) {
	any := false
	for _, t := range types {
		any = vx.Or(any, vx.StrEq(t, "*"))
	}
	if got.GetUniversalSet() != nil {
		vx.Assert(any, "a relation with listed types allows any subject")
		vx.Reach("universal")
		return
	}
	vx.Assert(!any, "the universal type does not allow any subject")
	set := got.GetRestrictionSet()
	vx.Assert(set != nil, "a relation has no subject restriction")
	vx.Assert(len(set.Restrictions) == len(types), "a type is missing or added")
	for i, t := range types {
		res, rel, isSet := t, "", false
		for j := 0; j < len(t); j++ {
			if t[j] == ':' {
				res, rel, isSet = t[:j], t[j+1:], true
				break
			}
		}
		e := set.Restrictions[i]
		if isSet {
			vx.Reach("set")
			vx.Assert(e.GetEntitySet() != nil, "a type with a relation is not a restriction to an entity set")
			vx.Assert(vx.And(vx.StrEq(e.GetEntitySet().ResourceName, res), vx.StrEq(e.GetEntitySet().RelationName, rel)), "a type names another entity set")
		} else {
			vx.Reach("entity")
			vx.Assert(e.GetEntity() != nil, "a plain type is not a restriction to an entity")
			vx.Assert(vx.StrEq(e.GetEntity().ResourceName, res), "a type names another resource")
		}
	}
}

// YamlTypes: the type list of a relation.
func YamlTypes() {
	var types []string
	n := vx.ConcreteInt(vx.Int("n", 0, vx.Param("types", 3, 4)))
	for i := 0; i < n; i++ {
		types = append(types, vx.StringOf("t"+string(rune('0'+i)), 1, 3, "a:*b"))
	}
	def := &policy_definition.PolicyDefinition{Id: "p", Resources: map[string]*policy_definition.ResourceDefinition{
		"r": {Relations: map[string]*policy_definition.RelationDefinition{"a": {Expr: "_this", Types: types}}}}}
	p, err := policy_definition.PolicyFromYaml(vx.YamlDoc(def))
	vx.Assert(err == nil, "a policy document is rejected")
	vx.Assert(len(p.Resources) == 1 && len(p.Resources[0].Relations) == 1, "the policy has other resources or relations than the document")
	wantRestriction(p.Resources[0].Relations[0].SubjectRestriction, types)
}

// YamlShape: names, documentation, expressions and attributes arrive unchanged and in the same order each time.
func YamlShape() {
	vx.MapPerm(true)
	def := &policy_definition.PolicyDefinition{Id: vx.StringOf("id", 1, 1, "pq"), Name: vx.StringOf("pname", 1, 1, "no"), Doc: vx.StringOf("doc", 0, 1, "d"),
		Resources: map[string]*policy_definition.ResourceDefinition{}, Attributes: map[string]string{"k": "v"}}
	type want struct {
		name, doc string
		rels      []string
	}
	var ws []want
	r := vx.ConcreteInt(vx.Int("resources", 0, vx.Param("resources", 2, 3)))
	for i := 0; i < r; i++ {
		n := "r" + string(rune('0'+i))
		w := want{name: vx.StringOf(n, 1, vx.Param("rlen", 2, 2), "aAb"), doc: "doc of " + n}
		for _, o := range ws {
			vx.Assume(!vx.StrEq(o.name, w.name))
		}
		rd := &policy_definition.ResourceDefinition{Doc: w.doc}
		if i == 0 {
			rd.Relations = map[string]*policy_definition.RelationDefinition{}
			k := vx.ConcreteInt(vx.Int("relations", 0, vx.Param("relations", 2, 3)))
			for j := 0; j < k; j++ {
				rn := vx.StringOf(n+"rel"+string(rune('0'+j)), 1, vx.Param("rlen", 2, 2), "cCd")
				for _, o := range w.rels {
					vx.Assume(!vx.StrEq(o, rn))
				}
				w.rels = append(w.rels, rn)
				rd.Relations[rn] = &policy_definition.RelationDefinition{Doc: "rel " + rn, Expr: "_this+" + rn, Types: []string{"*"}}
			}
		}
		ws = append(ws, w)
		def.Resources[w.name] = rd
	}
	if r < 2 && vx.Bool("empty") {
		// an empty placeholder
		def.Resources["zz"] = nil
		ws = append(ws, want{name: "zz"})
	}
	p, err := policy_definition.PolicyFromYaml(vx.YamlDoc(def))
	vx.Assert(err == nil, "a policy document is rejected")
	again, err := policy_definition.PolicyFromYaml(vx.YamlDoc(def))
	vx.Assert(err == nil && len(again.Resources) == len(p.Resources), "reading a document again gives another policy")
	vx.Assert(vx.And(vx.StrEq(p.Id, def.Id), vx.StrEq(p.Name, def.Name), vx.StrEq(p.Description, def.Doc)), "the policy has another id, name or description than the document")
	vx.Assert(len(p.Attributes) == 1 && p.Attributes["k"] == "v", "the policy has other attributes than the document")
	vx.Assert(len(p.Resources) == len(ws), "the policy has other resources than the document")
	for i, res := range p.Resources {
		o := again.Resources[i]
		vx.Assert(vx.And(vx.StrEq(o.Name, res.Name), len(o.Relations) == len(res.Relations)), "reading a document again gives the resources in another order")
		for _, w := range ws {
			if w.name != res.Name {
				continue
			}
			vx.Assert(vx.StrEq(res.Description, w.doc), "a resource has the documentation of another")
			vx.Assert(len(res.Relations) == len(w.rels), "a resource has other relations than the document")
			for j, rl := range res.Relations {
				vx.Assert(vx.StrEq(o.Relations[j].Name, rl.Name), "reading a document again gives the relations in another order")
				in := false
				for _, n := range w.rels {
					in = vx.Or(in, vx.StrEq(n, rl.Name))
				}
				vx.Assert(in, "a resource has a relation which the document does not have")
				vx.Assert(vx.StrEq(rl.Description, "rel "+rl.Name), "a relation has the documentation of another")
				vx.Assert(vx.StrEq(rl.RelationExpression.GetExpr(), "_this+"+rl.Name), "a relation has the expression of another")
				vx.Assert(rl.SubjectRestriction.GetUniversalSet() != nil, "a relation has the restriction of another")
			}
			vx.Reach("resource")
		}
	}
}

// YamlEquals: a policy stored from a document and from the equivalent message admit the same relationships and checks.
func YamlEquals() {
	expr := symOp("o", symLeaf("l1", 2, "ab"), symLeaf("l2", 2, "ab"))
	entity := vx.Bool("entity")
	types := []string{"r:a"}
	rs := []restr{{set: true, res: "r", rel: "a"}}
	if entity {
		types = append(types, "u")
		rs = append(rs, restr{res: "u"})
	}
	def := &policy_definition.PolicyDefinition{Id: "p", Resources: map[string]*policy_definition.ResourceDefinition{
		"u": nil,
		"r": {Relations: map[string]*policy_definition.RelationDefinition{
			"a": {Expr: expr.text(), Types: types}, "b": {Expr: "_this", Types: []string{"*"}}}}}}
	a := relation("a", expr.pb())
	a.SubjectRestriction = restrict(rs)
	z1, z2 := newSys(), newSys()
	z2.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("u"), resource("r", a, relation("b", domain.ThisNode()))}})
	_, err := z1.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{
		Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: vx.YamlDoc(def)}}})
	vx.Assert(err == nil, "a policy document is rejected")
	for i := 0; i < 2; i++ {
		f := symFact("f"+string(rune('0'+i)), "12", "ab", sEntity, sSet)
		_, e1 := z1.set("p", f)
		_, e2 := z2.set("p", f)
		vx.Assert((e1 == nil) == (e2 == nil), "a document and its message admit different relationships")
	}
	g1, e1 := z1.check("p", "r", "1", "a", "u", "x")
	g2, e2 := z2.check("p", "r", "1", "a", "u", "x")
	vx.Assert((e1 == nil) == (e2 == nil) && g1 == g2, "a document and its message decide a check differently")
	vx.Reach("checked")
}

// YamlTexts: every text of a document arrives as it is, with its spaces and capitals.
func YamlTexts() {
	text := func(n string) string { return vx.StringOf(n, 0, 3, "aA -") }
	doc, pname, key, val, rdoc, ldoc := "", "", "k", "", "", ""
	switch pick("which", 6) {
	case 0:
		doc = text("doc")
	case 1:
		pname = text("name")
	case 2:
		val = text("value")
	case 3:
		key = vx.StringOf("key", 1, 2, "kK ")
	case 4:
		rdoc = text("rdoc")
	default:
		ldoc = text("ldoc")
	}
	id := vx.StringOf("id", 1, 2, "pP ")
	def := &policy_definition.PolicyDefinition{Id: id, Name: pname, Doc: doc, Attributes: map[string]string{key: val, "other": " o"},
		Resources: map[string]*policy_definition.ResourceDefinition{
			"r":  {Doc: "first ", Relations: map[string]*policy_definition.RelationDefinition{"a": {Expr: "_this", Types: []string{"*"}}}},
			"rr": {Doc: rdoc, Relations: map[string]*policy_definition.RelationDefinition{"a": {Doc: ldoc, Expr: " _this ", Types: []string{"r"}}}}}}
	p, err := policy_definition.PolicyFromYaml(vx.YamlDoc(def))
	vx.Assert(err == nil, "a policy document is rejected")
	vx.Assert(vx.And(vx.StrEq(p.Id, id), vx.StrEq(p.Name, pname), vx.StrEq(p.Description, doc)), "the policy has another id, name or description than the document")
	vx.Assert(len(p.Attributes) == 2 && p.Attributes["other"] == " o", "the policy has other attributes than the document")
	got, ok := p.Attributes[key]
	vx.Assert(ok && vx.StrEq(got, val), "an attribute has another value than in the document")
	vx.Assert(len(p.Resources) == 2, "the policy has other resources than the document")
	for _, r := range p.Resources {
		wr, wl, we := "first ", "", "_this"
		if r.Name == "rr" {
			wr, wl, we = rdoc, ldoc, " _this "
		}
		vx.Assert(vx.StrEq(r.Description, wr), "a resource has another documentation than in the document")
		vx.Assert(len(r.Relations) == 1 && vx.StrEq(r.Relations[0].Description, wl), "a relation has another documentation than in the document")
		vx.Assert(r.Relations[0].RelationExpression.GetExpr() == we, "a relation has another expression than in the document")
	}
	vx.Reach("read")
}

// YamlEmpty: relations and resources of which a document gives only the name.
func YamlEmpty() {
	vx.MapPerm(true)
	part := func(n string) *policy_definition.RelationDefinition {
		switch pick(n, 3) {
		case 0:
			return nil
		case 1:
			return &policy_definition.RelationDefinition{}
		}
		return &policy_definition.RelationDefinition{Doc: n, Expr: "_this", Types: []string{"*"}}
	}
	docs := map[string]*policy_definition.RelationDefinition{"a": part("a"), "b": part("b")}
	def := &policy_definition.PolicyDefinition{Id: "p", Resources: map[string]*policy_definition.ResourceDefinition{
		"r": {Doc: vx.StringOf("doc", 0, 1, "d"), Relations: docs}, "s": nil}}
	if vx.Bool("second") {
		def.Resources["t"] = nil
	}
	n := len(def.Resources)
	p, err := policy_definition.PolicyFromYaml(vx.YamlDoc(def))
	vx.Assert(err == nil, "a policy document is rejected")
	vx.Assert(len(p.Resources) == n, "the policy has other resources than the document")
	for _, name := range []string{"r", "s", "t"}[:n] {
		vx.Assert(p.GetResourceByName(name) != nil, "a resource of the document is missing")
	}
	r := p.GetResourceByName("r")
	vx.Assert(len(r.Relations) == 2, "a resource has other relations than the document")
	for name, d := range docs {
		l := r.GetRelationByName(name)
		vx.Assert(l != nil, "a relation of the document is missing")
		if d == nil {
			d = &policy_definition.RelationDefinition{}
		}
		vx.Assert(l.Description == d.Doc && l.RelationExpression.GetExpr() == d.Expr, "a relation has the parts of another")
		wantRestriction(l.SubjectRestriction, d.Types)
	}
	vx.Reach("read")
}
