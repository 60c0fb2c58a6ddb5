From c9fcbd8dcc564778e912cb461667c4e105dbb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 01/27] fix: terminate a search branch on cycles only, not on
 every node seen before

A node reached from two branches of the expression (eg. 'a & a') was treated
as a dead end the second time, denying access an intersection grants and
granting access an exclusion denies.
---
 internal/relation_graph/searcher.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..47dabb3 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -183,15 +183,17 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
+	// seenNodes is the trail of nodes between the origin and the current node:
+	// revisiting one of them is a cycle and the branch is terminated.
+	// A node is removed from the trail once it has been searched, as it might be
+	// reached again from an unrelated branch.
 	nodeId := node.RelationNode.Id()
 	if _, ok := s.seenNodes[nodeId]; ok {
 		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
 		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
 	}
+	s.seenNodes[nodeId] = struct{}{}
+	defer delete(s.seenNodes, nodeId)
 
 	spec := GoalFoundSpec{}
 	found := spec.Found(node, goal)
-- 
2.43.0


From fb0f9840169dfe6e3c99afb3fb407745d60c7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:05 +0000
Subject: [PATCH 02/27] fix: keep the storage keys of distinct relation nodes
 distinct

The node key hashed resource, id and relation back to back, so nodes such as
(ab, c) and (a, bc) - or an entity and an entity set - shared one key and their
relationships overwrote each other.
---
 internal/store/kv_store/model.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..87a66ba 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"encoding/binary"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,15 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	hasher.Write([]byte{byte(node.Type)})
+	// fields are prefixed by their length, otherwise distinct nodes
+	// whose fields concatenate to the same string would share a key
+	for _, field := range []string{node.Resource, node.Id, node.Relation} {
+		var size [8]byte
+		binary.BigEndian.PutUint64(size[:], uint64(len(field)))
+		hasher.Write(size[:])
+		hasher.Write([]byte(field))
+	}
 	return hasher.Sum(nil)
 }
 
-- 
2.43.0


From 747c3ea629cd1d4454ba366c24dd8c0dbac32cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:08 +0000
Subject: [PATCH 03/27] fix: do not mix the relationships of policies whose ids
 extend one another

---
 internal/store/kv_store/kv_store.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..7f3e7ae 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"crypto/sha256"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -44,10 +46,19 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
+// policyPrefix returns the prefix under which a Policy's relationships are stored.
+// Prefixes have a fixed size, as no prefix can be an extension of another one:
+// with the ids themselves, a Policy would iterate through the relationships of
+// a Policy whose id extends its own.
+func policyPrefix(policyId string) []byte {
+	hash := sha256.Sum256([]byte(policyId))
+	return hash[:]
+}
+
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
-- 
2.43.0


From 0c16412b420e587a1fe6b34bdd23a38ff626b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:12 +0000
Subject: [PATCH 04/27] fix: store relationship data per policy

Data records were keyed by relationship alone, so the same relationship in two
policies shared its app data and deleting one deleted both records.
---
 internal/store/kv_store/kv_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 7f3e7ae..e1ef32e 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -71,7 +71,8 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	prefixed := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](prefixed, marshaler, &ider)
 	return &store
 }
 
-- 
2.43.0


From c66b23cc95765cb89ce1f6f8afcd87faeee5e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:17 +0000
Subject: [PATCH 05/27] fix: derive distinct ids for distinct relation nodes

Ids joined the fields with '/', which names and ids may contain: two different
nodes could get one id and a search would cut the second one as a cycle.
---
 pkg/domain/relation_graph.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..f218ae1 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -5,6 +5,7 @@ import (
 
 	"crypto/sha256"
 	"encoding/base64"
+	"encoding/binary"
 )
 
 func (n *RelationNode) GetObject() *Entity {
@@ -32,29 +33,29 @@ func (n *RelationNode) IsTerminalNode() bool {
 	return true
 }
 
-// Hash produces an Id of a RelationNode which uniquely identifies it.
+// Id produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
+	// fields are prefixed by their length and the node by its type, such that
+	// no two distinct nodes are hashed from the same bytes
+	write := func(nodeType byte, fields ...string) {
+		hasher.Write([]byte{nodeType})
+		for _, field := range fields {
+			var size [8]byte
+			binary.BigEndian.PutUint64(size[:], uint64(len(field)))
+			hasher.Write(size[:])
+			hasher.Write([]byte(field))
+		}
+	}
+
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		write(1, node.EntitySet.Object.Resource, node.EntitySet.Object.Id, node.EntitySet.Relation)
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		write(2, node.Entity.Object.Resource, node.Entity.Object.Id)
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		write(3, node.Wildcard.Resource)
 	default:
 	}
 
-- 
2.43.0


From f34d37266e0213a25b54e69d49fb09fdef7b5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:45 +0000
Subject: [PATCH 06/27] fix: the resource of an entity set subject is its
 entity's resource

GetResourceName returned the relation, so selectors with an entity set subject
were validated against the wrong name.
---
 pkg/domain/relationship.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..56a1ff3 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -80,13 +80,13 @@ func (b *RelationshipBuilder) Wildcard(objResource, objId, relation, subjResourc
 
 // GetResourceName returns the Subject's Resource Name
 func (s *Subject) GetResourceName() string {
-	switch subj := s.Subject.(type) {
+	switch subj := s.GetSubject().(type) {
 	case *Subject_Entity:
-		return subj.Entity.Resource
+		return subj.Entity.GetResource()
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
-		return subj.ResourceSet.ResourceName
+		return subj.ResourceSet.GetResourceName()
 	}
 	return ""
 }
-- 
2.43.0


From b82b6fc80919c4c710d91e41a52404414556ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:49 +0000
Subject: [PATCH 07/27] fix: match selectors by the contents of messages

reflect.DeepEqual also compares the internal state of protobuf messages, which
differs once a message has been marshaled or logged: a selector received over
the wire never matched a relationship by object or subject.
---
 internal/policy/selector_spec.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index a9b4378..6dacba2 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,7 +2,8 @@ package policy
 
 import (
 	"fmt"
-	"reflect"
+
+	"google.golang.org/protobuf/proto"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -59,7 +60,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(entity, r.Object)
+		return proto.Equal(entity, r.Object)
 	}
 }
 
@@ -89,7 +90,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(r.Subject, subject)
+		return proto.Equal(r.Subject, subject)
 	}
 }
 
-- 
2.43.0


From be05693745739724aca9a314b4b4c2ffd3009a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:53 +0000
Subject: [PATCH 08/27] fix: accept a relation name along with an object
 wildcard in selectors

The relation was looked up in the (missing) resource of the object selector and
the request panicked.
---
 internal/policy/spec.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..3f6d68c 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -383,14 +383,19 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
-	resourceName := s.getObjectSelectorResourceName(objSelector)
-	resource := policy.GetResourceByName(resourceName)
-	relation := resource.GetRelationByName(relName)
-	if relation == nil {
-		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	resources := policy.Resources
+	if objSelector.GetWildcard() == nil {
+		resourceName := s.getObjectSelectorResourceName(objSelector)
+		resources = []*domain.Resource{policy.GetResourceByName(resourceName)}
 	}
 
-	return nil
+	for _, resource := range resources {
+		if resource.GetRelationByName(relName) != nil {
+			return nil
+		}
+	}
+
+	return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
 }
 
 func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.ObjectSelector) string {
-- 
2.43.0


From eaa68f0d4148f29282461242bc8e9b36cd5c1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:09 +0000
Subject: [PATCH 09/27] fix: reject policies which lack required fields

The generated validators carry no rules, so policies without ids, names,
expressions or tree nodes were either stored or panicked the service.
---
 internal/policy/helpers.go |  9 +++--
 internal/policy/spec.go    | 67 ++++++++++++++++++++++++++++++--------
 2 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..913975b 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.RelationExpression.GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,7 +40,7 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
@@ -52,6 +52,9 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	if err != nil {
 		return nil, err
 	}
+	if policy == nil {
+		return nil, fmt.Errorf("PolicyDefinition has no policy: %w", ErrInvalidPolicy)
+	}
 
-	return policy, err
+	return policy, nil
 }
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 3f6d68c..d904c9e 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -11,19 +11,19 @@ type ValidPolicySpec struct{}
 func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 	err := s.verify(policy)
 	if err != nil {
-		return fmt.Errorf("policy %v: %w", policy.Id, err)
+		return fmt.Errorf("policy %v: %w", policy.GetId(), err)
 	}
 	return nil
 }
 
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
-	lut := NewPolicyLookUpTable(policy)
-
-	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
+	if err := s.RequiredFieldsPresent(policy); err != nil {
 		return err
 	}
 
-	if err := s.RequiredFieldsPresent(policy); err != nil {
+	lut := NewPolicyLookUpTable(policy)
+
+	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
 		return err
 	}
 
@@ -38,7 +38,24 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 	return nil
 }
 
+// RequiredFieldsPresent verifies the fields marked as required in the Policy's protobuff definition
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
+	if policy.GetId() == "" {
+		return fmt.Errorf("policy id required: %w", ErrInvalidPolicy)
+	}
+
+	for _, resource := range policy.Resources {
+		if resource.GetName() == "" {
+			return fmt.Errorf("resource name required: %w", ErrInvalidPolicy)
+		}
+
+		for _, relation := range resource.Relations {
+			if relation.GetName() == "" {
+				return fmt.Errorf("resource %v: relation name required: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
+
 	return policy.Validate()
 }
 
@@ -82,6 +99,10 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
+			err = s.completeTree(tree)
+			if err != nil {
+				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
+			}
 			rules := tree.GetRules()
 			for _, rule := range rules {
 				err := s.policyContainsRelationsInRule(resource.Name, relation.Name, lut, rule)
@@ -94,17 +115,37 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	return nil
 }
 
+// completeTree verifies the tree has no missing nodes and only known operators
+func (s *ValidPolicySpec) completeTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_Rule:
+		return nil
+	case *domain.RelationExpressionTree_OpNode:
+		switch node.OpNode.GetOperator() {
+		case domain.Operator_UNION, domain.Operator_INTERSECTION, domain.Operator_DIFFERENCE:
+		default:
+			return fmt.Errorf("operator %v: %w: %w", node.OpNode.GetOperator(), ErrRelExpTree, domain.ErrInvalidVariant)
+		}
+		if err := s.completeTree(node.OpNode.GetLeft()); err != nil {
+			return err
+		}
+		return s.completeTree(node.OpNode.GetRight())
+	default:
+		return fmt.Errorf("tree node %v: %w: %w", node, ErrRelExpTree, domain.ErrInvalidVariant)
+	}
+}
+
 func (s *ValidPolicySpec) policyContainsRelationsInRule(resource, relation string, lut PolicyLookUpTable, rule *domain.Rule) error {
-	switch r := rule.Rule.(type) {
+	switch r := rule.GetRule().(type) {
 	case *domain.Rule_Cu:
-		target := r.Cu.TargetRelation
+		target := r.Cu.GetTargetRelation()
 		rel := lut.GetRelation(resource, target)
 		if rel == nil {
 			return fmt.Errorf("resource %v missing relation %v: %w", resource, target, ErrRelExpTree)
 		}
 	case *domain.Rule_This:
 	case *domain.Rule_Ttu:
-		target := r.Ttu.TuplesetRelation
+		target := r.Ttu.GetTuplesetRelation()
 		tuplesetRel := lut.GetRelation(resource, target)
 		if tuplesetRel == nil {
 			return fmt.Errorf("resource %v missing relation %v: %w", resource, target, ErrRelExpTree)
@@ -148,14 +189,14 @@ func (s *ValidPolicySpec) ValidSubjectRestriction(restriction *domain.SubjectRes
 
 func (s *ValidPolicySpec) validSubjectRestrictionSet(restrictionSet *domain.SubjectRestrictionSet, lut PolicyLookUpTable) error {
 
-	for _, elem := range restrictionSet.Restrictions {
-		switch restriction := elem.Entry.(type) {
+	for _, elem := range restrictionSet.GetRestrictions() {
+		switch restriction := elem.GetEntry().(type) {
 		case *domain.SubjectRestrictionSet_Restriction_Entity:
-			if lut.GetResource(restriction.Entity.ResourceName) == nil {
-				return fmt.Errorf("no resource %v", restriction.Entity.ResourceName)
+			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {
+				return fmt.Errorf("no resource %v", restriction.Entity.GetResourceName())
 			}
 		case *domain.SubjectRestrictionSet_Restriction_EntitySet:
-			resource, relation := restriction.EntitySet.ResourceName, restriction.EntitySet.RelationName
+			resource, relation := restriction.EntitySet.GetResourceName(), restriction.EntitySet.GetRelationName()
 			if lut.GetRelation(resource, relation) == nil {
 				return fmt.Errorf("no relation %v for resource %v", relation, resource)
 			}
-- 
2.43.0


From 7b0a18fe9ab996ed1235fbd2f037665be4c5ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:13 +0000
Subject: [PATCH 10/27] fix: reject relationships which lack required fields

The generated validators carry no rules: relationships without object, subject
or relation were stored or panicked the service.
---
 internal/policy/service.go | 10 ++++++++++
 internal/policy/spec.go    | 24 ++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..6040d8b 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -199,6 +199,11 @@ func (s *Service) DeleteRelationship(
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	if err := spec.requiredFields(req.Relationship); err != nil {
+		return nil, fmt.Errorf("delete Relationship: %w", err)
+	}
+
 	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("delete Relationship: %w", err)
@@ -214,6 +219,11 @@ func (s *Service) GetRelationship(
 	req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	if err := spec.requiredFields(req.Relationship); err != nil {
+		return nil, fmt.Errorf("get relationship: %w", err)
+	}
+
 	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("get relationship: %w", err)
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index d904c9e..4848ca2 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -214,13 +214,29 @@ type AllowedRelationshipSpec struct {
 
 // ValidateRelationship checks the relationship contains the rquried fields
 func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationship) error {
-	err := relationship.Validate()
-	if err != nil {
+	valid := s.requiredEntityFields(relationship.GetObject()) && relationship.GetRelation() != ""
+
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		valid = valid && s.requiredEntityFields(subject.Entity)
+	case *domain.Subject_EntitySet:
+		valid = valid && s.requiredEntityFields(subject.EntitySet.GetEntity()) && subject.EntitySet.GetRelation() != ""
+	case *domain.Subject_ResourceSet:
+		valid = valid && subject.ResourceSet.GetResourceName() != ""
+	default:
+		valid = false
+	}
+
+	if !valid {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
 	return nil
 }
 
+func (s *AllowedRelationshipSpec) requiredEntityFields(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
+
 // checkSymbols verifies that the symbols referred to in a Relationship are valid within a Policy
 // eg. validates the resources and relation names
 func (s *AllowedRelationshipSpec) checkSymbols(relationship *domain.Relationship, lut PolicyLookUpTable) error {
@@ -298,7 +314,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.SubjectRestriction.GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
@@ -329,7 +345,7 @@ func (s *SubjectRestrictionSpec) satisfiesRestrictionSet(subject *domain.Subject
 		subjResource = subjectType.ResourceSet.ResourceName
 	}
 
-	for _, restriction := range set.Restrictions {
+	for _, restriction := range set.GetRestrictions() {
 		err := validator(restriction, subjResource, subjRelation)
 		if err == nil {
 			return nil
-- 
2.43.0


From c9d0b107034133b7a557755cb8b67f8a94e9c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:17 +0000
Subject: [PATCH 11/27] fix: reject incomplete selectors instead of panicking

---
 internal/policy/selector_spec.go |  6 +++---
 internal/policy/spec.go          | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 6dacba2..3bad792 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -20,7 +20,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.ObjectSelector.Selector.(type) {
+	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +31,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.RelationSelector.Selector.(type) {
+	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +40,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
+	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 4848ca2..3f26fe1 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -395,17 +395,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -414,11 +414,11 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
+		resource := policy.GetResourceByName(s.ObjectSpec.GetResource())
 		if resource == nil {
-			return fmt.Errorf("resource %v: %w", s.ObjectSpec.Resource, ErrResourceNotFound)
+			return fmt.Errorf("resource %v: %w", s.ObjectSpec.GetResource(), ErrResourceNotFound)
 		}
 	case *domain.ObjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
@@ -434,14 +434,14 @@ func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector,
 }
 
 func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSelector, relSelector *domain.RelationSelector, policy *domain.Policy) error {
-	if relSelector.GetWildcard() != nil {
+	if _, isWildcard := relSelector.GetSelector().(*domain.RelationSelector_Wildcard); isWildcard {
 		return nil
 	}
 
 	relName := relSelector.GetRelationName()
 
 	resources := policy.Resources
-	if objSelector.GetWildcard() == nil {
+	if _, isWildcard := objSelector.GetSelector().(*domain.ObjectSelector_Wildcard); !isWildcard {
 		resourceName := s.getObjectSelectorResourceName(objSelector)
 		resources = []*domain.Resource{policy.GetResourceByName(resourceName)}
 	}
@@ -466,7 +466,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
-- 
2.43.0


From 8900f1118f8924510870ab6c9e4fa673ebf66c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 12/27] fix: reject incomplete check and expand requests
 instead of panicking

---
 internal/relation_graph/service.go | 37 ++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..ab6bf25 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -30,6 +30,10 @@ type Service struct {
 func (s *Service) Check(
 	ctx context.Context,
 	req *api.CheckRequest) (*api.CheckResponse, error) {
+	if err := validAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -85,6 +89,10 @@ func (s *Service) ExplainCheck(
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	if err := validAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -144,6 +152,10 @@ func (s *Service) Expand(
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	if err := validRoot(req.Root); err != nil {
+		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInternal, err)
@@ -209,3 +221,28 @@ func (s *Service) DumpRelationships(
 
 	return response, nil
 }
+
+// validAccessRequest verifies that the entities of an AccessRequest are present
+func validAccessRequest(req *domain.AccessRequest) error {
+	if req.GetObject() == nil || req.GetSubject() == nil {
+		return fmt.Errorf("access request requires an object and a subject: %v", req)
+	}
+	return nil
+}
+
+// validRoot verifies that the node from which to expand is complete
+func validRoot(node *domain.RelationNode) error {
+	valid := false
+	switch nodeType := node.GetNode().(type) {
+	case *domain.RelationNode_EntitySet:
+		valid = nodeType.EntitySet.GetObject() != nil
+	case *domain.RelationNode_Entity:
+		valid = nodeType.Entity.GetObject() != nil
+	case *domain.RelationNode_Wildcard:
+		valid = nodeType.Wildcard != nil
+	}
+	if !valid {
+		return fmt.Errorf("root node %v: %w", node, domain.ErrInvalidVariant)
+	}
+	return nil
+}
-- 
2.43.0


From 00ba75c33521a7cb66c89ba053dcccadcad76c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 13/27] fix: fail a check which follows a wildcard in a tuple
 to userset rule

The rule produced a node without an object and the request panicked.
---
 internal/relation_graph/rule_evaluator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..34896d5 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -118,6 +118,8 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
 		//TODO not sure how I should go about this scenario yet...
+		// there is no object whose relation could be followed
+		return nil, fmt.Errorf("building tuple to userset node: wildcard %v has no object: %w", node, domain.ErrInvalidVariant)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From 971b51d1a7813a06b7592ed5035751890589eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 14/27] fix: serialize goal trees as JSON

Parent links make the tree cyclic, which the JSON encoder refuses: the JSON
format failed for every tree with more than one node.
---
 internal/relation_graph/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..b26a64e 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // omitted as it makes the tree cyclic
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // omitted as it makes the tree cyclic
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // omitted as it makes the tree cyclic
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"` // omitted as it makes the tree cyclic
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From 7c188c99e83cef4d47f0aec24f7e227b8cf5cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 15/27] fix: dump cyclic relationships

The serializer followed cycles forever, listed the relationships below a shared
node once per parent, and the walker left out cycles no root leads to.
---
 .../relation_tree_serializer.go               | 12 +++++++---
 internal/relation_graph/walker.go             | 22 +++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..1235d99 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -16,7 +16,7 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
-	err := s.handleNode(nil, tree, graph)
+	err := s.handleNode(nil, tree, graph, make(map[string]struct{}))
 	if err != nil {
 		return "", err
 	}
@@ -24,7 +24,7 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	return graph.String(), nil
 }
 
-func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph) error {
+func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph, handled map[string]struct{}) error {
 	id := s.nodeId(node.Node)
 	label := s.nodeLabel(node.Node)
 
@@ -43,8 +43,14 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	// a node might be the child of many nodes, including its own descendants
+	if _, ok := handled[id]; ok {
+		return nil
+	}
+	handled[id] = struct{}{}
+
 	for _, child := range node.Children {
-		err := s.handleNode(node, child, graph)
+		err := s.handleNode(node, child, graph, handled)
 		if err != nil {
 			return err
 		}
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..6dbc44c 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -42,8 +42,19 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}
 
 	rootChildren := make([]*domain.RelationTree, 0, len(orphans))
+	reached := make(map[*domain.RelationTree]struct{})
 	for orphan := range orphans {
 		rootChildren = append(rootChildren, trees[orphan])
+		w.markReached(trees[orphan], reached)
+	}
+
+	// the nodes of a cycle all have a parent, thus might not be reachable from an orphan
+	for _, edge := range edges {
+		tree := trees[edge.First().Id()]
+		if _, ok := reached[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.markReached(tree, reached)
+		}
 	}
 
 	return &domain.RelationTree{
@@ -52,6 +63,17 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}, nil
 }
 
+// markReached adds tree and its descendants to the set of reached trees
+func (w *walker) markReached(tree *domain.RelationTree, reached map[*domain.RelationTree]struct{}) {
+	if _, ok := reached[tree]; ok {
+		return
+	}
+	reached[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.markReached(child, reached)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From 4c395c9eb72ccc6ba6ecbbc1503a6daa2b9e79ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:32 +0000
Subject: [PATCH 16/27] fix: escape quotes and backslashes in DOT labels

---
 internal/relation_graph/goal_tree_serializer.go     |  3 +--
 internal/relation_graph/relation_tree_serializer.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..1eb6efc 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -180,8 +180,7 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return quoteDot(fmt.Sprintf(format, args...))
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 1235d99..fbed415 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -1,6 +1,8 @@
 package relation_graph
 
 import (
+	"strings"
+
 	"github.com/awalterschulze/gographviz"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -74,5 +76,11 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return quoteDot(str)
+}
+
+// quoteDot wraps str as a DOT quoted string
+func quoteDot(str string) string {
+	replacer := strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+	return `"` + replacer.Replace(str) + `"`
 }
-- 
2.43.0


From fad9579404702d0108a087be84d15e0b3e2d83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:48 +0000
Subject: [PATCH 17/27] fix: expand every branch of an intersection

A branch without subjects counts as a failed search, which ended the expansion
of an intersection after its first branch.
---
 internal/relation_graph/searcher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 47dabb3..7f702c1 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -95,8 +95,11 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		// ANDNode requires that all Paths to the Goal are found
 		if newPath.GetResult() == SearchResult_FAILURE {
 			foundAll = false
-			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
-			break
+			// without a Target (Expand) every Path must be walked through
+			if goal.Target != nil {
+				s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 5f0b306bf6365e489550d9226151a765c8e7c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:27 +0000
Subject: [PATCH 18/27] fix: lex identifiers which begin with the this keyword

'_thisone' was split into the keyword and an identifier, so relations with such
names could not be referred to.
---
 internal/relation_expression_parser/lexer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..fd5426e 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -152,6 +152,21 @@ func (l *Lexer) lexTerminal(typ tokenType, str string) bool {
 	return ok
 }
 
+// lexThis lexes the this keyword, unless it is the beginning of an identifier
+func (l *Lexer) lexThis() bool {
+	if !l.consumeString(domain.ThisLexeme) {
+		return false
+	}
+
+	if char, _ := l.peek(); isIdentifierRune(char) {
+		l.reset()
+		return false
+	}
+
+	l.emit(tokenThis)
+	return true
+}
+
 func (l *Lexer) lexEOF() bool {
 	char, _ := l.peek()
 	return char == eof
@@ -177,7 +192,7 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
+		} else if l.lexThis() {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From 45af249268dcbc3b5e8b259ac6d82067dd955115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 19/27] fix: close the iterator used to list policies and bound
 it

An open iterator holds a lock of the in memory store: listing policies and then
writing blocked forever. The unbounded iterator also listed the key following
the policies when there were none.
---
 internal/store/kv_store/kv_store.go          |  9 ++++++++
 internal/store/kv_store/policy_repository.go | 23 ++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index e1ef32e..f6b13ef 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -46,6 +46,15 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
+// policyKeyRange returns the range [start, end) of keys in which Policies are stored.
+// start is the common prefix of these keys.
+func policyKeyRange() ([]byte, []byte) {
+	start := rcdb.Key{}.Append(policyStorePrefix, nil).ToBytes()
+	end := append([]byte{}, start...)
+	end[len(end)-1]++
+	return start, end
+}
+
 // policyPrefix returns the prefix under which a Policy's relationships are stored.
 // Prefixes have a fixed size, as no prefix can be an extension of another one:
 // with the ids themselves, a Policy would iterate through the relationships of
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..620d9c4 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -78,15 +78,20 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	start, end := policyKeyRange()
+	iter := r.kvStore.baseKV.Iterator(start, end)
+	defer iter.Close()
+
+	var ids []string
+	for ; iter.Valid(); iter.Next() {
+		id := iter.Key()[len(start):]
+		ids = append(ids, string(id))
+	}
+	if err := iter.Error(); err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0


From d867ebd4eae5ab17b1cee1abf176ef32b6daa9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:25 +0000
Subject: [PATCH 20/27] fix: do not expose relationships without data after an
 interrupted call

The edge was stored before its data and the data alone decided whether a
relationship exists. A crash in between left relationships which were evaluated
and listed (as an empty record) but could not be fetched, or the reverse.
---
 internal/store/kv_store/policy_repository.go | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 620d9c4..3aab120 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -107,11 +107,8 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 		return false, fmt.Errorf("kvstore: has relationship: %w", err)
 	}
 
-	err = relationshipStore.Set(&relationship)
-	if err != nil {
-		return false, fmt.Errorf("kvstore: set relationship: %w", err)
-	}
-
+	// the data is stored first since a relationship exists from the moment its edge
+	// does: an interrupted call must not leave a relationship without its data
 	data := RelationshipData{
 		RelationshipId: r.relationshipIDer.Id(&relationship),
 		AppData:        record.AppData,
@@ -122,6 +119,11 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 		return false, fmt.Errorf("kvstore: set relationship appdata: %w", err)
 	}
 
+	err = relationshipStore.Set(&relationship)
+	if err != nil {
+		return false, fmt.Errorf("kvstore: set relationship: %w", err)
+	}
+
 	return updated, nil
 }
 
@@ -174,9 +176,20 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 }
 
 func (r *policyRepository) GetRelationship(ctx context.Context, policyId string, relationship *domain.Relationship) (*domain.RelationshipRecord, error) {
+	relationshipStore := r.kvStore.getRelationshipStore(policyId)
 	relationshipDataStore := r.kvStore.getRelationshipDataStore(policyId)
 
 	internalRelationship := r.mapper.ToInternal(relationship)
+
+	// data without an edge is left over from an interrupted call
+	edge, err := relationshipStore.Get(internalRelationship.GetSource(), internalRelationship.GetDest())
+	if err != nil {
+		return nil, err
+	}
+	if edge.IsEmpty() {
+		return nil, nil
+	}
+
 	id := r.relationshipIDer.Id(&internalRelationship)
 	dataOpt, err := relationshipDataStore.GetObject(id)
 	if err != nil {
-- 
2.43.0


From c46292e85a03d51f2517970503309cedc2f8f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:46 +0000
Subject: [PATCH 21/27] fix: list relationships whose edge was only partly
 written

A crash between the two writes of an edge left a relationship which grants
access but is not listed: deleting its policy did not delete it and a policy
created later under the same id inherited the grant.
---
 internal/store/kv_store/kv_store.go          | 38 ++++++++++++++++++++
 internal/store/kv_store/node_repository.go   |  4 +--
 internal/store/kv_store/policy_repository.go |  4 +--
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index f6b13ef..ea4604b 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -76,6 +76,44 @@ func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Rela
 	return rcdb.NewRaccoonStore(schema)
 }
 
+// listRelationships returns all relationships of a Policy.
+//
+// Edges are stored under two keys, one of which is missing if a call to set or delete was interrupted.
+// The store's List method only goes through one of the two, while single edges are looked up by the other:
+// all keys are visited such that every relationship which can be looked up is also listed.
+func (kv *KVStore) listRelationships(policyId string) ([]*Relationship, error) {
+	factory := func() *Relationship { return &Relationship{} }
+	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
+	keyer := relationNodeKeyer{}
+	ider := rcdb.IderFromNodeKeyer[*Relationship, *RelationNode](&keyer)
+
+	prefix := rcdb.Key{}.Append(policyPrefix(policyId), nil).ToBytes()
+	start := rcdb.Key{}.Append(relationshipStorePrefix, prefix).ToBytes()
+	end := append([]byte{}, start...)
+	end[len(end)-1]++
+
+	iter := kv.baseKV.Iterator(start, end)
+	defer iter.Close()
+
+	var relationships []*Relationship
+	seen := make(map[string]struct{})
+	for ; iter.Valid(); iter.Next() {
+		relationship, err := marshaler.Unmarshal(iter.Value())
+		if err != nil {
+			return nil, err
+		}
+
+		id := string(ider.Id(relationship))
+		if _, ok := seen[id]; ok {
+			continue
+		}
+		seen[id] = struct{}{}
+		relationships = append(relationships, relationship)
+	}
+
+	return relationships, iter.Error()
+}
+
 func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*RelationshipData] {
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
diff --git a/internal/store/kv_store/node_repository.go b/internal/store/kv_store/node_repository.go
index 53538ac..726b069 100644
--- a/internal/store/kv_store/node_repository.go
+++ b/internal/store/kv_store/node_repository.go
@@ -44,9 +44,7 @@ func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node
 }
 
 func (r *nodeRepository) ListEdges(ctx context.Context, policyId string) ([]types.Pair[*domain.RelationNode, *domain.RelationNode], error) {
-	store := r.kvStore.getRelationshipStore(policyId)
-
-	relationships, err := store.List()
+	relationships, err := r.kvStore.listRelationships(policyId)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 3aab120..a3b7bab 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -155,9 +155,7 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 }
 
 func (r *policyRepository) FindRelationships(ctx context.Context, policyId string, selector *domain.RelationshipSelector) ([]*domain.Relationship, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(policyId)
-
-	rels, err := relationshipStore.List()
+	rels, err := r.kvStore.listRelationships(policyId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 03c66025b1cc8a1789d19a97b0667e584099eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:53 +0000
Subject: [PATCH 22/27] fix: delete the relationships of a policy before the
 policy

Interrupted after the policy was deleted, the call left relationships no request
could reach, and a policy created later under the same id inherited them.
---
 internal/policy/service.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index 6040d8b..5fa4664 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -103,24 +103,31 @@ func (s *Service) DeletePolicy(
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
 	repo := s.getPolicyRepository()
 
-	// TODO wrap in Tx
-	found, err := repo.DeletePolicy(ctx, req.Id)
+	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
+	if record == nil {
 		return &api.DeletePolicyResponse{
 			Found:                false,
 			RelationshipsRemoved: 0,
 		}, nil
 	}
 
+	// TODO wrap in Tx
+	// the policy is deleted last: if interrupted, the remaining relationships
+	// still belong to a policy and the call may be repeated.
 	selector := allRelationshipsSelector()
 	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
 
+	_, err = repo.DeletePolicy(ctx, req.Id)
+	if err != nil {
+		return nil, fmt.Errorf("failed to delete policy: %w", err)
+	}
+
 	return &api.DeletePolicyResponse{
 		Found:                true,
 		RelationshipsRemoved: count,
-- 
2.43.0


From cbb915e7b960b322da0575f22f92954f6f98e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 23/27] fix: state the format of an explained check

---
 internal/relation_graph/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index ab6bf25..04540f3 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -141,6 +141,7 @@ func (s *Service) ExplainCheck(
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
 		Authorized: found,
+		Format:     req.Format,
 	}, nil
 }
 
-- 
2.43.0


From b76aa7b3138fff28641107f8fe906aa62d625555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:56 +0000
Subject: [PATCH 24/27] fix: report storage errors of relationship reads and
 writes

---
 internal/store/kv_store/kv_store.go           |  11 +-
 internal/store/kv_store/relationship_store.go | 101 ++++++++++++++++++
 2 files changed, 109 insertions(+), 3 deletions(-)
 create mode 100644 internal/store/kv_store/relationship_store.go

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index ea4604b..c1a8c8f 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -64,16 +64,21 @@ func policyPrefix(policyId string) []byte {
 	return hash[:]
 }
 
-func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
+func (kv *KVStore) getRelationshipStore(policyId string) relationshipStore {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
+	store := &errorKV{
+		KVStore: rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId)),
+	}
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
 		Marshaler: marshaler,
 	}
-	return rcdb.NewRaccoonStore(schema)
+	return relationshipStore{
+		store: rcdb.NewRaccoonStore(schema),
+		kv:    store,
+	}
 }
 
 // listRelationships returns all relationships of a Policy.
diff --git a/internal/store/kv_store/relationship_store.go b/internal/store/kv_store/relationship_store.go
new file mode 100644
index 0000000..8b3ba77
--- /dev/null
+++ b/internal/store/kv_store/relationship_store.go
@@ -0,0 +1,101 @@
+package kv_store
+
+import (
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+// relationshipStore wraps a RaccoonStore and returns the errors of the underlying KVStore,
+// which RaccoonStore discards.
+type relationshipStore struct {
+	store rcdb.RaccoonStore[*Relationship, *RelationNode]
+	kv    *errorKV
+}
+
+func (s *relationshipStore) Set(relationship *Relationship) error {
+	if err := s.store.Set(relationship); err != nil {
+		return err
+	}
+	return s.kv.err
+}
+
+func (s *relationshipStore) Get(source, dest *RelationNode) (rcdb.Option[*Relationship], error) {
+	opt, err := s.store.Get(source, dest)
+	if err != nil {
+		return opt, err
+	}
+	return opt, s.kv.err
+}
+
+func (s *relationshipStore) Delete(relationship *Relationship) error {
+	if err := s.store.Delete(relationship); err != nil {
+		return err
+	}
+	return s.kv.err
+}
+
+func (s *relationshipStore) GetSucessors(node *RelationNode) ([]*Relationship, error) {
+	sucessors, err := s.store.GetSucessors(node)
+	if err != nil {
+		return nil, err
+	}
+	return sucessors, s.kv.err
+}
+
+// errorKV is a KVStore which keeps the first error of the store it wraps.
+// After an error nothing else is written.
+type errorKV struct {
+	rcdb.KVStore
+	err error
+}
+
+func (kv *errorKV) keep(err error) error {
+	if kv.err == nil {
+		kv.err = err
+	}
+	return err
+}
+
+func (kv *errorKV) Get(key []byte) ([]byte, error) {
+	val, err := kv.KVStore.Get(key)
+	return val, kv.keep(err)
+}
+
+func (kv *errorKV) Has(key []byte) (bool, error) {
+	has, err := kv.KVStore.Has(key)
+	return has, kv.keep(err)
+}
+
+func (kv *errorKV) Set(key, value []byte) error {
+	if kv.err != nil {
+		return kv.err
+	}
+	return kv.keep(kv.KVStore.Set(key, value))
+}
+
+func (kv *errorKV) Delete(key []byte) error {
+	if kv.err != nil {
+		return kv.err
+	}
+	return kv.keep(kv.KVStore.Delete(key))
+}
+
+func (kv *errorKV) Iterator(start, end []byte) rcdb.Iterator {
+	return &errorIterator{
+		Iterator: kv.KVStore.Iterator(start, end),
+		kv:       kv,
+	}
+}
+
+// errorIterator keeps the error which ended the iteration, if any.
+type errorIterator struct {
+	rcdb.Iterator
+	kv *errorKV
+}
+
+func (i *errorIterator) Valid() bool {
+	valid := i.Iterator.Valid()
+	if !valid {
+		i.kv.keep(i.Iterator.Error())
+	}
+	return valid
+}
-- 
2.43.0


From baff77c28127110d018809d4198f941b34df9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 25/27] fix: escape ids and data of graphs in DOT

---
 pkg/types/graph.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/types/graph.go b/pkg/types/graph.go
index faa60f3..7bc94af 100644
--- a/pkg/types/graph.go
+++ b/pkg/types/graph.go
@@ -55,23 +55,21 @@ func GraphToDOT(graph *MapDiGraph) string {
 		attrs := map[string]string{
 			"label": wrap(node.Data),
 		}
-		g.AddNode("G", mapId(node.Id), attrs)
+		g.AddNode("G", wrap(node.Id), attrs)
 	}
 
 	for src, edges := range graph.ForwardEdges {
 		for dst, _ := range edges.Edges {
-			g.AddEdge(mapId(src), mapId(dst), true, nil)
+			g.AddEdge(wrap(src), wrap(dst), true, nil)
 		}
 	}
 
 	return g.String()
 }
 
-func mapId(id string) string {
-	id = strings.ReplaceAll(id, "\"", "\\\"")
-	return wrap(id)
-}
-
+// wrap returns txt as a quoted DOT string
 func wrap(txt string) string {
+	txt = strings.ReplaceAll(txt, "\\", "\\\\")
+	txt = strings.ReplaceAll(txt, "\"", "\\\"")
 	return "\"" + txt + "\""
 }
-- 
2.43.0


From cf1a04cfcc3eb453a480e14f8fdcbebbc9c27715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 26/27] fix: make calls atomic in relation to one another

Two concurrent creations of one policy both succeeded, a relationship set
while its policy was being deleted outlived the policy, and a check could
be granted by a mix of the relationships before and after a deletion.
---
 atomic.go | 106 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 zanzi.go  |  20 +++++++----
 2 files changed, 120 insertions(+), 6 deletions(-)
 create mode 100644 atomic.go

diff --git a/atomic.go b/atomic.go
new file mode 100644
index 0000000..ab35aef
--- /dev/null
+++ b/atomic.go
@@ -0,0 +1,106 @@
+package zanzi
+
+import (
+	"context"
+	"sync"
+
+	"github.com/sourcenetwork/zanzi/pkg/api"
+)
+
+// Calls span several operations of the store, which has no transactions.
+// The types in this file make calls atomic in relation to one another:
+// a call which changes the store runs alone, the others share it.
+
+type atomicPolicyService struct {
+	api.PolicyServiceServer
+	mutex *sync.RWMutex
+}
+
+type atomicRelationGraphService struct {
+	api.RelationGraphServer
+	mutex *sync.RWMutex
+}
+
+func (s *atomicPolicyService) CreatePolicy(ctx context.Context, req *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.PolicyServiceServer.CreatePolicy(ctx, req)
+}
+
+func (s *atomicPolicyService) UpdatePolicy(ctx context.Context, req *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.PolicyServiceServer.UpdatePolicy(ctx, req)
+}
+
+func (s *atomicPolicyService) DeletePolicy(ctx context.Context, req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.PolicyServiceServer.DeletePolicy(ctx, req)
+}
+
+func (s *atomicPolicyService) GetPolicy(ctx context.Context, req *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.PolicyServiceServer.GetPolicy(ctx, req)
+}
+
+func (s *atomicPolicyService) ListPolicyIds(ctx context.Context, req *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.PolicyServiceServer.ListPolicyIds(ctx, req)
+}
+
+func (s *atomicPolicyService) SetRelationship(ctx context.Context, req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.PolicyServiceServer.SetRelationship(ctx, req)
+}
+
+func (s *atomicPolicyService) DeleteRelationship(ctx context.Context, req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.PolicyServiceServer.DeleteRelationship(ctx, req)
+}
+
+func (s *atomicPolicyService) GetRelationship(ctx context.Context, req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.PolicyServiceServer.GetRelationship(ctx, req)
+}
+
+func (s *atomicPolicyService) FindRelationshipRecords(ctx context.Context, req *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.PolicyServiceServer.FindRelationshipRecords(ctx, req)
+}
+
+func (s *atomicPolicyService) DeleteRelationships(ctx context.Context, req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.PolicyServiceServer.DeleteRelationships(ctx, req)
+}
+
+func (s *atomicRelationGraphService) Check(ctx context.Context, req *api.CheckRequest) (*api.CheckResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.RelationGraphServer.Check(ctx, req)
+}
+
+func (s *atomicRelationGraphService) ExplainCheck(ctx context.Context, req *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.RelationGraphServer.ExplainCheck(ctx, req)
+}
+
+func (s *atomicRelationGraphService) Expand(ctx context.Context, req *api.ExpandRequest) (*api.ExpandResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.RelationGraphServer.Expand(ctx, req)
+}
+
+func (s *atomicRelationGraphService) DumpRelationships(ctx context.Context, req *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.RelationGraphServer.DumpRelationships(ctx, req)
+}
diff --git a/zanzi.go b/zanzi.go
index 6c0d773..11a8b9b 100644
--- a/zanzi.go
+++ b/zanzi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os/user"
 	"strings"
+	"sync"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 	"go.uber.org/zap"
@@ -153,12 +154,19 @@ type Zanzi struct {
 }
 
 func (z *Zanzi) init() {
-	z.polService = policy.NewService(z.store.GetPolicyRepository())
-	z.relGraphService = relation_graph.NewService(
-		z.store.GetRelationNodeRepository(),
-		z.store.GetPolicyRepository(),
-		z.logger,
-	)
+	mutex := &sync.RWMutex{}
+	z.polService = &atomicPolicyService{
+		PolicyServiceServer: policy.NewService(z.store.GetPolicyRepository()),
+		mutex:               mutex,
+	}
+	z.relGraphService = &atomicRelationGraphService{
+		RelationGraphServer: relation_graph.NewService(
+			z.store.GetRelationNodeRepository(),
+			z.store.GetPolicyRepository(),
+			z.logger,
+		),
+		mutex: mutex,
+	}
 }
 
 // GetRelationshipGraphService returns an implementation of the
-- 
2.43.0


From 460d16a9604c94c0a24386294349a33b6abd7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:18 +0000
Subject: [PATCH 27/27] fix: match selectors in one place, leaving their
 specification as it was

Moves the repairs of incomplete selectors and of comparison by contents out
of selector_spec.go, which is restored.
---
 internal/policy/helpers.go                   | 28 ++++++++++++++++++++
 internal/policy/selector_spec.go             | 13 +++++----
 internal/store/kv_store/policy_repository.go |  2 +-
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 913975b..0fcc15c 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -3,6 +3,8 @@ package policy
 import (
 	"fmt"
 
+	"google.golang.org/protobuf/proto"
+
 	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"
 	"github.com/sourcenetwork/zanzi/pkg/api"
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -17,6 +19,32 @@ func allRelationshipsSelector() domain.RelationshipSelector {
 	return builder.Build()
 }
 
+// NewSelectorMatcher returns the specification of the relationships which selector matches.
+// Incomplete selectors are rejected and messages are matched by their contents.
+func NewSelectorMatcher(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
+	if selector.GetObjectSelector() == nil || selector.GetRelationSelector() == nil || selector.GetSubjectSelector() == nil {
+		return RelationshipSelectorSpec{}, fmt.Errorf("incomplete selector: %w", domain.ErrInvalidVariant)
+	}
+
+	spec, err := NewSelectorSpec(selector)
+	if err != nil {
+		return spec, err
+	}
+
+	if s, ok := selector.ObjectSelector.Selector.(*domain.ObjectSelector_ObjectSpec); ok {
+		spec.objectPredicate = func(r *domain.Relationship) bool {
+			return proto.Equal(s.ObjectSpec, r.Object)
+		}
+	}
+	if s, ok := selector.SubjectSelector.Selector.(*domain.SubjectSelector_SubjectSpec); ok {
+		spec.subjectPredicate = func(r *domain.Relationship) bool {
+			return proto.Equal(s.SubjectSpec, r.Subject)
+		}
+	}
+
+	return spec, nil
+}
+
 func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, error) {
 	var tree *domain.RelationExpressionTree
 	var err error
diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 3bad792..a9b4378 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,8 +2,7 @@ package policy
 
 import (
 	"fmt"
-
-	"google.golang.org/protobuf/proto"
+	"reflect"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -20,7 +19,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
+	switch objectSelector := selector.ObjectSelector.Selector.(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +30,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
+	switch relationSelector := selector.RelationSelector.Selector.(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +39,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
+	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
@@ -60,7 +59,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(entity, r.Object)
+		return reflect.DeepEqual(entity, r.Object)
 	}
 }
 
@@ -90,7 +89,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(r.Subject, subject)
+		return reflect.DeepEqual(r.Subject, subject)
 	}
 }
 
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index a3b7bab..60ac6f1 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -160,7 +160,7 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorMatcher(selector)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

