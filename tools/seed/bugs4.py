bug("c25-unbalanced-early", "C25",
 [("internal/relation_expression_parser/parser.go", "	tokens := utils.ConsumeChan(tokenChan)\n",
   """	var tokens []token
	depth := 0
	for t := range tokenChan {
		switch t.Type {
		case tokenGroupBegin:
			depth++
		case tokenGroupEnd:
			depth--
		}
		if depth < 0 {
			return nil, fmt.Errorf("error parsing expression %v: unbalanced parenthesis at %v", expression, t.StartPos)
		}
		tokens = append(tokens, t)
	}
"""),
  ("internal/relation_expression_parser/parser.go", '	"github.com/sourcenetwork/zanzi/internal/utils"\n', "")],
 "an expression with a parenthesis too many, followed by more tokens than the lexer's channel holds",
 "the policy is refused, and the lexer's goroutine waits forever to send the rest",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	n := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: "_this)` + strings.Repeat(" + _this", 10) + `", types: ["*"]}
`)})
		want(t, err != nil, "an unbalanced expression is accepted")
	}
	for i := 0; i < 40 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	want(t, runtime.NumGoroutine() <= n, "goroutines are left behind")
}''', '"runtime"\n"time"')

bug("c25-right-side-abandoned", "C25",
 [("internal/relation_graph/searcher.go", "	leftTree, err := s.search(ctx, policy, tree.Left, goal)\n	if err != nil {\n		return nil, err\n	}\n\n	rightTree, err := s.search(ctx, policy, tree.Right, goal)\n	if err != nil {\n		return nil, err\n	}\n\n	found := leftTree",
   """	// the two sides do not depend on each other: they are searched at the same time
	other := &Searcher{builder: s.builder, logger: s.logger, seenNodes: make(map[string]struct{})}
	for id := range s.seenNodes {
		other.seenNodes[id] = struct{}{}
	}
	right := make(chan GoalTree)
	failed := make(chan error)
	go func() {
		tree, err := other.search(ctx, policy, tree.Right, goal)
		if err != nil {
			failed <- err
			return
		}
		right <- tree
	}()

	leftTree, err := s.search(ctx, policy, tree.Left, goal)
	if err != nil {
		return nil, err
	}

	var rightTree GoalTree
	select {
	case rightTree = <-right:
	case err := <-failed:
		return nil, err
	}

	found := leftTree""")],
 "a check through a difference during which the storage fails on the left side only",
 "the search of the right side is never received: its goroutine waits forever",
 '''
// dead fails while it is switched on, from the n-th operation
type dead struct {
	rcdb.KVStore
	on bool
	mu sync.Mutex
	n  int
}

func (f *dead) fails() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n--
	return f.on && f.n < 0
}

func (f *dead) Get(k []byte) ([]byte, error) {
	if f.fails() {
		return nil, errors.New("dead")
	}
	return f.KVStore.Get(k)
}

func (f *dead) Iterator(a, b []byte) rcdb.Iterator {
	if f.fails() {
		return &deadIter{f.KVStore.Iterator(a, b)}
	}
	return f.KVStore.Iterator(a, b)
}

type deadIter struct{ rcdb.Iterator }

func (f *deadIter) Valid() bool  { return false }
func (f *deadIter) Error() error { return errors.New("dead") }

func TestDemo(t *testing.T) {
	kv := &dead{KVStore: rcdb.NewMemKV()}
	z := open(t, kv)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: _this - b, types: ["*"]}
			b: {expr: _this, types: ["*"]}
`)
	z.set("f:1#a", "f:2#b")
	z.set("f:2#b", "u:x")
	z.set("f:1#b", "u:y")
	n := runtime.NumGoroutine()
	kv.on = true
	for i := 0; i < 10; i++ {
		kv.n = i
		z.gr.Check(ctx, &api.CheckRequest{PolicyId: "p", AccessRequest: access("f:1#a", "u:x")})
	}
	for i := 0; i < 40 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	want(t, runtime.NumGoroutine() <= n, "goroutines are left behind")
}''', '"runtime"\n"sync"\n"time"')

EXPLAIN = '''
func explain(z *zz, o, s string) string {
	z.t.Helper()
	resp, err := z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: access(o, s), Format: api.ExplainFormat_JSON})
	want(z.t, err == nil, "explain fails")
	return resp.GoalTree
}
'''
bug("c26-failing-branch-unknown", "C26",
 [("internal/relation_graph/searcher.go", "	for _, node := range paths {\n		node.SetParent(and)\n	}\n	return and, nil",
   "	if !foundAll && goal.Target != nil {\n		// what was not needed for the result is not kept\n		copy(paths, tree.Paths)\n	}\n	for _, node := range paths {\n		node.SetParent(and)\n	}\n	return and, nil")],
 "an explained check which an intersection denies",
 "the explanation shows both branches as undecided and does not show which one failed",
 EXPLAIN + '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: b & c, types: ["*"]}
			b: {expr: _this, types: ["*"]}
			c: {expr: _this, types: ["*"]}
`)
	z.set("f:1#b", "u:x")
	want(t, strings.Contains(explain(z, "f:1#a", "u:x"), "SUCCESS"), "the branch which succeeded is not shown")
}''')

bug("c26-left-of-difference-twice", "C26",
 [("internal/relation_graph/goal_tree_serializer.go", "	err = s.handleGoalTree(id, node.Right, graph)\n	if err != nil {\n		return err\n	}\n\n	return nil",
   "	right := node.Right\n	if node.Result == SearchResult_FAILURE && node.Left.GetResult() == SearchResult_FAILURE {\n		// the left side decided\n		right = nil\n	}\n	err = s.handleGoalTree(id, right, graph)\n	if err != nil {\n		return err\n	}\n\n	return nil")],
 "a DOT explanation through a difference whose left side fails",
 "the right side is left out of the explanation",
 '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: b - c, types: ["*"]}
			b: {expr: _this, types: ["*"]}
			c: {expr: _this, types: ["*"]}
`)
	z.set("f:1#c", "u:banned")
	resp, err := z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: access("f:1#a", "u:x"), Format: api.ExplainFormat_DOT})
	want(t, err == nil, "explain fails")
	want(t, strings.Contains(resp.GoalTree, "Computed Userset: c"), "the right side of the difference is missing")
}''')

bug("c26-shared-reason", "C26",
 [("internal/relation_graph/goal_tree.go", '		reason = fmt.Sprintf("Rule Tuple To Userset: %v %v", ruleType.Ttu.TuplesetRelation, ruleType.Ttu.ComputedUsersetRelation)\n',
   '		reason = fmt.Sprintf("Rule Tuple To Userset: %v %v", ruleType.Ttu.ComputedUsersetRelation, ruleType.Ttu.TuplesetRelation)\n')],
 "an explanation through a tuple-to-userset rule",
 "the explanation names the two relations of the rule in each other's place",
 EXPLAIN + '''
func TestDemo(t *testing.T) {
	z := fresh(t)
	z.create(`id: p
name: p
resources:
	u:
	f:
		relations:
			a: {expr: parent->b, types: ["*"]}
			b: {expr: _this, types: ["*"]}
			parent: {expr: _this, types: ["*"]}
`)
	z.set("f:1#parent", "f:2")
	want(t, strings.Contains(explain(z, "f:1#a", "u:x"), "parent b"), "the rule is not named as it stands in the policy")
}''')
