package zzharness

import (
	"errors"
	"os"
	"strings"

	rcdb "github.com/sourcenetwork/raccoondb"

	"github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/types"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func list[T any](x ...T) []T { return x }

type countLogger struct{ n int }

func (l *countLogger) Errorf(msg string, args ...any) { l.n++ }
func (l *countLogger) Warnf(msg string, args ...any)  { l.n++ }
func (l *countLogger) Infof(msg string, args ...any)  { l.n++ }
func (l *countLogger) Debugf(msg string, args ...any) { l.n++ }

// configured is an instance made from up to max options; store says which of the given storages it uses, -1 for one
// of its own.
func configured(n string, max int, kvs []*kvStore) (z *sys, store int) {
	opts := list(zanzi.WithDefaultLogger())[:0]
	store = -1
	var own types.Logger // the logger to expect, nil if it is not one of ours
	noop, fails := false, false
	count := pick(n+".n", max+1)
	for i := 0; i < count; i++ {
		k := pick(n+".o"+string(rune('0'+i)), 9)
		if !fails {
			if k >= 3 && k <= 7 {
				own, noop = nil, false
			}
			if k < 4 {
				store = -1
			}
		}
		switch k {
		case 0, 1:
			opts = append(opts, zanzi.WithKVStore(kvs[k]))
			store = k
		case 2:
			opts = append(opts, zanzi.WithMemKVStore())
		case 3:
			opts = append(opts, zanzi.WithDevelopmentConfig())
		case 4:
			opts = append(opts, zanzi.WithDefaultLogger())
		case 5:
			opts = append(opts, zanzi.WithDevelopmentLogger())
		case 6:
			opts = append(opts, zanzi.WithoutLogger(&countLogger{}))
			noop = true
		case 7:
			l := &countLogger{}
			opts = append(opts, zanzi.WithLogger(l))
			own = l
		default:
			opts = append(opts, func(*zanzi.Zanzi) error { return errors.New("option failed") })
			fails = true
		}
	}
	x, err := zanzi.New(opts...)
	vx.Assert((err != nil) == fails, "an instance is made exactly if all its options succeed")
	if err != nil {
		vx.Reach("failed")
		return nil, -1
	}
	vx.Assert(x.GetLogger() != nil, "an instance has no logger")
	_, isNoop := x.GetLogger().(*types.NoopLogger)
	vx.Assert(isNoop == noop, "logging is off exactly if that was asked for last")
	if own != nil {
		vx.Assert(x.GetLogger() == own, "the logger given last is not the one used")
	}
	vx.Reach("made")
	return &sys{pol: x.GetPolicyService(), gr: x.GetRelationGraphService()}, store
}

// did makes one call on policy p and says whether it was carried out.
func (z *sys) did(op int, r rel, n string) bool {
	_, _, resp := z.step(op, r, "_this + b", n)
	return resp != nil
}

func (z *sys) has() bool {
	resp, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	return err == nil && resp.Record != nil
}

// Instances: instances made from any options keep their data where the options say, and share it exactly if they share
// the storage.
func Instances() {
	kvs := []*kvStore{newKV(), newKV()}
	a, sa := configured("a", vx.Param("options", 2, 3), kvs)
	if a == nil {
		return
	}
	b, sb := configured("b", 1, kvs)
	if b == nil {
		return
	}
	shared := sa >= 0 && sa == sb
	r := rel{"r", "1", "a", subj{sEntity, "u", "x", ""}}
	vx.Assert(a.did(3, r, "1"), "a policy is not created")
	vx.Assert(b.has() == shared, "a policy is found exactly in the storage it was created in")
	vx.Assert(b.did(3, r, "3") == !shared, "a policy is created exactly if the storage has none of that id")
	vx.Assert(a.did(0, r, "4"), "a permitted relationship is rejected")
	ok, err := b.check("p", "r", "1", "a", "u", "x")
	vx.Assert(err == nil && ok == shared, "a relationship is found exactly in the storage it was set in")
	ok, err = a.check("p", "r", "1", "a", "u", "x")
	vx.Assert(err == nil && ok, "a relationship is not found in the storage it was set in")
	vx.Assert(b.did(5, r, "5"), "a policy is not deleted")
	vx.Assert(a.has() == !shared, "a policy is found in a storage where it was deleted, or not found in another")
	ok, err = a.check("p", "r", "1", "a", "u", "x")
	if shared {
		vx.Assert(err != nil, "a check on a policy which another instance deleted is answered")
	} else {
		vx.Assert(err == nil && ok, "a relationship is gone because another instance deleted its own policy")
	}
	for i, kv := range kvs {
		used := sa == i || sb == i
		vx.Assert(kv.writes > 0 == used, "a storage is written exactly if it was given last")
	}
	if shared {
		vx.Reach("shared")
	} else {
		vx.Reach("apart")
	}
}

// ---- storage in a directory ----

// scratch is a directory for this run and what removes it. In the encoding there is no file system: scratchModel and
// what follows stand for it.
func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "zanzi-replay")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(d+"/file", nil, 0o600); err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// used says whether there is a storage in the directory.
func used(dir string) bool {
	es, err := os.ReadDir(dir)
	return err == nil && len(es) > 0
}

var opened []string

func scratchModel() (string, func()) {
	opened = nil
	return "/scratch", func() {}
}

func usedModel(dir string) bool {
	for _, d := range opened {
		if d == dir {
			return true
		}
	}
	return false
}

func levelDBModel(path, file string) (rcdb.KVStore, error) {
	if usedModel(path) || strings.HasPrefix(path, "/scratch/file/") {
		return nil, errors.New("no such storage")
	}
	opened = append(opened, path)
	return newKV(), nil
}

// Directories: an instance keeps its data in the directory it was given, which no other instance can use at the same
// time, and is not made if that directory cannot be used.
func Directories() {
	dir, clean := scratch()
	defer clean()
	var zs [2]*sys
	var paths [2]string
	for i := range zs {
		n := string(rune('0' + i))
		paths[i] = dir + "/" + vx.StringOf("path"+n, 1, vx.Param("len", 2, 3), "a~")
		bad := vx.Bool("bad" + n)
		if bad {
			paths[i] = dir + "/file/x"
		}
		opts := list(zanzi.WithDefaultKVStore(paths[i]))
		if vx.Bool("log" + n) {
			opts = append(opts, zanzi.WithoutLogger(nil))
		}
		if vx.Bool("mem" + n) {
			opts = append(list(zanzi.WithMemKVStore()), opts...)
		}
		x, err := zanzi.New(opts...)
		if bad || i == 1 && paths[0] == paths[1] {
			vx.Assert(err != nil, "an instance is made whose storage cannot be used")
			vx.Reach("refused")
			return
		}
		vx.Assert(err == nil, "an instance is not made in a new directory")
		vx.Assert(used(paths[i]), "an instance does not keep its data in the directory it was given")
		zs[i] = &sys{pol: x.GetPolicyService(), gr: x.GetRelationGraphService()}
	}
	r := rel{"r", "1", "a", subj{sEntity, "u", "x", ""}}
	vx.Assert(zs[0].did(3, r, "1"), "a policy is not created")
	vx.Assert(!zs[1].has(), "a policy is found in another directory")
	vx.Assert(zs[1].did(3, r, "2"), "a policy is not created")
	vx.Assert(zs[0].did(0, r, "3"), "a permitted relationship is rejected")
	ok, err := zs[1].check("p", "r", "1", "a", "u", "x")
	vx.Assert(err == nil && !ok, "a relationship is found in another directory")
	ok, err = zs[0].check("p", "r", "1", "a", "u", "x")
	vx.Assert(err == nil && ok, "a relationship is not found in the directory it was set in")
	vx.Reach("made")
}
