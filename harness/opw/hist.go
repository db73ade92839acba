package opw

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
)

var selectors = []M{
	{"matchLabels": M{"app": "web"}},
	{"matchExpressions": L{M{"key": "app", "operator": "In", "values": L{"web", "db"}}}},
	{"matchExpressions": L{M{"key": "app", "operator": "Exists"}}},
	{"matchLabels": M{"app": "web"}, "matchExpressions": L{M{"key": "never", "operator": "DoesNotExist"}}},
}

// Draw draws controllers: each one reads base views and results of earlier ones.
func Draw(c *hx.Case) (ks []Ctl, labelled map[string]bool, listMaps bool) {
	listMaps = gen.Bool(c.T, "listmaps")
	labelled = map[string]bool{}
	ops := []string{"test", "aux"}[:gen.Int(c.T, 1, 2, "nops")]
	type view struct{ op, kind string }
	avail := []view{{"test", "Alpha"}, {"test", "Beta"}, {"test", "Gamma"}}
	n := gen.Pick(c.T, "nctl", 2, 3, 1)
	for i := 0; i < n; i++ {
		k := Ctl{Op: gen.Pick(c.T, "op", ops...), Name: fmt.Sprintf("ctl%d", i), Target: fmt.Sprintf("T%d", i)}
		m := gen.Int(c.T, 1, 2, "nsrc")
		if i == 0 && gen.Prob(c.T, 4, "three") {
			m = 3
		}
		if i > 0 {
			// chains are what we are after
			m = 1 + gen.Int(c.T, 0, 1, "more")
		}
		seen := map[view]bool{}
		for j := 0; j < m; j++ {
			v := avail[gen.Int(c.T, 0, len(avail)-1, "view")]
			if j == 0 && i > 0 && gen.Prob(c.T, 11, "chain") {
				v = avail[len(avail)-1]
			}
			if seen[v] {
				continue
			}
			seen[v] = true
			s := Src{Op: v.op, Kind: v.kind}
			if gen.Prob(c.T, 3, "nsfilter") {
				s.Namespace = gen.Pick(c.T, "ns", "default", "other")
			}
			if !strings.HasPrefix(v.kind, "T") && gen.Prob(c.T, 4, "selfilter") {
				s.Selector = selectors[gen.Int(c.T, 0, len(selectors)-1, "sel")]
				labelled[v.kind] = true
			}
			s.Always = gen.Prob(c.T, 2, "always")
			k.Src = append(k.Src, s)
		}
		kinds := []string{}
		for _, s := range k.Src {
			kinds = append(kinds, s.Kind)
		}
		k.Pipe = gen.DrawPipe(c.T, gen.PipeConf{Kinds: kinds, ListMaps: &listMaps, Collide: i == n-1})
		ks = append(ks, k)
		if !k.Pipe.Gathered && !k.Pipe.Unwound && !k.Pipe.Collides {
			avail = append(avail, view{k.Op, k.Target})
		}
		c.Step("%s", k)
	}
	return ks, labelled, listMaps
}

// Change is a change of a base view.
type Change struct {
	Del   bool
	Obj   M
	Pause time.Duration
}

func (x Change) String() string {
	if x.Del {
		return fmt.Sprintf("delete %s %s (then %s)", x.Obj["kind"], ref.Canon(x.Obj["metadata"]), x.Pause)
	}
	return fmt.Sprintf("put %s (then %s)", ref.Canon(x.Obj), x.Pause)
}

// History draws changes; objects of labelled views never leave the selection while they live.
func History(c *hx.Case, w *gen.World, labelled map[string]bool, n int) []Change {
	r := []Change{}
	for i := 0; i < n; i++ {
		old := map[string]M{}
		for _, k := range w.Kinds {
			for key, o := range w.Objs[k] {
				old[k+"|"+key] = ref.CopyMap(o)
			}
		}
		e := w.Draw(c.T, false)
		x := Change{Del: e.Type == object.Deleted, Obj: e.Object}
		x.Pause = time.Duration(gen.Pick(c.T, "pause", 0, 0, 0, 0, 100, 1000, 3000)) * time.Microsecond
		if !x.Del && labelled[e.Kind] {
			meta := x.Obj["metadata"].(M)
			lab, _ := meta["labels"].(M)
			app := func(m M) any { l, _ := m["metadata"].(M)["labels"].(M); return l["app"] }
			if o, ok := old[e.Kind+"|"+e.Key]; ok && app(o) == "web" {
				if lab == nil {
					lab = M{}
				}
				lab["app"] = "web"
			} else if lab["app"] != nil {
				lab["app"] = "web"
			}
			if len(lab) > 0 {
				meta["labels"] = lab
			}
			w.Objs[e.Kind][e.Key] = ref.CopyMap(x.Obj)
		}
		if lab, ok := x.Obj["metadata"].(M)["labels"].(M); ok && len(lab) == 0 {
			delete(x.Obj["metadata"].(M), "labels")
			if !x.Del {
				delete(w.Objs[e.Kind][e.Key]["metadata"].(M), "labels")
			}
		}
		r = append(r, x)
	}
	return r
}

// Play applies the changes from several goroutines: changes of one object stay in order.
func (w *World) Play(xs []Change, writers int) string {
	parts := make([][]Change, writers)
	for _, x := range xs {
		meta := x.Obj["metadata"].(M)
		h := 0
		for _, r := range fmt.Sprint(x.Obj["kind"], meta["namespace"], meta["name"]) {
			h = h*31 + int(r)
		}
		i := ((h % writers) + writers) % writers
		parts[i] = append(parts[i], x)
	}
	var wg sync.WaitGroup
	errs := make([]string, writers)
	for i := range parts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, x := range parts[i] {
				var err error
				if x.Del {
					err = w.Del(x.Obj)
				} else {
					err = w.Put(x.Obj)
				}
				if err != nil {
					errs[i] = fmt.Sprintf("%s: %v", x, err)
					return
				}
				if x.Pause > 0 {
					time.Sleep(x.Pause)
				}
			}
		}()
	}
	wg.Wait()
	return strings.Join(errs, "")
}
