package hconf

import (
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cproto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

var keys = []string{"a", "b"}

// entry is the expected entry of a key.
type entry struct {
	set bool
	rev uint64
	n   int
}

// C03Merge merges sets of configurations.
//
//verif:prop C03
//verif:bounds 3 sets with 2 keys, each missing, nil or with an arbitrary 64 bit revision; the generic, protobuf set and protobuf map functions, the last one with a non-empty output
//verif:quick preempt=0 merge=0
func C03Merge() {
	how := sym.Choose("how", 3)
	const n = 3
	var sets []configset.ConfigSet
	var maps []cproto.ConfigSetMap
	var want [2]entry
	for i := 0; i < n; i++ {
		cs, pm := configset.ConfigSet{}, cproto.ConfigSetMap{}
		if sym.Choose("missing set", 2) == 1 {
			cs, pm = nil, nil
		} else {
			for j, k := range keys {
				switch sym.Choose("kind", 3) {
				case 1:
					cs[k], pm[k] = nil, nil
				case 2:
					rev := sym.Uint64("rev")
					cs[k] = configset.NewControllerConfig(rev, &hu.Conf{ID: "c", N: i})
					pm[k] = &cproto.ControllerConfig{Id: "c", Rev: rev, Config: []byte{byte(i)}}
					if !want[j].set || rev >= want[j].rev {
						want[j] = entry{true, rev, i}
					}
				}
			}
		}
		sets, maps = append(sets, cs), append(maps, pm)
	}
	got := map[string]entry{}
	if how == 0 {
		for k, v := range configset.MergeConfigSets(sets...) {
			sym.Assert(v != nil, "no empty configuration is merged")
			got[k] = entry{true, v.GetRev(), v.GetConfig().(*hu.Conf).N}
		}
	} else {
		var out cproto.ConfigSetMap
		if how == 1 {
			var ps []*cproto.ConfigSet
			for _, m := range maps {
				var s *cproto.ConfigSet
				if m != nil {
					s = &cproto.ConfigSet{Configs: m}
				}
				ps = append(ps, s)
			}
			out = cproto.MergeConfigSets(ps...).GetConfigs()
		} else {
			out = maps[0]
			had := map[string]bool{}
			for k, v := range out {
				had[k] = v == nil
			}
			cproto.MergeConfigSetMaps(out, maps[1:]...)
			if out == nil {
				sym.Cover("no output")
				return
			}
			for k, v := range out {
				if v == nil {
					sym.Assert(had[k], "no empty configuration is merged")
					delete(out, k)
				}
			}
		}
		for k, v := range out {
			sym.Assert(v != nil, "no empty configuration is merged")
			got[k] = entry{true, v.GetRev(), int(v.GetConfig()[0])}
		}
	}
	for j, k := range keys {
		sym.Assert(got[k] == want[j], "a key has the last configuration with the highest revision of it")
	}
	sym.Cover("merged")
}

// C03Equal compares sets of configurations.
//
//verif:prop C03
//verif:bounds 2 sets with 2 keys each, missing or with an arbitrary 64 bit revision and one of 2 configurations of 2 ids, nil sets
//verif:quick preempt=0 merge=0
func C03Equal() {
	var sets [2]configset.ConfigSet
	var es [2][2]entry
	for i := range sets {
		if sym.Choose("nil", 3) == 0 {
			continue
		}
		sets[i] = configset.ConfigSet{}
		for j, k := range keys {
			if sym.Bool("has") {
				n := sym.Choose("config", 3)
				rev := sym.Uint64("rev")
				es[i][j] = entry{true, rev, n}
				sets[i][k] = configset.NewControllerConfig(rev, &hu.Conf{ID: []string{"c", "c", "d"}[n], N: []int{0, 1, 0}[n]})
			}
		}
	}
	want := sets[0] != nil && sets[1] != nil && es[0] == es[1]
	sym.Assert(sets[0].Equal(sets[1]) == want, "sets are equal exactly if they have the same keys, revisions and configurations")
	sym.Assert(sets[1].Equal(sets[0]) == want, "the comparison is symmetric")
	if want {
		sym.Cover("equal")
	} else {
		sym.Cover("different")
	}
}
