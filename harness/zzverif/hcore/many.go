package hcore

import (
	"context"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// A01Many asks for many controllers and directives.
//
//verif:prop A01
//verif:bounds 5 controllers and 5 directives, of which any 2 each are removed in any order
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func A01Many() {
	b := hu.NewBus()
	a := bus_api.NewAPI(b, nil)
	ids := []string{"c0", "c1", "c2", "c3", "c4"}
	var relc []func()
	var refs []directive.Reference
	for i, id := range ids {
		rel, _ := b.AddController(context.Background(), hu.NewCtrl(id), nil)
		relc = append(relc, rel)
		_, ref, _ := b.AddDirective(&dbgDir{PlainDir: hu.PlainDir{ID: i}, vals: directive.DebugValues{"id": []string{id}}}, nil)
		refs = append(refs, ref)
	}
	sym.Quiesce()
	x := sym.Choose("remove 1", 5)
	y := (x + 1 + sym.Choose("remove 2", 4)) % 5
	cs, ds := map[string]int{}, map[string]int{}
	for i, id := range ids {
		cs[id] = sym.IteInt(i == x || i == y, 0, 1)
		ds[id] = cs[id]
	}
	relc[x]()
	refs[y].Release()
	sym.Quiesce()
	relc[y]()
	refs[x].Release()
	sym.Quiesce()
	resp, err := a.GetBusInfo(context.Background(), &bus_api.GetBusInfoRequest{})
	sym.Assert(err == nil, "the information is returned")
	for _, c := range resp.GetRunningControllers() {
		cs[c.GetId()]--
	}
	for _, d := range resp.GetRunningDirectives() {
		v := d.GetInfo().GetDebugVals()
		sym.Assert(len(v) == 1 && len(v[0].GetValues()) == 1, "every debug value is reported")
		ds[v[0].GetValues()[0]]--
	}
	for _, id := range ids {
		sym.Assert(cs[id] == 0, "exactly the controllers of the bus are reported")
		sym.Assert(ds[id] == 0, "exactly the directives of the bus are reported")
	}
	sym.Cover("end")
}
