package hconf

import (
	"bytes"
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cjson "github.com/aperturerobotics/controllerbus/controller/configset/json"
	cproto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	pfs "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// X02Data marshals a configuration with arbitrary data to JSON and back.
//
//verif:prop X02
//verif:bounds data of up to 4 tokens (braces, a field, a space, a number, invalid UTF-8) and an arbitrary 64 bit revision for validation; the same with 3 revisions for JSON
//verif:quick preempt=0 merge=0
func X02Data() {
	toks := []string{"{", "}", `"a":{"b":1}`, " ", "1", "\xff"}
	var data []byte
	for i, n := 0, sym.Choose("tokens", 5); i < n; i++ {
		data = append(data, toks[sym.Choose("token", len(toks))]...)
	}
	c := &cproto.ControllerConfig{Id: "x", Rev: []uint64{0, 3, 1<<64 - 1}[sym.Choose("rev", 3)], Config: data}
	if sym.Bool("no id") {
		c.Id = ""
		sym.Assert(c.Validate() != nil, "a configuration needs an id")
	}
	valid := c.Validate() == nil
	b, err := c.MarshalJSON()
	if err != nil {
		sym.Assert(!valid, "a valid configuration is marshaled")
		sym.Cover("refused")
		return
	}
	d := &cproto.ControllerConfig{}
	err = d.UnmarshalJSON(b)
	sym.Assert(err == nil && d.Id == c.Id && d.Rev == c.Rev && bytes.Equal(c.Config, d.Config), "the configuration is the same after marshaling it")
	sym.Assert(d.Validate() == nil == valid, "the configuration is as valid after marshaling it")
	sym.Cover("same")
}

// newConfBus constructs a bus which constructs configurations.
func newConfBus() bus.Bus {
	b := hu.NewBus()
	rc := resolver.NewController(hu.Le(), b, static.NewResolver(pfs.NewFactory(b), hu.NewFac("c", 1)))
	_, err := b.AddController(context.Background(), rc, nil)
	sym.Assert(err == nil, "the controller is added")
	return b
}

// mkConf constructs a configuration.
func mkConf(json bool) config.Config {
	switch sym.Choose("conf", 2) {
	case 0:
		c := &pfs.Config{Watch: sym.Bool("watch")}
		if json {
			c.Dir = text("dir")
		} else {
			c.Dir = sym.StringN("dir", sym.Choose("dir length", 3))
		}
		return c
	default:
		// one byte of data: { is data in JSON format
		return &hu.Conf{ID: "c", N: int(sym.Byte("n"))}
	}
}

// X02Proto converts a set to a protobuf message and back.
//
//verif:prop X02
//verif:bounds sets of up to 2 configurations of 2 types with an arbitrary byte or strings of up to 2 arbitrary bytes (5 strings for JSON), an arbitrary 64 bit revision; protobuf and JSON formats
//verif:quick preempt=0 merge=0
func X02Proto() {
	b := newConfBus()
	json := sym.Bool("json")
	cs := configset.ConfigSet{}
	n := sym.Choose("n", 3)
	if n > 0 {
		cs["a"] = configset.NewControllerConfig(sym.Uint64("rev"), mkConf(json))
	}
	if n > 1 {
		cs["b"] = configset.NewControllerConfig(2, &hu.Conf{ID: "c", N: int(sym.Byte("n"))})
	}
	apply := sym.Bool("apply")
	var p *cproto.ConfigSet
	if apply {
		m := cproto.ConfigSetMap{}
		for k, c := range cs {
			cc, err := m.ApplyConfig(k, c.GetConfig(), c.GetRev(), json)
			sym.Assert(err == nil && m[k] == cc, "the configuration is applied")
		}
		p = &cproto.ConfigSet{Configs: m}
	} else {
		var err error
		p, err = cproto.NewConfigSet(cs, json)
		sym.Assert(err == nil, "the set is converted")
	}
	q := &cproto.ConfigSet{}
	data, err := p.MarshalVT()
	sym.Assert(err == nil && q.UnmarshalVT(data) == nil && q.EqualVT(p), "the message is the same after encoding it")
	got, err := q.Resolve(context.Background(), b)
	sym.Assert(err == nil, "the set is resolved")
	sameSet(got, cs)
	sym.Cover("end")
}

// sameSet checks that sets are equal.
func sameSet(got, want configset.ConfigSet) {
	sym.Assert(len(got) == len(want), "the set has the same keys")
	for k, w := range want {
		g := got[k]
		sym.Assert(g != nil && g.GetRev() == w.GetRev(), "the configuration has the same revision")
		sym.Assert(g.GetConfig().GetConfigID() == w.GetConfig().GetConfigID() && g.GetConfig().EqualsConfig(w.GetConfig()), "the configuration is the same")
		sym.Assert(g.GetConfig() != w.GetConfig(), "the configuration is a copy")
	}
}

// X02JSON resolves a set in JSON format.
//
//verif:prop X02
//verif:bounds sets of up to 2 entries, each empty, without a configuration or with one of 2 types (5 strings, an arbitrary byte), without an id or not, arbitrary 64 bit revisions; resolved up to 2 times
//verif:quick preempt=0 merge=0
func X02JSON() {
	b := newConfBus()
	ctx := context.Background()
	js := cjson.ConfigSet{}
	want := configset.ConfigSet{}
	bad := false
	for _, k := range keys[:sym.Choose("n", 3)] {
		kind := sym.Choose("kind", 4)
		if kind == 0 {
			js[k] = nil
			continue
		}
		c := mkConf(true)
		rev := sym.Uint64("rev")
		e := &cjson.ControllerConfig{Id: c.GetConfigID(), Rev: rev}
		switch kind {
		case 1:
			c = pfsOrConf(c)
		case 2:
			data, err := c.MarshalJSON()
			sym.Assert(err == nil, "the configuration is marshaled")
			e.Config = cjson.NewConfigWithJSON(string(data))
			sym.Assert(e.Config.GetConfig() == nil, "the configuration is not resolved")
		case 3:
			e.Id = ""
			bad = true
		}
		js[k] = e
		want[k] = configset.NewControllerConfig(rev, c)
	}
	for i := 0; i < 2; i++ {
		got, err := js.Resolve(ctx, b)
		if bad {
			sym.Assert(err != nil, "a configuration needs an id")
			sym.Cover("bad")
			continue
		}
		sym.Assert(err == nil, "the set is resolved")
		sameSet(got, want)
		sym.Cover("resolved")
		// back to JSON without parsing it
		back, err := cjson.NewConfigSet(got).Resolve(ctx, b)
		sym.Assert(err == nil && len(back) == len(got), "a resolved set stays resolved")
		for k := range got {
			sym.Assert(back[k].GetConfig() == got[k].GetConfig() && back[k].GetRev() == got[k].GetRev(), "a resolved set stays resolved")
			w, werr := want[k].GetConfig().MarshalJSON()
			g, gerr := js[k].Config.MarshalJSON()
			sym.Assert(werr == nil && gerr == nil && bytes.Equal(w, g), "the configuration is marshaled as it was")
		}
	}
}

// pfsOrConf returns an empty configuration of the same type.
func pfsOrConf(c config.Config) config.Config {
	if _, ok := c.(*pfs.Config); ok {
		return &pfs.Config{}
	}
	return &hu.Conf{ID: "c"}
}

// X02Validate validates sets, and applies and resolves ones with bad entries.
//
//verif:prop X02
//verif:bounds sets of up to 3 configurations, each valid (2 formats), without an id, of an unknown type or with broken JSON; validated and resolved
//verif:quick preempt=0 merge=0
func X02Validate() {
	b := newConfBus()
	p := &cproto.ConfigSet{Configs: map[string]*cproto.ControllerConfig{}}
	bad, known := false, true
	n := sym.Choose("n", 4)
	for _, k := range []string{"a", "b", "c"}[:n] {
		c := &hu.Conf{ID: "c", N: 5}
		if sym.Bool("nonempty") {
			c.N = 7
		}
		cc, err := cproto.NewControllerConfig(configset.NewControllerConfig(1, c), sym.Bool("json"))
		sym.Assert(err == nil && cc.Validate() == nil, "a valid configuration is converted")
		switch sym.Choose("kind", 4) {
		case 1:
			cc.Id, bad = "", true
		case 2:
			cc.Config, bad = []byte("{x"), true
		case 3:
			cc.Id = "pfs-unknown"
			known = false
		}
		p.Configs[k] = cc
	}
	sym.Assert((p.Validate() == nil) == !bad, "a set is valid if every configuration is")
	sym.Assert((cproto.ConfigSetMap(p.Configs).Validate() == nil) == !bad, "a map is valid if every configuration is")
	if !known {
		sym.Cover("unknown")
		return
	}
	got, err := p.Resolve(context.Background(), b)
	sym.Assert((err == nil) == !bad, "a set is resolved if every configuration is valid")
	if err != nil {
		sym.Assert(got == nil, "a set is resolved completely or not at all")
		sym.Cover("bad")
		return
	}
	sym.Assert(len(got) == n, "every configuration is resolved")
	sym.Cover("resolved")
}
