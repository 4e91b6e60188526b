package hconf

import (
	"bytes"
	"context"
	stdjson "encoding/json"
	"sort"
	"strconv"

	"github.com/aperturerobotics/controllerbus/controller/configset"
	cjson "github.com/aperturerobotics/controllerbus/controller/configset/json"
	exec "github.com/aperturerobotics/controllerbus/controller/exec"
	pfs "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zzverif/model"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	pbjson "github.com/aperturerobotics/protobuf-go-lite/json"
)

// encodeSet encodes a set as encoding/json does with the tags of its fields.
func encodeSet(v any) ([]byte, error) {
	cs := v.(cjson.ConfigSet)
	if cs == nil {
		return []byte("null"), nil
	}
	var ks []string
	for k := range cs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []byte("{")
	for i, k := range ks {
		if i != 0 {
			out = append(out, ',')
		}
		out = append(out, strconv.Quote(k)+":"...)
		c := cs[k]
		if c == nil {
			out = append(out, "null"...)
			continue
		}
		out = append(out, '{')
		if c.Rev != 0 {
			out = append(out, `"rev":`+strconv.FormatUint(c.Rev, 10)+","...)
		}
		out = append(out, `"id":`+strconv.Quote(c.Id)...)
		if c.Config != nil {
			b, err := c.Config.MarshalJSON()
			if err != nil {
				return nil, err
			}
			var cb bytes.Buffer
			if err := stdjson.Compact(&cb, b); err != nil {
				return nil, err
			}
			out = append(append(out, `,"config":`...), cb.Bytes()...)
		}
		out = append(out, '}')
	}
	return append(out, '}'), nil
}

// decodeConf decodes a configuration as encoding/json does with the tags of its fields.
func decodeConf(data []byte, c *cjson.ControllerConfig) error {
	var rerr error
	s := pbjson.NewUnmarshalState(data, pbjson.DefaultUnmarshalerConfig)
	s.ReadObject(func(key string) {
		switch key {
		case "rev":
			c.Rev = s.ReadUint64()
		case "id":
			c.Id = s.ReadString()
		case "config":
			raw := s.SkipAndReturnBytes()
			if string(raw) == "null" {
				c.Config = nil
				return
			}
			c.Config = &cjson.Config{}
			if err := c.Config.UnmarshalJSON(raw); err != nil {
				rerr = err
			}
		default:
			s.Skip()
		}
	})
	if rerr != nil {
		return rerr
	}
	return s.Err()
}

// decodeSet decodes a set or a configuration.
func decodeSet(data []byte, o any) error {
	if string(data) == "null" {
		return nil
	}
	if c, ok := o.(**cjson.ControllerConfig); ok {
		return decodeConf(data, *c)
	}
	p := o.(*cjson.ConfigSet)
	if *p == nil {
		*p = cjson.ConfigSet{}
	}
	cs := *p
	var rerr error
	s := pbjson.NewUnmarshalState(data, pbjson.DefaultUnmarshalerConfig)
	s.ReadObject(func(key string) {
		raw := append([]byte(nil), s.SkipAndReturnBytes()...)
		cs[key] = nil
		if string(raw) == "null" {
			return
		}
		c := &cjson.ControllerConfig{}
		if err := decodeConf(raw, c); err != nil {
			rerr = err
		}
		cs[key] = c
	})
	if rerr != nil {
		return rerr
	}
	return s.Err()
}

// X02YAML adds the configurations of a YAML document to a set.
//
//verif:prop X02
//verif:bounds documents written from sets of up to 2 configurations (3 strings, 3 revisions), or compact ones in JSON format with up to 2 entries, each empty, without a configuration, without an id, or with a configuration which is one, null or a number, or invalid documents; added to an empty set or one with a configuration with the same key, with and without overwriting it
//verif:quick preempt=0 merge=0
func X02YAML() {
	model.YAMLUnmarshalHook, model.JSONMarshalHook = decodeSet, encodeSet
	b := newConfBus()
	ctx := context.Background()
	want := configset.ConfigSet{}
	badKeys := map[string]bool{}
	invalid := false
	var y []byte
	if sym.Bool("written") {
		cs := configset.ConfigSet{}
		for _, k := range keys[:sym.Choose("n", 3)] {
			c := &pfs.Config{Dir: []string{"", "x", "a b: {"}[sym.Choose("dir", 3)], Watch: sym.Bool("watch")}
			cs[k] = configset.NewControllerConfig([]uint64{0, 3, 1<<64 - 1}[sym.Choose("rev", 3)], c)
			want[k] = cs[k]
		}
		if sym.Bool("request") {
			req, err := exec.ExecControllerYAMLFromConfigSet(cs)
			sym.Assert(err == nil && req.GetConfigSet() == nil, "the set is written")
			y = []byte(req.GetConfigSetYaml())
		} else {
			var err error
			y, err = cjson.MarshalYAML(cs)
			sym.Assert(err == nil, "the set is written")
		}
	} else {
		doc := "{"
		for i, k := range keys[:sym.Choose("n", 3)] {
			if i != 0 {
				doc += ","
			}
			doc += `"` + k + `":`
			id := `{"rev":4,"id":"` + pfs.ConfigID + `"`
			switch sym.Choose("kind", 6) {
			case 0:
				doc += "null"
			case 1:
				doc += id + "}"
				want[k] = configset.NewControllerConfig(4, &pfs.Config{})
			case 2:
				doc += `{"rev":4,"config":{}}`
				badKeys[k] = true
			case 3:
				doc += id + `,"config":{"dir":"d"}}`
				want[k] = configset.NewControllerConfig(4, &pfs.Config{Dir: "d"})
			case 4:
				doc += id + `,"config":null}`
				want[k] = configset.NewControllerConfig(4, &pfs.Config{})
			case 5:
				doc += id + `,"config":5}`
				invalid = true
			}
		}
		doc += "}"
		if sym.Bool("cut") {
			doc = doc[:len(doc)-1]
			invalid = true
		}
		y = []byte(doc)
	}
	ocs := configset.ConfigSet{}
	over := sym.Bool("overwrite")
	old := configset.NewControllerConfig(9, &pfs.Config{Dir: "old"})
	has := sym.Bool("has")
	if has {
		ocs[keys[0]] = old
		if !over {
			delete(want, keys[0])
			delete(badKeys, keys[0])
		}
	}
	added, err := cjson.UnmarshalYAML(ctx, b, y, ocs, over)
	sym.Assert((err != nil) == (invalid || len(badKeys) != 0), "a document is added if it is valid")
	if has && !over {
		sym.Assert(ocs[keys[0]] == old, "a configuration of the set is not overwritten")
	}
	if invalid {
		sym.Assert(len(added) == 0, "an invalid document is not added")
	}
	if err != nil {
		sym.Cover("bad")
		return
	}
	sort.Strings(added)
	sym.Assert(len(added) == len(want), "every configuration is added")
	for _, k := range added {
		sym.Assert(want[k] != nil, "only configurations of the document are added")
	}
	if _, ok := want[keys[0]]; !ok && has {
		want[keys[0]] = old
		sym.Assert(ocs[keys[0]] == old, "a configuration of the set is kept")
		delete(ocs, keys[0])
		delete(want, keys[0])
	}
	sameSet(ocs, want)
	sym.Cover("added")
}

// X02YAMLOne parses one configuration.
//
//verif:prop X02
//verif:bounds compact documents in JSON format with one configuration with or without a revision or an invalid one, an id or a configuration
//verif:quick preempt=0 merge=0
func X02YAMLOne() {
	model.YAMLUnmarshalHook = decodeSet
	b := newConfBus()
	doc, id, rev := `{"x":1`, sym.Bool("id"), uint64(0)
	if id {
		doc += `,"id":"` + pfs.ConfigID + `"`
	}
	want := &pfs.Config{}
	if sym.Bool("config") {
		want.Watch = true
		doc += `,"config":{"watch":true}`
	}
	if sym.Bool("bad") {
		_, err := cjson.UnmarshalControllerConfigYAML([]byte(doc + `,"rev":-1}`))
		sym.Assert(err != nil, "an invalid configuration is refused")
	}
	if sym.Bool("rev") {
		rev = 1<<64 - 1
		doc += `,"rev":18446744073709551615`
	}
	c, err := cjson.UnmarshalControllerConfigYAML([]byte(doc + "}"))
	sym.Assert(err == nil && c != nil && c.GetRev() == rev, "the configuration is parsed")
	cc, err := c.Resolve(context.Background(), b)
	sym.Assert((err == nil) == id, "a configuration needs an id")
	if err == nil {
		sym.Assert(cc.GetRev() == rev && cc.GetConfig().EqualsConfig(want), "the configuration is the same")
	}
	_, err = cjson.UnmarshalControllerConfigYAML([]byte(doc))
	sym.Assert(err != nil, "an invalid document is refused")
	sym.Cover("end")
}
