package hconf

import (
	"bytes"

	api "github.com/aperturerobotics/controllerbus/bus/api"
	"github.com/aperturerobotics/controllerbus/controller"
	cproto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	cexec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/directive"
	pfs "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// message is a generated message.
type message[T any] interface {
	SizeVT() int
	MarshalVT() ([]byte, error)
	UnmarshalVT([]byte) error
	EqualVT(T) bool
	CloneVT() T
}

// parse parses arbitrary bytes.
func parse[T message[T]](b []byte, mk func() T) {
	c := mk()
	if err := c.UnmarshalVT(b); err != nil {
		sym.Cover("invalid")
		return
	}
	sym.Cover("valid")
	same(c, mk)
}

// same encodes and clones a message.
func same[T message[T]](c T, mk func() T) {
	out, err := c.MarshalVT()
	sym.Assert(err == nil && len(out) == c.SizeVT(), "a message is encoded with its size")
	d := mk()
	err = d.UnmarshalVT(out)
	sym.Assert(err == nil && d.EqualVT(c) && c.EqualVT(d), "a message is the same after encoding it")
	k := c.CloneVT()
	sym.Assert(k.EqualVT(c) && c.EqualVT(k), "a clone is the same")
	out2, err := d.MarshalVT()
	sym.Assert(err == nil && len(out2) == len(out), "the encoding is the same after encoding it")
}

// X01Parse parses arbitrary bytes.
//
//verif:prop X01
//verif:bounds arbitrary 4 bytes for ControllerConfig
//verif:quick preempt=0 merge=0
func X01Parse() {
	parse(sym.BytesN("data", 4), func() *cproto.ControllerConfig { return &cproto.ControllerConfig{} })
}

// X01ParseAll parses arbitrary bytes as the other messages.
//
//verif:prop X01
//verif:bounds arbitrary 3 bytes, after the tag of each field of 7 other messages
//verif:quick preempt=0 merge=0
func X01ParseAll() { parseAll(3) }

// X01ParseAllLong parses more bytes.
//
//verif:prop X01
//verif:bounds arbitrary 4 bytes, after the tag of each field of 7 other messages
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 merge=0 budget=600s
func X01ParseAllLong() { parseAll(4) }

func parseAll(n int) {
	b := append([]byte{byte(sym.Choose("field", 4)+1)<<3 | []byte{0, 2}[sym.Choose("type", 2)]}, sym.BytesN("data", n)...)
	switch sym.Choose("message", 7) {
	case 0:
		parse(b, func() *cproto.ConfigSet { return &cproto.ConfigSet{} })
	case 1:
		parse(b, func() *cexec.ExecControllerRequest { return &cexec.ExecControllerRequest{} })
	case 2:
		parse(b, func() *cexec.ExecControllerResponse { return &cexec.ExecControllerResponse{} })
	case 3:
		parse(b, func() *controller.Info { return &controller.Info{} })
	case 4:
		parse(b, func() *directive.DirectiveState { return &directive.DirectiveState{} })
	case 5:
		parse(b, func() *api.GetBusInfoResponse { return &api.GetBusInfoResponse{} })
	case 6:
		parse(b, func() *pfs.Config { return &pfs.Config{} })
	}
}

// X01Length parses a field with an arbitrary length.
//
//verif:prop X01
//verif:bounds a field of bytes, a string or an unknown one, with an arbitrary length of up to 10 bytes and 2 arbitrary bytes
//verif:quick preempt=0 merge=0
func X01Length() {
	f := []byte{10, 26, 34}[sym.Choose("field", 3)]
	b := append([]byte{f}, sym.BytesN("length", 10)...)
	n := sym.Choose("short", 10)
	for i := 0; i < 9-n; i++ {
		sym.Assume(b[i+1] >= 0x80)
	}
	sym.Assume(n == 0 || b[10-n] < 0x80)
	b = append(b[:11-n], sym.BytesN("data", 2)...)
	c := &cproto.ControllerConfig{}
	if err := c.UnmarshalVT(b); err != nil {
		sym.Cover("invalid")
		return
	}
	sym.Cover("valid")
	sym.Assert(len(c.Id)+len(c.Config) <= 2, "a field is not longer than the data")
	same(c, func() *cproto.ControllerConfig { return &cproto.ControllerConfig{} })
}

// maxStr is the maximum length of strings.
var maxStr = 1

func str(name string) string { return sym.StringN(name, sym.Choose(name+" length", maxStr+1)) }

func info() *controller.Info {
	if sym.Bool("no info") {
		return nil
	}
	return &controller.Info{Id: str("id"), Version: str("version"), Description: str("description")}
}

func conf(i int) *cproto.ControllerConfig {
	c := &cproto.ControllerConfig{Id: str("id"), Rev: sym.Uint64("rev")}
	if n := sym.Choose("config", maxStr+2); n != 0 {
		c.Config = sym.BytesN("data", n-1)
	}
	return c
}

// X01Conf encodes and clones arbitrary configurations.
//
//verif:prop X01
//verif:bounds a configuration with an id and data of up to 2 arbitrary bytes and an arbitrary 64 bit revision
//verif:quick preempt=0 merge=0
func X01Conf() {
	maxStr = 2
	a := conf(0)
	same(a, func() *cproto.ControllerConfig { return &cproto.ControllerConfig{} })
	k := a.CloneVT()
	if len(a.Config) != 0 {
		a.Config[0]++
		sym.Assert(!k.EqualVT(a), "a clone is independent")
		sym.Cover("changed")
	}
	sym.Cover("end")
}

// X01Equal compares arbitrary configurations.
//
//verif:prop X01
//verif:bounds 2 configurations with ids and data of up to 2 arbitrary bytes and arbitrary 64 bit revisions
//verif:quick preempt=0 merge=0
func X01Equal() {
	maxStr = 2
	a, b := conf(0), conf(1)
	eq := a.Id == b.Id && a.Rev == b.Rev && bytes.Equal(a.Config, b.Config)
	sym.Assert(a.EqualVT(b) == eq, "messages are equal exactly if their fields are")
	sym.Assert(a.EqualMessageVT(b) == eq && !a.EqualMessageVT(&controller.Info{}), "messages are equal exactly if their fields are")
	var none *cproto.ControllerConfig
	sym.Assert(!a.EqualVT(nil) && !none.EqualVT(a) && none.EqualVT(nil) && none.CloneVT() == nil, "no message is equal to no message only")
	if eq {
		sym.Cover("equal")
	} else {
		sym.Cover("different")
	}
}

// X01Msg encodes and clones other messages.
//
//verif:prop X01
//verif:bounds 7 other messages with arbitrary numbers and strings of up to 2 arbitrary bytes, up to 2 elements, nested messages present or not
//verif:quick preempt=0 merge=0
func X01Msg() { messages(2) }

// X01MsgLong encodes and clones other messages with longer strings.
//
//verif:prop X01
//verif:bounds as X01Msg with strings of up to 3 arbitrary bytes
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 merge=0 budget=600s
func X01MsgLong() { messages(3) }

func messages(n int) {
	maxStr = n
	switch sym.Choose("message", 7) {
	case 0:
		c := &cproto.ConfigSet{}
		if sym.Bool("configs") {
			c.Configs = map[string]*cproto.ControllerConfig{}
			for _, k := range keys[:sym.Choose("n", 3)] {
				c.Configs[k] = &cproto.ControllerConfig{Id: str("id"), Rev: sym.Uint64("rev")}
			}
		}
		same(c, func() *cproto.ConfigSet { return &cproto.ConfigSet{} })
		if len(c.Configs) != 0 {
			k := c.CloneVT()
			c.Configs["a"].Id += "x"
			sym.Assert(!k.EqualVT(c) && !c.EqualVT(k), "a clone is independent")
			k = c.CloneVT()
			delete(k.Configs, "a")
			sym.Assert(!k.EqualVT(c) && !c.EqualVT(k), "a clone is independent")
		}
	case 1:
		c := &cexec.ExecControllerRequest{ConfigSetYaml: str("yaml"), ConfigSetYamlOverwrite: sym.Bool("overwrite")}
		if sym.Bool("set") {
			c.ConfigSet = &cproto.ConfigSet{Configs: map[string]*cproto.ControllerConfig{"a": {Rev: sym.Uint64("rev")}}}
		}
		same(c, func() *cexec.ExecControllerRequest { return &cexec.ExecControllerRequest{} })
		k := c.CloneVT()
		k.ConfigSetYamlOverwrite = !k.ConfigSetYamlOverwrite
		sym.Assert(!k.EqualVT(c), "messages are equal exactly if their fields are")
	case 2:
		c := &cexec.ExecControllerResponse{Id: str("id"), Status: cexec.ControllerStatus(sym.Uint32("status")), ControllerInfo: info(), ErrorInfo: "e"}
		same(c, func() *cexec.ExecControllerResponse { return &cexec.ExecControllerResponse{} })
		k := c.CloneVT()
		k.Status++
		sym.Assert(!k.EqualVT(c), "messages are equal exactly if their fields are")
		if c.ControllerInfo != nil {
			k = c.CloneVT()
			k.ControllerInfo.Id += "x"
			sym.Assert(!k.EqualVT(c), "a clone is independent")
		}
	case 3:
		c := &controller.Info{Id: str("id"), Version: str("version"), Description: str("description")}
		same(c, func() *controller.Info { return &controller.Info{} })
		d := &controller.Info{Id: str("id"), Version: str("version"), Description: c.Description}
		sym.Assert(c.EqualVT(d) == (c.Id == d.Id && c.Version == d.Version), "messages are equal exactly if their fields are")
	case 4:
		c := &directive.DirectiveState{}
		if sym.Bool("info") {
			c.Info = &directive.DirectiveInfo{Name: str("name")}
			for i := sym.Choose("n", 3); i > 0; i-- {
				c.Info.DebugVals = append(c.Info.DebugVals, &directive.ProtoDebugValue{Key: str("key"), Values: []string{"v", ""}[:sym.Choose("values", 3)]})
			}
		}
		same(c, func() *directive.DirectiveState { return &directive.DirectiveState{} })
		if c.Info != nil && len(c.Info.DebugVals) != 0 {
			k := c.CloneVT()
			c.Info.DebugVals[0].Values = append(c.Info.DebugVals[0].Values, "w")
			sym.Assert(!k.EqualVT(c), "a clone is independent")
		}
	case 5:
		c := &api.GetBusInfoResponse{}
		for i := sym.Choose("controllers", 3); i > 0; i-- {
			c.RunningControllers = append(c.RunningControllers, &controller.Info{Id: str("id")})
		}
		for i := sym.Choose("directives", 3); i > 0; i-- {
			c.RunningDirectives = append(c.RunningDirectives, &directive.DirectiveState{Info: &directive.DirectiveInfo{Name: str("name")}})
		}
		same(c, func() *api.GetBusInfoResponse { return &api.GetBusInfoResponse{} })
		if len(c.RunningControllers) != 0 {
			k := c.CloneVT()
			c.RunningControllers[0].Id += "x"
			sym.Assert(!k.EqualVT(c), "a clone is independent")
		}
	case 6:
		c := &pfs.Config{Dir: str("dir"), Watch: sym.Bool("watch")}
		same(c, func() *pfs.Config { return &pfs.Config{} })
		d := &pfs.Config{Dir: str("dir"), Watch: sym.Bool("watch")}
		sym.Assert(c.EqualVT(d) == (c.Dir == d.Dir && c.Watch == d.Watch) && c.EqualsConfig(d) == c.EqualVT(d), "messages are equal exactly if their fields are")
	}
	sym.Cover("end")
}

// jsonMessage is a message with a JSON format.
type jsonMessage[T any] interface {
	message[T]
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
}

// sameJSON encodes a message as JSON.
func sameJSON[T jsonMessage[T]](c T, mk func() T) {
	out, err := c.MarshalJSON()
	sym.Assert(err == nil, "a message is encoded as JSON")
	d := mk()
	err = d.UnmarshalJSON(out)
	sym.Assert(err == nil && d.EqualVT(c), "a message is the same after encoding it as JSON")
}

var texts = []string{"", "a", "\"}", "\\u\n\t", "<é\u2028\U0001f600>"}

func text(name string) string { return texts[sym.Choose(name, len(texts))] }

// X01JSON encodes messages as JSON.
//
//verif:prop X01
//verif:bounds 7 messages with strings with quotes, escapes, new lines and other characters (control characters are not encodable by the JSON library), numbers from 5 values, up to 2 elements
//verif:quick preempt=0 merge=0
func X01JSON() {
	rev := []uint64{0, 1, 1 << 32, 1<<53 + 1, 1<<64 - 1}[sym.Choose("rev", 5)]
	switch sym.Choose("message", 7) {
	case 0:
		c := &cproto.ControllerConfig{Id: text("id"), Rev: rev}
		sameJSON(c, func() *cproto.ControllerConfig { return &cproto.ControllerConfig{} })
	case 1:
		c := &cproto.ConfigSet{}
		for _, k := range []string{"a", "b\"}"}[:sym.Choose("n", 3)] {
			if c.Configs == nil {
				c.Configs = map[string]*cproto.ControllerConfig{}
			}
			c.Configs[k] = &cproto.ControllerConfig{Id: text("id"), Rev: rev}
		}
		sameJSON(c, func() *cproto.ConfigSet { return &cproto.ConfigSet{} })
	case 2:
		c := &cexec.ExecControllerRequest{ConfigSetYaml: text("yaml"), ConfigSetYamlOverwrite: sym.Bool("overwrite")}
		if sym.Bool("set") {
			c.ConfigSet = &cproto.ConfigSet{Configs: map[string]*cproto.ControllerConfig{"a": {Rev: rev}}}
		}
		sameJSON(c, func() *cexec.ExecControllerRequest { return &cexec.ExecControllerRequest{} })
	case 3:
		c := &cexec.ExecControllerResponse{Id: text("id"), Status: cexec.ControllerStatus(sym.Choose("status", 4)), ErrorInfo: text("error")}
		if sym.Bool("info") {
			c.ControllerInfo = &controller.Info{Version: "1"}
		}
		sameJSON(c, func() *cexec.ExecControllerResponse { return &cexec.ExecControllerResponse{} })
	case 4:
		c := &controller.Info{Id: text("id"), Version: text("version"), Description: text("description")}
		sameJSON(c, func() *controller.Info { return &controller.Info{} })
	case 5:
		c := &api.GetBusInfoResponse{}
		for i := sym.Choose("controllers", 3); i > 0; i-- {
			c.RunningControllers = append(c.RunningControllers, &controller.Info{Id: texts[i]})
		}
		for i := sym.Choose("directives", 3); i > 0; i-- {
			d := &directive.DirectiveInfo{Name: texts[i]}
			for j := sym.Choose("vals", 2); j > 0; j-- {
				d.DebugVals = append(d.DebugVals, &directive.ProtoDebugValue{Key: texts[i+1], Values: []string{"v", ""}[:sym.Choose("values", 3)]})
			}
			c.RunningDirectives = append(c.RunningDirectives, &directive.DirectiveState{Info: d})
		}
		sameJSON(c, func() *api.GetBusInfoResponse { return &api.GetBusInfoResponse{} })
	case 6:
		c := &pfs.Config{Dir: text("dir"), Watch: sym.Bool("watch")}
		sameJSON(c, func() *pfs.Config { return &pfs.Config{} })
	}
	sym.Cover("end")
}
