package hsmoke

import (
	"context"
	"slices"
	"strings"
	"time"
	"errors"
	"fmt"

	"github.com/aperturerobotics/controllerbus/directive"
	dc "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/sirupsen/logrus"
)

type dir struct {
	key  uint32
	opts directive.ValueOptions
}

func (d *dir) Validate() error                         { return nil }
func (d *dir) GetValueOptions() directive.ValueOptions { return d.opts }
func (d *dir) GetName() string                         { return "dir" }
func (d *dir) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*dir)
	return ok && od.key == d.key
}

type hnd struct{ n int }

func (h *hnd) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	h.n++
	return directive.Resolvers(directive.NewFuncResolver(func(ctx context.Context, handler directive.ResolverHandler) error {
		handler.AddValue("hello")
		<-ctx.Done()
		return context.Canceled
	})), nil
}

// Smoke1 adds directives with symbolic keys.
//verif:prop Z00
//verif:quick preempt=-1
func Smoke1() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := dc.NewController(ctx, logrus.NewEntry(logrus.New()))
	h := &hnd{}
	rel, err := c.AddHandler(h)
	sym.Assert(err == nil, "err")
	k1 := sym.Uint32("k")
	k2 := sym.Uint32("k")
	added := 0
	di1, ref1, _ := c.AddDirective(&dir{key: k1}, directive.NewCallbackHandler(func(v directive.AttachedValue) { added++ }, nil, nil))
	di2, ref2, _ := c.AddDirective(&dir{key: k2}, nil)
	sym.Assert((di1 == di2) == (k1 == k2), "dedup")
	sym.Quiesce()
	sym.Assert(added == 1, "added one")
	sym.Assert(h.n <= 2, "hn")
	sym.Assert((h.n == 2) == (k1 != k2), "hn2")
	ref1.Release()
	ref2.Release()
	rel()
	sym.Quiesce()
	sym.Assert(len(c.GetDirectives()) == 0, "none left")
	sym.Cover("end")
}

// Smoke2 runs library code.
//verif:prop Z00
func Smoke2() {
	xs := []uint32{sym.Uint32("x"), sym.Uint32("x"), sym.Uint32("x"), sym.Uint32("x")}
	slices.Sort(xs)
	for i := 1; i < len(xs); i++ {
		sym.Assert(xs[i-1] <= xs[i], "sorted")
	}
	s := sym.StringN("s", 3)
	if strings.HasPrefix(s, "ab") {
		sym.Assert(s[2] == s[2], "x")
		sym.Cover("prefix")
	}
	p := strings.Split("a,b,"+s, ",")
	sym.Assert(len(p) >= 3, "split")
	e1 := errors.New("x")
	e2 := fmt.Errorf("hi: %w", e1)
	sym.Assert(errors.Is(e2, e1), "is")
}

// Smoke3 runs concurrency.
//verif:prop Z00
func Smoke3() {
	ch := make(chan int)
	done := make(chan struct{})
	sum := 0
	for i := 0; i < 3; i++ {
		go func() { ch <- i }()
	}
	go func() {
		for i := 0; i < 3; i++ {
			sum += <-ch
		}
		close(done)
	}()
	fired := false
	t := time.AfterFunc(time.Second, func() { fired = true })
	<-done
	sym.Assert(sum == 3, "sum")
	sym.Assert(!fired, "not fired")
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(fired, "fired")
	_ = t
	func() {
		defer func() { recover() }()
		var m map[string]int
		m["x"] = 1
	}()
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	<-ctx.Done()
	sym.Assert(ctx.Err() == context.DeadlineExceeded, "dl")
}
