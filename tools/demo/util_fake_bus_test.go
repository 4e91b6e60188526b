package bus_test

import (
	"sync"

	"github.com/aperturerobotics/controllerbus/directive"
)

// fakeH is a resolver handler which only keeps the values.
type fakeH struct {
	mtx  sync.Mutex
	next uint32
	vals map[uint32]directive.Value
}

func (h *fakeH) AddValue(v directive.Value) (uint32, bool) {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	if h.vals == nil {
		h.vals = map[uint32]directive.Value{}
	}
	h.next++
	h.vals[h.next] = v
	return h.next, true
}

func (h *fakeH) RemoveValue(id uint32) (directive.Value, bool) {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	v, ok := h.vals[id]
	delete(h.vals, id)
	return v, ok
}

func (h *fakeH) CountValues(bool) int {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	return len(h.vals)
}

func (h *fakeH) ClearValues() []uint32 {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	var ids []uint32
	for id := range h.vals {
		ids = append(ids, id)
	}
	h.vals = nil
	return ids
}

func (h *fakeH) MarkIdle(bool)                                 {}
func (h *fakeH) AddValueRemovedCallback(uint32, func()) func() { return func() {} }
func (h *fakeH) AddResolverRemovedCallback(func()) func()      { return func() {} }
func (h *fakeH) AddResolver(directive.Resolver, func()) func() { return func() {} }
