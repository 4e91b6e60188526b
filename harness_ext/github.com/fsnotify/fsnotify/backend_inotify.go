// This file replaces backend_inotify.go: the events are sent by the harness instead of the kernel.
package fsnotify

// Hook is told about the watchers which were created, and the paths which they watch.
var Hook func(w *Hooked)

// Hooked is a backend.
type Hooked struct {
	Events chan Event
	Errors chan error
	Paths  []string
	Closed chan struct{}
}

const defaultBufferSize = 0

func newBackend(ev chan Event, errs chan error) (backend, error) {
	h := &Hooked{Events: ev, Errors: errs, Closed: make(chan struct{})}
	if Hook != nil {
		Hook(h)
	}
	return h, nil
}

// Send sends an event unless the watcher is closed.
func (h *Hooked) Send(e Event) {
	select {
	case <-h.Closed:
	case h.Events <- e:
	}
}

// Close closes the backend.
func (h *Hooked) Close() error {
	select {
	case <-h.Closed:
	default:
		close(h.Closed)
	}
	return nil
}

// Add watches a path.
func (h *Hooked) Add(name string) error { return h.AddWith(name) }

// AddWith watches a path.
func (h *Hooked) AddWith(name string, _ ...addOpt) error {
	h.Paths = append(h.Paths, name)
	return nil
}

// Remove ignores a path.
func (h *Hooked) Remove(name string) error {
	for i, p := range h.Paths {
		if p == name {
			h.Paths = append(h.Paths[:i:i], h.Paths[i+1:]...)
			return nil
		}
	}
	return ErrNonExistentWatch
}

// WatchList lists the paths.
func (h *Hooked) WatchList() []string { return h.Paths }

func (h *Hooked) xSupports(_ Op) bool { return true }
