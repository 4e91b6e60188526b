// This file replaces plugin_dlopen.go: plugins are opened by a hook instead of the dynamic linker.
package plugin

import "errors"

// OpenHook returns the symbols of the plugin.
var OpenHook func(name string) (map[string]any, error)

func open(name string) (*Plugin, error) {
	if OpenHook == nil {
		return nil, errors.New("plugin: not implemented")
	}
	syms, err := OpenHook(name)
	if err != nil {
		return nil, err
	}
	return &Plugin{pluginpath: name, syms: syms}, nil
}

func lookup(p *Plugin, symName string) (Symbol, error) {
	if s, ok := p.syms[symName]; ok {
		return s, nil
	}
	return nil, errors.New("plugin: symbol " + symName + " not found")
}
