// Package props holds one file per property.
package props

import "inisim/core"

var all []*core.Property

func register(p *core.Property) { all = append(all, p) }

// All returns the properties.
func All() []*core.Property { return all }
