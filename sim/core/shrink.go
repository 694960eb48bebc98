package core

import (
	"bytes"
	"encoding/json"
	"sort"
	"time"

	"inisim/simrt"
)

func encode(p Plan) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(p); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func decode(prop *Property, data []byte) (Plan, error) {
	p := prop.New()
	d := json.NewDecoder(bytes.NewReader(data))
	if err := d.Decode(p); err != nil {
		return nil, err
	}
	return p, nil
}

// tryFunc reports whether the plan still fails in the same way, and how it ran.
type tryFunc func(p Plan) (*Violation, *T)

type shrinker struct {
	prop     *Property
	class    string
	try      tryFunc
	best     Plan
	bestV    *Violation
	attempts int
	limit    int
	deadline time.Time
	seeds    int // schedules tried per candidate
}

func (s *shrinker) over() bool {
	return s.attempts >= s.limit || time.Now().After(s.deadline)
}

// accept tries a candidate, under its own schedule and some others.
func (s *shrinker) accept(data []byte) bool {
	p, err := decode(s.prop, data)
	if err != nil {
		return false
	}
	if s.one(p) {
		return true
	}
	sc, ok := p.(Scheduled)
	if !ok || s.seeds == 0 {
		return false
	}
	for i := 0; i < s.seeds && !s.over(); i++ {
		*sc.Schedule() = SchedConfig(NewRand(Mix(uint64(i)+77)), 200)
		if s.one(p) {
			return true
		}
	}
	return false
}

func (s *shrinker) one(p Plan) bool {
	if s.over() {
		return false
	}
	s.attempts++
	v, t := s.try(p)
	if v == nil || v.Class != s.class {
		return false
	}
	s.take(p, v, t)
	return true
}

// take makes p the best plan so far; its schedule is turned into a list of switches.
func (s *shrinker) take(p Plan, v *Violation, t *T) {
	s.best, s.bestV = p, v
	if sc, ok := p.(Scheduled); ok && t != nil && !t.Overflow && sc.Schedule().Kind != simrt.Replay {
		q, err := decode(s.prop, encode(p))
		if err != nil {
			return
		}
		c := q.(Scheduled).Schedule()
		ms := c.MaxSteps
		*c = simrt.Config{Kind: simrt.Replay, Switches: t.Switches, MaxSteps: ms, Seed: sc.Schedule().Seed}
		if v2, _ := s.try(q); v2 != nil && v2.Class == s.class {
			s.best, s.bestV = q, v2
		}
	}
}

// Shrink minimises a failing plan.
func Shrink(prop *Property, p Plan, v *Violation, t *T, try tryFunc, limit int, d time.Duration) (Plan, *Violation, int) {
	s := &shrinker{prop: prop, class: v.Class, try: try, limit: limit, deadline: time.Now().Add(d)}
	s.take(p, v, t)
	if _, ok := p.(Scheduled); ok {
		s.seeds = 12
	}
	for round := 0; round < 6 && !s.over(); round++ {
		before := len(encode(s.best))
		s.pass()
		if len(encode(s.best)) >= before {
			break
		}
	}
	return s.best, s.bestV, s.attempts
}

type path []interface{}

// pass tries one round of simplifications of every part of the plan.
func (s *shrinker) pass() {
	var tree interface{}
	if json.Unmarshal(encode(s.best), &tree) != nil {
		return
	}
	var visit func(at path)
	visit = func(at path) {
		if s.over() {
			return
		}
		node, ok := get(s.tree(), at)
		if !ok {
			return
		}
		switch n := node.(type) {
		case []interface{}:
			for size := len(n); size >= 1; size /= 2 {
				for i := 0; ; {
					cur, ok := get(s.tree(), at)
					l, ok2 := cur.([]interface{})
					if !ok || !ok2 || i >= len(l) || s.over() {
						break
					}
					end := i + size
					if end > len(l) {
						end = len(l)
					}
					c := append(append([]interface{}{}, l[:i]...), l[end:]...)
					if !s.replace(at, c) {
						i += size
					}
				}
			}
			cur, _ := get(s.tree(), at)
			l, _ := cur.([]interface{})
			for i := range l {
				visit(append(append(path{}, at...), i))
			}
		case map[string]interface{}:
			keys := make([]string, 0, len(n))
			for k := range n {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				visit(append(append(path{}, at...), k))
			}
		case string:
			if n == "" || s.replace(at, "") {
				return
			}
			for size := len(n) / 2; size >= 1; size /= 2 {
				for i := 0; !s.over(); {
					cur, _ := get(s.tree(), at)
					text, _ := cur.(string)
					str := []rune(text)
					if i >= len(str) {
						break
					}
					end := i + size
					if end > len(str) {
						end = len(str)
					}
					if !s.replace(at, string(str[:i])+string(str[end:])) {
						i += size
					}
				}
				if len(n) > 200 && size < 8 {
					break
				}
			}
		case float64:
			if n == 0 || s.replace(at, 0.0) {
				return
			}
			if n > 1 && s.replace(at, 1.0) {
				return
			}
			for v := n; v > 2; {
				v = float64(int64(v / 2))
				if !s.replace(at, v) {
					break
				}
			}
			if n > 1 {
				cur, _ := get(s.tree(), at)
				if f, ok := cur.(float64); ok {
					s.replace(at, f-1)
				}
			}
		case bool:
			if n {
				s.replace(at, false)
			}
		}
	}
	visit(path{})
	_ = tree
}

func (s *shrinker) tree() interface{} {
	var tree interface{}
	d := json.NewDecoder(bytes.NewReader(encode(s.best)))
	if err := d.Decode(&tree); err != nil {
		panic(err)
	}
	return tree
}

func get(tree interface{}, at path) (interface{}, bool) {
	for _, k := range at {
		switch k := k.(type) {
		case int:
			l, ok := tree.([]interface{})
			if !ok || k >= len(l) {
				return nil, false
			}
			tree = l[k]
		case string:
			m, ok := tree.(map[string]interface{})
			if !ok {
				return nil, false
			}
			v, ok := m[k]
			if !ok {
				return nil, false
			}
			tree = v
		}
	}
	return tree, true
}

func set(tree interface{}, at path, v interface{}) interface{} {
	if len(at) == 0 {
		return v
	}
	switch k := at[0].(type) {
	case int:
		l := append([]interface{}{}, tree.([]interface{})...)
		l[k] = set(l[k], at[1:], v)
		return l
	case string:
		m := map[string]interface{}{}
		for a, b := range tree.(map[string]interface{}) {
			m[a] = b
		}
		m[k] = set(m[k], at[1:], v)
		return m
	}
	return tree
}

func (s *shrinker) replace(at path, v interface{}) bool {
	if s.over() || len(at) == 0 {
		return false
	}
	// Seeds of schedules and map orders are not sizes.
	if k, ok := at[len(at)-1].(string); ok && (k == "seed" || k == "kind" || k == "max_steps") {
		return false
	}
	data, err := json.Marshal(set(s.tree(), at, v))
	if err != nil {
		return false
	}
	return s.accept(data)
}

// SchedConfig draws a scheduling strategy.
func SchedConfig(r *Rand, horizon int) simrt.Config {
	c := simrt.Config{Seed: r.Uint64() >> 12}
	switch r.Intn(8) {
	case 0:
		c.Kind, c.P = simrt.Random, 512
	case 1:
		c.Kind, c.P = simrt.Random, 200
	case 2:
		c.Kind, c.P = simrt.Random, 60
	case 3:
		c.Kind, c.P = simrt.Random, 16
	case 4, 5:
		c.Kind, c.Changes, c.Horizon = simrt.PCT, r.Range(1, 4), horizon
	case 6:
		c.Kind, c.P = simrt.Sites, r.Range(2, 4)
	case 7:
		c.Kind, c.P = simrt.Sites, r.Range(6, 20)
	}
	return c
}
