package verifharness

import (
	"bytes"
	"encoding/json"
	"sort"
	"time"
)

// shrinkJSON reduces a failing case structurally: it drops array elements and object members,
// and simplifies scalars, as long as the case still fails.
func shrinkJSON(text []byte, fails func(text []byte) bool, limit time.Duration) []byte {
	deadline := time.Now().Add(limit)
	for {
		root := parseJSON(text)
		improved := false
		for _, edit := range edits(root) {
			if time.Now().After(deadline) {
				return text
			}
			undo := edit()
			if undo == nil {
				continue
			}
			candidate, err := json.Marshal(root)
			if err == nil && len(candidate) <= len(text) && !bytes.Equal(candidate, text) && fails(candidate) {
				text = candidate
				improved = true
				continue
			}
			undo()
		}
		if !improved {
			return text
		}
	}
}

func parseJSON(text []byte) (root any) {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	if err := dec.Decode(&root); err != nil {
		panic(harnessError(err.Error()))
	}
	return &node{root}
}

// node boxes the root so that every value has a parent.
type node struct{ v any }

func (n *node) MarshalJSON() ([]byte, error) { return json.Marshal(n.v) }

type edit func() (undo func())

func edits(root any) (list []edit) {
	n := root.(*node)
	walk(n.v, func(v any) { n.v = v }, &list)
	return
}

func walk(v any, set func(any), list *[]edit) {
	switch x := v.(type) {
	case []any:
		// Arrays are boxed so that several edits of one array compose.
		box := &arrayBox{items: append([]any(nil), x...), set: set}
		for size := len(x) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(x); at += size {
				*list = append(*list, box.drop(at, size))
			}
		}
		for i, item := range x {
			walk(item, func(v any) {
				for j := range box.items {
					if box.index(j) == i {
						box.items[j] = v
					}
				}
				box.flush()
			}, list)
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			*list = append(*list, func() func() {
				old, ok := x[k]
				if !ok {
					return nil
				}
				delete(x, k)
				return func() { x[k] = old }
			})
		}
		for _, k := range keys {
			walk(x[k], func(v any) {
				if _, ok := x[k]; ok {
					x[k] = v
				}
			}, list)
		}
	case json.Number:
		for _, s := range []json.Number{"0", "1", "2"} {
			if x != s && len(s) <= len(x) {
				*list = append(*list, func() func() { set(s); return func() { set(x) } })
			}
		}
	case bool:
		if x {
			*list = append(*list, func() func() { set(false); return func() { set(true) } })
		}
	}
}

// arrayBox tracks which of an array's original items remain.
type arrayBox struct {
	items []any
	ids   []int
	set   func(any)
}

func (b *arrayBox) index(j int) int {
	if b.ids == nil {
		return j
	}
	return b.ids[j]
}

func (b *arrayBox) flush() { b.set(append([]any(nil), b.items...)) }

func (b *arrayBox) drop(at, size int) edit {
	return func() func() {
		if b.ids == nil {
			b.ids = make([]int, len(b.items))
			for i := range b.ids {
				b.ids[i] = i
			}
		}
		oldItems, oldIDs := b.items, b.ids
		var items []any
		var ids []int
		for j, id := range oldIDs {
			if id < at || id >= at+size {
				items = append(items, oldItems[j])
				ids = append(ids, id)
			}
		}
		if len(ids) == len(oldIDs) {
			return nil
		}
		if items == nil {
			items, ids = []any{}, []int{}
		}
		b.items, b.ids = items, ids
		b.flush()
		return func() { b.items, b.ids = oldItems, oldIDs; b.flush() }
	}
}
