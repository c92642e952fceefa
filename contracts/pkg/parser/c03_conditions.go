//go:build go1.21

package parser

import (
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C03: the stack of open conditions; C04: the attributes they see ----

// specAllHold: every open condition evaluated to true
func specAllHold(cs []condition) bool {
	return forall(0, len(cs), func(i int) bool { return cs[i].eval })
}

//verif:contract (*conditions).eval props=C03
func contract_conditions_eval(c *conditions, result bool) {
	requires(c != nil)
	ensures(result == specAllHold(c.elements))
	invariant(func(i int) bool { return forall(0, i, func(k int) bool { return c.elements[k].eval }) })
}

//verif:contract (*conditions).pop props=C03
func contract_conditions_pop(c *conditions, result bool) {
	requires(c != nil)
	modifies(c)
	n := old(func() int { return len(c.elements) })
	ensures(len(c.elements) == ite(n == 0, 0, n-1))
	ensures(seqEq(c.elements, old(func() []condition { return c.elements })[:len(c.elements)]))
	ensures(result == specAllHold(c.elements))
}

//verif:contract (*conditions).push props=C03 nonative
func contract_conditions_push(c *conditions, ctx *ParseContext, element types.ConditionalInclusion, result bool) {
	requires(c != nil && ctx != nil && ctx.attributes != nil && element != nil && types.SpecSound(element))
	modifies(c, c.elements)
	n := old(func() int { return len(c.elements) })
	ensures(len(c.elements) == n+1)
	ensures(forall(0, n, func(i int) bool { return same(c.elements[i], old(func() []condition { return c.elements })[i]) }))
	ensures(result == specAllHold(c.elements))
}

func bothKeys(a *contextAttributes) []string {
	return append(mapKeys(a.attributes), mapKeys(a.immutableAttributes)...)
}

// specVisible: what an attribute name resolves to: the caller's value first (nil: the caller unsets it)
func specVisible(a *contextAttributes, k string) (interface{}, bool) {
	if hasKey(a.immutableAttributes, k) {
		return a.immutableAttributes[k], a.immutableAttributes[k] != nil
	}
	return a.attributes[k], hasKey(a.attributes, k)
}

//verif:contract (*contextAttributes).get props=C04,C20
func contract_contextAttributes_get(a *contextAttributes, k string, v interface{}, found bool) {
	requires(a != nil)
	sv, sf := specVisible(a, k)
	ensures(found == sf)
	ensures(!found || same(v, sv))
}

//verif:contract (*contextAttributes).allAttributes props=C03,C04,C20
func contract_contextAttributes_allAttributes(a *contextAttributes, result map[string]interface{}) {
	requires(a != nil)
	ensures(fresh(result))
	ensures(forallStr(bothKeys(a), func(k string) bool {
		v, f := specVisible(a, k)
		return hasKey(result, k) == f && (!f || same(result[k], v))
	}))
	invariant(func(result map[string]interface{}, visited func(string) bool) bool {
		return forallStr(nil, func(k string) bool {
			return hasKey(result, k) == (hasKey(a.attributes, k) && visited(k)) && (!hasKey(result, k) || same(result[k], a.attributes[k]))
		})
	})
	invariant(func(result map[string]interface{}, visited func(string) bool) bool {
		return forallStr(nil, func(k string) bool {
			return (!visited(k) || hasKey(a.immutableAttributes, k)) &&
				hasKey(result, k) == ite(visited(k), a.immutableAttributes[k] != nil, hasKey(a.attributes, k)) &&
				(!hasKey(result, k) || same(result[k], ite(visited(k), a.immutableAttributes[k], a.attributes[k])))
		})
	})
}

//verif:contract (*contextAttributes).set props=C04
func contract_contextAttributes_set(a *contextAttributes, k string, v interface{}) {
	requires(a != nil && a.mutex != nil && a.attributes != nil)
	requires(separate(a.attributes, a.immutableAttributes))
	modifies(a.attributes)
	ensures(hasKey(a.attributes, k) && same(a.attributes[k], v))
	ensures(forallStr(mapKeys(a.attributes), func(n string) bool {
		o := old(func() bool { return hasKey(a.attributes, n) })
		return n == k || hasKey(a.attributes, n) == o && (!o || same(a.attributes[n], old(func() interface{} { return a.attributes[n] })))
	}))
}

//verif:contract (*contextAttributes).unset props=C04
func contract_contextAttributes_unset(a *contextAttributes, k string) {
	requires(a != nil && a.mutex != nil)
	requires(separate(a.attributes, a.immutableAttributes))
	modifies(a.attributes)
	ensures(!hasKey(a.attributes, k))
	ensures(forallStr(mapKeys(a.attributes), func(n string) bool {
		o := old(func() bool { return hasKey(a.attributes, n) })
		return n == k || hasKey(a.attributes, n) == o && (!o || same(a.attributes[n], old(func() interface{} { return a.attributes[n] })))
	}))
}

//verif:contract newContextAttributes props=C04,C20
func contract_newContextAttributes(attrs types.Attributes, result *contextAttributes) {
	ensures(result != nil && fresh(result) && result.mutex != nil && result.attributes != nil && fresh(result.attributes))
	ensures(len(result.attributes) == 0)
	ensures(forallStr(mapKeys(attrs), func(k string) bool {
		return hasKey(result.immutableAttributes, k) == hasKey(attrs, k) && (!hasKey(attrs, k) || same(result.immutableAttributes[k], attrs[k]))
	}))
}

//verif:contract (*contextAttributes).clone props=C03,C04
func contract_contextAttributes_clone(a *contextAttributes, result *contextAttributes) {
	requires(a != nil && a.mutex != nil)
	ensures(result != nil && fresh(result) && fresh(result.attributes) && result.attributes != nil && result.mutex != nil)
	ensures(forallStr(bothKeys(a), func(k string) bool {
		return hasKey(result.immutableAttributes, k) == hasKey(a.immutableAttributes, k) &&
			(!hasKey(a.immutableAttributes, k) || same(result.immutableAttributes[k], a.immutableAttributes[k])) &&
			hasKey(result.attributes, k) == hasKey(a.attributes, k) &&
			(!hasKey(a.attributes, k) || same(result.attributes[k], a.attributes[k]))
	}))
}

// ---- output gated by the conditions ----

func specJoin(before string, insertLF bool, s string) string {
	return before + ite(insertLF, "\n", "") + s
}

//verif:contract (*builder).WriteString props=C03,C15
func contract_builder_WriteString(b *builder, s string) {
	requires(b != nil)
	modifies(b)
	before := old(func() string { return b.String() })
	on := old(func() bool { return b.enabled })
	lf := old(func() bool { return b.insertLF })
	// nothing gets through while an enclosing condition does not hold; otherwise the whole line does, on a line of its own
	ensures(b.String() == ite(on, specJoin(before, lf, s), before))
	ensures(b.insertLF == (lf || on))
	ensures(b.enabled == on)
}

//verif:contract (*builder).Write props=C03,C15
func contract_builder_Write(b *builder, p []byte) {
	requires(b != nil)
	modifies(b)
	before := old(func() string { return b.String() })
	on := old(func() bool { return b.enabled })
	lf := old(func() bool { return b.insertLF })
	ensures(b.String() == ite(on, specJoin(before, lf, string(p)), before))
	ensures(b.insertLF == (lf || on))
	ensures(b.enabled == on)
}

//verif:contract (*builder).doInsertLF props=C03
func contract_builder_doInsertLF(b *builder) {
	requires(b != nil)
	modifies(b)
	ensures(b.String() == old(func() string { return b.String() })+ite(old(func() bool { return b.insertLF }), "\n", ""))
	ensures(b.insertLF && b.enabled == old(func() bool { return b.enabled }))
}

//verif:contract (*contextAttributes).setAll props=C04
func contract_contextAttributes_setAll(a *contextAttributes, attrs map[string]interface{}) {
	requires(a != nil && a.mutex != nil && a.attributes != nil)
	requires(separate(a.attributes, a.immutableAttributes) && separate(a.attributes, attrs))
	modifies(a.attributes)
	ensures(forallStr(append(mapKeys(a.attributes), mapKeys(attrs)...), func(n string) bool {
		o := old(func() bool { return hasKey(a.attributes, n) })
		if hasKey(attrs, n) {
			return hasKey(a.attributes, n) && same(a.attributes[n], attrs[n])
		}
		return hasKey(a.attributes, n) == o && (!o || same(a.attributes[n], old(func() interface{} { return a.attributes[n] })))
	}))
	invariant(func(visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			o := old(func() bool { return hasKey(a.attributes, n) })
			if visited(n) && hasKey(attrs, n) {
				return hasKey(a.attributes, n) && same(a.attributes[n], attrs[n])
			}
			return hasKey(a.attributes, n) == o && (!o || same(a.attributes[n], old(func() interface{} { return a.attributes[n] })))
		})
	})
}

//verif:contract (*contextAttributes).getAsIntWithDefault props=C04
func contract_contextAttributes_getAsIntWithDefault(a *contextAttributes, k string, defaultValue int, result int) {
	requires(a != nil)
	sv, sf := specVisible(a, k)
	ensures(result == types.SpecInt(sv, sf, defaultValue))
}
