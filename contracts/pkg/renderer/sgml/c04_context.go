//go:build go1.21

package sgml

import (
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C04: the attributes seen while rendering ----

// SpecCallerWins: everything the caller set is in effect, with the caller's value, and what the caller unset is not
func SpecCallerWins(caller, attrs types.Attributes) bool {
	return forallStr(mapKeys(caller), func(k string) bool {
		return !hasKey(caller, k) || ite(caller[k] == nil, !hasKey(attrs, k), hasKey(attrs, k) && same(attrs[k], caller[k]))
	})
}

//verif:contract (*context).setAttribute props=C04
func contract_context_setAttribute(ctx *context, name string, value interface{}) {
	requires(ctx != nil && ctx.config != nil && ctx.attributes != nil)
	requires(separate(ctx.attributes, ctx.config.Attributes))
	modifies(ctx.attributes)
	ensures(!old(func() bool { return SpecCallerWins(ctx.config.Attributes, ctx.attributes) }) || SpecCallerWins(ctx.config.Attributes, ctx.attributes))
	ensures(hasKey(ctx.config.Attributes, name) || hasKey(ctx.attributes, name) && same(ctx.attributes[name], value))
	ensures(forallStr(mapKeys(ctx.attributes), func(k string) bool {
		h := old(func() bool { return hasKey(ctx.attributes, k) })
		return k == name && !hasKey(ctx.config.Attributes, name) || hasKey(ctx.attributes, k) == h && same(ctx.attributes[k], old(func() interface{} { return ctx.attributes[k] }))
	}))
}

//verif:contract (*context).unsetAttribute props=C04
func contract_context_unsetAttribute(ctx *context, name string) {
	requires(ctx != nil && ctx.config != nil)
	requires(separate(ctx.attributes, ctx.config.Attributes))
	modifies(ctx.attributes)
	ensures(!old(func() bool { return SpecCallerWins(ctx.config.Attributes, ctx.attributes) }) || SpecCallerWins(ctx.config.Attributes, ctx.attributes))
	ensures(hasKey(ctx.config.Attributes, name) || !hasKey(ctx.attributes, name))
	ensures(forallStr(mapKeys(ctx.attributes), func(k string) bool {
		h := old(func() bool { return hasKey(ctx.attributes, k) })
		return k == name && !hasKey(ctx.config.Attributes, name) || hasKey(ctx.attributes, k) == h && same(ctx.attributes[k], old(func() interface{} { return ctx.attributes[k] }))
	}))
}

//verif:contract (*context).setAttributes props=C04
func contract_context_setAttributes(ctx *context, attrs types.Attributes) {
	requires(ctx != nil && ctx.config != nil && ctx.attributes != nil)
	requires(separate(ctx.attributes, ctx.config.Attributes) && separate(ctx.attributes, attrs))
	modifies(ctx.attributes)
	ensures(!old(func() bool { return SpecCallerWins(ctx.config.Attributes, ctx.attributes) }) || SpecCallerWins(ctx.config.Attributes, ctx.attributes))
	ensures(forallStr(mapKeys(attrs), func(k string) bool {
		return !hasKey(attrs, k) || hasKey(ctx.config.Attributes, k) || hasKey(ctx.attributes, k) && same(ctx.attributes[k], attrs[k])
	}))
	ensures(forallStr(mapKeys(ctx.attributes), func(k string) bool {
		h := old(func() bool { return hasKey(ctx.attributes, k) })
		return hasKey(attrs, k) && !hasKey(ctx.config.Attributes, k) || hasKey(ctx.attributes, k) == h && same(ctx.attributes[k], old(func() interface{} { return ctx.attributes[k] }))
	}))
	invariant(func(visited func(string) bool) bool {
		return forallStr(nil, func(k string) bool {
			h := old(func() bool { return hasKey(ctx.attributes, k) })
			o := old(func() interface{} { return ctx.attributes[k] })
			in := hasKey(attrs, k) && !hasKey(ctx.config.Attributes, k) && visited(k)
			return (!visited(k) || hasKey(attrs, k)) &&
				(!in || hasKey(ctx.attributes, k) && same(ctx.attributes[k], attrs[k])) &&
				(in || hasKey(ctx.attributes, k) == h && same(ctx.attributes[k], o))
		})
	})
}

//verif:contract newContext props=C04,C20
func contract_newContext(doc *types.Document, config *configuration.Configuration, result *context) {
	requires(doc != nil && config != nil && types.SpecHeadersOK(doc.Elements))
	ensures(result != nil && result.config == config)
	ensures(fresh(result) && fresh(result.attributes) && result.attributes != nil)
	ensures(SpecCallerWins(config.Attributes, result.attributes))
	ensures(fresh(result.counters) && len(result.counters) == 0)
	invariant(func(visited func(string) bool) bool {
		return forallStr(nil, func(k string) bool {
			return !visited(k) || hasKey(config.Attributes, k)
		})
	})
	invariant(func(ctx *context, visited func(string) bool) bool {
		return forallStr(nil, func(k string) bool {
			return hasKey(ctx.attributes, k) == (hasKey(config.Attributes, k) && (config.Attributes[k] != nil || !visited(k)))
		})
	})
	invariant(func(ctx *context) bool {
		return forallStr(nil, func(k string) bool {
			return !hasKey(ctx.attributes, k) || same(ctx.attributes[k], config.Attributes[k])
		})
	})
}

// ---- C10: the numbers of captioned blocks ----

//verif:contract (*context).getAndIncrementCounter props=C10
func contract_context_getAndIncrementCounter(ctx *context, name string, result int) {
	requires(ctx != nil && ctx.counters != nil)
	modifies(ctx.counters)
	h := old(func() bool { return hasKey(ctx.counters, name) })
	o := old(func() int { return ctx.counters[name] })
	ensures(result == ite(h, o+1, 1))
	ensures(hasKey(ctx.counters, name) && ctx.counters[name] == result)
	ensures(forallStr(mapKeys(ctx.counters), func(k string) bool {
		hk := old(func() bool { return hasKey(ctx.counters, k) })
		return k == name || hasKey(ctx.counters, k) == hk && ctx.counters[k] == old(func() int { return ctx.counters[k] })
	}))
}

//verif:contract (*context).GetAndIncrementTableCounter props=C10
func contract_context_GetAndIncrementTableCounter(ctx *context, result int) {
	requires(ctx != nil && ctx.counters != nil)
	modifies(ctx.counters)
	ensures(result == old(func() int { return SpecNext(ctx.counters, tableCounter) }))
	ensures(SpecNext(ctx.counters, tableCounter) == result+1)
	ensures(SpecNext(ctx.counters, imageCounter) == old(func() int { return SpecNext(ctx.counters, imageCounter) }))
	ensures(SpecNext(ctx.counters, exampleBlockCounter) == old(func() int { return SpecNext(ctx.counters, exampleBlockCounter) }))
}

//verif:contract (*context).GetAndIncrementImageCounter props=C10
func contract_context_GetAndIncrementImageCounter(ctx *context, result int) {
	requires(ctx != nil && ctx.counters != nil)
	modifies(ctx.counters)
	ensures(result == old(func() int { return SpecNext(ctx.counters, imageCounter) }))
	ensures(SpecNext(ctx.counters, imageCounter) == result+1)
	ensures(SpecNext(ctx.counters, tableCounter) == old(func() int { return SpecNext(ctx.counters, tableCounter) }))
	ensures(SpecNext(ctx.counters, exampleBlockCounter) == old(func() int { return SpecNext(ctx.counters, exampleBlockCounter) }))
}

//verif:contract (*context).GetAndIncrementExampleBlockCounter props=C10
func contract_context_GetAndIncrementExampleBlockCounter(ctx *context, result int) {
	requires(ctx != nil && ctx.counters != nil)
	modifies(ctx.counters)
	ensures(result == old(func() int { return SpecNext(ctx.counters, exampleBlockCounter) }))
	ensures(SpecNext(ctx.counters, exampleBlockCounter) == result+1)
	ensures(SpecNext(ctx.counters, tableCounter) == old(func() int { return SpecNext(ctx.counters, tableCounter) }))
	ensures(SpecNext(ctx.counters, imageCounter) == old(func() int { return SpecNext(ctx.counters, imageCounter) }))
}

// SpecNext: the next number of a counter
func SpecNext(counters map[string]int, name string) int {
	if n, ok := counters[name]; ok {
		return n + 1
	}
	return 1
}
