//go:build go1.21

package parser

import (
	"strconv"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C10: counters ----

// SpecIsCounterValue: what a counter may hold
func SpecIsCounterValue(v interface{}) bool {
	switch v.(type) {
	case int, rune:
		return true
	}
	return false
}

// SpecCounterText: how a value of a counter is printed
func SpecCounterText(v interface{}) string {
	switch v := v.(type) {
	case int:
		return strconv.Itoa(v)
	case rune:
		return string(v)
	}
	return ""
}

// SpecCounterSucc: the value which comes next, given the current one (nil when the counter was not used
// yet) and the start value (nil when there is none)
func SpecCounterSucc(current, start interface{}) interface{} {
	switch v := current.(type) {
	case int:
		return v + 1
	case rune:
		return v + 1
	}
	if start != nil {
		return start
	}
	return 1
}

//verif:contract valueForCounter props=C10
func contract_valueForCounter(ctx *ParseContext, c *types.CounterSubstitution, result string, err error) {
	requires(ctx != nil && c != nil && ctx.counters != nil)
	requires(c.Value == nil || SpecIsCounterValue(c.Value))
	requires(ctx.counters[c.Name] == nil || SpecIsCounterValue(ctx.counters[c.Name]))
	modifies(ctx.counters)
	next := old(func() interface{} { return SpecCounterSucc(ctx.counters[c.Name], c.Value) })
	ensures(err == nil)
	ensures(hasKey(ctx.counters, c.Name) && same(ctx.counters[c.Name], next))
	ensures(SpecIsCounterValue(ctx.counters[c.Name]))
	ensures(result == ite(c.Hidden, "", SpecCounterText(next)))
	ensures(forallStr(mapKeys(ctx.counters), func(k string) bool {
		h := old(func() bool { return hasKey(ctx.counters, k) })
		o := old(func() interface{} { return ctx.counters[k] })
		return k == c.Name || hasKey(ctx.counters, k) == h && same(ctx.counters[k], o)
	}))
}

// SpecCountersOK: the counters hold numbers and letters only
func SpecCountersOK(counters map[string]interface{}) bool {
	return forallStr(mapKeys(counters), func(k string) bool {
		return !hasKey(counters, k) || counters[k] == nil || SpecIsCounterValue(counters[k])
	})
}

//verif:contract (*ParseContext).Clone props=C04,C10 nonative
func contract_ParseContext_Clone(c *ParseContext, result *ParseContext) {
	requires(c != nil && c.attributes != nil && c.attributes.mutex != nil)
	ensures(result != nil && fresh(result))
	// counters are shared, so that uses on both sides get different values
	ensures(same(result.counters, c.counters))
}

//verif:contract NewParseContext props=C10
func contract_NewParseContext(config *configuration.Configuration, opts []Option, result *ParseContext) {
	requires(config != nil)
	ensures(result != nil && fresh(result.counters) && result.counters != nil && len(result.counters) == 0)
}
