//go:build go1.21

package types

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- C18: attribute maps ----

//verif:contract Attributes.Clone props=C04,C18
func contract_Attributes_Clone(a Attributes, result Attributes) {
	ensures(result != nil && fresh(result))
	ensures(forallStr(mapKeys(a), func(k string) bool {
		return hasKey(result, k) == hasKey(a, k) && (!hasKey(a, k) || same(result[k], a[k]))
	}))
	invariant(func(result Attributes, visited func(string) bool) bool {
		return forallStr(nil, func(k string) bool {
			return hasKey(result, k) == (hasKey(a, k) && visited(k)) && (!hasKey(result, k) || same(result[k], a[k]))
		})
	})
}

// SpecInt: the integer a value stands for
func SpecInt(v interface{}, found bool, dflt int) int {
	if !found {
		return dflt
	}
	if n, ok := v.(int); ok {
		return n
	}
	if s, ok := v.(string); ok {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return dflt
}

//verif:contract Attributes.GetAsIntWithDefault props=C04,C18
func contract_Attributes_GetAsIntWithDefault(a Attributes, key string, defaultValue int, result int) {
	ensures(result == SpecInt(a[key], hasKey(a, key), defaultValue))
}

//verif:contract Attributes.Has props=C04,C18
func contract_Attributes_Has(a Attributes, key string, result bool) {
	ensures(result == hasKey(a, key))
}

//verif:contract Attributes.GetAsString props=C18
func contract_Attributes_GetAsString(a Attributes, k string, s string, ok bool) {
	v, isString := a[k].(string)
	ensures(ok == isString)
	ensures(s == ite(isString, v, ""))
}

// SpecGetString: a value as a text, or the default if there is none; a nil value stands for the empty text
func SpecGetString(a Attributes, key, dflt string) string {
	if !hasKey(a, key) {
		return dflt
	}
	if a[key] == nil {
		return ""
	}
	if s, ok := a[key].(string); ok {
		return s
	}
	return fmt.Sprintf("%v", a[key])
}

//verif:contract Attributes.GetAsStringWithDefault props=C06,C18
func contract_Attributes_GetAsStringWithDefault(a Attributes, key, defaultValue string, result string) {
	ensures(result == SpecGetString(a, key, defaultValue))
}

//verif:contract Attributes.Unset props=C18
func contract_Attributes_Unset(a Attributes, key string) {
	modifies(a)
	ensures(!hasKey(a, key))
	ensures(forallStr(mapKeys(a), func(n string) bool {
		o := old(func() bool { return hasKey(a, n) })
		return n == key || hasKey(a, n) == o && (!o || same(a[n], old(func() interface{} { return a[n] })))
	}))
}


// SpecAttrTarget: the name under which an attribute is kept (the roles and the options are grouped)
func SpecAttrTarget(key string) string {
	if key == AttrRole {
		return AttrRoles
	}
	if key == AttrOption {
		return AttrOptions
	}
	return key
}

// SpecRoles: the roles which are kept
func SpecRoles(a Attributes) Roles {
	r, _ := a[AttrRoles].(Roles)
	return r
}

// SpecOptions: the options which are kept
func SpecOptions(a Attributes) Options {
	o, _ := a[AttrOptions].(Options)
	return o
}

//verif:contract Attributes.Set props=C18
func contract_Attributes_Set(a Attributes, key string, value interface{}, result Attributes) {
	requires(valid(SpecRoles(a)) && valid(SpecOptions(a)))
	modifies(a, SpecRoles(a), SpecOptions(a))
	ensures(result != nil && (a == nil || same(result, a)))
	// the other attributes are left as they were
	ensures(forallStr(mapKeys(result), func(n string) bool {
		o := old(func() bool { return hasKey(a, n) })
		return n == SpecAttrTarget(key) || hasKey(result, n) == o && (!o || same(result[n], old(func() interface{} { return a[n] })))
	}))
	// the last value wins
	grouped := key == AttrRole || key == AttrRoles || key == AttrOption || key == AttrOptions
	ensures(grouped || hasKey(result, key) && same(result[key], value))
	// the roles and the options are added to those which are there
	nr := old(func() int { return len(SpecRoles(a)) })
	no := old(func() int { return len(SpecOptions(a)) })
	apart := old(func() bool { return separate(SpecRoles(a), SpecOptions(a)) })
	ensures(!apart || len(SpecRoles(result)) >= nr && forall(0, nr, func(i int) bool {
		return same(SpecRoles(result)[i], old(func() interface{} { return SpecRoles(a)[i] }))
	}))
	ensures(!apart || len(SpecOptions(result)) >= no && forall(0, no, func(i int) bool {
		return same(SpecOptions(result)[i], old(func() interface{} { return SpecOptions(a)[i] }))
	}))
	ensures(key != AttrRole || len(SpecRoles(result)) == nr+1 && same(SpecRoles(result)[nr], value))
	ensures(key != AttrOption || len(SpecOptions(result)) == no+1 && same(SpecOptions(result)[no], value))
	vr, isRoles := value.(Roles)
	ensures(key != AttrRoles || len(SpecRoles(result)) == nr+ite(isRoles, len(vr), 0))
	ensures(key != AttrRoles || !isRoles || forall(0, len(vr), func(i int) bool {
		return same(SpecRoles(result)[nr+i], old(func() interface{} { return vr[i] }))
	}))
	vo, isOptions := value.(Options)
	ensures(key != AttrOptions || !isOptions || len(SpecOptions(result)) == no+len(vo))
	ensures(key != AttrOptions || !isOptions || forall(0, len(vo), func(i int) bool {
		return same(SpecOptions(result)[no+i], old(func() interface{} { return vo[i] }))
	}))
	vs, isString := value.(string)
	names := strings.Split(vs, ",")
	ensures(key != AttrOptions || isOptions || isString || len(SpecOptions(result)) == no+1 && same(SpecOptions(result)[no], value))
	ensures(key != AttrOptions || !isString || len(SpecOptions(result)) == no+len(names))
	ensures(key != AttrOptions || !isString || forall(0, len(names), func(i int) bool {
		s, ok := SpecOptions(result)[no+i].(string)
		return ok && s == strings.TrimSpace(names[i])
	}))
	invariant(func(options Options, i int) bool {
		return 0 <= i && len(options) == i+old(func() int { return len(SpecOptions(a)) })
	})
	invariant(func(options Options) bool {
		// the roles are not changed by the options
		return !separate(SpecRoles(a), SpecOptions(a)) || forall(0, old(func() int { return len(SpecRoles(a)) }), func(j int) bool {
			return same(SpecRoles(a)[j], old(func() interface{} { return SpecRoles(a)[j] }))
		})
	})
	invariant(func(options Options) bool {
		return forall(0, old(func() int { return len(SpecOptions(a)) }), func(j int) bool {
			return same(options[j], old(func() interface{} { return SpecOptions(a)[j] }))
		})
	})
	invariant(func(options Options, i int) bool {
		return forall(0, i, func(j int) bool {
			s, ok := options[old(func() int { return len(SpecOptions(a)) })+j].(string)
			vs, _ := value.(string)
			return ok && s == strings.TrimSpace(strings.Split(vs, ",")[j])
		})
	})
}

// SpecNormal: no attribute is kept under the singular names
func SpecNormal(a Attributes) bool {
	return !hasKey(a, AttrRole) && !hasKey(a, AttrOption)
}

// SpecGrouped: the attributes of which the values accumulate
func SpecGrouped(n string) bool {
	return n == AttrRole || n == AttrRoles || n == AttrOption || n == AttrOptions
}

//verif:contract Attributes.AddAll props=C18 havoc nouse
func contract_Attributes_AddAll(a Attributes, others Attributes, result Attributes) {
	requires(a == nil || !same(a, others))
	modifies(a)
	before := a
	ensures(others == nil || result != nil)
	ensures(a == nil || same(result, a))
	ensures(others != nil || same(result, a))
	// the given values replace the previous ones (the roles and the options excepted), the other attributes are left as they were
	ensures(forallStr(mapKeys(result), func(n string) bool {
		given := old(func() bool { return hasKey(others, n) })
		return SpecGrouped(n) || !given || hasKey(result, n) && same(result[n], old(func() interface{} { return others[n] }))
	}))
	ensures(forallStr(mapKeys(result), func(n string) bool {
		given := old(func() bool { return hasKey(others, n) })
		had := old(func() bool { return hasKey(a, n) })
		return SpecGrouped(n) || given || hasKey(result, n) == had && (!had || same(result[n], old(func() interface{} { return a[n] })))
	}))
	invariant(func(a Attributes, visited func(string) bool) bool {
		return a != nil && !same(a, others)
	})
	invariant(func(a Attributes, visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			given := old(func() bool { return hasKey(others, n) })
			return hasKey(others, n) == given && (!given || same(others[n], old(func() interface{} { return others[n] })))
		})
	})
	invariant(func(a Attributes, visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			return SpecGrouped(n) || !(hasKey(others, n) && visited(n)) || hasKey(a, n) && same(a[n], others[n])
		})
	})
	invariant(func(a Attributes, visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			had := old(func() bool { return hasKey(before, n) })
			return SpecGrouped(n) || hasKey(others, n) && visited(n) || hasKey(a, n) == had && (!had || same(a[n], old(func() interface{} { return before[n] })))
		})
	})
}

// SpecHasOpt: option is in the list
func SpecHasOpt(opts Options, key string) bool {
	return exists(0, len(opts), func(i int) bool { return opts[i] == key })
}

//verif:contract Attributes.HasOption props=C18
func contract_Attributes_HasOption(a Attributes, key string, result bool) {
	ensures(result == (SpecHasOpt(SpecOptions(a), key) || hasKey(a, key)))
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return SpecOptions(a)[i] != key })
	})
}

//verif:contract Attributes.GetAsBoolWithDefault props=C18
func contract_Attributes_GetAsBoolWithDefault(a Attributes, key string, defaultValue bool, result bool) {
	b, isBool := a[key].(bool)
	s, isString := a[key].(string)
	v, err := strconv.ParseBool(s)
	ensures(!isBool || result == b)
	ensures(!isString || result == ite(err == nil, v, defaultValue))
	ensures(isBool || isString || result == defaultValue)
}

//verif:contract (*PositionalAttribute).Key props=C18
func contract_PositionalAttribute_Key(a *PositionalAttribute, result string) {
	requires(a != nil)
	ensures(result == AttrPositionalIndex+strconv.Itoa(a.Index))
}

//verif:contract HasPositionalAttribute props=C18
func contract_HasPositionalAttribute(attributes []interface{}, result bool) {
	ensures(result == exists(0, len(attributes), func(i int) bool {
		_, ok := attributes[i].(*PositionalAttribute)
		return ok
	}))
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool {
			_, ok := attributes[i].(*PositionalAttribute)
			return !ok
		})
	})
}

// SpecIsTarget: attributes are moved to n by the mapping
func SpecIsTarget(mapping map[string]string, n string) bool {
	return existsStr(mapKeys(mapping), func(k string) bool { return hasKey(mapping, k) && mapping[k] == n })
}

// SpecMoves: the mapping is a renaming: two positions do not have the same name, the names are not positions
func SpecMoves(mapping map[string]string) bool {
	return forallStr(mapKeys(mapping), func(k string) bool {
		return !hasKey(mapping, k) || !hasKey(mapping, mapping[k]) && forallStr(mapKeys(mapping), func(l string) bool {
			return !hasKey(mapping, l) || l == k || mapping[l] != mapping[k]
		})
	})
}

//verif:contract toAttributesWithMapping props=C18
func contract_toAttributesWithMapping(attrs interface{}, mapping map[string]string, result Attributes) {
	requires(SpecMoves(mapping))
	a, ok := attrs.(Attributes)
	modifies(a)
	before := a
	ensures(ok || result == nil)
	ensures(result == nil || same(result, a))
	// positional attributes have a name now
	ensures(!ok || forallStr(mapKeys(mapping), func(n string) bool {
		return !hasKey(mapping, n) || !hasKey(a, n)
	}))
	// what has another name is left as it was
	ensures(forallStr(mapKeys(a), func(n string) bool {
		o := old(func() bool { return hasKey(before, n) })
		return hasKey(mapping, n) || SpecIsTarget(mapping, n) || hasKey(a, n) == o && (!o || same(a[n], old(func() interface{} { return before[n] })))
	}))
	// an attribute given by its name takes precedence
	ensures(forallStr(mapKeys(a), func(n string) bool {
		o := old(func() bool { return hasKey(before, n) })
		return hasKey(mapping, n) || !o || n == AttrRoles || hasKey(a, n) && same(a[n], old(func() interface{} { return before[n] }))
	}))
	invariant(func(visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			return !hasKey(mapping, n) || !visited(n) || !hasKey(before, n)
		})
	})
	invariant(func(visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			o := old(func() bool { return hasKey(before, n) })
			return SpecIsTarget(mapping, n) || hasKey(mapping, n) || hasKey(before, n) == o && (!o || same(before[n], old(func() interface{} { return before[n] })))
		})
	})
	invariant(func(visited func(string) bool) bool {
		return forallStr(nil, func(n string) bool {
			o := old(func() bool { return hasKey(before, n) })
			return hasKey(mapping, n) || !o || n == AttrRoles || hasKey(before, n) && same(before[n], old(func() interface{} { return before[n] }))
		})
	})
}

// SpecPositionals: how many of the first n attributes are positional ones
func SpecPositionals(attributes []interface{}, n int) int {
	if n <= 0 {
		return 0
	}
	if _, ok := attributes[n-1].(*PositionalAttribute); ok {
		return SpecPositionals(attributes, n-1) + 1
	}
	return SpecPositionals(attributes, n-1)
}

// SpecIsAttribute: an attribute, named or positional
func SpecIsAttribute(v interface{}) bool {
	_, named := v.(*Attribute)
	_, positional := v.(*PositionalAttribute)
	return named || positional
}

// SpecNilAttribute: there is no attribute behind the pointer
func SpecNilAttribute(v interface{}) bool {
	n, named := v.(*Attribute)
	p, positional := v.(*PositionalAttribute)
	return named && n == nil || positional && p == nil
}

// SpecLastValue: the last value given to a name among the first n attributes
func SpecLastValue(attributes []interface{}, key string, n int) interface{} {
	if n <= 0 {
		return nil
	}
	switch a := attributes[n-1].(type) {
	case *Attribute:
		if a.Key == key {
			return a.Value
		}
	case *PositionalAttribute:
		if AttrPositionalIndex+strconv.Itoa(SpecPositionals(attributes, n)) == key {
			return a.Value
		}
	}
	return SpecLastValue(attributes, key, n-1)
}

//verif:bounded NewAttributes props=C18 n=4000
func contract_NewAttributes(attributes []interface{}, result Attributes, err error) {
	requires(forall(0, len(attributes), func(i int) bool { return !SpecNilAttribute(attributes[i]) }))
	n := len(attributes)
	ensures((err == nil) == forall(0, n, func(i int) bool { return SpecIsAttribute(attributes[i]) }))
	ensures((result == nil) == (n == 0 || err != nil))
	// every attribute which was given is there, and the last value given to a name is the one in effect
	ensures(err != nil || forall(0, n, func(i int) bool {
		a, ok := attributes[i].(*Attribute)
		return !ok || SpecGrouped(a.Key) || hasKey(result, a.Key) && same(result[a.Key], SpecLastValue(attributes, a.Key, n))
	}))
	ensures(err != nil || forall(0, n, func(i int) bool {
		a, ok := attributes[i].(*PositionalAttribute)
		return !ok || a.Index == SpecPositionals(attributes, n) || exists(0, n, func(j int) bool { return j > i && attributes[j] == attributes[i] }) || a.Index == SpecPositionals(attributes, i+1) && hasKey(result, AttrPositionalIndex+strconv.Itoa(a.Index))
	}))
	// there is nothing else
	ensures(forallStr(mapKeys(result), func(k string) bool {
		return !hasKey(result, k) || SpecGrouped(k) || same(result[k], SpecLastValue(attributes, k, n))
	}))
}

// SpecLastSet: the last value given to a name by the first n sets of attributes
func SpecLastSet(attributes []interface{}, key string, n int) interface{} {
	if n <= 0 {
		return nil
	}
	switch a := attributes[n-1].(type) {
	case *Attribute:
		if a.Key == key {
			return a.Value
		}
	case Attributes:
		if hasKey(a, key) {
			return a[key]
		}
	}
	return SpecLastSet(attributes, key, n-1)
}

// SpecRolesIn: the roles given by the first n sets of attributes, in their order
func SpecRolesIn(attributes []interface{}, n int) []interface{} {
	if n <= 0 {
		return nil
	}
	before := SpecRolesIn(attributes, n-1)
	switch a := attributes[n-1].(type) {
	case *Attribute:
		if a.Key == AttrRole {
			return append(before[:len(before):len(before)], a.Value)
		}
	case Attributes:
		return append(before[:len(before):len(before)], SpecRoles(a)...)
	}
	return before
}

//verif:bounded MergeAttributes props=C18 n=4000
func contract_MergeAttributes(attributes []interface{}, result Attributes, err error) {
	n := len(attributes)
	ensures(forallStr(mapKeys(result), func(k string) bool {
		return SpecGrouped(k) || !hasKey(result, k) || same(result[k], SpecLastSet(attributes, k, n))
	}))
	ensures(err != nil || forall(0, n, func(i int) bool {
		a, ok := attributes[i].(*Attribute)
		return !ok || SpecGrouped(a.Key) || hasKey(result, a.Key)
	}))
	ensures(err != nil || forall(0, n, func(i int) bool {
		a, ok := attributes[i].(Attributes)
		return !ok || forallStr(mapKeys(a), func(k string) bool { return !hasKey(a, k) || hasKey(result, k) })
	}))
	// the roles are kept together, in their order
	roles := SpecRolesIn(attributes, n)
	ensures(err != nil || len(SpecRoles(result)) == len(roles) && forall(0, len(roles), func(i int) bool {
		return SpecRoles(result)[i] == roles[i]
	}))
}

// SpecAttributeKey: the name of an attribute, without spaces around; the short name of the options stands for them
func SpecAttributeKey(key string) string {
	if strings.TrimSpace(key) == AttrOpts {
		return AttrOptions
	}
	return strings.TrimSpace(key)
}

//verif:contract NewNamedAttribute props=C18
func contract_NewNamedAttribute(key string, value interface{}, result *Attribute, err error) {
	ensures(err == nil)
	ensures(result != nil && fresh(result))
	ensures(result.Key == SpecAttributeKey(key))
	ensures(same(result.Value, value))
}

//verif:contract NewTitleAttribute props=C18
func contract_NewTitleAttribute(value interface{}, result *Attribute, err error) {
	ensures(err == nil)
	ensures(result != nil && result.Key == SpecAttributeKey(AttrTitle))
	ensures(same(result.Value, value))
}

//verif:contract NewRoleAttribute props=C18
func contract_NewRoleAttribute(value interface{}, result *Attribute, err error) {
	ensures(err == nil)
	ensures(result != nil && result.Key == SpecAttributeKey(AttrRole))
	ensures(same(result.Value, value))
}

//verif:contract NewIDAttribute props=C18
func contract_NewIDAttribute(value interface{}, result *Attribute, err error) {
	ensures(err == nil)
	ensures(result != nil && result.Key == SpecAttributeKey(AttrID))
	ensures(same(result.Value, value))
}
