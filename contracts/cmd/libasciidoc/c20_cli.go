//go:build go1.21

package main

// ---- C20: the command line ----

import "strings"

// SpecFlagName: the name of the attribute which a -a flag is about
func SpecFlagName(flag string) string {
	if i := strings.Index(flag, "="); i >= 0 {
		return flag[:i]
	}
	if strings.HasPrefix(flag, "!") {
		return flag[1:]
	}
	if strings.HasSuffix(flag, "!") {
		return flag[:len(flag)-1]
	}
	return flag
}

// SpecFlagUnsets: whether a -a flag unsets its attribute
func SpecFlagUnsets(flag string) bool {
	return strings.Index(flag, "=") < 0 && (strings.HasPrefix(flag, "!") || strings.HasSuffix(flag, "!"))
}

// SpecFlagText: the value that a -a flag gives, if it does not unset
func SpecFlagText(flag string) string {
	if i := strings.Index(flag, "="); i >= 0 {
		return flag[i+1:]
	}
	return ""
}

// SpecLastFlag: the position of the last of the n first flags about the given name, -1 if there is none
func SpecLastFlag(flags []string, name string, n int) int {
	if n <= 0 {
		return -1
	}
	if SpecFlagName(flags[n-1]) == name {
		return n - 1
	}
	return SpecLastFlag(flags, name, n-1)
}

//verif:contract parseAttributes props=C20 opaque=SpecFlagName
func contract_parseAttributes(attributes []string, result map[string]interface{}) {
	ensures(result != nil && fresh(result))
	// exactly the attributes named by the flags, each with the value of the last flag about it
	ensures(forallStr(mapKeys(result), func(k string) bool {
		i := SpecLastFlag(attributes, k, len(attributes))
		return hasKey(result, k) == (i >= 0)
	}))
	ensures(forallStr(mapKeys(result), func(k string) bool {
		i := SpecLastFlag(attributes, k, len(attributes))
		return i < 0 || SpecFlagUnsets(attributes[i]) || same(result[k], SpecFlagText(attributes[i]))
	}))
	ensures(forallStr(mapKeys(result), func(k string) bool {
		i := SpecLastFlag(attributes, k, len(attributes))
		return i < 0 || !SpecFlagUnsets(attributes[i]) || result[k] == nil
	}))
	invariant(func(rangeindex int, result map[string]interface{}) bool {
		return forallStr(nil, func(k string) bool {
			i := SpecLastFlag(attributes, k, rangeindex+1)
			return hasKey(result, k) == (i >= 0)
		})
	})
	invariant(func(rangeindex int, result map[string]interface{}) bool {
		return forallStr(nil, func(k string) bool {
			i := SpecLastFlag(attributes, k, rangeindex+1)
			return i < 0 || SpecFlagUnsets(attributes[i]) || same(result[k], SpecFlagText(attributes[i]))
		})
	})
	invariant(func(rangeindex int, result map[string]interface{}) bool {
		return forallStr(nil, func(k string) bool {
			i := SpecLastFlag(attributes, k, rangeindex+1)
			return i < 0 || !SpecFlagUnsets(attributes[i]) || result[k] == nil
		})
	})
}
