//go:build go1.21

package types

// ---- C03: what a condition means ----

// SpecSound: a condition as the grammar builds it
func SpecSound(c ConditionalInclusion) bool {
	switch c := c.(type) {
	case *IfdefCondition:
		return c != nil
	case *IfndefCondition:
		return c != nil
	case *IfevalCondition:
		return c != nil && c.Operand != nil && specRefSound(c.Left) && specRefSound(c.Right)
	}
	return false
}

func specRefSound(x interface{}) bool {
	r, isref := x.(*AttributeReference)
	return !isref || r != nil
}

//verif:contract (*IfdefCondition).Eval props=C03
func contract_IfdefCondition_Eval(c *IfdefCondition, attributes map[string]interface{}, result bool) {
	requires(c != nil)
	ensures(result == hasKey(attributes, c.Name))
}

//verif:contract (*IfndefCondition).Eval props=C03
func contract_IfndefCondition_Eval(c *IfndefCondition, attributes map[string]interface{}, result bool) {
	requires(c != nil)
	ensures(result == !hasKey(attributes, c.Name))
}

//verif:contract (*IfdefCondition).SingleLineContent props=C03
func contract_IfdefCondition_SingleLineContent(c *IfdefCondition, content string, single bool) {
	requires(c != nil)
	ensures(single == (c.Substitution != ""))
	ensures(content == c.Substitution)
}

//verif:contract (*IfndefCondition).SingleLineContent props=C03
func contract_IfndefCondition_SingleLineContent(c *IfndefCondition, content string, single bool) {
	requires(c != nil)
	ensures(single == (c.Substitution != ""))
	ensures(content == c.Substitution)
}

// specOperandValue: a reference to a defined attribute stands for its value
func specOperandValue(x interface{}, attributes map[string]interface{}) interface{} {
	r, ok := x.(*AttributeReference)
	if !ok || !hasKey(attributes, r.Name) {
		return x
	}
	if attributes[r.Name] == nil {
		return ""
	}
	return attributes[r.Name]
}

//verif:contract (*IfevalCondition).left props=C03
func contract_IfevalCondition_left(c *IfevalCondition, attributes map[string]interface{}, result interface{}) {
	requires(c != nil)
	r, isref := c.Left.(*AttributeReference)
	requires(!isref || r != nil)
	ensures(same(result, specOperandValue(c.Left, attributes)))
}

//verif:contract (*IfevalCondition).right props=C03
func contract_IfevalCondition_right(c *IfevalCondition, attributes map[string]interface{}, result interface{}) {
	requires(c != nil)
	r, isref := c.Right.(*AttributeReference)
	requires(!isref || r != nil)
	ensures(same(result, specOperandValue(c.Right, attributes)))
}

func asStr(x interface{}) (string, bool)    { s, ok := x.(string); return s, ok }
func asInt(x interface{}) (int, bool)       { s, ok := x.(int); return s, ok }
func asFloat(x interface{}) (float64, bool) { s, ok := x.(float64); return s, ok }

// specComparable: both operands are texts, or both integers
func specStrings(l, r interface{}) bool {
	_, a := l.(string)
	_, b := r.(string)
	return a && b
}

func specInts(l, r interface{}) bool {
	_, a := l.(int)
	_, b := r.(int)
	return a && b
}

func specFloats(l, r interface{}) bool {
	_, a := l.(float64)
	_, b := r.(float64)
	return a && b
}

func str(x interface{}) string  { s, _ := x.(string); return s }
func num(x interface{}) int     { s, _ := x.(int); return s }
func flt(x interface{}) float64 { s, _ := x.(float64); return s }

// the operand functions as the grammar obtains them

func wrapEqual(l, r interface{}) bool          { f, _ := NewEqualOperand(); return f(l, r) }
func wrapNotEqual(l, r interface{}) bool       { f, _ := NewNotEqualOperand(); return f(l, r) }
func wrapLess(l, r interface{}) bool           { f, _ := NewLessThanOperand(); return f(l, r) }
func wrapLessOrEqual(l, r interface{}) bool    { f, _ := NewLessOrEqualOperand(); return f(l, r) }
func wrapGreater(l, r interface{}) bool        { f, _ := NewGreaterThanOperand(); return f(l, r) }
func wrapGreaterOrEqual(l, r interface{}) bool { f, _ := NewGreaterOrEqualOperand(); return f(l, r) }

//verif:contract wrapEqual props=C03
func contract_wrapEqual(l, r interface{}, result bool) {
	ensures(result == (specStrings(l, r) && str(l) == str(r) || specInts(l, r) && num(l) == num(r) || specFloats(l, r) && flt(l) == flt(r)))
}

//verif:contract wrapNotEqual props=C03
func contract_wrapNotEqual(l, r interface{}, result bool) {
	ensures(result == (specStrings(l, r) && str(l) != str(r) || specInts(l, r) && num(l) != num(r) || specFloats(l, r) && flt(l) != flt(r)))
}

//verif:contract wrapLess props=C03
func contract_wrapLess(l, r interface{}, result bool) {
	ensures(result == (specStrings(l, r) && str(l) < str(r) || specInts(l, r) && num(l) < num(r) || specFloats(l, r) && flt(l) < flt(r)))
}

//verif:contract wrapLessOrEqual props=C03
func contract_wrapLessOrEqual(l, r interface{}, result bool) {
	ensures(result == (specStrings(l, r) && str(l) <= str(r) || specInts(l, r) && num(l) <= num(r) || specFloats(l, r) && flt(l) <= flt(r)))
}

//verif:contract wrapGreater props=C03
func contract_wrapGreater(l, r interface{}, result bool) {
	ensures(result == (specStrings(l, r) && str(l) > str(r) || specInts(l, r) && num(l) > num(r) || specFloats(l, r) && flt(l) > flt(r)))
}

//verif:contract wrapGreaterOrEqual props=C03
func contract_wrapGreaterOrEqual(l, r interface{}, result bool) {
	ensures(result == (specStrings(l, r) && str(l) >= str(r) || specInts(l, r) && num(l) >= num(r) || specFloats(l, r) && flt(l) >= flt(r)))
}
