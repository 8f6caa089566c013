package main

// What the analysis could not decide. A law whose falsifying conditions all depend on the result of a
// function that is not modelled is not refuted: the unknown results are taken the way that suits the law.

import "strings"

// understood: library functions whose applications are known to be what they are, modelled or not.
var understood = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`strings.Contains strings.HasPrefix strings.HasSuffix strings.EqualFold strings.ToLower strings.ToUpper strings.ToTitle
		strings.Title strings.TrimSpace strings.Trim strings.TrimLeft strings.TrimRight strings.TrimPrefix strings.TrimSuffix
		strings.Replace strings.ReplaceAll strings.Count strings.Join strings.Repeat strings.Compare
		strconv.Quote strconv.Itoa strconv.FormatInt strconv.FormatUint strconv.FormatBool strconv.FormatFloat
		fmt.Sprint fmt.Sprintln fmt.Sprintf errors.Is errors.As errors.Unwrap unicode.IsSpace unicode.IsUpper unicode.IsLower unicode.IsLetter
		unicode.IsDigit unicode.ToLower unicode.ToUpper unicode.IsNumber unicode.IsPunct unicode.IsControl unicode.IsGraphic unicode.IsPrint
		unicode.IsSymbol unicode.IsMark unicode.IsTitle unicode/utf8.ValidString unicode/utf8.rest
		strings.TrimFunc strings.TrimLeftFunc strings.TrimRightFunc strings.Map strings.NewReplacer (*strings.Replacer).Replace
		strings.ToValidUTF8 net/url.QueryEscape net/url.PathEscape html.EscapeString
		(time.Time).UTC (time.Time).Local (time.Time).In (time.Time).Round (time.Time).Truncate (time.Time).Format (time.Time).String
		(time.Time).Unix (time.Time).UnixNano (time.Time).UnixMilli (time.Time).UnixMicro (time.Time).Add (time.Time).IsZero
		(time.Duration).String (time.Duration).Seconds (time.Duration).Round (time.Duration).Truncate
		math.Abs math.Floor math.Ceil math.Round math.Trunc math.IsInf math.Mod math.Max math.Min
		encoding/json.Marshal encoding/hex.EncodeToString (*encoding/base64.Encoding).EncodeToString
		strconv.ParseInt strconv.ParseUint strconv.ParseFloat strconv.ParseBool strconv.Atoi strconv.Unquote
		bytes.ToLower bytes.ToUpper bytes.TrimSpace bytes.Trim bytes.Equal bytes.Compare`) {
		understood["ext:"+n] = true
	}
}

func unknownFn(s string) bool {
	if i := len(s) - 2; i > 0 && s[i] == '/' && s[i+1] >= '0' && s[i+1] <= '9' {
		s = s[:i]
	}
	return strings.HasPrefix(s, "ext:") && !understood[s] && !strings.HasPrefix(s, "ext:(reflect.") && !strings.HasPrefix(s, "ext:reflect.")
}

var openT = map[*Term]bool{}
var openN = map[*Node]bool{}

// isOpen: the term mentions a result the analysis knows nothing about.
func isOpen(t *Term) bool {
	if r, ok := openT[t]; ok {
		return r
	}
	openT[t] = false
	r := t.op == OCall && (strings.HasPrefix(t.s, "not decided: ") ||
		unknownFn(t.s))
	for _, a := range t.args {
		r = r || isOpen(a)
	}
	for _, n := range t.nodes {
		r = r || isOpenN(n)
	}
	openT[t] = r
	return r
}

func isOpenN(n *Node) bool {
	if r, ok := openN[n]; ok {
		return r
	}
	var r bool
	if n.leaf != nil {
		r = isOpen(n.leaf)
	} else {
		r = isOpen(n.atom) || isOpenN(n.hi) || isOpenN(n.lo)
	}
	openN[n] = r
	return r
}

// closed removes from a condition the ways that depend on unknown results: what remains holds whatever they are.
func closed(n *Node) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		hi, lo := rec(n.hi), rec(n.lo)
		if isOpen(n.atom) {
			r = And(hi, lo)
		} else {
			r = iteB(atomN(n.atom), hi, lo)
		}
		memo[n] = r
		return r
	}
	if !isOpenN(n) {
		return n
	}
	return rec(n)
}

// openNames lists the unknown functions a condition depends on.
func openNames(n *Node) string {
	seen := map[string]bool{}
	done := map[any]bool{}
	var rt func(t *Term)
	var rn func(n *Node)
	rt = func(t *Term) {
		if done[t] || !isOpen(t) {
			return
		}
		done[t] = true
		if t.op == OCall && (strings.HasPrefix(t.s, "not decided: ") || unknownFn(t.s)) {
			seen[strings.TrimPrefix(strings.TrimPrefix(t.s, "ext:"), "not decided: ")] = true
		}
		for _, a := range t.args {
			rt(a)
		}
		for _, m := range t.nodes {
			rn(m)
		}
	}
	rn = func(n *Node) {
		if done[n] || !isOpenN(n) {
			return
		}
		done[n] = true
		if n.leaf != nil {
			rt(n.leaf)
			return
		}
		rt(n.atom)
		rn(n.hi)
		rn(n.lo)
	}
	rn(n)
	ks := keys(seen)
	if len(ks) > 6 {
		ks = ks[:6]
	}
	return strings.Join(ks, ", ")
}
