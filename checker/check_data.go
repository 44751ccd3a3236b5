package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
)

func init() { checks["C22"] = checkData }

// denv is one choice of the metadata messages a tree may read from.
type denv struct{ m, nf, desc *dmsg }

type unsupported struct{ what string }

// evalTree lists the texts a provenance tree stands for when its metadata comes from env.
func evalTree(n *pnode, e denv) (out []string, bad *unsupported) {
	switch n.k {
	case "const":
		return []string{n.s}, nil
	case "rec":
		return nil, nil
	case "field":
		i := strings.IndexByte(n.s, '.')
		var d *dmsg
		switch n.s[:i] {
		case "PhoneMetadata":
			d = e.m
		case "NumberFormat":
			d = e.nf
		case "PhoneNumberDesc":
			d = e.desc
		}
		if d == nil {
			return nil, nil
		}
		return d.str[n.s[i+1:]], nil
	case "alt":
		for _, k := range n.kids {
			r, b := evalTree(k, e)
			if b != nil {
				return nil, b
			}
			out = append(out, r...)
		}
		return dedup(out), nil
	case "cat":
		out = []string{""}
		for _, k := range n.kids {
			r, b := evalTree(k, e)
			if b != nil {
				return nil, b
			}
			var nx []string
			for _, x := range out {
				for _, y := range r {
					nx = append(nx, x+y)
				}
			}
			out = dedup(nx)
			if len(out) > 4096 {
				return nil, &unsupported{"too many combinations"}
			}
		}
		return out, nil
	case "quote":
		r, b := evalTree(n.kids[0], e)
		if b != nil {
			return nil, b
		}
		for _, x := range r {
			out = append(out, regexp.QuoteMeta(x))
		}
		return out, nil
	case "op":
		if n.s == "append" {
			return evalTree(&pnode{k: "alt", kids: n.kids}, e)
		}
		if n.s == "built" {
			return evalTree(&pnode{k: "cat", kids: n.kids}, e)
		}
		var args [][]string
		for _, k := range n.kids {
			r, b := evalTree(k, e)
			if b != nil {
				return nil, b
			}
			args = append(args, r)
		}
		two := func(f func(a, b string) string) ([]string, *unsupported) {
			for _, x := range args[0] {
				for _, y := range args[1] {
					out = append(out, f(x, y))
				}
			}
			return dedup(out), nil
		}
		one := func(f func(a string) string) ([]string, *unsupported) {
			for _, x := range args[0] {
				out = append(out, f(x))
			}
			return dedup(out), nil
		}
		switch {
		case n.s == "strings.TrimPrefix" && len(args) == 2:
			return two(strings.TrimPrefix)
		case n.s == "strings.TrimSuffix" && len(args) == 2:
			return two(strings.TrimSuffix)
		case n.s == "strings.Trim" && len(args) == 2:
			return two(strings.Trim)
		case n.s == "strings.TrimLeft" && len(args) == 2:
			return two(strings.TrimLeft)
		case n.s == "strings.TrimRight" && len(args) == 2:
			return two(strings.TrimRight)
		case n.s == "strings.TrimSpace" && len(args) == 1:
			return one(strings.TrimSpace)
		case n.s == "strings.ToLower" && len(args) == 1:
			return one(strings.ToLower)
		case n.s == "strings.ToUpper" && len(args) == 1:
			return one(strings.ToUpper)
		case n.s == "strings.ReplaceAll" && len(args) == 3:
			for _, x := range args[0] {
				for _, y := range args[1] {
					for _, z := range args[2] {
						out = append(out, strings.ReplaceAll(x, y, z))
					}
				}
			}
			return dedup(out), nil
		}
		return nil, &unsupported{n.s + " " + n.at}
	}
	return nil, &unsupported{n.k + " " + n.s + " " + n.at}
}

func dedup(s []string) []string {
	if len(s) < 2 {
		return s
	}
	seen := map[string]bool{}
	out := s[:0:0]
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func treeFields(n *pnode, into map[string]bool) {
	if n.k == "field" {
		into[n.s] = true
	}
	for _, k := range n.kids {
		treeFields(k, into)
	}
}

// groupRefs lists the group numbers a Go template refers to; named is set for a reference that is
// not a plain group number, which Go would expand to nothing.
func groupRefs(t string) (refs []int, named string) {
	for i := 0; i < len(t); i++ {
		if t[i] != '$' {
			continue
		}
		if i+1 < len(t) && t[i+1] == '$' {
			i++
			continue
		}
		brace := i+1 < len(t) && t[i+1] == '{'
		j := i + 1
		if brace {
			j++
		}
		k := j
		for k < len(t) && (t[k] == '_' || t[k] >= '0' && t[k] <= '9' || t[k] >= 'a' && t[k] <= 'z' || t[k] >= 'A' && t[k] <= 'Z') {
			k++
		}
		name := t[j:k]
		if brace && (k >= len(t) || t[k] != '}') {
			named = t[i:k]
			continue
		}
		n := 0
		ok := name != ""
		for _, c := range name {
			if c < '0' || c > '9' {
				ok = false
			}
			n = n*10 + int(c-'0')
		}
		if !ok || len(name) > 2 {
			named = "$" + name
			continue
		}
		refs = append(refs, n)
		i = k - 1
	}
	return
}

// firstToken mirrors how a prefix rule is put in front of the first group of a format.
func firstToken(format, rule string) string {
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '$' && format[i+1] >= '0' && format[i+1] <= '9' {
			return format[:i] + strings.ReplaceAll(rule, "$1", format[i:i+2]) + format[i+2:]
		}
	}
	return format
}

func groupsOf(pat string) (int, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0, err
	}
	return re.MaxCap(), nil
}

func checkData(p *Program, r *Report) {
	r.Rule("The embedded tables are decoded from their files with the field numbers of the generated types. Every text that reaches a regular-expression compilation is traced to the metadata fields and constants it is made of and compiled for every metadata message it can come from; formatting rules are parsed as templates against the groups of their pattern, alone and combined with the prefix and carrier rules; region, calling-code, descriptor and length tables are checked for completeness and consistency.")
	d := p.MetaData()
	if d.err != nil {
		r.Failf("decode", "embedded metadata", "metadata/data", "%v", d.err)
		return
	}
	type coll struct {
		name, file string
		m          *dmsg
		min        int
	}
	colls := []coll{{"main", "metadata/data/metadata.xml.gz", d.main, 200}, {"short", "data/shortnumber_metadata.xml.gz", d.short, 200}, {"alternate", "data/alternateformats_metadata.xml.gz", d.alt, 20}}
	label := func(c coll, m *dmsg) string {
		return fmt.Sprintf("%s metadata %s/%d", c.name, m.s("Id"), m.n("CountryCode"))
	}
	var unknown func(m *dmsg) int
	unknown = func(m *dmsg) int {
		k := m.extra
		for _, ss := range m.subs {
			for _, s := range ss {
				k += unknown(s)
			}
		}
		return k
	}
	for _, c := range colls {
		ms := c.m.subs["Metadata"]
		r.Count("metadata messages", len(ms))
		if len(ms) < c.min {
			r.Failf("incomplete", c.name, c.file, "only %d entries", len(ms))
		}
		if k := unknown(c.m); k > 0 {
			r.Failf("unknown-field", c.name, c.file, "%d values belong to fields the generated types do not have", k)
		}
	}

	// texts that are compiled, in every form
	v := newProv(p)
	compiled := map[string]bool{}
	for _, s := range v.sinks(p.LibFuncs()) {
		if s.kind != "pattern" {
			continue
		}
		for _, l := range v.lift(s.fn, []*pnode{v.expr(s.site.Common().Args[s.arg])}, false) {
			t := v.closed(l[0], 0)
			fs := map[string]bool{}
			treeFields(t, fs)
			if len(fs) == 0 {
				if out, bad := evalTree(t, denv{}); bad == nil {
					for _, x := range out {
						r.Count("constant patterns", 1)
						if _, err := syntax.Parse(x, syntax.Perl); err != nil {
							r.Failf("constant-pattern", fnName(s.fn), p.InstrPos(s.site), "pattern %q does not compile: %v", x, err)
						}
					}
				}
				continue
			}
			r.Count("uses of metadata as patterns", 1)
			useNF, useDesc := false, false
			for f := range fs {
				if strings.HasPrefix(f, "NumberFormat.") {
					useNF = true
				}
				if strings.HasPrefix(f, "PhoneNumberDesc.") {
					useDesc = true
				}
				if isTemplateField(f) {
					r.Failf("template-as-pattern", fnName(s.fn), p.InstrPos(s.site), "the formatting rule %s is compiled as a pattern", f)
				}
			}
			failed := 0
			undecided := ""
			for _, c := range colls {
				for _, m := range c.m.subs["Metadata"] {
					nfs := []*dmsg{nil}
					if useNF {
						nfs = append(append([]*dmsg{}, m.subs["NumberFormat"]...), m.subs["IntlNumberFormat"]...)
					}
					descs := []*dmsg{nil}
					if useDesc {
						descs = nil
						for _, k := range sortedKeys(m.subs) {
							for _, s := range m.subs[k] {
								if s.typ == "PhoneNumberDesc" {
									descs = append(descs, s)
								}
							}
						}
					}
					for _, nf := range nfs {
						for _, de := range descs {
							out, bad := evalTree(t, denv{m, nf, de})
							if bad != nil {
								undecided = bad.what
								continue
							}
							for _, x := range out {
								if compiled[x] {
									continue
								}
								compiled[x] = true
								r.Count("patterns compiled", 1)
								if _, err := syntax.Parse(x, syntax.Perl); err != nil {
									failed++
									if failed <= 3 {
										r.Failf("pattern", fnName(s.fn), p.InstrPos(s.site), "%s: pattern %q, made as %s, does not compile: %v", label(c, m), x, t, err)
									}
								}
							}
						}
					}
				}
			}
			if undecided != "" {
				r.Failf("pattern-form", fnName(s.fn), p.InstrPos(s.site), "the pattern made from %s cannot be followed to whole metadata patterns: %s", strings.Join(sortedKeys(fs), ", "), undecided)
			} else if failed == 0 {
				r.Ok("pattern form %s", t)
			}
		}
	}

	// every pattern on its own, whether or not the code above reaches it
	for _, c := range colls {
		for _, m := range c.m.subs["Metadata"] {
			var each func(d *dmsg)
			each = func(d *dmsg) {
				for k, vs := range d.str {
					if !strings.Contains(k, "Pattern") && k != "NationalPrefixForParsing" && k != "InternationalPrefix" && k != "LeadingDigits" {
						continue
					}
					for _, x := range vs {
						r.Count("stored patterns", 1)
						if _, err := syntax.Parse(x, syntax.Perl); err != nil {
							r.Failf("stored-pattern", label(c, m), c.file, "%s.%s %q does not compile: %v", d.typ, k, x, err)
						}
					}
				}
				for _, ss := range d.subs {
					for _, s := range ss {
						each(s)
					}
				}
			}
			each(m)
		}
	}

	// formatting rules against the groups of their pattern
	tmpl := func(c coll, m *dmsg, what, pat, t string) {
		r.Count("formatting templates", 1)
		g, err := groupsOf(pat)
		if err != nil {
			return
		}
		refs, named := groupRefs(t)
		if named != "" {
			r.Failf("template", label(c, m), c.file, "%s %q: %s is not a group number, so it expands to nothing", what, t, named)
		}
		for _, k := range refs {
			if k > g {
				r.Failf("template", label(c, m), c.file, "%s %q refers to group %d, but %q has %d", what, t, k, pat, g)
			}
		}
	}
	for _, c := range colls {
		for _, m := range c.m.subs["Metadata"] {
			for _, kind := range []string{"NumberFormat", "IntlNumberFormat"} {
				for _, nf := range m.subs[kind] {
					pat, f := nf.s("Pattern"), nf.s("Format")
					if pat == "" {
						r.Failf("format-pattern", label(c, m), c.file, "a %s has no pattern", kind)
						continue
					}
					if f == "" {
						r.Failf("format-empty", label(c, m), c.file, "the %s for %q has no format", kind, pat)
						continue
					}
					tmpl(c, m, "format", pat, f)
					if rule := nf.s("NationalPrefixFormattingRule"); rule != "" {
						if !strings.Contains(rule, "$1") {
							r.Failf("prefix-rule", label(c, m), c.file, "national prefix rule %q drops the first group", rule)
						}
						tmpl(c, m, "format with national prefix", pat, firstToken(f, rule))
					}
					if rule := nf.s("DomesticCarrierCodeFormattingRule"); rule != "" {
						if strings.Count(rule, "$CC") != 1 || !strings.Contains(rule, "$1") {
							r.Failf("carrier-rule", label(c, m), c.file, "carrier rule %q must contain $CC and $1 once", rule)
						}
						tmpl(c, m, "format with carrier code", pat, firstToken(f, strings.Replace(rule, "$CC", "15", 1)))
					}
				}
			}
			if tr := m.s("NationalPrefixTransformRule"); tr != "" {
				if m.s("NationalPrefixForParsing") == "" {
					r.Failf("transform-rule", label(c, m), c.file, "transform rule %q without a prefix to parse", tr)
				} else {
					tmpl(c, m, "national prefix transform rule", m.s("NationalPrefixForParsing"), tr)
				}
			}
		}
	}

	// regions and calling codes
	byRegion := map[string]*dmsg{}
	nonGeo := map[int]*dmsg{}
	main := colls[0]
	for _, m := range d.main.subs["Metadata"] {
		id := m.s("Id")
		if len(m.num["CountryCode"]) == 0 || m.n("CountryCode") <= 0 {
			r.Failf("calling-code", label(main, m), main.file, "no calling code")
			continue
		}
		if id == "001" {
			if nonGeo[int(m.n("CountryCode"))] != nil {
				r.Failf("duplicate", label(main, m), main.file, "calling code listed twice")
			}
			nonGeo[int(m.n("CountryCode"))] = m
			continue
		}
		if id == "" || byRegion[id] != nil {
			r.Failf("duplicate", label(main, m), main.file, "region missing or listed twice")
		}
		byRegion[id] = m
		if m.s("InternationalPrefix") == "" {
			r.Failf("international-prefix", label(main, m), main.file, "no international prefix")
		}
	}
	listed := map[string]int{}
	var ccs []int
	for cc := range d.regions {
		ccs = append(ccs, cc)
	}
	sort.Ints(ccs)
	for _, cc := range ccs {
		r.Count("calling codes", 1)
		rs := d.regions[cc]
		if len(rs) == 0 {
			r.Failf("no-region", fmt.Sprint("calling code ", cc), "metadata/data/countrycode_to_region.xml.gz", "no region listed")
		}
		for _, id := range rs {
			if id == "001" {
				if len(rs) != 1 || nonGeo[cc] == nil {
					r.Failf("non-geographical", fmt.Sprint("calling code ", cc), main.file, "listed as non-geographical but shared or without metadata")
				}
				continue
			}
			if o, dup := listed[id]; dup {
				r.Failf("region-twice", id, main.file, "region listed under calling codes %d and %d", o, cc)
			}
			listed[id] = cc
			if m := byRegion[id]; m == nil {
				r.Failf("region-metadata", id, main.file, "region of calling code %d has no metadata", cc)
			} else if int(m.n("CountryCode")) != cc {
				r.Failf("region-metadata", id, main.file, "region is listed under calling code %d but its metadata says %d", cc, m.n("CountryCode"))
			}
		}
		if len(rs) > 1 {
			for i, id := range rs {
				m := byRegion[id]
				if m == nil {
					continue
				}
				if (m.n("MainCountryForCode") != 0) != (i == 0) {
					r.Failf("main-country", id, main.file, "the main region of calling code %d must be listed first", cc)
				}
			}
		}
	}
	for id := range byRegion {
		if _, ok := listed[id]; !ok {
			r.Failf("unlisted", id, main.file, "metadata for a region no calling code lists")
		}
	}
	for cc := range nonGeo {
		if rs := d.regions[cc]; len(rs) != 1 || rs[0] != "001" {
			r.Failf("unlisted", fmt.Sprint("calling code ", cc), main.file, "non-geographical metadata for a calling code not listed as such")
		}
	}

	// descriptors and lengths
	need := map[string][]string{
		"main":  {"GeneralDesc", "FixedLine", "Mobile"},
		"short": {"GeneralDesc", "ShortCode", "Emergency", "SmsServices", "CarrierSpecific", "TollFree", "PremiumRate", "StandardRate"},
	}
	for _, c := range colls[:2] {
		for _, m := range c.m.subs["Metadata"] {
			for _, k := range need[c.name] {
				r.Count("descriptors required", 1)
				if m.sub(k) == nil {
					r.Failf("descriptor", label(c, m), c.file, "%s is missing", k)
				}
			}
			g := m.sub("GeneralDesc")
			if g == nil {
				continue
			}
			if g.s("NationalNumberPattern") == "" || len(g.num["PossibleLength"]) == 0 {
				r.Failf("descriptor", label(c, m), c.file, "GeneralDesc has no pattern or no lengths")
			}
			gl := map[int64]bool{}
			for _, x := range g.num["PossibleLength"] {
				gl[x] = true
			}
			for _, k := range sortedKeys(m.subs) {
				for _, de := range m.subs[k] {
					if de.typ != "PhoneNumberDesc" {
						continue
					}
					r.Count("length lists", 1)
					pl, lo := de.num["PossibleLength"], de.num["PossibleLengthLocalOnly"]
					if len(pl) == 1 && pl[0] == -1 {
						if len(lo) > 0 {
							r.Failf("lengths", label(c, m), c.file, "%s has no numbers but local-only lengths", k)
						}
						continue
					}
					set := map[int64]bool{}
					prev := int64(0)
					for _, x := range pl {
						if x <= prev || x > 17 {
							r.Failf("lengths", label(c, m), c.file, "%s: lengths %v are not ascending between 1 and 17", k, pl)
							break
						}
						prev = x
						set[x] = true
						if k != "GeneralDesc" && !gl[x] {
							r.Failf("lengths", label(c, m), c.file, "%s: length %d is not a length of the region", k, x)
						}
					}
					prev = 0
					for _, x := range lo {
						if x <= prev || set[x] {
							r.Failf("lengths", label(c, m), c.file, "%s: local-only lengths %v are not ascending or repeat a full length", k, lo)
							break
						}
						prev = x
					}
				}
			}
		}
	}
	for _, m := range d.short.subs["Metadata"] {
		if byRegion[m.s("Id")] == nil {
			r.Failf("short-region", label(colls[1], m), colls[1].file, "short-number metadata for a region the library does not know")
		}
	}
	for _, m := range d.alt.subs["Metadata"] {
		if len(d.regions[int(m.n("CountryCode"))]) == 0 {
			r.Failf("alternate-code", label(colls[2], m), colls[2].file, "alternate formats for an unknown calling code")
		}
	}

	// prefix tables
	for _, dir := range []string{"carrier/data", "geocoding/data", "timezone/data"} {
		var files []string
		filepath.Walk(filepath.Join(p.Dir, dir), func(path string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				files = append(files, path)
			}
			return nil
		})
		if len(files) == 0 {
			r.Failf("tables", dir, dir, "no tables")
		}
		for _, f := range files {
			rel, _ := filepath.Rel(p.Dir, f)
			b, err := gunzipFile(f)
			if err == nil {
				_, err = packed(b, dir == "timezone/data")
			}
			if err != nil {
				r.Failf("tables", rel, rel, "cannot be read: %v", err)
				continue
			}
			r.Count("prefix tables decoded", 1)
		}
	}
	r.Require("uses of metadata as patterns", 5)
	r.Require("patterns compiled", 1000)
	r.Require("formatting templates", 500)
	r.Require("calling codes", 150)
	r.Require("prefix tables decoded", 3)
}

func isTemplateField(f string) bool {
	return f == "NumberFormat.Format" || strings.HasSuffix(f, "FormattingRule") || strings.HasSuffix(f, "TransformRule")
}
