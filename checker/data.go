package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// The embedded metadata, decoded from the files with the field numbers of the generated types.

type dmsg struct {
	typ   string
	str   map[string][]string
	num   map[string][]int64
	subs  map[string][]*dmsg
	extra int // fields the type does not know
}

type dfield struct {
	name string
	kind string // str num msg
	sub  *types.Named
}

type metaData struct {
	main, short, alt *dmsg
	regions          map[int][]string
	err              error
}

func (d *dmsg) s(name string) string {
	if v := d.str[name]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (d *dmsg) n(name string) int64 {
	if v := d.num[name]; len(v) > 0 {
		return v[0]
	}
	return 0
}
func (d *dmsg) sub(name string) *dmsg {
	if v := d.subs[name]; len(v) > 0 {
		return v[0]
	}
	return nil
}

func fieldsOf(n *types.Named) map[uint64]dfield {
	out := map[uint64]dfield{}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		parts := strings.Split(tag, ",")
		if len(parts) < 2 {
			continue
		}
		num, err := strconv.ParseUint(parts[1], 10, 32)
		if err != nil {
			continue
		}
		f := dfield{name: st.Field(i).Name()}
		t := st.Field(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		t = deref(t)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			f.kind, f.sub = "msg", namedOf(t)
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				f.kind = "str"
			} else {
				f.kind = "num"
			}
		default:
			f.kind = "str"
		}
		out[num] = f
	}
	return out
}

func decodeMsg(b []byte, n *types.Named) (*dmsg, error) {
	m := &dmsg{typ: n.Obj().Name(), str: map[string][]string{}, num: map[string][]int64{}, subs: map[string][]*dmsg{}}
	fs := fieldsOf(n)
	for len(b) > 0 {
		tag, k := binary.Uvarint(b)
		if k <= 0 {
			return nil, fmt.Errorf("bad tag in %s", m.typ)
		}
		b = b[k:]
		f, known := fs[tag>>3]
		if !known {
			m.extra++
		}
		switch tag & 7 {
		case 0:
			v, k := binary.Uvarint(b)
			if k <= 0 {
				return nil, fmt.Errorf("bad varint in %s", m.typ)
			}
			b = b[k:]
			if known && f.kind == "num" {
				m.num[f.name] = append(m.num[f.name], int64(v))
			} else if known {
				return nil, fmt.Errorf("%s.%s has the wrong wire type", m.typ, f.name)
			}
		case 2:
			l, k := binary.Uvarint(b)
			if k <= 0 || uint64(len(b)-k) < l {
				return nil, fmt.Errorf("bad length in %s", m.typ)
			}
			v := b[k : k+int(l)]
			b = b[k+int(l):]
			if !known {
				continue
			}
			switch f.kind {
			case "str":
				m.str[f.name] = append(m.str[f.name], string(v))
			case "num":
				for len(v) > 0 {
					x, k := binary.Uvarint(v)
					if k <= 0 {
						return nil, fmt.Errorf("bad packed field in %s", m.typ)
					}
					v = v[k:]
					m.num[f.name] = append(m.num[f.name], int64(x))
				}
			case "msg":
				s, err := decodeMsg(v, f.sub)
				if err != nil {
					return nil, err
				}
				m.subs[f.name] = append(m.subs[f.name], s)
			}
		default:
			return nil, fmt.Errorf("unexpected wire type %d in %s", tag&7, m.typ)
		}
	}
	return m, nil
}

func gunzipFile(path string) ([]byte, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	out, err := io.ReadAll(z)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	return out, nil
}

// packed decodes a packed table; multi is true for tables with several values per key.
func packed(b []byte, multi bool) (map[int][]string, error) {
	u32 := func() (uint32, error) {
		if len(b) < 4 {
			return 0, io.ErrUnexpectedEOF
		}
		v := binary.LittleEndian.Uint32(b)
		b = b[4:]
		return v, nil
	}
	size, err := u32()
	if err != nil || uint64(len(b)) < uint64(size) {
		return nil, fmt.Errorf("value block is cut short")
	}
	values := strings.Split(string(b[:size]), "\n")
	b = b[size:]
	count, err := u32()
	if err != nil {
		return nil, err
	}
	out := map[int][]string{}
	key := 0
	for i := uint32(0); i < count; i++ {
		d, k := binary.Uvarint(b)
		if k <= 0 {
			return nil, fmt.Errorf("bad key difference")
		}
		b = b[k:]
		if i > 0 && d == 0 {
			return nil, fmt.Errorf("key %d is repeated", key)
		}
		key += int(d)
		n := 1
		if multi {
			if len(b) < 1 {
				return nil, io.ErrUnexpectedEOF
			}
			n = int(b[0])
			b = b[1:]
		}
		var vs []string
		for j := 0; j < n; j++ {
			if len(b) < 2 {
				return nil, io.ErrUnexpectedEOF
			}
			x := int(binary.LittleEndian.Uint16(b))
			b = b[2:]
			if x >= len(values) {
				return nil, fmt.Errorf("value index %d out of range", x)
			}
			vs = append(vs, values[x])
		}
		out[key] = vs
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d bytes left over", len(b))
	}
	return out, nil
}

func (p *Program) MetaData() *metaData {
	if d, ok := p.facts["metadata"].(*metaData); ok {
		return d
	}
	d := &metaData{}
	p.facts["metadata"] = d
	obj := p.SPkgs[modPath+"/metadata"].Pkg.Scope().Lookup("PhoneMetadataCollection")
	if obj == nil {
		d.err = fmt.Errorf("metadata.PhoneMetadataCollection is missing")
		return d
	}
	coll := namedOf(obj.Type())
	read := func(rel string) *dmsg {
		b, err := gunzipFile(filepath.Join(p.Dir, rel))
		if err == nil {
			var m *dmsg
			if m, err = decodeMsg(b, coll); err == nil {
				return m
			}
			err = fmt.Errorf("%s: %v", rel, err)
		}
		if d.err == nil {
			d.err = err
		}
		return &dmsg{}
	}
	d.main = read("metadata/data/metadata.xml.gz")
	d.short = read("data/shortnumber_metadata.xml.gz")
	d.alt = read("data/alternateformats_metadata.xml.gz")
	b, err := gunzipFile(filepath.Join(p.Dir, "metadata/data/countrycode_to_region.xml.gz"))
	if err == nil {
		d.regions, err = packed(b, true)
	}
	if err != nil && d.err == nil {
		d.err = fmt.Errorf("countrycode_to_region: %v", err)
	}
	return d
}

func init() {
	dumps["data"] = func(p *Program, a []string) {
		d := p.MetaData()
		fmt.Println("err", d.err)
		for _, c := range []struct {
			n string
			m *dmsg
		}{{"main", d.main}, {"short", d.short}, {"alt", d.alt}} {
			cnt := map[string]int{}
			ms := c.m.subs["Metadata"]
			for _, m := range ms {
				for k := range m.subs {
					cnt[k]++
				}
				for k := range m.str {
					cnt[k]++
				}
				for k := range m.num {
					cnt[k]++
				}
			}
			fmt.Println(c.n, len(ms), cnt)
		}
		fmt.Println(len(d.regions))
	}
}

// always present: the sub-messages every entry of the main and short-number tables has, and the
// lists in them that are never empty ("GeneralDesc", "GeneralDesc.PossibleLength").
func (p *Program) dataAlways() map[string]bool {
	if m, ok := p.facts["dataAlways"].(map[string]bool); ok {
		return m
	}
	out := map[string]bool{}
	p.facts["dataAlways"] = out
	d := p.MetaData()
	if d.err != nil {
		return out
	}
	// by table: a name that a table's entries never have is not read from that table's entries
	count, want := map[string]int{}, map[string]int{}
	for _, tab := range []*dmsg{d.main, d.short} {
		has := map[string]int{}
		for _, m := range tab.subs["Metadata"] {
			for k, v := range m.subs {
				if len(v) == 0 {
					continue
				}
				has[k]++
				for n, l := range v[0].num {
					if len(l) > 0 {
						has[k+"."+n]++
					}
				}
			}
		}
		for k, n := range has {
			count[k] += n
			want[k] += len(tab.subs["Metadata"])
		}
	}
	for k, n := range count {
		if n == want[k] {
			out[k] = true
		}
	}
	return out
}
