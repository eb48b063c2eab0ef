package btrfs

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"
	"time"
)

func vle(b []byte, off, n int) uint64 {
	x := uint64(0)
	for i := 0; i < n; i++ {
		x |= uint64(b[off+i]) << (8 * i)
	}
	return x
}

// fixed part of each structure
func vneed(f vfield) int {
	switch f.kind {
	case "int":
		return f.off + f.n
	case "uuid":
		return f.off + 16
	case "csum":
		return f.off + 32
	case "key":
		return f.off + 17
	case "time":
		return f.off + 12
	case "u64s":
		return f.off + 8*f.n
	}
	return f.off
}

func vexpect(f vfield, b []byte) string {
	switch f.kind {
	case "int":
		return fmt.Sprint(vle(b, f.off, f.n))
	case "uuid":
		return fmt.Sprintf("%x", b[f.off:f.off+16])
	case "csum":
		return fmt.Sprintf("%x", b[f.off:f.off+32])
	case "key":
		return fmt.Sprint(vle(b, f.off, 8), vle(b, f.off+8, 1), vle(b, f.off+9, 8))
	case "time":
		t := time.Unix(int64(vle(b, f.off, 8)), int64(vle(b, f.off+8, 4))).UTC()
		return fmt.Sprint(t.Unix(), t.Nanosecond(), t.Location())
	case "u64s":
		s := ""
		for i := 0; i < f.n; i++ {
			s += fmt.Sprint(vle(b, f.off+8*i, 8), " ")
		}
		return s
	}
	return "?"
}

func vshow(f vfield, v reflect.Value) string {
	switch f.kind {
	case "int":
		return fmt.Sprint(v.Uint())
	case "uuid", "csum":
		s := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(s), v)
		return fmt.Sprintf("%x", s)
	case "key":
		k := v.Interface().(Key)
		return fmt.Sprint(k.ObjectID, k.Type, k.Offset)
	case "time":
		t := v.Interface().(time.Time)
		return fmt.Sprint(t.Unix(), t.Nanosecond(), t.Location())
	case "u64s":
		s := ""
		for i := 0; i < v.Len(); i++ {
			s += fmt.Sprint(v.Index(i).Uint(), " ")
		}
		return s
	}
	return "?"
}

func TestVerifC01(t *testing.T) {
	v := vstart(t)
	for _, c := range vconsts {
		v.cases++
		if c.got != c.want {
			v.fail("constant %s is %d, the on-disk format says %d", c.name, c.got, c.want)
		}
	}
	n := vscale(300)
	for i := 0; i < n && v.more(); i++ {
		for _, f := range vfields {
			f := f
			need := vneed(f)
			b := v.bytes(need + v.r.Intn(3)*v.r.Intn(600))
			if v.r.Intn(2) == 0 && f.kind == "int" {
				x := v.num()
				for k := 0; k < f.n; k++ {
					b[f.off+k] = byte(x >> (8 * k))
				}
			}
			desc := fmt.Sprintf("%s.%s of bytes %x", f.typ, f.name, b)
			v.try(desc, func() {
				x := reflect.ValueOf(b).Convert(reflect.TypeOf(f.zero))
				got := vshow(f, x.MethodByName(f.name).Call(nil)[0])
				if want := vexpect(f, b); got != want {
					v.fail("%s = %s, want %s", desc, got, want)
				}
			})
			if i == 0 {
				v.sample("%s.%s at offset %d", f.typ, f.name, f.off)
			}
		}
		v.others()
	}
}

// the accessors that are not plain fields
func (v *vctx) others() {
	b := v.bytes(500)
	b[100] = byte(v.r.Intn(3))
	b[29], b[8], b[20] = byte(v.r.Intn(9)), byte(130+v.r.Intn(5)), byte(v.r.Intn(3))
	if v.r.Intn(2) == 0 {
		copy(b[239:247], b[160:168])
	}
	v.try(fmt.Sprintf("bytes %x", b), func() {
		eq := func(name string, got, want any) {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				v.fail("%s of bytes %x = %v, want %v", name, b, got, want)
			}
		}
		eq("SliceUint16LE", SliceUint16LE(b), vle(b, 0, 2))
		eq("SliceUint32LE", SliceUint32LE(b), vle(b, 0, 4))
		eq("SliceUint64LE", SliceUint64LE(b), vle(b, 0, 8))
		u := SliceUUID(b)
		eq("SliceUUID", fmt.Sprintf("%x", u[:]), fmt.Sprintf("%x", b[:16]))
		k := SliceKey(b)
		eq("SliceKey", fmt.Sprint(k.ObjectID, k.Type, k.Offset), fmt.Sprint(vle(b, 0, 8), b[8], vle(b, 9, 8)))
		eq("Header.IsLeaf", Header(b).IsLeaf(), b[100] == 0)
		eq("DirItem.IsDir", DirItem(b).IsDir(), b[29] == 2)
		eq("DirItem.IsSubvolume", DirItem(b).IsSubvolume(), b[8] == 132)
		eq("FileExtentItem.IsInline", FileExtentItem(b).IsInline(), b[20] == 0)
		eq("RootItem.IsGenerationV2", RootItem(b).IsGenerationV2(), binary.LittleEndian.Uint64(b[160:]) == binary.LittleEndian.Uint64(b[239:]))
		for _, n := range []int{0, 8, 23, 24, 25} {
			eq(fmt.Sprintf("ExtentItem(%d bytes).IsCompatV0", n), ExtentItem(b[:n]).IsCompatV0(), n < 24)
		}
		for _, n := range []int{0, 1, 4, 8, 20, 31, 32, 40} {
			var w [32]byte
			copy(w[:], b[:n])
			cs := CSumItem(b[:n:n]).CSum()
			eq(fmt.Sprintf("CSumItem(%d bytes)", n), fmt.Sprintf("%x", cs[:]), fmt.Sprintf("%x", w[:]))
		}
		s := v.r.Intn(10)
		st := Chunk(b).Stripe(uint16(s))
		eq(fmt.Sprintf("Chunk.Stripe(%d).Offset", s), st.Offset(), vle(b, 48+32*s+8, 8))
		big := v.bytes(48 + 32*2100)
		s = v.r.Intn(2100)
		eq(fmt.Sprintf("Chunk.Stripe(%d).Offset of a long chunk", s), Chunk(big).Stripe(uint16(s)).Offset(), vle(big, 48+32*s+8, 8))
		eq("RootItem.Inode.Size", RootItem(b).Inode().Size(), vle(b, 16, 8))
	})
}
