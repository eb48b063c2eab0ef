// Leaves, items, names: reading stays inside the bytes that are there.

// clip(b,o,n): the part of b[o:o+n] that exists
define clipo(l, o) = ite(o <= l, o, l)
define clipn(l, o, n) = ite(o > l, wide(0), ite(n > l-o, l-o, n))

func btrfs.clip(b, o, n) (r)
  props C04, C05
  let l = wide(len(b))
  ensures start: ref(r) == ref(b) && wide(off(r)) == wide(off(b)) + clipo(l, wide(o))
  ensures length: wide(len(r)) == clipn(l, wide(o), wide(n))

func btrfs.(Leaf).Header(l) (r)
  props C01, C04
  ensures same: same(r, l)

func btrfs.(Leaf).Len(l) (r)
  props C04
  requires block: len(l) >= 101 && len(l) < 0x1000000000
  let n = typed(int,bv(64,le(l,96,4)))
  ensures fits: r >= 0 && r <= n && 101 + 25*r <= len(l)
  ensures all: r == n || 126 + 25*r > len(l)

func btrfs.(Leaf).Item(l, i) (r)
  props C04
  requires block: len(l) >= 101 && len(l) < 0x1000000000
  requires slot: i >= 0 && i < 0x100000000 && 126 + 25*i <= len(l)
  ensures slot: ref(r) == ref(l) && off(r) == off(l) + 101 + 25*i && len(r) == 25

func btrfs.(Leaf).Key(l, i) (r)
  props C04
  requires block: len(l) >= 101 && len(l) < 0x1000000000
  requires slot: i >= 0 && i < 0x100000000 && 126 + 25*i <= len(l)
  ensures key: r == mk(btrfs.Key, le(l,101+25*i,8), le(l,109+25*i,1), le(l,110+25*i,8))

func btrfs.(Leaf).Data(l, i) (r)
  props C04
  requires block: len(l) >= 101 && len(l) < 0x1000000000
  requires slot: i >= 0 && i < 0x100000000 && 126 + 25*i <= len(l)
  let n = wide(len(l)) - 101
  let o = wide(le(l,118+25*i,4))
  let s = wide(le(l,122+25*i,4))
  ensures start: ref(r) == ref(l) && wide(off(r)) == wide(off(l)) + 101 + clipo(n, o)
  ensures length: wide(len(r)) == clipn(n, o, s)

func btrfs.(Leaf).Items(l) (r)
  props C04
  requires block: len(l) >= 101 && len(l) < 0x1000000000
  fresh r
  let n = typed(int,bv(64,le(l,96,4)))
  ensures fits: len(r) >= 0 && len(r) <= n && 101 + 25*len(r) <= len(l)
  ensures all: len(r) == n || 126 + 25*len(r) > len(l)
  ensures each: forall(k, 0, len(r), ref(r[k]) == ref(l) && off(r[k]) == off(l) + 101 + 25*k && len(r[k]) == 25)
  invariant done var(i int, items []btrfs.Item): forall(k, 0, i, ref(items[k]) == ref(l) && off(items[k]) == off(l) + 101 + 25*k && len(items[k]) == 25)
  invariant done1 var(i int, items []btrfs.Item): forall(k, 0, i+1, ref(items[k]) == ref(l) && off(items[k]) == off(l) + 101 + 25*k && len(items[k]) == 25)

define lim(n, m) = ite(n > wide(m), wide(m), n)

func btrfs.(Item).Data(i) (r)
  props C05
  requires fixed: len(i) >= 25
  ensures start: ref(r) == ref(i) && off(r) == off(i) + 25
  ensures length: wide(len(r)) == clipn(wide(len(i))-25, wide(0), wide(le(i,21,4)))

func btrfs.(InodeRefItem).Name(i) (r)
  props C05
  requires fixed: len(i) >= 10
  let n = clipn(wide(len(i)), wide(10), lim(wide(le(i,8,2)), 255))
  ensures name: r == str(i, 10, typed(int,bv(64,n)))

func btrfs.(DirItem).Name(d) (r)
  props C05
  requires fixed: len(d) >= 30
  let n = clipn(wide(len(d)), wide(30), lim(wide(le(d,27,2)), 255))
  ensures name: r == str(d, 30, typed(int,bv(64,n)))

func btrfs.(DirItem).Data(d) (r)
  props C05
  requires fixed: len(d) >= 30
  let o = clipo(wide(len(d)), 30 + wide(le(d,27,2)))
  let n = clipn(wide(len(d)), 30 + wide(le(d,27,2)), wide(le(d,25,2)))
  ensures value: r == str(d, typed(int,bv(64,o)), typed(int,bv(64,n)))

func btrfs.(RootRef).Name(r0) (r)
  props C05
  requires fixed: len(r0) >= 18
  let n = clipn(wide(len(r0)), wide(18), lim(wide(le(r0,16,2)), 255))
  ensures name: r == str(r0, 18, typed(int,bv(64,n)))

func btrfs.(FileExtentItem).Data(i) (r)
  props C05
  requires fixed: len(i) >= 21
  let n = clipn(wide(len(i)), wide(21), lim(wide(le(i,8,8)), 16384))
  ensures data: r == str(i, 21, typed(int,bv(64,n)))

// ---- key order (C03)
define fskey(k) = concat(raw(k.Type), raw(k.ObjectID), raw(k.Offset))

func btrfs.KeyCompare(a, b) (r)
  props C03
  ensures equal: (r == 0) == (a.Type == b.Type && a.ObjectID == b.ObjectID && a.Offset == b.Offset)
  ensures before: (r == -1) == (a.Type < b.Type || a.Type == b.Type && (a.ObjectID < b.ObjectID || a.ObjectID == b.ObjectID && a.Offset < b.Offset))
  ensures after: (r == 1) == (a.Type > b.Type || a.Type == b.Type && (a.ObjectID > b.ObjectID || a.ObjectID == b.ObjectID && a.Offset > b.Offset))
  ensures range: r == -1 || r == 0 || r == 1
  ensures index-order: (r == -1) == (fskey(a) < fskey(b))

lemma compare_antisymmetric(a btrfs.Key, b btrfs.Key)
  props C03
  let x = run(btrfs.KeyCompare, a, b)
  let y = run(btrfs.KeyCompare, b, a)
  ensures opposite: x == -y

lemma compare_transitive(a btrfs.Key, b btrfs.Key, c btrfs.Key)
  props C03
  let x = run(btrfs.KeyCompare, a, b)
  let y = run(btrfs.KeyCompare, b, c)
  let z = run(btrfs.KeyCompare, a, c)
  ensures less: implies(x <= 0 && y <= 0, z <= 0)
  ensures strict: implies(x <= 0 && y <= 0 && (x < 0 || y < 0), z < 0)

func btrfs.CheckDeviceSize(rs, blockSize) (size, err)
  props C17
  requires reader: !isnil(rs)
  requires sensible: blockSize < 0x100000000000000
  modifies ghost:seekpos
  let end = app("seekend", int64, plof(rs))
  let fails = app("seekfails", bool, plof(rs))
  ensures fails: isnil(err) == !(fails || typed(uint64,raw(end)) < blockSize || wide(typed(uint64,raw(end))) < 67108864 + 100*wide(blockSize))
  ensures size: implies(!fails, size == typed(uint64,raw(end)))

package blichmann.eu/code/btrfscue/pkg/ioutil as ioutil

func ioutil.ReadBlockAt(r, block, offset) (err)
  props C17, C15, C18
  requires reader: !isnil(r)
  modifies elems(block)
  let dev = app("dev", bytes, plof(r), tagof(r))
  ensures success: isnil(err) == (ghost(lastread) == len(block))
  modifies ghost:lastread
  let size = app("devlen", bv64, plof(r), tagof(r))
  ensures end: implies(iserr(err,"io.EOF") && offset < 1 << 63, size - raw(offset) < raw(len(block)) || size < raw(offset))
  ensures whole: implies(isnil(err), forall(k, 0, len(block), block[k] == sel(dev, offset + k)))
