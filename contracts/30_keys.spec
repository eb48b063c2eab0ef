package blichmann.eu/code/btrfscue/pkg/btrfs/index as index

// ---- stored index keys (C02)
func index.newIndexKey(owner, k, generation) (r)
  props C02
  fresh r
  ensures length: len(r) == 33
  ensures bytes: be(r,0,8) == owner && be(r,8,1) == k.Type && be(r,9,8) == k.ObjectID && be(r,17,8) == k.Offset && be(r,25,8) == generation

func index.(keyV2).Owner(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,0,8)
func index.(keyV2).Type(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,8,1)
func index.(keyV2).ObjectID(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,9,8)
func index.(keyV2).Offset(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,17,8)
func index.(keyV2).Generation(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,25,8)
func index.(keyV2).Key(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == mk(btrfs.Key, be(ik,9,8), be(ik,8,1), be(ik,17,8))
func index.(keyV1).Owner(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,0,8)
func index.(keyV1).Type(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,8,1)
func index.(keyV1).ObjectID(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,9,8)
func index.(keyV1).Offset(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,17,8)
func index.(keyV1).Generation(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == be(ik,25,8)
func index.(keyV1).Key(ik) (r)
  props C02
  requires long: len(ik) >= 33
  ensures value: r == mk(btrfs.Key, be(ik,9,8), be(ik,8,1), be(ik,17,8))

func index.NewIndexKeyFromV1(ik) (r)
  props C02
  requires long: len(ik) >= 33
  fresh r
  ensures length: len(r) == 33
  ensures preserved: be(r,0,8) == be(ik,0,8) && be(r,8,1) == be(ik,8,1) && be(r,9,8) == be(ik,9,8) && be(r,17,8) == be(ik,17,8) && be(r,25,8) == be(ik,25,8)

define ikey(o,t,i,f,g) = concat(raw(o), raw(t), raw(i), raw(f), raw(g))

// the stored bytes determine the tuple, and the tuple the bytes
lemma key_injective(o uint64, t uint8, i uint64, f uint64, g uint64, o2 uint64, t2 uint8, i2 uint64, f2 uint64, g2 uint64)
  props C02
  ensures injective: implies(ikey(o,t,i,f,g) == ikey(o2,t2,i2,f2,g2), o == o2 && t == t2 && i == i2 && f == f2 && g == g2)

// comparing the 33 bytes as one big-endian number is the order of the tuples
lemma key_order(o uint64, t uint8, i uint64, f uint64, g uint64, o2 uint64, t2 uint8, i2 uint64, f2 uint64, g2 uint64)
  props C02
  ensures lexicographic: (ikey(o,t,i,f,g) < ikey(o2,t2,i2,f2,g2)) ==
     (o < o2 || o == o2 && (t < t2 || t == t2 && (i < i2 || i == i2 && (f < f2 || f == f2 && g < g2))))
lemma bytewise(a0 uint8, a1 uint8, a2 uint8, a3 uint8, a4 uint8, a5 uint8, a6 uint8, a7 uint8, a8 uint8, a9 uint8, a10 uint8, a11 uint8, a12 uint8, a13 uint8, a14 uint8, a15 uint8, a16 uint8, a17 uint8, a18 uint8, a19 uint8, a20 uint8, a21 uint8, a22 uint8, a23 uint8, a24 uint8, a25 uint8, a26 uint8, a27 uint8, a28 uint8, a29 uint8, a30 uint8, a31 uint8, a32 uint8, b0 uint8, b1 uint8, b2 uint8, b3 uint8, b4 uint8, b5 uint8, b6 uint8, b7 uint8, b8 uint8, b9 uint8, b10 uint8, b11 uint8, b12 uint8, b13 uint8, b14 uint8, b15 uint8, b16 uint8, b17 uint8, b18 uint8, b19 uint8, b20 uint8, b21 uint8, b22 uint8, b23 uint8, b24 uint8, b25 uint8, b26 uint8, b27 uint8, b28 uint8, b29 uint8, b30 uint8, b31 uint8, b32 uint8)
  props C02
  ensures order: (concat(raw(a0), raw(a1), raw(a2), raw(a3), raw(a4), raw(a5), raw(a6), raw(a7), raw(a8), raw(a9), raw(a10), raw(a11), raw(a12), raw(a13), raw(a14), raw(a15), raw(a16), raw(a17), raw(a18), raw(a19), raw(a20), raw(a21), raw(a22), raw(a23), raw(a24), raw(a25), raw(a26), raw(a27), raw(a28), raw(a29), raw(a30), raw(a31), raw(a32)) < concat(raw(b0), raw(b1), raw(b2), raw(b3), raw(b4), raw(b5), raw(b6), raw(b7), raw(b8), raw(b9), raw(b10), raw(b11), raw(b12), raw(b13), raw(b14), raw(b15), raw(b16), raw(b17), raw(b18), raw(b19), raw(b20), raw(b21), raw(b22), raw(b23), raw(b24), raw(b25), raw(b26), raw(b27), raw(b28), raw(b29), raw(b30), raw(b31), raw(b32))) == (a0 < b0 || a0 == b0 && (a1 < b1 || a1 == b1 && (a2 < b2 || a2 == b2 && (a3 < b3 || a3 == b3 && (a4 < b4 || a4 == b4 && (a5 < b5 || a5 == b5 && (a6 < b6 || a6 == b6 && (a7 < b7 || a7 == b7 && (a8 < b8 || a8 == b8 && (a9 < b9 || a9 == b9 && (a10 < b10 || a10 == b10 && (a11 < b11 || a11 == b11 && (a12 < b12 || a12 == b12 && (a13 < b13 || a13 == b13 && (a14 < b14 || a14 == b14 && (a15 < b15 || a15 == b15 && (a16 < b16 || a16 == b16 && (a17 < b17 || a17 == b17 && (a18 < b18 || a18 == b18 && (a19 < b19 || a19 == b19 && (a20 < b20 || a20 == b20 && (a21 < b21 || a21 == b21 && (a22 < b22 || a22 == b22 && (a23 < b23 || a23 == b23 && (a24 < b24 || a24 == b24 && (a25 < b25 || a25 == b25 && (a26 < b26 || a26 == b26 && (a27 < b27 || a27 == b27 && (a28 < b28 || a28 == b28 && (a29 < b29 || a29 == b29 && (a30 < b30 || a30 == b30 && (a31 < b31 || a31 == b31 && (a32 < b32)))))))))))))))))))))))))))))))))


// ---- search keys and name hashes (C13)
func index.KF(args) (k)
  props C13
  requires count: len(args) <= 3
  ensures type: k.Type == ite(len(args) >= 1, typed(uint8,bv(8,args[0])), typed(uint8,bv(8,0)))
  ensures object: k.ObjectID == ite(len(args) >= 2, args[1], typed(uint64,bv(64,0)))
  ensures offset: k.Offset == ite(len(args) >= 3, args[2], typed(uint64,bv(64,0)))

func index.KL(args) (k)
  props C13
  requires count: len(args) <= 3
  ensures type: k.Type == ite(len(args) >= 1, typed(uint8,bv(8,args[0])), typed(uint8,ones(8)))
  ensures object: k.ObjectID == ite(len(args) >= 2, args[1], typed(uint64,bv(64,0xFFFFFFFFFFFFFF00)))
  ensures offset: k.Offset == ite(len(args) >= 3, args[2], typed(uint64,ones(64)))

// crcraw(init, polynomial, text): the CRC register after text, not inverted
func index.NameHash(name) (r)
  props C13
  ensures crc32c: r == app("crcraw", uint32, bv(32,0xFFFFFFFE), bv(32,0x82f63b78), name)
