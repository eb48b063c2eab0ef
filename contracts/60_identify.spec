// ---- Filesystem identification (C15, C16)
package blichmann.eu/code/btrfscue/internal/identify as identify
package blichmann.eu/code/btrfscue/pkg/coding as coding

func coding.ShannonEntropy(b) (r)
  props C15
  trusted the entropy only breaks ties and is not specified (C30 is not claimed)

define hn(c, k) = ite(haskey(c.hist, k), atkey(c.hist, k).Count, 0)
define hsum(c, k) = ite(haskey(c.hist, k), atkey(c.hist, k).BlockSizeSum, 0)
define hnum(c, k) = ite(haskey(c.hist, k), atkey(c.hist, k).BlockSizeNum, 0)
// every id has a record of its own
define ownrecords(c) = forall(k, bv128, implies(haskey(c.hist, k), !isnil(atkey(c.hist, k)) && older(atkey(c.hist, k)))) &&
    forall(k, bv128, forall(l, bv128, implies(haskey(c.hist, k) && haskey(c.hist, l) && ref(atkey(c.hist, k)) == ref(atkey(c.hist, l)), k == l)))
define hits(b, k) = b[100] == 0 && k == be(b,32,16) && k != bv(128,0) && k != ones(128)

func identify.(*FSIDCollecter).CollectBlock(c, block)
  props C15
  requires receiver: !isnil(c)
  requires own: ownrecords(c)
  requires long: len(block) >= 126
  modifies obj(c), mapof(c.hist), obj(atkey(c.hist, be(block,32,16)))
  ensures own: ownrecords(c)
  ensures counted: forall(k, bv128, hn(c,k) == old(hn(c,k)) + ite(hits(block,k), 1, 0))
  ensures sums: forall(k, bv128, hsum(c,k) == old(hsum(c,k)) + ite(hits(block,k) && le(block,96,4) != 0, bv(64, le(block,118,4)), 0))
  ensures nums: forall(k, bv128, hnum(c,k) == old(hnum(c,k)) + ite(hits(block,k) && le(block,96,4) != 0, 1, 0))
  ensures present: forall(k, bv128, implies(haskey(c.hist,k) && !hits(block,k), old(haskey(c.hist,k))))

function guess(sum bv64, num bv64) bv32
  axiom def: result == ite(num == 0, bv(32,4096), bv(32, sum/num + 4096) / 4096 * 4096)
define fsentryok(c, e, min) = haskey(c.hist, keyraw(e.FSID)) && e.Count == hn(c, keyraw(e.FSID)) && e.Count >= min && e.BlockSize == guess(hsum(c, keyraw(e.FSID)), hnum(c, keyraw(e.FSID)))

func identify.(*FSIDCollecter).Entries(c, minOccurrence) (r)
  props C15
  requires receiver: !isnil(c)
  requires own: ownrecords(c)
  fresh r
  ensures exact: forall(i, 0, len(r), fsentryok(c, r[i], minOccurrence))
  ensures once: forall(i, 0, len(r), forall(j, 0, len(r), implies(keyraw(r[i].FSID) == keyraw(r[j].FSID), i == j)))
  ensures all: forall(k, bv128, implies(haskey(c.hist, k) && hn(c,k) >= minOccurrence, exists(i, 0, len(r), keyraw(r[i].FSID) == k)))
  ensures order: forall(i, 0, len(r), forall(j, 0, len(r), implies(i < j, r[i].Count >= r[j].Count)))
  invariant exact var(o identify.fsEntries): forall(i, 0, len(o), visited(keyraw(o[i].FSID)) && fsentryok(c, o[i], minOccurrence))
  invariant once var(o identify.fsEntries): forall(i, 0, len(o), forall(j, 0, len(o), implies(keyraw(o[i].FSID) == keyraw(o[j].FSID), i == j)))
  invariant all var(o identify.fsEntries): forall(k, bv128, implies(visited(k) && hn(c,k) >= minOccurrence, exists(i, 0, len(o), keyraw(o[i].FSID) == k)))

define super(n) = ite(n == 0, bv(64,0x10000), ite(n == 1, bv(64,0x4000000), ite(n == 2, bv(64,0x4000000000), bv(64,0x4000000000000))))

func identify.MakeSampleOffsets(devSize, blockSize, numSamples) (r)
  props C16
  requires block: blockSize > 0 && blockSize < 0x100000000
  requires large: devSize < 1 << 63 && devSize >= 0x4000000 + 100 * blockSize
  requires fits: numSamples <= devSize / blockSize && numSamples < 1 << 40
  fresh r
  ensures count: len(r) == numSamples
  ensures inside: forall(i, 0, len(r), r[i] <= devSize - blockSize)
  ensures ordered: forall(i, 0, len(r), forall(j, 0, len(r), implies(i < j, r[i] < r[j])))
  invariant inside var(m map): forall(k, bv64, implies(haskey(m, k), k <= devSize - blockSize))
  invariant small var(m map): len(m) <= numSamples
  invariant at var(i int): i == visits()
  invariant ranged var(s identify.Uint64Array, i int): forall(j, 0, i, s[j] <= devSize - blockSize)
  invariant seen var(s identify.Uint64Array, i int): forall(j, 0, i, visited(s[j]))
  invariant once var(s identify.Uint64Array, i int): forall(j, 0, i, forall(l, 0, i, implies(s[j] == s[l], j == l)))
