// The metadata index as an ordered map (ghosts ixin, ixval, ixlen; see
// engine/models_bbolt.go).  An object is named by the 200-bit prefix of its
// stored key; ixhas tells whether it is stored at any generation, and ixbest
// is the generation of it that a view at generation v sees: the greatest one
// not above v, or the least if all are above.

define okey(o, k) = concat(raw(o), raw(k.Type), raw(k.ObjectID), raw(k.Offset))
define hasobj(p) = app("ixhas", bool, ghost(ixin), p)
define best(p, v) = concat(p, app("ixbest", bv64, ghost(ixin), p, raw(v)))
define content(s, k) = bytearr(s) == sel(ghost(ixval), k)
// s is the value stored under k
define stored(s, k) = content(s, k) && off(s) == 0 && raw(len(s)) == sel(ghost(ixlen), k) && len(s) >= 25 && len(s) < 0x80000000
// d is the part of that value the item's size field declares
define declared(k) = concat(sel(sel(ghost(ixval),k),24), sel(sel(ghost(ixval),k),23), sel(sel(ghost(ixval),k),22), sel(sel(ghost(ixval),k),21))
define paylen(k) = ite(bv(64,declared(k)) > sel(ghost(ixlen),k)-25, sel(ghost(ixlen),k)-25, bv(64,declared(k)))
define payload(d, k) = !isnil(d) && content(d, k) && off(d) == 25 && raw(len(d)) == paylen(k) && sel(ghost(ixlen),k) >= 25 && sel(ghost(ixlen),k) < 0x80000000
define keyis(s, k) = len(s) == 33 && off(s) == 0 && be(s,0,33) == k

func index.find(c, owner, k, generation) (rk, ri)
  props C06, C07
  requires cursor: !isnil(c)
  modifies obj(c)
  fresh rk
  fresh ri
  let p = okey(owner, k)
  ensures found: isnil(rk) == !hasobj(p) && isnil(ri) == isnil(rk)
  ensures key: implies(hasobj(p), keyis(rk, best(p, generation)))
  ensures value: implies(hasobj(p), stored(ri, best(p, generation)))

// the object at a range's position
define cur(r) = be(r.key,0,25)
define at(r, g) = hasobj(cur(r)) && keyis(r.key, best(cur(r), g)) && stored(r.value, best(cur(r), g))
define rangeok(r) = !isnil(r.ix) && !isnil(r.cursor) && len(r.end) == 33 && off(r.end) == 0 && be(r.end,25,8) == ones(64) && isnil(r.key) == isnil(r.value) && (isnil(r.key) || at(r, r.ix.Generation) && cur(r) <= be(r.end,0,25))

func index.findFirst(c, start, end, generation) (rk, ri)
  props C07
  requires cursor: !isnil(c)
  requires keys: len(start) == 33 && len(end) == 33
  requires whole: be(start,25,8) == 0 && be(end,25,8) == ones(64)
  modifies obj(c)
  fresh rk
  fresh ri
  let lo = be(start,0,25)
  let hi = be(end,0,25)
  post q = be(rk,0,25)
  ensures both: isnil(ri) == isnil(rk)
  ensures none: implies(isnil(rk), forall(p, bv200, implies(hasobj(p), p < lo || p > hi)))
  ensures within: implies(!isnil(rk), hasobj(q) && lo <= q && q <= hi)
  ensures version: implies(!isnil(rk), keyis(rk, best(q, generation)) && stored(ri, best(q, generation)))
  ensures least: implies(!isnil(rk), forall(p, bv200, implies(hasobj(p), p < lo || q <= p)))

func index.findNext(c, ik, end, generation) (rk, ri)
  props C07
  requires cursor: !isnil(c)
  requires keys: len(ik) == 33 && len(end) == 33
  requires whole: be(end,25,8) == ones(64)
  modifies obj(c)
  fresh rk
  fresh ri
  let lo = be(ik,0,25)
  let hi = be(end,0,25)
  post q = be(rk,0,25)
  ensures both: isnil(ri) == isnil(rk)
  ensures none: implies(isnil(rk), forall(p, bv200, implies(hasobj(p), p <= lo || p > hi)))
  ensures within: implies(!isnil(rk), hasobj(q) && lo < q && q <= hi)
  ensures version: implies(!isnil(rk), keyis(rk, best(q, generation)) && stored(ri, best(q, generation)))
  ensures least: implies(!isnil(rk), forall(p, bv200, implies(hasobj(p), p <= lo || q <= p)))

func index.(*Range).HasNext(r) (b)
  props C07
  requires range: !isnil(r) && rangeok(r)
  ensures end: b == !isnil(r.key)

func index.(*Range).Next(r) (d)
  props C07
  requires range: !isnil(r) && rangeok(r)
  requires more: !isnil(r.key)
  modifies obj(r, key), obj(r, value), obj(r.cursor)
  let lo = cur(r)
  let hi = be(r.end,0,25)
  ensures range: rangeok(r) && fresh(r.key) && fresh(r.value)
  ensures none: implies(isnil(r.key), isnil(d) && forall(p, bv200, implies(hasobj(p), p <= lo || p > hi)))
  ensures next: implies(!isnil(r.key), lo < cur(r) && cur(r) <= hi)
  ensures least: implies(!isnil(r.key), forall(p, bv200, implies(hasobj(p), p <= lo || cur(r) <= p)))
  ensures data: implies(!isnil(r.key), ref(d) == ref(r.value) && payload(d, best(cur(r), r.ix.Generation)))

// r is at the first object of [l, h] and d is its data
define begins(r, d, i, l, h) = rangeok(r) && same(r.ix, i) && be(r.end,0,25) == h && fresh(r.cursor) && fresh(r.key) && fresh(r.value) &&
    implies(isnil(r.key), isnil(d) && forall(p, bv200, implies(hasobj(p), p < l || p > h))) &&
    implies(!isnil(r.key), l <= cur(r) && ref(d) == ref(r.value) && payload(d, best(cur(r), i.Generation)) && forall(p, bv200, implies(hasobj(p), p < l || cur(r) <= p)))
define open(ix) = !isnil(ix) && !isnil(ix.bucket)

func index.(*Index).Range(ix, owner, first, last) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, okey(owner, first), okey(owner, last))

// all keys of the given type and object id, whatever the offset
define alllo(o, t, id) = concat(raw(o), raw(t), raw(id), bv(64,0))
define allhi(o, t, id) = concat(raw(o), raw(t), raw(id), ones(64))

func index.(*Index).RangeAll(ix, owner, t, id) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, alllo(owner, t, id), allhi(owner, t, id))

func index.(*Index).Subvolumes(ix) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, concat(bv(64,1), bv(8,132), bv(64,256), bv(64,0)), concat(bv(64,1), bv(8,132), bv(64,0xffffffffffffff00), ones(64)))

func index.(*Index).DirItems(ix, owner, id) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, alllo(owner, bv(8,84), id), allhi(owner, bv(8,84), id))

func index.(*Index).XAttrItems(ix, owner, id) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, alllo(owner, bv(8,24), id), allhi(owner, bv(8,24), id))

func index.(*Index).FileExtentItems(ix, owner, id) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, alllo(owner, bv(8,108), id), allhi(owner, bv(8,108), id))

func index.(*Index).Chunks(ix) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, alllo(bv(64,3), bv(8,228), bv(64,256)), allhi(bv(64,3), bv(8,228), bv(64,256)))

func index.(*Index).DevItems(ix) (r, d)
  props C07
  requires open: open(ix)
  ensures first: begins(r, d, ix, alllo(bv(64,3), bv(8,216), bv(64,1)), allhi(bv(64,3), bv(8,216), bv(64,1)))

func index.(*Index).FindItem(ix, owner, k) (i)
  props C06
  requires open: open(ix)
  fresh i
  let p = okey(owner, k)
  ensures found: isnil(i) == !hasobj(p)
  ensures value: implies(hasobj(p), stored(i, best(p, ix.Generation)))

func index.(*Index).FindInodeItem(ix, owner, inode) (i)
  props C06
  requires open: open(ix)
  let p = concat(raw(owner), bv(8,1), raw(inode), bv(64,0))
  ensures new: fresh(i)
  ensures found: isnil(i) == !hasobj(p)
  ensures value: implies(hasobj(p), payload(i, best(p, ix.Generation)))

func index.(*Index).FindFileExtentItem(ix, owner, id) (i)
  props C06
  requires open: open(ix)
  let p = concat(raw(owner), bv(8,108), raw(id), bv(64,0))
  ensures new: fresh(i)
  ensures found: isnil(i) == !hasobj(p)
  ensures value: implies(hasobj(p), payload(i, best(p, ix.Generation)))

func index.(*Index).FindExtentItem(ix, diskByteNr, diskNumBytes) (i)
  props C06
  requires open: open(ix)
  let p = concat(bv(64,2), bv(8,168), raw(diskByteNr), raw(diskNumBytes))
  ensures new: fresh(i)
  ensures found: isnil(i) == !hasobj(p)
  ensures value: implies(hasobj(p), payload(i, best(p, ix.Generation)))

func index.(*Range).Owner(r) (o)
  props C07, C08
  requires range: !isnil(r) && len(r.key) == 33
  ensures owner: raw(o) == be(r.key,0,8)

func index.(*Range).Key(r) (k)
  props C07, C08
  requires range: !isnil(r) && len(r.key) == 33
  ensures key: concat(raw(k.Type), raw(k.ObjectID), raw(k.Offset)) == be(r.key,8,17)

func index.(*Range).Generation(r) (g)
  props C07, C08
  requires range: !isnil(r) && len(r.key) == 33
  ensures generation: raw(g) == be(r.key,25,8)

func index.(*Range).Item(r) (i)
  props C07, C08
  requires range: !isnil(r)
  ensures item: same(i, r.value)

// Walking the whole index.  The index's own record is stored under metakey.
define metakey() = concat(ones(64), ones(8), bv(64,0xffffffffffffff00), ones(64), ones(64))
define object(f) = sel(ghost(ixin), f) && f != metakey()
define whole(r) = be(r.key,0,33)
define fullok(r) = !isnil(r.ix) && !isnil(r.cursor) && isnil(r.key) == isnil(r.value) &&
    implies(!isnil(r.key), len(r.key) == 33 && off(r.key) == 0 && object(whole(r)) && stored(r.value, whole(r)) && gfield(r.cursor, key) == whole(r) && gfield(r.cursor, mode) == bv(8,1))

func index.(*FullRange).HasNext(r) (b)
  props C08
  requires range: !isnil(r) && fullok(r)
  ensures end: b == !isnil(r.key)

func index.(*FullRange).Next(r) (d)
  props C08
  requires range: !isnil(r) && fullok(r)
  requires more: !isnil(r.key)
  modifies obj(r, key), obj(r, value), obj(r.cursor)
  let lo = whole(r)
  ensures range: fullok(r) && fresh(r.key) && fresh(r.value)
  ensures none: implies(isnil(r.key), isnil(d) && forall(f, bv264, implies(object(f), f <= lo)))
  ensures next: implies(!isnil(r.key), lo < whole(r))
  ensures least: implies(!isnil(r.key), forall(f, bv264, implies(object(f), f <= lo || whole(r) <= f)))
  ensures data: implies(!isnil(r.key), ref(d) == ref(r.value) && payload(d, whole(r)))

func index.(*Index).FullRange(ix) (r, d)
  props C08
  requires open: open(ix)
  ensures range: fullok(r) && same(r.ix, ix) && fresh(r.cursor) && fresh(r.key) && fresh(r.value)
  ensures none: implies(isnil(r.key), isnil(d) && forall(f, bv264, !object(f)))
  ensures least: implies(!isnil(r.key), forall(f, bv264, implies(object(f), whole(r) <= f)))
  ensures data: implies(!isnil(r.key), ref(d) == ref(r.value) && payload(d, whole(r)))

// The transaction state of an open index: the transaction it knows of is the
// open one of its database and its bucket belongs to it.
define txok(ix) = !isnil(ix) && !isnil(ix.db) && gfield(ix.db, open) && ghost(dbopen) && ghost(ixbucket) &&
    gfield(ix.db, writer) == (!isnil(ix.tx) && gfield(ix.tx, writable)) &&
    gfield(ix.db, reader) == (!isnil(ix.tx) && !gfield(ix.tx, writable)) &&
    implies(!isnil(ix.tx), gfield(ix.tx, open) && gfield(ix.tx, db) == ref(ix.db) && gfield(ix.tx, writable) == !gfield(ix.db, readonly) &&
      !isnil(ix.bucket) && gfield(ix.bucket, writable) == gfield(ix.tx, writable))
define rw(ix) = !gfield(ix.db, readonly)

func index.(*Index).Commit(ix) (err)
  props C09
  requires state: txok(ix) && rw(ix)
  modifies obj(ix, tx), obj(ix, txNum), obj(ix, bucket), obj(ix.tx), obj(ix.db), ghost:ixin, ghost:ixval, ghost:ixlen
  ensures state: txok(ix) && rw(ix) && isnil(ix.tx)
  ensures idle: implies(isnil(old(ix.tx)), isnil(err))
  ensures bucket: isnil(ix.bucket) || same(ix.bucket, old(ix.bucket))
  ensures kept: implies(isnil(err), ghost(ixin) == old(ghost(ixin)) && ghost(ixval) == old(ghost(ixval)) && ghost(ixlen) == old(ghost(ixlen)))

func index.(*Index).ensureTx(ix, writable) (err)
  props C09
  requires state: !isnil(ix) && txok(ix)
  requires mode: writable == rw(ix)
  modifies obj(ix, tx), obj(ix, bucket), obj(ix.db)
  ensures state: txok(ix) && gfield(ix.db, readonly) == !writable
  ensures opened: implies(isnil(err), !isnil(ix.tx) && gfield(ix.tx, writable) == writable)
  ensures failed: implies(!isnil(err), isnil(ix.tx))
  ensures bucket: same(ix.bucket, old(ix.bucket)) || fresh(ix.bucket)
  ensures new: implies(isnil(old(ix.tx)) && !isnil(ix.tx), fresh(ix.tx) && fresh(ix.bucket))
  ensures same: implies(!isnil(old(ix.tx)), isnil(err) && same(ix.tx, old(ix.tx)) && same(ix.bucket, old(ix.bucket)))

func index.(*Index).InsertItem(ix, k, h, item, data) (err)
  props C09
  requires state: txok(ix) && rw(ix)
  requires header: len(h) >= 101
  requires item: len(item) >= 25 && len(data) <= 0x7fffffff
  modifies obj(ix, tx), obj(ix, txNum), obj(ix, bucket), obj(ix.tx), obj(ix.db), ghost:ixin, ghost:ixval, ghost:ixlen
  let key = concat(le(h,88,8), raw(k.Type), raw(k.ObjectID), raw(k.Offset), le(h,80,8))
  post v = sel(ghost(ixval), key)
  ensures state: txok(ix) && rw(ix)
  ensures transaction: isnil(ix.tx) || fresh(ix.tx) && fresh(ix.bucket) || same(ix.tx, old(ix.tx)) && same(ix.bucket, old(ix.bucket))
  ensures bucket: same(ix.bucket, old(ix.bucket)) || fresh(ix.bucket)
  ensures key: implies(isnil(err), ghost(ixin) == upd(old(ghost(ixin)), key, true))
  ensures length: implies(isnil(err), ghost(ixlen) == upd(old(ghost(ixlen)), key, raw(len(data))+25))
  ensures others: implies(isnil(err), forall(q, bv264, q == key || sel(ghost(ixval), q) == sel(old(ghost(ixval)), q)))
  ensures header: implies(isnil(err), forall(i, 0, 25, sel(v, i) == raw(old(item[i]))))
  ensures data: implies(isnil(err), forall(i, 0, len(data), sel(v, i+25) == raw(old(data[i]))))

func index.(*Index).Close(ix)
  props C09
  requires state: txok(ix) && (rw(ix) || !isnil(ix.tx))
  modifies obj(ix, tx), obj(ix, txNum), obj(ix, bucket), obj(ix.tx), obj(ix.db), ghost:ixin, ghost:ixval, ghost:ixlen, ghost:dbopen
  ensures kept: implies(isnil(old(ix.tx)), ghost(ixin) == old(ghost(ixin)) && ghost(ixval) == old(ghost(ixval)) && ghost(ixlen) == old(ghost(ixlen)))
  ensures closed: !ghost(dbopen) && !gfield(ix.db, open) && !gfield(ix.db, writer) && !gfield(ix.db, reader)

// The index's own record
define hasmeta() = ghost(ixbucket) && sel(ghost(ixin), metakey())
define metaval() = sel(ghost(ixval), metakey())
define b4(a, o) = concat(sel(a,o+3), sel(a,o+2), sel(a,o+1), sel(a,o))
define b8(a, o) = concat(b4(a,o+4), b4(a,o))
define b16(a, o) = concat(sel(a,o), sel(a,o+1), sel(a,o+2), sel(a,o+3), sel(a,o+4), sel(a,o+5), sel(a,o+6), sel(a,o+7), sel(a,o+8), sel(a,o+9), sel(a,o+10), sel(a,o+11), sel(a,o+12), sel(a,o+13), sel(a,o+14), sel(a,o+15))
define uuidnum(u) = concat(raw(u[0]), raw(u[1]), raw(u[2]), raw(u[3]), raw(u[4]), raw(u[5]), raw(u[6]), raw(u[7]), raw(u[8]), raw(u[9]), raw(u[10]), raw(u[11]), raw(u[12]), raw(u[13]), raw(u[14]), raw(u[15]))
define metaok() = implies(hasmeta(), sel(ghost(ixlen), metakey()) >= 36)
define unchangedindex() = ghost(ixin) == old(ghost(ixin)) && ghost(ixval) == old(ghost(ixval)) && ghost(ixlen) == old(ghost(ixlen)) && ghost(ixbucket) == old(ghost(ixbucket))
// the version of the record is acceptable
define versionok(allow) = b8(metaval(),0) <= bv(64,20190809) && (allow || b8(metaval(),0) == bv(64,20190809))

func index.newIndexMetadata(o) (m)
  props C10
  requires options: !isnil(o)
  fresh m
  ensures length: len(m) == 36 && off(m) == 0 && !isnil(m)
  ensures version: le(m,0,8) == bv(64,20190809)
  ensures blocksize: le(m,8,4) == bv(32,o.BlockSize)
  ensures fsid: be(m,12,16) == uuidnum(o.FSID)
  ensures generation: le(m,28,8) == raw(o.Generation)

func index.(indexMetadata).Version(m) (v)
  props C10
  requires length: len(m) >= 36
  ensures version: raw(v) == le(m,0,8)
func index.(indexMetadata).BlockSize(m) (v)
  props C10
  requires length: len(m) >= 36
  ensures blocksize: raw(v) == le(m,8,4)
func index.(indexMetadata).FSID(m) (v)
  props C10
  requires length: len(m) >= 36
  ensures fsid: uuidnum(v) == be(m,12,16)
func index.(indexMetadata).Generation(m) (v)
  props C10
  requires length: len(m) >= 36
  ensures generation: raw(v) == le(m,28,8)

func index.(*Index).Metadata(ix) (m)
  props C10
  requires open: open(ix)
  ensures found: isnil(m) == !sel(ghost(ixin), metakey())
  ensures value: implies(!isnil(m), bytearr(m) == metaval() && off(m) == 0 && raw(len(m)) == sel(ghost(ixlen), metakey()))

define accepted(ro, allow, bs, fsid) = versionok(allow) && (ro || allow || b4(metaval(),8) == bs && b16(metaval(),12) == fsid)

func index.(*Index).checkUpdateMetadata(ix, o) (err)
  props C10
  requires open: !isnil(ix) && !isnil(ix.db) && !isnil(o)
  requires idle: gfield(ix.db, open) && !gfield(ix.db, writer) && gfield(ix.db, readonly) == o.ReadOnly
  requires record: metaok()
  modifies ghost:ixin, ghost:ixval, ghost:ixlen, ghost:ixbucket
  let had = hasmeta()
  ensures refused: implies(!isnil(err), unchangedindex())
  ensures kept: implies(isnil(err) && had, unchangedindex())
  ensures accepted: implies(isnil(err) && had, accepted(o.ReadOnly, o.AllowOldVersion, bv(32,o.BlockSize), uuidnum(o.FSID)))
  ensures present: implies(isnil(err), hasmeta() && metaok())
  ensures readonly: implies(isnil(err) && o.ReadOnly, had)
  ensures created: implies(isnil(err) && !had, sel(ghost(ixlen), metakey()) == 36 && b8(metaval(),0) == bv(64,20190809) &&
    b4(metaval(),8) == bv(32,o.BlockSize) && b16(metaval(),12) == uuidnum(o.FSID) && b8(metaval(),28) == raw(o.Generation))
  ensures objects: implies(isnil(err) && old(ghost(ixbucket)), forall(q, bv264, q == metakey() || (sel(ghost(ixin), q) == sel(old(ghost(ixin)), q) &&
    sel(ghost(ixval), q) == sel(old(ghost(ixval)), q) && sel(ghost(ixlen), q) == sel(old(ghost(ixlen)), q))))
  ensures empty: implies(isnil(err) && !old(ghost(ixbucket)), forall(q, bv264, q == metakey() || !sel(ghost(ixin), q)))

func index.openIndex(path, m, o) (ix, err)
  props C10
  requires closed: !ghost(dbopen)
  requires record: metaok()
  modifies ghost:ixin, ghost:ixval, ghost:ixlen, ghost:ixbucket, ghost:dbopen, ghost:fsexist
  let had = hasmeta()
  let ro = isnil(o) || o.ReadOnly
  ensures either: isnil(ix) == !isnil(err)
  ensures closed: ghost(dbopen) == isnil(err)
  ensures created: forall(q, str, q == path || sel(ghost(fsexist), q) == sel(old(ghost(fsexist)), q))
  ensures exists: implies(old(sel(ghost(fsexist), path)), sel(ghost(fsexist), path))
  ensures state: implies(isnil(err), fresh(ix) && fresh(ix.db) && fresh(ix.tx) && fresh(ix.bucket) && txok(ix) && !isnil(ix.tx) && open(ix) && isnil(ix.stripeMap) && rw(ix) == !ro)
  ensures generation: implies(isnil(err), raw(ix.Generation) == ite(isnil(o), ones(64), raw(o.Generation)))
  ensures refused: implies(!isnil(err) && had, unchangedindex())
  ensures kept: implies(had || ro, unchangedindex())
  ensures accepted: implies(isnil(err) && had && !isnil(o), accepted(o.ReadOnly, o.AllowOldVersion, bv(32,o.BlockSize), uuidnum(o.FSID)))
  ensures version: implies(isnil(err) && isnil(o), versionok(false))
  ensures present: implies(isnil(err), hasmeta() && metaok())
  ensures readonly: implies(isnil(err) && ro, had)
  ensures new: implies(isnil(err) && !had, sel(ghost(ixlen), metakey()) == 36 && b8(metaval(),0) == bv(64,20190809) &&
    b4(metaval(),8) == bv(32,o.BlockSize) && b16(metaval(),12) == uuidnum(o.FSID) && b8(metaval(),28) == raw(o.Generation))
  ensures objects: implies(isnil(err) && old(ghost(ixbucket)), forall(q, bv264, q == metakey() || (sel(ghost(ixin), q) == sel(old(ghost(ixin)), q) &&
    sel(ghost(ixval), q) == sel(old(ghost(ixval)), q) && sel(ghost(ixlen), q) == sel(old(ghost(ixlen)), q))))
  ensures empty: implies(isnil(err) && !old(ghost(ixbucket)), forall(q, bv264, q == metakey() || !sel(ghost(ixin), q)))

func index.OpenReadOnly(path) (ix, err)
  props C10
  requires closed: !ghost(dbopen)
  requires record: metaok()
  modifies ghost:ixin, ghost:ixval, ghost:ixlen, ghost:ixbucket, ghost:dbopen, ghost:fsexist
  ensures missing: implies(!old(sel(ghost(fsexist), path)), !isnil(err))
  ensures uncreated: forall(q, str, sel(ghost(fsexist), q) == sel(old(ghost(fsexist)), q))
  ensures either: isnil(ix) == !isnil(err)
  ensures closed: ghost(dbopen) == isnil(err)
  ensures readonly: implies(isnil(err), fresh(ix) && fresh(ix.db) && fresh(ix.tx) && fresh(ix.bucket) && txok(ix) && !isnil(ix.tx) && !rw(ix) && open(ix) && isnil(ix.stripeMap) && raw(ix.Generation) == ones(64))
  ensures kept: unchangedindex()
  ensures version: implies(isnil(err), hasmeta() && metaok() && versionok(false))

func index.Open(path, m, o) (ix, err)
  fresh ix
  props C10
  requires closed: !ghost(dbopen)
  requires record: metaok()
  requires options: !isnil(o)
  modifies ghost:ixin, ghost:ixval, ghost:ixlen, ghost:ixbucket, ghost:dbopen, ghost:fsexist
  let had = hasmeta()
  ensures either: isnil(ix) == !isnil(err)
  ensures closed: ghost(dbopen) == isnil(err)
  ensures state: implies(isnil(err), fresh(ix) && fresh(ix.db) && fresh(ix.tx) && fresh(ix.bucket) && txok(ix) && !isnil(ix.tx) && open(ix) && isnil(ix.stripeMap) && rw(ix) == !o.ReadOnly && raw(ix.Generation) == raw(o.Generation))
  ensures kept: implies(had, unchangedindex())
  ensures accepted: implies(isnil(err) && had, accepted(o.ReadOnly, o.AllowOldVersion, bv(32,o.BlockSize), uuidnum(o.FSID)))
  ensures present: implies(isnil(err), hasmeta() && metaok())
  ensures new: implies(isnil(err) && !had, sel(ghost(ixlen), metakey()) == 36 && b8(metaval(),0) == bv(64,20190809) &&
    b4(metaval(),8) == bv(32,o.BlockSize) && b16(metaval(),12) == uuidnum(o.FSID) && b8(metaval(),28) == raw(o.Generation))
  ensures objects: implies(isnil(err) && old(ghost(ixbucket)), forall(q, bv264, q == metakey() || (sel(ghost(ixin), q) == sel(old(ghost(ixin)), q) &&
    sel(ghost(ixval), q) == sel(old(ghost(ixval)), q) && sel(ghost(ixlen), q) == sel(old(ghost(ixlen)), q))))
  ensures empty: implies(isnil(err) && !old(ghost(ixbucket)), forall(q, bv264, q == metakey() || !sel(ghost(ixin), q)))

// Chunks: the item of the chunk at logical address l, the fields of its first
// stripe, and whether it has one.
define chunk(l) = concat(bv(64,3), bv(8,228), bv(64,256), l)
define cval(l, g) = sel(ghost(ixval), best(chunk(l), g))
define b2(a, o) = concat(sel(a,o+1), sel(a,o))
function chunkok(in arr_bv264_bool, val arr_bv264_bytes, g bv64, l bv64) bool
  axiom def: result == (app("ixhas", bool, in, chunk(l)) && b2(sel(val, concat(chunk(l), app("ixbest", bv64, in, chunk(l), g))), 69) != 0)
function chunkdev(in arr_bv264_bool, val arr_bv264_bytes, g bv64, l bv64) bv64
  axiom def: result == b8(sel(val, concat(chunk(l), app("ixbest", bv64, in, chunk(l), g))), 73)
function chunkoff(in arr_bv264_bool, val arr_bv264_bytes, g bv64, l bv64) bv64
  axiom def: result == b8(sel(val, concat(chunk(l), app("ixbest", bv64, in, chunk(l), g))), 81)
define usable(l, g) = chunkok(ghost(ixin), ghost(ixval), raw(g), l)
define cdev(l, g) = chunkdev(ghost(ixin), ghost(ixval), raw(g), l)
define coff(l, g) = chunkoff(ghost(ixin), ghost(ixval), raw(g), l)
// every chunk item is long enough for one stripe
define chunkslong(g) = forall(l, bv64, implies(hasobj(chunk(l)), paylen(best(chunk(l), g)) >= 80))

define entryok(e, g) = usable(raw(e.logical), g) && raw(e.devID) == cdev(raw(e.logical), g) && raw(e.offset) == coff(raw(e.logical), g)
define entriesok(s, g) = forall(i, 0, len(s), entryok(s[i], g))
// no usable chunk lies between two entries, nor below the first
define between(s, g) = forall(i, 0, len(s), forall(l, bv64, implies(usable(l, g), l >= raw(s[i].logical) || i > 0 && l <= raw(s[i-1].logical))))
// nor, up to the address m (exclusive), above the last
define above(s, g) = forall(l, bv64, implies(usable(l, g), len(s) > 0 && l <= raw(s[len(s)-1].logical)))
define aboveto(s, g, m) = forall(l, bv64, implies(usable(l, g), len(s) > 0 && l <= raw(s[len(s)-1].logical) || chunk(l) >= m))
define stripemapok(ix) = isnil(ix.stripeMap) || entriesok(ix.stripeMap, ix.Generation) && between(ix.stripeMap, ix.Generation) && above(ix.stripeMap, ix.Generation)

define physat(q, a, dev, o, g) = raw(dev) == cdev(q, g) && raw(o) == coff(q, g) + (raw(a) - q)

func index.(*Index).Physical(ix, logical) (devID, offset)
  props C11
  requires open: open(ix)
  requires long: chunkslong(ix.Generation)
  requires cache: stripemapok(ix)
  modifies obj(ix, stripeMap)
  ensures cache: stripemapok(ix)
  ensures none: implies(forall(l, bv64, !usable(l, ix.Generation)), devID == 0 && offset == 0)
  ensures at: forall(q, bv64, implies(usable(q, ix.Generation) && q <= raw(logical) && forall(l, bv64, implies(usable(l, ix.Generation), l <= q || l > raw(logical))),
    physat(q, logical, devID, offset, ix.Generation)))
  ensures below: forall(q, bv64, implies(usable(q, ix.Generation) && q > raw(logical) && forall(l, bv64, implies(usable(l, ix.Generation), q <= l)),
    physat(q, logical, devID, offset, ix.Generation)))
  invariant range var(r index.Range): rangeok(r) && same(r.ix, ix) && be(r.end,0,25) == concat(chunk(ones(64)))
  invariant low var(r index.Range): isnil(r.key) || chunk(bv(64,0)) <= cur(r)
  invariant item var(r index.Range, c btrfs.Chunk): isnil(r.key) || payload(c, best(cur(r), ix.Generation))
  invariant entries: entriesok(ix.stripeMap, ix.Generation)
  invariant between: between(ix.stripeMap, ix.Generation)
  invariant above var(r index.Range): ite(isnil(r.key), above(ix.stripeMap, ix.Generation), aboveto(ix.stripeMap, ix.Generation, cur(r)))
  invariant nonnil: !isnil(ix.stripeMap) && fresh(ix.stripeMap)
