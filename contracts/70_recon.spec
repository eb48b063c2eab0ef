// ---- The metadata scan (C18)
package blichmann.eu/code/btrfscue/cmd as cmd
package blichmann.eu/code/btrfscue/cmd/btrfscue/app as app
package blichmann.eu/code/btrfscue/cmd/btrfscue/app/util as cliutil

// the positions s, s+bs, s+2*bs, ... (without wrapping around)
function scanpos(o bv64, s bv64, bs bv64) bool
  axiom first: implies(o == s, result)
  axiom next: implies(result && o + bs > o, app("scanpos", bool, o + bs, s, bs))
  axiom apart: implies(result, forall(q, bv64, implies(app("scanpos", bool, q, s, bs) && q >= o && q - o < bs, q == o)))

// The block at o of the content d: whether it is a leaf with items of the
// filesystem id, the number of items that fit into it, and for each the key it
// has to be recorded under and the position and length of its data.
function isleaf(d bytes, o bv64, id bv128) bool
  axiom def: result == (b16(d,o+32) == id && b4(d,o+96) != 0 && sel(d,o+100) == 0)
function nitems(d bytes, o bv64, bs bv64) bv64
  axiom fits: implies(bs >= 101 && bs < 0x1000000000, 101 + 25*result <= bs && result <= bv(64,b4(d,o+96)))
  axiom all: implies(bs >= 101 && bs < 0x1000000000, result == bv(64,b4(d,o+96)) || 126 + 25*result > bs)
function itemkey(d bytes, o bv64, i bv64) bv264
  axiom def: result == concat(b8(d,o+88), sel(d,o+109+25*i), b8(d,o+101+25*i), b8(d,o+110+25*i), b8(d,o+80))
// v and n are the value of item i of the block at o, and its length: the item
// header followed by the part of the data that lies in the block
function isvalue(d bytes, o bv64, i bv64, bs bv64, v bytes, n bv64) bool
  axiom def: result == isval(d, o+101+25*i, o+101, bs-101, v, n)
define ddoff(d, h) = bv(64,b4(d,h+17))
define ddlen(d, h, r) = ite(ddoff(d,h) > r, bv(64,0), ite(bv(64,b4(d,h+21)) > r-ddoff(d,h), r-ddoff(d,h), bv(64,b4(d,h+21))))
define isval(d, h, b, r, v, n) = n == 25 + ddlen(d,h,r) && forall(j, 0, 25, sel(v,j) == sel(d,h+j)) &&
    forall(j, bv64, implies(j < ddlen(d,h,r), sel(v,25+j) == sel(d,b+ddoff(d,h)+j)))

define fsidnum(u) = uuidnum(u)
// item (o,i) of a leaf is among the first of the device, up to item j of the block at p
define item(d, o, i, bs, id) = scanpos(o, 0x10000+bs, bs) && isleaf(d, o, id) && i < nitems(d, o, bs)
define upto(o, i, p, j) = o < p || o == p && i < j
// k holds the value of one of those
define source(d, k, p, j, bs, id) = exists(o, bv64, exists(i, bv64, item(d,o,i,bs,id) && upto(o,i,p,j) && itemkey(d,o,i) == k && isvalue(d, o, i, bs, sel(ghost(ixval),k), sel(ghost(ixlen),k))))
define recorded(d, p, j, bs, id) = forall(o, bv64, forall(i, bv64, implies(item(d,o,i,bs,id) && upto(o,i,p,j), sel(ghost(ixin), itemkey(d,o,i)) && source(d, itemkey(d,o,i), p, j, bs, id))))
define untouched(k) = sel(ghost(ixin),k) == (old(ghost(ixbucket)) && old(sel(ghost(ixin),k))) && implies(sel(ghost(ixin),k), sel(ghost(ixval),k) == old(sel(ghost(ixval),k)) && sel(ghost(ixlen),k) == old(sel(ghost(ixlen),k)))
define onlythose(d, p, j, bs, id) = forall(k, bv264, k == metakey() || untouched(k) || sel(ghost(ixin),k) && source(d, k, p, j, bs, id))

func cmd.doScanFS(filename, metadata, options)
  props C18
  requires block: app.Global.BlockSize >= 101 && app.Global.BlockSize < 0x80000000
  requires closed: !ghost(dbopen)
  requires record: metaok()
  modifies ghost:ixin, ghost:ixval, ghost:ixlen, ghost:ixbucket, ghost:dbopen, ghost:fsexist, ghost:seekpos
  let d = app("fcontent", bytes, filename)
  let n = raw(app("fsize", bv64, filename))
  let bs = raw(app.Global.BlockSize)
  let id = fsidnum(options.id)
  ensures complete: forall(o, bv64, forall(i, bv64, implies(item(d,o,i,bs,id) && o + bs <= n && o + bs > o, sel(ghost(ixin), itemkey(d,o,i)) && source(d, itemkey(d,o,i), n, bv(64,0), bs, id))))
  ensures only: onlythose(d, n, bv(64,0), bs, id)
  invariant buffer var(buf []byte): len(buf) == raw(app.Global.BlockSize)
  invariant open var(ix any:*index.Index): txok(ix) && rw(ix)
  invariant own var(ix any:*index.Index): fresh(ix) && fresh(ix.db) && fresh(ix.tx) && fresh(ix.bucket)
  invariant grid var(off any:uint64=off): scanpos(off, 0x10000+bs, bs) && off < n + bs
  invariant inside var(off any:uint64=off, i int): off + bs <= n
  invariant loaded var(off any:uint64=off, buf []byte): forall(j, 0, len(buf), buf[j] == sel(d, off + j))
  invariant slot var(off any:uint64=off, i int): i >= 0 && itemkey(d,off,i) == itemkey(d,off,i) && raw(i) <= nitems(d,off,bs)
  invariant leaf var(off any:uint64=off, i int): isleaf(d, off, id)
  invariant complete var(off any:uint64=off): recorded(d, off, bv(64,0), bs, id)
  invariant only var(off any:uint64=off): onlythose(d, off, bv(64,0), bs, id)
  invariant complete1 var(off any:uint64=off, i int): recorded(d, off, i, bs, id)
  invariant only1 var(off any:uint64=off, i int): onlythose(d, off, i, bs, id)
