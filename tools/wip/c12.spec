// Path lookup.  An entry: the directory item stored for directory d of tree o
// at offset f, seen at generation g; its name, whether it is a directory and
// where it leads.
define ekey(o, d, f) = concat(o, bv(8,84), d, f)
define ebest(in, g, o, d, f) = concat(ekey(o,d,f), app("ixbest", bv64, in, ekey(o,d,f), g))
define umin64(a, b) = ite(a < b, a, b)
define b4v(a, o) = concat(sel(a,o+3), sel(a,o+2), sel(a,o+1), sel(a,o))
define plen(a, n) = ite(bv(64,b4v(a,21)) > n-25, n-25, bv(64,b4v(a,21)))
function enthas(in arr_bv264_bool, o bv64, d bv64, f bv64) bool
  axiom def: result == app("ixhas", bool, in, ekey(o,d,f))
function entname(in arr_bv264_bool, val arr_bv264_bytes, ln arr_bv264_bv64, g bv64, o bv64, d bv64, f bv64) str
  axiom def: result == str(sel(val, ebest(in,g,o,d,f)), 55, umin64(umin64(bv(64, b2(sel(val, ebest(in,g,o,d,f)), 52)), bv(64,255)), plen(sel(val, ebest(in,g,o,d,f)), sel(ln, ebest(in,g,o,d,f))) - 30))
function entloc(in arr_bv264_bool, val arr_bv264_bytes, g bv64, o bv64, d bv64, f bv64) bv64
  axiom def: result == b8(sel(val, ebest(in,g,o,d,f)), 25)
function entsub(in arr_bv264_bool, val arr_bv264_bytes, g bv64, o bv64, d bv64, f bv64) bool
  axiom def: result == (sel(sel(val, ebest(in,g,o,d,f)), 33) == bv(8,132))
function entdir(in arr_bv264_bool, val arr_bv264_bytes, g bv64, o bv64, d bv64, f bv64) bool
  axiom def: result == (sel(sel(val, ebest(in,g,o,d,f)), 54) == bv(8,2))
// every directory item is long enough for its fixed part
function entlong(in arr_bv264_bool, val arr_bv264_bytes, ln arr_bv264_bv64, g bv64, o bv64, d bv64, f bv64) bool
  axiom def: result == (plen(sel(val, ebest(in,g,o,d,f)), sel(ln, ebest(in,g,o,d,f))) >= 30)
define dirslong(g) = forall(o, bv64, forall(d, bv64, forall(f, bv64, implies(enthas(ghost(ixin),o,d,f), entlong(ghost(ixin), ghost(ixval), ghost(ixlen), raw(g), o, d, f)))))
define comps(p) = app("strings.TrimLeft", str, p, "/")
define ncomp(p) = app("splitn", bv64, comps(p), "/")
define comp(p, i) = sel(app("splitat", arr_bv64_str, comps(p), "/"), i)
// reach(...,i,o,d): following the first i components of path p from the root
// of tree w leads to directory d of tree o (the least such relation).
function reach(in arr_bv264_bool, val arr_bv264_bytes, ln arr_bv264_bv64, g bv64, p str, w bv64, i bv64, o bv64, d bv64) bool
  axiom start: implies(i == 0 && o == w && d == bv(64,256), result)
  axiom step: forall(o1, bv64, forall(d1, bv64, forall(f, bv64, implies(i != 0 && app("reach", bool, in, val, ln, g, p, w, i-1, o1, d1) &&
    enthas(in,o1,d1,f) && entname(in,val,ln,g,o1,d1,f) == comp(p, i-1) &&
    ite(entsub(in,val,g,o1,d1,f), o == entloc(in,val,g,o1,d1,f) && d == bv(64,256), o == o1 && d == entloc(in,val,g,o1,d1,f)), result))))
define reached(g, p, w, i, o, d) = app("reach", bool, ghost(ixin), ghost(ixval), ghost(ixlen), raw(g), p, raw(w), i, o, d)
define isentry(g, o, d, f, name) = enthas(ghost(ixin),o,d,f) && entname(ghost(ixin),ghost(ixval),ghost(ixlen),raw(g),o,d,f) == name
define okentry(g, o, d, f, p, i) = isentry(g,o,d,f,comp(p,i)) && (i == ncomp(p)-1 || entdir(ghost(ixin),ghost(ixval),raw(g),o,d,f))
// r is an entry for component i of a directory the components before lead to
define entryfor(r, g, p, w, i) = exists(o, bv64, exists(d, bv64, exists(f, bv64, reached(g,p,w,i,o,d) && isentry(g,o,d,f,comp(p,i)) && payload(r, best(ekey(o,d,f), g)))))

func index.(*Index).FindDirItemForPath(ix, owner, path) (r)
  props C12
  requires open: open(ix)
  requires long: dirslong(ix.Generation)
  ensures found: implies(!isnil(r), entryfor(r, ix.Generation, path, owner, ncomp(path)-1))
  ensures missing: implies(isnil(r), exists(i, bv64, exists(o, bv64, exists(d, bv64, i < ncomp(path) && reached(ix.Generation,path,owner,i,o,d) &&
    forall(f, bv64, !okentry(ix.Generation,o,d,f,path,i))))))
  invariant reached var(i any:int=i, o any:uint64=owner, d any:uint64=dirID): reached(ix.Generation, path, owner, raw(i), raw(o), raw(d))
  invariant reachedr var(i any:int=rangeindex, o any:uint64=owner, d any:uint64=dirID): reached(ix.Generation, path, owner, raw(i)+1, raw(o), raw(d))
  invariant result var(i any:int=i, r btrfs.DirItem=result): i == 0 || entryfor(r, ix.Generation, path, owner, raw(i)-1)
  invariant resultr var(i any:int=rangeindex, r btrfs.DirItem=result): raw(i)+1 == 0 || entryfor(r, ix.Generation, path, owner, raw(i))
  invariant range var(r index.Range=r, o any:uint64=owner, d any:uint64=dirID): rangeok(r) && same(r.ix, ix) && be(r.end,0,25) == ekey(raw(o), raw(d), ones(64)) && (isnil(r.key) || ekey(raw(o), raw(d), bv(64,0)) <= cur(r))
  invariant item var(r index.Range=r, d btrfs.DirItem=d): isnil(r.key) || payload(d, best(cur(r), ix.Generation))
  invariant scanned var(r index.Range=r, o any:uint64=owner, d any:uint64=dirID, i any:int=i): forall(f, bv64, implies(isnil(r.key) || ekey(raw(o),raw(d),f) < cur(r), !okentry(ix.Generation,raw(o),raw(d),f,path,raw(i))))
