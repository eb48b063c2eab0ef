#!/usr/bin/env python3
"""Writes contracts/10_fields.spec: one contract per field accessor.

The layouts below are typed in from the BTRFS on-disk format (struct btrfs_* in
the kernel's uapi/linux/btrfs_tree.h), not taken from the repository."""
import os
out = []
w = out.append
w("// Generated by tools/gen_fields.py from the BTRFS on-disk format. Do not edit.")
w("package blichmann.eu/code/btrfscue/pkg/btrfs as btrfs")
w("package blichmann.eu/code/btrfscue/pkg/uuid as uuid")
w("package time as time")
w("")

def contract(fn, par, need, ens, props="C01", extra=()):
    w(f"func btrfs.{fn}({par}) (r)")
    w(f"  props {props}")
    if need:
        w(f"  requires long: len({par}) >= {need}")
    for lab, e in ens:
        w(f"  ensures {lab}: {e}")
    for e in extra:
        w("  " + e)
    w("")

# plain readers
for n in (2, 4, 8):
    contract(f"SliceUint{n*8}LE", "b", n, [("value", f"r == le(b,0,{n})")])
contract("SliceUUID", "b", 16, [("bytes", "r == uuidat(uuid.UUID,b,0)")])
contract("SliceKey", "b", 17, [("value", "r == mk(btrfs.Key, le(b,0,8), le(b,8,1), le(b,9,8))")])
contract("SliceTimeLE", "b", 12, [("value", 'identical(r, run("time.Unix", typed(int64,le(b,0,8)), typed(int64,bv(64,le(b,8,4)))))')])

tab = []
def fields(typ, recv, lst):
    for name, off, kind in lst:
        if isinstance(kind, int):
            tab.append((typ, name, off, "int", kind))
        elif kind in ("uuid", "csum", "key", "time"):
            tab.append((typ, name, off, kind, 0))
        elif kind[0] == "u64s":
            tab.append((typ, name, off, "u64s", kind[1]))
        if isinstance(kind, int):
            contract(f"({typ}).{name}", recv, off + kind, [("value", f"r == le({recv},{off},{kind})")])
        elif kind == "uuid":
            contract(f"({typ}).{name}", recv, off + 16, [("bytes", f"r == uuidat(uuid.UUID,{recv},{off})")])
        elif kind == "key":
            contract(f"({typ}).{name}", recv, off + 17, [("value", f"r == mk(btrfs.Key, le({recv},{off},8), le({recv},{off+8},1), le({recv},{off+9},8))")])
        elif kind == "time":
            contract(f"({typ}).{name}", recv, off + 12, [("value",
                f'identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le({recv},{off},8)), typed(int64,bv(64,le({recv},{off+8},4))))))')])
        elif kind[0] == "u64s":
            n = kind[1]
            contract(f"({typ}).{name}", recv, off + 8 * n, [(f"word{i}", f"r[{i}] == le({recv},{off+8*i},8)") for i in range(n)])
        elif kind == "rest":
            contract(f"({typ}).{name}", recv, off, [("slice", f"ref(r) == ref({recv}) && off(r) == off({recv})+{off} && len(r) == len({recv})-{off}")])
        elif kind[0] == "test":
            contract(f"({typ}).{name}", recv, kind[1], [("meaning", kind[2])])
        elif kind == "csum":
            contract(f"({typ}).{name}", recv, off + 32, [("bytes", f"r == uuidat(btrfs.CSum,{recv},{off})")])

fields("Header", "h", [
    ("CSum", 0, "csum"), ("FSID", 32, "uuid"), ("ByteNr", 48, 8), ("Flags", 56, 8),
    ("ChunkTreeUUID", 64, "uuid"), ("Generation", 80, 8), ("Owner", 88, 8),
    ("NrItems", 96, 4), ("Level", 100, 1), ("IsLeaf", 0, ("test", 101, "r == (le(h,100,1) == 0)"))])
fields("Item", "i", [("Key", 0, "key"), ("Offset", 17, 4), ("Size", 21, 4)])
fields("DevExtent", "e", [("ChunkTree", 0, 8), ("ChunkObjectID", 8, 8), ("ChunkOffset", 16, 8), ("Length", 24, 8), ("ChunkTreeUUID", 32, "uuid")])
fields("DevItem", "i", [("DevID", 0, 8), ("TotalBytes", 8, 8), ("BytesUsed", 16, 8), ("IOAlign", 24, 4), ("IOWidth", 28, 4),
    ("SectorSize", 32, 4), ("Type", 36, 8), ("Generation", 44, 8), ("StartOffset", 52, 8), ("DevGroup", 60, 4),
    ("SeekSpeed", 64, 1), ("Bandwidth", 65, 1), ("UUID", 66, "uuid"), ("FSID", 82, "uuid")])
fields("Stripe", "s", [("DevID", 0, 8), ("Offset", 8, 8), ("DevUUID", 16, "uuid")])
fields("Chunk", "c", [("Length", 0, 8), ("Owner", 8, 8), ("StripeLen", 16, 8), ("Type", 24, 8), ("IOAlign", 32, 4),
    ("IOWidth", 36, 4), ("SectorSize", 40, 4), ("NumStripes", 44, 2), ("SubStripes", 46, 2)])
w("func btrfs.(Chunk).Stripe(c, i) (r)")
w("  props C01")
w("  requires long: len(c) >= 48 + 32*typed(int,bv(64,i))")
w("  ensures slice: ref(r) == ref(c) && off(r) == off(c)+48+32*typed(int,bv(64,i)) && len(r) == len(c)-48-32*typed(int,bv(64,i))")
w("")
fields("InodeItem", "i", [("Generation", 0, 8), ("TransID", 8, 8), ("Size", 16, 8), ("BlockGroup", 32, 8), ("Nlink", 40, 4),
    ("UID", 44, 4), ("GID", 48, 4), ("Mode", 52, 4), ("Rdev", 56, 8), ("Flags", 64, 8), ("Sequence", 72, 8),
    ("Reserved", 80, ("u64s", 4)), ("Atime", 112, "time"), ("Ctime", 124, "time"), ("Mtime", 136, "time"), ("Rtime", 148, "time")])
fields("InodeRefItem", "i", [("Index", 0, 8), ("NameLen", 8, 2)])
fields("DirItem", "d", [("Location", 0, "key"), ("TransID", 17, 8), ("DataLen", 25, 2), ("NameLen", 27, 2), ("Type", 29, 1),
    ("IsDir", 0, ("test", 30, "r == (le(d,29,1) == 2)")), ("IsSubvolume", 0, ("test", 17, "r == (le(d,8,1) == 132)"))])
fields("BlockGroupItem", "i", [("Used", 0, 8), ("ChunkObjectID", 8, 8), ("Flags", 16, 8)])
fields("FileExtentItem", "i", [("Generation", 0, 8), ("RAMBytes", 8, 8), ("Compression", 16, 1), ("Encryption", 17, 1),
    ("OtherEncoding", 18, 2), ("Type", 20, 1), ("DiskByteNr", 21, 8), ("DiskNumBytes", 29, 8), ("Offset", 37, 8), ("NumBytes", 45, 8),
    ("IsInline", 0, ("test", 21, "r == (le(i,20,1) == 0)"))])
# a checksum item may be shorter than the largest checksum: the rest is zero
w("func btrfs.(CSumItem).CSum(i) (r)")
w("  props C01")
for k in range(32):
    w(f"  ensures byte{k}: r[{k}] == ite(len(i) > {k}, le(i,{k},1), typed(uint8,bv(8,0)))")
w("")
fields("RootItem", "i", [("Inode", 0, "rest"), ("Generation", 160, 8), ("RootDirID", 168, 8), ("ByteNr", 176, 8), ("ByteLimit", 184, 8),
    ("BytesUsed", 192, 8), ("LastSnapshot", 200, 8), ("Flags", 208, 8), ("Refs", 216, 4), ("DropProgress", 220, "key"),
    ("DropLevel", 237, 1), ("Level", 238, 1), ("GenerationV2", 239, 8), ("UUID", 247, "uuid"), ("ParentUUID", 263, "uuid"),
    ("ReceivedUUID", 279, "uuid"), ("CTransID", 295, 8), ("OTransID", 303, 8), ("STransID", 311, 8), ("RTransID", 319, 8),
    ("Ctime", 327, "time"), ("Otime", 339, "time"), ("Stime", 351, "time"), ("Rtime", 363, "time"), ("Reserved", 375, ("u64s", 8)),
    ("IsGenerationV2", 0, ("test", 247, "r == (le(i,160,8) == le(i,239,8))"))])
fields("RootRef", "r0", [("DirID", 0, 8), ("Sequence", 8, 8), ("NameLen", 16, 2)])
fields("ExtentItem", "i", [("Refs", 0, 8), ("Generation", 8, 8), ("Flags", 16, 8), ("IsCompatV0", 0, ("test", 0, "r == (len(i) < 24)"))])

M = (1 << 64)
consts = dict(
    Magic=0x4d5f53665248425f, X86RegularPageSize=4096, DefaultBlockSize=16384,
    SuperInfoOffset=64 << 10, SuperInfoOffset2=64 << 20, SuperInfoOffset3=256 << 30, SuperInfoOffset4=1 << 50,
    RootTreeObjectID=1, ExtentTreeObjectID=2, ChunkTreeObjectID=3, DevTreeObjectID=4, FSTreeObjectID=5, RootTreeDirObjectID=6,
    CSumTreeObjectID=7, QuotaTreeObjectID=8, UuidTreeObjectID=9, FreeSpaceTreeObjectID=10, DevStatsObjectID=0,
    BalanceObjectID=M-4, OrphanObjectID=M-5, TreeLogObjectID=M-6, TreeLogFixupObjectID=M-7, TreeRelocObjectID=M-8,
    DataRelocTreeObjectID=M-9, ExtentCSumObjectID=M-10, FreeSpaceObjectID=M-11, FreeInoObjectID=M-12, MultipleObjectIDs=M-255,
    FirstFreeObjectID=256, LastFreeObjectID=M-256, FirstChunkTreeObjectID=256, DevItemsObjectID=1, BtreeInodeObjectID=1,
    EmptySubvolDirObjectID=2, LastObjectID=M-1, CSumSize=32, LabelSize=256, SystemChunkArraySize=2048,
    InodeItemKey=1, InodeRefKey=12, InodeExtrefKey=13, XAttrItemKey=24, OrphanItemKey=48, DirLogItemKey=60, DirLogIndexKey=72,
    DirItemKey=84, DirIndexKey=96, ExtentDataKey=108, ExtentCSumKey=128, RootItemKey=132, RootBackRefKey=144, RootRefKey=156,
    ExtentItemKey=168, MetadataItemKey=169, TreeBlockRefKey=176, ExtentDataRefKey=178, ExtentRefV0Key=180, SharedBlockRefKey=182,
    SharedDataRefKey=184, BlockGroupItemKey=192, FreeSpaceInfoKey=198, FreeSpaceExtentKey=199, FreeSpaceBitmapKey=200,
    DevExtentKey=204, DevItemKey=216, ChunkItemKey=228, QgroupStatusKey=240, QgroupInfoKey=242, QgroupLimitKey=244,
    QgroupRelationKey=246, BalanceItemKey=248, TemporaryItemKey=248, DevStatsKey=249, PersistentItemKey=249, DevReplaceKey=250,
    UUIDKeySubvol=251, UUIDKeyReceivedSubvol=252, StringItemKey=253,
    FtUnknown=0, FtRegFile=1, FtDir=2, FtChrdev=3, FtBlkdev=4, FtFifo=5, FtSock=6, FtSymlink=7, FtXattr=8, FtMax=9,
    BlockGroupData=1, BlockGroupSystem=2, BlockGroupMetadata=4, BlockGroupRaid0=8, BlockGroupRaid1=16, BlockGroupDup=32,
    BlockGroupRaid10=64, BlockGroupRaid5=128, BlockGroupRaid6=256,
    FileExtentInline=0, FileExtentReg=1, FileExtentPreAlloc=2, ExtentFlagData=1, ExtentFlagTreeBlock=2, ExtentFlagFullBackref=256,
    KeyLen=17, DevExtentLen=48, DevItemLen=98, InodeItemLen=160, FileExtentItemEnd=53, RootItemLen=439, HeaderLen=101, ItemLen=25,
)
w("lemma constants()")
w("  props C01")
for k, v in consts.items():
    w(f"  ensures {k}: btrfs.{k} == {v}")
w("  ensures UUIDSize: uuid.UUIDSize == 16")
w("")
open(os.path.join(os.path.dirname(__file__), "..", "contracts", "10_fields.spec"), "w").write("\n".join(out))

# the same table for the replay harness
g = []
g.append("package btrfs\n\n// Generated by tools/gen_fields.py. Do not edit.\n")
g.append("type vfield struct {\n\tzero any\n\ttyp, name string\n\toff int\n\tkind string\n\tn int\n}\n")
g.append("var vfields = []vfield{")
for t, n, o, k, a in tab:
    g.append(f'\t{{{t}(nil), "{t}", "{n}", {o}, "{k}", {a}}},')
g.append("}\n")
g.append("var vconsts = []struct {\n\tname string\n\tgot, want uint64\n}{")
for k, v in consts.items():
    g.append(f'\t{{"{k}", uint64({k}), {v}}},')
g.append("}\n")
open(os.path.join(os.path.dirname(__file__), "..", "harness", "btrfs", "fields_verif_test.go"), "w").write("\n".join(g))
