package btrfs

// Generated by tools/gen_fields.py. Do not edit.

type vfield struct {
	zero      any
	typ, name string
	off       int
	kind      string
	n         int
}

var vfields = []vfield{
	{Header(nil), "Header", "CSum", 0, "csum", 0},
	{Header(nil), "Header", "FSID", 32, "uuid", 0},
	{Header(nil), "Header", "ByteNr", 48, "int", 8},
	{Header(nil), "Header", "Flags", 56, "int", 8},
	{Header(nil), "Header", "ChunkTreeUUID", 64, "uuid", 0},
	{Header(nil), "Header", "Generation", 80, "int", 8},
	{Header(nil), "Header", "Owner", 88, "int", 8},
	{Header(nil), "Header", "NrItems", 96, "int", 4},
	{Header(nil), "Header", "Level", 100, "int", 1},
	{Item(nil), "Item", "Key", 0, "key", 0},
	{Item(nil), "Item", "Offset", 17, "int", 4},
	{Item(nil), "Item", "Size", 21, "int", 4},
	{DevExtent(nil), "DevExtent", "ChunkTree", 0, "int", 8},
	{DevExtent(nil), "DevExtent", "ChunkObjectID", 8, "int", 8},
	{DevExtent(nil), "DevExtent", "ChunkOffset", 16, "int", 8},
	{DevExtent(nil), "DevExtent", "Length", 24, "int", 8},
	{DevExtent(nil), "DevExtent", "ChunkTreeUUID", 32, "uuid", 0},
	{DevItem(nil), "DevItem", "DevID", 0, "int", 8},
	{DevItem(nil), "DevItem", "TotalBytes", 8, "int", 8},
	{DevItem(nil), "DevItem", "BytesUsed", 16, "int", 8},
	{DevItem(nil), "DevItem", "IOAlign", 24, "int", 4},
	{DevItem(nil), "DevItem", "IOWidth", 28, "int", 4},
	{DevItem(nil), "DevItem", "SectorSize", 32, "int", 4},
	{DevItem(nil), "DevItem", "Type", 36, "int", 8},
	{DevItem(nil), "DevItem", "Generation", 44, "int", 8},
	{DevItem(nil), "DevItem", "StartOffset", 52, "int", 8},
	{DevItem(nil), "DevItem", "DevGroup", 60, "int", 4},
	{DevItem(nil), "DevItem", "SeekSpeed", 64, "int", 1},
	{DevItem(nil), "DevItem", "Bandwidth", 65, "int", 1},
	{DevItem(nil), "DevItem", "UUID", 66, "uuid", 0},
	{DevItem(nil), "DevItem", "FSID", 82, "uuid", 0},
	{Stripe(nil), "Stripe", "DevID", 0, "int", 8},
	{Stripe(nil), "Stripe", "Offset", 8, "int", 8},
	{Stripe(nil), "Stripe", "DevUUID", 16, "uuid", 0},
	{Chunk(nil), "Chunk", "Length", 0, "int", 8},
	{Chunk(nil), "Chunk", "Owner", 8, "int", 8},
	{Chunk(nil), "Chunk", "StripeLen", 16, "int", 8},
	{Chunk(nil), "Chunk", "Type", 24, "int", 8},
	{Chunk(nil), "Chunk", "IOAlign", 32, "int", 4},
	{Chunk(nil), "Chunk", "IOWidth", 36, "int", 4},
	{Chunk(nil), "Chunk", "SectorSize", 40, "int", 4},
	{Chunk(nil), "Chunk", "NumStripes", 44, "int", 2},
	{Chunk(nil), "Chunk", "SubStripes", 46, "int", 2},
	{InodeItem(nil), "InodeItem", "Generation", 0, "int", 8},
	{InodeItem(nil), "InodeItem", "TransID", 8, "int", 8},
	{InodeItem(nil), "InodeItem", "Size", 16, "int", 8},
	{InodeItem(nil), "InodeItem", "BlockGroup", 32, "int", 8},
	{InodeItem(nil), "InodeItem", "Nlink", 40, "int", 4},
	{InodeItem(nil), "InodeItem", "UID", 44, "int", 4},
	{InodeItem(nil), "InodeItem", "GID", 48, "int", 4},
	{InodeItem(nil), "InodeItem", "Mode", 52, "int", 4},
	{InodeItem(nil), "InodeItem", "Rdev", 56, "int", 8},
	{InodeItem(nil), "InodeItem", "Flags", 64, "int", 8},
	{InodeItem(nil), "InodeItem", "Sequence", 72, "int", 8},
	{InodeItem(nil), "InodeItem", "Reserved", 80, "u64s", 4},
	{InodeItem(nil), "InodeItem", "Atime", 112, "time", 0},
	{InodeItem(nil), "InodeItem", "Ctime", 124, "time", 0},
	{InodeItem(nil), "InodeItem", "Mtime", 136, "time", 0},
	{InodeItem(nil), "InodeItem", "Rtime", 148, "time", 0},
	{InodeRefItem(nil), "InodeRefItem", "Index", 0, "int", 8},
	{InodeRefItem(nil), "InodeRefItem", "NameLen", 8, "int", 2},
	{DirItem(nil), "DirItem", "Location", 0, "key", 0},
	{DirItem(nil), "DirItem", "TransID", 17, "int", 8},
	{DirItem(nil), "DirItem", "DataLen", 25, "int", 2},
	{DirItem(nil), "DirItem", "NameLen", 27, "int", 2},
	{DirItem(nil), "DirItem", "Type", 29, "int", 1},
	{BlockGroupItem(nil), "BlockGroupItem", "Used", 0, "int", 8},
	{BlockGroupItem(nil), "BlockGroupItem", "ChunkObjectID", 8, "int", 8},
	{BlockGroupItem(nil), "BlockGroupItem", "Flags", 16, "int", 8},
	{FileExtentItem(nil), "FileExtentItem", "Generation", 0, "int", 8},
	{FileExtentItem(nil), "FileExtentItem", "RAMBytes", 8, "int", 8},
	{FileExtentItem(nil), "FileExtentItem", "Compression", 16, "int", 1},
	{FileExtentItem(nil), "FileExtentItem", "Encryption", 17, "int", 1},
	{FileExtentItem(nil), "FileExtentItem", "OtherEncoding", 18, "int", 2},
	{FileExtentItem(nil), "FileExtentItem", "Type", 20, "int", 1},
	{FileExtentItem(nil), "FileExtentItem", "DiskByteNr", 21, "int", 8},
	{FileExtentItem(nil), "FileExtentItem", "DiskNumBytes", 29, "int", 8},
	{FileExtentItem(nil), "FileExtentItem", "Offset", 37, "int", 8},
	{FileExtentItem(nil), "FileExtentItem", "NumBytes", 45, "int", 8},
	{RootItem(nil), "RootItem", "Generation", 160, "int", 8},
	{RootItem(nil), "RootItem", "RootDirID", 168, "int", 8},
	{RootItem(nil), "RootItem", "ByteNr", 176, "int", 8},
	{RootItem(nil), "RootItem", "ByteLimit", 184, "int", 8},
	{RootItem(nil), "RootItem", "BytesUsed", 192, "int", 8},
	{RootItem(nil), "RootItem", "LastSnapshot", 200, "int", 8},
	{RootItem(nil), "RootItem", "Flags", 208, "int", 8},
	{RootItem(nil), "RootItem", "Refs", 216, "int", 4},
	{RootItem(nil), "RootItem", "DropProgress", 220, "key", 0},
	{RootItem(nil), "RootItem", "DropLevel", 237, "int", 1},
	{RootItem(nil), "RootItem", "Level", 238, "int", 1},
	{RootItem(nil), "RootItem", "GenerationV2", 239, "int", 8},
	{RootItem(nil), "RootItem", "UUID", 247, "uuid", 0},
	{RootItem(nil), "RootItem", "ParentUUID", 263, "uuid", 0},
	{RootItem(nil), "RootItem", "ReceivedUUID", 279, "uuid", 0},
	{RootItem(nil), "RootItem", "CTransID", 295, "int", 8},
	{RootItem(nil), "RootItem", "OTransID", 303, "int", 8},
	{RootItem(nil), "RootItem", "STransID", 311, "int", 8},
	{RootItem(nil), "RootItem", "RTransID", 319, "int", 8},
	{RootItem(nil), "RootItem", "Ctime", 327, "time", 0},
	{RootItem(nil), "RootItem", "Otime", 339, "time", 0},
	{RootItem(nil), "RootItem", "Stime", 351, "time", 0},
	{RootItem(nil), "RootItem", "Rtime", 363, "time", 0},
	{RootItem(nil), "RootItem", "Reserved", 375, "u64s", 8},
	{RootRef(nil), "RootRef", "DirID", 0, "int", 8},
	{RootRef(nil), "RootRef", "Sequence", 8, "int", 8},
	{RootRef(nil), "RootRef", "NameLen", 16, "int", 2},
	{ExtentItem(nil), "ExtentItem", "Refs", 0, "int", 8},
	{ExtentItem(nil), "ExtentItem", "Generation", 8, "int", 8},
	{ExtentItem(nil), "ExtentItem", "Flags", 16, "int", 8},
}

var vconsts = []struct {
	name      string
	got, want uint64
}{
	{"Magic", uint64(Magic), 5575266562640200287},
	{"X86RegularPageSize", uint64(X86RegularPageSize), 4096},
	{"DefaultBlockSize", uint64(DefaultBlockSize), 16384},
	{"SuperInfoOffset", uint64(SuperInfoOffset), 65536},
	{"SuperInfoOffset2", uint64(SuperInfoOffset2), 67108864},
	{"SuperInfoOffset3", uint64(SuperInfoOffset3), 274877906944},
	{"SuperInfoOffset4", uint64(SuperInfoOffset4), 1125899906842624},
	{"RootTreeObjectID", uint64(RootTreeObjectID), 1},
	{"ExtentTreeObjectID", uint64(ExtentTreeObjectID), 2},
	{"ChunkTreeObjectID", uint64(ChunkTreeObjectID), 3},
	{"DevTreeObjectID", uint64(DevTreeObjectID), 4},
	{"FSTreeObjectID", uint64(FSTreeObjectID), 5},
	{"RootTreeDirObjectID", uint64(RootTreeDirObjectID), 6},
	{"CSumTreeObjectID", uint64(CSumTreeObjectID), 7},
	{"QuotaTreeObjectID", uint64(QuotaTreeObjectID), 8},
	{"UuidTreeObjectID", uint64(UuidTreeObjectID), 9},
	{"FreeSpaceTreeObjectID", uint64(FreeSpaceTreeObjectID), 10},
	{"DevStatsObjectID", uint64(DevStatsObjectID), 0},
	{"BalanceObjectID", uint64(BalanceObjectID), 18446744073709551612},
	{"OrphanObjectID", uint64(OrphanObjectID), 18446744073709551611},
	{"TreeLogObjectID", uint64(TreeLogObjectID), 18446744073709551610},
	{"TreeLogFixupObjectID", uint64(TreeLogFixupObjectID), 18446744073709551609},
	{"TreeRelocObjectID", uint64(TreeRelocObjectID), 18446744073709551608},
	{"DataRelocTreeObjectID", uint64(DataRelocTreeObjectID), 18446744073709551607},
	{"ExtentCSumObjectID", uint64(ExtentCSumObjectID), 18446744073709551606},
	{"FreeSpaceObjectID", uint64(FreeSpaceObjectID), 18446744073709551605},
	{"FreeInoObjectID", uint64(FreeInoObjectID), 18446744073709551604},
	{"MultipleObjectIDs", uint64(MultipleObjectIDs), 18446744073709551361},
	{"FirstFreeObjectID", uint64(FirstFreeObjectID), 256},
	{"LastFreeObjectID", uint64(LastFreeObjectID), 18446744073709551360},
	{"FirstChunkTreeObjectID", uint64(FirstChunkTreeObjectID), 256},
	{"DevItemsObjectID", uint64(DevItemsObjectID), 1},
	{"BtreeInodeObjectID", uint64(BtreeInodeObjectID), 1},
	{"EmptySubvolDirObjectID", uint64(EmptySubvolDirObjectID), 2},
	{"LastObjectID", uint64(LastObjectID), 18446744073709551615},
	{"CSumSize", uint64(CSumSize), 32},
	{"LabelSize", uint64(LabelSize), 256},
	{"SystemChunkArraySize", uint64(SystemChunkArraySize), 2048},
	{"InodeItemKey", uint64(InodeItemKey), 1},
	{"InodeRefKey", uint64(InodeRefKey), 12},
	{"InodeExtrefKey", uint64(InodeExtrefKey), 13},
	{"XAttrItemKey", uint64(XAttrItemKey), 24},
	{"OrphanItemKey", uint64(OrphanItemKey), 48},
	{"DirLogItemKey", uint64(DirLogItemKey), 60},
	{"DirLogIndexKey", uint64(DirLogIndexKey), 72},
	{"DirItemKey", uint64(DirItemKey), 84},
	{"DirIndexKey", uint64(DirIndexKey), 96},
	{"ExtentDataKey", uint64(ExtentDataKey), 108},
	{"ExtentCSumKey", uint64(ExtentCSumKey), 128},
	{"RootItemKey", uint64(RootItemKey), 132},
	{"RootBackRefKey", uint64(RootBackRefKey), 144},
	{"RootRefKey", uint64(RootRefKey), 156},
	{"ExtentItemKey", uint64(ExtentItemKey), 168},
	{"MetadataItemKey", uint64(MetadataItemKey), 169},
	{"TreeBlockRefKey", uint64(TreeBlockRefKey), 176},
	{"ExtentDataRefKey", uint64(ExtentDataRefKey), 178},
	{"ExtentRefV0Key", uint64(ExtentRefV0Key), 180},
	{"SharedBlockRefKey", uint64(SharedBlockRefKey), 182},
	{"SharedDataRefKey", uint64(SharedDataRefKey), 184},
	{"BlockGroupItemKey", uint64(BlockGroupItemKey), 192},
	{"FreeSpaceInfoKey", uint64(FreeSpaceInfoKey), 198},
	{"FreeSpaceExtentKey", uint64(FreeSpaceExtentKey), 199},
	{"FreeSpaceBitmapKey", uint64(FreeSpaceBitmapKey), 200},
	{"DevExtentKey", uint64(DevExtentKey), 204},
	{"DevItemKey", uint64(DevItemKey), 216},
	{"ChunkItemKey", uint64(ChunkItemKey), 228},
	{"QgroupStatusKey", uint64(QgroupStatusKey), 240},
	{"QgroupInfoKey", uint64(QgroupInfoKey), 242},
	{"QgroupLimitKey", uint64(QgroupLimitKey), 244},
	{"QgroupRelationKey", uint64(QgroupRelationKey), 246},
	{"BalanceItemKey", uint64(BalanceItemKey), 248},
	{"TemporaryItemKey", uint64(TemporaryItemKey), 248},
	{"DevStatsKey", uint64(DevStatsKey), 249},
	{"PersistentItemKey", uint64(PersistentItemKey), 249},
	{"DevReplaceKey", uint64(DevReplaceKey), 250},
	{"UUIDKeySubvol", uint64(UUIDKeySubvol), 251},
	{"UUIDKeyReceivedSubvol", uint64(UUIDKeyReceivedSubvol), 252},
	{"StringItemKey", uint64(StringItemKey), 253},
	{"FtUnknown", uint64(FtUnknown), 0},
	{"FtRegFile", uint64(FtRegFile), 1},
	{"FtDir", uint64(FtDir), 2},
	{"FtChrdev", uint64(FtChrdev), 3},
	{"FtBlkdev", uint64(FtBlkdev), 4},
	{"FtFifo", uint64(FtFifo), 5},
	{"FtSock", uint64(FtSock), 6},
	{"FtSymlink", uint64(FtSymlink), 7},
	{"FtXattr", uint64(FtXattr), 8},
	{"FtMax", uint64(FtMax), 9},
	{"BlockGroupData", uint64(BlockGroupData), 1},
	{"BlockGroupSystem", uint64(BlockGroupSystem), 2},
	{"BlockGroupMetadata", uint64(BlockGroupMetadata), 4},
	{"BlockGroupRaid0", uint64(BlockGroupRaid0), 8},
	{"BlockGroupRaid1", uint64(BlockGroupRaid1), 16},
	{"BlockGroupDup", uint64(BlockGroupDup), 32},
	{"BlockGroupRaid10", uint64(BlockGroupRaid10), 64},
	{"BlockGroupRaid5", uint64(BlockGroupRaid5), 128},
	{"BlockGroupRaid6", uint64(BlockGroupRaid6), 256},
	{"FileExtentInline", uint64(FileExtentInline), 0},
	{"FileExtentReg", uint64(FileExtentReg), 1},
	{"FileExtentPreAlloc", uint64(FileExtentPreAlloc), 2},
	{"ExtentFlagData", uint64(ExtentFlagData), 1},
	{"ExtentFlagTreeBlock", uint64(ExtentFlagTreeBlock), 2},
	{"ExtentFlagFullBackref", uint64(ExtentFlagFullBackref), 256},
	{"KeyLen", uint64(KeyLen), 17},
	{"DevExtentLen", uint64(DevExtentLen), 48},
	{"DevItemLen", uint64(DevItemLen), 98},
	{"InodeItemLen", uint64(InodeItemLen), 160},
	{"FileExtentItemEnd", uint64(FileExtentItemEnd), 53},
	{"RootItemLen", uint64(RootItemLen), 439},
	{"HeaderLen", uint64(HeaderLen), 101},
	{"ItemLen", uint64(ItemLen), 25},
}
