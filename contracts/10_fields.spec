// Generated by tools/gen_fields.py from the BTRFS on-disk format. Do not edit.
package blichmann.eu/code/btrfscue/pkg/btrfs as btrfs
package blichmann.eu/code/btrfscue/pkg/uuid as uuid
package time as time

func btrfs.SliceUint16LE(b) (r)
  props C01
  requires long: len(b) >= 2
  ensures value: r == le(b,0,2)

func btrfs.SliceUint32LE(b) (r)
  props C01
  requires long: len(b) >= 4
  ensures value: r == le(b,0,4)

func btrfs.SliceUint64LE(b) (r)
  props C01
  requires long: len(b) >= 8
  ensures value: r == le(b,0,8)

func btrfs.SliceUUID(b) (r)
  props C01
  requires long: len(b) >= 16
  ensures bytes: r == uuidat(uuid.UUID,b,0)

func btrfs.SliceKey(b) (r)
  props C01
  requires long: len(b) >= 17
  ensures value: r == mk(btrfs.Key, le(b,0,8), le(b,8,1), le(b,9,8))

func btrfs.SliceTimeLE(b) (r)
  props C01
  requires long: len(b) >= 12
  ensures value: identical(r, run("time.Unix", typed(int64,le(b,0,8)), typed(int64,bv(64,le(b,8,4)))))

func btrfs.(Header).CSum(h) (r)
  props C01
  requires long: len(h) >= 32
  ensures bytes: r == uuidat(btrfs.CSum,h,0)

func btrfs.(Header).FSID(h) (r)
  props C01
  requires long: len(h) >= 48
  ensures bytes: r == uuidat(uuid.UUID,h,32)

func btrfs.(Header).ByteNr(h) (r)
  props C01
  requires long: len(h) >= 56
  ensures value: r == le(h,48,8)

func btrfs.(Header).Flags(h) (r)
  props C01
  requires long: len(h) >= 64
  ensures value: r == le(h,56,8)

func btrfs.(Header).ChunkTreeUUID(h) (r)
  props C01
  requires long: len(h) >= 80
  ensures bytes: r == uuidat(uuid.UUID,h,64)

func btrfs.(Header).Generation(h) (r)
  props C01
  requires long: len(h) >= 88
  ensures value: r == le(h,80,8)

func btrfs.(Header).Owner(h) (r)
  props C01
  requires long: len(h) >= 96
  ensures value: r == le(h,88,8)

func btrfs.(Header).NrItems(h) (r)
  props C01
  requires long: len(h) >= 100
  ensures value: r == le(h,96,4)

func btrfs.(Header).Level(h) (r)
  props C01
  requires long: len(h) >= 101
  ensures value: r == le(h,100,1)

func btrfs.(Header).IsLeaf(h) (r)
  props C01
  requires long: len(h) >= 101
  ensures meaning: r == (le(h,100,1) == 0)

func btrfs.(Item).Key(i) (r)
  props C01
  requires long: len(i) >= 17
  ensures value: r == mk(btrfs.Key, le(i,0,8), le(i,8,1), le(i,9,8))

func btrfs.(Item).Offset(i) (r)
  props C01
  requires long: len(i) >= 21
  ensures value: r == le(i,17,4)

func btrfs.(Item).Size(i) (r)
  props C01
  requires long: len(i) >= 25
  ensures value: r == le(i,21,4)

func btrfs.(DevExtent).ChunkTree(e) (r)
  props C01
  requires long: len(e) >= 8
  ensures value: r == le(e,0,8)

func btrfs.(DevExtent).ChunkObjectID(e) (r)
  props C01
  requires long: len(e) >= 16
  ensures value: r == le(e,8,8)

func btrfs.(DevExtent).ChunkOffset(e) (r)
  props C01
  requires long: len(e) >= 24
  ensures value: r == le(e,16,8)

func btrfs.(DevExtent).Length(e) (r)
  props C01
  requires long: len(e) >= 32
  ensures value: r == le(e,24,8)

func btrfs.(DevExtent).ChunkTreeUUID(e) (r)
  props C01
  requires long: len(e) >= 48
  ensures bytes: r == uuidat(uuid.UUID,e,32)

func btrfs.(DevItem).DevID(i) (r)
  props C01
  requires long: len(i) >= 8
  ensures value: r == le(i,0,8)

func btrfs.(DevItem).TotalBytes(i) (r)
  props C01
  requires long: len(i) >= 16
  ensures value: r == le(i,8,8)

func btrfs.(DevItem).BytesUsed(i) (r)
  props C01
  requires long: len(i) >= 24
  ensures value: r == le(i,16,8)

func btrfs.(DevItem).IOAlign(i) (r)
  props C01
  requires long: len(i) >= 28
  ensures value: r == le(i,24,4)

func btrfs.(DevItem).IOWidth(i) (r)
  props C01
  requires long: len(i) >= 32
  ensures value: r == le(i,28,4)

func btrfs.(DevItem).SectorSize(i) (r)
  props C01
  requires long: len(i) >= 36
  ensures value: r == le(i,32,4)

func btrfs.(DevItem).Type(i) (r)
  props C01
  requires long: len(i) >= 44
  ensures value: r == le(i,36,8)

func btrfs.(DevItem).Generation(i) (r)
  props C01
  requires long: len(i) >= 52
  ensures value: r == le(i,44,8)

func btrfs.(DevItem).StartOffset(i) (r)
  props C01
  requires long: len(i) >= 60
  ensures value: r == le(i,52,8)

func btrfs.(DevItem).DevGroup(i) (r)
  props C01
  requires long: len(i) >= 64
  ensures value: r == le(i,60,4)

func btrfs.(DevItem).SeekSpeed(i) (r)
  props C01
  requires long: len(i) >= 65
  ensures value: r == le(i,64,1)

func btrfs.(DevItem).Bandwidth(i) (r)
  props C01
  requires long: len(i) >= 66
  ensures value: r == le(i,65,1)

func btrfs.(DevItem).UUID(i) (r)
  props C01
  requires long: len(i) >= 82
  ensures bytes: r == uuidat(uuid.UUID,i,66)

func btrfs.(DevItem).FSID(i) (r)
  props C01
  requires long: len(i) >= 98
  ensures bytes: r == uuidat(uuid.UUID,i,82)

func btrfs.(Stripe).DevID(s) (r)
  props C01
  requires long: len(s) >= 8
  ensures value: r == le(s,0,8)

func btrfs.(Stripe).Offset(s) (r)
  props C01
  requires long: len(s) >= 16
  ensures value: r == le(s,8,8)

func btrfs.(Stripe).DevUUID(s) (r)
  props C01
  requires long: len(s) >= 32
  ensures bytes: r == uuidat(uuid.UUID,s,16)

func btrfs.(Chunk).Length(c) (r)
  props C01
  requires long: len(c) >= 8
  ensures value: r == le(c,0,8)

func btrfs.(Chunk).Owner(c) (r)
  props C01
  requires long: len(c) >= 16
  ensures value: r == le(c,8,8)

func btrfs.(Chunk).StripeLen(c) (r)
  props C01
  requires long: len(c) >= 24
  ensures value: r == le(c,16,8)

func btrfs.(Chunk).Type(c) (r)
  props C01
  requires long: len(c) >= 32
  ensures value: r == le(c,24,8)

func btrfs.(Chunk).IOAlign(c) (r)
  props C01
  requires long: len(c) >= 36
  ensures value: r == le(c,32,4)

func btrfs.(Chunk).IOWidth(c) (r)
  props C01
  requires long: len(c) >= 40
  ensures value: r == le(c,36,4)

func btrfs.(Chunk).SectorSize(c) (r)
  props C01
  requires long: len(c) >= 44
  ensures value: r == le(c,40,4)

func btrfs.(Chunk).NumStripes(c) (r)
  props C01
  requires long: len(c) >= 46
  ensures value: r == le(c,44,2)

func btrfs.(Chunk).SubStripes(c) (r)
  props C01
  requires long: len(c) >= 48
  ensures value: r == le(c,46,2)

func btrfs.(Chunk).Stripe(c, i) (r)
  props C01
  requires long: len(c) >= 48 + 32*typed(int,bv(64,i))
  ensures slice: ref(r) == ref(c) && off(r) == off(c)+48+32*typed(int,bv(64,i)) && len(r) == len(c)-48-32*typed(int,bv(64,i))

func btrfs.(InodeItem).Generation(i) (r)
  props C01
  requires long: len(i) >= 8
  ensures value: r == le(i,0,8)

func btrfs.(InodeItem).TransID(i) (r)
  props C01
  requires long: len(i) >= 16
  ensures value: r == le(i,8,8)

func btrfs.(InodeItem).Size(i) (r)
  props C01
  requires long: len(i) >= 24
  ensures value: r == le(i,16,8)

func btrfs.(InodeItem).BlockGroup(i) (r)
  props C01
  requires long: len(i) >= 40
  ensures value: r == le(i,32,8)

func btrfs.(InodeItem).Nlink(i) (r)
  props C01
  requires long: len(i) >= 44
  ensures value: r == le(i,40,4)

func btrfs.(InodeItem).UID(i) (r)
  props C01
  requires long: len(i) >= 48
  ensures value: r == le(i,44,4)

func btrfs.(InodeItem).GID(i) (r)
  props C01
  requires long: len(i) >= 52
  ensures value: r == le(i,48,4)

func btrfs.(InodeItem).Mode(i) (r)
  props C01
  requires long: len(i) >= 56
  ensures value: r == le(i,52,4)

func btrfs.(InodeItem).Rdev(i) (r)
  props C01
  requires long: len(i) >= 64
  ensures value: r == le(i,56,8)

func btrfs.(InodeItem).Flags(i) (r)
  props C01
  requires long: len(i) >= 72
  ensures value: r == le(i,64,8)

func btrfs.(InodeItem).Sequence(i) (r)
  props C01
  requires long: len(i) >= 80
  ensures value: r == le(i,72,8)

func btrfs.(InodeItem).Reserved(i) (r)
  props C01
  requires long: len(i) >= 112
  ensures word0: r[0] == le(i,80,8)
  ensures word1: r[1] == le(i,88,8)
  ensures word2: r[2] == le(i,96,8)
  ensures word3: r[3] == le(i,104,8)

func btrfs.(InodeItem).Atime(i) (r)
  props C01
  requires long: len(i) >= 124
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,112,8)), typed(int64,bv(64,le(i,120,4))))))

func btrfs.(InodeItem).Ctime(i) (r)
  props C01
  requires long: len(i) >= 136
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,124,8)), typed(int64,bv(64,le(i,132,4))))))

func btrfs.(InodeItem).Mtime(i) (r)
  props C01
  requires long: len(i) >= 148
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,136,8)), typed(int64,bv(64,le(i,144,4))))))

func btrfs.(InodeItem).Rtime(i) (r)
  props C01
  requires long: len(i) >= 160
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,148,8)), typed(int64,bv(64,le(i,156,4))))))

func btrfs.(InodeRefItem).Index(i) (r)
  props C01
  requires long: len(i) >= 8
  ensures value: r == le(i,0,8)

func btrfs.(InodeRefItem).NameLen(i) (r)
  props C01
  requires long: len(i) >= 10
  ensures value: r == le(i,8,2)

func btrfs.(DirItem).Location(d) (r)
  props C01
  requires long: len(d) >= 17
  ensures value: r == mk(btrfs.Key, le(d,0,8), le(d,8,1), le(d,9,8))

func btrfs.(DirItem).TransID(d) (r)
  props C01
  requires long: len(d) >= 25
  ensures value: r == le(d,17,8)

func btrfs.(DirItem).DataLen(d) (r)
  props C01
  requires long: len(d) >= 27
  ensures value: r == le(d,25,2)

func btrfs.(DirItem).NameLen(d) (r)
  props C01
  requires long: len(d) >= 29
  ensures value: r == le(d,27,2)

func btrfs.(DirItem).Type(d) (r)
  props C01
  requires long: len(d) >= 30
  ensures value: r == le(d,29,1)

func btrfs.(DirItem).IsDir(d) (r)
  props C01
  requires long: len(d) >= 30
  ensures meaning: r == (le(d,29,1) == 2)

func btrfs.(DirItem).IsSubvolume(d) (r)
  props C01
  requires long: len(d) >= 17
  ensures meaning: r == (le(d,8,1) == 132)

func btrfs.(BlockGroupItem).Used(i) (r)
  props C01
  requires long: len(i) >= 8
  ensures value: r == le(i,0,8)

func btrfs.(BlockGroupItem).ChunkObjectID(i) (r)
  props C01
  requires long: len(i) >= 16
  ensures value: r == le(i,8,8)

func btrfs.(BlockGroupItem).Flags(i) (r)
  props C01
  requires long: len(i) >= 24
  ensures value: r == le(i,16,8)

func btrfs.(FileExtentItem).Generation(i) (r)
  props C01
  requires long: len(i) >= 8
  ensures value: r == le(i,0,8)

func btrfs.(FileExtentItem).RAMBytes(i) (r)
  props C01
  requires long: len(i) >= 16
  ensures value: r == le(i,8,8)

func btrfs.(FileExtentItem).Compression(i) (r)
  props C01
  requires long: len(i) >= 17
  ensures value: r == le(i,16,1)

func btrfs.(FileExtentItem).Encryption(i) (r)
  props C01
  requires long: len(i) >= 18
  ensures value: r == le(i,17,1)

func btrfs.(FileExtentItem).OtherEncoding(i) (r)
  props C01
  requires long: len(i) >= 20
  ensures value: r == le(i,18,2)

func btrfs.(FileExtentItem).Type(i) (r)
  props C01
  requires long: len(i) >= 21
  ensures value: r == le(i,20,1)

func btrfs.(FileExtentItem).DiskByteNr(i) (r)
  props C01
  requires long: len(i) >= 29
  ensures value: r == le(i,21,8)

func btrfs.(FileExtentItem).DiskNumBytes(i) (r)
  props C01
  requires long: len(i) >= 37
  ensures value: r == le(i,29,8)

func btrfs.(FileExtentItem).Offset(i) (r)
  props C01
  requires long: len(i) >= 45
  ensures value: r == le(i,37,8)

func btrfs.(FileExtentItem).NumBytes(i) (r)
  props C01
  requires long: len(i) >= 53
  ensures value: r == le(i,45,8)

func btrfs.(FileExtentItem).IsInline(i) (r)
  props C01
  requires long: len(i) >= 21
  ensures meaning: r == (le(i,20,1) == 0)

func btrfs.(CSumItem).CSum(i) (r)
  props C01
  ensures byte0: r[0] == ite(len(i) > 0, le(i,0,1), typed(uint8,bv(8,0)))
  ensures byte1: r[1] == ite(len(i) > 1, le(i,1,1), typed(uint8,bv(8,0)))
  ensures byte2: r[2] == ite(len(i) > 2, le(i,2,1), typed(uint8,bv(8,0)))
  ensures byte3: r[3] == ite(len(i) > 3, le(i,3,1), typed(uint8,bv(8,0)))
  ensures byte4: r[4] == ite(len(i) > 4, le(i,4,1), typed(uint8,bv(8,0)))
  ensures byte5: r[5] == ite(len(i) > 5, le(i,5,1), typed(uint8,bv(8,0)))
  ensures byte6: r[6] == ite(len(i) > 6, le(i,6,1), typed(uint8,bv(8,0)))
  ensures byte7: r[7] == ite(len(i) > 7, le(i,7,1), typed(uint8,bv(8,0)))
  ensures byte8: r[8] == ite(len(i) > 8, le(i,8,1), typed(uint8,bv(8,0)))
  ensures byte9: r[9] == ite(len(i) > 9, le(i,9,1), typed(uint8,bv(8,0)))
  ensures byte10: r[10] == ite(len(i) > 10, le(i,10,1), typed(uint8,bv(8,0)))
  ensures byte11: r[11] == ite(len(i) > 11, le(i,11,1), typed(uint8,bv(8,0)))
  ensures byte12: r[12] == ite(len(i) > 12, le(i,12,1), typed(uint8,bv(8,0)))
  ensures byte13: r[13] == ite(len(i) > 13, le(i,13,1), typed(uint8,bv(8,0)))
  ensures byte14: r[14] == ite(len(i) > 14, le(i,14,1), typed(uint8,bv(8,0)))
  ensures byte15: r[15] == ite(len(i) > 15, le(i,15,1), typed(uint8,bv(8,0)))
  ensures byte16: r[16] == ite(len(i) > 16, le(i,16,1), typed(uint8,bv(8,0)))
  ensures byte17: r[17] == ite(len(i) > 17, le(i,17,1), typed(uint8,bv(8,0)))
  ensures byte18: r[18] == ite(len(i) > 18, le(i,18,1), typed(uint8,bv(8,0)))
  ensures byte19: r[19] == ite(len(i) > 19, le(i,19,1), typed(uint8,bv(8,0)))
  ensures byte20: r[20] == ite(len(i) > 20, le(i,20,1), typed(uint8,bv(8,0)))
  ensures byte21: r[21] == ite(len(i) > 21, le(i,21,1), typed(uint8,bv(8,0)))
  ensures byte22: r[22] == ite(len(i) > 22, le(i,22,1), typed(uint8,bv(8,0)))
  ensures byte23: r[23] == ite(len(i) > 23, le(i,23,1), typed(uint8,bv(8,0)))
  ensures byte24: r[24] == ite(len(i) > 24, le(i,24,1), typed(uint8,bv(8,0)))
  ensures byte25: r[25] == ite(len(i) > 25, le(i,25,1), typed(uint8,bv(8,0)))
  ensures byte26: r[26] == ite(len(i) > 26, le(i,26,1), typed(uint8,bv(8,0)))
  ensures byte27: r[27] == ite(len(i) > 27, le(i,27,1), typed(uint8,bv(8,0)))
  ensures byte28: r[28] == ite(len(i) > 28, le(i,28,1), typed(uint8,bv(8,0)))
  ensures byte29: r[29] == ite(len(i) > 29, le(i,29,1), typed(uint8,bv(8,0)))
  ensures byte30: r[30] == ite(len(i) > 30, le(i,30,1), typed(uint8,bv(8,0)))
  ensures byte31: r[31] == ite(len(i) > 31, le(i,31,1), typed(uint8,bv(8,0)))

func btrfs.(RootItem).Inode(i) (r)
  props C01
  ensures slice: ref(r) == ref(i) && off(r) == off(i)+0 && len(r) == len(i)-0

func btrfs.(RootItem).Generation(i) (r)
  props C01
  requires long: len(i) >= 168
  ensures value: r == le(i,160,8)

func btrfs.(RootItem).RootDirID(i) (r)
  props C01
  requires long: len(i) >= 176
  ensures value: r == le(i,168,8)

func btrfs.(RootItem).ByteNr(i) (r)
  props C01
  requires long: len(i) >= 184
  ensures value: r == le(i,176,8)

func btrfs.(RootItem).ByteLimit(i) (r)
  props C01
  requires long: len(i) >= 192
  ensures value: r == le(i,184,8)

func btrfs.(RootItem).BytesUsed(i) (r)
  props C01
  requires long: len(i) >= 200
  ensures value: r == le(i,192,8)

func btrfs.(RootItem).LastSnapshot(i) (r)
  props C01
  requires long: len(i) >= 208
  ensures value: r == le(i,200,8)

func btrfs.(RootItem).Flags(i) (r)
  props C01
  requires long: len(i) >= 216
  ensures value: r == le(i,208,8)

func btrfs.(RootItem).Refs(i) (r)
  props C01
  requires long: len(i) >= 220
  ensures value: r == le(i,216,4)

func btrfs.(RootItem).DropProgress(i) (r)
  props C01
  requires long: len(i) >= 237
  ensures value: r == mk(btrfs.Key, le(i,220,8), le(i,228,1), le(i,229,8))

func btrfs.(RootItem).DropLevel(i) (r)
  props C01
  requires long: len(i) >= 238
  ensures value: r == le(i,237,1)

func btrfs.(RootItem).Level(i) (r)
  props C01
  requires long: len(i) >= 239
  ensures value: r == le(i,238,1)

func btrfs.(RootItem).GenerationV2(i) (r)
  props C01
  requires long: len(i) >= 247
  ensures value: r == le(i,239,8)

func btrfs.(RootItem).UUID(i) (r)
  props C01
  requires long: len(i) >= 263
  ensures bytes: r == uuidat(uuid.UUID,i,247)

func btrfs.(RootItem).ParentUUID(i) (r)
  props C01
  requires long: len(i) >= 279
  ensures bytes: r == uuidat(uuid.UUID,i,263)

func btrfs.(RootItem).ReceivedUUID(i) (r)
  props C01
  requires long: len(i) >= 295
  ensures bytes: r == uuidat(uuid.UUID,i,279)

func btrfs.(RootItem).CTransID(i) (r)
  props C01
  requires long: len(i) >= 303
  ensures value: r == le(i,295,8)

func btrfs.(RootItem).OTransID(i) (r)
  props C01
  requires long: len(i) >= 311
  ensures value: r == le(i,303,8)

func btrfs.(RootItem).STransID(i) (r)
  props C01
  requires long: len(i) >= 319
  ensures value: r == le(i,311,8)

func btrfs.(RootItem).RTransID(i) (r)
  props C01
  requires long: len(i) >= 327
  ensures value: r == le(i,319,8)

func btrfs.(RootItem).Ctime(i) (r)
  props C01
  requires long: len(i) >= 339
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,327,8)), typed(int64,bv(64,le(i,335,4))))))

func btrfs.(RootItem).Otime(i) (r)
  props C01
  requires long: len(i) >= 351
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,339,8)), typed(int64,bv(64,le(i,347,4))))))

func btrfs.(RootItem).Stime(i) (r)
  props C01
  requires long: len(i) >= 363
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,351,8)), typed(int64,bv(64,le(i,359,4))))))

func btrfs.(RootItem).Rtime(i) (r)
  props C01
  requires long: len(i) >= 375
  ensures value: identical(r, run("time.(Time).UTC", run("time.Unix", typed(int64,le(i,363,8)), typed(int64,bv(64,le(i,371,4))))))

func btrfs.(RootItem).Reserved(i) (r)
  props C01
  requires long: len(i) >= 439
  ensures word0: r[0] == le(i,375,8)
  ensures word1: r[1] == le(i,383,8)
  ensures word2: r[2] == le(i,391,8)
  ensures word3: r[3] == le(i,399,8)
  ensures word4: r[4] == le(i,407,8)
  ensures word5: r[5] == le(i,415,8)
  ensures word6: r[6] == le(i,423,8)
  ensures word7: r[7] == le(i,431,8)

func btrfs.(RootItem).IsGenerationV2(i) (r)
  props C01
  requires long: len(i) >= 247
  ensures meaning: r == (le(i,160,8) == le(i,239,8))

func btrfs.(RootRef).DirID(r0) (r)
  props C01
  requires long: len(r0) >= 8
  ensures value: r == le(r0,0,8)

func btrfs.(RootRef).Sequence(r0) (r)
  props C01
  requires long: len(r0) >= 16
  ensures value: r == le(r0,8,8)

func btrfs.(RootRef).NameLen(r0) (r)
  props C01
  requires long: len(r0) >= 18
  ensures value: r == le(r0,16,2)

func btrfs.(ExtentItem).Refs(i) (r)
  props C01
  requires long: len(i) >= 8
  ensures value: r == le(i,0,8)

func btrfs.(ExtentItem).Generation(i) (r)
  props C01
  requires long: len(i) >= 16
  ensures value: r == le(i,8,8)

func btrfs.(ExtentItem).Flags(i) (r)
  props C01
  requires long: len(i) >= 24
  ensures value: r == le(i,16,8)

func btrfs.(ExtentItem).IsCompatV0(i) (r)
  props C01
  ensures meaning: r == (len(i) < 24)

lemma constants()
  props C01
  ensures Magic: btrfs.Magic == 5575266562640200287
  ensures X86RegularPageSize: btrfs.X86RegularPageSize == 4096
  ensures DefaultBlockSize: btrfs.DefaultBlockSize == 16384
  ensures SuperInfoOffset: btrfs.SuperInfoOffset == 65536
  ensures SuperInfoOffset2: btrfs.SuperInfoOffset2 == 67108864
  ensures SuperInfoOffset3: btrfs.SuperInfoOffset3 == 274877906944
  ensures SuperInfoOffset4: btrfs.SuperInfoOffset4 == 1125899906842624
  ensures RootTreeObjectID: btrfs.RootTreeObjectID == 1
  ensures ExtentTreeObjectID: btrfs.ExtentTreeObjectID == 2
  ensures ChunkTreeObjectID: btrfs.ChunkTreeObjectID == 3
  ensures DevTreeObjectID: btrfs.DevTreeObjectID == 4
  ensures FSTreeObjectID: btrfs.FSTreeObjectID == 5
  ensures RootTreeDirObjectID: btrfs.RootTreeDirObjectID == 6
  ensures CSumTreeObjectID: btrfs.CSumTreeObjectID == 7
  ensures QuotaTreeObjectID: btrfs.QuotaTreeObjectID == 8
  ensures UuidTreeObjectID: btrfs.UuidTreeObjectID == 9
  ensures FreeSpaceTreeObjectID: btrfs.FreeSpaceTreeObjectID == 10
  ensures DevStatsObjectID: btrfs.DevStatsObjectID == 0
  ensures BalanceObjectID: btrfs.BalanceObjectID == 18446744073709551612
  ensures OrphanObjectID: btrfs.OrphanObjectID == 18446744073709551611
  ensures TreeLogObjectID: btrfs.TreeLogObjectID == 18446744073709551610
  ensures TreeLogFixupObjectID: btrfs.TreeLogFixupObjectID == 18446744073709551609
  ensures TreeRelocObjectID: btrfs.TreeRelocObjectID == 18446744073709551608
  ensures DataRelocTreeObjectID: btrfs.DataRelocTreeObjectID == 18446744073709551607
  ensures ExtentCSumObjectID: btrfs.ExtentCSumObjectID == 18446744073709551606
  ensures FreeSpaceObjectID: btrfs.FreeSpaceObjectID == 18446744073709551605
  ensures FreeInoObjectID: btrfs.FreeInoObjectID == 18446744073709551604
  ensures MultipleObjectIDs: btrfs.MultipleObjectIDs == 18446744073709551361
  ensures FirstFreeObjectID: btrfs.FirstFreeObjectID == 256
  ensures LastFreeObjectID: btrfs.LastFreeObjectID == 18446744073709551360
  ensures FirstChunkTreeObjectID: btrfs.FirstChunkTreeObjectID == 256
  ensures DevItemsObjectID: btrfs.DevItemsObjectID == 1
  ensures BtreeInodeObjectID: btrfs.BtreeInodeObjectID == 1
  ensures EmptySubvolDirObjectID: btrfs.EmptySubvolDirObjectID == 2
  ensures LastObjectID: btrfs.LastObjectID == 18446744073709551615
  ensures CSumSize: btrfs.CSumSize == 32
  ensures LabelSize: btrfs.LabelSize == 256
  ensures SystemChunkArraySize: btrfs.SystemChunkArraySize == 2048
  ensures InodeItemKey: btrfs.InodeItemKey == 1
  ensures InodeRefKey: btrfs.InodeRefKey == 12
  ensures InodeExtrefKey: btrfs.InodeExtrefKey == 13
  ensures XAttrItemKey: btrfs.XAttrItemKey == 24
  ensures OrphanItemKey: btrfs.OrphanItemKey == 48
  ensures DirLogItemKey: btrfs.DirLogItemKey == 60
  ensures DirLogIndexKey: btrfs.DirLogIndexKey == 72
  ensures DirItemKey: btrfs.DirItemKey == 84
  ensures DirIndexKey: btrfs.DirIndexKey == 96
  ensures ExtentDataKey: btrfs.ExtentDataKey == 108
  ensures ExtentCSumKey: btrfs.ExtentCSumKey == 128
  ensures RootItemKey: btrfs.RootItemKey == 132
  ensures RootBackRefKey: btrfs.RootBackRefKey == 144
  ensures RootRefKey: btrfs.RootRefKey == 156
  ensures ExtentItemKey: btrfs.ExtentItemKey == 168
  ensures MetadataItemKey: btrfs.MetadataItemKey == 169
  ensures TreeBlockRefKey: btrfs.TreeBlockRefKey == 176
  ensures ExtentDataRefKey: btrfs.ExtentDataRefKey == 178
  ensures ExtentRefV0Key: btrfs.ExtentRefV0Key == 180
  ensures SharedBlockRefKey: btrfs.SharedBlockRefKey == 182
  ensures SharedDataRefKey: btrfs.SharedDataRefKey == 184
  ensures BlockGroupItemKey: btrfs.BlockGroupItemKey == 192
  ensures FreeSpaceInfoKey: btrfs.FreeSpaceInfoKey == 198
  ensures FreeSpaceExtentKey: btrfs.FreeSpaceExtentKey == 199
  ensures FreeSpaceBitmapKey: btrfs.FreeSpaceBitmapKey == 200
  ensures DevExtentKey: btrfs.DevExtentKey == 204
  ensures DevItemKey: btrfs.DevItemKey == 216
  ensures ChunkItemKey: btrfs.ChunkItemKey == 228
  ensures QgroupStatusKey: btrfs.QgroupStatusKey == 240
  ensures QgroupInfoKey: btrfs.QgroupInfoKey == 242
  ensures QgroupLimitKey: btrfs.QgroupLimitKey == 244
  ensures QgroupRelationKey: btrfs.QgroupRelationKey == 246
  ensures BalanceItemKey: btrfs.BalanceItemKey == 248
  ensures TemporaryItemKey: btrfs.TemporaryItemKey == 248
  ensures DevStatsKey: btrfs.DevStatsKey == 249
  ensures PersistentItemKey: btrfs.PersistentItemKey == 249
  ensures DevReplaceKey: btrfs.DevReplaceKey == 250
  ensures UUIDKeySubvol: btrfs.UUIDKeySubvol == 251
  ensures UUIDKeyReceivedSubvol: btrfs.UUIDKeyReceivedSubvol == 252
  ensures StringItemKey: btrfs.StringItemKey == 253
  ensures FtUnknown: btrfs.FtUnknown == 0
  ensures FtRegFile: btrfs.FtRegFile == 1
  ensures FtDir: btrfs.FtDir == 2
  ensures FtChrdev: btrfs.FtChrdev == 3
  ensures FtBlkdev: btrfs.FtBlkdev == 4
  ensures FtFifo: btrfs.FtFifo == 5
  ensures FtSock: btrfs.FtSock == 6
  ensures FtSymlink: btrfs.FtSymlink == 7
  ensures FtXattr: btrfs.FtXattr == 8
  ensures FtMax: btrfs.FtMax == 9
  ensures BlockGroupData: btrfs.BlockGroupData == 1
  ensures BlockGroupSystem: btrfs.BlockGroupSystem == 2
  ensures BlockGroupMetadata: btrfs.BlockGroupMetadata == 4
  ensures BlockGroupRaid0: btrfs.BlockGroupRaid0 == 8
  ensures BlockGroupRaid1: btrfs.BlockGroupRaid1 == 16
  ensures BlockGroupDup: btrfs.BlockGroupDup == 32
  ensures BlockGroupRaid10: btrfs.BlockGroupRaid10 == 64
  ensures BlockGroupRaid5: btrfs.BlockGroupRaid5 == 128
  ensures BlockGroupRaid6: btrfs.BlockGroupRaid6 == 256
  ensures FileExtentInline: btrfs.FileExtentInline == 0
  ensures FileExtentReg: btrfs.FileExtentReg == 1
  ensures FileExtentPreAlloc: btrfs.FileExtentPreAlloc == 2
  ensures ExtentFlagData: btrfs.ExtentFlagData == 1
  ensures ExtentFlagTreeBlock: btrfs.ExtentFlagTreeBlock == 2
  ensures ExtentFlagFullBackref: btrfs.ExtentFlagFullBackref == 256
  ensures KeyLen: btrfs.KeyLen == 17
  ensures DevExtentLen: btrfs.DevExtentLen == 48
  ensures DevItemLen: btrfs.DevItemLen == 98
  ensures InodeItemLen: btrfs.InodeItemLen == 160
  ensures FileExtentItemEnd: btrfs.FileExtentItemEnd == 53
  ensures RootItemLen: btrfs.RootItemLen == 439
  ensures HeaderLen: btrfs.HeaderLen == 101
  ensures ItemLen: btrfs.ItemLen == 25
  ensures UUIDSize: uuid.UUIDSize == 16
