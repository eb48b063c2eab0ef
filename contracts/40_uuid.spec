// ---- UUID text form (C14)
package encoding/hex as hex
define hexc(n) = ite(n < 10, n + 48, n + 87)
define ishex(c) = c >= 48 && c <= 57 || c >= 97 && c <= 102 || c >= 65 && c <= 70
define hexv(c) = ite(c <= 57, c - 48, ite(c <= 70, c - 55, c - 87))
define nodash(s) = app("strings.Replace", string, s, "-", "")

func uuid.(UUID).IsZero(u) (r)
  props C14, C15
  ensures zero: r == (le(u,0,8) == 0 && le(u,8,8) == 0)
func uuid.(UUID).IsAllFs(u) (r)
  props C14, C15
  ensures ones: r == (le(u,0,8) == 0xFFFFFFFFFFFFFFFF && le(u,8,8) == 0xFFFFFFFFFFFFFFFF)
func uuid.(UUID).String(u) (r)
  props C14
  ensures length: len(r) == 36
  ensures dash8: r[8] == 45
  ensures dash13: r[13] == 45
  ensures dash18: r[18] == 45
  ensures dash23: r[23] == 45
  ensures byte0: r[0] == hexc(u[0] >> 4) && r[1] == hexc(u[0] & 15)
  ensures byte1: r[2] == hexc(u[1] >> 4) && r[3] == hexc(u[1] & 15)
  ensures byte2: r[4] == hexc(u[2] >> 4) && r[5] == hexc(u[2] & 15)
  ensures byte3: r[6] == hexc(u[3] >> 4) && r[7] == hexc(u[3] & 15)
  ensures byte4: r[9] == hexc(u[4] >> 4) && r[10] == hexc(u[4] & 15)
  ensures byte5: r[11] == hexc(u[5] >> 4) && r[12] == hexc(u[5] & 15)
  ensures byte6: r[14] == hexc(u[6] >> 4) && r[15] == hexc(u[6] & 15)
  ensures byte7: r[16] == hexc(u[7] >> 4) && r[17] == hexc(u[7] & 15)
  ensures byte8: r[19] == hexc(u[8] >> 4) && r[20] == hexc(u[8] & 15)
  ensures byte9: r[21] == hexc(u[9] >> 4) && r[22] == hexc(u[9] & 15)
  ensures byte10: r[24] == hexc(u[10] >> 4) && r[25] == hexc(u[10] & 15)
  ensures byte11: r[26] == hexc(u[11] >> 4) && r[27] == hexc(u[11] & 15)
  ensures byte12: r[28] == hexc(u[12] >> 4) && r[29] == hexc(u[12] & 15)
  ensures byte13: r[30] == hexc(u[13] >> 4) && r[31] == hexc(u[13] & 15)
  ensures byte14: r[32] == hexc(u[14] >> 4) && r[33] == hexc(u[14] & 15)
  ensures byte15: r[34] == hexc(u[15] >> 4) && r[35] == hexc(u[15] & 15)

func uuid.(*UUID).Set(u, value) (err)
  props C14
  requires receiver: !isnil(u)
  modifies obj(u)
  let t = nodash(value)
  let ok = len(t) == 32 && ishex(t[0]) && ishex(t[1]) && ishex(t[2]) && ishex(t[3]) && ishex(t[4]) && ishex(t[5]) && ishex(t[6]) && ishex(t[7]) && ishex(t[8]) && ishex(t[9]) && ishex(t[10]) && ishex(t[11]) && ishex(t[12]) && ishex(t[13]) && ishex(t[14]) && ishex(t[15]) && ishex(t[16]) && ishex(t[17]) && ishex(t[18]) && ishex(t[19]) && ishex(t[20]) && ishex(t[21]) && ishex(t[22]) && ishex(t[23]) && ishex(t[24]) && ishex(t[25]) && ishex(t[26]) && ishex(t[27]) && ishex(t[28]) && ishex(t[29]) && ishex(t[30]) && ishex(t[31])
  ensures accepts: isnil(err) == ok
  ensures keeps: implies(!ok, *u == old(*u))
  ensures byte0: implies(ok, u[0] == (hexv(t[0]) << 4 | hexv(t[1])))
  ensures byte1: implies(ok, u[1] == (hexv(t[2]) << 4 | hexv(t[3])))
  ensures byte2: implies(ok, u[2] == (hexv(t[4]) << 4 | hexv(t[5])))
  ensures byte3: implies(ok, u[3] == (hexv(t[6]) << 4 | hexv(t[7])))
  ensures byte4: implies(ok, u[4] == (hexv(t[8]) << 4 | hexv(t[9])))
  ensures byte5: implies(ok, u[5] == (hexv(t[10]) << 4 | hexv(t[11])))
  ensures byte6: implies(ok, u[6] == (hexv(t[12]) << 4 | hexv(t[13])))
  ensures byte7: implies(ok, u[7] == (hexv(t[14]) << 4 | hexv(t[15])))
  ensures byte8: implies(ok, u[8] == (hexv(t[16]) << 4 | hexv(t[17])))
  ensures byte9: implies(ok, u[9] == (hexv(t[18]) << 4 | hexv(t[19])))
  ensures byte10: implies(ok, u[10] == (hexv(t[20]) << 4 | hexv(t[21])))
  ensures byte11: implies(ok, u[11] == (hexv(t[22]) << 4 | hexv(t[23])))
  ensures byte12: implies(ok, u[12] == (hexv(t[24]) << 4 | hexv(t[25])))
  ensures byte13: implies(ok, u[13] == (hexv(t[26]) << 4 | hexv(t[27])))
  ensures byte14: implies(ok, u[14] == (hexv(t[28]) << 4 | hexv(t[29])))
  ensures byte15: implies(ok, u[15] == (hexv(t[30]) << 4 | hexv(t[31])))

func uuid.New(value) (u, err)
  props C14
  let t = nodash(value)
  let ok = len(t) == 32 && ishex(t[0]) && ishex(t[1]) && ishex(t[2]) && ishex(t[3]) && ishex(t[4]) && ishex(t[5]) && ishex(t[6]) && ishex(t[7]) && ishex(t[8]) && ishex(t[9]) && ishex(t[10]) && ishex(t[11]) && ishex(t[12]) && ishex(t[13]) && ishex(t[14]) && ishex(t[15]) && ishex(t[16]) && ishex(t[17]) && ishex(t[18]) && ishex(t[19]) && ishex(t[20]) && ishex(t[21]) && ishex(t[22]) && ishex(t[23]) && ishex(t[24]) && ishex(t[25]) && ishex(t[26]) && ishex(t[27]) && ishex(t[28]) && ishex(t[29]) && ishex(t[30]) && ishex(t[31])
  ensures accepts: isnil(err) == ok
  ensures zero: implies(!ok, le(u,0,8) == 0 && le(u,8,8) == 0)
  ensures byte0: implies(ok, u[0] == (hexv(t[0]) << 4 | hexv(t[1])))
  ensures byte1: implies(ok, u[1] == (hexv(t[2]) << 4 | hexv(t[3])))
  ensures byte2: implies(ok, u[2] == (hexv(t[4]) << 4 | hexv(t[5])))
  ensures byte3: implies(ok, u[3] == (hexv(t[6]) << 4 | hexv(t[7])))
  ensures byte4: implies(ok, u[4] == (hexv(t[8]) << 4 | hexv(t[9])))
  ensures byte5: implies(ok, u[5] == (hexv(t[10]) << 4 | hexv(t[11])))
  ensures byte6: implies(ok, u[6] == (hexv(t[12]) << 4 | hexv(t[13])))
  ensures byte7: implies(ok, u[7] == (hexv(t[14]) << 4 | hexv(t[15])))
  ensures byte8: implies(ok, u[8] == (hexv(t[16]) << 4 | hexv(t[17])))
  ensures byte9: implies(ok, u[9] == (hexv(t[18]) << 4 | hexv(t[19])))
  ensures byte10: implies(ok, u[10] == (hexv(t[20]) << 4 | hexv(t[21])))
  ensures byte11: implies(ok, u[11] == (hexv(t[22]) << 4 | hexv(t[23])))
  ensures byte12: implies(ok, u[12] == (hexv(t[24]) << 4 | hexv(t[25])))
  ensures byte13: implies(ok, u[13] == (hexv(t[26]) << 4 | hexv(t[27])))
  ensures byte14: implies(ok, u[14] == (hexv(t[28]) << 4 | hexv(t[29])))
  ensures byte15: implies(ok, u[15] == (hexv(t[30]) << 4 | hexv(t[31])))

// removing the dashes of a text that has them exactly at positions 8, 13, 18
// and 23 (an instance of the definition of strings.Replace)
lemma text_roundtrip(u uuid.UUID)
  props C14
  let s = result("uuid.(UUID).String", u)
  let t = nodash(s)
  let pattern = len(s) == 36 && s[8] == 45 && s[13] == 45 && s[18] == 45 && s[23] == 45 && s[0] != 45 && s[1] != 45 && s[2] != 45 && s[3] != 45 && s[4] != 45 && s[5] != 45 && s[6] != 45 && s[7] != 45 && s[9] != 45 && s[10] != 45 && s[11] != 45 && s[12] != 45 && s[14] != 45 && s[15] != 45 && s[16] != 45 && s[17] != 45 && s[19] != 45 && s[20] != 45 && s[21] != 45 && s[22] != 45 && s[24] != 45 && s[25] != 45 && s[26] != 45 && s[27] != 45 && s[28] != 45 && s[29] != 45 && s[30] != 45 && s[31] != 45 && s[32] != 45 && s[33] != 45 && s[34] != 45 && s[35] != 45
  requires definition: implies(pattern, len(t) == 32 && t[0] == s[0] && t[1] == s[1] && t[2] == s[2] && t[3] == s[3] && t[4] == s[4] && t[5] == s[5] && t[6] == s[6] && t[7] == s[7] && t[8] == s[9] && t[9] == s[10] && t[10] == s[11] && t[11] == s[12] && t[12] == s[14] && t[13] == s[15] && t[14] == s[16] && t[15] == s[17] && t[16] == s[19] && t[17] == s[20] && t[18] == s[21] && t[19] == s[22] && t[20] == s[24] && t[21] == s[25] && t[22] == s[26] && t[23] == s[27] && t[24] == s[28] && t[25] == s[29] && t[26] == s[30] && t[27] == s[31] && t[28] == s[32] && t[29] == s[33] && t[30] == s[34] && t[31] == s[35])
  ensures form: pattern
  ensures accepted: len(t) == 32 && ishex(t[0]) && ishex(t[1]) && ishex(t[2]) && ishex(t[3]) && ishex(t[4]) && ishex(t[5]) && ishex(t[6]) && ishex(t[7]) && ishex(t[8]) && ishex(t[9]) && ishex(t[10]) && ishex(t[11]) && ishex(t[12]) && ishex(t[13]) && ishex(t[14]) && ishex(t[15]) && ishex(t[16]) && ishex(t[17]) && ishex(t[18]) && ishex(t[19]) && ishex(t[20]) && ishex(t[21]) && ishex(t[22]) && ishex(t[23]) && ishex(t[24]) && ishex(t[25]) && ishex(t[26]) && ishex(t[27]) && ishex(t[28]) && ishex(t[29]) && ishex(t[30]) && ishex(t[31])
  ensures byte0: (hexv(t[0]) << 4 | hexv(t[1])) == u[0]
  ensures byte1: (hexv(t[2]) << 4 | hexv(t[3])) == u[1]
  ensures byte2: (hexv(t[4]) << 4 | hexv(t[5])) == u[2]
  ensures byte3: (hexv(t[6]) << 4 | hexv(t[7])) == u[3]
  ensures byte4: (hexv(t[8]) << 4 | hexv(t[9])) == u[4]
  ensures byte5: (hexv(t[10]) << 4 | hexv(t[11])) == u[5]
  ensures byte6: (hexv(t[12]) << 4 | hexv(t[13])) == u[6]
  ensures byte7: (hexv(t[14]) << 4 | hexv(t[15])) == u[7]
  ensures byte8: (hexv(t[16]) << 4 | hexv(t[17])) == u[8]
  ensures byte9: (hexv(t[18]) << 4 | hexv(t[19])) == u[9]
  ensures byte10: (hexv(t[20]) << 4 | hexv(t[21])) == u[10]
  ensures byte11: (hexv(t[22]) << 4 | hexv(t[23])) == u[11]
  ensures byte12: (hexv(t[24]) << 4 | hexv(t[25])) == u[12]
  ensures byte13: (hexv(t[26]) << 4 | hexv(t[27])) == u[13]
  ensures byte14: (hexv(t[28]) << 4 | hexv(t[29])) == u[14]
  ensures byte15: (hexv(t[30]) << 4 | hexv(t[31])) == u[15]
