claim("C01", "Structures shorter than their fixed part are outside the contract (precondition).")
claim("C02", "Covers both key formats and the byte order.")
claim("C03", "Total order stated as a lemma over the comparison's contract.")
claim("C04", "Blocks up to 64 GiB; the block size passed in is the length of the slice.")
claim("C05", "Items shorter than their fixed part are outside the contract (precondition).")
claim("C06", "The key-value store is modelled by its documented cursor behaviour; stored values are at least 25 bytes.")
claim("C07", "As C06; ranges are stated per step (first, next, least remaining key).")
claim("C08", "As C06; the command that prints the dump is outside the contract.")
claim("C09", "Durability of a commit is assumed of the key-value store; data up to 2 GiB per item.")
claim("C10", "One open index at a time; an existing record is at least 36 bytes long.")
claim("C11", "Chunk items are assumed long enough for one stripe.")
claim("C13", "CRC table update is modelled by its defining polynomial and initial value.")
claim("C14", "hex and strings.Replace are assumed to do what their documentation says.")
claim("C15", "Blocks of at least 126 bytes (header and first item); the entropy that breaks ties is not specified.")
claim("C16", "Proved: count, order, distinctness, whole blocks inside the device, for block sizes below 4 GiB. The inclusion of the superblock neighbourhoods is only checked by the bounded harness. Random draws are arbitrary, so that the drawing loop ends is not proved.")
claim("C17", "The reader and seeker are arbitrary within their documented contracts.")
NA = {
 "C28": "Concurrency: the deductive verifier treats each request as sequential code and has no thread or ownership model, so interleavings cannot be stated as contracts within reach.",
 "C29": "Crash points lie inside the storage engine (bbolt and the kernel page cache); contracts on btrfscue's own functions cannot express durability of a foreign commit, they can only assume it.",
 "C30": "Floating-point logarithms: neither the solvers' bit-vector nor floating-point theories decide log2 sums over all byte strings, and real arithmetic would not be the code's arithmetic.",
}
