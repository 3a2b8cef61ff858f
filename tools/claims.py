PIPE="Proved for all data contents in each of the 160 version/level combinations (the finite case split is complete), with the data encoder, the Reed-Solomon routine and the penalty function replaced by contracts. Trusted: the verifier and z3, the bit-string contract of reedsolomon/binary, fmt/log/sync contracts, debug mode off."
claimed={
"C02":{"note":"Proved for every text of every length up to the largest capacity, in each mode and at every version (symbolic within its count-width group): digits, alphanumerics, bytes and Shift_JIS codes are unconstrained symbolic characters. Padding enters by contract (proved in C03). Trusted: the verifier and z3, the bit-string contract of reedsolomon/binary, the Shift_JIS encoder of golang.org/x/text, debug mode off."},
"C03":{"note":"Proved for a segment of unspecified content and every length 0..capacity (and every longer one for the refusal) in each of the 160 version/level combinations. Trusted: the verifier and z3, the bit-string contract of reedsolomon/binary, debug mode off."},
"C04":{"note":"Proved for a text of unspecified content and every length 0..100000, every mode (detected or requested), level and minimum version, end to end through NewWith; mode detection and the encoder enter by contract (C06, C02/C03). Trusted: the verifier."},
"C05":{"note":"Proved: each option with every argument on every state of the settings; every pair of options end to end through NewWith; the requested version and level in the finished symbol. Longer option sequences follow by induction from the per-option contracts and the order of application, which is checked for up to 32 options (bounded). Trusted: the verifier."},
"C06":{"note":"Proved for every text of every length by a fixpoint over the abstract states of the loop (texts are arbitrary sequences of characters of the classes digit, alphanumeric, kanji, other) and for every mode value. Trusted: the verifier; the Shift_JIS encoder of golang.org/x/text is an uninterpreted function of the character."},
"C07":{"note":PIPE+" The Reed-Solomon routine itself is a dependency and enters by contract."},
"C08":{"note":PIPE},"C09":{"note":PIPE},"C10":{"note":PIPE},"C11":{"note":PIPE},
"C12":{"note":PIPE+" All interleavings: data-race freedom of the goroutines and commutation of the receives are obligations of their own."},
"C13":{"note":"Proved for every matrix (each module an arbitrary colour and role) of each of the 40 symbol sizes: rules 1, 2, 4 directly, rule 3 over the contract of kmp, which is proved for every line of every size. Trusted: the verifier and z3, debug mode off."},
"C14":{"note":"No panic, no nontermination and a result or an error, proved compositionally: every option and argument keeps the settings in range; mode and version choice for all texts and settings; the encoder for every text up to 12000 characters (Kanji: 1818), padding for every longer one; everything from the data bits to the symbol for all 160 versions and levels; the penalty for 11 of the 40 sizes in the quick tier (all in thorough and in C13). Options are those the package makes. Trusted: the verifier, dependency contracts."},
"C16":{"note":"Proved for every matrix content (each module an arbitrary byte) of each of the 40 symbol sizes, out-of-range coordinates symbolic in +-10^6. Trusted: the verifier."},
"C17":{"note":"Proved for an arbitrary writer (Write fails, panics or succeeds; Close fails or succeeds), every matrix content, the 40 symbol sizes. Trusted: the verifier, log has no effect."},
"C18":{"note":"Proved for every matrix content of each of the 40 symbol sizes and a write failure at any point; the file enters by contract (a write takes the whole text or fails). Trusted: the verifier."},
"C19":{"level":"other","note":"Every matrix content and any error of encoder or file, all symbol sizes (quick: 23 of 40), deductively; BOUNDED in block size and padding (those of the cases run). The PNG encoder and the file enter by contract. Trusted: the verifier."},
"C20":{"note":"Proved for every matrix content of each of the 40 symbol sizes and a flush that succeeds or fails; up to three arbitrary events before the key (bounded). The terminal enters by contract. Trusted: the verifier."},
"C21":{"note":"Proved for every matrix content (symbolic modules), every size 21..177, symbolic block width 1..255 and symbolic borders; every colour for foreground and background up to size 41, arbitrary opaque colours beyond. Rectangle shape exact; circle and other shapes by their bounding block. Attribute, file and encoder protocol with symbolic failures. The drawing library gg, the PNG/JPEG encoders and os enter by contract. Trusted: the verifier and z3."},
"C22":{"note":"Proved for every symbol size, every symbolic logo size, origin and block width/border within the tested zone modes; the overlap computation and the size limit are theorems of their own over symbolic rectangles. gg enters by contract. Trusted: the verifier and z3."},
"C23":{"note":"Proved for every matrix content (symbolic modules) of each of the 40 symbol sizes, module by module including edges, corners and the cleared zone. Trusted: the verifier and z3."},
"C26":{"note":"Proved for every option with every argument on an arbitrary state of the settings, and for every ordered pair of options. File reading and image decoding enter by contract. Known finding: parseFromColor keeps the low byte of 16-bit components (pinned by an existing test). Trusted: the verifier."},
}
notapp={}
