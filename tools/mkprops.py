import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
T='src/Transaction.cpp'; S='src/Script.cpp'; B='src/Bitcoin.cpp'; H='src/HDWallet.cpp'; C='src/Conversion.cpp'; PS='src/PSBT.cpp'; BC='src/BaseClasses.cpp'; CV='src/BitcoinCurve.cpp'
p('C01','Transactions are encoded and decoded exactly as on the Bitcoin network',
 'For every transaction with 1 to 252 inputs and up to 252 outputs, whether built through the API or parsed, serializing it gives exactly the BIP144 network encoding (witness form if and only if some input carries a witness) and the reported length is that encoding\'s length. Parsing a network encoding recovers every field (version, outpoints, scripts, sequences, amounts, witnesses, lock time) unchanged. The transaction id and witness id, in every form the API offers them, are the double SHA-256 of the encoding without and with witnesses.',
 ['inputs'],'every transaction value in the supported size range: any field bytes, script and witness lengths across the 1-, 3- and 5-byte length prefixes, any mix of inputs with and without witnesses',
 'test_transaction.cpp parses and re-serializes a handful of fixed transactions; none crosses the 252/253 or 65535/65536 length boundaries or mixes empty and non-empty witnesses.',
 [T,S,'src/Bitcoin.h'],[('Tx::from_stream / Tx::to_stream / Tx::length',T),('Witness and Script length prefixes',S),('Tx::hash / Tx::whash / txid / wtxid',T)],['Tx::parse, Tx::serialize, Tx::length, Tx::txid, Tx::wtxid'])
p('C02','Parsing in pieces gives the same result as parsing all at once',
 'For every parseable object (script, witness, input, output, transaction, PSBT, Electrum transaction, signature, Schnorr signature, public key, scalar, HD key) and every byte string, feeding the bytes in any sequence of consecutive pieces, including empty and one-byte pieces, through raw, hex or user-defined sources, ends in the same state as feeding them at once: same verdict, same value, same total number of bytes consumed. While more bytes are needed the object reports that parsing is incomplete, and it reports completion exactly when its last byte has been consumed, leaving bytes that follow unread. After a completed parse or a reset the same object can be used to parse a new value without being affected by the previous one.',
 ['inputs','histories'],'every encoding, every way of cutting it into pieces, and every history of previous parses on the same object',
 'The existing tests parse each fixture in one call; no test splits an encoding, and the number of splits of one encoding is exponential.',
 [BC,S,T,PS,'src/Electrum.cpp',B,CV,H],[('Streamable::parse / from_stream state (status, bytes_parsed)',BC),('per-class from_stream state machines',T+', '+S+', '+PS)],['Streamable::parse return value, getStatus(), field values'])
p('C03','Serializing a window of an object gives exactly those bytes of its encoding',
 'For every serializable object and every offset and buffer size, serializing from that offset into that buffer writes exactly the bytes of the object\'s full encoding that fall in the window, returns their number, and never writes outside the buffer. Serializing consecutive windows of any sizes therefore reproduces the full encoding, and hex and user-defined sinks receive the same bytes.',
 ['inputs'],'every object value, every offset from 0 to beyond the end, every buffer size, every sink kind',
 'Tests only serialize whole objects from offset 0 into large buffers.',
 [BC,S,T,PS,'src/Electrum.cpp',B,CV,H],[('to_stream(SerializeStream*, offset) of every class',T+', '+S+', '+PS),('Streamable::serialize overloads',BC)],['Streamable::serialize'])
p('C04','Malformed or truncated input is never accepted and never corrupts memory',
 'For every byte or character string handed to a parser of untrusted data (scripts, witnesses, inputs, outputs, transactions, PSBTs, Electrum transactions, public keys, signatures, HD keys, addresses, key strings, mnemonics, derivation paths, hex text), the library neither crashes, reads or writes out of bounds nor hangs. It reports a complete object only if the input starts with a well-formed encoding of that object; a proper prefix of an encoding is reported as incomplete and a malformed one as failed. After a failure the object can still be destroyed, copied, reset and reused safely.',
 ['inputs','histories'],'all byte strings and all follow-up operations on the object that rejected them',
 'The tests contain almost no malformed inputs and run without a memory checker.',
 [S,T,PS,'src/Electrum.cpp',B,CV,H,C],[('status handling and bounds checks in from_stream',T+', '+S+', '+PS),('ParseByteStream hex decoding',BC)],['getStatus() after parse; process survival under AddressSanitizer'])
p('C05','Signature hashes and input signatures commit to what consensus prescribes',
 'For every transaction, input index, script code and amount, the signature hash for SIGHASH_ALL equals the one defined by the Bitcoin protocol (the legacy algorithm for pre-segwit inputs, BIP143 for segwit inputs), and computing it leaves the transaction unchanged. Signing an input through the transaction API produces the deterministic low-S signature of exactly that hash with the given key and installs in the input the script signature or witness that spends the corresponding output type, leaving all other inputs unchanged.',
 ['inputs'],'every transaction shape (inputs, outputs, existing scripts and witnesses), every input index and amount, every supported output type',
 'Only a few fixed signing vectors are tested, mostly with one input.',
 [T],[('Tx::sigHash / Tx::sigHashSegwit / hashPrevouts / hashSequence / hashOutputs',T),('Tx::signInput / Tx::signSegwitInput',T)],['Tx::sigHash, Tx::sigHashSegwit, Tx::signInput, Tx::signSegwitInput'])
p('C06','A PSBT is parsed per BIP174 and re-serialized with everything it understands',
 'For every well-formed version-0 PSBT whose first record is the unsigned transaction and which has at most 254 inputs plus outputs, parsing recovers the unsigned transaction and, for each input and output, the spent output, redeem and witness scripts, key derivations and partial signatures given for it, ignoring unknown records. Serializing it yields a well-formed PSBT with the same unsigned transaction and the same partial signatures in the same input sections, in binary, hex and base64 form alike, and the reported length is exact. Parsing the serialized form again gives the same transaction and signatures.',
 ['inputs'],'every record set, order and size; any number of inputs and outputs in range; any number of partial signatures',
 'The tests parse a few fixed PSBTs.',
 [PS,'src/PSBT.h'],[('PSBT::from_stream / PSBT::add',PS),('PSBT::to_stream / PSBT::length',PS)],['PSBT::parse, PSBT::serialize, txInsMeta, txOutsMeta, toBase64, parseBase64'])
p('C07','PSBT signing signs exactly the inputs the key owns, with valid signatures',
 'For every PSBT and root key, signing adds a partial signature exactly for those (input, derivation) records whose fingerprint is the root\'s and whose public key is the one derived from the root along the recorded path, and returns the number of those records (if at most 255); a signature already there for the same key is replaced. Each added signature is the deterministic signature of the input\'s correct signature hash for its script type (native and nested P2WPKH, P2WSH, nested P2WSH, P2SH, P2PKH), using the recorded amount. Everything else in the PSBT is left unchanged, whatever the order and mix of derivation paths.',
 ['inputs','histories'],'every mix of own and foreign derivation records, path lengths and orders, and every script type per input',
 'The tests sign a few fixed single-wallet PSBTs in which all paths share one account prefix.',
 [PS],[('PSBT::sign (fingerprint match, account-key cache, sighash choice)',PS)],['PSBT::sign return value, txInsMeta[].signatures'])
p('C08','PSBT amounts, previous-output binding and ownership answers are truthful',
 'A full previous transaction given for a PSBT input is accepted only if its id equals the outpoint\'s and the output index exists, and the spent output the library then uses is that output; otherwise, or if the spent output is also given by itself and differs, the PSBT is rejected. The reported fee is the sum of the spent outputs minus the sum of the created outputs whenever all spent outputs are given (and the sums fit in 64 bits), and 0 if one is not given or the outputs exceed the inputs. An output is reported as mine if and only if one of its derivation records names a key that the given HD key derives along the recorded path.',
 ['inputs'],'every previous transaction and index, every amount combination up to 2^63, every derivation record set',
 'Tests check the fee of a few fixtures and never present a mismatching previous transaction.',
 [PS],[('PSBT::add non-witness-utxo branch',PS),('PSBT::fee',PS),('PSBT::isMine',PS)],['PSBT::parse verdict, txInsMeta[].txOut, fee(), isMine()'])
p('C09','HD key derivation follows BIP32, and public and private derivation agree',
 'For every seed and every path (as index list or as text with h or \' marking hardened steps), the derived private key, chain code, depth, parent fingerprint and child number are those of BIP32. For every key and every non-hardened path, deriving publicly from the extended public key gives exactly the extended public key of the privately derived key, and hardened public derivation or a malformed path gives an invalid key rather than a wrong one. Deriving along a path equals deriving along its steps one after another, and the parent is never modified.',
 ['inputs','histories'],'every seed, every index in 0..2^32-1, every path length and notation',
 'Only the BIP32 vectors and a few paths are tested.',
 [H],[('HDPrivateKey::child / derive / fromSeed',H),('HDPublicKey::child / derive',H)],['HDPrivateKey::child, hardenedChild, derive, xpub; HDPublicKey::child, derive'])
p('C10','Extended keys survive conversion to text and bytes, and bad ones are rejected',
 'For every HD key, network and script type, the extended key strings (xprv, yprv, zprv, tpub and so on) and the 78-byte serialization are those of BIP32/SLIP132 for its fields, and reading any of them back gives a key with the same secret or point, chain code, depth, parent fingerprint and child number, and the network (main or test class) and script type named by its version prefix (the x and t prefixes name no type). Reading a string with a wrong checksum, length, unknown version prefix, a public key given as private or vice versa, or an invalid key payload yields an invalid key. Fingerprints are the first four bytes of the HASH160 of the compressed public key.',
 ['inputs'],'every key, field value, network and type; every corrupted string',
 'Tests check a few published strings and no corrupted ones.',
 [H,'src/Networks.cpp'],[('HDPrivateKey::to_stream / from_stream / to_str / from_str',H),('HDPublicKey counterparts',H)],['xprv(), xpub(), toString, parse, HDPrivateKey(const char*)'])
p('C11','Mnemonics follow BIP39 and only valid ones are accepted',
 'For every entropy of 16, 20, 24, 28 or 32 bytes the generated mnemonic is the BIP39 English mnemonic, checking it succeeds, and converting it back returns the same entropy. A sentence is accepted if and only if it consists of 12, 15, 18, 21 or 24 English BIP39 words separated by single spaces with a correct checksum. The wallet made from a mnemonic and passphrase is the BIP32 master key of the PBKDF2-HMAC-SHA512 seed defined by BIP39.',
 ['inputs'],'every entropy value and length, every sentence, every passphrase',
 'Tests use a few 12- and 24-word vectors.',
 [H,'src/utility/trezor/bip39.c'],[('generateMnemonic / mnemonicFromEntropy / mnemonicToEntropy / checkMnemonic',H),('mnemonic_check / mnemonic_to_entropy / mnemonic_to_seed','src/utility/trezor/bip39.c')],['mnemonicFromEntropy, generateMnemonic, checkMnemonic, mnemonicToEntropy, HDPrivateKey::fromMnemonic'])
p('C12','ECDSA signatures are valid, deterministic, low-S and correctly encoded',
 'For every private key and 32-byte message hash (not zero modulo the group order), signing gives the RFC6979 deterministic signature with low S, which verifies under the key\'s public key, carries the recovery index of the nonce point, and is encoded as strict DER that parses back to the same signature. Verification accepts a signature if and only if 1 <= r,s < n and the ECDSA equation holds for that public key and hash, for plain and HD public keys, compressed or not. Decoding DER accepts exactly strict encodings of signatures.',
 ['inputs'],'all keys, hashes, signatures (valid, mutated, boundary r and s) and DER strings',
 'Tests verify a handful of vectors and no negative or boundary cases.',
 [B,CV,'src/utility/trezor/ecdsa.c','src/utility/trezor/bignum.c'],[('PrivateKey::sign / PublicKey::verify',B),('Signature DER and binary encodings',B)],['PrivateKey::sign, PublicKey::verify, Signature::der, fromDer, bin'])
p('C13','Schnorr signatures follow BIP340',
 'For every private key and 32-byte message, the Schnorr signature produced verifies under BIP340 for the key\'s x-only public key, is deterministic, and its nonce differs for different messages or keys. Verification accepts a signature if and only if BIP340 verification does: the public key lifts to an even-Y point, the scalar is below the group order, and the recomputed nonce point is not infinity, has even Y and the given x coordinate.',
 ['inputs'],'all keys, messages and 64-byte signatures',
 'Tests cover a few BIP340 vectors, mostly positive.',
 [B],[('PrivateKey::schnorr_sign',B),('PublicKey::schnorr_verify',B)],['schnorr_sign, schnorr_verify'])
p('C14','Keys, points and scalars obey the secp256k1 group laws and encodings',
 'For every pair of points and scalars, the arithmetic operators compute exactly the secp256k1 group and the integers modulo its order, including the point at infinity, doubling, inverse points, zero and values at or above the order (division by zero excepted), and the comparison operators agree with the numeric values of scalars and the encodings of points. The public key of a secret is that multiple of the generator, and a key or scalar is reported valid if and only if it is in range or on the curve. SEC encodings are produced in the form the key is marked with, and parsing accepts exactly the 33-byte and 65-byte encodings of points on the curve.',
 ['inputs'],'all scalars and points including identities and boundary values; all byte strings as SEC input',
 'Tests check a few arithmetic identities on random small values.',
 [CV,B,'src/utility/trezor/bignum.c','src/utility/trezor/ecdsa.c'],[('ECPoint / ECScalar operators',CV),('ECPoint::from_stream / to_stream',CV)],['ECPoint and ECScalar operators, isValid, sec, fromSec, PrivateKey::publicKey'])
p('C15','Text encodings are exact inverses and reject what is not in their language',
 'For every byte string, hex, binary, Base58, Base58Check, Base43 and Base64 (all padding and URL variants) produce the standard text and decoding it returns the original bytes, leading zero bytes included; the advertised length functions are exact for hex, binary and Base64 and sufficient for Base58 and Base43. Text that is not in the language is never turned into other bytes: Base64 and binary text with a foreign character and Base58Check text with a wrong checksum decode to zero bytes, and hex, Base58 and Base43 decoding ends at the first foreign character (hex skips leading ones). A conversion whose output does not fit reports 0 bytes (hex decoding may instead fill the buffer with the first bytes); none writes outside the output buffer it was given or reads outside its input.',
 ['inputs'],'all byte strings and texts, all buffer sizes',
 'Tests check a few strings with ample buffers.',
 [C],[('toBase58 / fromBase58 / *Check / Base43 / Base64 / Hex / Bin functions',C)],['Conversion.h functions'])
p('C16','Addresses and output scripts correspond one to one on every network',
 'For every public key (compressed, for segwit forms), script and network, the legacy, nested-segwit and segwit addresses produced are the standard Base58Check and Bech32 encodings of the corresponding output script. The script built from a valid address of any supported network (P2PKH, P2SH, witness version 0, and Bech32m witness versions 1 to 16) is exactly the output script it encodes, and converting a P2PKH, P2SH or witness version 0 output script to an address of a network gives the address of that network. A string that is not a valid address (wrong checksum, length, case mix, unknown prefix) yields an empty script.',
 ['inputs','configurations'],'all keys, scripts, hashes, networks and strings',
 'Tests cover a few mainnet and testnet addresses.',
 [S,B,'src/utility/segwit_addr.c','src/Networks.cpp'],[('Script::address / Script::fromAddress',S),('PublicKey::legacyAddress / segwitAddress / nestedSegwitAddress',B),('segwit_addr_encode / segwit_addr_decode','src/utility/segwit_addr.c')],['Script(const char*), Script::address, PublicKey::*Address'])
p('C17','Script and witness builders produce the standard templates and classify them',
 'Scripts of up to 10,000 bytes built from opcodes, raw data, keys, signatures and other scripts contain exactly those items in order, keys, signatures and scripts being pushed with the minimal push opcode form for their length and raw bytes appended as they are. The key, multisig (with keys sorted lexicographically for the sorted form), P2SH, P2WPKH and P2WSH templates are the standard ones, and the type reported for a script is the template it matches and none for every other script. Witness items are kept in order with their exact bytes and reported in their count.',
 ['inputs','histories'],'all sequences of builder operations with data of every length; all scripts',
 'Tests build a few templates; no push above 75 bytes is tested.',
 [S],[('Script::push overloads, Script constructors, multi / sortedmulti / pkh / wpkh / sh / wsh',S),('Script::type',S),('Witness::push',S)],['Script::push, Script::type, multi, sortedmulti, Witness::push, Witness::count'])
p('C18','Streaming hashes equal one-shot hashes for every split of the message',
 'For every message, key and split into writes of any sizes (empty and single-byte writes included), the incremental SHA-256, SHA-512, RIPEMD-160, HASH160, double SHA-256, HMAC and tagged-hash objects and the one-shot functions give the standard digest of the whole message. A hash object that is started again gives the digest of the new message only, and the number of bytes reported as written is the number given.',
 ['inputs','histories'],'all messages, all splits, all key lengths across block boundaries, reuse of objects',
 'Tests hash a few short strings in one or two writes.',
 ['src/Hash.cpp','src/utility/trezor/sha2.c','src/utility/trezor/ripemd160.c','src/utility/trezor/hmac.c'],[('HashAlgorithm subclasses','src/Hash.cpp'),('sha256_Update / sha512_Update / ripemd160_Update block buffering','src/utility/trezor')],['Hash.h classes and functions'])
p('C19','Objects have value semantics: copies are equal, independent and leak-free',
 'For every object of the library in any completed state, a copy or assigned object is equal to the original in every observable respect, and no later operation on either (including destruction, reset, re-parsing, appending, signing) affects the other. Self-assignment changes nothing. No sequence of constructions, copies, assignments, mutations and destructions uses freed memory, frees memory twice or reads uninitialised memory, and once all objects are destroyed nothing the library allocated remains held.',
 ['histories'],'all sequences of operations over several objects',
 'Tests never copy then mutate, and do not run under a memory checker.',
 [S,T,PS,'src/Bitcoin.h'],[('copy constructors, assignment operators, destructors, clear()',S+', '+T+', '+PS)],['observable state of every live object after each operation'])
p('C20','WIF private keys round-trip and malformed ones are rejected',
 'For every valid private key, compression flag and network, the WIF text is the standard one and reading it back gives the same secret, compression flag, network class (main or test) and public key. Text with a wrong checksum, length, prefix, trailing marker or a secret outside 1..n-1 is rejected and leaves no usable key.',
 ['inputs'],'all secrets, flags, networks and strings',
 'Tests check a few WIF strings.',
 [B],[('PrivateKey::wif / fromWIF',B)],['PrivateKey::wif, fromWIF, PrivateKey(String)'])
p('C21','Electrum transactions are parsed and signed like ordinary ones',
 'For every Electrum-format partial transaction with extended-key inputs, parsing recovers the unsigned transaction and each input\'s extended public key, derivation and amount, and malformed data is rejected. Signing with an account private key signs exactly the inputs whose extended public key (point and chain code) is that of the account, with the deterministic signature of the correct signature hash, and the resulting transaction carries the matching script signature or witness. The fee is the recorded input amounts minus the outputs, and 0 if an amount is missing or the outputs exceed the inputs.',
 ['inputs'],'every number and mix of segwit and legacy inputs, every derivation',
 'Tests cover one fixed Electrum transaction.',
 ['src/Electrum.cpp'],[('ElectrumTx::from_stream / to_stream / sign','src/Electrum.cpp')],['ElectrumTx::parse, sign, tx'])
p('C22','Descriptor checksums are those of Bitcoin Core',
 'For every text over the descriptor character set the checksum returned is the eight-character Bitcoin Core descriptor checksum, in both the buffer and the string form. Text with a character outside the set, or an output buffer that is too small, gives no checksum, and nothing is written outside the buffer.',
 ['inputs'],'all texts and buffer sizes',
 'One descriptor is tested.',
 [PS],[('descriptorChecksum / PolyMod',PS)],['descriptorChecksum'])
p('C23','ECDH gives both sides the same standard shared secret',
 'For every two key pairs, both sides compute the same shared secret: the x coordinate of the product point, or, in hashed form, the SHA-256 of its 64-byte x and y coordinates. The secret depends on both keys only, not on compression flags or networks.',
 ['inputs'],'all pairs of private keys',
 'One pair is tested.',
 [B],[('PrivateKey::ecdh',B)],['PrivateKey::ecdh'])
p('C24','Integer and CompactSize conversions are exact inverses at every width',
 'For every 64-bit value, the CompactSize encoding is the shortest standard one, its length function agrees, and reading it back gives the value; an encoding is never read or written beyond the buffer given. Little- and big-endian conversions of every width up to eight bytes write the value\'s low bytes in order and read back the same number.',
 ['inputs'],'all 64-bit values, all widths and buffer sizes',
 'Only a few values are tested.',
 [C],[('lenVarInt / readVarInt / writeVarInt / intToLittleEndian / littleEndianToInt / ...',C)],['Conversion.h integer functions'])
p('C25','Secrets do not outlive the key objects that hold them',
 'When an ECScalar, PrivateKey or HDPrivateKey object is destroyed, in whatever state it is (complete, empty, partly read, refused, copied or assigned, before or after use), the storage it occupied holds no byte of its secret nor, for an HDPrivateKey, of its chain code, while all other objects keep theirs. Once an object has taken a new complete value nothing of an earlier secret is left in its storage, and heap memory that the library frees while it reads or writes keys as text (WIF, extended keys, including texts that are refused) or uses them holds no private key bytes. (Copies left on the stack and in texts returned to the caller are not covered.)',
 ['histories','inputs'],'all histories of construction, parsing, copying, assignment, use and destruction, and all keys',
 'A test sees a destroyed object no more, and never looks at freed memory.',
 [B,'src/HDWallet.cpp','src/BitcoinCurve.h',C],[('PrivateKey::~PrivateKey / fromWIF / wif',B),('HDPrivateKey::~HDPrivateKey',H),('ECScalar::~ECScalar','src/BitcoinCurve.h'),('fromBase58 / fromBase58Check / toBase58Check',C)],['"erase secret key from memory", "secret should not stay in RAM" (Bitcoin.cpp, Conversion.cpp)'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
