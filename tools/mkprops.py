#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Opening any byte string returns an archive or an error, never a crash',
 'For every sequence of bytes offered as an archive, opening it returns either a usable reader or an error. It never panics, never indexes out of range, never dereferences a missing part of the header, and never loops without end.',
 ['inputs'],'every header byte string and every header structure up to the stated length and counts, with correct checksums so that parsing is not cut short by them, plain and encoded headers',
 'Tests open a handful of well-formed archives and two corpus files; a malformed header with valid checksums is one of astronomically many byte strings.',
 ['reader.go','types.go','struct.go'],
 [('header parser and its count checks','types.go readHeader/readStreamsInfo/readFilesInfo'),('container and checksum handling','reader.go init')],
 observe=['NewReader','OpenReader'])
p('C02','Extracting from any archive that opens never crashes or stalls',
 'For every archive that opens successfully, opening each listed file and reading it returns bytes, end of file or an error in finitely many reads. No combination of coder graph, stream indices, sizes or coder properties in the header makes opening, reading, seeking or closing a member panic or return zero bytes without an error for ever.',
 ['inputs'],'every coder graph, bind pair, packed-stream index, size and property byte within the stated counts, including the inconsistent ones a header can express',
 'Tests extract only archives written by real tools, whose coder graphs are consistent; the inconsistent ones are unbounded in number.',
 ['struct.go','reader.go','types.go','register.go'],
 [('building the decoder chain of a folder','struct.go folderReader'),('mapping files to folders','struct.go FileFolderAndSize, folderOffset'),('folder validation','types.go readFolder')],
 observe=['File.Open','Read','Close'])
p('C03','Listed file metadata is exactly what the header encodes',
 'For every well-formed header with at least one file, the listed files equal the encoded ones in number and order, and each has the encoded name, attributes, timestamps, size, checksum and containing stream. Entries marked empty have size zero and read as empty, non-empty ones are assigned to folders and sub-streams in order, a sub-stream size left implicit is the folder size minus the explicit ones, and entries whose attributes mark them as directories carry a trailing slash.',
 ['inputs'],'every assignment of values, presence bits and emptiness bits for the stated numbers of folders, sub-streams and files',
 'Tests compare archives produced by one tool and mostly check file contents, not every combination of optional vectors, defined bits and sub-stream layouts.',
 ['types.go','struct.go','reader.go'],
 [('header parser','types.go'),('file to sub-stream mapping','struct.go FileFolderAndSize'),('file list construction','reader.go init')],
 observe=['Reader.File','FileHeader'])
p('C04','Variable-length numbers decode to the encoded value for every 64-bit value',
 'Every 64-bit value written in any of its valid variable-length encodings is read back as exactly that value, and exactly the encoded bytes are consumed. A number cut short by the end of the header is an error.',
 ['inputs'],'all 2^64 values in each of the nine encoded lengths, and every truncation of them',
 'Tests see only the small numbers real archives contain; values needing six or more bytes never occur.',
 ['types.go'],[('number decoder','types.go readUint64')],observe=['FileHeader.UncompressedSize'])
p('C05','A header whose checksum does not match is never accepted',
 'An archive opens only if the start header matches its stored CRC32, the header matches the CRC32 stored in the start header, and an encoded header with a recorded (non-zero) CRC32 matches it after decoding. Any mismatch, missing byte or trailing header byte makes opening fail with an error, so no file list is ever produced from corrupted header bytes.',
 ['inputs','fault_sequences'],'every header content and every stored checksum value within the stated sizes; every single-byte corruption of the start header, header and packed encoded header',
 'Tests contain one archive with a bad header checksum; corruption can hit any byte with any value.',
 ['reader.go','internal/util/checksum.go'],[('CRC comparison','reader.go init, internal/util/checksum.go'),('bounded header reader','reader.go init')],observe=['NewReader'])
p('C06','ARM, ARM64, PowerPC and SPARC filters invert the 7-Zip encoding exactly',
 'For every filtered byte stream the ARM, ARM64, PowerPC and SPARC branch filters deliver exactly the bytes the 7-Zip reference decoder defines, including a tail shorter than one instruction. The result depends only on the stream, not on the sizes of the reads made by the caller or returned by the source.',
 ['inputs','histories'],'every stream content up to the stated length and every split of it into source chunks and caller reads within the bounds',
 'Tests run one archive per filter with one read pattern; a wrong case in an instruction mask or in the buffering needs specific bytes at specific offsets.',
 ['internal/bra/arm.go','internal/bra/arm64.go','internal/bra/ppc.go','internal/bra/sparc.go','internal/bra/reader.go'],
 [('converters','internal/bra/*.go Convert'),('buffering reader','internal/bra/reader.go Read')],observe=['decompressor readers'])
p('C07','The x86 BCJ filter inverts the 7-Zip encoding exactly',
 'For every filtered byte stream the x86 BCJ filter delivers exactly the bytes the 7-Zip reference decoder defines. Its state carries over correctly between buffers, so the result does not depend on how the stream is split into source chunks or caller reads.',
 ['inputs','histories'],'every stream content up to the stated length, and every split into reads within the bounds',
 'Tests run one archive with one read pattern; the state carried between opcodes closer than five bytes matters only for specific byte patterns at buffer edges.',
 ['internal/bra/bcj.go','internal/bra/reader.go'],[('x86 converter','internal/bra/bcj.go Convert'),('buffering reader','internal/bra/reader.go Read')],observe=['decompressor readers'])
p('C08','The delta filter restores the original bytes for every distance',
 'For every distance from 1 to 256 the delta filter delivers, at each position, the sum modulo 256 of the stored byte and the output byte one distance earlier (zero before the start). The result is independent of read sizes and of short reads from the source, and the end of the source is reported as end of file.',
 ['inputs','histories'],'all 256 distances, every content up to the stated length, every split into reads within the bounds',
 'The test archive uses one distance and one read pattern.',
 ['internal/delta/reader.go'],[('delta state','internal/delta/reader.go Read, NewReader')],observe=['decompressor readers'])
p('C09','BCJ2 recombines its four streams exactly as the 7-Zip decoder does',
 'For every quadruple of main, call, jump and range-coder streams the BCJ2 decoder delivers the byte sequence the 7-Zip reference decoder defines. The result does not depend on the size of the reads.',
 ['inputs','histories'],'every content of the four streams up to the stated lengths, and the stated read sizes',
 'One test archive exercises it; branch bytes, probability updates and stream selection depend on data.',
 ['internal/bcj2/reader.go'],[('range decoder','internal/bcj2/reader.go decode, update'),('stream merge','internal/bcj2/reader.go read')],observe=['decompressor readers'])
p('C10','AES decryption is CBC with the recorded IV for every ciphertext and read pattern',
 'For every key, every coder property string and every ciphertext, the decrypted stream is the CBC decryption under the IV in the properties padded with zeros, delivered in order whatever the read sizes. Property strings whose salt and IV lengths do not match their size, a missing password and a partial final block are errors.',
 ['inputs','histories'],'every property string up to the stated length, every ciphertext of the stated number of blocks, every read-size pattern within the bounds; the block cipher itself is uninterpreted',
 'Tests use a few archives written by one tool, always with the same property layout.',
 ['internal/aes7z/reader.go'],[('property parsing','internal/aes7z/reader.go NewReader'),('block buffering','internal/aes7z/reader.go Read')],observe=['decompressor readers'])
p('C11','The AES key depends only on password, salt and cycles and never leaks state',
 'The key is the SHA-256 of 2^cycles repetitions of salt, UTF-16LE password and little-endian counter (or the padded concatenation in raw mode), and cycle powers above 24 other than the raw mode are refused. This holds for every sequence of derivations however results are remembered, and deriving a key never changes the salt, IV or any other coder property used by later readers.',
 ['inputs','histories'],'every password and salt within the stated lengths, every cycle power (full rounds for the small ones), every sequence of derivations of the stated length; the digest itself is uninterpreted',
 'Tests check that a few cycle values do not error; sequences of openings with different salts and passwords sharing a cache are not tried.',
 ['internal/aes7z/key.go','internal/aes7z/reader.go'],[('key derivation and cache','internal/aes7z/key.go calculateKey')],
 state=[('key cache','derived keys by password, cycles and salt','internal/aes7z/key.go')],observe=['decompressor readers','File.Open'])
p('C12','Each file reads as exactly its slice of the folder stream under any history',
 'Whatever sequence of opens, partial reads and closes has gone before on any members, reading a member yields exactly its bytes of the decoded folder stream, from its first byte, followed by end of file. Concurrently open members do not affect each other and the read buffer sizes do not matter.',
 ['inputs','histories'],'every history of the stated number of open, read and close operations over the stated members, every content and every split of the folder into files within the bounds',
 'Tests read files in order, once; reuse of a partly read stream at the wrong offset shows only in particular histories.',
 ['reader.go','struct.go','internal/pool/pool.go'],[('file reader','reader.go fileReader, File.Open'),('stream reuse','internal/pool/pool.go Get, Put')],
 state=[('stream pool','partly read folder streams by offset','reader.go Reader.pool')],observe=['File.Open','Read','Close'])
p('C13','The stream pool hands out each stream once, never past the request, bounded',
 'A pooled stream is given to at most one user at a time, is always positioned at or before the requested offset and is the closest such stream available. The pool keeps at most as many streams as there are CPUs, closes the least recently added one exactly once when it overflows, and never closes a stream it hands out or still holds; a stream it is given and does not keep is closed exactly once.',
 ['histories','configurations'],'every sequence of the stated number of get and put operations with arbitrary offsets, for each CPU count within the bounds',
 'Tests never observe the pool directly and run with one CPU count.',
 ['internal/pool/pool.go'],[('LRU pool','internal/pool/pool.go')],observe=['internal/pool Pooler'])
p('C14','Seeking in a folder stream moves forward exactly or fails without moving',
 'A seek with any offset and origin either positions the stream so that the next byte read is the one at the returned absolute offset, or returns an error. It is an error to seek before the start, before the current position, past the end of the stream or with an unknown origin.',
 ['inputs','histories'],'all 2^64 offsets and every origin value, in every sequence of the stated number of reads and seeks',
 'Tests try eight seeks on one stream.',
 ['struct.go'],[('forward-only seek','struct.go folderReadCloser.Seek')],observe=['folder stream Seek'])
p('C15','The file-system view lists every entry once, sorted, and finds it by name',
 'For every set of member names, each directory of the file-system view lists exactly its immediate children, in lexical order and without repeats, however it is paged. Every listed name can be opened and describes itself by the same name and kind, missing parent directories exist, and names not listed are reported as not existing.',
 ['inputs'],'every set of the stated number of member names over the stated lengths and alphabet, files and directories, with every page size',
 'Tests use two fixed archives; the interaction of separators, duplicate names and missing parents is combinatorial.',
 ['reader.go'],[('list construction and lookup','reader.go initFileList, openLookup, openReadDir'),('paging','reader.go openDir.ReadDir')],observe=['Reader.Open','ReadDir','Stat'])
p('C16','No member name can escape or confuse the file-system view',
 'Whatever bytes member names contain, every path listed by the file-system view is a valid relative path without dot, dot-dot, empty or absolute elements, so joining it to a destination stays inside it. Opening an invalid path is refused, members that clash make the listing that would show them report duplicates instead of one hiding the other, and no name makes listing or opening panic.',
 ['inputs'],'every name (and pair of names) of arbitrary bytes up to the stated length, and every lookup path up to the stated length',
 'Tests contain only harmless names.',
 ['reader.go'],[('name sanitising','reader.go toValidName'),('duplicate marking','reader.go initFileList, fileListEntry.stat')],observe=['Reader.Open','ReadDir'])
p('C17','UTF-16 member names decode exactly, for every code unit sequence',
 'For every sequence of 16-bit code units stored as names, each listed name is the UTF-8 form of the code points they encode, with unpaired surrogates replaced by U+FFFD. Names are split exactly at the zero terminators, and a number of names different from the number of files is an error.',
 ['inputs'],'every sequence of code units up to the stated length and every placement of terminators',
 'Tests have plain ASCII and one non-ASCII archive.',
 ['types.go'],[('name decoder','types.go readNames, splitNull')],observe=['FileHeader.Name'])
p('C18','Every 64-bit FILETIME decodes to the instant it denotes',
 'For every 64-bit FILETIME value recorded as creation, access or modification time, the listed time is the instant that many 100-nanosecond intervals after 1 January 1601 UTC, and file infos report the listed modification time. A time that is not recorded is the zero time.',
 ['inputs'],'all 2^64 values for each of the three timestamps, and every pattern of recorded and missing times for the stated number of files',
 'Tests contain contemporary dates only.',
 ['types.go','reader.go'],[('timestamp decoder','types.go readTimes')],observe=['FileHeader.Created/Accessed/Modified','FileInfo.ModTime'])
p('C19','File modes follow the recorded attributes for all 2^32 values',
 'For every 32-bit attribute value, the reported mode has the permission, type, set-id and sticky bits of the POSIX part when one is present, and otherwise the directory and read-only meaning of the DOS bits. Directory status, file-info mode and type, and the trailing slash of the name always agree with it.',
 ['inputs'],'all 2^32 attribute values',
 'Tests see only the modes of a few regular files and directories.',
 ['struct.go','reader.go'],[('mode mapping','struct.go Mode, unixModeToFileMode, msdosModeToFileMode')],observe=['FileHeader.Mode','FileInfo'])
p('C20','Multi-volume sets behave as their concatenation and release every file',
 'Opening a set of numbered volumes starting at .001 presents exactly the concatenation of the volumes in numeric order up to the first missing number, wherever the volume boundaries fall. If opening or inspecting any volume fails, an error is returned and every file opened so far is closed exactly once; otherwise closing the archive closes each volume exactly once.',
 ['inputs','fault_sequences','configurations'],'every content and size of the stated number of volumes, every read range, and a fault at every open, stat and close call',
 'The tests open one set of volumes and never inject faults.',
 ['reader.go'],[('volume discovery and cleanup','reader.go openReader'),('closing','reader.go ReadCloser.Close')],observe=['OpenReader','ReadCloser.Close','Volumes'])
p('C21','Read failures surface as read errors that flag encryption truthfully',
 'When decoding a member fails while opening, seeking or reading it, the caller gets an error that unwraps to the cause and whose encryption hint is set exactly when the member stream passes through a decryption step reached so far, including a failure of that step to accept the password. When reading, end of file is never wrapped, bytes delivered before the failure are correct, and a failing source never yields success.',
 ['inputs','fault_sequences'],'a fault at every read of the source and in every decoder callback, for the stated coder chains',
 'Tests cover one wrong-password archive.',
 ['reader.go','struct.go'],[('error wrapping','reader.go fileReader.Read, File.Open, init'),('encryption flag','struct.go folderReader, coderReader')],observe=['ReadError'])
p('C22','Coder ids select exactly the registered decoder; unknown ids fail cleanly',
 'Each coder id of a folder selects the decoder registered for exactly those bytes, receiving exactly the recorded properties, the coder output size and its input streams in order. An id nothing is registered for makes opening the member fail with an error, and registering an id replaces only that id.',
 ['inputs'],'every id up to the stated length, every property string and size within the bounds',
 'Tests use only ids of the shipped methods.',
 ['register.go','struct.go','types.go'],[('registry','register.go RegisterDecompressor, decompressor'),('coder parsing','types.go readCoder')],observe=['RegisterDecompressor','File.Open'])
p('C23','Decoder readers close their source once and refuse use after close',
 'Every built-in decoder reader closes each of its sources exactly once when closed (a source that refuses to close excepted), reports an error on a second close and on any read after close, and refuses to be built with the wrong number of sources or with too few properties. Decoders that recycle internal state never share it between two readers that are open at the same time.',
 ['histories','fault_sequences'],'every sequence of the stated number of construct, read and close operations on two readers of each kind, with sources whose read or close fails',
 'Tests close each reader once after reading it to the end.',
 ['internal/lzma/reader.go','internal/lzma2/reader.go','internal/deflate/reader.go','internal/bzip2/reader.go','internal/brotli/reader.go','internal/lz4/reader.go','internal/zstd/reader.go','internal/ppmd/reader.go','internal/delta/reader.go','internal/bra/reader.go','internal/bcj2/reader.go','internal/aes7z/reader.go'],
 [('reader wrappers','internal/*/reader.go')],observe=['decompressor readers'])
p('C24','A self-extracting prefix never changes what is read',
 'Prepending any bytes up to the search limit to an archive leaves the listed files and their contents unchanged, even if the prefix contains false signatures with bad checksums (a prefix that itself begins with the signature makes the data an archive at offset zero). An archive at offset zero is never searched further, and data without a valid signature in the search range is refused.',
 ['inputs'],'every prefix content of the stated lengths, including around the search chunk boundary, and every false signature in it',
 'Tests have one self-extracting archive whose signature is at one offset.',
 ['reader.go'],[('signature search','reader.go findSignature'),('offset handling','reader.go init')],observe=['NewReader'])
p('C25','Memory used to open an archive is bounded by its size',
 'The memory allocated while opening an archive is bounded by a fixed multiple of the bytes supplied (and of the header bytes they decode to) plus a constant, whatever counts and sizes its header declares. The working memory that a compressed header\'s own decoder needs is not counted.',
 ['inputs'],'every count and size value in every count field of the header, within the stated structures',
 'Tests only open honest archives; a hostile count is one 64-bit value in one of a dozen fields.',
 ['types.go'],[('capped preallocation','types.go readSizes, readBool, readFolder, readUnpackInfo'),('count limits','types.go checkUint64')],observe=['NewReader'])
p('C26','Members can be opened, read and closed concurrently',
 'Under every interleaving of goroutines opening, reading, closing and looking up members of one archive, each reads its own exact bytes. There is no data race on shared state, including with goroutines that a decoder starts itself, no deadlock and no stream used by two readers at once.',
 ['schedules'],'every interleaving, within the stated preemption bound, of two goroutines performing the stated operations',
 'Tests run a few goroutines once; the scheduler picks one interleaving.',
 ['reader.go','struct.go','internal/pool/pool.go','internal/aes7z/key.go'],[('pool mutex','internal/pool/pool.go'),('once-built file list','reader.go initFileList'),('key cache','internal/aes7z/key.go')],observe=['File.Open','Reader.Open'])
p('C27','A folder decodes through its coder graph in the recorded order',
 'For every valid chain or tree of coders listed in an order in which each coder follows those it reads from, each coder reads from the packed stream or coder output that the bind pairs and packed-stream indices designate, and the member data is the output of the one unbound coder. Packed streams start at the recorded position and follow each other in the recorded order and sizes across folders, and each coder sees no more bytes than its input stream has.',
 ['inputs'],'every assignment of bind pairs and packed-stream indices that forms a valid graph within the stated coder counts, every size and content',
 'Tests contain the few graphs that one tool writes (single coder, filter plus codec, BCJ2).',
 ['struct.go','types.go'],[('graph construction','struct.go folderReader'),('packed stream offsets','struct.go folderOffset')],observe=['File.Open','Read'])
p('C28','Codec streams decode for every property value the format defines',
 'Each built-in codec decodes a valid stream to exactly the bytes that were encoded, whichever of the property values defined for it the stream was written with: every LZMA literal, position and dictionary setting with or without an end marker, every LZMA2 dictionary size, every PPMd order, and Brotli with or without the frame header that 7-Zip adds. Property values the format does not define are refused.',
 ['inputs'],'all property values (every lc/lp/pb, every dictionary size, every order) over short streams produced by an independent encoder',
 'Test archives are written with the default settings of one tool; the extreme settings never occur.',
 ['internal/lzma/reader.go','internal/lzma2/reader.go','internal/ppmd/reader.go','internal/brotli/reader.go'],
 [('LZMA header and dictionary limit','internal/lzma/reader.go NewReader'),('LZMA2 dictionary property','internal/lzma2/reader.go NewReader'),('PPMd properties','internal/ppmd/reader.go NewReader'),('Brotli frame header','internal/brotli/reader.go NewReader')],observe=['decompressor readers'])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
print(len(P))
