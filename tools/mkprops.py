import json
P=[]
ALL=["src/bup.rs","src/buzhash.rs","src/fastcdc.rs","src/gear.rs","src/gzip.rs","src/mii.rs","src/pigz.rs","src/ram.rs","src/zpaq.rs","src/zstd.rs"]
def p(id,title,st,over,q,why,files,mech,state=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))],state=[dict(name=a+': '+b,where=', '.join(files)) for a,b in state])))
p("C01","Reported edges lie inside the data and scanning always advances",
 "For every chunking algorithm, whatever bytes and slices it is given, an edge returned by push() or find_chunk_edge() is at least 1 and at most the length of the slice passed in that call, and the discard count never exceeds that length. Edges found one after the other in the same input strictly increase, each find_chunk_edge() call that reports an edge lets the caller advance, and scanning any finite input to its end therefore finishes after at most one edge per byte.",
 ["inputs","configurations","histories"],"all byte strings, all slice lengths (also empty), all valid configurations, every position in a longer scan",
 "The cut tests use a handful of seeds and never look at the index push() returns; the proptests only compare two runs of the same interface on random data, where rare hits (an edge on the first byte of a slice, an edge exactly at the end or at the size limit) do not occur.",
 ["src/lib.rs"]+ALL,"return value arithmetic of push()/find_chunk_edge() (i vs i + 1, discard_ct, size-limit cuts)",
 [("edge","index returned in Some(..)"),("discard_ct","prefix of the slice the caller may drop")])
p("C02","Slice iteration reproduces the input exactly",
 "iter_slices() on any data yields non-empty slices whose concatenation is exactly that data, in order, and then stops. iter_slices_strict() yields exactly the complete chunks, and the part it has not emitted is available unchanged from take_rem() or into_parts(), so that slices plus remainder are again exactly the input; its slices are those of iter_slices() without the trailing incomplete one.",
 ["inputs","configurations"],"all byte strings, all chunkers",
 "No test calls iter_slices() or iter_slices_strict() at all.",
 ["src/lib.rs"]+ALL,"IterSlices / IterSlicesStrict: split_at at the pushed edge, remainder handling",
 [("rem","data not yet emitted")])
p("C03","Incremental edges do not depend on how data is sliced",
 "Feeding the same byte stream to an incremental chunker produces the same edges whether it is pushed at once, one byte at a time, or in any other sequence of slices (empty ones included), where after an edge the caller continues with the bytes following it.",
 ["inputs","histories","configurations"],"all byte streams, all partitions into pushes, all valid configurations and defaults",
 "The cut tests push single bytes for a few seeds; no test pushes multi-byte slices of varying size, so state carried across push boundaries is only exercised at one granularity and on one stream per algorithm.",
 ["src/lib.rs"]+ALL,"state saved at the end of ChunkIncr::push (window buffers, counters, partial fingerprints) and resumed by the next call",
 [("incr state","fingerprint, window, counters kept between pushes")])
p("C04","find_chunk_edge results do not depend on buffer growth",
 "When the caller follows the documented protocol (keep everything from the returned discard offset on, append any amount of new data, possibly none, and call again with the same search state), find_chunk_edge() finds the same edges at the same absolute positions as a single pass over the complete data. In particular nothing it allows to be discarded is needed later, and bytes already examined are neither skipped nor counted twice.",
 ["inputs","histories","configurations"],"all byte streams, all buffer growth schedules, all valid configurations and defaults",
 "The proptests sample random data and buffer sizes with default parameters where edges are rare (for zstd usually none), so boundaries that coincide with an edge, a full window or a size limit are hit by luck only.",
 ["src/lib.rs","tests/cuts_qc.rs"]+ALL,"SearchState offset and discard_ct bookkeeping",
 [("SearchState.offset","first index of data not examined yet"),("discard_ct","bytes the caller drops")])
p("C05","Incremental and all-at-once interfaces agree",
 "For each algorithm and configuration, the edges found by find_chunk_edge(), by push() on the chunker obtained from to_chunk_incr(), and the slice boundaries of iter_slices() are the same for every input, throughout the whole input and not only up to the first edge.",
 ["inputs","configurations"],"all byte strings, all valid configurations and defaults",
 "The cut tests compare the two on 32 KiB of random data for one or two seeds, ignoring the index push() returns; differences that need an edge near another edge, a particular first byte, or a size limit are not reached.",
 ["src/lib.rs"]+ALL,"the two implementations of each algorithm: Chunk for X and ChunkIncr for XIncr",[])
p("C06","After an edge, chunking starts afresh",
 "For every algorithm except zstd (which deliberately carries its rolling window across edges), the edges found after an edge are exactly those a new instance finds in the remaining data, in both interfaces. So two inputs that share a tail and have an edge at the same place in it are chunked identically from there on.",
 ["inputs","histories","configurations"],"all byte strings, all valid configurations",
 "Tests check absolute edge lists for single seeds; leftover state influences the next chunk only in rare circumstances (an edge within a window length, first-byte effects, size counters).",
 ALL[:9],"reset() of search and incremental state at an edge",[("state after edge","must equal the initial state")])
p("C07","Windowed algorithms look only at their window",
 "In the sliding window algorithms (bup, buzhash, gzip, zstd) whether an edge follows a byte depends only on the last window-length bytes since the start of the chunk (for zstd: of the stream), except for the size limit of buzhash. Data that has left the window has no influence whatsoever, so after any insertion, deletion or change the edges realign once the window has passed it.",
 ["inputs","histories","configurations"],"all histories before the window, all window contents, all window lengths within bound and the defaults",
 "Needs two different histories followed by the same window; tests only ever run one history, with one window length per algorithm.",
 ["src/bup.rs","src/buzhash.rs","src/gzip.rs","src/zstd.rs"],"removal of the oldest byte (RollSumState::add, add_overflow rotation, accum, ZstdState::rotate) and the ring buffers holding the window",
 [("window","last bytes seen"),("hash","fingerprint that must be a function of the window")])
p("C08","Chunk size limits are respected",
 "FastCDC chunks have at least the minimum and at most the maximum size (unless the input ends), RAM chunks are longer than the window parameter, zpaq chunks have a length within the configured range, buzhash ends a chunk at the latest when its length exceeds the configured maximum, and Mii chunks have at least one byte more than its parameter w. This holds in both interfaces for every input and however the data is fed.",
 ["inputs","configurations","histories"],"all byte strings, all valid size parameters, defaults included",
 "Random test data practically never reaches a maximum; minimum violations need a content match at a specific offset.",
 ["src/fastcdc.rs","src/ram.rs","src/zpaq.rs","src/buzhash.rs","src/mii.rs","src/range.rs"],"size counters and their comparisons with the limits",
 [("chunk length","bytes since the previous edge")])
p("C09","Rolling window algorithms match their definition",
 "bup, buzhash, gzip and zstd place the first edge after exactly the first byte where the published function of the window (recomputed from scratch over the last window bytes) meets the split criterion: bup's rsync style sum having its low 13 bits set, the cyclic polynomial hash having all mask bits set (or the chunk exceeding the maximum size), the byte sum being a multiple of the modulus, and zstd's polynomial hash of the last 32 bytes having its low bits set once more than 32 bytes were seen. This holds for both interfaces.",
 ["inputs","configurations"],"all byte strings within bound, all table/hash functions, masks, moduli, window lengths; defaults included",
 "Tests compare bup with another crate on random data and the others with a few recorded edge lists.",
 ["src/bup.rs","src/buzhash.rs","src/gzip.rs","src/zstd.rs","src/buzhash_table.rs"],"fingerprint update and split criterion",[])
p("C10","Gear, FastCDC, pigz and zpaq match their definition",
 "These algorithms place each edge after exactly the first byte that meets the published criterion: gear's shift-and-add fingerprint with the top bits zero, FastCDC's two-mask rule with skipped minimum, normal and maximum size, pigz's masked shift-xor hash hitting its pattern, and zpaq's order-1 predicted multiplicative hash falling below its threshold within the size range. This holds for both interfaces and for every gear table, size and threshold.",
 ["inputs","configurations"],"all byte strings within bound, all gear tables, sizes, masks and thresholds; defaults included",
 "Tests check recorded edges for one or two seeds and compare FastCDC's incremental interface with the pseudocode on random data with default parameters only.",
 ["src/gear.rs","src/fastcdc.rs","src/pigz.rs","src/zpaq.rs","src/gear_table/gear32.rs","src/gear_table/gear64.rs"],"fingerprint update, masks, split_here",[])
p("C11","Mii and RAM match their definition",
 "Mii ends a chunk after exactly the byte that completes w consecutive increases (the first byte of a chunk never counts as one), and RAM after the first byte beyond the chunk's first w + 1 bytes that is at least as large as all of those. This holds for both interfaces and all w.",
 ["inputs","configurations"],"all byte strings within bound, all w",
 "One recorded edge list per algorithm.",
 ["src/mii.rs","src/ram.rs"],"comparison and counter logic in MiiIncr::push and RamState::push",[])
p("C12","Constructors configure what they document",
 "Chunkers built by the documented constructors and defaults behave as documented: zpaq's with_average_size_pow_2 / default (average, 64<<f and 8128<<f limits), with_max_size and with_range (average a quarter of the maximum, limits as given), gear's average size, pigz's bits, zstd's target section size, gzip's 8192/4096, bup's 64 byte window, buzhash's noms parameters, FastCDC's 2/8/64 KiB and Mii's 5 all determine the actual edges.",
 ["configurations","inputs"],"all parameter values in the documented range",
 "Only defaults and one zpaq exponent are ever constructed in tests, and on data where limits play no role.",
 ["src/zpaq.rs","src/gear.rs","src/pigz.rs","src/zstd.rs","src/gzip.rs","src/bup.rs","src/buzhash.rs","src/fastcdc.rs","src/mii.rs"],"constructors and their parameter arithmetic",[])
p("C13","No panic or overflow for any valid configuration",
 "For every configuration the constructors accept within their documented domain (including extreme sizes and limits up to the full integer range) no call on any input panics, overflows an integer or indexes out of bounds, in debug builds as in release builds, as long as the caller follows the documented protocol.",
 ["inputs","configurations","histories"],"all parameter values of the integer types in the valid domain, all inputs within bound",
 "Tests use default-like parameters; overflow needs extreme parameters or particular data.",
 ["src/lib.rs","src/range.rs"]+ALL,"index arithmetic, counters, shifts, modulo and slice ranges",[])
p("C14","Instances are independent, copies and equality are faithful",
 "Chunking never changes a configured instance: any number of search states and incremental chunkers obtained from it (at any time, used in any interleaving) behave like the first one. A clone taken in the middle of a stream continues exactly like the original without affecting it, and configurations or states that compare equal behave the same.",
 ["inputs","histories","configurations"],"all interleavings of two streams within bound, clones at every position",
 "No test uses one configuration for two streams at once, clones a chunker mid-stream or compares instances.",
 ["src/lib.rs"]+ALL,"to_search_state / to_chunk_incr / Clone / PartialEq",[])
p("C15","Range limits mean what std ranges mean",
 "For every kind of range bounds and every value, the range helper reports a value as under the minimum, over the maximum or contained exactly as the mathematical interval says (so contained if and only if neither under nor over, and in agreement with the standard library), and converting a range to a bound pair or cloning a bound preserves it.",
 ["inputs","configurations"],"all nine combinations of included/excluded/unbounded bounds, all u64 (and u8, i64) values",
 "Only one doc example exercises bound_cloned on one value; under_min / exceeds_max / contains / into_tuple have no test.",
 ["src/range.rs"],"RangeExt and bound_cloned",[])
p("C16","The public rolling digest is a function of the window",
 "For RollSumIncr driven byte by byte, the digest after any history equals the rsync style digest computed from scratch over the last window bytes (zeros before the start), at_split() says exactly whether the digest's low 13 bits are all set, and push() reports an edge after the first byte for which this is the case.",
 ["inputs","histories","configurations"],"all byte histories within bound, all window lengths within bound, default window",
 "Compared with another crate on random data and default window only.",
 ["src/bup.rs"],"RollSumIncr::roll_byte, digest, at_split, push",[("window, wofs","ring buffer of last bytes"),("s1, s2","running sums")])
p("C17","Edges are causal and stable when data is appended",
 "The edges found in a prefix of some data are exactly the edges found in the whole data that lie within that prefix: appending data never adds, moves or removes an earlier edge, in both interfaces.",
 ["inputs","configurations"],"all byte strings, all prefixes, all valid configurations",
 "No test compares a prefix with its extension; look-ahead or length dependent behaviour shows only for particular lengths.",
 ["src/lib.rs"]+ALL,"loops that depend on data.len() (fast paths, minimum size skipping, window seeding)",[])
p("C18","Memory held is bounded by the window",
 "The memory an incremental chunker or a search state holds does not grow with the data fed, beyond a small multiple of the window; and find_chunk_edge() asks the caller to keep at most one window of bytes: nothing for the windowless algorithms, at most the window length for bup, buzhash and gzip, and 32 bytes for zstd.",
 ["inputs","histories","configurations"],"all inputs within bound, all slicings, all window lengths within bound",
 "No test looks at retained sizes; unbounded retention is functionally invisible.",
 ["src/gzip.rs","src/bup.rs","src/buzhash.rs","src/zstd.rs","src/gear.rs","src/fastcdc.rs","src/pigz.rs","src/zpaq.rs","src/mii.rs","src/ram.rs"],"window buffers (VecDeque, Box<[u8]>) and discard_ct",[])
p("C19","Average chunk size on random data matches the configuration",
 "On uniformly random data the mean chunk length of each algorithm is close to the one its parameters are documented to give.",
 ["inputs","configurations"],"distribution over random inputs",
 "Statistical statement over a distribution; a few seeds do not establish it.",
 ALL,"split criteria",[])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
