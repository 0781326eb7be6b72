import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech])))
B='src/row/borrowed.rs';O='src/row/owned.rs';S='src/row/same_stage_vec.rs';A='src/row/accumulator.rs';BL='src/block.rs';PN='src/place_not.rs';MA='src/mask.rs';MU='src/music.rs';ST='src/stage.rs';BE='src/bell.rs';ML='src/method_lib/mod.rs';LS='src/method_lib/lib_serde.rs';ME='src/method/mod.rs';CL='src/method/class.rs';UT='src/utils.rs';PA='src/parity.rs'
p('C01','Every row reachable through the safe API is a true permutation',
 'Every row that safe public functions of the crate return, yield or leave behind in an output argument contains each bell of its stage exactly once and has at least one bell. Text or bells that do not form such a row are rejected (as an error, `None` or panic) instead of becoming a row.',
 ['inputs','programs'],'all arguments of every safe public function, with every row passed in being valid',
 'Tests parse a few strings and multiply a few rows; the guarantee ranges over every bell sequence and every operation of every stage, and unsafe code relies on it.',
 [B,O,A,MA,PN,S],[('distinctness/bounds checklist on construction','RowBuf::from_vec, RowBuf::from_vec_with_stage'),('stage check before unchecked arithmetic','Row::mul_result, mul_into, inv_into; PlaceNot::permute')])
p('C02','Same-stage row collections always hold whole, valid rows of one stage',
 'A same-stage row collection produced or mutated by safe public functions always consists of a whole number of rows, each a permutation of the collection\'s stage, and every row it hands out (by index, first/last, iteration from either end, pop or split) is exactly one of those whole rows. Rows of another stage, unvalidated bells, or ranges that do not fall on row boundaries never enter it.',
 ['inputs','histories'],'all histories of safe calls (each call preserves the invariant from an arbitrary valid collection) and all arguments',
 'Tests build a handful of small collections; a misaligned or foreign row shows only for particular stage/index combinations.',
 [S,UT],[('flat bell storage + stage','SameStageVec'),('row/bell range scaling','SameStageVec::to_bell_range, get_range_of_row'),('stage checks on growth','push, extend, extend_*')])
p('C03','A block has exactly one more row than it has annotations',
 'Every block produced or mutated by safe public functions has at least one row and exactly one annotation per row other than the final leftover row; this holds for every range, index and repetition argument on which the call returns.',
 ['inputs','histories'],'all blocks, annotation types, ranges and indices; every safe constructor and mutator from an arbitrary valid block',
 'Tests check row contents of a few full-range cases; they do not compare the two lengths over sub-ranges.',
 [BL],[('paired growth of rows and annots','AnnotBlock::extend_range, extend_from_within, split, map_annots*')])
p('C04','Objects of different stages are never combined',
 'Whenever a public operation combines rows, row collections, blocks, place notations or masks of two different stages, it does not produce a combined value: it reports the mismatch through its documented failure (error, None, false or panic).',
 ['inputs'],'all pairs of operands of differing stages, for every binary operation of the safe API',
 'Tests exercise equal stages almost exclusively; a missing check shows only with mismatched operands and often yields a plausible result.',
 [B,S,BL,PN,MA,ST,A],[('IncompatibleStages::test_err','every stage-checked operation')])
p('C05','A fallible operation that reports an error leaves its operands unchanged',
 'When a public operation that mutates an argument returns an error (or None as a refusal), every value the caller passed by mutable reference is exactly as it was before the call. In particular a collection that rejects one item of a batch keeps none of the batch.',
 ['inputs','histories'],'all arguments of every fallible safe public function taking a mutable reference, including errors raised in the middle of a batch',
 'Tests assert the error value at most; they do not compare the target before and after, nor errors raised at a late item.',
 [S,B,BL,A,MA,PN],[('check-before-write order','mul_into, inv_into, push, pre_multiply, ...'),('roll-back of partial growth','SameStageVec::extend')])
p('C06','Parsing any text reports a result and never panics',
 'Parsing functions that take text (rows with or without a stage, row collections, blocks, place notation, place-notation blocks, masks, regexes, stage names) return a value or an error for every string, including empty text, non-ASCII text and repeated or out-of-range symbols; they never panic.',
 ['inputs'],'all UTF-8 strings and all stages',
 'Tests feed a few dozen well-formed strings; panics hide behind unusual text.',
 [O,S,BL,PN,MA,MU,ST],[('total matching and checked arithmetic in parsers','parse functions')])
p('C07','Deserialising any data reports an error instead of panicking',
 'Deserialising a bell, a stage or a method library from any input of the accepted data format yields a value or an error: out-of-range numbers, unknown class identifiers, zero stages and unnameable stages never cause a panic.',
 ['inputs'],'all values a deserialiser can feed to the visitors, all JSON documents',
 'There are no tests of malformed serialised data.',
 [BE,ST,LS,ML,ME],[('serde visitors','BellVisitor, StageVisitor'),('library unpacking','MethodLib::from_json')])
p('C08','Serialised values read back as the same value',
 'The number written for a bell or a stage is the number from which reading produces that same bell or stage, whichever integer width the format delivers. A method class is written as an identifier that reads back as the same class, and each library record field is written under the key it is read from.',
 ['inputs'],'all bells, stages, method classes and library records',
 'There is no serialisation test; the writer and the reader are separate code.',
 [BE,ST,LS],[('serialize_u64 / visit_* pairs','Bell, Stage'),('to_class_id / from_class_id','lib_serde')])
p('C09','Names are written and read from agreeing, unambiguous tables',
 'Every bell that has a one-character name is the bell that name parses to, names are unique, and no name collides with a symbol that place notation, masks or regexes reserve. Every named stage has a name whose lower-case form looks up that same stage, and the named stage constants have the sizes their names state.',
 ['inputs'],'all bells, all named stages, all reserved symbols',
 'Tests sample a few names; agreement must hold for each entry of separately written tables.',
 [BE,ST,PN,MA,MU],[('bell name table','Bell::from_name, Bell::to_char'),('stage name tables','Stage::name, Stage::from_lower_case_name')])
p('C10','Row, collection, block, notation and regex invariants cannot be bypassed safely',
 'No safe code outside the crate can construct or mutate the internals of rows, row collections, blocks, place notations, regexes or stages except through validating functions: their fields are private, no safe public function or trait implementation gives out mutable access to raw storage or builds them from unchecked parts. Reinterpreting bell storage as a row is only done between types of identical layout.',
 ['programs'],'all safe client programs',
 'Tests are themselves well-behaved clients; the claim is about every program that compiles.',
 [B,O,S,BL,PN,MU,ST],[('private fields','struct definitions'),('#[repr(transparent)] Row','src/row/borrowed.rs'),('unsafe marking of unchecked constructors','*_unchecked')])
p('C11','A stage never has zero bells',
 'No safe public function returns, stores or deserialises a stage of zero bells.',
 ['inputs'],'all arguments of every safe public function',
 'Tests construct ordinary stages; every row operation relies on non-zero stages.',
 [ST,B,MA],[('Stage::try_from','src/stage.rs'),('Stage::new','src/stage.rs')])
p('C12','Place notations from the safe API are well formed',
 'Every place notation produced by safe public functions has strictly increasing places inside its stage, with an even number of places before the first, between neighbours and after the last, so that applying it only swaps adjacent pairs. Every place-notation block is non-empty and all of its notations have the stage requested.',
 ['inputs'],'all strings, stages, row pairs and notation lists',
 'Tests compare a few dozen notations; gaps of the wrong parity show only for particular place combinations.',
 [PN],[('implicit-place insertion and ambiguity check','PlaceNot::from_sorted_slice'),('stage comparison','PnBlock::from_vec')])
p('C13','Regexes stay in normal form, and matching never hits an impossible case',
 'Every regex produced by safe public functions is in normal form: within each run of wildcards all single-bell wildcards come before at most one glob. Matching a regex produced by safe functions against any row never panics.',
 ['inputs'],'all element sequences, run lengths, stages and rows',
 'Tests normalise a few patterns; the matcher relies on the invariant through an unreachable branch.',
 [MU,MA],[('Regex::normalise','src/music.rs'),('from_elems_unchecked callers','Regex::runs_front, runs_back, all_runs')])
p('C14','Place-notation parse errors point inside the input',
 'Every position or range reported by a place-notation block parse error lies within the text that was parsed, and a reported range starts no later than it ends.',
 ['inputs'],'all strings and stages, including errors in later comma-separated sub-blocks',
 'Tests check positions in single-sub-block strings only.',
 [PN],[('index arithmetic','PnBlock::parse, parse_asym_block')])
p('C15','Method-library titles are stored and looked up under the same key',
 'A method loaded into a library is stored under the lower-cased form of the title it reports and under its own stage, and looking a title up uses the same lower-cased form, so case never affects lookup. A method read from a library record that omits its title gets exactly the title the writer would have omitted.',
 ['inputs','histories'],'all titles, stages and classes',
 'Tests need the network or sample few titles; the key is computed in separate places.',
 [ML,LS,ME],[('to_lowercase on insert and lookup','From<MethodLibSerde>, get_by_title'),('generate_title used by both directions','lib_serde')])
p('C16','Only successfully parsed library data reaches the cache',
 'The method-library cache file is written only after the same data has been parsed successfully, and it is read back from the same location it is written to. Failure to read, parse, fetch or write the cache is reported as absence and never as a panic.',
 ['fault_sequences','histories'],'all outcomes of file, network and parse operations',
 'No test touches the file system or network.',
 [ML],[('fetch_cc_lib ordering','src/method_lib/mod.rs')])
p('C17','Owned and borrowed rows agree on equality, order and hash',
 'Owned rows compare, order and hash exactly as the borrowed rows they dereference to, so that either form can be used to look up the other. Bells and stages order and compare by their numeric value.',
 ['inputs'],'all rows, bells and stages',
 'Tests compare rows only for equality; the hashing contract is never exercised.',
 [B,O,BE,ST],[('derived Eq/Ord/Hash over the single field','Row, RowBuf'),('Borrow<Row> for RowBuf','src/row/owned.rs')])
p('C18','Row products, inverses and solutions follow the documented element formulas',
 'For rows of equal stage the product of a and b has at each place p the bell of a at the place given by b\'s bell at p, the inverse has at each place the position of that bell in the original, and the equation solvers return the unique solution of their equation. Every spelling of these operations (operators, result-returning, writing into a buffer or row, accumulating from either side, unchecked) gives that same value.',
 ['inputs'],'all pairs of rows of every stage, for every spelling of the operation',
 'Tests evaluate a few products; a swapped operand or index shows only on rows that do not commute or are not self-inverse.',
 [B,O,A],[('element gather / scatter','Row::mul_unchecked, mul_into*, inv*'),('order of operands','solve_*, RowAccumulator')])
p('C19','What is written to an output buffer does not depend on its previous contents',
 'An operation documented to overwrite a caller-supplied row or buffer leaves in it a value determined by the other arguments alone, whatever row (of any admissible stage) the buffer held before.',
 ['inputs','histories'],'all prior contents of the output buffer, of shorter, equal or longer stage',
 'Tests start from one convenient buffer; stale contents show only when the old buffer is longer, shorter or unsorted.',
 [B,O,A,BL],[('clear/resize before writing','mul_into, inv_into_buf, copy_into, overwrite_from, RepeatIter::next_into')])
p('C20','Row collections return and build exactly the rows documented, in order',
 'Indexing, first/last, iteration, pushing, popping, splitting, extending (whole, by range, transposed, from itself) and pre-multiplying a row collection yield exactly the rows, in the order and at the positions, that the sequence-of-rows reading documents.',
 ['inputs'],'all collections, indices, ranges and transpositions on which the call succeeds',
 'Tests use one or two stages and full ranges; off-by-one and scaling errors show for particular ranges only.',
 [S,UT],[('range scaling and gather','SameStageVec')])
p('C21','Standard rows and row predicates mean what they say',
 'For every stage, rounds, backrounds and queens are the documented permutations, the tests for rounds and backrounds hold exactly for those rows, and place lookup, fixed bells and extension to a larger stage agree with the definition of a row.',
 ['inputs'],'all stages and all rows',
 'Tests check a few stages; parity of the stage and boundary stages matter.',
 [B,O,ST,BE],[('constructors','RowBuf::rounds, backrounds, queens'),('predicates','Row::is_rounds, is_backrounds, place_of, fixed_bells')])
p('C22','Lookups that report absence never panic',
 'Lookup functions that can answer "absent" (an optional row, annotation, name, place, split part or path) return that answer for every index, bell or name outside the valid range, and never panic.',
 ['inputs'],'all indices, bells and names including extreme values',
 'Tests query valid indices or one past the end.',
 [S,BL,B,BE,ST,MA,UT],[('Option-returning accessors','get, get_mut, split, place_of, path_of, from_name, name')])
p('C23','Block extension, splitting and repetition preserve row content and annotations',
 'Extending a block by a range of another block or of itself appends exactly that range of rows, transposed to continue from the leftover row, together with exactly that range of annotations in order. Splitting cuts rows and annotations at the same index with the shared row in both halves, and mapping annotations changes no row.',
 ['inputs'],'all blocks, ranges, indices and annotation functions on which the call succeeds',
 'Tests extend by the full range with trivial annotations.',
 [BL,S],[('paired row/annotation updates','AnnotBlock::extend_range, extend_from_within, split, map_annots*')])
p('C24','Mask operations follow the place-by-place definition',
 'A mask matches a row exactly when stages agree and every specified place holds that bell; containment and combination of masks follow the same place-by-place rule; multiplying a mask by a row on either side permutes places or relabels bells by the product rule; and a bell can be fixed through the checking setters only if it is not already fixed elsewhere.',
 ['inputs'],'all masks, rows, bells and places of valid range',
 'Tests sample a few masks.',
 [MA],[('element-wise loops','src/mask.rs')])
# declined
p('C25','Closures, groups and Cartesian products enumerate exactly the right rows',
 'The closure of a row, the least group containing rows, the group test and the multi-way product enumerate exactly the mathematically defined sets of rows.',
 ['inputs'],'all rows and row sets','Tests use small groups.',[B],[('worklist loops','Row::closure, least_group_containing, is_group, multi_cartesian_product')])
p('C26','Regex matching accepts exactly the rows the pattern denotes',
 'A regex matches a row exactly when the row can be split to fit the pattern, and the reported positions are those of the pattern\'s bells.',
 ['inputs'],'all regexes and rows','Tests sample patterns.',[MU],[('greedy matcher','Regex::run_match')])
p('C27','The number of matching rows equals the number of rows that match',
 'For every regex and stage the count of matching rows is the number of rows of that stage the regex matches, or absent when it is not representable.',
 ['inputs'],'all regexes and stages','Tests sample patterns.',[MU,UT],[('closed formula','Regex::num_matching_rows')])
p('C28','Method classification follows the Central Council framework',
 'The class, little, differential and jump flags computed for a method are those the framework defines.',
 ['inputs'],'all first leads','The only broad test needs the network.',[CL],[('classification procedure','src/method/class.rs')])
p('C29','Place notation denotes the documented change and round-trips through rows',
 'Applying a place notation keeps the bells in its places and swaps the rest pairwise; the notation between two rows reproduces the second from the first; symmetric block notation expands to the palindrome.',
 ['inputs'],'all notations and rows','Tests sample notations.',[PN],[('permute_unchecked, pn_between, PnBlock::parse','src/place_not.rs')])
p('C30','Parity, powers, hashes and run lengths are numerically correct',
 'Parity equals the parity of the permutation, powers equal repeated products, the fast hash distinguishes rows of one stage when representable, and run lengths count the longest initial run.',
 ['inputs'],'all rows, exponents and bell sequences','Tests sample values.',[B,PA,UT],[('numeric loops','Row::parity, pow_i, fast_hash; run_len')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P)); 
for x in P:
    assert len(x['title'])<=80,x['title']
