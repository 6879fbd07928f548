#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is reviewable as text)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
D='src/decompose.rs';R='src/recompose.rs';N='src/normalize.rs';L='src/lookups.rs';T='src/tables.rs';H='src/perfect_hash.rs';Q='src/quick_check.rs';S='src/stream_safe.rs';E='src/replace.rs';B='src/lib.rs'
dstate=[('buffer','(ccc, char) pairs in text order; a sorted ready part followed by an unsorted pending part',D+': Decompositions.buffer'),
        ('ready','range of the buffer that may be emitted; start<end, or both zero',D+': Decompositions.ready')]
rstate=[('state','Composing / Purging(i) / Finished(i)',R+': RecompositionState'),
        ('composee,last_ccc,buffer','the last starter, the class of the last uncomposed mark after it, and those marks',R+': Recompositions')]
p('C01','NFD and NFKD iterators emit exactly the UAX #15 decomposition',
  'For every sequence of Unicode scalar values, draining the NFD (NFKD) iterator yields exactly the full canonical (compatibility) decomposition of each character in turn, put into canonical order: marks between starters sorted by combining class, equal classes keeping their order, starters never moved. Nothing is lost, duplicated or emitted early, whatever the length of the text or of a run of marks, and the guarantee holds at every intermediate point of the iteration.',
  ['inputs','histories'],'every finite sequence of chars as source, every number of next() calls already made',
  'The tests run the official NormalizationTest lines and a few dozen strings: runs of at most a handful of marks, so spilling past the 4-entry inline buffer, long runs with equal classes, and pending marks left behind by a multi-character decomposition are sampled a few times only.',
  [D,N,L,H,T,B],dstate,
  [('push_back / sort_pending: stable sort of the pending block when a starter arrives',D),('reset_buffer / increment_next_ready: move the pending block down once the ready part is drained',D),('decompose_canonical / decompose_compatible',N)],
  ['UnicodeNormalization::nfd','UnicodeNormalization::nfkd','Decompositions::next'])
p('C02','NFC and NFKC iterators emit exactly the canonical composition (D117)',
  'For every sequence of Unicode scalar values, draining the NFC (NFKC) iterator yields exactly the result of the Unicode canonical composition algorithm applied to its NFD (NFKD): each character is combined with the last starter before it iff it is not blocked from it (D115) and a primary composite exists, and every other character is kept in order. The guarantee holds at every intermediate point of the iteration.',
  ['inputs','histories'],'every finite sequence of chars, every number of next() calls already made',
  'The conformance file exercises short cases; the blocking rule interacts with unbounded histories of composed and uncomposed marks and with three iterator states.',
  [R,D,N,L,H,T,B],rstate+dstate,
  [('Recompositions::next state machine',R),('compose (Hangul arithmetic, then table)',N),('composition_table / composition_table_astral',L)],
  ['UnicodeNormalization::nfc','UnicodeNormalization::nfkc','Recompositions::next'])
p('C03','Normalization forms are idempotent and agree with one another',
  'For every text s and every form X in NFC, NFD, NFKC, NFKD: X(X(s)) = X(s); NFD(NFC(s)) = NFD(s), NFC(NFD(s)) = NFC(s), and a compatibility form of any canonical form of s equals that compatibility form of s. Consequently two texts are canonically (compatibly) equivalent exactly when any of the corresponding normal forms agree.',
  ['inputs'],'every finite sequence of chars',
  'The conformance tests check these laws on the lines of NormalizationTest.txt and on single code points; the laws quantify over all strings and depend on global facts relating the decomposition, composition and class tables.',
  [D,R,N,L,T],dstate+rstate,
  [('decomposition, ordering and composition together with the tables they share',D+', '+R+', '+T)],
  ['nfc','nfd','nfkc','nfkd on the output of one another'])
p('C04','Quick checks never give a wrong definite answer',
  'For every sequence of chars and every form X, if the quick check for X answers Yes the text is equal to its X form, and if it answers No the text is different from its X form; for NFD and NFKD the quick check always gives a definite answer.',
  ['inputs'],'every finite sequence of chars, the four forms',
  'Only a handful of strings go through the quick checks in the tests; soundness of Yes relies on the whole quick-check property tables, the class table, and the ordering loop for every string.',
  [Q,T,L],[('last_cc','combining class of the previous character',Q+': quick_check')],
  [('ordering test and is_allowed dispatch in quick_check',Q),('qc_nfc, qc_nfd, qc_nfkc, qc_nfkd',T)],
  ['is_nfc_quick','is_nfd_quick','is_nfkc_quick','is_nfkd_quick'])
p('C05','is_nfc, is_nfd, is_nfkc and is_nfkd are exact',
  'For every string s and every form X, the authoritative check returns true if and only if normalizing s to X gives s back unchanged.',
  ['inputs'],'every string, the four forms',
  'The tests check the columns of the conformance file; exactness on all strings needs the soundness of both definite quick-check answers and of the comparison used for the rest.',
  [Q,T,L,D,R],[],[('match on the quick check, comparison with the normalized iterator otherwise',Q)],
  ['is_nfc','is_nfd','is_nfkc','is_nfkd'])
p('C06','Stream-safe processing follows UAX15-D4 and bounds runs of nonstarters',
  'For every sequence of chars the stream-safe iterator yields the input with U+034F inserted exactly where the Stream-Safe Text Process (UAX15-D4) requires and nothing else changed. Its output never contains, in NFKD, more than 30 nonstarters in a row; text that already satisfies this comes out unchanged, so the process is idempotent.',
  ['inputs','histories'],'every finite sequence of chars, every number of next() calls already made',
  'Four fixed strings are tested. The counter carries an unbounded history across characters whose decompositions start, end with, or consist only of nonstarters.',
  [S,L,T,N],[('nonstarter_count','trailing nonstarters, in NFKD, of what has been emitted',S),('buffer','character put back while a CGJ is emitted',S)],
  [('StreamSafe::next',S),('classify_nonstarters and the leading/trailing nonstarter tables',S+', '+T)],
  ['UnicodeNormalization::stream_safe'])
p('C07','Stream-safe checks are exact, and their quick versions never wrong',
  'For every string s, is_nfc_stream_safe(s) (is_nfd_stream_safe(s)) is true if and only if s is in NFC (NFD) and its NFKD has no run of more than 30 nonstarters; the quick versions answer Yes only when that is so and No only when it is not.',
  ['inputs'],'every string, both forms',
  'Four strings are tested for the quick checks and none for the authoritative ones beyond a fuzz corpus that is not part of the tests.',
  [Q,S,T],[('nonstarter_count','length of the current run of nonstarters',Q+': quick_check')],
  [('stream_safe branch of quick_check; comparison with stream_safe().nfX()',Q)],
  ['is_nfc_stream_safe','is_nfd_stream_safe','is_nfc_stream_safe_quick','is_nfd_stream_safe_quick'])
p('C08','Normalizing stream-safe text keeps it stream-safe',
  'For every text s that is stream-safe (no run of more than 30 nonstarters in NFKD), each of NFC(s), NFD(s), NFKC(s), NFKD(s) is stream-safe as well; in particular applying the stream-safe process and then normalizing gives text that is both normalized and stream-safe.',
  ['inputs'],'every finite sequence of chars, the four forms',
  'Not tested at all; follows only from a law relating the run length in NFKD to every normal form.',
  [S,D,R,N,T],[],[('nonstarter runs are preserved by decomposition, reordering and composition',S+', '+D+', '+R)],
  ['stream_safe().nfc()','stream_safe().nfd()','is_nfc_stream_safe'])
p('C09','Combining class and combining-mark lookups equal the Unicode database',
  'For every Unicode scalar value, canonical_combining_class returns its Canonical_Combining_Class and is_combining_mark returns whether its General_Category is Mark, as of the advertised Unicode version 16.0.0, with 0 and false for every character the database does not list.',
  ['inputs'],'every Unicode scalar value',
  'is_combining_mark is tested on a few characters and canonical_combining_class only through normalization; a perfect-hash lookup can be wrong for one key or hit a foreign slot for one of a million others.',
  [L,H,T],[],[('mph_lookup over salt/kv tables',H),('canonical_combining_class, is_combining_mark',L)],
  ['char::canonical_combining_class','char::is_combining_mark','UNICODE_VERSION'])
p('C10','Per-character decomposition equals the Unicode full decomposition',
  'For every Unicode scalar value, decompose_canonical (decompose_compatible) calls its sink with exactly the characters of the full canonical (compatibility) decomposition, in order: the algorithmic one for Hangul syllables, the database one where listed, and the character itself otherwise.',
  ['inputs'],'every Unicode scalar value',
  'The conformance test covers listed characters through strings; the complement and the Hangul arithmetic at block edges are covered by samples.',
  [N,L,H,T],[],[('decompose: ASCII path, Hangul arithmetic, table, identity',N),('*_fully_decomposed lookups slicing one shared array',L)],
  ['char::decompose_canonical','char::decompose_compatible'])
p('C11','compose(a, b) is exactly the primary composite of the pair',
  'For every pair of Unicode scalar values, compose(a, b) returns the primary composite (Hangul LV and LVT syllables included, composition exclusions honoured) when there is one and None otherwise; every composite decomposes canonically to the decomposition of a followed by that of b.',
  ['inputs'],'every pair of Unicode scalar values (1.2e12 pairs)',
  'A dozen pairs are tested; the set of pairs is far too large to enumerate, and the lookup packs two characters into one 32-bit hash key.',
  [N,L,H,T],[],[('compose_hangul',N),('composition_table (hash on packed pair), composition_table_astral',L+', '+T)],
  ['char::compose'])
p('C12','is_public_assigned equals the Unicode database',
  'For every Unicode scalar value, is_public_assigned is true exactly when the character is assigned (General_Category is not Cn) and not private use in the advertised Unicode version.',
  ['inputs'],'every Unicode scalar value',
  'A dozen code points are tested, among some 700 ranges.',
  [T],[],[('match over ranges',T+': is_public_assigned')],['char::is_public_assigned'])
p('C13','cjk_compat_variants replaces exactly the CJK compatibility ideographs',
  'For every sequence of chars, the iterator yields each character in order, replaced by its standardized variation sequence (unified ideograph, then variation selector) if it is a CJK compatibility ideograph that has one and unchanged otherwise; decompose_cjk_compat_variants gives the same per character, and no later canonical normalization of such a sequence loses the variation selector.',
  ['inputs','histories'],'every finite sequence of chars and every number of next() calls already made',
  'One string is tested; the iterator keeps one character of look-behind state and the table has a thousand entries.',
  [E,N,L,T],[('buffer','second character of a replacement',E)],[('Replacements::next',E),('cjk_compat_variants_fully_decomposed',L)],
  ['UnicodeNormalization::cjk_compat_variants','char::decompose_cjk_compat_variants'])
p('C14','Normalizing iterators are lazy: no needless read-ahead',
  'Constructing a normalizing iterator reads nothing from its source, and each call to next() reads from its source only while no output character is determined by what has been read: NFD/NFKD stop as soon as a starter has been seen in the decomposition, NFC/NFKC stop as soon as the pending starter can no longer change, stream-safe and cjk-variant iterators read at most one character. Hence buffering is bounded by the longest run of nonstarters, and infinite sources can be streamed.',
  ['inputs','histories'],'every source (including infinite ones), every number of next() calls already made',
  'Only a fuzz target outside the test suite looks at this.',
  [D,R,S,E],dstate+rstate,[('loop guard on ready.end',D),('return as soon as a starter does not compose; Purging before Composing',R)],
  ['number of items taken from the source per next()'])
p('C15','Iterators keep the Iterator protocol for any source',
  'For every source, fused or not, the decomposing and composing iterators stop polling it after its first None and keep returning None once finished; every size_hint given is a correct bound on the number of items still to come whenever the source\'s is.',
  ['inputs','histories'],'every source iterator (also one that would resume after None), every history of next() and size_hint() calls',
  'No test polls an exhausted iterator, uses an unfused source, or looks at size_hint in the middle of an iteration.',
  [D,R,E,S],[('iter: Fuse<I>','source guard',D)],[('Fuse around the source',D),('Finished state',R),('size_hint forwards the lower bound only',D+', '+E)],
  ['next() after exhaustion','size_hint()'])
p('C16','All entry points give the same result',
  'For every text, calling a transformation on the string slice, on any char iterator with the same characters, or (for one character) on the char gives the same sequence, and each trait method runs the transformation it is named after; the exported per-form checks and constructors likewise run the form they are named after.',
  ['inputs'],'every text, every transformation, the three receiver types',
  'The tests use mostly string slices; the eighteen one-line implementations are easy to cross-wire and only some are called by tests.',
  [B,D,R,E,S],[],[('three impls of UnicodeNormalization',B)],['nfd, nfkd, nfc, nfkc, cjk_compat_variants, stream_safe on &str, char, iterators'])
p('C17','Display prints exactly what iterating would yield and consumes nothing',
  'For every normalizing iterator in every intermediate state, formatting it writes exactly the characters that iterating it from that state would yield, propagates the first write error, and leaves the iterator unchanged.',
  ['inputs','histories'],'every text, every number of next() calls made before formatting',
  'No test formats an iterator after partially consuming it.',
  [D,R,E],[],[('Display clones the iterator and writes each char',D+', '+R+', '+E)],['format!("{}", iterator)','to_string()'])
p('C18','No input panics or makes an invalid char',
  'For every input no function or iterator of the crate panics (index or slice out of range, arithmetic overflow, buffer capacity) in any build profile, and every char built by unchecked conversion is a valid Unicode scalar value; a source of n characters is exhausted after finitely many steps.',
  ['inputs','histories'],'every char, pair of chars, source and history',
  'Tests execute a sample; unchecked conversions and table slices are only as safe as arithmetic and table facts that hold for all inputs.',
  [N,L,H,D,R,E,S,Q],dstate,[('Hangul arithmetic with from_u32_unchecked',N),('table indexing by hash, slicing of the shared decomposition arrays',L+', '+H),('index arithmetic on the buffers',D)],
  ['absence of panics and of undefined behaviour'])
p('C19','Results do not depend on crate features',
  'The behaviour of every public function and iterator is the same with and without the std feature: the code selected by every configuration satisfies the same specification.',
  ['configurations'],'both settings of the std feature',
  'The baseline tests run one configuration.',
  [B,'src/__test_api.rs','Cargo.toml'],[],[('no_std attribute and alloc imports are the only configuration-dependent items',B)],
  ['build with --no-default-features'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
