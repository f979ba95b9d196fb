WICK_ASSUME = ["operators are fermionic (the engine has no boson contractions)", "coefficients are arbitrary reals; rational arithmetic itself is checked by C06",
  "bounded by the operator counts and leg numbers listed per job"]
def J(name, harness, defs, bound, reach=(), **kw):
    return dict(name=name, harness=harness, defs=['-D' + d for d in defs], bound=bound, must_reach=list(reach), **kw)
def sp(s): return 'SPACES="%s"' % s
COMB = ['combinatorics.cc', 'rational.cc', 'orbital_space.cc', 'helpers.cc']
JOBS = {
 'C01': dict(assumptions=WICK_ASSUME, jobs=[
   J('c01_2op', 'c01_wick.cc', ['NOPS=2', sp('ov'), 'MAXLEGS=8', 'MAXC=3', 'MAXOP=4'], '2 operators over o,v; <=3 legs of a kind, <=4 per operator, <=8 legs', ['several terms'],
     deep=dict(defs=['-DNOPS=2', '-DSPACES="ov"', '-DMAXLEGS=10', '-DMAXC=3', '-DMAXOP=6'], seconds=600, bound='2 operators over o,v; <=3 legs of a kind, <=6 per operator, <=10 legs')),
   J('c01_3op', 'c01_wick.cc', ['NOPS=3', sp('ov'), 'MAXLEGS=6', 'MAXC=2', 'MAXOP=4'], '3 operators over o,v; <=2 legs of a kind, <=6 legs', ['several terms'],
     deep=dict(seconds=600, defs=['-DNOPS=3', '-DSPACES="ov"', '-DMAXLEGS=8', '-DMAXC=2', '-DMAXOP=4'], bound='3 operators over o,v; <=2 legs of a kind, <=8 legs')),
 ]),
 'C02': dict(assumptions=WICK_ASSUME, jobs=[
   J('c02_g', 'c01_wick.cc', ['NOPS=2', sp('g'), 'MAXLEGS=8', 'MAXC=4', 'MAXOP=6'], '2 operators over one general space; <=4 legs of a kind, <=8 legs', ['several terms'],
     deep=dict(seconds=600, defs=['-DNOPS=2', '-DSPACES="g"', '-DMAXLEGS=10', '-DMAXC=5', '-DMAXOP=8'], bound='2 operators over one general space; <=10 legs')),
   J('c02_og', 'c01_wick.cc', ['NOPS=2', sp('og'), 'MAXLEGS=6', 'MAXC=3', 'MAXOP=4'], '2 operators over occupied + general; <=6 legs', ['several terms']),
   J('c02_g3', 'c01_wick.cc', ['NOPS=3', sp('g'), 'MAXLEGS=8', 'MAXC=2', 'MAXCUM=3'], '3 operators over one general space; <=2 legs of a kind, <=8 legs', ['several terms']),
 ]),
 'C03': dict(assumptions=WICK_ASSUME, jobs=[
   J('c03_og', 'c03_window.cc', [], '2 operators over o,g, <=2 legs of a kind, <=4 per operator, <=6 legs; symbolic window (min, max) and coefficients', ['empty window', 'some terms selected', 'all terms selected']),
   J('c03_cut', 'c03_window.cc', ['CUT', sp('g'), 'MAXC=3', 'MAXOP=6', 'MAXLEGS=8'], 'as above over g with <=8 legs; symbolic cumulant cutoff', ['some terms selected']),
   J('c03_3op', 'c03_window.cc', [sp('ov'), 'NOPS=3'], '3 operators over o,v, <=6 legs', thorough_only=True, seconds=600),
 ]),
 'C04': dict(assumptions=WICK_ASSUME, jobs=[
   J('c04_settings', 'c04_settings.cc', [], '2 operators over o,v, <=4 legs; graph canonicalization, threading, object reuse and history symbolic', ['some terms', 'nothing']),
   J('c04_print', 'c04_settings.cc', ['PRINTING', 'MAXC=1'], 'as above, <=1 leg of a kind, print level symbolic', ['some terms']),
   J('c04_g', 'c04_settings.cc', [sp('g'), 'MAXLEGS=6'], '2 operators over g, <=6 legs', ['some terms']),
   J('c04_linear', 'c04_settings.cc', [sp('g'), 'LINEAR=2', 'MAXLEGS=3'], 'sums of two products with symbolic coefficients over g, <=3 legs each', ['both products contribute']),
   J('c04_3op', 'c04_settings.cc', ['NOPS=3', 'MAXC=1'], '3 operators over o,v, <=1 leg of a kind', thorough_only=True, seconds=600),
   J('c04_linear2', 'c04_settings.cc', ['LINEAR=2', 'MAXLEGS=2', 'MAXC=1'], 'sums of two products over o,v', thorough_only=True, seconds=600),
 ]),
 'C05': dict(technique='symbolic execution of the LLVM IR with a log of every memory access of every task; Z3 decides for every pair of conflicting accesses whether some schedule allows them unordered',
   assumptions=WICK_ASSUME + ['memory model: an unordered conflicting pair (no happens-before through start, join, future, mutex) is a race; schedules are symbolic, each task is executed once per path',
     'accesses inside libstdc++/libc object code that is not compiled from headers are not logged'], jobs=[
   J('c05_ov', 'c05_race.cc', ['MAXLEGS=4'], '2 operators over o,v, <=4 legs, threaded; all schedules of the tasks', ['several tasks'], wit=0),
   J('c05_g', 'c05_race.cc', [sp('g'), 'MAXC=2', 'MAXLEGS=6'], '2 operators over g, <=6 legs, threaded', ['several tasks'], wit=0),
 ]),
 'C06': dict(assumptions=['boost::multiprecision::int1024_t (a library type) is replaced by a 64-bit integer in the symbolic build; operands are bounded so that no value leaves 64 bits; replay uses the real type',
   'one path per denominator value; numerators symbolic'], jobs=[
   J('c06', 'c06_rational.cc', ['MAXN=12', 'MAXD=4'], 'numerators |n|<=12, denominators |d|<=4, every operation, aliased operands', ['add', 'sub', 'mul', 'div', 'eq', 'neg', 'add alias', 'sub alias', 'mul alias', 'div alias', 'int'], shim=True, only=['rational.cc'],
     deep=dict(defs=['-DMAXN=60', '-DMAXD=6'], seconds=800, bound='numerators |n|<=60, denominators |d|<=6, every operation, aliased operands')),
   J('c06_big', 'c06_rational.cc', ['MAXN=3', 'MAXD=2', 'BLO=2', 'BHI=2'], 'numerators of magnitude 2^53 .. 2^53+3 (beyond the exact range of double; products of one such number), denominators |d|<=2', ['add', 'sub', 'mul', 'div', 'eq', 'neg', 'add alias', 'sub alias', 'mul alias', 'div alias'], shim=True, only=['rational.cc'],
     deep=dict(defs=['-DMAXN=4', '-DMAXD=3', '-DBLO=1', '-DBHI=3'], seconds=800, bound='numerators of magnitude 2^31, 2^53 and 10^12 plus 0..4, denominators |d|<=3')),
   J('c06_api', 'c23_api.cc', ['LO=0', 'HI=0', 'NUM=4', 'OPHI=4'], 'the operations offered to Python, |numerators| <= 4, denominators 1, 2, 3', ['add', 'sub', 'mul', 'div', 'eq'], shim=True),
 ]),
 'C07': dict(assumptions=['boost::multiprecision::int1024_t is replaced by a 64-bit integer in the symbolic build (lexical_cast and digit conversion included); replays use the real types',
   'a missing integer denotes 1 (the printed forms of 1 and -1 are the empty string and "-")', 'floating-point values are concrete on each path'], jobs=[
   J('c07_read', 'c07_text.cc', ['LEN=4'], 'every byte string of length <= 4', ['accepted', 'rejected'], shim=True, only=['rational.cc'], deep=dict(defs=['-DLEN=5'], seconds=800, bound='every byte string of length <= 5')),
   J('c07_read2', 'c07_text.cc', ['LEN=6', 'ALPHA="0 5/-"'], 'every string of length <= 6 over {0, blank, 5, /, -}', ['accepted', 'rejected'], shim=True, only=['rational.cc'], deep=dict(defs=['-DLEN=8', '-DALPHA="0 5/-"'], seconds=800)),
   J('c07_print', 'c07_text.cc', ['PRINT'], 'numerators |n| <= 40 and denominators <= 12, also multiplied by 1000000007; sign, position and format symbolic', ['printed'], shim=True, only=['rational.cc']),
   J('c07_digits', 'c07_text.cc', ['PRINTSYM', 'DIG=4', 'ND=3'], 'numerators of <=4 digits, every digit and the sign symbolic, denominators 1, 2, 7', ['printed'], shim=True, only=['rational.cc']),
   J('c07_long', 'c07_text.cc', ['PRINTSYM', 'DIG=12', 'ND=1'], 'integers of <=12 digits, every digit and the sign symbolic', ['printed'], shim=True, only=['rational.cc'], deep=dict(defs=['-DPRINTSYM', '-DDIG=17', '-DND=1'], seconds=600, bound='integers of <=17 digits')),
 ]),
 'C08': dict(assumptions=['operators and tensors with <=2 labels per tensor kind, antisymmetric or symmetric tensors (nonsymmetric ones are refused by the code)', 'idempotence is asserted for terms whose tensors have distinct labels'], jobs=[
   J('c08_o', 'c08_canon.cc', ['MAXTOT=4', 'POS=2', 'CLOSED'], 'closed terms, one occupied space, <=4 tensor indices in total, 2 index positions', ['vanishing', 'nonvanishing', 'idempotent']),
   J('c08_open', 'c08_canon.cc', ['MAXTOT=3', 'POS=3'], 'terms with free indices, <=3 tensor indices', ['vanishing', 'nonvanishing']),
   J('c08_boson', 'c08_canon.cc', [sp('ob'), 'MAXTOT=3', 'POS=1'], 'fermions and bosons', ['nonvanishing']),
   J('c08_ov', 'c08_canon.cc', [sp('ov'), 'MAXTOT=4', 'POS=1', 'CLOSED'], 'closed terms over two spaces', ['nonvanishing']),
   J('c08_big', 'c08_canon.cc', ['MAXTOT=6', 'POS=2', 'CLOSED', 'MAXT=3', 'MAXOPS=4'], 'closed terms, <=6 tensor indices, <=3 tensors, <=4 operators', thorough_only=True, seconds=800),
 ]),
 'C09': dict(assumptions=['index positions are arbitrary in 0..2^30; index names are derived from them by the code itself'], jobs=[
   J('c09_list', 'c09_sort.cc', ['LO=0', 'HI=0'], 'lists of <=4 indices with arbitrary positions', ['even', 'odd', 'repeated']),
   J('c09_tensor', 'c09_sort.cc', ['LO=1', 'HI=1'], 'tensors with <=3 upper and <=3 lower indices, arbitrary positions, every symmetry', ['antisymmetric', 'symmetric', 'refused']),
   J('c09_uneven', 'c09_sort.cc', ['LO=1', 'HI=1', 'UNEVEN'], 'antisymmetric tensors with 2+4, 4+2, 1+5, 5+1, 3+3 and 0+5 upper+lower indices, arbitrary distinct positions', ['antisymmetric']),
   J('c09_reindex', 'c09_sort.cc', ['LO=2', 'HI=2'], 'index maps with arbitrary (also overlapping and cyclic) keys and images, applied to terms', ['reindexed']),
   J('c09_expr', 'c09_sort.cc', ['LO=3', 'HI=3'], 'index maps applied to expressions of two terms with symbolic coefficients', ['terms stay apart', 'terms merge']),
   J('c09_reindex_sp', 'c09_sort.cc', ['LO=2', 'HI=2', 'SPC'], 'as above with symbolic spaces', ['reindexed'], thorough_only=True, seconds=600),
 ]),
 'C11': dict(assumptions=['coefficients are arbitrary reals (rational arithmetic itself is checked by C06)', 'terms are picked symbolically from a pool; sums of <=3 terms'], jobs=[
   J('c11_expr', 'c11_algebra.cc', [], 'expressions of <=3 terms (symbolic membership) with symbolic coefficients, every operation, aliased operands', ['add', '+=', '-=', 'neg', 'scale', 'divide', 'division by zero', 'product', 'dot', '+= self', '-= self', '*= self', 'equal', 'different', '+= term', 'a + b', 'contains', 'term *= self', 'a+b-b', 'scale by own coefficient'],
     deep=dict(defs=['-DNB=4'], seconds=600, bound='expressions of <=4 terms')),
   J('c11_api', 'c23_api.cc', ['LO=1', 'HI=1'], 'the operations on expressions offered to Python', ['add', 'sub', 'matmul', 'scale', 'neg', 'equal', 'different', 'measure', 'iadd']),
   J('c11_opex', 'c11_algebra.cc', ['OPEX'], 'operator expressions of <=3 terms with symbolic coefficients', ['add', 'scale', 'divide', 'product'], deep=dict(defs=['-DOPEX', '-DNB=4'], seconds=600)),
 ]),
 'C12': dict(assumptions=['tensors of a term commute: the adjoint of a product is compared up to their order'], jobs=[
   J('c12_term', 'c12_adjoint.cc', ['LO=0', 'HI=0'], 'terms with symbolic operators and tensors', ['term'], deep=dict(defs=['-DLO=0', '-DHI=0', '-DNOPS=5'], seconds=600)),
   J('c12_product', 'c12_adjoint.cc', ['LO=1', 'HI=1'], 'products of two terms', ['product']),
   J('c12_operator', 'c12_adjoint.cc', ['LO=2', 'HI=2'], 'diagrammatic operators with symbolic counts', ['operator']),
   J('c12_sum', 'c12_adjoint.cc', ['LO=3', 'HI=3'], 'sums with symbolic coefficients', ['sum']),
 ]),
 'C13': dict(assumptions=['coefficients are arbitrary reals', 'std::regex is executed symbolically'], jobs=[
   J('c13_comm', 'c13_series.cc', ['LO=0', 'HI=0'], 'commutators of 2, 3 and 4 sums with symbolic membership and coefficients', ['commutator']),
   J('c13_api', 'c23_api.cc', ['LO=2', 'HI=2'], 'commutators of <=4 operators and series as offered to Python', ['commutator', 'bch', 'op']),
   J('c13_bch', 'c13_series.cc', ['LO=1', 'HI=1', 'ORDER=5'], 'series of order <=5 for sums with symbolic coefficients', ['low order', 'nested commutators']),
   J('c13_build', 'c13_series.cc', ['LO=2', 'HI=2', 'TOK=2'], 'component strings of <=2 tokens, symbolic bytes', ['built', 'refused'], deep=dict(defs=['-DLO=2', '-DHI=2', '-DTOK=3'], seconds=600)),
   J('c13_build4', 'c13_series.cc', ['LO=2', 'HI=2', 'TOK=4', 'KNOWN'], 'component strings of <=4 tokens over registered spaces', ['built']),
 ]),
 'C14': dict(assumptions=['bosons and fermions; operator counts bounded per job'], jobs=[
   J('c14_reorder', 'c14_reorder.cc', ['LO=0', 'HI=0', 'MAXC=30'], 'products of <=3 operators, every count <=30', ['kept', 'reordered'], deep=dict(defs=['-DLO=0', '-DHI=0', '-DNOPS=4'], seconds=700, bound='products of <=4 operators')),
   J('c14_boson', 'c14_reorder.cc', ['LO=0', 'HI=0', sp('ob'), 'NOPS=2'], 'fermions and bosons', ['kept', 'reordered']),
   J('c14_merge', 'c14_reorder.cc', ['LO=1', 'HI=1'], 'sums of two products with symbolic coefficients', ['merged', 'apart']),
   J('c14_contract', 'c14_reorder.cc', ['LO=2', 'HI=2'], 'contraction before and after canonicalization', ['unchanged', 'reordered and contracted']),
 ]),
 'C15': dict(assumptions=['labels from {A, B, AB, empty}; index numbers 0..10^9, counts 0..10^9', 'a tensor is identified by label and indices: the symmetry flag is an attribute of the label, and the ordering mark of a term without operators means nothing'], jobs=[
   J('c15_index', 'c15_order.cc', ['LO=0', 'HI=1'], 'three indices and three second-quantized operators, arbitrary space, number and kind', ['chain index', 'equal index', 'chain operator', 'chain operator, quasiparticle order', 'equal operator']),
   J('c15_tensor', 'c15_order.cc', ['LO=2', 'HI=2'], 'three tensors with <=1 upper and lower index', ['equal tensor', 'chain tensor'], deep=dict(defs=['-DLO=2', '-DHI=2', '-DMAXI=2', '-DSPACES="ov"'], seconds=800, bound='three tensors with <=2 upper and lower indices')),
   J('c15_term', 'c15_order.cc', ['LO=3', 'HI=3', 'MAXO=1'], 'three terms with <=1 tensor and <=1 operator', ['equal term', 'chain term'], deep=dict(defs=['-DLO=3', '-DHI=3', '-DMAXO=2'], seconds=800, bound='three terms with <=1 tensor and <=2 operators')),
   J('c15_pair', 'c15_order.cc', ['LO=9', 'HI=9'], 'two terms with <=2 tensors and <=2 operators', ['equal pair of terms']),
   J('c15_diag', 'c15_order.cc', ['LO=4', 'HI=5'], 'three graph matrices and three diagram operators with arbitrary counts', ['chain counts', 'equal counts', 'chain diagram operator', 'equal diagram operator']),
   J('c15_sum', 'c15_order.cc', ['LO=6', 'HI=6'], 'sums of two arbitrary terms with symbolic coefficients', ['merged', 'apart']),
   J('c15_map', 'c15_order.cc', ['LO=7', 'HI=7'], 'map from three terms', [], thorough_only=True),
   J('c15_prod', 'c15_order.cc', ['LO=8', 'HI=8', sp('ov')], 'three products of <=2 diagram operators', ['equal operator product', 'chain operator product']),
 ]),
 'C16': dict(assumptions=['tensor labels are letters and digits and do not start with a digit (documented form)', 'a trailing comma in an index list is ignored by the reader', 'printed coefficients are those of rationals with small numerators (C07 covers the number format)'], jobs=[
   J('c16_index', 'c16_text.cc', ['LO=0', 'HI=0', 'LEN=4'], 'every byte string of length <=4 as an index', ['index accepted', 'index rejected'], deep=dict(defs=['-DLO=0', '-DHI=0', '-DLEN=6'], seconds=800, bound='every byte string of length <=6')),
   J('c16_tensor', 'c16_text.cc', ['LO=1', 'HI=1', 'HOLE=3'], 'label^{..}_{..}: any label byte, any <=3 index bytes in total, any one byte of the fixed text replaced', ['tensor accepted', 'scalar tensor accepted', 'tensor rejected'], deep=dict(defs=['-DLO=1', '-DHI=1', '-DHOLE=5'], seconds=800, bound='<=5 index bytes')),
   J('c16_index_rt', 'c16_text.cc', ['LO=2', 'HI=2', 'WIDE=999'], 'every index with number <=999', ['index round trip'], deep=dict(defs=['-DLO=2', '-DHI=2', '-DWIDE=9999'], seconds=600, bound='every index with number <= 9999')),
   J('c16_tensor_rt', 'c16_text.cc', ['LO=3', 'HI=3', sp('ov'), 'NL=4'], 'tensors with <=2 upper and lower indices', ['tensor round trip']),
   J('c16_blank', 'c16_text.cc', ['LO=6', 'HI=6'], 'blank text, and <=2 blank characters before and <=1 after a term', ['blank', 'blank around']),
   J('c16_coef_rt', 'c16_text.cc', ['LO=4', 'HI=4', sp('o'), 'ND=4', 'MAXN=25', 'NP=1', 'NL=1'], 'terms with numerators |n| <= 25 (symbolic) and denominators 1, 2, 3, 12', ['term round trip', 'normal-ordered term round trip'], shim=True),
   J('c16_digits', 'c16_text.cc', ['LO=4', 'HI=4', sp('o'), 'ND=1', 'NP=1', 'NL=1', 'COEFDIG=9'], 'terms with integer coefficients of <=9 digits, every digit and the sign symbolic', ['term round trip', 'normal-ordered term round trip'], shim=True),
   J('c16_fraction', 'c16_text.cc', ['LO=4', 'HI=4', sp('o'), 'ND=2', 'NP=1', 'NL=1', 'COEFDIG=6', 'MAXO=0', 'MAXT=1', 'MAXI=1'], 'tensor terms with numerators of <=6 digits, every digit and the sign symbolic, denominators 1 and 7', ['term round trip'], shim=True),
   J('c16_term_rt', 'c16_text.cc', ['LO=4', 'HI=4', sp('ob'), 'COEFS=4', 'MAXO=2', 'NP=1'], 'terms with <=1 tensor, <=2 operators (fermions and bosons)', ['term round trip', 'normal-ordered term round trip'], shim=True),
   J('c16_expr_rt', 'c16_text.cc', ['LO=5', 'HI=5', sp('ov'), 'COEFS=4', 'NP=1', 'ND=2', 'MAXO=0', 'NL=1'], 'expressions of <=2 tensor terms', ['zero round trip', 'single round trip', 'sum round trip'], shim=True),
   J('c16_expr_op', 'c16_text.cc', ['LO=5', 'HI=5', sp('ob'), 'COEFS=4', 'NP=1', 'ND=1', 'MAXT=0'], 'expressions of <=2 operator terms', ['zero round trip', 'single round trip', 'sum round trip'], shim=True),
   J('c16_expr_both', 'c16_text.cc', ['LO=5', 'HI=5', sp('o'), 'COEFS=4', 'NP=1', 'ND=1', 'NL=1'], 'expressions of <=2 terms with tensors and operators', ['sum round trip'], shim=True, thorough_only=True),
   J('c16_expr3', 'c16_text.cc', ['LO=5', 'HI=5', sp('o'), 'COEFS=2', 'NP=1', 'ND=1', 'NL=2', 'NT=3', 'MAXO=0'], 'expressions of <=3 terms', ['sum round trip'], shim=True, thorough_only=True, seconds=600),
 ]),
 'C10': dict(assumptions=['the oracle evaluates both sides on every Fock state and every assignment of orbitals to the labels (fermion occupation 0..1, boson 0..length of the product)', 'appended tensors other than the input ones must be deltas'], jobs=[
   J('c10_ov3', 'c10_vacuum.cc', ['NOPS=3', sp('ov')], 'products of <=3 fermion operators over two spaces, any index numbers up to 10^9, any coefficient, both modes', ['vanishes', 'one term', 'several terms']),
   J('c10_ov4', 'c10_vacuum.cc', ['NOPS=4', sp('ov')], 'products of <=4 fermion operators over two spaces', ['vanishes', 'one term', 'several terms'], deep=dict(defs=['-DNOPS=5', '-DSPACES="o"'], seconds=800, bound='products of <=5 fermion operators over one space')),
   J('c10_ob', 'c10_vacuum.cc', ['NOPS=3', sp('ob')], 'products of <=3 fermion and boson operators', ['vanishes', 'one term', 'several terms'], deep=dict(defs=['-DNOPS=4', '-DSPACES="ob"'], seconds=800, bound='products of <=4 fermion and boson operators')),
   J('c10_tensors', 'c10_vacuum.cc', ['NOPS=2', sp('ov'), 'LABELED', 'MAXT=2'], 'terms with <=2 tensors (one of them a delta) and <=2 operators, marked normal ordered or not', ['refused', 'vanishes', 'one term', 'several terms']),
   J('c10_sum', 'c10_vacuum.cc', ['NOPS=2', sp('ov'), 'NTERMS=2'], 'sums of two products of <=2 operators', ['vanishes', 'one term', 'several terms']),
   J('c10_b5', 'c10_vacuum.cc', ['NOPS=5', sp('b')], 'products of <=5 boson operators of one space', ['several terms'], thorough_only=True, seconds=800),
 ]),
 'C17': dict(assumptions=['creation operators stand left of annihilation operators in every term (canonical expressions)', 'index positions 0..10^9'], jobs=[
   J('c17_keys', 'c17_equations.cc', [sp('ovg'), 'NTERMS=1', 'MAXC=2', 'MAXA=2', 'MAXT=0'], 'one term, <=2 creation and <=2 annihilation operators over three spaces', ['different keys'], deep=dict(defs=['-DSPACES="ovg"', '-DNTERMS=1', '-DMAXC=3', '-DMAXA=3', '-DMAXT=0'], seconds=800, bound='one term, <=3 creation and <=3 annihilation operators over three spaces')),
   J('c17_rhs', 'c17_equations.cc', [sp('o'), 'NTERMS=1', 'MAXT=2'], 'one term with <=2 tensors of <=1 upper and lower index', ['different keys'], deep=dict(defs=['-DSPACES="ov"', '-DNTERMS=1', '-DMAXT=2'], seconds=800, bound='two spaces')),
   J('c17_two', 'c17_equations.cc', [sp('ov'), 'MAXI=0'], 'two terms over two spaces, <=1 creation and annihilation operator, <=1 tensor', ['different keys', 'shared key'], deep=dict(defs=['-DSPACES="ov"', '-DMAXI=1'], seconds=840, bound='tensors with <=1 upper and lower index')),
   J('c17_two2', 'c17_equations.cc', [sp('o'), 'MAXC=2', 'MAXA=2', 'MAXT=0'], 'two terms over one space, <=2 creation and annihilation operators', ['different keys', 'shared key']),
   J('c17_three', 'c17_equations.cc', [sp('o'), 'NTERMS=3', 'MAXI=0'], 'three terms over one space', ['different keys', 'shared key'], thorough_only=True, seconds=840),
 ]),
 'C18': dict(python=True, assumptions=['every index of the left-hand side appears on the right-hand side', 'compile_einsum is claimed for indices whose printed form is the space label and a number', 'ambit left-hand sides have one tensor', 'utils.compile_einsum is executed symbolically in Python against stubs of the extension classes'], jobs=[
   J('c18_shapes', 'c18_compile.cc', ['LO=0', 'HI=0', 'TOT=3'], 'every equation with <=3 index positions in total, both formats', ['einsum', 'ambit'], deep=dict(defs=['-DLO=0', '-DHI=0', '-DTOT=5'], seconds=700, bound='<=5 index positions')),
   J('c18_share', 'c18_compile.cc', ['LO=1', 'HI=1', 'OCC=3', 'MAXP=2'], 'every way in which 3 positions share indices (numbers 0..2)', ['einsum', 'ambit'], deep=dict(defs=['-DLO=1', '-DHI=1', '-DOCC=3', '-DMAXP=3'], seconds=600, bound='numbers 0..3')),
   J('c18_share4', 'c18_compile.cc', ['LO=1', 'HI=1', 'OCC=4', 'MAXP=1'], 'every way in which 4 positions share indices (numbers 0, 1)', ['einsum', 'ambit'], deep=dict(defs=['-DLO=1', '-DHI=1', '-DOCC=4', '-DMAXP=2'], seconds=700, bound='numbers 0..2')),
   J('c18_digits', 'c18_compile.cc', ['LO=1', 'HI=1', 'OCC=3', 'MAXP=-1'], 'three positions sharing indices with numbers 2, 12, 102, 112, 1002', ['einsum', 'ambit']),
   J('c18_factor', 'c18_compile.cc', ['LO=2', 'HI=2'], 'factors', ['factor']),
   J('c18_format', 'c18_compile.cc', ['LO=3', 'HI=3'], 'format names', ['format rejected', 'format accepted']),
   J('c18_refuse', 'c18_compile.cc', ['LO=4', 'HI=4'], 'right-hand sides with operators are refused', ['refused', 'compiled']),
   J('c18_many', 'c18_compile.cc', ['LO=5', 'HI=5'], 'more distinct indices than letters are refused', ['too many', 'enough letters']),
 ]),
 'C19': dict(assumptions=['names and indices as in the job bounds; a space listing itself as an elementary space is excluded', 'label(pos) outside the registered range is not covered'], jobs=[
   J('c19_two', 'c19_registry.cc', ['STEPS=2'], 'every sequence of two add_space or reset calls', ['accepted', 'rejected', 'reset']),
   J('c19_three', 'c19_registry.cc', ['STEPS=3', 'TYPES=0', 'MAXE=0'], 'every sequence of three calls, valid types', ['accepted', 'second accepted', 'rejected', 'reset', 'accepted after a rejection']),
   J('c19_three_e', 'c19_registry.cc', ['STEPS=3', 'TYPES=0', 'MAXE=1'], 'three calls with elementary spaces', ['accepted', 'second accepted', 'rejected', 'reset', 'accepted after a rejection'], deep=dict(defs=['-DSTEPS=3', '-DMAXE=1'], seconds=700, bound='three calls with every type and elementary space')),
   J('c19_two_i', 'c19_registry.cc', ['STEPS=2', 'MAXI=2', 'MAXE=0'], 'two calls with <=2 index names', ['accepted', 'rejected']),
   J('c19_many', 'c19_registry.cc', ['LO=1', 'HI=1'], 'more than eight spaces', ['all spaces represented', 'refused']),
   J('c19_types', 'c19_registry.cc', ['LO=2', 'HI=2'], 'every type name', ['type accepted', 'type rejected']),
   J('c19_names', 'c19_registry.cc', ['LO=3', 'HI=3'], 'index names', ['names']),
 ]),
 'C21': dict(assumptions=['factorials up to 20! (the range of long long int)', 'label arguments are those of registered spaces except in the unknown-label job'], jobs=[
   J('c21_pre', 'c21_factors.cc', [sp('ov'), 'MAXN=4'], 'operators over two spaces with <=4 legs of each kind', ['prefactor'], deep=dict(defs=['-DSPACES="ov"', '-DMAXN=6'], seconds=600, bound='<=6 legs of each kind')),
   J('c21_pre_o', 'c21_factors.cc', [sp('o'), 'MAXN=20'], 'operators over one space with <=20 legs of each kind', ['prefactor']),
   J('c21_sym', 'c21_factors.cc', ['LO=1', 'HI=1', 'LEN=4'], 'tensors with <=4 upper and <=4 lower indices (any spaces and numbers)', ['symmetry factor'], deep=dict(defs=['-DLO=1', '-DHI=1', '-DLEN=5'], seconds=600, bound='<=5 upper and lower indices')),
   J('c21_sym20', 'c21_factors.cc', ['LO=4', 'HI=4'], 'index lists with <=20 indices in each of two spaces (value below 2^63)', ['many indices']),
   J('c21_unknown', 'c21_factors.cc', ['LO=2', 'HI=2'], 'one component of <=3 operators, an unknown label at the end or not', ['components', 'unknown label']),
   J('c21_many', 'c21_factors.cc', ['LO=2', 'HI=2', 'NCOMP=2', 'MAXOPS=2'], 'two components, each with <=2 operators', ['components', 'repeated component', 'unknown label']),
   J('c21_same', 'c21_factors.cc', ['LO=2', 'HI=2', sp('o'), 'NCOMP=2', 'MAXOPS=4'], 'two components over one space, each with <=4 operators', ['components', 'repeated component', 'unknown label']),
   J('c21_expr', 'c21_factors.cc', ['LO=3', 'HI=3'], 'algebraic form of one component', ['algebraic form']),
   J('c21_expr2', 'c21_factors.cc', ['LO=3', 'HI=3', 'NCOMP=2', 'MAXOPS=2'], 'algebraic form of two components', ['algebraic form']),
 ]),
 'C23': dict(assumptions=['pybind11 itself is replaced by a stand-in that records the callables and default arguments (conversions between Python and C++ values are out of scope)', 'the C++ operation each binding stands for is covered by the other properties'], jobs=[
   J('c23_expression', 'c23_api.cc', ['LO=1', 'HI=1'], 'every operation on expressions of <=2 terms with symbolic coefficients', ['add', 'sub', 'matmul', 'scale', 'neg', 'equal', 'different', 'measure', 'iadd', 'iter', 'adjoint', 'canonicalize', 'new']),
   J('c23_operators', 'c23_api.cc', ['LO=2', 'HI=2'], 'every operation on sums of two operators with symbolic coefficients; commutators of <=4', ['add', 'sub', 'matmul', 'scale', 'eq', 'commutator', 'bch', 'add2', 'construct', 'op']),
   J('c23_wick', 'c23_api.cc', ['LO=3', 'HI=3'], 'every overload of contract, rank windows 0..4, settings', ['product', 'sum with factor', 'sum']),
   J('c23_objects', 'c23_api.cc', ['LO=4', 'HI=6'], 'indices, operators, tensors, terms, spaces, enumerations, equations', ['operator', 'sorted', 'tensor', 'index', 'by name', 'term', 'added', 'refused', 'equation', 'equations', 'reader']),
   J('c23_rational', 'c23_api.cc', ['LO=0', 'HI=0', 'NUM=5'], 'rationals with |numerator| <= 5 and denominators 1, 2, 3', ['add', 'sub', 'mul', 'div', 'eq', 'forms'], shim=True),
 ]),
 'C22': dict(python=True, technique='symbolic execution of the Python functions of wicked/utils.py: the functions run on symbolic integers, Z3 decides every branch and assertion', assumptions=['the extension module is a stub: a registry whose positions are an arbitrary permutation, formal sums for operators and expressions', 'space strings have distinct letters'], jobs=[]),
 'C20': dict(assumptions=[], jobs=[
   J('c20_fact', 'c20_comb.cc', ['TLO=0', 'THI=0'], 'every factorial that fits 64 bits', ['factorial'], only=COMB),
   J('c20_binom', 'c20_comb.cc', ['TLO=1', 'THI=1'], 'binomial(n,k), n <= 70, -3 <= k <= 75, where the value fits', ['binomial'], only=COMB),
   J('c20_binom1', 'c20_comb.cc', ['TLO=2', 'THI=2'], 'binomial(n,0), (n,1), (n,n-1), (n,n) for every int n >= 1', ['binomial, large argument'], only=COMB),
   J('c20_binom2', 'c20_comb.cc', ['TLO=5', 'THI=5'], 'binomial(n,2), (n,n-2) for n <= 4095', ['binomial, two of many'], only=COMB, deep=dict(defs=['-DTLO=5', '-DTHI=5', '-DWIDE2=16383'], seconds=600)),
   J('c20_sign', 'c20_comb.cc', ['TLO=3', 'THI=3'], 'permutation sign of <= 6 arbitrary distinct integers', ['odd permutation', 'even permutation'], only=COMB, deep=dict(defs=['-DTLO=3', '-DTHI=3', '-DPERM=7'], seconds=600)),
   J('c20_part', 'c20_comb.cc', ['TLO=4', 'THI=4'], 'integer partitions of n <= 14 with every length limit', ['partitions'], only=COMB, deep=dict(defs=['-DTLO=4', '-DTHI=4', '-DPARTN=20'], seconds=600)),
 ]),
}
NA = {}
