"""What decides each property: drivers (instantiations extracted to IR), contracts (by props tag), bounded stand-ins."""
ALLF=[0,1,2,3,4,5,6,7]
TB=['clang++-18 front end and opt-18 sroa/simplifycfg (extraction of /repo templates to LLVM IR)','the symbolic executor, block-matrix algebra and contract library in /verif/engine','z3',
    'Givaro field operations compute the residue they are specified to compute','cblas_*gemm/trsm/trmm/scal/axpy/copy compute their real-number specification','fflas_new/fflas_delete allocate and free']
AS=['element arithmetic is modelled in the ring of residues; absence of overflow/rounding of delayed sums is property C03',
    'size_t index arithmetic is treated as mathematical integers, with obligations that every dimension stays non-negative',
    'dimensions passed to cblas fit in int','partial correctness: termination is not proved','no exception is thrown by allocation',
    'loop invariants are inferred mechanically and then proved (base case and inductive step); a loop without provable invariant makes the function undecided, never proved']
def P(**k):
    k.setdefault('trusted',TB); k.setdefault('assumptions',AS); return k
def _splits(tmp,tier,seed):
    import splits
    return splits.prove(tmp,tier,seed)
def _wrap(tmp,tier,seed):
    import wrap
    return wrap.prove(tmp,tier,seed)
def _rng(tmp,tier,seed):
    import rngspec
    return rngspec.prove(tmp,tier,seed)
SMALL=['-D__FFLASFFPACK_PLUQ_THRESHOLD=4','-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=3','-D__FFLASFFPACK_LUDIVINE_THRESHOLD=5','-D__FFLASFFPACK_FTRTRI_THRESHOLD=3']
PLAN={
'C01':P(drivers=['blas3'],harness=[dict(src='blas3',modes=['fgemm'],fields=ALLF,budget=15)],bound='dimensions up to about 1400, 35 moduli per field up to the declared maximum, 0-3 Winograd levels'),
'C02':P(drivers=['blas3','syrk','lvl1','lvl2','tri'],arr=[dict(driver='perm',lib='perms')],props=['C01','C04','C05','C06','C07','C08','C09','C12'],kinds='^(frame|out-of-bounds|write-const|use-after-free|stride|null)$',dem='double',
  harness=[dict(src=x,modes=m,fields=[0,2],budget=12,env=dict(HX_ONLYFRAME='1'),flags=['-g1','-fsanitize=address']) for x,m in (('blas3',['fgemm','ftrsm','ftrmm','fsyrk']),('lvl1',['']),('lvl2',['']),('tri',['']),('transp',['']),('ffp',['pluq','solve','perm','ech']))]+
          [dict(src=x,modes=m,fields=[3,7],budget=8,env=dict(HX_ONLYFRAME='1')) for x,m in (('blas3',['fgemm','ftrsm','ftrmm']),('lvl1',['']),('lvl2',['']),('tri',['']),('ffp',['pluq','solve','perm','ech']))],
  bound='dimensions as in the harnesses of C01 and C04-C12; guard cells around and between rows of every operand, exact-size buffers under AddressSanitizer'),
'C03':P(drivers=[],custom=[_rng],harness=[dict(src='delay',fields=ALLF,budget=15)],bound='inner dimensions up to about 8000, random moduli up to the maximum, 0-2 Winograd levels, extreme operands',
  assumptions=['the block ranges of a matrix operand follow the windows the code writes (which window is which is C01/C02)','bounds kept in a helper are computed exactly (they are small multiples of representable numbers)','operand bounds times 4^levels stay representable and the number of Winograd levels is at most log2 of every dimension','a LazyTag Winograd product with unreduced operands only sees dimensions that are multiples of 2^levels (its only callers)','Givaro field operations on reduced operands return reduced results','cblas and igemm products over the integers are exact when no partial sum can leave the representable range','machine integers of sizes are mathematical integers; products inside MaxDelayedDim are checked for overflow']),
'C04':P(drivers=['blas3'],harness=[dict(src='blas3',modes=['ftrsm'],fields=ALLF,budget=15)],bound='dimensions up to 130'),
'C05':P(drivers=['blas3'],harness=[dict(src='blas3',modes=['ftrmm','ftrmm3'],fields=ALLF,budget=12)],bound='dimensions up to 130'),
'C07':P(drivers=['lvl1'],harness=[dict(src='lvl1',fields=[0,1,2,3,4,5,6,7],budget=15)],bound='lengths up to about 70, strides up to 4'),
'C06':P(drivers=['syrk'],harness=[dict(src='blas3',modes=['fsyrk'],fields=[0,2,3,4],budget=15),dict(src='blas3',modes=['fsyrk'],fields=[0,1,2,3,4,6],budget=12,flags=['-DSYRK_WINO']),dict(src='blas3',modes=['fsyrk_known'],fields=[0],budget=8,flags=['-DSYRK_WINO'])],bound='dimensions up to about 130'),
'C08':P(drivers=['lvl2'],harness=[dict(src='lvl2',fields=ALLF,budget=15)],bound='dimensions up to about 560, dot products up to 3200'),
'C09':P(drivers=['tri'],harness=[dict(src='tri',fields=ALLF,budget=12)],bound='sizes up to about 150'),
'C13':P(drivers=[],custom=[_splits],harness=[dict(src='cuts',fields=[0],budget=25,threads=4)],bound='1D up to 40 indices x 42 threads and 2D up to 9x9x12 exhaustively, larger sizes (to 1500, up to 300 threads) at random, parallel loop macros with 4 OpenMP threads'),
'C10':P(drivers=[],harness=[dict(src='ffp',modes=['pluq'],fields=ALLF,budget=15),dict(src='ffp',modes=['pluq'],fields=[0,2,6,7],budget=12,flags=SMALL)],bound='dimensions up to about 150, all ranks'),
'C11':P(drivers=[],harness=[dict(src='ffp',modes=['solve'],fields=ALLF,budget=15),dict(src='ffp',modes=['solve'],fields=[0,2,6,7],budget=12,flags=SMALL)],bound='dimensions up to about 100, all ranks'),
'C12':P(drivers=[],arr=[dict(driver='perm',lib='perms')],harness=[dict(src='ffp',modes=['perm'],fields=[0,1,2,7],budget=15)],bound='permutations up to about 100, matrices up to 100'),
'C19':P(drivers=[],arr=[dict(driver='trans',lib='transp',quickskip=r'(not_inplace|square_inplace)<.*(Modular<(long|int),|Simd128_impl<true, false, true, 4>|Simd128_impl<true, true, true, 2>)')],harness=[dict(src='transp',fields=[0,1,2,3,4,5],budget=10)],bound='dimensions up to 140, every element type and SIMD width',job_limit=300),
'C22':P(drivers=[],harness=[dict(src='ffp',modes=['ech'],fields=ALLF,budget=15),dict(src='ffp',modes=['ech'],fields=[0,2,6,7],budget=12,flags=SMALL)],bound='dimensions up to about 100, all ranks'),
'C17':P(drivers=[],custom=[_wrap],harness=[dict(src='cif',fields=[0],budget=20,threads=2)],bound='dimensions up to 10, five moduli, every declared entry point that is defined except RandomNullSpaceVector, KrylovElim, SpecRankProfile and trinv_left'),
}
NA={}
