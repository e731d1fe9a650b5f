"""Property id -> (level, check function)."""
import scalar, relate, arrays, diag, files, pure, tables, perf, wrap, text

TABLE = {p: ('proof', scalar.run) for p in scalar.PROPS}
TABLE.update({'C16': ('proof', relate.run_C16), 'C18': ('proof', relate.run_C18), 'C23': ('proof', relate.run_C23),
              'C19': ('proof', arrays.run_arrays), 'C20': ('proof', arrays.run_arrays), 'C21': ('proof', arrays.run_preload),
              **{p: ('proof', getattr(diag, 'run_' + p)) for p in ('C24', 'C25', 'C26', 'C27', 'C28', 'C29')},
              'C32': ('model_checking', diag.run_C32), 'C33': ('proof', files.run_C33), 'C34': ('proof', pure.run), 'C35': ('proof', tables.run_C35), 'C36': ('proof', perf.run_C36), 'C37': ('proof', wrap.run_C37), 'C38': ('proof', wrap.run_C38), 'C39': ('proof', text.run_C39)})
NA = {}
TM = 'contract over all inputs, discharged by a Taylor-model prover on IR extracted from the real code'
REL = 'relational contract between routines, discharged by symbolic execution of the extracted IR and z3'
ARR = 'loop contracts with inferred and proved invariants for every array length, discharged with z3'
TM_NOTE = ('Universal over the stated inputs: every path of the extracted code is executed symbolically over boxes that cover the '
           'domain, with rounding errors enclosed; trusts clang, the IR reader, the prover and libquadmath. Cross-checked by running '
           'the g++ build on sampled inputs of every box.')
REL_NOTE = ('Universal over the stated inputs: both sides are executed symbolically and compared bit by bit, floating-point operations '
            'abstracted by uninterpreted functions with only their sign symmetry and commutativity; trusts clang, the IR reader, the '
            'executor and z3.')
ARR_NOTE = ('Universal over length, contents and position: loop invariants are found by a template search and each is proved inductive; '
            'the scalar routines are uninterpreted. Assumes the arrays do not overlap. Trusts clang, the IR reader, the executor and z3.')
PRE_NOTE = ('Universal over inputs: each interposed symbol is executed symbolically and must call exactly the intended fast routine with '
            'the caller\'s argument and return its result; the call graph must have no cycle through an interposed symbol.')
DIA = 'function contracts over library contracts, discharged by symbolic execution of the extracted IR and z3'
DIA_NOTE = ('Universal over inputs, and over length and position for collections: the real headers are compiled against contracts of the '
            'standard library and executed symbolically, with loop invariants found by a template search and each proved inductive. '
            'Trusts clang, the IR reader, the executor, z3 and the library contracts. Cross-checked by running the g++ build with the '
            'real library.')
CMD_NOTE = ('Bounded: at most two arguments and two declared options besides help. Texts and names are arbitrary (uninterpreted, with the '
            'parts before and after the first and last equal sign as functions). Trusts clang, the IR reader, the executor, z3 and the '
            'library contracts. Cross-checked by running the g++ build on random argument lists.')
FRM = 'frame contracts (no state, writes only results), discharged by a pointer-provenance fixpoint over the extracted IR'
FRM_NOTE = ('Universal over inputs, histories and thread schedules: every memory access and call reachable from a public function is shown to '
            'touch only own locals, arguments and constants. Trusts clang, the IR reader and the provenance analysis. Cross-checked by '
            'running every function from several threads under a race detector.')
KIND = {'C34': (FRM, FRM_NOTE), 'C32': (DIA, CMD_NOTE), **{p: (TM, TM_NOTE) for p in scalar.PROPS}, 'C16': (REL, REL_NOTE), 'C18': (REL, REL_NOTE), 'C23': (REL, REL_NOTE),
        'C19': (ARR, ARR_NOTE), 'C20': (ARR, ARR_NOTE), 'C37': (ARR, ARR_NOTE), 'C21': (REL, PRE_NOTE),
        **{p: (DIA, DIA_NOTE) for p in ('C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C33', 'C35', 'C36', 'C38', 'C39')}}


def technique(p):
    return KIND[p][0]


def note(p):
    return KIND[p][1]


def lookup(p):
    return TABLE[p]
