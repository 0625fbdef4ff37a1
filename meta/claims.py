VF = ('value-flow summary of the MIR (gated SSA, scalar evolution, global value numbering with normal forms) compared with the prescribed value')
A = ('Every output location of the anchored functions has one summary for all inputs; identical normal forms decide "held". A reported difference is '
     'confirmed by random interpretation of the summaries. Trusts the models of concrete-core, std and rayon in analysis/model.py; FFT rounding and noise are abstracted.')
CLAIMS = {
    'C01': (VF, A), 'C02': (VF, A), 'C19': (VF, A), 'C20': (VF, A), 'C21': (VF, A), 'C22': (VF, A), 'C23': (VF, A), 'C25': (VF, A),
    'C26': (VF, A), 'C27': (VF, A), 'C28': (VF, A),
}
for _k in 'C13 C30 C03 C04 C05 C06 C07 C08 C09 C10 C16 C17 C29 C31 C32 C33 C37 C39'.split():
    CLAIMS[_k] = (VF, A)
CLAIMS['C11'] = ('information-flow (taint) analysis of the MIR: ciphertext words are sources; branches, bounds, indices, shift amounts and allocation sizes are sinks',
                 'Flow-sensitive per function, context-sensitive by summaries, over every function reachable from the query entry points; trusts that concrete-core kernels are data-oblivious.')
CLAIMS['C12'] = ('type closure of the server state and call-graph reachability over MIR, with def-use checks',
                 'Every type reachable from the server state and queries, every function reachable from query processing; dynamic calls are over-approximated by closure creation sites.')
CLAIMS['C34'] = ('interprocedural lock-state dataflow, lock-order graph and effect analysis of closures handed to rayon',
                 'Every lock acquisition reachable from query processing; the borrow checker gives exclusivity of &mut; unsafe code is excluded by C38.')
CLAIMS['C35'] = ('control-flow order analysis: every rejecting check reachable before the first database write, with the guard condition taken from the value-flow summary',
                 'Every path from the entry points to the first write of server state.')
CLAIMS['C38'] = ('unsafe-operation inventory over THIR/MIR with def-use of every uninitialised view',
                 'All unsafe blocks, functions, impls, foreign items, raw pointers and transmutes in the crate; transform sizes from value-flow summaries.')
CLAIMS['C14'] = ('value-flow summary with draw positions (scalar evolution of the generator stream) plus an interprocedural origin analysis of every encryption call',
                 'A ciphertext family is accepted when its draw positions are in mixed-radix form, hence injective, and noise and generator are the context fields; copies of an encryption are seen as repeated positions.')
CLAIMS['C15'] = ('value-flow summary of the seeds under both seeding modes, with entropy atoms as sources',
                 'Every seed reaching a generator constructor of Context::new, for both values of the seeding flag and of the availability of the system seeder.')
CLAIMS['C18'] = ('value-flow summary of `main` with library calls uninterpreted and the printed text as a value (format templates decoded from the MIR), compared field by field with the header',
                 'Every command-line value (mode 0, 1, other; dry run or not) and parameter lists covering each mode first, repeated and last; clap, serde and fmt are trusted.')
CLAIMS['C24'] = (VF, 'Every location written by the substitution, its keys, the trace and the expansion, as iterates of the loop body; inside the trace and the '
                 'expansion the substitution and the trace are uninterpreted functions of key and ciphertext. A reported difference is confirmed by random '
                 'interpretation. Trusts the models of concrete-core; FFT rounding and noise are abstracted.')
CLAIMS['C36'] = ('value-flow summary of `simulate` with the cryptographic steps uninterpreted, compared with the prescribed protocol run; assertion conditions taken from the summary',
                 'Every path of the simulation, for all parameter and data values; the steps themselves are the subject of the other properties.')
T = 'not claimed yet: no check has been built for it so far'
NA = {}
from propdata import PROPS
for _k in PROPS:
    if _k not in CLAIMS:
        NA[_k] = T
