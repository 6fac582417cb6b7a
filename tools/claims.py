JN = ('Unbounded proof over the real functions: function contracts and inductive journal invariant, loops by invariants or full unrolling of constant counts. '
      'Assumes the NAND driver contracts and geometry bounds listed in the evidence; trusts clang IR extraction, the VC generator and the solvers.')
MN = ('Unbounded proof over the real functions of map.c: function contracts, the radix-tree invariant over ghost state, loops by invariants; the map layer is checked against the journal contracts, '
      'which are proved on journal.c. Assumes the NAND driver contracts, geometry bounds and what the evidence lists; trusts clang IR extraction, the VC generator and the solvers.')
CLAIMS = {
 'C01': ('proof', MN),
 'C02': ('proof', MN),
 'C03': ('proof', MN),
 'C04': ('proof', MN + ' That the size survives resume is proved under C15.'),
 'C05': ('proof', JN + ' Composition: nothing the last checkpoint needs is erased, reprogrammed or retired before a superseding checkpoint (keep, mark), a clean journal has its checkpoint on the chip (sync), and resume restores '
         'exactly the last checkpoint of a chip holding a log (resume). That every interrupted history leaves a log is argued in DESIGN.md, not machine-checked. Known finding D5 is excluded.'),
 'C15': ('proof', JN + ' The chip is assumed to hold a log (Chip.log in specs/journal.py): what the other properties establish about a chip, stated over arbitrary geometry, bad blocks and positions. Known finding D7 is excluded.'),
 'C11': ('proof', MN + ' Known finding D4 is excluded.'),
 'C12': ('proof', MN + ''),
 'C13': ('proof', MN),
 'C06': ('proof', JN),
 'C07': ('proof', JN),
 'C08': ('proof', JN),
 'C09': ('proof', JN),
 'C10': ('proof', JN),
 'C14': ('proof', JN),
 'C20': ('other', 'Bounded stand-in, not a proof: the decoder (Berlekamp-Massey plus root search) is run exhaustively on small chunks and on random chunks up to the maximum length. '
         'The field it computes in (C18) and the parity it starts from (C17) are proved.', 'bounded exhaustive and random execution of the real function (bounded stand-in for a deductive contract)'),
}
NA = {}
