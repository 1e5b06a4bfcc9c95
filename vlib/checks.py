"""Registry: property -> families, harnesses, bounds."""
from . import families as F
from . import fam_mem as M
from . import fam_lit as L
from . import fam_lang as G
from . import fam_reg as R
from . import fam_syn as S
from . import fam_robust as B
from . import fam_tok as T
from . import fam_const as K
from . import fam_rand as N
from . import fam_inl as X
from . import fam_many as Y
from .driver import Check
from .unit import U
from . import cli

CHECKS = {}


def add(pid, **kw):
    CHECKS[pid] = Check(pid, **kw)


VAL = 'every operand value, literal value, memory content and external result (bit-precise, 8/32/64-bit words) of each enumerated program shape; '
add('C01', progs=[F.fam_ops, F.fam_varshift, N.fam_exp], bounds=VAL, outside='expressions beyond the enumerated shapes')
add('C02', progs=[F.fam_conv, G.fam_enum], bounds=VAL)
add('C03', progs=[F.fam_cond, F.fam_flow, F.fam_nest, N.fam_ctl, Y.cases], bounds=VAL)
add('C04', progs=[F.fam_call, G.fam_structcall, N.fam_call], bounds=VAL)
add('C05', progs=[M.fam_ptr, M.fam_ptrdiff, M.fam_struct, M.fam_sizeof, M.fam_layout, M.fam_large, N.fam_mem, Y.members], bounds=VAL, outside='objects larger than the enumerated ones')
add('C06', progs=[M.fam_init, X.fam_lists, Y.inits], bounds=VAL)
add('C07', progs=[L.fam_chars, L.fam_ints, Y.strings], bounds='every byte of each text hole, every integer literal of the enumerated digit patterns; ' + VAL, outside='literals longer than the enumerated ones')
add('C08', progs=[R.fam_pressure, R.fam_context, N.fam_reg], bounds=VAL + 'up to 7 (thorough: 10) live temporaries below each register-hungry operator, calls nested up to 12 deep.', outside='larger expressions')
add('C09', progs=[G.fam_scope, N.fam_all, Y.scopes], bounds=VAL + 'up to 40 (thorough: 120) names, objects, blocks or nesting levels.', outside='larger programs')
add('C10', progs=[B.fam_bytes, B.fam_tokens, B.fam_short], bounds='every value of one byte at each position of 8 texts and at each token of 11 more; every pair (thorough: at all tokens) from an alphabet of 51 bytes; texts and parts of texts of up to 3 unknown bytes; token deletions, repetitions, exchanges and replacements.', outside='longer unknown stretches')
add('C11', progs=[T.fam_tok], bounds='every white space character in every gap, every pair of bytes between two operands, every identifier character at the positions of the keywords and of names of up to 65 (thorough: 257) characters.', outside='longer names')
add('C12', progs=[G.fam_prec, G.fam_chain], bounds='operand values 1..6 (enough to tell every grouping apart) in all operator pairs and half (thorough: all) of the triples; all values elsewhere.', outside='longer operator chains')
add('C14', progs=[K.fam_const, Y.enums], bounds='every value of the literals and of the controlling expressions; ' + VAL, outside='constant expressions other than literals, which the compiler does not accept')
add('C15', progs=[S.fam_types, S.fam_names, S.fam_constr, S.fam_dup, S.fam_labels, X.fam_fit], bounds='every assignment of the declared types to the operands of each operator and context, every choice of names from an alphabet of three, every literal of up to three digits.', outside='constraints that no template exercises')
add('C16', progs=[G.fam_effects, G.fam_unused, N.fam_eff], bounds=VAL)
H = 'containers'
add('C13', level='model_checking', units=[
    U(H, 'h_map', dict(NOPS=3, HM=3), dict(NOPS=4, HM=3)), U(H, 'h_map', dict(NOPS=2, HM=15), dict(NOPS=3, HM=15)), U(H, 'h_map_grow', dict(NOPS=3, HM=7), dict(NOPS=4, HM=7)), U(H, 'h_map_grow', dict(NOPS=5, HM=0), dict(NOPS=7, HM=1)),
] + [U(H, 'h_map_shrink', dict(NOPS=2, HM=1, MODE=m), dict(NOPS=3, HM=3, MODE=m)) for m in range(3)] + [U(H, 'h_set', dict(NOPS=2, HM=1, MODE=m), dict(NOPS=2, HM=7, MODE=m)) for m in range(4)]
    + [U(H, 'h_map_string', dict(NOPS=2), dict(NOPS=3)), U(H, 'h_vector', dict(NOPS=3), dict(NOPS=4)), U(H, 'h_vector', dict(NOPS=1, MODE=1), dict(NOPS=2, MODE=1)), U(H, 'h_hash'), U(H, 'h_hash_string', dict(NOPS=4), dict(NOPS=8)), U(H, 'h_pair')])

add('C17', level='model_checking', units=[U('cli', 'h_fault', dict(TEXT=t), replay=cli.replay) for t in range(6)] + [U('cli', 'h_name', dict(NLEN=n), replay=cli.replay) for n in (1, 2, 3, 4, 5)] + [U('cli', 'h_argc', replay=cli.replay)],
    bounds='one failing file operation (fopen, fseek, ftell, fread of any length, any write, fclose) at every point of 6 compilations; all file names up to 5 characters from an alphabet of five; 0 to 2 arguments.', outside='two failures in one run, allocation failures, signals')
