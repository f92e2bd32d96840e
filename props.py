COMMON_TRUST = [
    'Kani/CBMC/z3 and rustc MIR semantics are trusted',
    'the harness VM (rs/src/vm.rs) implements the accessor methods of Core/its sub-traits; every word is the real provided method compiled from /repo',
    'data space: one representative base address and capacity (64 bytes), page size 4096 (page_size::get stubbed)',
    'callees replaced by a recorder of their contract in some VM kinds: abort_with (proved in C15), execute_word (proved in C09)',
]
PROPS = {
    'C01': dict(level='proof', functions=['swap', 'dup', 'p_drop', 'over', 'nip', 'rot', 'minus_rot', 'two_drop', 'two_dup', 'two_swap', 'two_over', 'depth', 'pick', 'p_to_r', 'r_from', 'r_fetch', 'two_to_r', 'two_r_from', 'two_r_fetch', 'fdup', 'fdrop', 'fswap', 'fnip', 'fover', 'frot', 'fpick', 'Stack::{push,pop,push2,push3}']),
    'C03': dict(level='proof', functions=['Stack::{push,push2,push3,pop,pop2,pop3,last,get,len,is_empty,as_slice,underflow,overflow,reset} for isize, f64, Control', 'check_stacks', 'clear_stacks']),
    'C02': dict(level='proof', functions=['plus', 'minus', 'star', 'slash', 'p_mod', 'slash_mod', 'one_plus', 'one_minus', 'negate', 'abs', 'invert', 'and', 'or', 'xor', 'lshift', 'rshift', 'zero_less', 'zero_equals', 'zero_greater', 'zero_not_equals', 'equals', 'not_equals', 'less_than', 'greater_than', 'within', 'p_true', 'p_false', 'cell_plus', 'cells', 'char_plus', 'float_plus', 'floats', 'aligned', 'faligned', 'max_n', 'max_u', 'noop'], abstract=['star', 'slash', 'p_mod', 'slash_mod']),
    'C04': dict(level='proof', functions=['fetch','store','c_fetch','c_store','ffetch','fstore','p_move','p_type','store_token','open_source','open_file','create_file','delete_file','run','forth','Memory::{has,has_range,limit,capacity}']),
    'C05': dict(level='proof', functions=['fetch','store','c_fetch','c_store','ffetch','fstore','p_move','Memory::{get_*,put_*}'], bounded={'move_inside':'counts up to 3 bytes in a 64-byte data space, arbitrary contents','move_window':'every source, target and count within 64 bytes, distinct contents','move_large':'random overlaps up to 1500 bytes'}),
    'C06': dict(level='proof', functions=['here','allot','align','falign','comma','DataSpace::{set_here,here,with_capacity}','Memory::{allot,align,align_f64,align_16bytes,aligned,aligned_f64,aligned_16bytes,compile_u8,compile_usize,compile_isize,compile_f64,compile_relative,compile_str,put_cstr}'], bounded={'put_cstr_bounded':'strings up to 6 bytes','compile_str_bounded':'strings up to 5 bytes'}),
    'C07': dict(level='proof', functions=['_do','_qdo','_loop','_plus_loop','unloop','leave','p_i','p_j','branch']),
    'C08': dict(level='proof', cells=['endcase_mismatch','case_endcase','of_endof'], functions=['imm_if','imm_else','imm_then','imm_begin','imm_until','imm_again','imm_while','imm_repeat','imm_do','imm_qdo','imm_loop','imm_plus_loop','imm_case','imm_of','imm_endof','imm_endcase','compile_leave','leave_part','semicolon','compile_branch','compile_zero_branch'], bounded={'leave_in_loop_bounded':'control stacks up to four deep','programs_bounded':'3000 random structured programs'}),
    'C09': dict(level='proof', functions=['execute_word','run','forth','nest','exit','execute','branch','zero_branch','lit','flit','p_s_quote','bye','compile_word','compile_nest','compile_var','compile_const','compile_unmark','compile_fconst','compile_nest_code','compile_integer','compile_float','compile_branch','compile_zero_branch','compile_comma','comma','to_body','to_name'], bounded={'run_bounded':'runs of up to three tokens from an arbitrary state'}),
    'C14': dict(level='proof', functions=['pause','me','suspend','resume','activate','reset']),
    'C15': dict(level='proof', functions=['abort_with','abort','execute_word','reset','clear_stacks','error','clear_error','handler_store','dot_error','exception::{description,From<Exception>}','Core::set_source_id']),
    'C10': dict(level='proof', hook=True, verus=['UINT_IN_BASE'], functions=['parser::{uint_in_base,sign,base,quoted_char,ascii}','evaluate_integer','base'], bounded={'number_value_bounded':'texts up to 4 bytes (the unbounded proof is the Verus unit)','literals_bounded':'6000 random texts up to 24 characters, interpreted and compiled'}),
    'C11': dict(level='proof', hook=True, verus=['DICTIONARY'], functions=['find','Wordlist::{push,hash,truncate}','Word::{is_hidden,nfa}','define','marker','unmark','create','immediate','compile_only'], bounded={'hash_bounded':'names up to 5 bytes','define_bounded_1':'names of one character','define_bounded_2':'names of two characters','define_bounded_3':'names of three characters','history_bounded':'random histories of 240 steps'}),
    'C13': dict(level='proof', hook=True, cells=['compile_word'], cells_n=200, verus=['PARSERS'], functions=['parse_word','parse','_skip','interpret_token','compile_token','evaluate_input','tick','bracket_tick','postpone','char','bracket_char','left_bracket','right_bracket','p_compiling','p_source_idx','p_set_source_idx','imm_paren','imm_backslash','token_empty'], bounded={'evaluate_input_bounded':'up to three tokens from an arbitrary state','char_words':'tokens of up to two ASCII characters','parsing_bounded':'random texts up to 24 characters','programs_bounded':'60 random programs per case'}),
    'C21': dict(level='proof', hook=True, cells=['semicolon','postpone_word','postpone_limit'], cells_n=256, functions=['colon','semicolon','create','constant','fconstant','p_var','p_const','p_fconst','does','_does','xdoes','_postpone','imm_recurse','compile_nest','compile_nest_code','left_bracket','right_bracket'], bounded={'programs_bounded':'random programs of up to 12 definitions'}),
    'C16': dict(level='proof', cells=['load_line_closed'], cells_n=300, functions=['file_size','file_position','close_file','create_file','delete_file','open_file','read_file','write_file','resize_file','reposition_file','close_source','set_source_id','p_load_line','load_line','dot_source_path','open_source','dot_source_line'], bounded={'histories_bounded':'random histories of 120 file operations on real files in a scratch directory'}),
    'C20': dict(level='proof', kani=['--no-overflow-checks'], functions=['fplus','fminus','fstar','fslash','fnegate','fabs','pi','fmin','fmax','f_zero_less_than','f_zero_equals','f_less_than','fproximate','s_to_f','f_to_s','floor','fround','fceil','fsqrt','fsin','fcos','ftan','fasin','facos','fatan','fatan2','fpowf','fsincos'], abstract=['floor','fround','fceil','fsqrt','fsin','fcos','ftan','fasin','facos','fatan','fatan2','fpowf','fsincos'], assumptions=['std functions of floats (sin .. powf, floor, round, ceil, sqrt) are uninterpreted: the word is proved to apply exactly that function to exactly its operands; CBMC checks for NaN results are off (NaN is a legal result)'], bounded={'fstar_value_bounded':'values of f*: operands with 8 fraction bits (all exponents, signs, infinities, NaN); random operands natively','fslash_value_bounded':'values of f/: operands with 4 fraction bits; random operands natively','fproximate_value_bounded':'values of f~: operands with 3 fraction bits; random operands natively'}),
    'C18': dict(level='proof', functions=['emit','p_type','dot_r','fdot_r','s_quote','dot_quote','dot_paren','flush_output'], assumptions=['core::fmt::write is replaced by a contract (it appends some numeral) in the padding contracts; the numerals themselves are checked natively only'], bounded={'dot_r_padding_bounded':'fields up to 6 wide, numerals of 1 to 3 characters','fdot_r_padding_bounded':'fields up to 6 wide, numerals of 1 to 3 characters','type_bounded':'ASCII strings of up to 2 characters at any address','numbers_bounded':'3000 random numbers, bases, fields and precisions','texts_bounded':'600 random definitions with strings'}),
    'C23': dict(level='proof', hook=True, kani=['--no-overflow-checks'], verus=['UINT'], functions=['evaluate_float','parser::{uint,fraction,sign,ascii}','compile_float'], assumptions=['tokens up to 256 bytes (digit runs of any length within them, by contract)','f64::powi is uninterpreted in the Kani contracts (checked natively against the decimal parser of std within 1e-12)'], bounded={'uint_bounded':'random texts up to 21 bytes (the unbounded proof is the Verus unit)','value_pushed_bounded':'values: integer parts up to 3, fractions and powers of few bits','value_compiled_bounded':'values: integer parts up to 3, fractions and powers of few bits','fraction_bounded':'texts up to 6 bytes','literals_bounded':'6000 random texts up to 24 characters'}),
    'C19': dict(level='proof', assumptions=['the sets of labels (crate hibitset: add, remove, contains, clear, layer3) are replaced by their contract'], functions=['imm_label','imm_goto','imm_call','imm_clear_labels','semicolon','compile_branch','compile_integer'], bounded={'chain':'chains of three forward jumps','programs_bounded':'1500 random programs of up to nine blocks'}),
}
