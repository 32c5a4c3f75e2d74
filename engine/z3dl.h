// Z3 loaded privately (dlopen) so that its symbols cannot clash with LLVM's libraries.
#pragma once
#include <z3.h>
#define Z3_FUNCS(X) \
    X(Z3_mk_config) X(Z3_del_config) X(Z3_mk_context) X(Z3_del_context) X(Z3_set_error_handler) X(Z3_mk_int_sort) X(Z3_mk_bool_sort) \
    X(Z3_mk_string_symbol) X(Z3_mk_const) X(Z3_mk_numeral) X(Z3_mk_int64) X(Z3_mk_add) X(Z3_mk_mul) X(Z3_mk_le) X(Z3_mk_eq) \
    X(Z3_mk_and) X(Z3_mk_or) X(Z3_mk_not) X(Z3_mk_ite) X(Z3_mk_true) X(Z3_mk_false) X(Z3_mk_implies) X(Z3_mk_solver) \
    X(Z3_mk_simple_solver) X(Z3_mk_solver_for_logic) X(Z3_solver_inc_ref) X(Z3_solver_assert) X(Z3_solver_push) X(Z3_solver_pop) \
    X(Z3_solver_check) X(Z3_solver_get_model) X(Z3_model_inc_ref) X(Z3_model_dec_ref) X(Z3_model_eval) X(Z3_get_numeral_string) \
    X(Z3_get_bool_value) X(Z3_mk_params) X(Z3_params_inc_ref) X(Z3_params_set_uint) X(Z3_params_set_bool) X(Z3_params_set_symbol) X(Z3_solver_set_params) \
    X(Z3_interrupt) X(Z3_solver_to_string) X(Z3_get_error_code) X(Z3_get_error_msg) X(Z3_global_param_set) X(Z3_mk_tactic) \
    X(Z3_mk_solver_from_tactic) X(Z3_tactic_inc_ref) X(Z3_mk_sub) X(Z3_mk_lt) X(Z3_ast_to_string) X(Z3_set_ast_print_mode) X(Z3_solver_get_reason_unknown)
struct Z3Api {
#define X(f) decltype(&::f) f;
    Z3_FUNCS(X)
#undef X
};
extern Z3Api z3;
void z3_load();
