mod ast_kind;
mod ast_print_mode;
mod decl_kind;
mod error_code;
mod goal_prec;
mod param_kind;
mod parameter_kind;
mod sort_kind;
mod symbol_kind;

pub use self::ast_kind::Z3_ast_kind;
pub use self::ast_print_mode::Z3_ast_print_mode;
pub use self::decl_kind::Z3_decl_kind;
pub use self::error_code::Z3_error_code;
pub use self::goal_prec::Z3_goal_prec;
pub use self::param_kind::Z3_param_kind;
pub use self::parameter_kind::Z3_parameter_kind;
pub use self::sort_kind::Z3_sort_kind;
pub use self::symbol_kind::Z3_symbol_kind;
