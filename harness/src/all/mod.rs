#[macro_use]
pub mod rt;
pub mod h_alg;
pub mod h_builtin;
pub mod h_data;
pub mod h_eval;
pub mod h_macro;
pub mod h_misc;
pub mod h_par;
pub mod refalg;
pub mod refpuz;
pub mod h_puz;
pub mod h_state;

type Table = &'static [(&'static str, extern "C" fn())];
#[allow(dead_code)]
pub const TABLES: &[Table] = &[h_alg::TABLE, h_puz::TABLE, h_misc::TABLE, h_eval::TABLE, h_data::TABLE, h_state::TABLE, h_builtin::TABLE, h_macro::TABLE, h_par::TABLE];
